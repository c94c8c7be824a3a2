// overlay: internal/bus
package bus

import (
	"context"
	"fmt"
	"math/rand"
	"testing"

	"google.golang.org/protobuf/types/known/wrapperspb"
)

type verifSub struct {
	r       Reader
	channel string
	queue   bool
	got     int
}

// random histories of subscribing, closing and publishing against a plain model
func TestVerifLocalBus(t *testing.T) {
	for seed := int64(0); seed < 300; seed++ {
		r := rand.New(rand.NewSource(seed))
		b := NewLocalMessageBus()
		var subs []*verifSub
		since := map[string]map[*verifSub]int{}
		for step := 0; step < 80; step++ {
			ch := fmt.Sprint("c", r.Intn(2))
			switch r.Intn(5) {
			case 0:
				s := &verifSub{channel: ch, queue: r.Intn(2) == 0}
				if s.queue {
					s.r, _ = b.SubscribeQueue(context.Background(), Channel{Legacy: ch}, 200)
				} else {
					s.r, _ = b.Subscribe(context.Background(), Channel{Legacy: ch}, 200)
				}
				subs = append(subs, s)
				since[ch] = nil
			case 1:
				if len(subs) > 0 {
					i := r.Intn(len(subs))
					s := subs[i]
					func() {
						defer func() {
							if p := recover(); p != nil {
								t.Fatalf("seed %d step %d: close: %v", seed, step, p)
							}
						}()
						s.r.Close()
					}()
					if _, ok := s.r.read(); ok {
						t.Fatalf("seed %d step %d: message after close", seed, step)
					}
					subs = append(subs[:i:i], subs[i+1:]...)
					since[s.channel] = nil
				}
			default:
				text := fmt.Sprint(seed, ".", step)
				if err := b.Publish(context.Background(), Channel{Legacy: ch}, wrapperspb.String(text)); err != nil {
					t.Fatal(err)
				}
				queues, taken := 0, 0
				for i, s := range subs {
					l := s.r.(*localSubscription)
					n := len(l.msgChan)
					for range n {
						raw, _ := s.r.read()
						m, err := deserialize(raw)
						if err != nil || m.(*wrapperspb.StringValue).Value != text {
							t.Fatalf("seed %d step %d: subscription %d got %v", seed, step, i, m)
						}
					}
					switch {
					case s.channel != ch && n != 0:
						t.Fatalf("seed %d step %d: message of %s to a subscription of %s", seed, step, ch, s.channel)
					case s.channel == ch && !s.queue && n != 1:
						t.Fatalf("seed %d step %d: subscription %d got %d copies", seed, step, i, n)
					case s.channel == ch && s.queue:
						queues++
						taken += n
						if since[ch] == nil {
							since[ch] = map[*verifSub]int{}
						}
						since[ch][s] += n
					}
				}
				if queues > 0 && taken != 1 {
					t.Fatalf("seed %d step %d: %d of %d queue subscriptions got the message", seed, step, taken, queues)
				}
				// while nothing is opened or closed the turns differ by at most one
				min, max := 1<<30, 0
				for _, n := range since[ch] {
					if n < min {
						min = n
					}
					if n > max {
						max = n
					}
				}
				if len(since[ch]) > 0 && max-min > 1 {
					t.Fatalf("seed %d step %d: turns %d and %d", seed, step, min, max)
				}
			}
		}
	}
}
