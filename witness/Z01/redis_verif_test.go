// overlay: internal/bus
package bus

import (
	"context"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"
)

type verifRedisSub struct {
	r       Reader
	channel string
	queue   bool
	c       chan string
	done    chan struct{}
}

func verifText(b []byte) string {
	m, err := deserialize(b)
	if err != nil {
		return err.Error()
	}
	return m.(*wrapperspb.StringValue).Value
}

// random histories of subscribing, closing and publishing against a plain model
func TestVerifRedisBus(t *testing.T) {
	for seed := int64(0); seed < 12; seed++ {
		r := rand.New(rand.NewSource(seed))
		v := newVerifRedis()
		b := NewRedisMessageBus(v.client())
		var subs []*verifRedisSub
		settle := func(step int) {
			t.Helper()
			want := map[string]bool{}
			for _, s := range subs {
				want[s.channel] = true
			}
			var got map[string]bool
			for range 500 {
				got = v.subscribed()
				if fmt.Sprint(got) == fmt.Sprint(want) {
					return
				}
				time.Sleep(10 * time.Millisecond)
			}
			t.Fatalf("seed %d step %d: subscribed to %v, want %v", seed, step, got, want)
		}
		for step := range 40 {
			ch := fmt.Sprint("c", r.Intn(3))
			switch r.Intn(3) {
			case 0:
				s := &verifRedisSub{channel: ch, queue: r.Intn(2) == 0, c: make(chan string, 100), done: make(chan struct{})}
				if s.queue {
					s.r, _ = b.SubscribeQueue(context.Background(), Channel{Legacy: ch}, 100)
				} else {
					s.r, _ = b.Subscribe(context.Background(), Channel{Legacy: ch}, 100)
				}
				go func() {
					defer close(s.done)
					for {
						m, ok := s.r.read()
						if !ok {
							return
						}
						s.c <- verifText(m)
					}
				}()
				subs = append(subs, s)
			case 1:
				if len(subs) > 0 {
					i := r.Intn(len(subs))
					s := subs[i]
					_ = s.r.Close()
					select {
					case <-s.done:
					case <-time.After(5 * time.Second):
						t.Fatalf("seed %d step %d: reading goes on after close", seed, step)
					}
					subs = append(subs[:i:i], subs[i+1:]...)
				}
			case 2:
				settle(step)
				text := fmt.Sprint(seed, ".", step)
				published := func() int {
					v.mu.Lock()
					defer v.mu.Unlock()
					return len(v.published)
				}
				before := published()
				_ = b.Publish(context.Background(), Channel{Legacy: ch}, wrapperspb.String(text))
				for range 500 {
					if published() > before {
						break
					}
					time.Sleep(10 * time.Millisecond)
				}
				plain, queued := 0, 0
				for _, s := range subs {
					if s.channel == ch && s.queue {
						queued = 1
					} else if s.channel == ch {
						plain++
					}
				}
				got := func() (p, q int) {
					for _, s := range subs {
						n := len(s.c)
						if s.channel != ch && n > 0 {
							t.Fatalf("seed %d step %d: message of %s on %s", seed, step, ch, s.channel)
						}
						if s.queue {
							q += n
						} else {
							p += min(n, 1)
						}
					}
					return
				}
				for range 500 {
					if p, q := got(); p >= plain && q >= queued {
						break
					}
					time.Sleep(10 * time.Millisecond)
				}
				time.Sleep(5 * time.Millisecond)
				if p, q := got(); p != plain || q != queued {
					t.Fatalf("seed %d step %d: %d of %d subscriptions and %d of %d queue subscriptions got the message", seed, step, p, plain, q, queued)
				}
				for _, s := range subs {
					for n := range len(s.c) {
						if m := <-s.c; m != text || n > 0 {
							t.Fatalf("seed %d step %d: copy %d of %q, want %q", seed, step, n, m, text)
						}
					}
				}
			}
		}
		settle(40)
		for _, s := range subs {
			_ = s.r.Close()
		}
	}
}
