// overlay: internal/bus
package bus

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/nats-io/nats.go"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// verifNats is a NATS server in memory for one connection
type verifNats struct {
	mu       sync.Mutex
	c        net.Conn
	subs     map[string][2]string // sid: subject, queue
	order    []string
	turn     int
	poison   bool
	subCount int
}

func newVerifNats(t *testing.T) (*verifNats, *nats.Conn) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	v := &verifNats{subs: map[string][2]string{}}
	go func() {
		c, err := l.Accept()
		if err == nil {
			v.c = c
			v.serve()
		}
	}()
	nc, err := nats.Connect("nats://"+l.Addr().String(), nats.NoReconnect())
	if err != nil {
		t.Skip(err)
	}
	t.Cleanup(func() { nc.Close(); l.Close() })
	return v, nc
}

func (v *verifNats) serve() {
	r := bufio.NewReader(v.c)
	_, _ = io.WriteString(v.c, "INFO {\"server_id\":\"x\",\"version\":\"2.9.0\",\"max_payload\":1048576,\"headers\":true}\r\n")
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		v.mu.Lock()
		switch strings.ToUpper(f[0]) {
		case "PING":
			_, _ = io.WriteString(v.c, "PONG\r\n")
		case "SUB":
			q := ""
			if len(f) == 4 {
				q = f[2]
			}
			v.subs[f[len(f)-1]] = [2]string{f[1], q}
			v.order = append(v.order, f[len(f)-1])
			v.subCount++
		case "UNSUB":
			delete(v.subs, f[1])
		case "PUB":
			n, _ := strconv.Atoi(f[len(f)-1])
			b := make([]byte, n+2)
			_, _ = io.ReadFull(r, b)
			var group []string
			for _, sid := range v.order {
				s, ok := v.subs[sid]
				if !ok || s[0] != f[1] {
					continue
				}
				if s[1] != "" {
					group = append(group, sid)
					continue
				}
				_, _ = fmt.Fprintf(v.c, "MSG %s %s %d\r\n%s", f[1], sid, n, b)
			}
			if len(group) > 0 {
				v.turn++
				_, _ = fmt.Fprintf(v.c, "MSG %s %s %d\r\n%s", f[1], group[v.turn%len(group)], n, b)
			}
		}
		v.mu.Unlock()
	}
}

func (v *verifNats) live(nc *nats.Conn) map[string]int {
	_ = nc.Flush()
	v.mu.Lock()
	defer v.mu.Unlock()
	r := map[string]int{}
	for _, s := range v.subs {
		r[s[0]]++
	}
	return r
}

type verifNatsSub struct {
	r     Reader
	ch    Channel
	queue bool
	c     chan string
	done  chan struct{}
}

// random histories of subscribing, closing and publishing against a plain model
func TestVerifNatsRouter(t *testing.T) {
	for seed := int64(0); seed < 25; seed++ {
		r := rand.New(rand.NewSource(seed))
		v, nc := newVerifNats(t)
		b := NewNatsMessageBus(nc)
		var subs []*verifNatsSub
		for step := range 50 {
			ch := Channel{Server: fmt.Sprint("s", r.Intn(2)), Local: fmt.Sprint("l", r.Intn(3))}
			ch.Legacy = ch.Server + "." + ch.Local
			switch r.Intn(3) {
			case 0:
				s := &verifNatsSub{ch: ch, queue: ch.Server == "s1", c: make(chan string, 100), done: make(chan struct{})}
				wrong := r.Intn(4) == 0
				there := false
				for _, o := range subs {
					there = there || o.ch.Server == ch.Server
				}
				if wrong && !there {
					continue
				}
				before := v.live(nc)
				var err error
				if s.queue != wrong {
					s.r, err = b.SubscribeQueue(context.Background(), ch, 100)
				} else {
					s.r, err = b.Subscribe(context.Background(), ch, 100)
				}
				if (err != nil) != wrong {
					t.Fatalf("seed %d step %d: subscribing gives %v", seed, step, err)
				}
				if wrong {
					if fmt.Sprint(before) != fmt.Sprint(v.live(nc)) {
						t.Fatalf("seed %d step %d: a refused subscription changes %v into %v", seed, step, before, v.live(nc))
					}
					continue
				}
				go func() {
					defer close(s.done)
					for {
						m, ok := s.r.read()
						if !ok {
							return
						}
						s.c <- verifNatsText(m)
					}
				}()
				subs = append(subs, s)
			case 1:
				if len(subs) > 0 {
					i := r.Intn(len(subs))
					s := subs[i]
					_ = s.r.Close()
					select {
					case <-s.done:
					case <-time.After(5 * time.Second):
						t.Fatalf("seed %d step %d: reading goes on after close", seed, step)
					}
					subs = append(subs[:i:i], subs[i+1:]...)
				}
			case 2:
				want := map[string]int{}
				for _, s := range subs {
					want[s.ch.Server] = 1
				}
				if got := v.live(nc); fmt.Sprint(got) != fmt.Sprint(want) {
					t.Fatalf("seed %d step %d: server subscriptions %v, want %v", seed, step, got, want)
				}
				text := fmt.Sprint(seed, ".", step)
				if err := b.Publish(context.Background(), ch, wrapperspb.String(text)); err != nil {
					t.Fatal(err)
				}
				_ = nc.Flush()
				plain, queued := 0, 0
				for _, s := range subs {
					if s.ch == ch && s.queue {
						queued = 1
					} else if s.ch == ch {
						plain++
					}
				}
				got := func() (p, q int) {
					for i, s := range subs {
						n := len(s.c)
						if s.ch != ch && n > 0 || n > 1 {
							t.Fatalf("seed %d step %d: %d messages of %v on %d %v", seed, step, n, ch, i, s.ch)
						}
						if s.queue {
							q += n
						} else {
							p += n
						}
					}
					return
				}
				for range 1000 {
					if p, q := got(); p >= plain && q >= queued {
						break
					}
					time.Sleep(5 * time.Millisecond)
				}
				time.Sleep(2 * time.Millisecond)
				if p, q := got(); p != plain || q != queued {
					t.Fatalf("seed %d step %d: %d of %d subscriptions and %d of %d queue subscriptions got the message", seed, step, p, plain, q, queued)
				}
				for _, s := range subs {
					for range len(s.c) {
						if m := <-s.c; m != text {
							t.Fatalf("seed %d step %d: got %q, want %q", seed, step, m, text)
						}
					}
				}
			}
		}
		for _, s := range subs {
			_ = s.r.Close()
		}
		if got := v.live(nc); len(got) != 0 {
			t.Fatalf("seed %d: server subscriptions %v left", seed, got)
		}
	}
}

// a server subscription that fails leaves no router behind
func TestVerifNatsFailedSubscription(t *testing.T) {
	_, nc := newVerifNats(t)
	b := NewNatsMessageBus(nc)
	bad := Channel{Server: "bad subject", Local: "l", Legacy: "x"}
	for range 2 {
		for _, f := range []func(context.Context, Channel, int) (Reader, error){b.Subscribe, b.SubscribeQueue} {
			if r, err := f(context.Background(), bad, 10); err == nil {
				t.Fatalf("subscribed to a channel the server refuses: %v", r)
			} else if strings.Contains(err.Error(), "mismatch") {
				t.Fatalf("a failed subscription left its router behind: %v", err)
			}
		}
	}
}

func verifNatsText(b []byte) string {
	m, err := deserialize(b)
	if err != nil {
		return err.Error()
	}
	return m.(*wrapperspb.StringValue).Value
}
