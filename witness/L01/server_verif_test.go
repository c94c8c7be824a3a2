// overlay: pkg/server
package server

import (
	"context"
	"errors"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

// verifBus counts the subscriptions that are open
type verifBus struct {
	bus.MessageBus
	open atomic.Int64
	fail atomic.Int64 // subscriptions left until one fails, if positive
}

type verifReader struct {
	bus.Reader
	b    *verifBus
	once sync.Once
}

func (r *verifReader) Close() error {
	r.once.Do(func() { r.b.open.Add(-1) })
	return r.Reader.Close()
}

func (b *verifBus) wrap(r bus.Reader, err error) (bus.Reader, error) {
	if err != nil {
		return nil, err
	}
	if b.fail.Add(-1) == 0 {
		_ = r.Close()
		return nil, errors.New("no subscription")
	}
	b.open.Add(1)
	return &verifReader{Reader: r, b: b}, nil
}

func (b *verifBus) Subscribe(ctx context.Context, c bus.Channel, n int) (bus.Reader, error) {
	return b.wrap(b.MessageBus.Subscribe(ctx, c, n))
}

func (b *verifBus) SubscribeQueue(ctx context.Context, c bus.Channel, n int) (bus.Reader, error) {
	return b.wrap(b.MessageBus.SubscribeQueue(ctx, c, n))
}

func verifServer() (*RPCServer, *verifBus) {
	b := &verifBus{MessageBus: bus.NewLocalMessageBus()}
	sd := &info.ServiceDefinition{Name: "svc", ID: "SRV_1"}
	sd.RegisterMethod("claimed", false, false, true, false)
	sd.RegisterMethod("queued", false, false, false, true)
	sd.RegisterMethod("str", false, false, true, false)
	return NewRPCServer(sd, b, psrpc.WithServerTimeout(2*time.Second)), b
}

type verifMsg = *wrapperspb.StringValue

func verifEcho(_ context.Context, m verifMsg) (verifMsg, error) { return m, nil }

func verifEventually(t *testing.T, what string, f func() bool) {
	t.Helper()
	for range 500 {
		if f() {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal(what)
}

func verifRegister(s *RPCServer, kind string, topic string) error {
	if kind == "str" {
		return RegisterStreamHandler[verifMsg, verifMsg](s, kind, []string{topic}, func(psrpc.ServerStream[verifMsg, verifMsg]) error { return nil }, nil)
	}
	return RegisterHandler[verifMsg, verifMsg](s, kind, []string{topic}, verifEcho, nil)
}

func TestVerifRegister(t *testing.T) {
	for _, kind := range []string{"claimed", "queued", "str"} {
		subs := int64(2)
		if kind == "queued" {
			subs = 1
		}
		s, b := verifServer()
		if err := verifRegister(s, kind, "a"); err != nil || b.open.Load() != subs {
			t.Fatal(kind, err, b.open.Load())
		}
		if err := verifRegister(s, kind, "a"); err == nil || b.open.Load() != subs || len(s.handlers) != 1 {
			t.Fatalf("%s: registered twice: %v, %d subscriptions, %d handlers", kind, err, b.open.Load(), len(s.handlers))
		}
		if err := verifRegister(s, kind, "b"); err != nil || b.open.Load() != 2*subs {
			t.Fatal(kind, err, b.open.Load())
		}
		s.DeregisterHandler(kind, []string{"a"})
		s.DeregisterHandler(kind, []string{"a"})
		if b.open.Load() != subs || len(s.handlers) != 1 {
			t.Fatalf("%s: after deregistering one of two: %d subscriptions, %d handlers", kind, b.open.Load(), len(s.handlers))
		}
		for n := int64(1); n <= subs; n++ {
			b.fail.Store(n)
			if err := verifRegister(s, kind, "c"); err == nil || b.open.Load() != subs || len(s.handlers) != 1 {
				t.Fatalf("%s: subscription %d fails: %v, %d subscriptions, %d handlers", kind, n, err, b.open.Load(), len(s.handlers))
			}
		}
		b.fail.Store(0)
		if err := verifRegister(s, kind, "c"); err != nil {
			t.Fatal(kind, err)
		}
		s.Close(false)
		s.Close(true)
		if b.open.Load() != 0 || len(s.handlers) != 0 {
			t.Fatalf("%s: after close: %d subscriptions, %d handlers", kind, b.open.Load(), len(s.handlers))
		}
		if err := verifRegister(s, kind, "d"); err != psrpc.ErrServerClosed || b.open.Load() != 0 {
			t.Fatalf("%s: registered after close: %v, %d subscriptions", kind, err, b.open.Load())
		}
	}
}

func TestVerifRegisterConcurrently(t *testing.T) {
	for _, kind := range []string{"claimed", "queued", "str"} {
		for round := range 60 {
			s, b := verifServer()
			var ok atomic.Int64
			var wg sync.WaitGroup
			for range 6 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if verifRegister(s, kind, "a") == nil {
						ok.Add(1)
					}
				}()
			}
			if round%2 == 1 {
				wg.Add(1)
				go func() { defer wg.Done(); s.Close(true) }()
			}
			wg.Wait()
			if ok.Load() > 1 || round%2 == 0 && ok.Load() != 1 {
				t.Fatalf("%s: registered %d times", kind, ok.Load())
			}
			s.Close(true)
			verifEventually(t, kind+": subscriptions left", func() bool { return b.open.Load() == 0 })
		}
	}
}

func TestVerifGracefulClose(t *testing.T) {
	s, b := verifServer()
	var started, finished atomic.Int64
	release := make(chan struct{})
	if err := RegisterHandler[verifMsg, verifMsg](s, "queued", []string{"a"}, func(_ context.Context, m verifMsg) (verifMsg, error) {
		started.Add(1)
		<-release
		finished.Add(1)
		return m, nil
	}, nil); err != nil {
		t.Fatal(err)
	}
	now := time.Now()
	for range 3 {
		if err := b.Publish(context.Background(), s.GetInfo("queued", []string{"a"}).GetRPCChannel(), &internal.Request{
			RequestId: "r", ClientId: "c", SentAt: now.UnixNano(), Expiry: now.Add(20 * time.Second).UnixNano(),
		}); err != nil {
			t.Fatal(err)
		}
	}
	verifEventually(t, "requests are not handled", func() bool { return started.Load() == 3 })
	done := make(chan struct{})
	go func() { s.Close(false); close(done) }()
	select {
	case <-done:
		t.Fatal("closed gracefully with requests being handled")
	case <-time.After(50 * time.Millisecond):
	}
	close(release)
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("close never returns")
	}
	if finished.Load() != 3 {
		t.Fatalf("%d of 3 requests were finished", finished.Load())
	}
}

func TestVerifForcedClose(t *testing.T) {
	s, b := verifServer()
	started, release := make(chan struct{}), make(chan struct{})
	defer close(release)
	_ = RegisterHandler[verifMsg, verifMsg](s, "queued", []string{"a"}, func(_ context.Context, m verifMsg) (verifMsg, error) {
		close(started)
		<-release
		return m, nil
	}, nil)
	now := time.Now()
	_ = b.Publish(context.Background(), s.GetInfo("queued", []string{"a"}).GetRPCChannel(), &internal.Request{
		RequestId: "r", ClientId: "c", SentAt: now.UnixNano(), Expiry: now.Add(20 * time.Second).UnixNano(),
	})
	<-started
	done := make(chan struct{})
	go func() { s.Close(true); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("a forced close waits for the request being handled")
	}
}

func TestVerifNestedClose(t *testing.T) {
	s, _ := verifServer()
	var wg sync.WaitGroup
	for _, k := range []string{"claimed", "queued", "str"} {
		if err := verifRegister(s, k, "a"); err != nil {
			t.Fatal(err)
		}
		for range 3 {
			wg.Add(1)
			go func() { defer wg.Done(); s.DeregisterHandler(k, []string{"a"}) }()
		}
	}
	wg.Add(2)
	go func() { defer wg.Done(); s.Close(false) }()
	go func() { defer wg.Done(); s.Close(true) }()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("close never returns")
	}
	if len(s.handlers) != 0 {
		t.Fatalf("%d handlers left", len(s.handlers))
	}
}
