// overlay: internal/stream
package stream

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/info"
)

type verifPeer struct {
	mu     sync.Mutex
	sent   []*internal.Stream
	closed int
	onSend func(m *internal.Stream) error
}

func (a *verifPeer) Send(_ context.Context, m *internal.Stream) error {
	a.mu.Lock()
	a.sent = append(a.sent, m)
	a.mu.Unlock()
	if a.onSend != nil {
		return a.onSend(m)
	}
	return nil
}

func (a *verifPeer) Close(string) {
	a.mu.Lock()
	a.closed++
	a.mu.Unlock()
}

type verifValue = *wrapperspb.StringValue

func verifOpen(a *verifPeer, size int) (Stream[verifValue, verifValue], chan verifValue) {
	c := make(chan verifValue, size)
	return NewStream[verifValue, verifValue](context.Background(), &info.RequestInfo{}, "s", 300*time.Millisecond, a, nil, c, map[string]chan struct{}{}), c
}

func verifIsClosed(c chan verifValue) bool {
	for {
		select {
		case _, ok := <-c:
			if !ok {
				return true
			}
		default:
			return false
		}
	}
}

func TestVerifCloseOnce(t *testing.T) {
	type closer struct {
		name string
		do   func(s Stream[verifValue, verifValue]) error
		is   func(error) bool
		code string
		text string
	}
	plain := errors.New("plain cause")
	code := func(c psrpc.ErrorCode, text string) func(error) bool {
		return func(err error) bool {
			var e psrpc.Error
			return errors.As(err, &e) && e.Code() == c && e.Error() == text
		}
	}
	remote := func(c, text string) func(s Stream[verifValue, verifValue]) error {
		return func(s Stream[verifValue, verifValue]) error {
			return s.HandleStream(&internal.Stream{StreamId: "s", Body: &internal.Stream_Close{Close: &internal.StreamClose{Code: c, Error: text}}})
		}
	}
	closers := []closer{
		{"nil", func(s Stream[verifValue, verifValue]) error { return s.Close(nil) }, func(e error) bool { return e == psrpc.ErrStreamClosed }, string(psrpc.ErrStreamClosed.Code()), psrpc.ErrStreamClosed.Error()},
		{"plain", func(s Stream[verifValue, verifValue]) error { return s.Close(plain) }, func(e error) bool { return e == plain }, "unknown", "plain cause"},
		{"typed", func(s Stream[verifValue, verifValue]) error { return s.Close(psrpc.NewErrorf(psrpc.NotFound, "typed")) }, code(psrpc.NotFound, "typed"), "not_found", "typed"},
		{"remote", remote("aborted", "peer"), code(psrpc.Aborted, "peer"), "", ""},
		{"remote plain", remote("unknown", "peer plain"), code(psrpc.Unknown, "peer plain"), "", ""},
	}
	for _, first := range closers {
		for _, second := range closers {
			a := &verifPeer{}
			s, c := verifOpen(a, 4)
			if err := first.do(s); err != nil {
				t.Fatalf("%s close gives %v", first.name, err)
			}
			if !first.is(s.Err()) || !verifIsClosed(c) || s.Context().Err() == nil || a.closed != 1 {
				t.Fatalf("after %s close: error %v, context %v, torn down %d times", first.name, s.Err(), s.Context().Err(), a.closed)
			}
			n := len(a.sent)
			if first.code == "" && n != 0 {
				t.Fatalf("%s close sends %v", first.name, a.sent)
			}
			if first.code != "" && (n != 1 || a.sent[0].GetClose() == nil || a.sent[0].GetClose().Code != first.code || a.sent[0].GetClose().Error != first.text || a.sent[0].StreamId != "s") {
				t.Fatalf("%s close sends %v", first.name, a.sent)
			}
			if err := second.do(s); !first.is(err) || !first.is(s.Err()) || a.closed != 1 || len(a.sent) != n {
				t.Fatalf("%s close after %s: %v, error %v, torn down %d times", second.name, first.name, err, s.Err(), a.closed)
			}
			if err := s.Send(wrapperspb.String("x")); !first.is(err) || len(a.sent) != n {
				t.Fatalf("send after %s close: %v", first.name, err)
			}
		}
	}
}

// a message that cannot be decoded closes the stream
func TestVerifUndecodable(t *testing.T) {
	a := &verifPeer{}
	s, c := verifOpen(a, 4)
	err := s.HandleStream(&internal.Stream{StreamId: "s", RequestId: "r", Expiry: time.Now().Add(time.Second).UnixNano(),
		Body: &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: []byte{0xff}}}})
	var e psrpc.Error
	if !errors.As(err, &e) || e.Code() != psrpc.MalformedRequest {
		t.Fatalf("gives %v", err)
	}
	select {
	case _, ok := <-c:
		if ok {
			t.Fatal("a message nobody sent")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the stream stays open")
	}
	if !errors.As(s.Err(), &e) || e.Code() != psrpc.MalformedRequest {
		t.Fatalf("stream error %v", s.Err())
	}
}

// closing waits for sends and receives that are under way
func TestVerifCloseWaits(t *testing.T) {
	for _, send := range []bool{true, false} {
		started, release := make(chan struct{}), make(chan struct{})
		a := &verifPeer{}
		a.onSend = func(m *internal.Stream) error {
			if m.GetClose() == nil {
				close(started)
				<-release
			}
			return nil
		}
		s, c := verifOpen(a, 4)
		go func() {
			if send {
				_ = s.Send(wrapperspb.String("x"))
			} else {
				_ = s.HandleStream(&internal.Stream{StreamId: "s", RequestId: "r", Expiry: time.Now().Add(time.Second).UnixNano(), Body: &internal.Stream_Message{Message: &internal.StreamMessage{}}})
			}
		}()
		<-started
		done := make(chan struct{})
		go func() { _ = s.Close(nil); close(done) }()
		select {
		case <-done:
			t.Fatal("closed with a message under way")
		case <-time.After(30 * time.Millisecond):
		}
		if verifIsClosed(c) || a.closed != 0 {
			t.Fatal("torn down with a message under way")
		}
		close(release)
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("close never returns")
		}
		if !verifIsClosed(c) || a.closed != 1 {
			t.Fatal("not torn down")
		}
	}
}

func TestVerifConcurrentClose(t *testing.T) {
	for range 200 {
		a := &verifPeer{}
		s, c := verifOpen(a, 4)
		var wg sync.WaitGroup
		for i := range 6 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if i%2 == 0 {
					_ = s.Close(errors.New("local"))
				} else {
					_ = s.HandleStream(&internal.Stream{StreamId: "s", Body: &internal.Stream_Close{Close: &internal.StreamClose{Code: "aborted", Error: "peer"}}})
				}
			}()
		}
		wg.Wait()
		if a.closed != 1 || !verifIsClosed(c) || len(a.sent) > 1 {
			t.Fatalf("torn down %d times, %d close messages", a.closed, len(a.sent))
		}
	}
}
