// overlay: internal/stream

package stream

import (
	"context"
	"testing"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/info"
)

type verifAdapter struct {
	send func(ctx context.Context, msg *internal.Stream) error
}

func (a *verifAdapter) Send(ctx context.Context, msg *internal.Stream) error { return a.send(ctx, msg) }
func (a *verifAdapter) Close(string)                                         {}

// the context the stream was opened with ends while a message is unacknowledged
func TestVerifSendParentCanceled(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	a := &verifAdapter{send: func(context.Context, *internal.Stream) error { cancel(); return nil }}
	s := NewStream[*wrapperspb.StringValue, *wrapperspb.StringValue](ctx, &info.RequestInfo{}, "s", time.Second, a, nil,
		make(chan *wrapperspb.StringValue, 1), map[string]chan struct{}{})
	if err := s.Send(wrapperspb.String("x")); err == nil {
		t.Fatal("send of an unacknowledged message succeeded")
	}
}

// only the acknowledgement of the message itself makes its send succeed
func TestVerifSendOtherAck(t *testing.T) {
	var s Stream[*wrapperspb.StringValue, *wrapperspb.StringValue]
	a := &verifAdapter{}
	a.send = func(_ context.Context, m *internal.Stream) error {
		return s.HandleStream(&internal.Stream{StreamId: "s", RequestId: "other", Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}})
	}
	s = NewStream[*wrapperspb.StringValue, *wrapperspb.StringValue](context.Background(), &info.RequestInfo{}, "s", 20*time.Millisecond, a, nil,
		make(chan *wrapperspb.StringValue, 1), map[string]chan struct{}{"other": make(chan struct{})})
	if err := s.Send(wrapperspb.String("x")); err == nil {
		t.Fatal("send of an unacknowledged message succeeded")
	}
	if n := len(s.(*stream[*wrapperspb.StringValue, *wrapperspb.StringValue]).acks); n != 0 {
		t.Fatalf("%d pending acknowledgements left", n)
	}
}

// a message is acknowledged only when it is in the receive channel
func TestVerifAckAfterRecv(t *testing.T) {
	acked := 0
	a := &verifAdapter{send: func(_ context.Context, m *internal.Stream) error {
		if m.GetAck() != nil {
			acked++
		}
		return nil
	}}
	ch := make(chan *wrapperspb.StringValue, 1)
	s := NewStream[*wrapperspb.StringValue, *wrapperspb.StringValue](context.Background(), &info.RequestInfo{}, "s", time.Second, a, nil,
		ch, map[string]chan struct{}{})
	m := &internal.Stream{StreamId: "s", RequestId: "1", Expiry: time.Now().Add(time.Second).UnixNano(), Body: &internal.Stream_Message{Message: &internal.StreamMessage{}}}
	if err := s.HandleStream(m); err != nil || acked != 1 || len(ch) != 1 {
		t.Fatal(err, acked, len(ch))
	}
	m.RequestId = "2"
	if err := s.HandleStream(m); err == nil || acked != 1 {
		t.Fatal("a message that was dropped was acknowledged", err, acked)
	}
}
