// overlay: internal/bus
package bus

import (
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc/internal"
)

type verifReader struct{ c chan []byte }

func (r *verifReader) read() ([]byte, bool) { b, ok := <-r.c; return b, ok }
func (r *verifReader) Close() error         { close(r.c); return nil }

func TestVerifEnvelope(t *testing.T) {
	for _, m := range []proto.Message{
		wrapperspb.String(""), wrapperspb.String("x"), wrapperspb.String(strings.Repeat("long", 1000)), durationpb.New(time.Second),
		&internal.Request{RequestId: "r", Multi: true, Metadata: map[string]string{"a": "b"}}, &internal.Msg{TypeUrl: "t", Channel: "c", Value: []byte("v")},
	} {
		for _, ch := range []string{"", "a", "a|b.C", "ü"} {
			b, err := serialize(m, ch)
			if err != nil {
				t.Fatal(err)
			}
			got, err := deserialize(b)
			if err != nil || !proto.Equal(got, m) {
				t.Fatalf("%v comes out as %v (%v)", m, got, err)
			}
			if c, err := deserializeChannel(b); err != nil || c != ch {
				t.Fatalf("channel %q comes out as %q (%v)", ch, c, err)
			}
		}
	}
}

func TestVerifSubscription(t *testing.T) {
	r := &verifReader{make(chan []byte, 100)}
	enc := func(m proto.Message) []byte { b, _ := serialize(m, ""); return b }
	unknown, _ := proto.Marshal(&internal.Msg{TypeUrl: "type.googleapis.com/no.such.Type", Value: []byte("x")})
	want := []string{"1", "2", "3", "4", "5"}
	r.c <- enc(wrapperspb.String("1"))
	r.c <- []byte{0xff, 0xff, 0xff}
	r.c <- enc(wrapperspb.String("2"))
	r.c <- unknown
	r.c <- enc(wrapperspb.String("3"))
	r.c <- enc(durationpb.New(time.Second))
	r.c <- nil
	r.c <- enc(wrapperspb.String("4"))
	r.c <- enc(wrapperspb.String("5"))
	s := newSubscription[*wrapperspb.StringValue](r, 1)
	for _, w := range want {
		select {
		case m, ok := <-s.Channel():
			if !ok || m.GetValue() != w {
				t.Fatalf("got %v %v, want %s", m, ok, w)
			}
		case <-time.After(5 * time.Second):
			t.Fatalf("%s never arrives", w)
		}
	}
	s.Close()
	select {
	case m, ok := <-s.Channel():
		if ok {
			t.Fatalf("got %v", m)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the channel stays open")
	}
}
