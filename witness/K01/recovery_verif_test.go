// overlay: pkg/middleware
package middleware

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
)

type verifKey struct{}

// a panic of any value becomes an internal error; everything else passes through
func TestVerifRecovery(t *testing.T) {
	rec := WithServerRecovery()
	var nilMap map[string]int
	for i, p := range []func(){
		func() { panic("text") },
		func() { panic(errors.New("an error")) },
		func() { panic(psrpc.NewErrorf(psrpc.NotFound, "typed")) },
		func() { panic(42) },
		func() { panic(struct{ a int }{1}) },
		func() { panic(&struct{}{}) },
		func() { panic(fmt.Stringer(nil)) },
		func() { panic(context.Canceled) },
		func() { nilMap["a"] = 1 },
		func() { _ = []int{}[len(nilMap)] },
	} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatalf("panic %d escaped: %v", i, r)
				}
			}()
			_, err := rec(context.Background(), wrapperspb.String("q"), psrpc.RPCInfo{}, func(context.Context, proto.Message) (proto.Message, error) {
				p()
				return wrapperspb.String("r"), nil
			})
			var e psrpc.Error
			if !errors.As(err, &e) || e.Code() != psrpc.Internal {
				t.Fatalf("panic %d gives %v", i, err)
			}
		}()
	}
	req, resp, fail := wrapperspb.String("q"), wrapperspb.String("r"), errors.New("failed")
	for _, c := range []struct {
		r proto.Message
		e error
	}{{resp, nil}, {nil, fail}, {resp, fail}, {nil, nil}, {nil, psrpc.ErrRequestCanceled}, {nil, context.Canceled}} {
		n := 0
		r, err := rec(context.WithValue(context.Background(), verifKey{}, "v"), req, psrpc.RPCInfo{}, func(ctx context.Context, q proto.Message) (proto.Message, error) {
			n++
			if q != proto.Message(req) || ctx.Value(verifKey{}) != "v" {
				t.Fatalf("handler got %v", q)
			}
			return c.r, c.e
		})
		if r != c.r || err != c.e || n != 1 {
			t.Fatalf("handler gives %v, %v; the call %v, %v after %d calls", c.r, c.e, r, err, n)
		}
	}
}
