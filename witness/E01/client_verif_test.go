// overlay: pkg/client

package client

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifStr = wrapperspb.StringValue

var (
	_ = context.Background
	_ = errors.New
	_ sync.Mutex
	_ = time.Second
	_ proto.Message
	_ = psrpc.OK
	_ *internal.Request
	_ bus.Channel
	_ *info.RequestInfo
)

func TestVerifOutcome(t *testing.T) {
	for _, multi := range []bool{false, true} {
		e := verifClient(t, false, multi, false)
		for _, c := range []struct {
			res  *internal.Response
			code psrpc.ErrorCode
			msg  string
			val  string
		}{
			{res: &internal.Response{RawResponse: verifRaw("v")}, val: "v"},
			{res: &internal.Response{RawResponse: verifRaw("")}, val: ""},
			{res: &internal.Response{Error: "m", Code: "not_found"}, code: psrpc.NotFound, msg: "m"},
			{res: &internal.Response{Code: "not_found"}, code: psrpc.NotFound, msg: ""},
			{res: &internal.Response{Code: "unknown", RawResponse: verifRaw("v")}, code: psrpc.Unknown, msg: ""},
			{res: &internal.Response{Error: "m"}, code: psrpc.Unknown, msg: "m"},
			{res: &internal.Response{Error: "m", Code: "weird"}, code: psrpc.ErrorCode("weird"), msg: "m"},
			{res: &internal.Response{RawResponse: []byte{0xff, 0xff, 0xff}}, code: psrpc.MalformedResponse, msg: "*"},
		} {
			go func() {
				r := <-e.reqs
				c.res.RequestId = r.RequestId
				e.respond(c.res)
			}()
			var v *verifStr
			var err error
			if multi {
				ch, err1 := RequestMulti[*verifStr](context.Background(), e.c, "M", nil, wrapperspb.String("x"), psrpc.WithRequestTimeout(2*time.Second))
				if err1 != nil {
					t.Fatal(err1)
				}
				r := <-ch
				v, err = r.Result, r.Err
			} else {
				v, err = RequestSingle[*verifStr](context.Background(), e.c, "M", nil, wrapperspb.String("x"))
			}
			if c.code == psrpc.OK {
				if err != nil || v.GetValue() != c.val {
					t.Fatalf("%v became %v, %v", c.res, v, err)
				}
				continue
			}
			var pe psrpc.Error
			if err == nil || !errors.As(err, &pe) {
				t.Fatalf("%v became %v, %v", c.res, v, err)
			}
			if c.res.Code != "" && pe.Code() != c.code || c.msg != "*" && pe.Error() != c.msg {
				t.Fatalf("%v became %v (%v)", c.res, err, pe.Code())
			}
		}
	}
}
