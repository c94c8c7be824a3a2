// overlay: pkg/middleware
package middleware

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
)

type verifObserver struct{ seen []string }

func (o *verifObserver) add(a ...any) { o.seen = append(o.seen, fmt.Sprintln(a...)) }
func (o *verifObserver) OnUnaryRequest(r MetricRole, i psrpc.RPCInfo, _ time.Duration, err error, _, _ int) {
	o.add("unary", r, i.Method, err)
}
func (o *verifObserver) OnMultiRequest(r MetricRole, i psrpc.RPCInfo, _ time.Duration, a, b, _, _ int) {
	o.add("multi", r, i.Method, a, b)
}
func (o *verifObserver) OnStreamSend(r MetricRole, i psrpc.RPCInfo, _ time.Duration, err error, _ int) {
	o.add("send", r, i.Method, err)
}
func (o *verifObserver) OnStreamRecv(r MetricRole, i psrpc.RPCInfo, err error, _ int) {
	o.add("recv", r, i.Method, err)
}
func (o *verifObserver) OnStreamOpen(r MetricRole, i psrpc.RPCInfo)  { o.add("open", r, i.Method) }
func (o *verifObserver) OnStreamClose(r MetricRole, i psrpc.RPCInfo) { o.add("close", r, i.Method) }

type verifInner struct {
	calls []string
	last  any
	err   error
}

func (s *verifInner) call(name string, a any) error {
	s.calls, s.last = append(s.calls, name), a
	return s.err
}
func (s *verifInner) Recv(m proto.Message) error                          { return s.call("recv", m) }
func (s *verifInner) Send(m proto.Message, _ ...psrpc.StreamOption) error { return s.call("send", m) }
func (s *verifInner) Close(e error) error                                 { return s.call("close", e) }

type verifMulti struct {
	calls []string
	err   error
}

func (s *verifMulti) Send(context.Context, proto.Message, ...psrpc.RequestOption) error {
	s.calls = append(s.calls, "send")
	return s.err
}
func (s *verifMulti) Recv(m proto.Message, e error) {
	s.calls = append(s.calls, fmt.Sprint("recv", m != nil, e))
}
func (s *verifMulti) Close() { s.calls = append(s.calls, "close") }

func verifSame(t *testing.T, what string, got, want []string) {
	t.Helper()
	if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
		t.Fatalf("%s: %q, want %q", what, got, want)
	}
}

func TestVerifMetrics(t *testing.T) {
	line := fmt.Sprintln
	req, resp := wrapperspb.String("q"), wrapperspb.String("r")
	for _, err := range []error{nil, errors.New("failed"), psrpc.ErrRequestTimedOut} {
		o := &verifObserver{}
		n := 0
		h := func(_ context.Context, q proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
			if n++; q != proto.Message(req) || len(opts) != 1 {
				t.Fatal("other arguments")
			}
			return resp, err
		}
		r, e := newClientRPCMetricsInterceptor(o)(psrpc.RPCInfo{Method: "m"}, h)(context.Background(), req, psrpc.WithRequestTimeout(time.Second))
		if r != proto.Message(resp) || e != err || n != 1 {
			t.Fatalf("client: %v %v after %d calls", r, e, n)
		}
		verifSame(t, "client reports", o.seen, []string{line("unary", ClientRole, "m", err)})
		for _, multi := range []bool{false, true} {
			o.seen, n = nil, 0
			r, e = newServerRPCMetricsInterceptor(o)(context.Background(), req, psrpc.RPCInfo{Method: "m", Multi: multi}, func(_ context.Context, q proto.Message) (proto.Message, error) {
				if n++; q != proto.Message(req) {
					t.Fatal("other arguments")
				}
				return resp, err
			})
			if r != proto.Message(resp) || e != err || n != 1 {
				t.Fatalf("server: %v %v after %d calls", r, e, n)
			}
			want := line("unary", ServerRole, "m", err)
			if multi && err == nil {
				want = line("multi", ServerRole, "m", 1, 0)
			} else if multi {
				want = line("multi", ServerRole, "m", 0, 1)
			}
			verifSame(t, "server reports", o.seen, []string{want})
		}
		for _, role := range []MetricRole{ClientRole, ServerRole} {
			o.seen = nil
			in := &verifInner{err: err}
			s := newStreamMetricsInterceptor(o, role)(psrpc.RPCInfo{Method: "m"}, in)
			if e := s.Send(req); e != err || in.last != any(proto.Message(req)) {
				t.Fatalf("send gives %v", e)
			}
			if e := s.Recv(resp); e != err || in.last != any(proto.Message(resp)) {
				t.Fatalf("recv gives %v", e)
			}
			cause := errors.New("cause")
			if e := s.Close(cause); e != err || in.last != any(cause) {
				t.Fatalf("close gives %v", e)
			}
			s.Close(nil)
			verifSame(t, "stream calls", in.calls, []string{"send", "recv", "close", "close"})
			verifSame(t, "stream reports", o.seen, []string{line("open", role, "m"), line("send", role, "m", err), line("recv", role, "m", err), line("close", role, "m")})
		}
	}
	for ok := 0; ok < 3; ok++ {
		for bad := 0; bad < 3; bad++ {
			o := &verifObserver{}
			in := &verifMulti{err: errors.New("not sent")}
			m := newMultiRPCMetricsInterceptor(o)(psrpc.RPCInfo{Method: "m", Multi: true}, in)
			want := []string{"send"}
			if e := m.Send(context.Background(), req); e != in.err {
				t.Fatalf("multi send gives %v", e)
			}
			for range ok {
				m.Recv(resp, nil)
				want = append(want, fmt.Sprint("recv", true, nil))
			}
			for range bad {
				m.Recv(nil, psrpc.ErrRequestTimedOut)
				want = append(want, fmt.Sprint("recv", false, psrpc.ErrRequestTimedOut))
			}
			m.Close()
			verifSame(t, "multi calls", in.calls, append(want, "close"))
			verifSame(t, "multi reports", o.seen, []string{line("multi", ClientRole, "m", ok, bad)})
		}
	}
}
