// overlay: pkg/middleware
package middleware

import (
	"context"
	"errors"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
)

type verifStream struct {
	psrpc.StreamHandler
	send func(msg proto.Message, opts ...psrpc.StreamOption) error
}

func (s *verifStream) Send(msg proto.Message, opts ...psrpc.StreamOption) error {
	return s.send(msg, opts...)
}

func verifWant(max int, errs []error, recoverable func(error) bool) int {
	k := 0
	for {
		k++
		e := errs[k-1]
		if e == nil || !recoverable(e) || k == max || k == len(errs) {
			return k
		}
	}
}

func TestVerifRetry(t *testing.T) {
	dl := psrpc.NewErrorf(psrpc.DeadlineExceeded, "late")
	un := psrpc.NewErrorf(psrpc.Unavailable, "none")
	plain := errors.New("plain")
	bad := psrpc.NewErrorf(psrpc.InvalidArgument, "bad")
	canceled := psrpc.NewErrorf(psrpc.Canceled, "canceled")
	byDefault := func(e error) bool { return e != bad && e != error(canceled) }
	for _, errs := range [][]error{
		{nil}, {bad}, {canceled}, {dl, nil}, {un, nil}, {plain, nil}, {dl, un, plain, bad}, {dl, dl, dl, dl, dl, nil}, {plain, canceled},
		{un, un, nil}, {plain, plain, plain, nil},
	} {
		for max := 1; max <= 6; max++ {
			for _, custom := range []bool{false, true} {
				opt := RetryOptions{MaxAttempts: max, Timeout: 7 * time.Second, Backoff: 3 * time.Second}
				rec := byDefault
				if custom {
					rec = func(e error) bool { return e == bad || e == error(dl) }
					opt.IsRecoverable = rec
				}
				n := verifWant(max, errs, rec)
				last := errs[n-1]
				k := 0
				req := wrapperspb.String("q")
				base := []psrpc.RequestOption{psrpc.WithSelectionOpts(psrpc.SelectionOpts{MinimumAffinity: 11})}
				next := func(ctx context.Context, q proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
					k++
					var o psrpc.RequestOpts
					for _, f := range opts {
						f(&o)
					}
					if q != proto.Message(req) || o.SelectionOpts.MinimumAffinity != 11 {
						t.Fatalf("attempt %d gets %v %v", k, q, o)
					}
					if w := 7*time.Second + time.Duration(k-1)*3*time.Second; o.Timeout != w {
						t.Fatalf("attempt %d has timeout %v, want %v", k, o.Timeout, w)
					}
					if k > len(errs) {
						return nil, nil
					}
					return wrapperspb.Int32(int32(k)), errs[k-1]
				}
				res, err := NewRPCRetryInterceptor(opt)(psrpc.RPCInfo{}, next)(context.Background(), req, base...)
				if n == len(errs) && last != nil && rec(last) && n != max {
					if k != n+1 || err != nil {
						t.Fatalf("errors %v, at most %d: %d attempts, %v", errs, max, k, err)
					}
				} else if k != n || err != last || res.(*wrapperspb.Int32Value).Value != int32(n) {
					t.Fatalf("errors %v, at most %d attempts: %d attempts, %v %v", errs, max, k, res, err)
				}

				k = 0
				s := NewStreamRetryInterceptor(opt)(psrpc.RPCInfo{}, &verifStream{send: func(msg proto.Message, opts ...psrpc.StreamOption) error {
					k++
					var o psrpc.StreamOpts
					for _, f := range opts {
						f(&o)
					}
					if w := 7*time.Second + time.Duration(k-1)*3*time.Second; o.Timeout != w || msg != proto.Message(req) {
						t.Fatalf("send %d has timeout %v, want %v", k, o.Timeout, w)
					}
					if k > len(errs) {
						return nil
					}
					return errs[k-1]
				}})
				err = s.Send(req)
				if n == len(errs) && last != nil && rec(last) && n != max {
					if k != n+1 || err != nil {
						t.Fatalf("send errors %v, at most %d: %d attempts, %v", errs, max, k, err)
					}
				} else if k != n || err != last {
					t.Fatalf("send errors %v, at most %d attempts: %d attempts, %v", errs, max, k, err)
				}
			}
		}
	}
}

func TestVerifRetryCustom(t *testing.T) {
	fails := []error{errors.New("a"), errors.New("b"), errors.New("c")}
	var asked []int
	opt := RetryOptions{MaxAttempts: 1, GetRetryParameters: func(err error, attempt int) (bool, time.Duration, time.Duration) {
		if attempt < 1 || attempt > 3 || err != fails[attempt-1] {
			t.Fatalf("asked about %v, attempt %d", err, attempt)
		}
		asked = append(asked, attempt)
		return attempt < 3, time.Duration(attempt) * time.Second, time.Duration(attempt-1) * time.Millisecond
	}}
	k := 0
	_, err := NewRPCRetryInterceptor(opt)(psrpc.RPCInfo{}, func(ctx context.Context, q proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
		var o psrpc.RequestOpts
		for _, f := range opts {
			f(&o)
		}
		if o.Timeout != time.Duration(k)*time.Second {
			t.Fatalf("attempt %d has timeout %v", k+1, o.Timeout)
		}
		k++
		return nil, fails[k-1]
	})(context.Background(), wrapperspb.String("q"))
	if k != 3 || err != fails[2] || len(asked) != 3 {
		t.Fatalf("%d attempts, %v, asked %v", k, err, asked)
	}
}

func TestVerifRetryCancel(t *testing.T) {
	for _, wait := range []time.Duration{0, time.Hour} {
		ctx, cancel := context.WithCancel(context.Background())
		k := 0
		opt := RetryOptions{GetRetryParameters: func(error, int) (bool, time.Duration, time.Duration) { return true, 0, wait }}
		_, err := NewRPCRetryInterceptor(opt)(psrpc.RPCInfo{}, func(context.Context, proto.Message, ...psrpc.RequestOption) (proto.Message, error) {
			k++
			if k > 1 {
				return nil, nil
			}
			cancel()
			return nil, errors.New("failed")
		})(ctx, wrapperspb.String("q"))
		if k != 1 || err != psrpc.ErrRequestCanceled {
			t.Fatalf("canceled between attempts (wait %v): %d attempts, %v", wait, k, err)
		}
	}
}
