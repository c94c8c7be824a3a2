// overlay: pkg/client

package client

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

type verifStr = wrapperspb.StringValue

var (
	_ = context.Background
	_ = errors.New
	_ sync.Mutex
	_ = time.Second
	_ proto.Message
	_ = psrpc.OK
	_ *internal.Request
	_ bus.Channel
	_ *info.RequestInfo
)

type verifCase struct {
	opts   psrpc.SelectionOpts
	fn     bool
	claims []*internal.ClaimRequest
	errs   []*internal.Response
}

func verifSelect(c verifCase) (id string, err error, seen []*psrpc.Claim) {
	claims := make(chan *internal.ClaimRequest)
	res := make(chan *internal.Response)
	ctx, cancel := context.WithCancel(context.Background())
	o := c.opts
	if c.fn {
		o.SelectionFunc = func(cs []*psrpc.Claim) (string, error) {
			seen = cs
			if len(cs) == 0 {
				return "", errors.New("none")
			}
			return cs[len(cs)-1].ServerID, nil
		}
	}
	done := make(chan struct{})
	go func() {
		defer cancel()
		for _, r := range c.errs {
			select {
			case res <- r:
			case <-done:
				return
			}
		}
		for _, r := range c.claims {
			select {
			case claims <- r:
			case <-done:
				return
			}
		}
		time.Sleep(5 * time.Millisecond)
	}()
	id, err = selectServer(ctx, claims, res, o)
	close(done)
	cancel()
	return
}

func TestVerifSelection(t *testing.T) {
	lists := [][]float32{{}, {0.5}, {0}, {0.2, 0.9, 0.9}, {0.9, 0.2}, {0.5, 0.5, 0.1}, {0.3, 0.6, 0.95, 1}, {1, 1}, {0.1, 0.2}, {0, 0.7}, {0.8, 0.4, 0.95, 0.99}}
	for _, min := range []float32{0, 0.5, -1} {
		for _, max := range []float32{0, 0.9, 0.4} {
			for _, first := range []bool{false, true} {
				for _, fn := range []bool{false, true} {
					for _, l := range lists {
						for _, e := range []*internal.Response{nil, {Code: "not_found", Error: "x"}, {Code: "not_found"}} {
							c := verifCase{opts: psrpc.SelectionOpts{MinimumAffinity: min, MaximumAffinity: max, AcceptFirstAvailable: first}, fn: fn}
							var want string
							best := float32(0)
							early := false
							var eligible []string
							for k, a := range l {
								id := string(rune('a' + k))
								c.claims = append(c.claims, &internal.ClaimRequest{ServerId: id, Affinity: a})
								if early || min > 0 && a < min {
									continue
								}
								if first || max > 0 && a >= max {
									early, want = true, id
									continue
								}
								eligible = append(eligible, id)
								if !fn && a > best {
									best, want = a, id
								}
							}
							if fn && !early && len(eligible) > 0 {
								want = eligible[len(eligible)-1]
							}
							if e != nil {
								c.errs = append(c.errs, e)
							}
							got, err, seen := verifSelect(c)
							if got != want || (err == nil) != (want != "") {
								t.Fatalf("min %v max %v first %v fn %v affinities %v: selected %q (%v), want %q", min, max, first, fn, l, got, err, want)
							}
							if fn && !early {
								if len(seen) != len(eligible) {
									t.Fatalf("the selection function saw %v of %v", seen, eligible)
								}
								for k := range seen {
									if seen[k].ServerID != eligible[k] || seen[k].Affinity != l[seen[k].ServerID[0]-'a'] {
										t.Fatalf("the selection function saw %v of %v", seen, eligible)
									}
								}
							}
							if want == "" && !fn {
								code, _ := psrpc.GetErrorCode(err)
								if e != nil && code != psrpc.NotFound || e == nil && code != psrpc.Unavailable {
									t.Fatalf("min %v max %v first %v affinities %v: failed with %v", min, max, first, l, err)
								}
							}
						}
					}
				}
			}
		}
	}
}

// a claim below the minimum does not start the short-circuit timer, a second eligible one does not start it again
func TestVerifShortCircuit(t *testing.T) {
	claims := make(chan *internal.ClaimRequest, 4)
	go func() {
		claims <- &internal.ClaimRequest{ServerId: "low", Affinity: 0.1}
		time.Sleep(200 * time.Millisecond)
		claims <- &internal.ClaimRequest{ServerId: "a", Affinity: 0.5}
		time.Sleep(60 * time.Millisecond)
		claims <- &internal.ClaimRequest{ServerId: "b", Affinity: 0.6}
	}()
	start := time.Now()
	id, err := selectServer(context.Background(), claims, make(chan *internal.Response), psrpc.SelectionOpts{
		MinimumAffinity: 0.4, AffinityTimeout: 5 * time.Second, ShortCircuitTimeout: 120 * time.Millisecond,
	})
	if err != nil || id != "b" {
		t.Fatalf("selected %q %v", id, err)
	}
	if d := time.Since(start); d > 3*time.Second {
		t.Fatalf("selected after %v", d)
	}
}

// the selection ends at the selection deadline
func TestVerifSelectionDeadline(t *testing.T) {
	claims := make(chan *internal.ClaimRequest, 4)
	claims <- &internal.ClaimRequest{ServerId: "a", Affinity: 0.5}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	start := time.Now()
	id, err := selectServer(ctx, claims, make(chan *internal.Response), psrpc.SelectionOpts{AffinityTimeout: 50 * time.Millisecond})
	if err != nil || id != "a" || time.Since(start) > 3*time.Second {
		t.Fatalf("selected %q %v after %v", id, err, time.Since(start))
	}
}
