// overlay: pkg/metadata
package metadata

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"testing"
	"time"
)

type verifCtx struct {
	ctx  context.Context
	want Metadata
}

// random trees of derived contexts against a plain model
func TestVerifMetadata(t *testing.T) {
	for seed := int64(0); seed < 400; seed++ {
		r := rand.New(rand.NewSource(seed))
		all := []verifCtx{{context.Background(), nil}}
		kv := func() (string, string) {
			return fmt.Sprint("k", r.Intn(4)), fmt.Sprint("v", r.Intn(1000))
		}
		for step := 0; step < 25; step++ {
			p := all[r.Intn(len(all))]
			want := Metadata{}
			switch r.Intn(4) {
			case 0:
				md := Metadata{}
				for range 1 + r.Intn(3) {
					k, v := kv()
					md[k], want[k] = v, v
				}
				c := NewContextWithOutgoingMetadata(p.ctx, md)
				for k := range md {
					md[k] = "changed"
				}
				all = append(all, verifCtx{c, want})
			case 1:
				for k, v := range p.want {
					want[k] = v
				}
				md := Metadata{}
				for range 1 + r.Intn(3) {
					k, v := kv()
					md[k], want[k] = v, v
				}
				c := WithOutgoingMetadata(p.ctx, md)
				for k := range md {
					md[k] = "changed"
				}
				all = append(all, verifCtx{c, want})
			case 2:
				for k, v := range p.want {
					want[k] = v
				}
				var l []string
				for range 1 + r.Intn(3) {
					k, v := kv()
					l = append(l, k, v)
					want[k] = v
				}
				c := AppendMetadataToOutgoingContext(p.ctx, l...)
				for i := range l {
					l[i] = "changed"
				}
				all = append(all, verifCtx{c, want})
			case 3:
				md := OutgoingContextMetadata(p.ctx)
				for k := range md {
					md[k] = "changed"
				}
			}
			for i, c := range all {
				got := OutgoingContextMetadata(c.ctx)
				if len(got) != len(c.want) || len(got) > 0 && !reflect.DeepEqual(got, c.want) {
					t.Fatalf("seed %d step %d: context %d has %v, want %v", seed, step, i, got, c.want)
				}
			}
		}
	}
}

func TestVerifHeader(t *testing.T) {
	now := time.Unix(12, 34)
	if IncomingHeader(context.Background()) != nil {
		t.Fatal("a header from nowhere")
	}
	ctx := NewContextWithIncomingHeader(context.Background(), &Header{RemoteID: "R", SentAt: now, Metadata: Metadata{"a": "1"}})
	for range 2 {
		h := IncomingHeader(ctx)
		if h == nil || h.RemoteID != "R" || !h.SentAt.Equal(now) || !reflect.DeepEqual(h.Metadata, Metadata{"a": "1"}) {
			t.Fatalf("header %v", h)
		}
		h.RemoteID, h.Metadata["a"], h.Metadata["b"] = "X", "2", "3"
	}
}
