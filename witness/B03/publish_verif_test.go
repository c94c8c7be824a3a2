// overlay: internal/bus
package bus

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc/internal"
)

// many publishers: every message arrives once, those of one channel in the order they were published
func TestVerifPublishOrder(t *testing.T) {
	for range 3 {
		v := newVerifRedis()
		b := NewRedisMessageBus(v.client())
		const channels, each = 12, 150
		var wg sync.WaitGroup
		for c := range channels {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range each {
					if err := b.Publish(context.Background(), Channel{Legacy: fmt.Sprint("c", c)}, wrapperspb.String(fmt.Sprint(c, " ", i))); err != nil {
						t.Error(err)
					}
				}
			}()
		}
		wg.Wait()
		var got []string
		for range 500 {
			v.mu.Lock()
			got = append([]string(nil), v.published...)
			v.mu.Unlock()
			if len(got) >= channels*each {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		time.Sleep(20 * time.Millisecond)
		v.mu.Lock()
		got = append([]string(nil), v.published...)
		v.mu.Unlock()
		if len(got) != channels*each {
			t.Fatalf("%d of %d messages", len(got), channels*each)
		}
		next := map[string]int{}
		for _, p := range got {
			ch, raw, _ := strings.Cut(p, " ")
			m, err := deserialize([]byte(raw))
			if err != nil {
				t.Fatal(err)
			}
			want := fmt.Sprint(strings.TrimPrefix(ch, "c"), " ", next[ch])
			if x, ok := m.(*wrapperspb.StringValue); !ok || x.Value != want {
				t.Fatalf("channel %s has %v, want %s", ch, m, want)
			}
			next[ch]++
		}
	}
}

// single messages with pauses: none waits for a later one
func TestVerifPublishSingly(t *testing.T) {
	v := newVerifRedis()
	b := NewRedisMessageBus(v.client())
	for i := range 20 {
		_ = b.Publish(context.Background(), Channel{Legacy: "one"}, &internal.Request{RequestId: fmt.Sprint(i)})
		n := 0
		for range 500 {
			v.mu.Lock()
			n = len(v.published)
			v.mu.Unlock()
			if n > i {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
		if n != i+1 {
			t.Fatalf("%d messages after publishing %d", n, i+1)
		}
	}
	_ = proto.Marshal
}
