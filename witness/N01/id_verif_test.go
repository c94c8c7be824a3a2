// overlay: pkg/rand
package rand

import (
	"strings"
	"sync"
	"testing"
)

func TestVerifIDs(t *testing.T) {
	var mu sync.Mutex
	seen := map[string]bool{}
	check := func(id, prefix string) {
		body := strings.TrimPrefix(id, prefix)
		if len(id) != len(prefix)+12 || len(body) != 12 {
			t.Errorf("%q is not %q and 12 characters", id, prefix)
		}
		for _, c := range body {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
				t.Errorf("%q holds %q", id, c)
			}
		}
		mu.Lock()
		if seen[body] {
			t.Errorf("%q repeats", id)
		}
		seen[body] = true
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range 2000 {
				check(NewClientID(), "CLI_")
				check(NewServerID(), "SRV_")
				check(NewRequestID(), "REQ_")
				check(NewStreamID(), "STR_")
				check(NewString(), "")
			}
		}()
	}
	wg.Wait()
}
