// overlay: pkg/server
package server

import (
	"errors"
	"fmt"
	"reflect"
	"testing"
)

func TestVerifRegistererSlice(t *testing.T) {
	fail := errors.New("failed")
	for n := 0; n <= 4; n++ {
		for at := 0; at <= n; at++ {
			var trace []string
			var rs RegistererSlice
			for i := 0; i < n; i++ {
				rs = append(rs, NewRegisterer(func(a, b string) error {
					trace = append(trace, fmt.Sprint("r", i, a, b))
					if i == at {
						return fail
					}
					return nil
				}, func(a, b string) {
					trace = append(trace, fmt.Sprint("d", i, a, b))
				}))
			}
			err := rs.Register("x", "y")
			regs, deregs := map[string]int{}, map[string]int{}
			for i, s := range trace {
				if s[0] == 'r' {
					if s != fmt.Sprint("r", i, "xy") {
						t.Fatalf("%d of %d fails: %v", at, n, trace)
					}
					regs[s[1:]]++
				} else {
					deregs[s[1:]]++
				}
			}
			want := map[string]int{}
			if at < n {
				if err != fail {
					t.Fatalf("%d of %d fails: %v", at, n, err)
				}
				for i := 0; i < at; i++ {
					want[fmt.Sprint(i, "xy")] = 1
				}
				if len(regs) != at+1 {
					t.Fatalf("%d of %d fails: %v", at, n, trace)
				}
			} else if err != nil || len(regs) != n {
				t.Fatalf("none of %d fails: %v %v", n, err, trace)
			}
			if !reflect.DeepEqual(deregs, want) {
				t.Fatalf("%d of %d fails: %v, deregistered %v", at, n, trace, deregs)
			}
			trace = nil
			rs.Deregister("x", "y")
			all := map[string]int{}
			for _, s := range trace {
				all[s]++
			}
			if len(all) != n || len(trace) != n {
				t.Fatalf("deregistering %d: %v", n, trace)
			}
		}
	}
}
