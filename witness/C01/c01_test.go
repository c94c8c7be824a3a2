// overlay: pkg/info
package info

import (
	"github.com/livekit/psrpc"
	"regexp"
	"testing"
)

func TestVerifChannelNamesDistinct(t *testing.T) {
	texts := []string{"a", "b", "u", "U", "+", "u+0041", "A", "à", "à", "é", ".", "|", "a.b", "a|b", "_", "-", "\u007f", "\u0080", "z", "Z", "0", "9", "/", ":", "@", "[", "`", "{", "\uffff", "\U00010000", "\U0010ffff", "\U00020000", "ꀀ", "Q", "REQ", "STR", "RCLAIM", "ሴ5", "ģ5", " ", "\u0000", "ab", "aa", "0041", "u+", "U+"}
	var topics [][]string
	topics = append(topics, nil)
	for _, a := range texts {
		topics = append(topics, []string{a})
		for _, b := range texts {
			topics = append(topics, []string{a, b})
		}
	}
	topics = append(topics, []string{"a", "b", "c"}, []string{"ab", "c"}, []string{"a", "bc"}, []string{"a", "b", "c", "d"})
	name := regexp.MustCompile(`^[0-9A-Za-z_+|]+$`)
	legacy := map[string]string{}
	server := map[[2]string]string{}
	keys := map[string]string{}
	for _, queue := range []bool{false, true} {
		for _, m := range []string{"Get", "GetAll", "getall"} {
			if queue {
				m = "Q" + m
			}
			for _, tp := range topics {
				i := &RequestInfo{RPCInfo: psrpc.RPCInfo{Service: "Svc", Method: m, Topic: tp}, Queue: queue}
				id := m
				for _, p := range tp {
					id += "\x01" + p
				}
				if id == m {
					id += "\x02"
				}
				if o, ok := keys[i.GetHandlerKey()]; ok && o != id {
					t.Fatalf("handler key %q of %q and %q", i.GetHandlerKey(), o, id)
				}
				keys[i.GetHandlerKey()] = id
				if i.GetRPCChannel() != i.GetRPCChannel() {
					t.Fatal("channel name changes")
				}
				for k, c := range map[string]struct{ l, s, o string }{
					"rpc":    {i.GetRPCChannel().Legacy, i.GetRPCChannel().Server, i.GetRPCChannel().Local},
					"claim":  {i.GetClaimResponseChannel().Legacy, i.GetClaimResponseChannel().Server, i.GetClaimResponseChannel().Local},
					"stream": {i.GetStreamServerChannel().Legacy, i.GetStreamServerChannel().Server, i.GetStreamServerChannel().Local},
				} {
					id := k + "\x03" + id
					if !name.MatchString(c.l) {
						t.Fatalf("legacy name %q", c.l)
					}
					if o, ok := legacy[c.l]; ok && o != id {
						t.Fatalf("legacy name %q of %q and %q", c.l, o, id)
					}
					legacy[c.l] = id
					sl := [2]string{c.s, c.o}
					if o, ok := server[sl]; ok && o != id {
						t.Fatalf("names %q of %q and %q", sl, o, id)
					}
					server[sl] = id
				}
			}
		}
	}
	seen := map[string]string{}
	for _, c := range []string{"CLI_1", "CLI_2"} {
		for k, ch := range map[string]struct{ l, s string }{
			"claim":    {GetClaimRequestChannel("Svc", c).Legacy, GetClaimRequestChannel("Svc", c).Server},
			"stream":   {GetStreamChannel("Svc", c).Legacy, GetStreamChannel("Svc", c).Server},
			"response": {GetResponseChannel("Svc", c).Legacy, GetResponseChannel("Svc", c).Server},
		} {
			for _, n := range []string{ch.l, ch.s} {
				if o, ok := seen[n]; ok && o != k+c {
					t.Fatalf("name %q of %q and %q", n, o, k+c)
				}
				seen[n] = k + c
			}
		}
	}
}
