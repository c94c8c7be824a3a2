// overlay: internal/bus
package bus

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"

	"github.com/redis/go-redis/v9"
)

// verifRedis is a redis server in memory: subscriptions, publishing and SET NX
type verifRedis struct {
	mu        sync.Mutex
	subs      map[string]map[*verifRedisConn]bool
	keys      map[string]bool
	published []string
	failSub   int
}

type verifRedisConn struct {
	mu sync.Mutex
	c  net.Conn
}

func (c *verifRedisConn) write(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	_, _ = io.WriteString(c.c, s)
}

func verifBulk(s ...string) string {
	r := ""
	for _, x := range s {
		r += fmt.Sprintf("$%d\r\n%s\r\n", len(x), x)
	}
	return r
}

func newVerifRedis() *verifRedis {
	return &verifRedis{subs: map[string]map[*verifRedisConn]bool{}, keys: map[string]bool{}}
}

func (v *verifRedis) client() redis.UniversalClient {
	return redis.NewClient(&redis.Options{
		Addr: "fake:1",
		Dialer: func(context.Context, string, string) (net.Conn, error) {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return nil, err
			}
			defer l.Close()
			go func() {
				c, err := l.Accept()
				if err == nil {
					v.serve(&verifRedisConn{c: c})
				}
			}()
			return net.Dial("tcp", l.Addr().String())
		},
	})
}

// subscribed lists the channels some connection is subscribed to
func (v *verifRedis) subscribed() map[string]bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	r := map[string]bool{}
	for ch, s := range v.subs {
		if len(s) > 0 {
			r[ch] = true
		}
	}
	return r
}

func (v *verifRedis) serve(c *verifRedisConn) {
	defer c.c.Close()
	r := bufio.NewReader(c.c)
	line := func() (string, error) {
		s, err := r.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err
	}
	for {
		head, err := line()
		if err != nil {
			return
		}
		n, _ := strconv.Atoi(strings.TrimPrefix(head, "*"))
		args := make([]string, n)
		for i := range args {
			l, err := line()
			if err != nil {
				return
			}
			k, _ := strconv.Atoi(strings.TrimPrefix(l, "$"))
			b := make([]byte, k+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			args[i] = string(b[:k])
		}
		if n == 0 {
			continue
		}
		switch strings.ToLower(args[0]) {
		case "ping":
			c.write("*2\r\n" + verifBulk("pong", ""))
		case "subscribe":
			v.mu.Lock()
			fail := v.failSub > 0
			if fail {
				v.failSub--
			}
			v.mu.Unlock()
			if fail {
				return
			}
			for i, ch := range args[1:] {
				v.mu.Lock()
				if v.subs[ch] == nil {
					v.subs[ch] = map[*verifRedisConn]bool{}
				}
				v.subs[ch][c] = true
				v.mu.Unlock()
				c.write("*3\r\n" + verifBulk("subscribe", ch) + fmt.Sprintf(":%d\r\n", i+1))
			}
		case "unsubscribe":
			for _, ch := range args[1:] {
				v.mu.Lock()
				delete(v.subs[ch], c)
				v.mu.Unlock()
				c.write("*3\r\n" + verifBulk("unsubscribe", ch) + ":0\r\n")
			}
		case "publish":
			v.mu.Lock()
			v.published = append(v.published, args[1]+" "+args[2])
			for s := range v.subs[args[1]] {
				s.write("*3\r\n" + verifBulk("message", args[1], args[2]))
			}
			n := len(v.subs[args[1]])
			v.mu.Unlock()
			c.write(fmt.Sprintf(":%d\r\n", n))
		case "set":
			v.mu.Lock()
			had := v.keys[args[1]]
			v.keys[args[1]] = true
			v.mu.Unlock()
			if had {
				c.write("$-1\r\n")
			} else {
				c.write("+OK\r\n")
			}
		default:
			c.write("-ERR unknown command\r\n")
		}
	}
}
