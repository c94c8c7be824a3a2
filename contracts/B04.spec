# B04: the NATS bus

guard internal/bus.natsMessageBus.mu: routers
guard internal/bus.natsRouter.mu: routes, next
guard internal/bus.natsSubscription.mu: closed
# the router of a server channel knows its channel and its bus
invariant[routers] internal/bus.natsMessageBus.mu(self): self.routers != nil && forall(k, string, has(self.routers, k) ==> self.routers[k] != nil && allocated(self.routers[k]) && self.routers[k].channel == k && self.routers[k].bus == self)
invariant[routes] internal/bus.natsRouter.mu(self): self.routes != nil && self.next >= 0

unit B04.publish
property B04
func (*internal/bus.natsMessageBus).Publish
check index
check panics
havoc internal/bus.serialize
ghost b []byte
ghost bad bool
ghost err0 error
ghost sent int
on call internal/bus.serialize(m, c)
  assert[message] iface(m) == iface(msg) && c == channel.Local
on after internal/bus.serialize(m, c) -> (bb, err)
  set b = bb
  set bad = err != nil
  set err0 = err
on call (*github.com/nats-io/nats.go.Conn).Publish(c, subj, bb)
  assert[once] sent == 0 && !bad
  assert[channel] c == n.nc && subj == channel.Server
  assert[payload] ref(bb) == ref(b) && len(bb) == len(b)
  set sent = 1
on after (*github.com/nats-io/nats.go.Conn).Publish(c, subj, bb) -> (err)
  set err0 = err
ensures[published] result == err0 && (bad || sent == 1)

# without a local channel: a subscription of its own on the server channel
unit B04.direct
property B04
func (*internal/bus.natsMessageBus).Subscribe
check index
check panics
requires channel.Local == ""
flag nocallbacks *
flag explore cb
ghost cb nats.MsgHandler
ghost sub *bus.natsSubscription
ghost opened int
ghost bad bool
ghost err0 error
ghost nsub *nats.Subscription
ghost cx context.Context
ghost cf int
ghost canceled int
ghost cbs bool
ghost wrote int
on after context.WithCancel(p) -> (c, f)
  assert[context] p == ctx
  set cx = c
  set cf = val(f)
on call context.CancelFunc()
  assert[own-context] callee == cf
  set canceled = canceled + 1
on makechan chan *github.com/nats-io/nats.go.Msg(ch, k)
  assert[capacity] k == size
on store internal/bus.natsSubscription.msgChan(self, v)
  set sub = self
maybe on mapset map[string]*internal/bus.natsRouter(m, k, v)
  assert[no-router] false
on call (*github.com/nats-io/nats.go.Conn).Subscribe(c, subj, h)
  assert[on-channel] opened == 0 && c == n.nc && subj == channel.Server
  set cb = h
  set opened = 1
on after (*github.com/nats-io/nats.go.Conn).Subscribe(c, subj, h) -> (s, err)
  set bad = err != nil
  set err0 = err
  set nsub = s
on enter cb(m)
  set cbs = true
on send chan *github.com/nats-io/nats.go.Msg(ch, x)
  assert[delivered] cbs && ch == sub.msgChan && wrote == 0
  set wrote = 1
ensures[failed] opened == 1 && bad ==> result1 == err0 && canceled > 0
ensures[subscribed] opened == 1 && !bad ==> result1 == nil && canceled == 0 && iface(result0) == iface(sub) && sub.sub == nsub && !sub.closed && sub.ctx == cx && val(sub.cancel) == cf
ensures[opened] opened == 1

unit B04.directqueue
property B04
func (*internal/bus.natsMessageBus).SubscribeQueue
check index
check panics
requires channel.Local == ""
flag nocallbacks *
flag explore cb
ghost cb nats.MsgHandler
ghost sub *bus.natsSubscription
ghost opened int
ghost bad bool
ghost err0 error
ghost nsub *nats.Subscription
ghost cx context.Context
ghost cf int
ghost canceled int
ghost cbs bool
ghost wrote int
on after context.WithCancel(p) -> (c, f)
  assert[context] p == ctx
  set cx = c
  set cf = val(f)
on call context.CancelFunc()
  assert[own-context] callee == cf
  set canceled = canceled + 1
on makechan chan *github.com/nats-io/nats.go.Msg(ch, k)
  assert[capacity] k == size
on store internal/bus.natsSubscription.msgChan(self, v)
  set sub = self
maybe on mapset map[string]*internal/bus.natsRouter(m, k, v)
  assert[no-router] false
on call (*github.com/nats-io/nats.go.Conn).QueueSubscribe(c, subj, q, h)
  assert[on-channel] opened == 0 && c == n.nc && subj == channel.Server && q != ""
  set cb = h
  set opened = 1
on after (*github.com/nats-io/nats.go.Conn).QueueSubscribe(c, subj, q, h) -> (s, err)
  set bad = err != nil
  set err0 = err
  set nsub = s
on enter cb(m)
  set cbs = true
on send chan *github.com/nats-io/nats.go.Msg(ch, x)
  assert[delivered] cbs && ch == sub.msgChan && wrote == 0
  set wrote = 1
ensures[failed] opened == 1 && bad ==> result1 == err0 && canceled > 0
ensures[subscribed] opened == 1 && !bad ==> result1 == nil && canceled == 0 && iface(result0) == iface(sub) && sub.sub == nsub && !sub.closed && sub.ctx == cx && val(sub.cancel) == cf
ensures[opened] opened == 1

# with a local channel: one server subscription per server channel, opened by the first
unit B04.routed
property B04
func (*internal/bus.natsMessageBus).Subscribe
check index
check panics
requires channel.Local != ""
flag nocallbacks *
flag explore cb
havoc internal/bus.deserializeChannel (*internal/bus.natsRouterSubscription).write
ghost cb nats.MsgHandler
ghost sub *bus.natsRouterSubscription
ghost rt *bus.natsRouter
ghost was *bus.natsRouter
ghost looked bool
ghost opened int
ghost bad bool
ghost nsub *nats.Subscription
ghost cx context.Context
ghost cf int
ghost canceled int
ghost made int
ghost added int
ghost e0 gmap[int]*bus.natsRouterSubscription
ghost o0 int
ghost l0 int
ghost cbs bool
on after context.WithCancel(p) -> (c, f)
  assert[context] p == ctx
  set cx = c
  set cf = val(f)
on call context.CancelFunc()
  assert[own-context] callee == cf
  set canceled = canceled + 1
on makechan chan *github.com/nats-io/nats.go.Msg(ch, k)
  assert[capacity] k == size
on store internal/bus.natsRouterSubscription.msgChan(self, v)
  set sub = self
on mapget map[string]*internal/bus.natsRouter(m, k, v, ok)
  assert[of-channel] m == n.routers && k == channel.Server && held(n.mu)
  set was = v
  set rt = v
  set looked = true
on call (*github.com/nats-io/nats.go.Conn).Subscribe(c, subj, h)
  assert[first-only] looked && was == nil && opened == 0 && held(n.mu) && c == n.nc && subj == channel.Server
  set cb = h
  set opened = 1
on after (*github.com/nats-io/nats.go.Conn).Subscribe(c, subj, h) -> (s, err)
  set bad = err != nil
  set nsub = s
on mapset map[string]*internal/bus.natsRouter(m, k, v)
  assert[entered] m == n.routers && k == channel.Server && held(n.mu) && opened == 1 && !bad && made == 0
  assert[router] v.queue == false && v.channel == channel.Server && v.bus == n && v.sub == nsub
  set made = 1
  set rt = v
on mapget map[string][]*internal/bus.natsRouterSubscription(m, k, v, ok) when !cbs
  set e0 = elems(v)
  set o0 = off(v)
  set l0 = ite(ok, len(v), 0)
on mapset map[string][]*internal/bus.natsRouterSubscription(m, k, v)
  assert[route] m == rt.routes && k == channel.Local && held(rt.mu) && held(n.mu) && added == 0 && rt.queue == false
  assert[joined] len(v) == l0 + 1 && v[l0] == sub && forall(j, 0, l0, v[j] == e0[o0+j])
  assert[in-table] ite(was == nil, made == 1, true)
  set added = 1
on enter cb(m)
  set cbs = true
on mapget map[string][]*internal/bus.natsRouterSubscription(m, k, v, ok) when cbs && made == 1
  assert[own-routes] m == rt.routes && held(rt.mu)
ensures[failed] result1 != nil ==> made == 0 && added == 0 && canceled > 0
ensures[refused] was != nil && was.queue != false ==> result1 != nil && opened == 0
ensures[refused-late] opened == 1 && bad ==> result1 != nil
ensures[subscribed] result1 == nil ==> added == 1 && canceled == 0 && iface(result0) == iface(sub) && sub.router == rt && sub.channel == channel.Local && sub.ctx == cx && val(sub.cancel) == cf && made == opened

# with a local channel: one server subscription per server channel, opened by the first
unit B04.routedqueue
property B04
func (*internal/bus.natsMessageBus).SubscribeQueue
check index
check panics
requires channel.Local != ""
flag nocallbacks *
flag explore cb
havoc internal/bus.deserializeChannel (*internal/bus.natsRouterSubscription).write
ghost cb nats.MsgHandler
ghost sub *bus.natsRouterSubscription
ghost rt *bus.natsRouter
ghost was *bus.natsRouter
ghost looked bool
ghost opened int
ghost bad bool
ghost nsub *nats.Subscription
ghost cx context.Context
ghost cf int
ghost canceled int
ghost made int
ghost added int
ghost e0 gmap[int]*bus.natsRouterSubscription
ghost o0 int
ghost l0 int
ghost cbs bool
on after context.WithCancel(p) -> (c, f)
  assert[context] p == ctx
  set cx = c
  set cf = val(f)
on call context.CancelFunc()
  assert[own-context] callee == cf
  set canceled = canceled + 1
on makechan chan *github.com/nats-io/nats.go.Msg(ch, k)
  assert[capacity] k == size
on store internal/bus.natsRouterSubscription.msgChan(self, v)
  set sub = self
on mapget map[string]*internal/bus.natsRouter(m, k, v, ok)
  assert[of-channel] m == n.routers && k == channel.Server && held(n.mu)
  set was = v
  set rt = v
  set looked = true
on call (*github.com/nats-io/nats.go.Conn).QueueSubscribe(c, subj, q, h)
  assert[first-only] looked && was == nil && opened == 0 && held(n.mu) && c == n.nc && subj == channel.Server && q != ""
  set cb = h
  set opened = 1
on after (*github.com/nats-io/nats.go.Conn).QueueSubscribe(c, subj, q, h) -> (s, err)
  set bad = err != nil
  set nsub = s
on mapset map[string]*internal/bus.natsRouter(m, k, v)
  assert[entered] m == n.routers && k == channel.Server && held(n.mu) && opened == 1 && !bad && made == 0
  assert[router] v.queue == true && v.channel == channel.Server && v.bus == n && v.sub == nsub
  set made = 1
  set rt = v
on mapget map[string][]*internal/bus.natsRouterSubscription(m, k, v, ok) when !cbs
  set e0 = elems(v)
  set o0 = off(v)
  set l0 = ite(ok, len(v), 0)
on mapset map[string][]*internal/bus.natsRouterSubscription(m, k, v)
  assert[route] m == rt.routes && k == channel.Local && held(rt.mu) && held(n.mu) && added == 0 && rt.queue == true
  assert[joined] len(v) == l0 + 1 && v[l0] == sub && forall(j, 0, l0, v[j] == e0[o0+j])
  assert[in-table] ite(was == nil, made == 1, true)
  set added = 1
on enter cb(m)
  set cbs = true
on mapget map[string][]*internal/bus.natsRouterSubscription(m, k, v, ok) when cbs && made == 1
  assert[own-routes] m == rt.routes && held(rt.mu)
ensures[failed] result1 != nil ==> made == 0 && added == 0 && canceled > 0
ensures[refused] was != nil && was.queue != true ==> result1 != nil && opened == 0
ensures[refused-late] opened == 1 && bad ==> result1 != nil
ensures[subscribed] result1 == nil ==> added == 1 && canceled == 0 && iface(result0) == iface(sub) && sub.router == rt && sub.channel == channel.Local && sub.ctx == cx && val(sub.cancel) == cf && made == opened

# a routed message: every subscription of its local channel, or one of them in a queue
unit B04.write
property B04
func (*internal/bus.natsRouter).write
check index
check panics
havoc internal/bus.deserializeChannel (*internal/bus.natsRouterSubscription).write
ghost pos gmap[int]int = any
ghost got gmap[int]int
ghost ch string
ghost bad bool
ghost looked bool
ghost e0 gmap[int]*bus.natsRouterSubscription
ghost o0 int
ghost n0 int
ghost total int
loop forall(j, 0, n0, got[j] == ite(j < _i+1, 1, 0))
loop forall(j, 0, n0, got[j] == ite(j < _i, 1, 0))
loop total == _i+1
loop total == _i
loop total <= 1
on call internal/bus.deserializeChannel(b)
  assert[of-message] ref(b) == ref(m.Data) && len(b) == len(m.Data)
on after internal/bus.deserializeChannel(b) -> (c, err)
  set ch = c
  set bad = err != nil
on mapget map[string][]*internal/bus.natsRouterSubscription(mm, k, v, ok)
  assert[own-channel] mm == n.routes && k == ch && held(n.mu) && !bad
  assume forall(j, 0, len(v), v[j] != nil && pos[val(v[j])] == j)
  set looked = true
  set e0 = elems(v)
  set o0 = off(v)
  set n0 = ite(ok, len(v), 0)
on call (*internal/bus.natsRouterSubscription).write(s, x)
  assert[message] x == m && held(n.mu)
  assert[of-channel] looked && 0 <= pos[val(s)] && pos[val(s)] < n0 && e0[o0+pos[val(s)]] == s
  assert[once] got[pos[val(s)]] == 0 && (n.queue ==> total == 0)
  set got = upd(got, pos[val(s)], 1)
  set total = total + 1
ensures[everyone] looked && !n.queue ==> forall(j, 0, n0, got[j] == 1)
ensures[one] looked && n.queue ==> total == ite(n0 > 0, 1, 0)
ensures[routed] looked != bad

# leaving a route takes out that subscription only; the last one of the router ends the
# server subscription
unit B04.leave
property B04
func (*internal/bus.natsRouter).close
check index
check panics
ghost e0 gmap[int]*bus.natsRouterSubscription
ghost o0 int
ghost n0 int
ghost dom0 gmap[string]bool
ghost vals0 gmap[string][]*bus.natsRouterSubscription
ghost at int = any
ghost here bool
ghost ended int
ghost had bool
on lock internal/bus.natsRouter.mu(self, w)
  assert[own-router] self == n
  assume forall(k, string, has(n.routes, k) ==> len(n.routes[k]) > 0)
  set dom0 = domof(n.routes)
  set vals0 = valof(n.routes)
  set e0 = elems(n.routes[channel])
  set o0 = off(n.routes[channel])
  set had = has(n.routes, channel)
  set n0 = ite(has(n.routes, channel), len(n.routes[channel]), 0)
  assume exists(j, 0, n0, e0[o0+j] == s) ==> 0 <= at && at < n0 && e0[o0+at] == s && forall(j, 0, n0, j != at ==> e0[o0+j] != s)
  set here = had && 0 <= at && at < n0 && e0[o0+at] == s
on call (*github.com/nats-io/nats.go.Subscription).Unsubscribe(x)
  assert[last-only] x == n.sub && ended == 0 && here && n0 == 1 && len(n.routes) == 0
  set ended = 1
on unlock internal/bus.natsRouter.mu(self, w)
  assert[not-there] !here ==> has(n.routes, channel) == had && len(n.routes[channel]) == n0 && forall(j, 0, n0, n.routes[channel][j] == e0[o0+j])
  assert[left] here && n0 > 1 ==> has(n.routes, channel) && len(n.routes[channel]) == n0 - 1 && forall(j, 0, n0-1, n.routes[channel][j] == e0[o0+ite(j < at, j, j+1)])
  assert[last] here && n0 == 1 ==> !has(n.routes, channel)
  assert[others] forall(k, string, k != channel ==> has(n.routes, k) == dom0[k] && (dom0[k] ==> n.routes[k] == vals0[k]))
  assert[ended] ended == ite(here && n0 == 1 && len(n.routes) == 0, 1, 0)
ensures[reported] result == (ended == 1)

unit B04.unsubscribe
property B04
func (*internal/bus.natsMessageBus).unsubscribeRouter
check index
check panics
havoc (*internal/bus.natsRouter).close
requires r != nil && r.bus == n
ghost left int
ghost last bool
ghost dels int
on call (*internal/bus.natsRouter).close(x, c, y)
  assert[own] x == r && c == channel && y == s && held(n.mu) && left == 0
  assume has(n.routers, r.channel) && n.routers[r.channel] == r
  set left = 1
on after (*internal/bus.natsRouter).close(x, c, y) -> (b)
  set last = b
on mapdel map[string]*internal/bus.natsRouter(m, k)
  assert[router-gone] m == n.routers && k == r.channel && held(n.mu) && left == 1 && last
  set dels = dels + 1
ensures[left] left == 1
ensures[dropped-with-last] last == (dels > 0)

# closing: nothing is handed over once the channel is closed
unit B04.closerouted
property B04
func (*internal/bus.natsRouterSubscription).Close
check index
check panics
havoc (*internal/bus.natsMessageBus).unsubscribeRouter
ghost canceled int
ghost left int
ghost shut int
on call context.CancelFunc()
  assert[own-context] callee == val(n.cancel)
  set canceled = canceled + 1
on call (*internal/bus.natsMessageBus).unsubscribeRouter(b, r, c, s)
  assert[unblocked-first] canceled > 0
  assert[own-route] b == n.router.bus && r == n.router && c == n.channel && s == n && left == 0
  set left = 1
on close chan *github.com/nats-io/nats.go.Msg(ch)
  assert[closed-last] ch == n.msgChan && left == 1 && shut == 0
  set shut = 1
ensures[closed] shut == 1

unit B04.writerouted
property B04
func (*internal/bus.natsRouterSubscription).write
check index
check panics
ghost sent int
ghost gone bool
on send chan *github.com/nats-io/nats.go.Msg(ch, x)
  assert[own-channel] ch == n.msgChan && x == m && sent == 0
  assert[not-dropped] !hasdefault()
  set sent = 1
on recv chan struct{}(ch, v, ok)
  assert[way-out] ch == n.ctx.Done()
  set gone = true
ensures[handed-over] sent == 1 || gone

unit B04.readrouted
property B04
func (*internal/bus.natsRouterSubscription).read
check index
check panics
ghost got *nats.Msg
ghost ok0 bool
ghost k int
on recv chan *github.com/nats-io/nats.go.Msg(ch, v, ok)
  assert[own-channel] ch == n.msgChan && k == 0
  set k = 1
  set got = v
  set ok0 = ok
ensures[message] k == 1 && ok0 ==> result1 && ref(result0) == ref(got.Data) && len(result0) == len(got.Data)
ensures[end] k == 1 && !ok0 ==> !result1
ensures[waits] k == 1

unit B04.close
property B04
func (*internal/bus.natsSubscription).Close
check index
check panics
ghost canceled int
ghost left int
ghost shut int
on call context.CancelFunc()
  assert[own-context] callee == val(n.cancel)
  set canceled = canceled + 1
on prelock internal/bus.natsSubscription.mu(self)
  assert[unblocked-first] canceled > 0
on call (*github.com/nats-io/nats.go.Subscription).Unsubscribe(x)
  assert[own-subscription] x == n.sub && left == 0
  set left = 1
on close chan *github.com/nats-io/nats.go.Msg(ch)
  assert[closed-under-lock] ch == n.msgChan && held(n.mu) && shut == 0
  set shut = 1
on unlock internal/bus.natsSubscription.mu(self, w)
  assert[marked] (shut == 1) == n.closed
ensures[closed] shut == 1 && left == 1 && n.closed

unit B04.writedirect
property B04
func (*internal/bus.natsSubscription).write
check index
check panics
ghost sent int
ghost gone bool
ghost c0 bool
on lock internal/bus.natsSubscription.mu(self, w)
  set c0 = n.closed
on send chan *github.com/nats-io/nats.go.Msg(ch, x)
  assert[own-channel] ch == n.msgChan && x == msg && sent == 0
  assert[open] held(n.mu) && !n.closed
  assert[not-dropped] !hasdefault()
  set sent = 1
on recv chan struct{}(ch, v, ok)
  assert[way-out] ch == n.ctx.Done()
  set gone = true
ensures[handed-over] sent == 1 || gone || c0

unit B04.readdirect
property B04
func (*internal/bus.natsSubscription).read
check index
check panics
ghost got *nats.Msg
ghost ok0 bool
ghost k int
on recv chan *github.com/nats-io/nats.go.Msg(ch, v, ok)
  assert[own-channel] ch == n.msgChan && k == 0
  set k = 1
  set got = v
  set ok0 = ok
ensures[message] k == 1 && ok0 ==> result1 && ref(result0) == ref(got.Data) && len(result0) == len(got.Data)
ensures[end] k == 1 && !ok0 ==> !result1
ensures[waits] k == 1
