# L01: registering and closing handlers

# one registration: looked up and entered in one critical section, only while the server is
# open, counted as active before anyone can close it; a failed one leaves no subscription
unit L01.register
property L01
func pkg/server.RegisterHandler
check index
check panics
havoc @server @respond (*pkg/server.rpcHandlerImpl).claimRequest
pure @names
flag nothreads *
flag nocallbacks *
ghost key string
ghost opened int
ghost shut int
ghost sub gmap[int]int
ghost entered int
ghost active int
ghost mine int
on after (*pkg/info.RequestInfo).GetHandlerKey(i) -> (k)
  set key = k
on after internal/bus.Subscribe...(x, b, ch, n) -> (s0, err) when err == nil
  assume s0 != nil && val(s0) > 0 && sub[val(s0)] == 0
  set sub = upd(sub, val(s0), 1)
  set opened = opened + 1
on call (internal/bus.Subscription...).Close(s0) when sub[val(iface(s0))] != 0
  assert[once] sub[val(iface(s0))] == 1
  set sub = upd(sub, val(iface(s0)), 2)
  set shut = shut + 1
on call (*sync.WaitGroup).Add(w, n)
  assert[counted-once] active == 0 && n == 1
  assert[with-the-entry] held(s.mu)
  set active = 1
on mapset map[string]pkg/server.rpcHandler(m, k, v)
  assert[key] k == key
  assert[under-lock] held(s.mu)
  assert[free] !has(m, k)
  assert[open] !s.closed
  assert[active] active == 1
  assert[once] entered == 0
  set entered = 1
  set mine = val(v)
ensures[failed] result != nil ==> entered == 0 && shut == opened && active == 0
ensures[registered] result == nil ==> entered == 1 && active == 1 && shut == 0 && opened >= 1

unit L01.registerstream
property L01
func pkg/server.RegisterStreamHandler
check index
check panics
havoc @server internal/stream.NewStream
pure @names
flag nothreads *
flag nocallbacks *
ghost key string
ghost opened int
ghost shut int
ghost sub gmap[int]int
ghost entered int
ghost active int
on after (*pkg/info.RequestInfo).GetHandlerKey(i) -> (k)
  set key = k
on after internal/bus.Subscribe...(x, b, ch, n) -> (s0, err) when err == nil
  assume s0 != nil && val(s0) > 0 && sub[val(s0)] == 0
  set sub = upd(sub, val(s0), 1)
  set opened = opened + 1
on call (internal/bus.Subscription...).Close(s0) when sub[val(iface(s0))] != 0
  assert[once] sub[val(iface(s0))] == 1
  set sub = upd(sub, val(iface(s0)), 2)
  set shut = shut + 1
on call (*sync.WaitGroup).Add(w, n)
  assert[counted-once] active == 0 && n == 1
  assert[with-the-entry] held(s.mu)
  set active = 1
on mapset map[string]pkg/server.rpcHandler(m, k, v)
  assert[key] k == key
  assert[under-lock] held(s.mu)
  assert[free] !has(m, k)
  assert[open] !s.closed
  assert[active] active == 1
  assert[once] entered == 0
  set entered = 1
ensures[failed] result != nil ==> entered == 0 && shut == opened && active == 0
ensures[registered] result == nil ==> entered == 1 && active == 1 && shut == 0 && opened >= 1

# a closed server
unit L01.closed
property L01
func pkg/server.RegisterHandler
check index
check panics
havoc @server @respond (*pkg/server.rpcHandlerImpl).claimRequest
pure @names
requires broken(s.shutdown)
maybe on mapset map[string]pkg/server.rpcHandler(m, k, v)
  assert[refused] false
maybe on after internal/bus.Subscribe...(x, b, ch, n) -> (s0, err)
  assert[no-subscription] false
ensures[error] result == psrpc.ErrServerClosed

unit L01.closedstream
property L01
func pkg/server.RegisterStreamHandler
check index
check panics
havoc @server internal/stream.NewStream
pure @names
requires broken(s.shutdown)
maybe on mapset map[string]pkg/server.rpcHandler(m, k, v)
  assert[refused] false
maybe on after internal/bus.Subscribe...(x, b, ch, n) -> (s0, err)
  assert[no-subscription] false
ensures[error] result == psrpc.ErrServerClosed

# closing a handler: its subscriptions and its registration go once, a graceful close waits
unit L01.close
property L01
func (*pkg/server.rpcHandlerImpl).close
check index
check panics
requires h.drained != h.complete && h.requestSub != nil && h.claimSub != nil && val(h.requestSub) > 0 && val(h.claimSub) > 0 && val(h.requestSub) != val(h.claimSub) && h.onCompleted != nil
ghost ran bool
ghost rs int
ghost cs int
ghost drained bool
ghost waited bool
ghost completed int
ghost shut int
ghost wait bool
on once (*sync.Once).Do(o)
  set ran = true
on call (internal/bus.Subscription...).Close(x)
  assert[in-once] ran
  assert[known] val(x) == val(h.requestSub) || val(x) == val(h.claimSub)
  assert[once] ite(val(x) == val(h.requestSub), rs == 0, cs == 0)
  assert[claims-go-on-while-draining] val(x) == val(h.claimSub) && !force ==> waited
  set rs = ite(val(x) == val(h.requestSub), rs+1, rs)
  set cs = ite(val(x) == val(h.claimSub), cs+1, cs)
on recv chan struct{}(ch, v, ok)
  assert[nothing-new-first] ch == h.drained ==> rs == 1
  set drained = drained || ch == h.drained
  set wait = wait || ch == h.complete
on call (*sync.WaitGroup).Wait(w)
  assert[graceful-only] !force
  assert[received-first] drained && rs == 1
  set waited = true
on call func() when val(callee) == val(h.onCompleted)
  assert[once] completed == 0
  assert[graceful] force || waited
  set completed = 1
on close chan struct{}(ch)
  assert[complete] ch == h.complete && completed == 1 && shut == 0
  set shut = 1
ensures[closed] ran ==> rs == 1 && cs == 1 && completed == 1 && shut == 1
ensures[awaits] wait

# what closing a registered handler undoes
unit L01.unregister
property L01
func pkg/server.RegisterHandler
check index
check panics
havoc @server @respond (*pkg/server.rpcHandlerImpl).claimRequest
pure @names
flag nothreads *
flag nocallbacks *
flag explore hd
ghost hd server.rpcHandler
ghost key string
ghost opened int
ghost shut int
ghost sub gmap[int]int
ghost closing bool
ghost dels int
ghost dones int
on after (*pkg/info.RequestInfo).GetHandlerKey(i) -> (k)
  set key = k
on after internal/bus.Subscribe...(x, b, ch, n) -> (s0, err) when err == nil
  assume s0 != nil && val(s0) > 0 && sub[val(s0)] == 0
  set sub = upd(sub, val(s0), 1)
  set opened = opened + 1
on mapset map[string]pkg/server.rpcHandler(m, k, v)
  set hd = v
on enter hd.close(force)
  set closing = true
on call (internal/bus.Subscription...).Close(s0) when closing && sub[val(iface(s0))] != 0
  assert[once] sub[val(iface(s0))] == 1
  set sub = upd(sub, val(iface(s0)), 2)
  set shut = shut + 1
on mapdel map[string]pkg/server.rpcHandler(m, k)
  assert[own-registration] k == key && held(s.mu)
  set dels = dels + 1
on call (*sync.WaitGroup).Done(w) when closing
  set dones = dones + 1
on exit hd.close(force)
  assert[together] ite(dels == 0, dones == 0 && shut == 0, dels == 1 && dones == 1 && shut == opened)

# what closing a registered handler undoes
unit L01.unregisterstream
property L01
func pkg/server.RegisterStreamHandler
check index
check panics
havoc @server internal/stream.NewStream
pure @names
flag nothreads *
flag nocallbacks *
flag explore hd
ghost hd server.rpcHandler
ghost key string
ghost opened int
ghost shut int
ghost sub gmap[int]int
ghost closing bool
ghost dels int
ghost dones int
on after (*pkg/info.RequestInfo).GetHandlerKey(i) -> (k)
  set key = k
on after internal/bus.Subscribe...(x, b, ch, n) -> (s0, err) when err == nil
  assume s0 != nil && val(s0) > 0 && sub[val(s0)] == 0
  set sub = upd(sub, val(s0), 1)
  set opened = opened + 1
on mapset map[string]pkg/server.rpcHandler(m, k, v)
  set hd = v
on enter hd.close(force)
  set closing = true
on call (internal/bus.Subscription...).Close(s0) when closing && sub[val(iface(s0))] != 0
  assert[once] sub[val(iface(s0))] == 1
  set sub = upd(sub, val(iface(s0)), 2)
  set shut = shut + 1
on mapdel map[string]pkg/server.rpcHandler(m, k)
  assert[own-registration] k == key && held(s.mu)
  set dels = dels + 1
on call (*sync.WaitGroup).Done(w) when closing
  set dones = dones + 1
on exit hd.close(force)
  assert[together] ite(dels == 0, dones == 0 && shut == 0, dels == 1 && dones == 1 && shut == opened)

unit L01.closestream
property L01
func (*pkg/server.streamHandler).close
check index
check panics
requires h.streamSub != nil && h.claimSub != nil && val(h.streamSub) > 0 && val(h.claimSub) > 0 && val(h.streamSub) != val(h.claimSub) && h.onCompleted != nil
ghost ran bool
ghost rs int
ghost cs int
ghost completed int
ghost shut int
ghost wait bool
on once (*sync.Once).Do(o)
  set ran = true
on call (internal/bus.Subscription...).Close(x)
  assert[in-once] ran
  assert[known] val(x) == val(h.streamSub) || val(x) == val(h.claimSub)
  assert[once] ite(val(x) == val(h.streamSub), rs == 0, cs == 0)
  set rs = ite(val(x) == val(h.streamSub), rs+1, rs)
  set cs = ite(val(x) == val(h.claimSub), cs+1, cs)
on recv chan struct{}(ch, v, ok)
  set wait = wait || ch == h.complete
on call func() when val(callee) == val(h.onCompleted)
  assert[once] completed == 0
  set completed = 1
on close chan struct{}(ch)
  assert[complete] ch == h.complete && completed == 1 && shut == 0
  set shut = 1
ensures[closed] ran ==> rs == 1 && cs == 1 && completed == 1 && shut == 1
ensures[awaits] wait

# every stream of a closing handler is closed with the end-of-stream error before the
# handler is gone, and none is entered after they were collected
unit L01.streamdrain
property L01
func (*pkg/server.streamHandler).close
check index
check panics
requires h.onCompleted != nil
havoc golang.org/x/exp/maps.Values
ghost draining bool
ghost lst gmap[int]any
ghost lo int
ghost cnt int
ghost n int
ghost waited bool
ghost collected bool
ghost adds int
ghost gone bool
loop n == _i
loop n == _i + 1
loop adds == n
loop adds == cnt
loop adds == len(_s)
loop len(_s) == cnt
loop forall(j, 0, cnt, iface(_s[j]) == lst[j])
on lock pkg/server.streamHandler.mu(self, w)
  assert[no-more-streams] draining
on call (*go.uber.org/atomic.Bool).Store(a, v)
  assert[stays] v
  set draining = v
maybe on call golang.org/x/exp/maps.Values(m)
  assert[streams] m == h.streams && held(h.mu)
maybe on after golang.org/x/exp/maps.Values(m) -> (r)
  assume len(r) == len(m)
  set lst = elems(r)
  set lo = off(r)
  set cnt = len(r)
maybe on next map[string]internal/stream.Stream[...](m, k, v)
  assert[streams] m == h.streams && held(h.mu)
  set lst = upd(lst, cnt, v)
  set cnt = cnt + 1
on unlock pkg/server.streamHandler.mu(self, w)
  assert[every-stream] collected || cnt == len(h.streams)
  set collected = true
on call (*sync.WaitGroup).Add(w, k)
  set adds = adds + k
on enter thread()
  set gone = false
on go ...()
  assert[awaited] adds > n
  set n = n + 1
on call (*sync.WaitGroup).Done(w)
  assert[awaited] gone
on call (internal/stream.Stream).Close(x, cause)
  assert[end-of-stream] cause == psrpc.ErrStreamEOF
  assert[each] collected && 0 < n && n <= cnt && iface(x) == lst[lo+n-1]
  set gone = true
on call (*sync.WaitGroup).Wait(w)
  assert[all] n == cnt && adds == n
  set waited = true
on call func() when val(callee) == val(h.onCompleted)
  assert[streams-first] waited

unit L01.streamopen
property L01
func pkg/server.RegisterStreamHandler
check index
check panics
havoc @server internal/stream.NewStream (*pkg/server.streamHandler).claimRequest
pure @names
flag nocallbacks *
ghost asked bool
ghost draining bool
on lock pkg/server.streamHandler.mu(self, w)
  set asked = false
on after (*go.uber.org/atomic.Bool).Load(a) -> (v)
  set asked = !nolocks()
  set draining = v
on unlock pkg/server.streamHandler.mu(self, w)
  set asked = false
on mapset ...Stream[...(m, k, v)
  assert[not-draining] asked && !draining

# closing the server: no registration afterwards, every handler is closed, a graceful close
# waits for all of them
unit L01.server
property L01
func (*pkg/server.RPCServer).Close
check index
check panics
havoc golang.org/x/exp/maps.Values
ghost lst gmap[int]any
ghost lo int
ghost cnt int
ghost n int
ghost waited int
ghost collected bool
ghost ran bool
ghost adds int
ghost gone bool
loop n == _i
loop n == _i + 1
loop adds == n
loop adds == cnt
loop adds == len(_s)
loop len(_s) == cnt
loop forall(j, 0, cnt, iface(_s[j]) == lst[j])
on once (*core.Fuse).Once(f)
  set ran = true
maybe on call golang.org/x/exp/maps.Values(m)
  assert[handlers] m == s.handlers && held(s.mu)
maybe on after golang.org/x/exp/maps.Values(m) -> (r)
  assume len(r) == len(m)
  set lst = elems(r)
  set lo = off(r)
  set cnt = len(r)
maybe on next map[string]pkg/server.rpcHandler(m, k, v)
  assert[handlers] m == s.handlers && held(s.mu)
  set lst = upd(lst, cnt, v)
  set cnt = cnt + 1
on unlock pkg/server.RPCServer.mu(self, w)
  assert[closed-with-the-list] cnt == len(s.handlers) && s.closed
  set collected = true
on call (*sync.WaitGroup).Add(w, k)
  set adds = adds + k
on enter thread()
  set gone = false
on go ...()
  assert[awaited] adds > n
  set n = n + 1
on call (*sync.WaitGroup).Done(w)
  assert[awaited] gone
on call (pkg/server.rpcHandler).close(x, f)
  assert[each] collected && f == force && 0 < n && n <= cnt && iface(x) == lst[lo+n-1]
  set gone = true
on call (*sync.WaitGroup).Wait(w)
  assert[all] n == cnt && (adds == n || waited == ite(ran, 1, 0))
  set waited = waited + 1
ensures[all] ran ==> collected && n == cnt
ensures[closed] ran ==> s.closed && broken(s.shutdown)
ensures[graceful] !force ==> waited == ite(ran, 2, 1)

unit L01.deregister
property L01
func (*pkg/server.RPCServer).DeregisterHandler
check index
check panics
havoc (*pkg/info.ServiceDefinition).GetInfo
pure @names
ghost key string
ghost found bool
ghost hd any
ghost n int
on after (*pkg/info.RequestInfo).GetHandlerKey(i) -> (k)
  set key = k
on mapget map[string]pkg/server.rpcHandler(m, k, v, ok)
  assert[key] k == key && m == s.handlers
  assume ok ==> v != nil
  set found = ok
  set hd = v
on call (pkg/server.rpcHandler).close(x, f)
  assert[own] found && iface(x) == hd && f && n == 0
  set n = 1
ensures[closed] found ==> n == 1

# the requests being handled are counted until their handling has ended, and what a
# graceful close waits for is announced when the last received request is counted
unit L01.handling
property L01
func pkg/server.RegisterHandler
check index
havoc @server @respond (*pkg/server.rpcHandlerImpl).claimRequest
pure @names
flag nocallbacks *
ghost ir *internal.Request
ghost counted int
ghost handling bool
ghost spawned bool
ghost ends int
ghost over bool
ghost told bool
loop counted == 0
loop told ==> _r == 0
on enter thread()
  set handling = ir != nil && spawned
  set spawned = false
  set ends = 0
on recv chan *internal.Request(ch, m, ok)
  assert[counted-was-started] counted == 0
  assert[none-after-the-end] !told
  set ir = m
  set spawned = false
  set over = m == nil
on call (*sync.WaitGroup).Add(w, n) when ir != nil
  assert[once] n == 1 && counted == 0 && !handling
  set counted = 1
on go ...() when ir != nil
  assert[counted-first] counted == 1
  set counted = 0
  set spawned = true
on close chan struct{}(ch)
  assert[last-one] over && counted == 0
  assert[once] !told
  set told = true
on call (*sync.WaitGroup).Done(w) when handling
  set ends = ends + 1
on call func(cx, rq) when callee == val(svcImpl) && handling
  assert[still-counted] ends == 0
on call (*pkg/server.rpcHandlerImpl).sendResponse(...)
  assert[still-counted] ends == 0
on exit thread()
  assert[ended-once] handling ==> ends == 1
