# I01: interceptors

# server side: the chain of n interceptors; pos[f] is the place of a handler in the chain
unit I01.server
property I01
func internal/interceptors.ChainServerInterceptors
check index
check panics
flag explore result
ghost q any
ghost inf psrpc.RPCInfo
ghost c context.Context
ghost want int
ghost made int
ghost calls int
ghost pos gmap[int]int
ghost r any
ghost e error
loop pos[_r] == _i + 1
on enter result(ctx, req, rpcInfo, handler)
  set made = 0
  set pos = upd(pos, val(handler), len(interceptors))
  set want = 0
  set calls = 0
  set c = ctx
  set q = iface(req)
  set inf = rpcInfo
on closure ...(f)
  set made = made + 1
  set pos = upd(pos, val(f), len(interceptors) - made)
on enter psrpc.ServerRPCHandler(ctx, req)
  set want = pos[callee]
  set calls = 0
  set c = ctx
  set q = iface(req)
on call psrpc.ServerRPCInterceptor(ctx, req, rpcInfo, h)
  assert[once] calls == 0
  assert[in-order] want < len(interceptors) && callee == val(interceptors[want])
  assert[arguments] ctx == c && iface(req) == q
  assert[info] rpcInfo == inf
  assert[next] pos[val(h)] == want + 1
  set calls = calls + 1
on after psrpc.ServerRPCInterceptor(ctx, req, rpcInfo, h) -> (res, err)
  set r = iface(res)
  set e = err
on exit result(ctx, req, rpcInfo, handler) -> (res, err)
  assert[called] calls == 1
  assert[result] iface(res) == r && err == e
on exit psrpc.ServerRPCHandler(ctx, req) -> (res, err)
  assert[called] calls == 1
  assert[result] iface(res) == r && err == e
ensures[none] len(interceptors) == 0 ==> result == nil
ensures[alone] len(interceptors) == 1 ==> val(result) == val(interceptors[0])
ensures[chained] len(interceptors) > 1 ==> result != nil

# client side: generic over the handler type
unit I01.client
property I01
func internal/interceptors.ChainClientInterceptors
check index
check panics
ghost n int
ghost cur int
loop _r == ite(n == 0, val(arg2), cur)
on call func(inf, h)
  assert[in-order] n < len(interceptors) && callee == val(interceptors[len(interceptors)-1-n])
  assert[next] val(h) == ite(n == 0, val(arg2), cur)
  assert[info] inf == requestInfo.RPCInfo
on after func(inf, h) -> (w)
  set cur = val(w)
  set n = n + 1
ensures[all] n == len(interceptors)
ensures[outermost] val(result) == ite(n == 0, val(arg2), cur)

# per-client interceptors first, then those of the request, in order
unit I01.merge
property I01
func pkg/client.getRequestInterceptors
check index
loop forall(j, 0, len(base), iface(_s[j]) == iface(base[j]))
loop forall(j, 0, len(_s) - len(base), iface(_s[len(base)+j]) == as[j])
ensures[length] len(result) == len(base) + len(as)
ensures[base-first] forall(j, 0, len(base), iface(result[j]) == iface(base[j]))
ensures[request-next] forall(j, 0, len(as), iface(result[len(base)+j]) == as[j])

# an interceptor option adds its interceptors after those already there, in order
unit I01.option.request
property I01
func psrpc.WithRequestInterceptors
check index
check panics
flag explore result
ghost p *psrpc.RequestOpts
ghost before []any
on enter result(o)
  set p = o
  set before = o.Interceptors
  assume ref(o.Interceptors) != ref(interceptors)
loop len(p.Interceptors) == len(before) + _i
loop forall(j, 0, _i, p.Interceptors[len(before)+j] == iface(interceptors[j]))
loop len(p.Interceptors) == len(before) + _i+1
loop forall(j, 0, _i+1, p.Interceptors[len(before)+j] == iface(interceptors[j]))
loop forall(j, 0, len(before), p.Interceptors[j] == before[j])
loop ref(p.Interceptors) != ref(interceptors)
loop ref(p.Interceptors) != ref(before) || off(p.Interceptors) == off(before)
on exit result(o)
  assert[added] len(o.Interceptors) == len(before) + len(interceptors)
  assert[kept] forall(j, 0, len(before), o.Interceptors[j] == before[j])
  assert[in-order] forall(j, 0, len(interceptors), o.Interceptors[len(before)+j] == iface(interceptors[j]))

unit I01.option.client
property I01
func psrpc.WithClientRPCInterceptors
check index
check panics
flag explore result
ghost p *psrpc.ClientOpts
ghost before []psrpc.ClientRPCInterceptor
on enter result(o)
  set p = o
  set before = o.RpcInterceptors
  assume ref(o.RpcInterceptors) != ref(interceptors)
on exit result(o)
  assert[added] len(o.RpcInterceptors) == len(before) + len(interceptors)
  assert[kept] forall(j, 0, len(before), val(o.RpcInterceptors[j]) == val(before[j]))
  assert[in-order] forall(j, 0, len(interceptors), val(o.RpcInterceptors[len(before)+j]) == val(interceptors[j]))

unit I01.option.multi
property I01
func psrpc.WithClientMultiRPCInterceptors
check index
check panics
flag explore result
ghost p *psrpc.ClientOpts
ghost before []psrpc.ClientMultiRPCInterceptor
on enter result(o)
  set p = o
  set before = o.MultiRPCInterceptors
  assume ref(o.MultiRPCInterceptors) != ref(interceptors)
on exit result(o)
  assert[added] len(o.MultiRPCInterceptors) == len(before) + len(interceptors)
  assert[kept] forall(j, 0, len(before), val(o.MultiRPCInterceptors[j]) == val(before[j]))
  assert[in-order] forall(j, 0, len(interceptors), val(o.MultiRPCInterceptors[len(before)+j]) == val(interceptors[j]))

unit I01.option.stream
property I01
func psrpc.WithClientStreamInterceptors
check index
check panics
flag explore result
ghost p *psrpc.ClientOpts
ghost before []psrpc.StreamInterceptor
on enter result(o)
  set p = o
  set before = o.StreamInterceptors
  assume ref(o.StreamInterceptors) != ref(interceptors)
on exit result(o)
  assert[added] len(o.StreamInterceptors) == len(before) + len(interceptors)
  assert[kept] forall(j, 0, len(before), val(o.StreamInterceptors[j]) == val(before[j]))
  assert[in-order] forall(j, 0, len(interceptors), val(o.StreamInterceptors[len(before)+j]) == val(interceptors[j]))

unit I01.option.serverstream
property I01
func psrpc.WithServerStreamInterceptors
check index
check panics
flag explore result
ghost p *psrpc.ServerOpts
ghost before []psrpc.StreamInterceptor
on enter result(o)
  set p = o
  set before = o.StreamInterceptors
  assume ref(o.StreamInterceptors) != ref(interceptors)
on exit result(o)
  assert[added] len(o.StreamInterceptors) == len(before) + len(interceptors)
  assert[kept] forall(j, 0, len(before), val(o.StreamInterceptors[j]) == val(before[j]))
  assert[in-order] forall(j, 0, len(interceptors), val(o.StreamInterceptors[len(before)+j]) == val(interceptors[j]))

# the server option skips interceptors that are nil
unit I01.option.server
property I01
func psrpc.WithServerRPCInterceptors
check index
check panics
flag explore result
ghost p *psrpc.ServerOpts
ghost before []psrpc.ServerRPCInterceptor
on enter result(o)
  set p = o
  set before = o.Interceptors
  assume forall(j, 0, len(interceptors), val(interceptors[j]) != 0)
  assume ref(o.Interceptors) != ref(interceptors)
loop len(p.Interceptors) == len(before) + _i
loop forall(j, 0, _i, val(p.Interceptors[len(before)+j]) == val(interceptors[j]))
loop len(p.Interceptors) == len(before) + _i+1
loop forall(j, 0, _i+1, val(p.Interceptors[len(before)+j]) == val(interceptors[j]))
loop forall(j, 0, len(before), val(p.Interceptors[j]) == val(before[j]))
loop ref(p.Interceptors) != ref(interceptors)
loop forall(j, 0, len(interceptors), val(interceptors[j]) != 0)
loop ref(p.Interceptors) != ref(before) || off(p.Interceptors) == off(before)
on exit result(o)
  assert[added] len(o.Interceptors) == len(before) + len(interceptors)
  assert[kept] forall(j, 0, len(before), val(o.Interceptors[j]) == val(before[j]))
  assert[in-order] forall(j, 0, len(interceptors), val(o.Interceptors[len(before)+j]) == val(interceptors[j]))

# a unary request runs the chain of the client's and then the request's interceptors once
unit I01.use.unary
property I01
func pkg/client.RequestSingle
check index
check panics
havoc @client
pure @names
flag nocallbacks *
ghost inf *info.RequestInfo
ghost ro psrpc.RequestOpts
ghost merged []psrpc.ClientRPCInterceptor
ghost chain int
ghost calls int
on after (*pkg/info.ServiceDefinition).GetInfo(d, r, t) -> (i)
  assert[info-of-call] r == rpc && ref(t) == ref(topic)
  set inf = i
on after pkg/client.getRequestOpts(gc, i, co, os) -> (r)
  set ro = r
on after pkg/client.getRequestInterceptors(base, as) -> (r)
  assert[client-first] ref(base) == ref(c.RpcInterceptors) && len(base) == len(c.RpcInterceptors)
  assert[request-next] ref(as) == ref(ro.Interceptors) && len(as) == len(ro.Interceptors)
  set merged = r
on after internal/interceptors.ChainClientInterceptors(is, i, h) -> (r)
  assert[all] ref(is) == ref(merged) && len(is) == len(merged)
  assert[info] i == inf
  set chain = val(r)
on call psrpc.ClientRPCHandler(hc, req, os)
  assert[once] calls == 0
  assert[chained] chain != 0 && callee == chain
  assert[arguments] hc == ctx && req == request && ref(os) == ref(opts) && len(os) == len(opts)
  set calls = 1

unit I01.use.multi
property I01
func pkg/client.RequestMulti
check index
check panics
havoc @client
pure @names
flag nocallbacks *
flag nothreads *
ghost inf *info.RequestInfo
ghost ro psrpc.RequestOpts
ghost merged []psrpc.ClientMultiRPCInterceptor
ghost chain psrpc.ClientMultiRPCHandler
ghost calls int
on after (*pkg/info.ServiceDefinition).GetInfo(d, r, t) -> (i)
  assert[info-of-call] r == rpc && ref(t) == ref(topic)
  set inf = i
on after pkg/client.getRequestOpts(gc, i, co, os) -> (r)
  set ro = r
on after pkg/client.getRequestInterceptors(base, as) -> (r)
  assert[client-first] ref(base) == ref(c.MultiRPCInterceptors) && len(base) == len(c.MultiRPCInterceptors)
  assert[request-next] ref(as) == ref(ro.Interceptors) && len(as) == len(ro.Interceptors)
  set merged = r
on after internal/interceptors.ChainClientInterceptors(is, i, h) -> (r)
  assert[all] ref(is) == ref(merged) && len(is) == len(merged)
  assert[info] i == inf
  set chain = r
on call (psrpc.ClientMultiRPCHandler).Send(h, hc, req, os)
  assert[once] calls == 0
  assert[chained] h == chain
  assert[arguments] hc == ctx && req == request && ref(os) == ref(opts) && len(os) == len(opts)
  set calls = 1

unit I01.use.open
property I01
func pkg/client.OpenStream
check index
check panics
havoc @client pkg/client.selectServer
pure @names
flag nocallbacks *
flag nothreads *
ghost inf *info.RequestInfo
ghost ro psrpc.RequestOpts
ghost merged []psrpc.StreamInterceptor
ghost calls int
on after (*pkg/info.ServiceDefinition).GetInfo(d, r, t) -> (i)
  assert[info-of-call] r == rpc && ref(t) == ref(topic)
  set inf = i
on after pkg/client.getRequestOpts(gc, i, co, os) -> (r)
  set ro = r
on after pkg/client.getRequestInterceptors(base, as) -> (r)
  assert[client-first] ref(base) == ref(c.StreamInterceptors) && len(base) == len(c.StreamInterceptors)
  assert[request-next] ref(as) == ref(ro.Interceptors) && len(as) == len(ro.Interceptors)
  set merged = r
on after internal/interceptors.ChainClientInterceptors(is, i, h) -> (r)
  assert[once] calls == 0
  assert[all] ref(is) == ref(merged) && len(is) == len(merged)
  assert[info] i == inf
  set calls = 1
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg)
  assert[chained] calls == 1

# the server runs the handler through its chain; the handler gets what it is called with
unit I01.use.server
property I01
func pkg/server.RegisterHandler
check index
havoc @server @respond (*pkg/server.rpcHandlerImpl).claimRequest
pure @names
ghost inf *info.RequestInfo
ghost inner bool
ghost dec any
ghost pc context.Context
ghost pm any
ghost runs int
ghost iruns int
ghost res any
ghost herr error
ghost ires any
ghost ierr error
on after (*pkg/info.ServiceDefinition).GetInfo(d, r, t) -> (i)
  set inf = i
on recv chan *internal.Request(ch, m, ok)
  set inner = false
  set iruns = 0
on after internal/bus.DeserializePayload(b) -> (m, err)
  set dec = iface(m)
on call psrpc.ServerRPCInterceptor(hc, req, i, next)
  assert[once] iruns == 0
  assert[chain] callee == val(s.ChainedInterceptor)
  assert[request] iface(req) == dec
  assert[info] i.Service == inf.RPCInfo.Service && i.Method == inf.RPCInfo.Method && ref(i.Topic) == ref(inf.RPCInfo.Topic) && i.Multi == inf.RPCInfo.Multi
  set iruns = 1
on enter psrpc.ServerRPCHandler(hc, m)
  set inner = true
  set pc = hc
  set pm = iface(m)
  set runs = 0
on call func(hc, req) when callee == val(svcImpl)
  assert[direct] !inner ==> val(s.ChainedInterceptor) == 0 && iface(req) == dec && iruns == 0
  assert[once] inner ==> runs == 0
  assert[passed-context] inner ==> hc == pc
  assert[passed-request] inner && is(pm, RequestType) ==> iface(req) == pm
  set runs = 1
on after func(hc, req) -> (r, err) when callee == val(svcImpl)
  set res = iface(r)
  set herr = err
on exit psrpc.ServerRPCHandler(hc, m) -> (r, err)
  assert[called] runs == 1
  assert[result] iface(r) == res && err == herr

# the chain of a server is that of its interceptors
unit I01.serveropts
property I01
func pkg/server.getServerOpts
check index
check panics
havoc internal/interceptors.ChainServerInterceptors
ghost chain int
ghost arg []psrpc.ServerRPCInterceptor
ghost n int
on after internal/interceptors.ChainServerInterceptors(is) -> (r)
  set chain = val(r)
  set arg = is
  set n = 1
ensures[all] n == 1 && ref(arg) == ref(result.Interceptors) && len(arg) == len(result.Interceptors)
ensures[chain] val(result.ChainedInterceptor) == chain
