# K02: metrics and tracing middleware

unit K02.client
property K02
func pkg/middleware.newClientRPCMetricsInterceptor
check index
check panics
flag explore result
ghost nx int
ghost c context.Context
ghost q any
ghost o []psrpc.RequestOption
ghost inf psrpc.RPCInfo
ghost calls int
ghost reports int
ghost r any
ghost e error
on enter result(rpcInfo, next)
  set nx = val(next)
  set inf = rpcInfo
on enter psrpc.ClientRPCHandler(ctx, req, opts)
  set c = ctx
  set q = req
  set o = opts
  set calls = 0
  set reports = 0
on call psrpc.ClientRPCHandler(ctx, req, opts)
  assert[once] callee == nx && calls == 0
  assert[arguments] ctx == c && iface(req) == q && len(opts) == len(o) && forall(j, 0, len(o), val(opts[j]) == val(o[j]))
  set calls = 1
on after psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  set r = res
  set e = err
on call (pkg/middleware.MetricsObserver).OnUnaryRequest(ob, role, info, d, err, rx, tx)
  assert[completed] calls == 1 && reports == 0
  assert[to-observer] ob == observer
  assert[actual] err == e && role == middleware.ClientRole && info == inf
  set reports = 1
on exit psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  assert[pass-through] calls == 1 && iface(res) == r && err == e
  assert[reported] reports == 1

unit K02.server
property K02
func pkg/middleware.newServerRPCMetricsInterceptor
check index
check panics
flag explore result
ghost h int
ghost c context.Context
ghost q any
ghost inf psrpc.RPCInfo
ghost calls int
ghost reports int
ghost r any
ghost e error
on enter result(ctx, req, info, handler)
  set h = val(handler)
  set inf = info
  set c = ctx
  set q = req
on call psrpc.ServerRPCHandler(ctx, req)
  assert[once] callee == h && calls == 0
  assert[arguments] ctx == c && iface(req) == q
  set calls = 1
on after psrpc.ServerRPCHandler(ctx, req) -> (res, err)
  set r = res
  set e = err
on call (pkg/middleware.MetricsObserver).OnUnaryRequest(ob, role, info, d, err, rx, tx)
  assert[completed] calls == 1 && reports == 0
  assert[actual] ob == observer && err == e && role == middleware.ServerRole && info == inf && !inf.Multi
  set reports = 1
on call (pkg/middleware.MetricsObserver).OnMultiRequest(ob, role, info, d, n, bad, rx, tx)
  assert[completed] calls == 1 && reports == 0
  assert[actual] ob == observer && role == middleware.ServerRole && info == inf && inf.Multi
  assert[counts] n == ite(e == nil, 1, 0) && bad == ite(e == nil, 0, 1)
  set reports = 1
on exit result(ctx, req, info, handler) -> (res, err)
  assert[pass-through] calls == 1 && iface(res) == r && err == e
  assert[reported] reports == 1

unit K02.streamopen
property K02
func pkg/middleware.newStreamMetricsInterceptor
check index
check panics
flag explore result
flag nocallbacks *
ghost inf psrpc.RPCInfo
ghost opens int
ghost nx int
on enter result(rpcInfo, next)
  set inf = rpcInfo
  set nx = val(next)
on call (pkg/middleware.MetricsObserver).OnStreamOpen(ob, ro, info)
  assert[actual] ob == observer && ro == role && info == inf && opens == 0
  set opens = 1
on exit result(rpcInfo, next) -> (out)
  assert[reported] opens == 1
  assert[wraps] is(out, *middleware.streamMetricsInterceptor) && val(as(out, *middleware.streamMetricsInterceptor).StreamHandler) == nx && as(out, *middleware.streamMetricsInterceptor).observer == observer && as(out, *middleware.streamMetricsInterceptor).role == role && as(out, *middleware.streamMetricsInterceptor).info == inf

unit K02.streamsend
property K02
func (*pkg/middleware.streamMetricsInterceptor).Send
check index
check panics
ghost calls int
ghost reports int
ghost e error
on call (psrpc.StreamHandler).Send(h, m, o)
  assert[once] h == old(self.StreamHandler) && calls == 0
  assert[arguments] iface(m) == iface(msg) && len(o) == len(opts) && forall(j, 0, len(o), val(opts[j]) == val(o[j]))
  set calls = 1
on after (psrpc.StreamHandler).Send(h, m, o) -> (err)
  set e = err
on call (pkg/middleware.MetricsObserver).OnStreamSend(ob, role, info, d, err, n)
  assert[completed] calls == 1 && reports == 0
  assert[actual] ob == old(self.observer) && err == e && role == old(self.role) && info == old(self.info)
  set reports = 1
ensures[pass-through] calls == 1 && result == e
ensures[reported] reports == 1

unit K02.streamrecv
property K02
func (*pkg/middleware.streamMetricsInterceptor).Recv
check index
check panics
ghost calls int
ghost reports int
ghost e error
on call (psrpc.StreamHandler).Recv(h, m)
  assert[once] h == old(self.StreamHandler) && calls == 0
  assert[arguments] iface(m) == iface(msg)
  set calls = 1
on after (psrpc.StreamHandler).Recv(h, m) -> (err)
  set e = err
on call (pkg/middleware.MetricsObserver).OnStreamRecv(ob, role, info, err, n)
  assert[completed] calls == 1 && reports == 0
  assert[actual] ob == old(self.observer) && err == e && role == old(self.role) && info == old(self.info)
  set reports = 1
ensures[pass-through] calls == 1 && result == e
ensures[reported] reports == 1

unit K02.streamclose
property K02
func (*pkg/middleware.streamMetricsInterceptor).Close
check index
check panics
ghost calls int
ghost reports int
ghost won bool
ghost e error
maybe after ...Swap(b, v) -> (o)
  set won = won || v && !o
maybe after ...CompareAndSwap(b, o, v) -> (ok)
  set won = won || v && !o && ok
maybe after ...CAS(b, o, v) -> (ok)
  set won = won || v && !o && ok
on call (psrpc.StreamHandler).Close(h, c)
  assert[once] h == old(self.StreamHandler) && calls == 0
  assert[arguments] c == cause
  set calls = 1
on after (psrpc.StreamHandler).Close(h, c) -> (err)
  set e = err
on call (pkg/middleware.MetricsObserver).OnStreamClose(ob, role, info)
  assert[first] won && reports == 0
  assert[actual] ob == old(self.observer) && role == old(self.role) && info == old(self.info)
  set reports = 1
ensures[pass-through] calls == 1 && result == e
ensures[reported] reports == ite(won, 1, 0)

unit K02.multiopen
property K02
func pkg/middleware.newMultiRPCMetricsInterceptor
check index
check panics
flag explore result
flag nocallbacks *
ghost inf psrpc.RPCInfo
ghost nx int
on enter result(info, next)
  set inf = info
  set nx = val(next)
on exit result(info, next) -> (out)
  assert[wraps] is(out, *middleware.multiRPCMetricsInterceptor) && val(as(out, *middleware.multiRPCMetricsInterceptor).ClientMultiRPCHandler) == nx && as(out, *middleware.multiRPCMetricsInterceptor).observer == observer && as(out, *middleware.multiRPCMetricsInterceptor).info == inf
  assert[zero] as(out, *middleware.multiRPCMetricsInterceptor).responseCount == 0 && as(out, *middleware.multiRPCMetricsInterceptor).errorCount == 0

unit K02.multisend
property K02
func (*pkg/middleware.multiRPCMetricsInterceptor).Send
check index
check panics
ghost calls int
ghost e error
on call (psrpc.ClientMultiRPCHandler).Send(h, c, m, o)
  assert[once] h == old(self.ClientMultiRPCHandler) && calls == 0
  assert[arguments] c == ctx && iface(m) == iface(req) && len(o) == len(opts) && forall(j, 0, len(o), val(opts[j]) == val(o[j]))
  assert[counts] self.responseCount == old(self.responseCount) && self.errorCount == old(self.errorCount)
  set calls = 1
on after (psrpc.ClientMultiRPCHandler).Send(h, c, m, o) -> (err)
  set e = err
ensures[pass-through] calls == 1 && result == e

unit K02.multirecv
property K02
func (*pkg/middleware.multiRPCMetricsInterceptor).Recv
check index
check panics
ghost calls int
on call (psrpc.ClientMultiRPCHandler).Recv(h, m, e)
  assert[once] h == old(self.ClientMultiRPCHandler) && calls == 0
  assert[arguments] iface(m) == iface(msg) && e == err
  assert[counts] self.responseCount == old(self.responseCount) + ite(err == nil, 1, 0) && self.errorCount == old(self.errorCount) + ite(err == nil, 0, 1)
  set calls = 1
ensures[pass-through] calls == 1

unit K02.multiclose
property K02
func (*pkg/middleware.multiRPCMetricsInterceptor).Close
check index
check panics
ghost calls int
ghost reports int
on call (pkg/middleware.MetricsObserver).OnMultiRequest(ob, role, info, d, n, bad, rx, tx)
  assert[once] reports == 0
  assert[actual] ob == old(self.observer) && role == middleware.ClientRole && info == old(self.info)
  assert[counts] n == old(self.responseCount) && bad == old(self.errorCount)
  set reports = 1
on call (psrpc.ClientMultiRPCHandler).Close(h)
  assert[once] h == old(self.ClientMultiRPCHandler) && calls == 0
  set calls = 1
ensures[pass-through] calls == 1
ensures[reported] reports == 1

unit K02.traceclient
property K02
func pkg/middleware/otelpsrpc.ClientOptions
check index
check panics
flag returned yes
havoc pkg/metadata.WithOutgoingMetadata psrpc.GetErrorCode psrpc.WithClientRPCInterceptors
ghost nx int
ghost q any
ghost o []psrpc.RequestOption
ghost calls int
ghost ends int
ghost starts int
ghost sp any
ghost r any
ghost e error
on enter psrpc.ClientRPCInterceptor(rpcInfo, next)
  set nx = val(next)
on enter psrpc.ClientRPCHandler(ctx, req, opts)
  set q = req
  set o = opts
  set calls = 0
  set starts = 0
  set ends = 0
on after (go.opentelemetry.io/otel/trace.Tracer).Start(tr, ctx, name, so) -> (c, s)
  assert[one-span] starts == 0
  set starts = 1
  set sp = s
on call psrpc.ClientRPCHandler(ctx, req, opts)
  assert[once] callee == nx && calls == 0 && ends == 0
  assert[arguments] iface(req) == q && len(opts) == len(o) && forall(j, 0, len(o), val(opts[j]) == val(o[j]))
  set calls = 1
on after psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  set r = res
  set e = err
on call (go.opentelemetry.io/otel/trace.Span).End(s, eo)
  assert[end-once] iface(s) == sp && ends == 0
  set ends = 1
on exit psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  assert[pass-through] calls == 1 && iface(res) == r && err == e
  assert[span-ended] starts == 1 && ends == 1

unit K02.traceserver
property K02
func pkg/middleware/otelpsrpc.ServerOptions
check index
check panics
havoc pkg/metadata.IncomingHeader psrpc.GetErrorCode psrpc.WithServerRPCInterceptors
ghost h int
ghost q any
ghost calls int
ghost ends int
ghost starts int
ghost sp any
ghost r any
ghost e error
on enter psrpc.ServerRPCInterceptor(ctx, req, info, handler)
  set q = req
  set h = val(handler)
  set calls = 0
  set starts = 0
  set ends = 0
on after (go.opentelemetry.io/otel/trace.Tracer).Start(tr, ctx, name, so) -> (c, s)
  assert[one-span] starts == 0
  set starts = 1
  set sp = s
on call psrpc.ServerRPCHandler(ctx, req)
  assert[once] callee == h && calls == 0 && ends == 0
  assert[arguments] iface(req) == q
  set calls = 1
on after psrpc.ServerRPCHandler(ctx, req) -> (res, err)
  set r = res
  set e = err
on call (go.opentelemetry.io/otel/trace.Span).End(s, eo)
  assert[end-once] iface(s) == sp && ends == 0
  set ends = 1
on exit psrpc.ServerRPCInterceptor(ctx, req, info, handler) -> (res, err)
  assert[pass-through] calls == 1 && iface(res) == r && err == e
  assert[span-ended] starts == 1 && ends == 1
