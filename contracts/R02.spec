# R02: deadlines and expiry

# the effective timeout before options, for a call entered at t0
spec basetimeout(b, ctx, t, t0) = ite(hasdeadline(ctx), deadline(ctx)-now() <= b && b <= deadline(ctx)-t0 && (t == 0 || b <= t) || b == t && t != 0 && t <= deadline(ctx)-t0 || b == 3000000000 && deadline(ctx)-now() <= 0 && 0 <= deadline(ctx)-t0, b == ite(t == 0, 3000000000, t))

unit R02.opts
property R02
func pkg/client.getRequestOpts
check index
check panics
ghost n int
ghost left time.Duration
ghost t0 int = now()
loop n == _i
loop n == _i+1
loop n == 0 || left == _i
loop n != 0 || basetimeout(_i, ctx, options.Timeout, t0)
on call psrpc.RequestOption(o)
  assert[in-order] n < len(opts) && callee == val(opts[n])
  assert[one-result] n > 0 ==> o.Timeout == left
  assert[base] n == 0 ==> basetimeout(o.Timeout, ctx, options.Timeout, t0)
on after psrpc.RequestOption(o)
  set left = o.Timeout
  set n = n + 1
ensures[every-option] n == len(opts)
ensures[options-decide] n > 0 ==> result.Timeout == left
ensures[base] n == 0 ==> basetimeout(result.Timeout, ctx, options.Timeout, t0)

unit R02.option
property R02
func psrpc.WithRequestTimeout
check index
check panics
ensures[timeout] applied(result, psrpc.RequestOpts).Timeout == timeout

# a unary request: send time plus effective timeout, clamped to the caller's deadline
unit R02.unary
property R02
func pkg/client.RequestSingle
check index
check panics
havoc @client pkg/client.selectServer
pure @names
ghost c0 context.Context
ghost o0 []psrpc.RequestOption
ghost t0 int
ghost t time.Duration
ghost got bool
on enter psrpc.ClientRPCHandler(ctx, req, opts)
  set c0 = ctx
  set o0 = opts
  set t0 = now()
  set got = false
on call pkg/client.getRequestOpts(gc, i, co, opts)
  assert[client-options] co.Timeout == c.ClientOpts.Timeout
on after pkg/client.getRequestOpts(gc, i, co, opts) -> (r)
  set got = gc == c0 && ref(opts) == ref(o0) && len(opts) == len(o0)
  set t = r.Timeout
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Request)
  assert[effective-timeout] got
  assert[send-time] t0 <= as(msg, *internal.Request).SentAt && as(msg, *internal.Request).SentAt <= now()
  assert[expiry] as(msg, *internal.Request).Expiry == ite(hasdeadline(c0) && deadline(c0) < as(msg, *internal.Request).SentAt + t, deadline(c0), as(msg, *internal.Request).SentAt + t)

unit R02.multi
property R02
func pkg/client.RequestMulti
check index
check panics
havoc @client
pure @names
ghost c0 context.Context
ghost o0 []psrpc.RequestOption
ghost t0 int
ghost t time.Duration
ghost got bool
on enter (psrpc.ClientMultiRPCHandler).Send(ctx, req, opts)
  set c0 = ctx
  set o0 = opts
  set t0 = now()
  set got = false
on call pkg/client.getRequestOpts(gc, i, co, opts)
  assert[client-options] co.Timeout == c.ClientOpts.Timeout
on after pkg/client.getRequestOpts(gc, i, co, opts) -> (r)
  set got = gc == c0 && ref(opts) == ref(o0) && len(opts) == len(o0)
  set t = r.Timeout
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Request)
  assert[effective-timeout] got
  assert[send-time] t0 <= as(msg, *internal.Request).SentAt && as(msg, *internal.Request).SentAt <= now()
  assert[expiry] as(msg, *internal.Request).Expiry == as(msg, *internal.Request).SentAt + t

unit R02.open
property R02
func pkg/client.OpenStream
check index
check panics
havoc @client pkg/client.selectServer
pure @names
flag nocallbacks *
flag nothreads *
ghost t0 int = now()
ghost t time.Duration
ghost got bool
on call pkg/client.getRequestOpts(gc, i, co, os)
  assert[client-options] co.Timeout == c.ClientOpts.Timeout
on after pkg/client.getRequestOpts(gc, i, co, os) -> (r)
  set got = gc == ctx && ref(os) == ref(opts) && len(os) == len(opts)
  set t = r.Timeout
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Stream) && is(as(msg, *internal.Stream).Body, *internal.Stream_Open)
  assert[effective-timeout] got
  assert[send-time] t0 <= as(msg, *internal.Stream).SentAt && as(msg, *internal.Stream).SentAt <= now()
  assert[expiry] as(msg, *internal.Stream).Expiry == as(msg, *internal.Stream).SentAt + t

# the server: nothing that expired on receipt is started, handlers and claims end at the expiry
unit R02.server
property R02
func pkg/server.RegisterHandler
check index
havoc @server @respond
pure @names
ghost ir *internal.Request
ghost at int
ghost inner bool
ghost pub bool
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.ClaimRequest)
  set pub = true
on recv chan *internal.Request(ch, m, ok)
  set ir = m
  set at = now()
on enter psrpc.ServerRPCHandler(ctx, req)
  set inner = true
on call psrpc.ServerRPCInterceptor(hc, req, inf, next)
  assert[not-expired] at < ir.Expiry
  assert[deadline] hasdeadline(hc) && deadline(hc) == ir.Expiry
on call func(hc, req) when callee == val(svcImpl) && !inner
  assert[not-expired] at < ir.Expiry
  assert[deadline] hasdeadline(hc) && deadline(hc) == ir.Expiry
on recv chan *internal.ClaimResponse(ch, m, ok) when pub && !inner
  assert[claim-wait] readyby(ir.Expiry)

unit R02.stream
property R02
func pkg/server.RegisterStreamHandler
check index
check panics
havoc @server
pure @names
flag nocallbacks *
ghost is *internal.Stream
ghost pub bool
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.ClaimRequest)
  set pub = true
ghost at int
on recv chan *internal.Stream(ch, m, ok)
  set is = m
  set at = now()
on call func(ss) when callee == val(svcImpl)
  assert[not-expired] at < is.Expiry
on recv chan *internal.ClaimResponse(ch, m, ok) when pub
  assert[claim-wait] readyby(is.Expiry)
