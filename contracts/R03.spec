# R03: responses reach only their own request, and no entry is left behind

# the dispatcher: a message goes to the entry registered under its id, once
unit R03.dispatch
property R03
func pkg/client.NewRPCClient
check index
check panics
havoc internal/bus.Subscribe
pure @names
ghost rs *internal.Response
ghost cl *internal.ClaimRequest
ghost sm *internal.Stream
ghost key string
ghost found bool
ghost to int
ghost sent int
on recv chan *internal.Response(ch, m, ok)
  set rs = m
  set cl = nil
  set sm = nil
  set found = false
  set sent = 0
on recv chan *internal.ClaimRequest(ch, m, ok)
  set cl = m
  set rs = nil
  set sm = nil
  set found = false
  set sent = 0
on recv chan *internal.Stream(ch, m, ok)
  set sm = m
  set rs = nil
  set cl = nil
  set found = false
  set sent = 0
on mapget map[string]pkg/client.pendingCall[*internal.Response](m, k, v, ok)
  set key = k
  set found = ok
  set to = val(v.ch)
on mapget map[string]pkg/client.pendingCall[*internal.ClaimRequest](m, k, v, ok)
  set key = k
  set found = ok
  set to = val(v.ch)
on mapget map[string]pkg/client.streamChannels(m, k, v, ok)
  set key = k
  set found = ok
  set to = val(v.recvChan)
on send chan *internal.Response(ch, m)
  assert[registered] found && key == m.RequestId && val(ch) == to
  assert[as-received] m == rs && rs != nil
  assert[once] sent == 0
  set sent = 1
on send chan *internal.ClaimRequest(ch, m)
  assert[registered] found && key == m.RequestId && val(ch) == to
  assert[as-received] m == cl && cl != nil
  assert[once] sent == 0
  set sent = 1
on send chan *internal.Stream(ch, m)
  assert[registered] found && key == m.StreamId && val(ch) == to
  assert[as-received] m == sm && sm != nil
  assert[once] sent == 0
  set sent = 1

# a unary call
unit R03.unary
property R03
func pkg/client.RequestSingle
check index
check panics
havoc @client pkg/client.selectServer
pure @names
ghost rid string
ghost inf *info.RequestInfo
ghost reg bool
ghost claimreg bool
ghost rch chan *internal.Response
ghost cch chan *internal.ClaimRequest
ghost got bool
ghost puberr bool
ghost selerr bool
ghost ended bool
ghost dn <-chan struct{}
ghost c0 context.Context
ghost dctx context.Context
ghost t time.Duration
on after (*pkg/info.ServiceDefinition).GetInfo(d, r, t) -> (i)
  set inf = i
on enter psrpc.ClientRPCHandler(ctx, req, opts)
  set reg = false
  set claimreg = false
  set got = false
  set puberr = false
  set selerr = false
  set ended = false
  set c0 = ctx
on after pkg/client.getRequestOpts(gc, i, co, opts) -> (r)
  set t = r.Timeout
on call context.WithTimeout(p, d)
  assert[bounded] p == c0 && d == t
on after context.WithTimeout(p, d) -> (cx, f)
  set dctx = cx
on after pkg/rand.NewRequestID() -> (id)
  set rid = id
on mapset map[string]pkg/client.pendingCall[*internal.Response](m, k, v)
  assert[own-id] k == rid && !reg
  set reg = true
  set rch = v.ch
on mapset map[string]pkg/client.pendingCall[*internal.ClaimRequest](m, k, v)
  assert[own-id] k == rid && !claimreg
  set claimreg = true
  set cch = v.ch
on mapdel map[string]pkg/client.pendingCall[*internal.Response](m, k)
  assert[own-id] k == rid
  set reg = false
on mapdel map[string]pkg/client.pendingCall[*internal.ClaimRequest](m, k)
  assert[own-id] k == rid
  set claimreg = false
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Request)
  assert[registered-first] reg && (inf.RequireClaim ==> claimreg) && as(msg, *internal.Request).RequestId == rid
on after (internal/bus.MessageBus).Publish(b, pc, ch, msg) -> (err)
  set puberr = puberr || err != nil
on call pkg/client.selectServer(sc, claims, res, so)
  assert[own-channels] claims == cch && res == rch && reg && claimreg
  assert[within-call] sc == dctx
on after pkg/client.selectServer(sc, claims, res, so) -> (id, err)
  set selerr = selerr || err != nil
on recv chan *internal.Response(ch, m, ok)
  assert[own-channel] ch == rch && reg
  assume ok && m != nil
  set got = true
on recv chan struct{}(ch, v, ok)
  assert[deadline-or-caller] !isdone(ch) && ch == dctx.Done()
  set ended = true
  set dn = ch
on exit psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  assert[nothing-left] !reg && !claimreg
  assert[failed] puberr || selerr || ended ==> err != nil && res == nil
  assert[publish-error] puberr ==> is(err, *psrpc.psrpcError) && as(err, *psrpc.psrpcError).code == psrpc.Internal
  assert[canceled] ended && canceled(dctx) ==> err == psrpc.ErrRequestCanceled
  assert[timed-out] ended && !canceled(dctx) ==> err == psrpc.ErrRequestTimedOut

# a multi call: registered under its own id before it is published, removed when it ends
unit R03.multi
property R03
func pkg/client.RequestMulti
check index
check panics
havoc @client
pure @names
ghost rid string
ghost reg bool
ghost rch chan *internal.Response
ghost puberr bool
ghost err0 error
on after pkg/rand.NewRequestID() -> (id)
  set rid = id
on enter (psrpc.ClientMultiRPCHandler).Send(ctx, req, opts)
  set reg = false
  set puberr = false
on mapset map[string]pkg/client.pendingCall[*internal.Response](m, k, v)
  assert[own-id] k == rid
  set reg = true
  set rch = v.ch
on mapdel map[string]pkg/client.pendingCall[*internal.Response](m, k)
  assert[own-id] k == rid
  set reg = false
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg)
  assert[registered-first] reg && as(msg, *internal.Request).RequestId == rid
on after (internal/bus.MessageBus).Publish(b, pc, ch, msg) -> (err)
  set puberr = err != nil
on recv chan *internal.Response(ch, m, ok)
  assert[own-channel] ch == rch
  assume ok && m != nil
on exit (psrpc.ClientMultiRPCHandler).Send(ctx, req, opts) -> (err)
  assert[publish-error] puberr ==> is(err, *psrpc.psrpcError) && as(err, *psrpc.psrpcError).code == psrpc.Internal
on exit (psrpc.ClientMultiRPCHandler).Close()
  assert[nothing-left] !reg
