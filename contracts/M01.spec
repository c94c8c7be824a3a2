# M01: multi RPC results

# from the request to the end of the call
unit M01.call
property M01
func pkg/client.RequestMulti
check index
check panics
havoc @client
pure @names
ghost head psrpc.ClientMultiRPCHandler
ghost rid string
ghost c0 context.Context
ghost t0 int
ghost t time.Duration
ghost opts0 psrpc.RequestOpts
ghost reg bool
ghost rch chan *internal.Response
ghost puberr bool
ghost tried int
ghost m *internal.Response
ghost fwd bool = true
ghost ts int
ghost fin bool
ghost started bool
loop fwd
loop !fin
on after internal/interceptors.ChainClientInterceptors(i, r, h) -> (res)
  assert[innermost] is(h, *client.multiRPC[ResponseType])
  set head = res
on after pkg/rand.NewRequestID() -> (id)
  set rid = id
on call (psrpc.ClientMultiRPCHandler).Send(h, ctx, req, opts)
  assert[head] h == head
on enter (psrpc.ClientMultiRPCHandler).Send(ctx, req, opts)
  set c0 = ctx
  set t0 = now()
  set reg = false
  set puberr = false
  set tried = 0
on after pkg/client.getRequestOpts(gc, i, co, opts) -> (r)
  set t = r.Timeout
on mapset map[string]pkg/client.pendingCall[*internal.Response](k0, k, v)
  assert[own-id] k == rid
  set reg = true
  set rch = v.ch
on mapdel map[string]pkg/client.pendingCall[*internal.Response](k0, k)
  assert[own-id] k == rid
  set reg = false
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg)
  assert[registered-first] reg
  assert[request] is(msg, *internal.Request) && as(msg, *internal.Request).RequestId == rid && as(msg, *internal.Request).Multi
  assert[once] tried == 0
  set tried = 1
on after (internal/bus.MessageBus).Publish(b, pc, ch, msg) -> (err)
  set puberr = err != nil
on exit (psrpc.ClientMultiRPCHandler).Send(ctx, req, opts) -> (err)
  assert[publish-error] puberr ==> is(err, *psrpc.psrpcError) && as(err, *psrpc.psrpcError).code == psrpc.Internal
  assert[published] err == nil ==> tried == 1
on enter thread()
  set fwd = true
  set fin = false
  set ts = now()
on recv chan *internal.Response(ch, r, ok)
  assert[own-channel] ch == rch
  assert[forwarded-before] fwd && !fin
  assert[ends-on-cancel] recvalt(c0.Done())
  assert[ends-on-timeout] readyby(ts + t)
  assume ok && r != nil
  set m = r
  set fwd = false
on call (psrpc.ClientMultiRPCHandler).Recv(h, v, err)
  assert[once] !fwd && !fin
  set fwd = true
on call (psrpc.ClientMultiRPCHandler).Close(h)
  assert[ended] isdone(c0) || now() >= t0 + t
  assert[all-forwarded] fwd
  assert[once] !fin
  set fin = true
on exit thread()
  assert[closed] fin

# what reaches the caller: one result per Recv; Close removes the registration, then closes
# the channel, once
unit M01.results
property M01
func pkg/client.RequestMulti
check index
check panics
havoc @client
pure @names
ghost rid string
ghost rc <-chan *psrpc.Response[ResponseType]
ghost made bool
ghost sent int
ghost pm any
ghost pe error
ghost reg bool = true
ghost shut int
on after pkg/rand.NewRequestID() -> (id)
  set rid = id
on makechan chan *psrpc.Response(ch, n)
  assert[one-channel] !made
  set made = true
  set rc = ch
on enter (psrpc.ClientMultiRPCHandler).Recv(msg, err)
  set sent = 0
  set pm = msg
  set pe = err
on send chan *psrpc.Response(ch, r)
  assert[caller] made && ch == rc
  assert[error] r.Err == pe
  assert[result] is(pm, ResponseType) ==> iface(r.Result) == pm
  set sent = sent + 1
on exit (psrpc.ClientMultiRPCHandler).Recv(msg, err)
  assert[one-result] sent == 1
  assert[stays-open] shut == 0
on enter (psrpc.ClientMultiRPCHandler).Close()
  set reg = true
  set shut = 0
on mapdel map[string]pkg/client.pendingCall[*internal.Response](k0, k)
  assert[own-id] k == rid
  set reg = false
on close chan *psrpc.Response(ch)
  assert[caller] made && ch == rc
  assert[unregistered-first] !reg
  assert[once] shut == 0
  set shut = 1
on exit (psrpc.ClientMultiRPCHandler).Close()
  assert[closed] shut == 1
  assert[nothing-more] sent == 0
ensures[caller] err == nil ==> made && rChan == rc
