# R04: one slow or finished call never stalls the dispatchers

# the client's dispatcher can always go on once the call it delivers to has finished
unit R04.dispatch
property R04
func pkg/client.NewRPCClient
check index
check panics
havoc internal/bus.Subscribe
pure @names
ghost dn <-chan struct{}
on mapget map[string]pkg/client.pendingCall[*internal.Response](m, k, v, ok)
  set dn = v.done
on mapget map[string]pkg/client.pendingCall[*internal.ClaimRequest](m, k, v, ok)
  set dn = v.done
on mapget map[string]pkg/client.streamChannels(m, k, v, ok)
  set dn = v.closed
on send chan *internal.Response(ch, m)
  assert[way-out] recvalt(dn) || hasdefault()
on send chan *internal.ClaimRequest(ch, m)
  assert[way-out] recvalt(dn) || hasdefault()
on send chan *internal.Stream(ch, m)
  assert[way-out] recvalt(dn) || hasdefault()

# a finished unary call has closed the way out of both of its entries, and the one of its
# claims as soon as it waits for the response only
unit R04.unary
property R04
func pkg/client.RequestSingle
check index
check panics
havoc @client pkg/client.selectServer
pure @names
ghost rd <-chan struct{}
ghost cd <-chan struct{}
ghost reg bool
ghost creg bool
on enter psrpc.ClientRPCHandler(ctx, req, opts)
  set reg = false
  set creg = false
on mapset map[string]pkg/client.pendingCall[*internal.Response](m, k, v)
  set rd = v.done
  set reg = true
on mapset map[string]pkg/client.pendingCall[*internal.ClaimRequest](m, k, v)
  set cd = v.done
  set creg = true
on recv chan *internal.Response(ch, m, ok)
  assert[no-more-claims] creg ==> isdone(cd)
on exit psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  assert[responses-done] reg ==> isdone(rd)
  assert[claims-done] creg ==> isdone(cd)

# a multi call: its way out opens at its timeout at the latest, and when it ends
unit R04.multi
property R04
func pkg/client.RequestMulti
check index
check panics
havoc @client
pure @names
ghost rd <-chan struct{}
ghost t time.Duration
ghost c0 context.Context
ghost in bool
on enter (psrpc.ClientMultiRPCHandler).Send(ctx, req, opts)
  set c0 = ctx
on after pkg/client.getRequestOpts(gc, i, co, opts) -> (r)
  set t = r.Timeout
on call context.WithTimeout(p, d)
  assert[bounded] p == c0 && d == t
on mapset map[string]pkg/client.pendingCall[*internal.Response](m, k, v)
  set rd = v.done
  set in = true
on exit thread() when in
  assert[done] isdone(rd)

# a stream: the channel that is registered as the way out is the one the stream closes
unit R04.open
property R04
func pkg/client.OpenStream
check index
check panics
havoc @client pkg/client.selectServer internal/stream.NewStream
pure @names
flag nocallbacks *
flag nothreads *
ghost cd <-chan struct{}
ghost sd <-chan struct{}
ghost in bool
on mapset map[string]pkg/client.pendingCall[*internal.ClaimRequest](m, k, v)
  set cd = v.done
  set in = true
on mapset map[string]pkg/client.streamChannels(m, k, v)
  set sd = v.closed
on call internal/stream.NewStream(sx, i, id, t, ad, si, rc, acks)
  assert[same-channel] is(ad, *client.clientStream) && as(ad, *client.clientStream).closed == sd
on recv chan struct{}(ch, v, ok) when inf.RequireClaim
  assert[no-more-claims] isdone(cd)
ensures[claims-done] in ==> isdone(cd)
ghost inf *info.RequestInfo
on after (*pkg/info.ServiceDefinition).GetInfo(d, r, t) -> (i)
  set inf = i

unit R04.streamclose
property R04
func (*pkg/client.clientStream).Close
check index
check panics
ensures[way-out] closed(s.closed)

# the server's dispatcher never waits for a handler
unit R04.server
property R04
func pkg/server.RegisterHandler
check index
havoc @server @respond
pure @names
ghost in bool
on send chan *internal.ClaimResponse(ch, m)
  assert[way-out] hasdefault()

unit R04.streamserver
property R04
func pkg/server.RegisterStreamHandler
check index
check panics
havoc @server internal/stream.NewStream
pure @names
flag nocallbacks *
on send chan *internal.ClaimResponse(ch, m)
  assert[way-out] hasdefault()
