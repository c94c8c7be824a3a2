# T03: opening a stream either yields a live stream or cleans up completely

unit T03.open
property T03
func pkg/client.OpenStream
check index
check panics
havoc @client pkg/client.selectServer internal/stream.NewStream
pure @names
flag nocallbacks *
flag nothreads *
ghost closed0 bool
ghost inf *info.RequestInfo
ghost t time.Duration
ghost rid string
ghost sid string
ghost creg bool
ghost sreg bool
ghost rcv chan *internal.Stream
ghost cch chan *internal.ClaimRequest
ghost dn <-chan struct{}
ghost cs any
ghost made int
ghost acks map[string]chan struct{}
ghost running int
ghost pubs int
ghost puberr bool
ghost selerr bool
ghost serr error
ghost acked bool
ghost ended bool
ghost closes int
ghost cx context.Context
ghost bad bool
ghost chain any
ghost resp int
on after (*github.com/frostbyte73/core.Fuse).IsBroken(f) -> (r)
  set closed0 = closed0 || r
on after (*pkg/info.ServiceDefinition).GetInfo(d, r, tp) -> (i)
  set inf = i
on after pkg/client.getRequestOpts(gc, i, co, os) -> (r)
  set t = r.Timeout
on after pkg/rand.NewRequestID() -> (id)
  set rid = id
on after pkg/rand.NewStreamID() -> (id)
  set sid = id
on mapset map[string]pkg/client.pendingCall[*internal.ClaimRequest](m, k, v)
  assert[own-id] m == c.claimRequests && k == rid && !creg && held(c.mu)
  set creg = true
  set cch = v.ch
on mapset map[string]pkg/client.streamChannels(m, k, v)
  assert[own-id] m == c.streamChannels && k == sid && !sreg && held(c.mu)
  set sreg = true
  set rcv = v.recvChan
  set dn = v.closed
on mapdel map[string]pkg/client.pendingCall[*internal.ClaimRequest](m, k)
  assert[own-id] m == c.claimRequests && k == rid && held(c.mu)
  set creg = false
on call internal/stream.NewStream(sx, i, id, to, ad, si, rc, ak)
  assert[stream] made == 0 && sreg && sx == ctx && i == inf && id == sid && to == t
  assert[acked-by-open] len(ak) == 1 && has(ak, rid)
  assert[deregisters] is(ad, *client.clientStream) && as(ad, *client.clientStream).closed == dn && as(ad, *client.clientStream).c == c && as(ad, *client.clientStream).i == inf
  set made = 1
  set acks = ak
on after internal/stream.NewStream(sx, i, id, to, ad, si, rc, ak) -> (s)
  set cs = s
on go pkg/client.runClientStream(rc, s, ch)
  assert[runs] running == 0 && made == 1 && rc == c && iface(s) == cs && ch == rcv
  set running = 1
on call context.WithTimeout(p, d)
  assert[bounded] d == t && (p == ctx || p == cx)
on after context.WithTimeout(p, d) -> (x, f)
  set cx = x
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Stream)
  assert[open] pubs == 0 && is(as(msg, *internal.Stream).Body, *internal.Stream_Open)
  assert[registered-first] sreg && (inf.RequireClaim ==> creg) && running == 1 && as(msg, *internal.Stream).StreamId == sid && as(msg, *internal.Stream).RequestId == rid
  set pubs = 1
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.ClaimResponse)
  assert[selected] pubs == 1 && inf.RequireClaim && !selerr && !puberr && resp == 0
  set resp = 1
on after (internal/bus.MessageBus).Publish(b, pc, ch, msg) -> (err)
  set puberr = puberr || err != nil
on call pkg/client.selectServer(sc, claims, res, so)
  assert[own-claims] claims == cch && creg && sc == cx && pubs == 1 && inf.RequireClaim
on after pkg/client.selectServer(sc, claims, res, so) -> (id, err)
  set selerr = err != nil
  set serr = err
on recv chan struct{}(ch, v, ok)
  assert[ack-or-end] ch == acks[rid] || ch == cx.Done()
  set acked = acked || ch == acks[rid]
  set ended = ended || ch != acks[rid]
on call (internal/stream.Stream).Close(s, e)
  assert[own-stream] iface(s) == cs && made == 1 && e != nil
  set closes = closes + 1
ensures[closed] closed0 ==> result0 == nil && result1 == psrpc.ErrClientClosed && made == 0 && pubs == 0 && !sreg
ensures[acknowledged] result1 == nil ==> acked && !puberr && !selerr && iface(result0) == cs && closes == 0 && pubs == 1
ensures[claimed] result1 == nil && inf.RequireClaim ==> resp == 1
ensures[cleans-up] result1 != nil ==> result0 == nil && (sreg ==> made == 1 && closes >= 1)
ensures[no-claims-left] !creg
ensures[publish-error] puberr ==> is(result1, *psrpc.psrpcError) && as(result1, *psrpc.psrpcError).code == psrpc.Internal
ensures[selection-error] selerr ==> result1 == serr
ensures[canceled] ended && !acked && canceled(cx) ==> result1 == psrpc.ErrRequestCanceled
ensures[timed-out] ended && !acked && !canceled(cx) ==> result1 == psrpc.ErrRequestTimedOut

# what the client's side of a stream does until it ends
unit T03.run
property T03
func pkg/client.runClientStream
check index
check panics
ghost cur *internal.Stream
ghost handled int
ghost ended bool
ghost cause error
ghost closes int
ghost now0 int
on recv chan *internal.Stream(ch, m, ok)
  assert[own-channel] ch == recvChan && !ended
  assume ok && m != nil
  set cur = m
  set handled = 0
  set now0 = now()
on call (internal/stream.Stream).HandleStream(s, m)
  assert[handled-once] s == stream && m == cur && handled == 0 && now0 < m.Expiry
  set handled = 1
on recv chan struct{}(ch, v, ok)
  set ended = true
on call (internal/stream.Stream).Close(s, e)
  assert[close-at-end] s == stream && ended && closes == 0
  set closes = 1
ensures[closed] ended && closes == 1

# the client's stream deregisters itself and lets the dispatcher go
unit T03.deregister
property T03
func (*pkg/client.clientStream).Close
check index
check panics
ghost n int
ghost d int
on mapdel map[string]pkg/client.streamChannels(m, k)
  assert[own-id] m == s.c.streamChannels && k == streamID && held(s.c.mu)
  set d = 1
on close chan struct{}(ch)
  assert[way-out] ch == s.closed && n == 0
  set n = 1
ensures[deregistered] d == 1 && n == 1

unit T03.send
property T03
func (*pkg/client.clientStream).Send
check index
check panics
pure @names
ghost n int
ghost e error
on call (internal/bus.MessageBus).Publish(b, pc, ch, m)
  assert[to-server] n == 0 && b == s.c.bus && pc == ctx && m == iface(msg) && ch == s.i.GetStreamServerChannel()
  set n = 1
on after (internal/bus.MessageBus).Publish(b, pc, ch, m) -> (er)
  set e = er
ensures[sent] n == 1
ensures[reported] e == nil ==> result == nil
ensures[publish-error] e != nil ==> is(result, *psrpc.psrpcError) && as(result, *psrpc.psrpcError).code == psrpc.Internal

# the server: an open is acknowledged once it is registered, and handled once
unit T03.server
property T03
func pkg/server.RegisterStreamHandler
check index
check panics
havoc @server internal/stream.NewStream
pure @names
flag nocallbacks *
ghost is *internal.Stream
ghost cur any
ghost ss any
ghost made int
ghost reg bool
ghost acked bool
ghost ackbad bool
ghost runs int
ghost herr error
ghost hij bool
ghost asked bool
ghost closes int
ghost cause error
ghost open bool
ghost drained bool
on recv chan *internal.Stream(ch, m, ok)
  set is = m
on enter thread()
  set made = 0
  set reg = false
  set acked = false
  set ackbad = false
  set runs = 0
  set hij = false
  set asked = false
  set closes = 0
  set open = is != nil
on call internal/stream.NewStream(sx, i, id, to, ad, si, rc, ak)
  assert[own-id] open && made == 0 && id == is.StreamId
  set made = 1
on after internal/stream.NewStream(sx, i, id, to, ad, si, rc, ak) -> (s)
  set ss = s
on mapset ...Stream[...(m, k, v)
  assert[own-id] made == 1 && k == is.StreamId && !reg && iface(v) == ss
  set reg = true
on call (internal/stream.Stream).Ack(s, cx, m)
  assert[registered-first] reg && !acked && m == is && iface(s) == ss && closes == 0
  set acked = true
on after (internal/stream.Stream).Ack(s, cx, m) -> (err)
  set ackbad = err != nil
on call func(s) when callee == val(svcImpl)
  assert[once] runs == 0 && open && iface(s) == ss
  assert[acknowledged-first] acked && !ackbad
  set runs = 1
on after func(s) -> (err) when callee == val(svcImpl)
  set herr = err
on after (internal/stream.Stream).Hijacked(s) -> (h)
  set hij = h
  set asked = iface(s) == ss && runs == 1
on call (internal/stream.Stream).Close(s, e) when open
  assert[close] closes == 0 && iface(s) == ss
  assert[handlers-error] runs == 1 ==> e == herr && asked && !hij
  set closes = 1
on exit thread()
  assert[run-and-closed] runs == 1 ==> hij || closes == 1
  assert[cleaned-up] made == 1 && runs == 0 ==> closes == 1

# what else arrives for a stream goes to the stream registered under its id, once
unit T03.route
property T03
func pkg/server.RegisterStreamHandler
check index
check panics
havoc @server internal/stream.NewStream
pure @names
flag nocallbacks *
ghost is *internal.Stream
ghost to any
ghost found bool
ghost n int
on recv chan *internal.Stream(ch, m, ok)
  set is = m
  set n = 0
  set found = false
on mapget ...Stream[...(m, k, v, ok)
  assert[own-id] k == is.StreamId
  set found = ok
  set to = v
on call (internal/stream.Stream).HandleStream(s, m)
  assert[registered] found && iface(s) == to && m == is && n == 0
  set n = 1

unit T03.serverclose
property T03
func (*pkg/server.serverStream).Close
check index
check panics
ghost d int
on mapdel ...Stream[...(m, k)
  assert[own-id] m == s.h.streams && k == streamID && held(s.h.mu)
  set d = 1
ensures[deregistered] d == 1

unit T03.serversend
property T03
func (*pkg/server.serverStream).Send
check index
check panics
pure @names
ghost n int
ghost e error
on call (internal/bus.MessageBus).Publish(b, pc, ch, m)
  assert[to-client] n == 0 && b == s.s.bus && pc == ctx && m == iface(msg) && ch == info.GetStreamChannel(s.s.Name, s.nodeID)
  set n = 1
on after (internal/bus.MessageBus).Publish(b, pc, ch, m) -> (er)
  set e = er
ensures[sent] n == 1
ensures[reported] e == nil ==> err == nil
ensures[publish-error] e != nil ==> is(err, *psrpc.psrpcError) && as(err, *psrpc.psrpcError).code == psrpc.Internal
