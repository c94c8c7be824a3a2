# T01: a stream send succeeds only if the peer acknowledged that message

guard internal/stream.streamBase.mu: acks, closed, err, [internal/stream.stream.hijacked]
invariant[cause] internal/stream.streamBase.mu(self): self.closed == (self.err != nil)

unit T01.send
property T01
func (*internal/stream.streamBase).Send
check index
check panics
havoc internal/bus.SerializePayload @ids internal/stream.getStreamOpts
ghost rid string
ghost b []byte
ghost t time.Duration
ghost ack chan struct{}
ghost reg bool
ghost pend int
ghost isclosed bool
ghost cause error
ghost acked bool
ghost failed bool
ghost serr error
ghost sent int
ghost cctx context.Context
on lock internal/stream.streamBase.mu(self, w)
  assert[own-lock] self == s
  set isclosed = ite(ended && !looked, self.closed, isclosed)
  set cause = ite(ended && !looked, self.err, cause)
  set closed0 = ite(first, self.closed, closed0)
  set cause0 = ite(first, self.err, cause0)
  set looked = looked || ended
  set first = false
on call (*sync.WaitGroup).Add(w, n)
  assert[open] held(s.mu) && !s.closed && n == 1
  set pend = pend + n
on call (*sync.WaitGroup).Done(w)
  set pend = pend - 1
on after internal/stream.getStreamOpts(so, oo) -> (r)
  set t = r.Timeout
on after pkg/rand.NewRequestID() -> (id)
  set rid = id
on after internal/bus.SerializePayload(m) -> (bb, err)
  set b = bb
on mapset map[string]chan struct{}(m, k, v)
  assert[own-entry] m == s.acks && k == rid && !reg && held(s.mu) && v != nil
  set reg = true
  set ack = v
on mapdel map[string]chan struct{}(m, k)
  assert[own-entry] m == s.acks && k == rid && held(s.mu)
  set reg = false
on call context.WithDeadline(p, d)
  assert[bounded] p == s.ctx && d == now0.Add(t)
on after time.Now() -> (tt)
  set now0 = tt
ghost now0 time.Time
on after context.WithDeadline(p, d) -> (cx, f)
  set cctx = cx
on call (internal/stream.StreamAdapter).Send(a, cx, m)
  assert[registered-first] reg && pend == 1 && a == s.adapter && cx == cctx
  assert[message] m.StreamId == s.streamID && m.RequestId == rid && is(m.Body, *internal.Stream_Message) && ref(as(m.Body, *internal.Stream_Message).Message.RawMessage) == ref(b)
  assert[once] sent == 0
  set sent = 1
on after (internal/stream.StreamAdapter).Send(a, cx, m) -> (err)
  set failed = err != nil
  set serr = err
on recv chan struct{}(ch, v, ok)
  assert[ack-or-end] ch == ack || ch == cctx.Done() || ch == s.ctx.Done()
  set acked = acked || ch == ack
  set ended = ended || ch == s.ctx.Done()
maybe on after (context.Context).Err(cx) -> (e)
  set ended = ended || (cx == s.ctx && e != nil)
ghost ended bool
ghost looked bool
ghost first bool = true
ghost closed0 bool
ghost cause0 error
ensures[acknowledged] result == nil ==> acked && sent == 1
ensures[send-error] failed ==> result == serr
ensures[timed-out] sent == 1 && !failed && !acked && !ended ==> result == psrpc.ErrRequestTimedOut
ensures[stream-error] sent == 1 && !failed && !acked && ended && isclosed ==> result == cause
ensures[closed] closed0 ==> result == cause0 && sent == 0
ensures[nothing-left] !reg && pend == 0

unit T01.pending
property T01
func (*internal/stream.streamBase).addPending
check index
check panics
ghost pend int
on call (*sync.WaitGroup).Add(w, n)
  assert[open] held(s.mu) && !s.closed && n == 1
  set pend = pend + n
ensures[closed] s.closed ==> result == s.err && result != nil && pend == 0
ensures[open] !s.closed ==> result == nil && pend == 1

# receiving a message
unit T01.receive
property T01
func (*internal/stream.stream).HandleStream
check index
check panics
havoc internal/bus.DeserializePayload
ghost pend int
ghost isclosed bool
ghost cause error
ghost decoded bool
ghost bad bool
ghost v proto.Message
ghost recvd bool
ghost refused bool
ghost rerr error
ghost acked int
ghost key string
ghost found bool
ghost ch0 chan struct{}
ghost deleted bool
ghost closes int
on lock internal/stream.streamBase.mu(self, w)
  set isclosed = self.closed
  set cause = self.err
on call (*sync.WaitGroup).Add(w, n)
  assert[open] !s.closed
  set pend = pend + n
on call (*sync.WaitGroup).Done(w)
  set pend = pend - 1
on after internal/bus.DeserializePayload(b) -> (m, err)
  set decoded = err == nil
  set bad = err != nil
  set v = m
on call (psrpc.StreamHandler).Recv(h, m)
  assert[delivered-once] h == s.handler && decoded && !recvd && !refused && iface(m) == iface(v) && pend == 1
on after (psrpc.StreamHandler).Recv(h, m) -> (err)
  set recvd = err == nil
  set refused = err != nil
  set rerr = err
on call (internal/stream.StreamAdapter).Send(a, cx, m)
  assert[ack-after-recv] recvd && acked == 0 && a == s.adapter
  assert[ack-of-message] m.StreamId == is.StreamId && m.RequestId == is.RequestId && is(m.Body, *internal.Stream_Ack)
  set acked = 1
on mapget map[string]chan struct{}(m, k, v, ok)
  assert[own-id] m == s.acks && k == is.RequestId && is(is.Body, *internal.Stream_Ack)
  set key = k
  assume ok ==> v != nil
  set found = ok
  set ch0 = v
on mapdel map[string]chan struct{}(m, k)
  assert[own-id] m == s.acks && k == is.RequestId && is(is.Body, *internal.Stream_Ack)
  set deleted = true
on close chan struct{}(ch)
  assert[acknowledges] found && ch == ch0 && deleted && closes == 0
  set closes = 1
ensures[refused-reported] refused ==> result == rerr && acked == 0
ensures[undecodable] bad ==> acked == 0 && is(result, *psrpc.psrpcError) && as(result, *psrpc.psrpcError).code == psrpc.MalformedRequest
ensures[closed] is(is.Body, *internal.Stream_Message) && isclosed ==> result == cause && acked == 0 && !decoded
ensures[balanced] pend == 0
ensures[ack-consumed] found ==> closes == 1 && deleted

# delivering a received message
unit T01.deliver
property T01
func (*internal/stream.streamBase).Recv
check index
ghost sent int
on send ...(ch, m)
  assert[delivered] ch == s.recvChan && sent == 0 && iface(m) == iface(msg)
  assert[way-out] hasdefault()
  set sent = sent + 1
ensures[placed] result == nil ==> sent == 1
ensures[slow-consumer] sent == 0 ==> result == psrpc.ErrSlowConsumer
