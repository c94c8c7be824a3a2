# T02: a stream closes exactly once and keeps its first cause

unit T02.new
property T02
func internal/stream.NewStream
check index
check panics
havoc internal/interceptors.ChainClientInterceptors
flag nocallbacks ...
ghost base any
ghost h any
ghost cx context.Context
ghost cf int
ghost n int
on after context.WithCancel(p) -> (c, f)
  set cx = c
  set cf = val(f)
on call internal/interceptors.ChainClientInterceptors(ci, ii, bs)
  assert[chain] n == 0 && len(ci) == len(streamInterceptors) && ref(ci) == ref(streamInterceptors) && ii == i
  set base = bs
  set n = 1
on after internal/interceptors.ChainClientInterceptors(ci, ii, bs) -> (r)
  set h = r
ensures[open] n == 1 && val(base) == val(as(result, *stream.stream[SendType, RecvType]).streamBase) && !as(result, *stream.stream[SendType, RecvType]).streamBase.closed && as(result, *stream.stream[SendType, RecvType]).streamBase.err == nil && iface(as(result, *stream.stream[SendType, RecvType]).handler) == h
ensures[own-parts] as(result, *stream.stream[SendType, RecvType]).streamBase.streamID == streamID && as(result, *stream.stream[SendType, RecvType]).streamBase.adapter == adapter && as(result, *stream.stream[SendType, RecvType]).streamBase.recvChan == recvChan && as(result, *stream.stream[SendType, RecvType]).streamBase.acks == acks && as(result, *stream.stream[SendType, RecvType]).streamBase.Timeout == timeout
ensures[own-context] as(result, *stream.stream[SendType, RecvType]).streamBase.ctx == cx && val(as(result, *stream.stream[SendType, RecvType]).streamBase.cancel) == cf

# the state: once closed, closed with the first cause
unit T02.cause
property T02
func (*internal/stream.streamBase).setClosed
check index
check panics
requires cause != nil
ghost c0 bool
ghost e0 error
on lock internal/stream.streamBase.mu(self, w)
  assert[own-lock] self == s
  set c0 = self.closed
  set e0 = self.err
ensures[first] !c0 ==> result == nil && s.closed && s.err == cause
ensures[later] c0 ==> result == e0 && result != nil && s.closed && s.err == e0

unit T02.err
property T02
func (*internal/stream.streamBase).Err
check index
check panics
maybe on store internal/stream.streamBase.closed(self, v)
  assert[unchanged] false
maybe on store internal/stream.streamBase.err(self, v)
  assert[unchanged] false
ensures[cause] result == s.err

# a local close
unit T02.close
property T02
func (*internal/stream.streamBase).Close
check index
check panics
havoc @ids
flag split (psrpc.Error)...
ghost won bool
ghost c0 bool
ghost e0 error
ghost first bool = true
ghost cc error
ghost told int
ghost waited bool
ghost dereg int
ghost canceled int
ghost closes int
ghost sendErr error
ghost ec psrpc.ErrorCode
on lock internal/stream.streamBase.mu(self, w)
  assert[own-lock] self == s
  set c0 = ite(first, self.closed, c0)
  set e0 = ite(first, self.err, e0)
  set first = false
on store internal/stream.streamBase.closed(self, v)
  assert[once] v && !self.closed && held(self.mu)
  set won = true
on store internal/stream.streamBase.err(self, v)
  assert[first-cause] self == s && self.err == nil && held(self.mu) && v == ite(cause == nil, psrpc.ErrStreamClosed, cause)
  set cc = v
on call (internal/stream.StreamAdapter).Send(a, cx, m)
  assert[tells-peer] won && told == 0 && a == s.adapter && m.StreamId == s.streamID && is(m.Body, *internal.Stream_Close)
  assert[of-cause] is(cc, *psrpc.psrpcError) ==> matched && ec == as(cc, *psrpc.psrpcError).code && as(m.Body, *internal.Stream_Close).Close.Error == as(cc, *psrpc.psrpcError).error.Error()
  assert[code] as(m.Body, *internal.Stream_Close).Close.Code == ite(matched, ec, psrpc.Unknown)
  assert[message] matched || as(m.Body, *internal.Stream_Close).Close.Error == cc.Error()
  set told = 1
ghost matched bool
on after errors.As(e, t) -> (ok)
  assert[of-cause] e == cc
  set matched = ok
on after (psrpc.Error).Code(r) -> (c)
  set ec = c
on after (internal/stream.StreamAdapter).Send(a, cx, m) -> (err)
  set sendErr = err
on call (*sync.WaitGroup).Wait(w)
  assert[told-first] won && told == 1
  set waited = true
on call (internal/stream.StreamAdapter).Close(a, id)
  assert[deregister-once] won && waited && dereg == 0 && a == s.adapter && id == s.streamID
  set dereg = 1
on call context.CancelFunc()
  assert[cancel-once] won && waited && canceled == 0 && callee == val(s.cancel)
  set canceled = 1
on close ...(ch)
  assert[close-once] won && waited && closes == 0 && ch == s.recvChan
  set closes = 1
ensures[first] !c0 ==> won && told == 1 && dereg == 1 && canceled == 1 && closes == 1 && result == sendErr
ensures[later] c0 ==> !won && told == 0 && dereg == 0 && canceled == 0 && closes == 0 && result == e0

# what the stream does with the peer's messages
unit T02.remote
property T02
func (*internal/stream.stream).HandleStream
check index
check panics
havoc internal/bus.DeserializePayload
flag nothreads *
ghost won bool
ghost c0 bool
ghost e0 error
ghost cc error
ghost dereg int
ghost canceled int
ghost closes int
ghost bad bool
ghost closer int
on lock internal/stream.streamBase.mu(self, w)
  assert[own-lock] self == s.streamBase
  set c0 = self.closed
  set e0 = self.err
on after internal/bus.DeserializePayload(b) -> (m, err)
  set bad = err != nil
on go ...()
  assert[closes-undecodable] bad && closer == 0
  set closer = 1
on store internal/stream.streamBase.closed(self, v)
  assert[once] v && !self.closed && held(self.mu) && is(is.Body, *internal.Stream_Close)
  set won = true
on store internal/stream.streamBase.err(self, v)
  assert[first-cause] self == s.streamBase && self.err == nil && held(self.mu)
  assert[peers-cause] is(v, *psrpc.psrpcError) && as(v, *psrpc.psrpcError).code == ite(as(is.Body, *internal.Stream_Close).Close.Code == "", psrpc.Unknown, as(is.Body, *internal.Stream_Close).Close.Code) && as(v, *psrpc.psrpcError).error.Error() == as(is.Body, *internal.Stream_Close).Close.Error
  set cc = v
on call (internal/stream.StreamAdapter).Close(a, id)
  assert[deregister-once] won && dereg == 0 && a == s.adapter && id == s.streamID
  set dereg = 1
on call context.CancelFunc() when callee == val(s.cancel)
  assert[cancel-once] won && canceled == 0
  set canceled = 1
on close ...(ch) when is(is.Body, *internal.Stream_Close)
  assert[close-once] won && closes == 0 && ch == s.recvChan
  set closes = 1
ensures[remote] is(is.Body, *internal.Stream_Close) && !c0 ==> result == nil && won && dereg == 1 && canceled == 1 && closes == 1
ensures[later] is(is.Body, *internal.Stream_Close) && c0 ==> result == e0 && !won && dereg == 0 && canceled == 0 && closes == 0
ensures[undecodable] bad ==> closer == 1
ensures[open] !is(is.Body, *internal.Stream_Close) ==> !won && dereg == 0 && canceled == 0 && closes == 0

# an undecodable message closes the stream with that error
unit T02.undecodable
property T02
func (*internal/stream.stream).HandleStream
check index
check panics
havoc internal/bus.DeserializePayload
ghost bad bool
ghost n int
on after internal/bus.DeserializePayload(b) -> (m, err)
  set bad = err != nil
on enter thread()
  set n = 0
on call (psrpc.StreamHandler).Close(h, e)
  assert[with-cause] bad && n == 0 && h == s.handler && is(e, *psrpc.psrpcError) && as(e, *psrpc.psrpcError).code == psrpc.MalformedRequest
  set n = 1
on exit thread()
  assert[closed] n == 1

# the other operations leave the state alone
unit T02.send
property T02
func (*internal/stream.streamBase).Send
check index
check panics
havoc internal/bus.SerializePayload @ids internal/stream.getStreamOpts
maybe on store internal/stream.streamBase.closed(self, v)
  assert[unchanged] v && self.closed
maybe on store internal/stream.streamBase.err(self, v)
  assert[unchanged] v == self.err
maybe on close ...(ch)
  assert[kept-open] ch != s.recvChan
ensures[done] true

unit T02.recv
property T02
func (*internal/stream.streamBase).Recv
check index
maybe on store internal/stream.streamBase.closed(self, v)
  assert[unchanged] v && self.closed
maybe on store internal/stream.streamBase.err(self, v)
  assert[unchanged] v == self.err
maybe on close ...(ch)
  assert[kept-open] ch != s.recvChan
ensures[done] true

# closing goes through the interceptors, once
unit T02.closecall
property T02
func (*internal/stream.stream).Close
check index
check panics
ghost n int
ghost e error
on call (psrpc.StreamHandler).Close(h, c)
  assert[once] n == 0 && h == s.handler && c == cause
  set n = 1
on after (psrpc.StreamHandler).Close(h, c) -> (err)
  set e = err
ensures[result] n == 1 && result == e
