# L02: a closed client refuses new work and releases its subscriptions

# the entry points of a closed client
unit L02.unary
property L02
func pkg/client.RequestSingle
check index
check panics
havoc @client pkg/client.selectServer
pure @names
requires broken(c.closed)
maybe on call (internal/bus.MessageBus).Publish(b, pc, ch, msg)
  assert[nothing-published] false
ensures[refused] err == psrpc.ErrClientClosed

unit L02.multi
property L02
func pkg/client.RequestMulti
check index
check panics
havoc @client
pure @names
requires broken(c.closed)
maybe on call (internal/bus.MessageBus).Publish(b, pc, ch, msg)
  assert[nothing-published] false
maybe on enter thread()
  assert[nothing-started] false
ensures[refused] err == psrpc.ErrClientClosed && rChan == nil

unit L02.open
property L02
func pkg/client.OpenStream
check index
check panics
havoc @client pkg/client.selectServer internal/stream.NewStream
pure @names
requires broken(c.closed)
maybe on call (internal/bus.MessageBus).Publish(b, pc, ch, msg)
  assert[nothing-published] false
maybe on enter thread()
  assert[nothing-started] false
ensures[refused] result1 == psrpc.ErrClientClosed && result0 == nil

unit L02.join
property L02
func pkg/client.Join
check index
check panics
havoc @client
pure @names
requires broken(c.closed)
maybe on call (internal/bus.MessageBus).Subscribe(b, x, ch, n)
  assert[no-subscription] false
ensures[refused] result1 == psrpc.ErrClientClosed && result0 == nil

unit L02.joinqueue
property L02
func pkg/client.JoinQueue
check index
check panics
havoc @client
pure @names
requires broken(c.closed)
maybe on call (internal/bus.MessageBus).SubscribeQueue(b, x, ch, n)
  assert[no-subscription] false
ensures[refused] result1 == psrpc.ErrClientClosed && result0 == nil

unit L02.close
property L02
func (*pkg/client.RPCClient).Close
check index
check panics
ensures[closed] broken(c.closed)

# a client that cannot be created leaves no subscription behind
unit L02.new
property L02
func pkg/client.NewRPCClient
check index
check panics
havoc internal/bus.Subscribe
pure @names
flag nothreads *
ghost opened int
ghost shut int
ghost sub gmap[int]int
on after internal/bus.Subscribe(x, b, ch, n) -> (s, err) when err == nil
  assume s != nil && val(s) > 0 && sub[val(s)] == 0
  set sub = upd(sub, val(s), 1)
  set opened = opened + 1
on call (internal/bus.Subscription...).Close(s)
  assert[once] sub[val(s)] == 1
  set sub = upd(sub, val(s), 2)
  set shut = shut + 1
ensures[nothing-left] result1 != nil ==> result0 == nil && shut == opened
ensures[kept] result1 == nil ==> shut == 0 && opened >= 2

# the dispatcher ends when the client is closed or one of its subscriptions is lost, and
# closes each subscription once
unit L02.dispatch
property L02
func pkg/client.NewRPCClient
check index
check panics
havoc internal/bus.Subscribe
pure @names
ghost opened int
ghost shut int
ghost sub gmap[int]int
ghost dispatching bool
ghost lost bool
ghost over bool
ghost fuse *core.Fuse
ghost gone bool
ghost cl <-chan struct{}
loop shut == 0
loop !over
loop !lost || gone
on after internal/bus.Subscribe(x, b, ch, n) -> (s, err) when err == nil
  assume s != nil && val(s) > 0 && sub[val(s)] == 0
  set sub = upd(sub, val(s), 1)
  set opened = opened + 1
on enter thread()
  set dispatching = true
  set lost = false
  set over = false
  set gone = false
  set shut = 0
on after (*github.com/frostbyte73/core.Fuse).Watch(f) -> (ch)
  set cl = ch
  set fuse = f
on call (*github.com/frostbyte73/core.Fuse).Break(f)
  assert[own] f == fuse
  set gone = true
on recv chan *internal.Response(ch, m, ok)
  assert[ends-when-lost] !lost || gone
  assert[ends-when-closed] recvalt(cl) && !over
  set lost = lost || m == nil
on recv chan *internal.ClaimRequest(ch, m, ok)
  assert[ends-when-lost] !lost || gone
  assert[ends-when-closed] recvalt(cl) && !over
  set lost = lost || m == nil
on recv chan *internal.Stream(ch, m, ok)
  assert[ends-when-lost] !lost || gone
  assert[ends-when-closed] recvalt(cl) && !over
  set lost = lost || m == nil
# the way out of a call's entry is the call's own (R04), not the client's
on mapget map[string]pkg/client.pendingCall[*internal.Response](m, k, v, ok)
  assume v.done != cl
on mapget map[string]pkg/client.pendingCall[*internal.ClaimRequest](m, k, v, ok)
  assume v.done != cl
on mapget map[string]pkg/client.streamChannels(m, k, v, ok)
  assume v.closed != cl
on recv chan struct{}(ch, v, ok) when dispatching && ch == cl
  set over = true
on call (internal/bus.Subscription...).Close(s) when dispatching && sub[val(iface(s))] != 0
  assert[only-when-closed] over
  assert[once] sub[val(iface(s))] == 1
  set sub = upd(sub, val(iface(s)), 2)
  set shut = shut + 1
on exit thread()
  assert[all-closed] over && shut == opened
