# B05: the bus envelope and the typed subscription on top of a reader

# into the envelope: type and content of the message, and the local channel
unit B05.serialize
property B05
func internal/bus.serialize
check index
check panics
requires !is(msg, *internal.Msg)
ghost named bool
ghost fullname string
ghost n int
ghost bad bool
ghost err0 error
ghost value []byte
ghost out []byte
ghost desc any
ghost refl any
on after ...ProtoReflect(m) -> (x)
  assert[type-of-message] iface(m) == iface(msg)
  set refl = iface(x)
on after ...Descriptor(x) -> (d)
  assert[type-of-message] iface(x) == refl
  set desc = iface(d)
on after ...FullName(d) -> (x)
  assert[type-of-message] iface(d) == desc
  set fullname = x
  set named = true
maybe on after google.golang.org/protobuf/proto.MessageName(m) -> (x)
  assert[type-of-message] iface(m) == iface(msg)
  set fullname = x
  set named = true
on after google.golang.org/protobuf/proto.Marshal(m) -> (b, err) when !is(m, *internal.Msg)
  assert[content] iface(m) == iface(msg)
  set bad = err != nil
  set err0 = err
  set value = b
on call google.golang.org/protobuf/proto.Marshal(m) when is(m, *internal.Msg)
  assert[type] as(m, *internal.Msg).TypeUrl == concat("type.googleapis.com/", fullname) && named
  assert[content] !bad && str(as(m, *internal.Msg).Value) == str(value)
  assert[channel] as(m, *internal.Msg).Channel == channel
on after google.golang.org/protobuf/proto.Marshal(m) -> (b, err) when is(m, *internal.Msg)
  set n = n + 1
  set out = b
  set err0 = err
ensures[envelope] ite(n == 0, bad && result1 == err0, n == 1 && result1 == err0 && str(result0) == str(out))

# the fields the envelope travels in are those of the two messages it is read as
unit B05.wire
property B05
func internal/bus.serialize
check index
check panics
ensures[type] wire(internal.Msg{}, "TypeUrl") == wire(anypb.Any{}, "TypeUrl")
ensures[value] wire(internal.Msg{}, "Value") == wire(anypb.Any{}, "Value")
ensures[channel] wire(internal.Msg{}, "Channel") == wire(internal.Channel{}, "Channel")
ensures[apart] wire(internal.Msg{}, "Channel") != wire(internal.Msg{}, "Value") && wire(internal.Msg{}, "Channel") != wire(internal.Msg{}, "TypeUrl")

# out of it: the local channel that was put in
unit B05.channel
property B05
func internal/bus.deserializeChannel
check index
check panics
ghost n int
ghost bad bool
ghost err0 error
ghost got string
on call (google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal(o, bb, m)
  assert[envelope] ref(bb) == ref(b) && len(bb) == len(b) && is(m, *internal.Channel)
on after (google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal(o, bb, m) -> (err)
  set n = n + 1
  set bad = err != nil
  set err0 = err
  set got = as(m, *internal.Channel).Channel
ensures[channel] n == 1 && ite(bad, result1 == err0, result1 == nil && result0 == got)

# ... and the message: the one the type and content name
unit B05.deserialize
property B05
func internal/bus.deserialize
check index
check panics
ghost n int
ghost k int
ghost bad bool
ghost err0 error
ghost anyv any
ghost m0 any
on call (google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal(o, bb, m)
  assert[envelope] ref(bb) == ref(b) && len(bb) == len(b) && is(m, *anypb.Any)
  assert[registry] o.Resolver == nil
on after (google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal(o, bb, m) -> (err)
  set n = n + 1
  set bad = err != nil
  set err0 = err
  set anyv = iface(m)
on call (*google.golang.org/protobuf/types/known/anypb.Any).UnmarshalNew(a)
  assert[decoded-first] n == 1 && !bad && val(a) == val(anyv)
on after (*google.golang.org/protobuf/types/known/anypb.Any).UnmarshalNew(a) -> (m, err)
  set k = k + 1
  set err0 = err
  set m0 = iface(m)
ensures[message] n == 1 && ite(bad, result1 == err0 && result1 != nil, k == 1 && result1 == err0 && iface(result0) == m0)

# what a message without the envelope goes through
unit B05.payload
property B05
func internal/bus.SerializePayload
check index
check panics
ghost n int
ghost out []byte
ghost err0 error
on call google.golang.org/protobuf/proto.Marshal(x)
  assert[message] iface(x) == iface(m)
on after google.golang.org/protobuf/proto.Marshal(x) -> (b, err)
  set n = n + 1
  set out = b
  set err0 = err
ensures[encoded] n == 1 && result1 == err0 && str(result0) == str(out)

unit B05.payloadback
property B05
func internal/bus.DeserializePayload
check index
ghost n int
ghost err0 error
ghost into any
on call google.golang.org/protobuf/proto.Unmarshal(bb, x)
  assert[message] ref(bb) == ref(buf) && len(bb) == len(buf)
  set into = iface(x)
on after google.golang.org/protobuf/proto.Unmarshal(bb, x) -> (err)
  set n = n + 1
  set err0 = err
ensures[decoded] n == 1 && result1 == err0 && iface(result0) == into

# a subscription: every message that decodes to its type, once, in order; the end of the
# reader ends it
unit B05.subscription
property B05
func internal/bus.newSubscription
check index
check panics
havoc internal/bus.deserialize
flag nocallbacks *
ghost started int
ghost inner bool
ghost c0 int
ghost pend bool
ghost data []byte
ghost ended bool
ghost ready bool
ghost want any
ghost shut int
on makechan ...(ch, n)
  assert[capacity] n == size
  set c0 = ch
on go ...()
  set started = started + 1
  assert[one-reader] started == 1
on call (internal/bus.Reader).read(r)
  assert[own-reader] iface(r) == iface(sub) && !ended
  assert[none-lost] !ready
on after (internal/bus.Reader).read(r) -> (b, ok)
  set ended = !ok
  set data = b
  set pend = ok
on call internal/bus.deserialize(b)
  assert[of-message] pend && ref(b) == ref(data) && len(b) == len(data)
  set pend = false
on after internal/bus.deserialize(b) -> (m, err)
  set ready = err == nil && is(m, MessageType)
  set want = iface(m)
on send ...(ch, m)
  assert[delivered] ch == c0 && ready && iface(m) == want
  assert[not-dropped] !hasdefault()
  set ready = false
on close ...(ch)
  assert[closed-at-end] ch == c0 && ended && shut == 0
  set shut = 1
on exit thread()
  assert[ended] ended && shut == 1
loop !ready
loop !ended
loop shut == 0
ensures[own-reader] is(result, *bus.subscription[MessageType]) && iface(as(result, *bus.subscription[MessageType]).Reader) == iface(sub) && as(result, *bus.subscription[MessageType]).c == c0 && started == 1

# subscribing puts such a subscription on top of the bus's own
unit B05.subscribe
property B05
func internal/bus.Subscribe
check index
check panics
havoc internal/bus.newSubscription
ghost rd any
ghost n int
ghost k int
ghost bad bool
ghost err0 error
ghost sub any
on call (internal/bus.MessageBus).Subscribe(b, cx, ch, sz)
  assert[same-channel] iface(b) == iface(bus) && cx == ctx && ch.Legacy == channel.Legacy && ch.Server == channel.Server && ch.Local == channel.Local && sz == channelSize && n == 0
on after (internal/bus.MessageBus).Subscribe(b, cx, ch, sz) -> (r, err)
  set n = 1
  set rd = iface(r)
  set bad = err != nil
  set err0 = err
on call internal/bus.newSubscription(r, sz)
  assert[own-reader] n == 1 && !bad && iface(r) == rd && sz == channelSize && k == 0
  set k = 1
on after internal/bus.newSubscription(r, sz) -> (s)
  set sub = iface(s)
ensures[subscribed] n == 1 && ite(bad, k == 0 && result1 == err0, k == 1 && iface(result0) == sub && result1 == nil)

unit B05.subscribequeue
property B05
func internal/bus.SubscribeQueue
check index
check panics
havoc internal/bus.newSubscription
ghost rd any
ghost n int
ghost k int
ghost bad bool
ghost err0 error
ghost sub any
on call (internal/bus.MessageBus).SubscribeQueue(b, cx, ch, sz)
  assert[same-channel] iface(b) == iface(bus) && cx == ctx && ch.Legacy == channel.Legacy && ch.Server == channel.Server && ch.Local == channel.Local && sz == channelSize && n == 0
on after (internal/bus.MessageBus).SubscribeQueue(b, cx, ch, sz) -> (r, err)
  set n = 1
  set rd = iface(r)
  set bad = err != nil
  set err0 = err
on call internal/bus.newSubscription(r, sz)
  assert[own-reader] n == 1 && !bad && iface(r) == rd && sz == channelSize && k == 0
  set k = 1
on after internal/bus.newSubscription(r, sz) -> (s)
  set sub = iface(s)
ensures[subscribed] n == 1 && ite(bad, k == 0 && result1 == err0, k == 1 && iface(result0) == sub && result1 == nil)
