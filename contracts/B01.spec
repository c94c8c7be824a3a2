# B01: the local bus

guard internal/bus.localMessageBus.RWMutex: subs, queues
guard internal/bus.localSubList.RWMutex: subs, subCount, next
# the two tables are apart, and a list is in the one of its kind
invariant[kinds] internal/bus.localMessageBus.RWMutex(self): self.subs != nil && self.queues != nil && self.subs != self.queues && forall(k, string, has(self.subs, k) ==> self.subs[k] != nil && allocated(self.subs[k]) && !self.subs[k].queue) && forall(k, string, has(self.queues, k) ==> self.queues[k] != nil && allocated(self.queues[k]) && self.queues[k].queue)

# a published message goes to the two lists of its channel, once each, as it was serialized
unit B01.publish
property B01
func (*internal/bus.localMessageBus).Publish
check index
check panics
havoc internal/bus.serialize (*internal/bus.localSubList).dispatch
ghost b []byte
ghost serr error
ghost ns int
ghost nq int
ghost sl *bus.localSubList
ghost ql *bus.localSubList
ghost looked bool
on after internal/bus.serialize(m, c) -> (bb, err)
  assert[message] m == msg
  set b = bb
  set serr = err
on mapget map[string]*internal/bus.localSubList(m, k, v, ok)
  assert[channel] k == channel.Legacy
  assert[under-lock] held(l.RWMutex)
  assert[tables] m == l.subs || m == l.queues
  set sl = ite(m == l.subs, v, sl)
  set ql = ite(m == l.queues, v, ql)
on call (*internal/bus.localSubList).dispatch(x, bb)
  assert[payload] ref(bb) == ref(b) && len(bb) == len(b)
  assert[list] x == sl || x == ql
  assert[no-lock] !held(l.RWMutex)
  set ns = ite(x == sl, ns+1, ns)
  set nq = ite(x == ql, nq+1, nq)
ensures[refused] serr != nil ==> result == serr && ns == 0 && nq == 0
ensures[each-once] serr == nil ==> result == nil && ns == ite(sl == nil, 0, 1) && nq == ite(ql == nil, 0, 1)

unit B01.new
property B01
func internal/bus.NewLocalMessageBus
check index
check panics
ensures[tables] as(result, *bus.localMessageBus).subs != nil && as(result, *bus.localMessageBus).queues != nil && as(result, *bus.localMessageBus).subs != as(result, *bus.localMessageBus).queues
ensures[empty] forall(k, string, !has(as(result, *bus.localMessageBus).subs, k) && !has(as(result, *bus.localMessageBus).queues, k))

# subscribing: a slot in the list of the channel and kind, made there if there is none
unit B01.subscribe
property B01
func (*internal/bus.localMessageBus).Subscribe
check index
check panics
havoc (*internal/bus.localSubList).create
flag nocallbacks *
ghost lst *bus.localSubList
ghost old0 *bus.localSubList
ghost made int
ghost sub *bus.localSubscription
ghost n int
on mapget map[string]*internal/bus.localSubList(m, k, v, ok)
  assert[of-channel] k == channel.Legacy && held(l.RWMutex) && m == l.subs
  set old0 = v
on mapset map[string]*internal/bus.localSubList(m, k, v)
  assert[new-list] m == l.subs && k == channel.Legacy && held(l.RWMutex) && old0 == nil && made == 0
  assert[empty] len(v.subs) == 0 && v.subCount == 0 && !v.queue && v.next == 0 && v.onUnsubscribe != nil
  set made = 1
  set lst = v
on call (*internal/bus.localSubList).create(x, cx, sz)
  assert[in-list] n == 0 && held(l.RWMutex) && ite(old0 != nil, x == old0, made == 1 && x == lst) && cx == ctx && sz == size
  set n = 1
on after (*internal/bus.localSubList).create(x, cx, sz) -> (r)
  set sub = r
ensures[subscribed] n == 1 && iface(result0) == iface(sub) && result1 == nil

unit B01.subscribequeue
property B01
func (*internal/bus.localMessageBus).SubscribeQueue
check index
check panics
havoc (*internal/bus.localSubList).create
flag nocallbacks *
ghost lst *bus.localSubList
ghost old0 *bus.localSubList
ghost made int
ghost sub *bus.localSubscription
ghost n int
on mapget map[string]*internal/bus.localSubList(m, k, v, ok)
  assert[of-channel] k == channel.Legacy && held(l.RWMutex) && m == l.queues
  set old0 = v
on mapset map[string]*internal/bus.localSubList(m, k, v)
  assert[new-list] m == l.queues && k == channel.Legacy && held(l.RWMutex) && old0 == nil && made == 0
  assert[empty] len(v.subs) == 0 && v.subCount == 0 && v.queue && v.next == 0 && v.onUnsubscribe != nil
  set made = 1
  set lst = v
on call (*internal/bus.localSubList).create(x, cx, sz)
  assert[in-list] n == 0 && held(l.RWMutex) && ite(old0 != nil, x == old0, made == 1 && x == lst) && cx == ctx && sz == size
  set n = 1
on after (*internal/bus.localSubList).create(x, cx, sz) -> (r)
  set sub = r
ensures[subscribed] n == 1 && iface(result0) == iface(sub) && result1 == nil

# a new subscription gets a free slot of its own, which is the one its closing will free
unit B01.create
property B01
func (*internal/bus.localSubList).create
check index
check panics
flag nocallbacks *
flag explore fn
ghost fn func()
ghost sub *bus.localSubscription
ghost locked int
ghost e0 gmap[int]*bus.localSubscription
ghost o0 int
ghost n0 int
ghost c0 int
ghost closing bool
ghost freed int
ghost cx context.Context
ghost cf int
loop forall(j, 0, _i+1, l.subs[j] != nil)
loop forall(j, 0, _i, l.subs[j] != nil)
on lock internal/bus.localSubList.RWMutex(self, w)
  assert[own-list] self == l && w && locked == 0
  assume l.subCount >= 0
  set locked = 1
  set e0 = elems(l.subs)
  set o0 = off(l.subs)
  set n0 = len(l.subs)
  set c0 = l.subCount
on unlock internal/bus.localSubList.RWMutex(self, w) when !closing
  assert[counted] l.subCount == c0 + 1
  assert[placed] len(l.subs) >= n0 && exists(i, 0, len(l.subs), l.subs[i] == sub && (i < n0 ==> e0[o0+i] == nil) && forall(j, 0, len(l.subs), j != i ==> j < n0 && l.subs[j] == e0[o0+j]))
on after context.WithCancel(p) -> (c, f)
  assert[context] p == ctx
  set cx = c
  set cf = val(f)
on makechan chan []byte(ch, n)
  assert[capacity] n == size
on store internal/bus.localSubscription.onClose(self, v)
  set fn = v
  set sub = self
on enter fn()
  set closing = true
on call func(i) when closing
  assert[own-slot] callee == val(l.onUnsubscribe) && freed == 0 && 0 <= i && i < len(l.subs) && l.subs[i] == sub
  set freed = 1
on exit fn()
  assert[freed] freed == 1
ensures[own-parts] result == sub && locked == 1 && result.ctx == cx && val(result.cancel) == cf && cap(result.msgChan) == size && result.onClose != nil

# closing: only the own slot is freed, under both locks, and an emptied list leaves its table;
# nothing is handed to the subscription afterwards
unit B01.close
property B01
func (*internal/bus.localMessageBus).Subscribe
check index
check panics
flag nocallbacks *
flag explore result0
ghost sub *bus.localSubscription
ghost lst *bus.localSubList
ghost slot int = any
ghost closing bool
ghost e0 gmap[int]*bus.localSubscription
ghost o0 int
ghost n0 int
ghost c0 int
ghost freed int
ghost dels int
ghost canceled int
ghost shut int
ghost made bool
ghost told int
on store internal/bus.localSubscription.msgChan(self, v)
  set sub = self
on mapset map[string]*internal/bus.localSubList(m, k, v)
  set made = true
on lock internal/bus.localSubList.RWMutex(self, w) when !closing
  assume forall(j, 0, len(self.subs), self.subs[j] != sub)
on unlock internal/bus.localSubList.RWMutex(self, w) when !closing
  set lst = self
  assume 0 <= slot && slot < len(self.subs) && self.subs[slot] == sub
on enter result0.Close()
  set closing = true
on lock internal/bus.localMessageBus.RWMutex(self, w) when closing
  assert[own-bus] self == l && w
  assume has(l.subs, channel.Legacy) && l.subs[channel.Legacy] == lst
on lock internal/bus.localSubList.RWMutex(self, w) when closing
  assert[own-list] self == lst && w && held(l.RWMutex) && freed == 0
  assume 0 <= slot && slot < len(lst.subs) && lst.subs[slot] == sub && lst.subCount > 0
  set e0 = elems(lst.subs)
  set o0 = off(lst.subs)
  set n0 = len(lst.subs)
  set c0 = lst.subCount
  set freed = 1
on call func(i) when closing && callee == val(lst.onUnsubscribe)
  set told = told + 1
on mapdel map[string]*internal/bus.localSubList(m, k) when closing
  assert[own-channel] m == l.subs && k == channel.Legacy && held(l.RWMutex) && held(lst.RWMutex) && dels == 0
  set dels = 1
on unlock internal/bus.localSubList.RWMutex(self, w) when closing
  assert[counted] lst.subCount == c0 - 1
  assert[own-slot] len(lst.subs) == n0 && lst.subs[slot] == nil && forall(j, 0, n0, j != slot ==> lst.subs[j] == e0[o0+j])
on unlock internal/bus.localMessageBus.RWMutex(self, w) when closing
  assert[gone-when-empty] freed == 1 && ite(c0 == 1, !has(l.subs, channel.Legacy), l.subs[channel.Legacy] == lst)
on call context.CancelFunc() when closing
  assert[own-context] callee == val(sub.cancel)
  set canceled = canceled + 1
on prelock internal/bus.localSubList.RWMutex(self) when closing
  assert[unblocked-first] canceled > 0
on close chan []byte(ch)
  assert[closed-last] closing && ch == sub.msgChan && shut == 0 && ite(made, freed == 1, told == 1) && nolocks()
  set shut = 1
on exit result0.Close()
  assert[closed] ite(made, freed == 1, told == 1) && shut == 1 && canceled > 0

# a broadcast list: every live slot once
unit B01.broadcast
property B01
func (*internal/bus.localSubList).dispatch
check index
check panics
requires !l.queue
havoc (*internal/bus.localSubscription).write
ghost e0 gmap[int]*bus.localSubscription
ghost o0 int
ghost n0 int
ghost locked int
ghost got gmap[int]int
ghost pos gmap[int]int = any
loop forall(j, 0, n0, got[j] == ite(j < _i+1 && e0[o0+j] != nil, 1, 0))
loop forall(j, 0, n0, got[j] == ite(j < _i && e0[o0+j] != nil, 1, 0))
on lock internal/bus.localSubList.RWMutex(self, w)
  assert[own-list] self == l && locked == 0
  assume forall(j, 0, len(l.subs), l.subs[j] != nil ==> pos[val(l.subs[j])] == j)
  set locked = 1
  set e0 = elems(l.subs)
  set o0 = off(l.subs)
  set n0 = len(l.subs)
on call (*internal/bus.localSubscription).write(s, bb)
  assert[message] ref(bb) == ref(b) && len(bb) == len(b)
  assert[live] s != nil && held(l.RWMutex)
  assert[of-channel] 0 <= pos[val(s)] && pos[val(s)] < n0 && e0[o0+pos[val(s)]] == s
  assert[once] got[pos[val(s)]] == 0
  set got = upd(got, pos[val(s)], 1)
ensures[everyone] forall(j, 0, n0, e0[o0+j] != nil ==> got[j] == 1)

# a queue list: one live slot, the first from the turn on; the turn passes to the next slot
unit B01.queue
property B01
func (*internal/bus.localSubList).dispatch
check index
check panics
requires l.queue
havoc (*internal/bus.localSubscription).write
spec turn() = ite(t0 >= n0, 0, t0)
spec dist(j) = ite(j >= turn(), j - turn(), j - turn() + n0)
spec at() = ite(l.next == 0, n0 - 1, l.next - 1)
ghost e0 gmap[int]*bus.localSubscription
ghost o0 int
ghost n0 int
ghost t0 int
ghost locked int
ghost sent int
ghost to *bus.localSubscription
loop forall(j, 0, n0, dist(j) < _i ==> e0[o0+j] == nil)
loop forall(j, 0, n0, dist(j) < _i+1 ==> e0[o0+j] == nil)
loop l.next == ite(_i == 0, t0, ite(turn()+_i <= n0, turn()+_i, turn()+_i-n0))
loop l.next == ite(_i == 0, t0, ite(turn()+_i < n0, turn()+_i, turn()+_i-n0))
loop sent == 0
loop _i <= n0 + 1
loop forall(j, 0, n0, dist(j) < n0-_i ==> e0[o0+j] == nil)
loop l.next == ite(_i == n0, t0, ite(turn()+n0-_i <= n0, turn()+n0-_i, turn()-_i))
loop 0 <= _i && _i <= n0
on lock internal/bus.localSubList.RWMutex(self, w)
  assert[own-list] self == l && locked == 0 && w
  assume len(l.subs) > 0 && 0 <= l.next && l.next <= len(l.subs)
  set locked = 1
  set e0 = elems(l.subs)
  set o0 = off(l.subs)
  set n0 = len(l.subs)
  set t0 = l.next
on call (*internal/bus.localSubscription).write(s, bb)
  assert[message] ref(bb) == ref(b) && len(bb) == len(b)
  assert[live] s != nil && held(l.RWMutex)
  assert[once] sent == 0
  set sent = 1
  set to = s
ensures[someone] sent == 0 ==> forall(j, 0, n0, e0[o0+j] == nil)
ensures[in-turn] sent == 1 ==> to == e0[o0+at()] && forall(j, 0, n0, dist(j) < dist(at()) ==> e0[o0+j] == nil)
ensures[turn-range] 0 <= l.next && l.next <= n0

# one subscription: the message, or nothing once it is being closed
unit B01.write
property B01
func (*internal/bus.localSubscription).write
check index
check panics
ghost sent int
ghost gone bool
on send chan []byte(ch, m)
  assert[own-channel] ch == l.msgChan && ref(m) == ref(b) && len(m) == len(b) && sent == 0
  assert[not-dropped] !hasdefault()
  set sent = 1
on recv chan struct{}(ch, v, ok)
  assert[way-out] ch == l.ctx.Done()
  set gone = true
ensures[handed-over] sent == 1 || gone

unit B01.read
property B01
func (*internal/bus.localSubscription).read
check index
check panics
ghost got []byte
ghost ok0 bool
ghost n int
on recv chan []byte(ch, v, ok)
  assert[own-channel] ch == l.msgChan && n == 0
  set n = 1
  set got = v
  set ok0 = ok
ensures[message] n == 1 && ok0 ==> result1 && ref(result0) == ref(got) && len(result0) == len(got)
ensures[end] n == 1 && !ok0 ==> !result1
ensures[waits] n == 1
