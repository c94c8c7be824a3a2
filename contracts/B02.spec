# B02: the Redis bus, subscriptions

guard internal/bus.redisMessageBus.mu: subs, queues, dirtyChannels, currentChannels, [internal/bus.redisSubList.subs], [internal/bus.redisSubList.next]
# the tables are apart; a listed channel has a list of its own, with a subscription in it
invariant[tables] internal/bus.redisMessageBus.mu(self): self.subs != nil && self.queues != nil && self.subs != self.queues && self.dirtyChannels != nil && self.currentChannels != nil && self.dirtyChannels != self.currentChannels
invariant[lists] internal/bus.redisMessageBus.mu(self): forall(k, string, has(self.subs, k) ==> self.subs[k] != nil && allocated(self.subs[k]) && len(self.subs[k].subs) > 0 && self.subs[k].next >= 0)
invariant[queue-lists] internal/bus.redisMessageBus.mu(self): forall(k, string, has(self.queues, k) ==> self.queues[k] != nil && allocated(self.queues[k]) && len(self.queues[k].subs) > 0 && self.queues[k].next >= 0)
spec wantedNow(r, k) = has(r.subs, k) || has(r.queues, k)

# what every critical section but the reconciler's does: a channel whose being wanted changes is
# marked, no mark is taken away, and what is subscribed at the server stays the reconciler's affair;
# marking is followed by an operation for the writer and a wake-up
unit B02.subscribe
property B02
func (*internal/bus.redisMessageBus).Subscribe
check index
check panics
flag nocallbacks *
havoc (*internal/bus.redisWriteOpQueue).push
ghost subs0 gmap[string]*bus.redisSubList
ghost has0 gmap[string]bool
ghost q0 gmap[string]bool
ghost dirty0 gmap[string]bool
ghost cur0 gmap[string]bool
ghost e0 gmap[int]*bus.redisSubscription
ghost o0 int
ghost n0 int
ghost locked int
ghost pushed int
ghost woken bool
ghost cx context.Context
ghost cf int
ghost sub *bus.redisSubscription
on after context.WithCancel(p) -> (c, f)
  assert[context] p == ctx
  set cx = c
  set cf = val(f)
on makechan chan *github.com/redis/go-redis/v9.Message(ch, n)
  assert[capacity] n == size
on store internal/bus.redisSubscription.msgChan(self, v)
  set sub = self
on lock internal/bus.redisMessageBus.mu(self, w)
  assert[own-bus] self == r && locked == 0
  set locked = 1
  set subs0 = valof(r.subs)
  set has0 = domof(r.subs)
  set q0 = domof(r.queues)
  set dirty0 = domof(r.dirtyChannels)
  set cur0 = domof(r.currentChannels)
  set n0 = ite(has(r.subs, channel.Legacy), len(r.subs[channel.Legacy].subs), 0)
  set e0 = elems(r.subs[channel.Legacy].subs)
  set o0 = off(r.subs[channel.Legacy].subs)
on call (*internal/bus.redisWriteOpQueue).push(q, op)
  assert[operation] q == r.ops && is(op, *bus.redisReconcileSubscriptionsOp) && as(op, *bus.redisReconcileSubscriptionsOp).redisMessageBus == r
  set pushed = pushed + ite(locked == 1, 1, 0)
on send chan struct{}(ch, v) when ch == r.wakeup
  set woken = woken || pushed > 0
on default select() when offered(r.wakeup)
  set woken = woken || pushed > 0
on unlock internal/bus.redisMessageBus.mu(self, w)
  assert[added] has(r.subs, channel.Legacy) && len(r.subs[channel.Legacy].subs) == n0 + 1 && r.subs[channel.Legacy].subs[n0] == sub && forall(j, 0, n0, r.subs[channel.Legacy].subs[j] == e0[o0+j])
  assert[same-list] has0[channel.Legacy] ==> r.subs[channel.Legacy] == subs0[channel.Legacy]
  assert[other-channels] forall(k, string, k != channel.Legacy ==> has(r.subs, k) == has0[k] && (has0[k] ==> r.subs[k] == subs0[k]))
  assert[queues-untouched] forall(k, string, has(r.queues, k) == q0[k])
  assert[marked] forall(k, string, (has0[k] || q0[k]) != wantedNow(r, k) ==> has(r.dirtyChannels, k))
  assert[marks-kept] forall(k, string, dirty0[k] ==> has(r.dirtyChannels, k))
  assert[current-untouched] forall(k, string, has(r.currentChannels, k) == cur0[k])
ensures[woken] !has0[channel.Legacy] && !q0[channel.Legacy] ==> woken
ensures[subscription] locked == 1 && result1 == nil && iface(result0) == iface(sub) && sub.bus == r && sub.channel == channel.Legacy && !sub.queue && sub.ctx == cx && val(sub.cancel) == cf && cap(sub.msgChan) == size

unit B02.subscribequeue
property B02
func (*internal/bus.redisMessageBus).SubscribeQueue
check index
check panics
flag nocallbacks *
havoc (*internal/bus.redisWriteOpQueue).push
ghost subs0 gmap[string]*bus.redisSubList
ghost has0 gmap[string]bool
ghost q0 gmap[string]bool
ghost dirty0 gmap[string]bool
ghost cur0 gmap[string]bool
ghost e0 gmap[int]*bus.redisSubscription
ghost o0 int
ghost n0 int
ghost locked int
ghost pushed int
ghost woken bool
ghost cx context.Context
ghost cf int
ghost sub *bus.redisSubscription
on after context.WithCancel(p) -> (c, f)
  assert[context] p == ctx
  set cx = c
  set cf = val(f)
on makechan chan *github.com/redis/go-redis/v9.Message(ch, n)
  assert[capacity] n == size
on store internal/bus.redisSubscription.msgChan(self, v)
  set sub = self
on lock internal/bus.redisMessageBus.mu(self, w)
  assert[own-bus] self == r && locked == 0
  set locked = 1
  set subs0 = valof(r.queues)
  set has0 = domof(r.queues)
  set q0 = domof(r.subs)
  set dirty0 = domof(r.dirtyChannels)
  set cur0 = domof(r.currentChannels)
  set n0 = ite(has(r.queues, channel.Legacy), len(r.queues[channel.Legacy].subs), 0)
  set e0 = elems(r.queues[channel.Legacy].subs)
  set o0 = off(r.queues[channel.Legacy].subs)
on call (*internal/bus.redisWriteOpQueue).push(q, op)
  assert[operation] q == r.ops && is(op, *bus.redisReconcileSubscriptionsOp) && as(op, *bus.redisReconcileSubscriptionsOp).redisMessageBus == r
  set pushed = pushed + ite(locked == 1, 1, 0)
on send chan struct{}(ch, v) when ch == r.wakeup
  set woken = woken || pushed > 0
on default select() when offered(r.wakeup)
  set woken = woken || pushed > 0
on unlock internal/bus.redisMessageBus.mu(self, w)
  assert[added] has(r.queues, channel.Legacy) && len(r.queues[channel.Legacy].subs) == n0 + 1 && r.queues[channel.Legacy].subs[n0] == sub && forall(j, 0, n0, r.queues[channel.Legacy].subs[j] == e0[o0+j])
  assert[same-list] has0[channel.Legacy] ==> r.queues[channel.Legacy] == subs0[channel.Legacy]
  assert[other-channels] forall(k, string, k != channel.Legacy ==> has(r.queues, k) == has0[k] && (has0[k] ==> r.queues[k] == subs0[k]))
  assert[subs-untouched] forall(k, string, has(r.subs, k) == q0[k])
  assert[marked] forall(k, string, (has0[k] || q0[k]) != wantedNow(r, k) ==> has(r.dirtyChannels, k))
  assert[marks-kept] forall(k, string, dirty0[k] ==> has(r.dirtyChannels, k))
  assert[current-untouched] forall(k, string, has(r.currentChannels, k) == cur0[k])
ensures[woken] !has0[channel.Legacy] && !q0[channel.Legacy] ==> woken
ensures[subscription] locked == 1 && result1 == nil && iface(result0) == iface(sub) && sub.bus == r && sub.channel == channel.Legacy && sub.queue && sub.ctx == cx && val(sub.cancel) == cf && cap(sub.msgChan) == size

# closing: only this subscription leaves; nothing is handed over once the channel is closed
unit B02.close
property B02
func (*internal/bus.redisSubscription).Close
check index
check panics
flag nocallbacks *
havoc (*internal/bus.redisWriteOpQueue).push
spec table(b) = ite(r.queue, b.queues, b.subs)
ghost l0 gmap[string]*bus.redisSubList
ghost m0 gmap[string]*bus.redisSubList
ghost has0 gmap[string]bool
ghost q0 gmap[string]bool
ghost dirty0 gmap[string]bool
ghost cur0 gmap[string]bool
ghost e0 gmap[int]*bus.redisSubscription
ghost o0 int
ghost n0 int
ghost at int = any
ghost here bool
ghost locked int
ghost pushed int
ghost woken bool
ghost canceled int
ghost shut int
loop here ==> _i < at
loop here ==> _i <= at
loop here ==> at < _i
loop here ==> at <= _i
on call context.CancelFunc()
  assert[own-context] callee == val(r.cancel)
  set canceled = canceled + 1
on prelock internal/bus.redisMessageBus.mu(self)
  assert[unblocked-first] canceled > 0
on lock internal/bus.redisMessageBus.mu(self, w)
  assert[own-bus] self == r.bus && locked == 0
  assume has(r.bus.subs, r.channel) ==> r.bus.subs[r.channel] != r.bus.queues[r.channel]
  assume forall(k, string, k != r.channel ==> !(has(r.bus.subs, k) && r.bus.subs[k] == table(r.bus)[r.channel]) && !(has(r.bus.queues, k) && r.bus.queues[k] == table(r.bus)[r.channel]))
  set locked = 1
  set l0 = valof(table(r.bus))
  set m0 = valof(ite(r.queue, r.bus.subs, r.bus.queues))
  set has0 = domof(table(r.bus))
  set q0 = domof(ite(r.queue, r.bus.subs, r.bus.queues))
  set dirty0 = domof(r.bus.dirtyChannels)
  set cur0 = domof(r.bus.currentChannels)
  set n0 = ite(has(table(r.bus), r.channel), len(table(r.bus)[r.channel].subs), 0)
  set e0 = elems(table(r.bus)[r.channel].subs)
  set o0 = off(table(r.bus)[r.channel].subs)
  assume exists(j, 0, n0, e0[o0+j] == r) ==> 0 <= at && at < n0 && e0[o0+at] == r && forall(j, 0, n0, j != at ==> e0[o0+j] != r)
  set here = 0 <= at && at < n0 && e0[o0+at] == r
on call (*internal/bus.redisWriteOpQueue).push(q, op)
  assert[operation] q == r.bus.ops && is(op, *bus.redisReconcileSubscriptionsOp) && as(op, *bus.redisReconcileSubscriptionsOp).redisMessageBus == r.bus
  set pushed = pushed + ite(locked == 1, 1, 0)
on send chan struct{}(ch, v) when ch == r.bus.wakeup
  set woken = woken || pushed > 0
on default select() when offered(r.bus.wakeup)
  set woken = woken || pushed > 0
on unlock internal/bus.redisMessageBus.mu(self, w)
  assert[others-kept] here ==> has(table(r.bus), r.channel) == (n0 > 1) && (n0 > 1 ==> table(r.bus)[r.channel] == l0[r.channel] && len(l0[r.channel].subs) == n0 - 1 && forall(j, 0, n0-1, l0[r.channel].subs[j] == e0[o0+ite(j < at, j, j+1)]))
  assert[not-there] !here ==> has(table(r.bus), r.channel) == has0[r.channel] && (has0[r.channel] ==> table(r.bus)[r.channel] == l0[r.channel] && len(l0[r.channel].subs) == n0 && forall(j, 0, n0, l0[r.channel].subs[j] == e0[o0+j]))
  assert[other-channels] forall(k, string, k != r.channel ==> has(table(r.bus), k) == has0[k] && (has0[k] ==> table(r.bus)[k] == l0[k]))
  assert[other-kind] forall(k, string, has(ite(r.queue, r.bus.subs, r.bus.queues), k) == q0[k] && (q0[k] ==> ite(r.queue, r.bus.subs, r.bus.queues)[k] == m0[k]))
  assert[marked] forall(k, string, (has0[k] || q0[k]) != wantedNow(r.bus, k) ==> has(r.bus.dirtyChannels, k))
  assert[marks-kept] forall(k, string, dirty0[k] ==> has(r.bus.dirtyChannels, k))
  assert[current-untouched] forall(k, string, has(r.bus.currentChannels, k) == cur0[k])
on close chan *github.com/redis/go-redis/v9.Message(ch)
  assert[closed-last] ch == r.msgChan && shut == 0 && locked == 1 && nolocks()
  set shut = 1
ensures[closed] result == nil && locked == 1 && canceled > 0 && shut == 1
ensures[woken] here && n0 == 1 && !q0[r.channel] ==> woken

# a received message: every plain subscription of its channel, and one of its queue
unit B02.read
property B02
func (*internal/bus.redisMessageBus).readWorker
check index
check panics
flag endless yes
havoc (*internal/bus.redisSubList).dispatch (*internal/bus.redisSubList).dispatchQueue
ghost m *redis.Message
ghost have bool
ghost sl *bus.redisSubList
ghost ql *bus.redisSubList
ghost sn int
ghost qn int
ghost locked int
loop !have
on call (*github.com/redis/go-redis/v9.PubSub).ReceiveMessage(p, c)
  assert[no-message-dropped] p == r.ps && !have
on after (*github.com/redis/go-redis/v9.PubSub).ReceiveMessage(p, c) -> (x, err)
  assume x != nil
  set m = x
  set have = err == nil
  set sn = 0
  set qn = 0
  set locked = 0
on lock internal/bus.redisMessageBus.mu(self, w)
  assert[own-bus] self == r && have && locked == 0
  set locked = 1
  set sl = ite(has(r.subs, m.Channel), r.subs[m.Channel], nil)
  set ql = ite(has(r.queues, m.Channel), r.queues[m.Channel], nil)
on call (*internal/bus.redisSubList).dispatch(x, y)
  assert[to-channel] x == sl && x != nil && y == m && sn == 0 && held(r.mu)
  set sn = 1
on call (*internal/bus.redisSubList).dispatchQueue(x, y)
  assert[to-queue] x == ql && x != nil && y == m && qn == 0 && held(r.mu)
  set qn = 1
on unlock internal/bus.redisMessageBus.mu(self, w)
  assert[delivered] sn == ite(sl == nil, 0, 1) && qn == ite(ql == nil, 0, 1)
  set have = false

unit B02.dispatch
property B02
func (*internal/bus.redisSubList).dispatch
check index
check panics
havoc (*internal/bus.redisSubscription).write
ghost got gmap[int]int
ghost pos gmap[int]int = any
requires forall(j, 0, len(r.subs), r.subs[j] != nil && pos[val(r.subs[j])] == j)
loop forall(j, 0, len(r.subs), got[j] == ite(j < _i+1, 1, 0))
loop forall(j, 0, len(r.subs), got[j] == ite(j < _i, 1, 0))
on call (*internal/bus.redisSubscription).write(s, x)
  assert[message] x == msg
  assert[of-channel] 0 <= pos[val(s)] && pos[val(s)] < len(r.subs) && r.subs[pos[val(s)]] == s
  assert[once] got[pos[val(s)]] == 0
  set got = upd(got, pos[val(s)], 1)
ensures[everyone] forall(j, 0, len(r.subs), got[j] == 1)
ensures[list-kept] ref(r.subs) == old(ref(r.subs)) && len(r.subs) == old(len(r.subs)) && r.next == old(r.next)

# in turn: the one after the last one served, from the start after the end
unit B02.queue
property B02
func (*internal/bus.redisSubList).dispatchQueue
check index
check panics
havoc (*internal/bus.redisSubscription).write
requires len(r.subs) > 0 && r.next >= 0 && forall(j, 0, len(r.subs), r.subs[j] != nil)
ghost n int
ghost to *bus.redisSubscription
on call (*internal/bus.redisSubscription).write(s, x)
  assert[message] x == msg && n == 0
  set n = 1
  set to = s
ensures[one] n == 1
ensures[in-turn] to == r.subs[ite(old(r.next) >= len(r.subs), 0, old(r.next))]
ensures[turn-passes] r.next >= 0 && ite(r.next >= len(r.subs), 0, r.next) == ite(ite(old(r.next) >= len(r.subs), 0, old(r.next)) + 1 == len(r.subs), 0, ite(old(r.next) >= len(r.subs), 0, old(r.next)) + 1)
ensures[list-kept] ref(r.subs) == old(ref(r.subs)) && len(r.subs) == old(len(r.subs))

# one subscription: the message, or nothing once it is being closed
unit B02.write
property B02
func (*internal/bus.redisSubscription).write
check index
check panics
ghost sent int
ghost gone bool
on send chan *github.com/redis/go-redis/v9.Message(ch, m)
  assert[own-channel] ch == r.msgChan && m == msg && sent == 0
  assert[not-dropped] !hasdefault()
  set sent = 1
on recv chan struct{}(ch, v, ok)
  assert[way-out] ch == r.ctx.Done()
  set gone = true
ensures[handed-over] sent == 1 || gone

# reading: messages as they come; on a queue only those this subscription got the claim of
unit B02.take
property B02
func (*internal/bus.redisSubscription).read
check index
check panics
ghost m *redis.Message
ghost have bool
ghost ended bool
ghost asked bool
ghost key string
ghost bad bool
ghost won bool
ghost reply *redis.BoolCmd
loop !have || (r.queue && asked && !won)
on recv chan *github.com/redis/go-redis/v9.Message(ch, v, ok)
  assert[own-channel] ch == r.msgChan && !ended
  assert[no-message-dropped] !have || (r.queue && asked && !won)
  assume ok ==> v != nil
  set m = v
  set have = ok
  set ended = !ok
  set asked = false
  set won = false
on recv chan struct{}(ch, v, ok)
  assert[way-out] ch == r.ctx.Done()
  set ended = true
on call (github.com/redis/go-redis/v9.UniversalClient).SetNX(c, cx, k, v, d)
  assert[claims] r.queue && have && !asked && c == r.bus.rc && d > 0
on after (github.com/redis/go-redis/v9.UniversalClient).SetNX(c, cx, k, v, d) -> (x)
  set reply = x
on after (*github.com/redis/go-redis/v9.BoolCmd).Result(x) -> (ok, err)
  assert[own-claim] x == reply
  set asked = true
  set won = ok && err == nil
ensures[message] result1 ==> have && str(result0) == m.Payload && (r.queue ==> asked && won)
ensures[end] !result1 ==> ended

# a reconciliation pass.  Between two of its critical sections others may change what is wanted, but
# then the channel is marked (see the [marked] clauses above), and only passes change what is
# recorded as subscribed (see [current-untouched]); one pass runs at a time (one write worker).
unit B02.reconcile
property B02
func (*internal/bus.redisReconcileSubscriptionsOp).run
check index
check panics
spec des0(k) = subs0[k] || q0[k]
ghost passes int
ghost cur0 gmap[string]bool
ghost subs0 gmap[string]bool
ghost q0 gmap[string]bool
ghost marks0 gmap[string]bool
ghost subd int
ghost subBad bool
ghost unsubd int
ghost unsubBad bool
loop held(r.redisMessageBus.mu)
loop forall(k, string, has(r.redisMessageBus.subs, k) ==> r.redisMessageBus.subs[k] != nil && allocated(r.redisMessageBus.subs[k]) && len(r.redisMessageBus.subs[k].subs) > 0 && r.redisMessageBus.subs[k].next >= 0)
loop forall(k, string, has(r.redisMessageBus.queues, k) ==> r.redisMessageBus.queues[k] != nil && allocated(r.redisMessageBus.queues[k]) && len(r.redisMessageBus.queues[k].subs) > 0 && r.redisMessageBus.queues[k].next >= 0)
loop r.redisMessageBus.subs == old(r.redisMessageBus.subs) && r.redisMessageBus.queues == old(r.redisMessageBus.queues) && r.redisMessageBus.dirtyChannels == old(r.redisMessageBus.dirtyChannels) && r.redisMessageBus.currentChannels == old(r.redisMessageBus.currentChannels)
loop forall(k, string, !has(r.redisMessageBus.dirtyChannels, k) ==> has(r.redisMessageBus.currentChannels, k) == wantedNow(r.redisMessageBus, k))
loop passes > 0 ==> forall(k, string, has(r.redisMessageBus.currentChannels, k) == ite(cur0[k] == des0(k), cur0[k], ite(des0(k), !subBad, unsubBad)))
loop forall(k, string, visited(r.redisMessageBus.dirtyChannels)[k] ==> has(_m, k) == (!has(r.redisMessageBus.currentChannels, k) && wantedNow(r.redisMessageBus, k)))
loop forall(k, string, visited(r.redisMessageBus.dirtyChannels)[k] ==> has(_m, k) == (has(r.redisMessageBus.currentChannels, k) && !wantedNow(r.redisMessageBus, k)))
loop forall(k, string, !visited(r.redisMessageBus.dirtyChannels)[k] ==> !has(_m, k))
loop forall(k, string, has(r.redisMessageBus.currentChannels, k) == (ite(cur0[k] == des0(k), cur0[k], ite(des0(k), !subBad, true)) && !visited(_m)[k]))
loop forall(k, string, visited(_m)[k] ==> has(_m, k))
on lock internal/bus.redisMessageBus.mu(self, w)
  assert[own-bus] self == r.redisMessageBus
  assume passes == 0 ==> forall(k, string, !has(self.dirtyChannels, k) ==> has(self.currentChannels, k) == wantedNow(self, k))
  assume passes > 0 ==> forall(k, string, has(self.currentChannels, k) == cur0[k]) && forall(k, string, !has(self.dirtyChannels, k) ==> !marks0[k] && wantedNow(self, k) == des0(k))
  assert[all-subscribed] passes > 0 ==> forall(k, string, !cur0[k] && des0(k) ==> subd == 1)
  assert[all-unsubscribed] passes > 0 ==> forall(k, string, cur0[k] && !des0(k) ==> unsubd == 1)
on unlock internal/bus.redisMessageBus.mu(self, w)
  assert[recorded] passes > 0 ==> forall(k, string, has(self.currentChannels, k) == ite(cur0[k] == des0(k), cur0[k], ite(des0(k), !subBad, unsubBad)))
  set passes = passes + 1
  set cur0 = domof(self.currentChannels)
  set subs0 = domof(self.subs)
  set q0 = domof(self.queues)
  set marks0 = domof(self.dirtyChannels)
  set subd = 0
  set unsubd = 0
  set subBad = false
  set unsubBad = false
on call (*github.com/redis/go-redis/v9.PubSub).Subscribe(p, c, chs)
  assert[once] p == r.redisMessageBus.ps && passes > 0 && subd == 0 && !held(r.redisMessageBus.mu)
  assert[only-wanted] forall(j, 0, len(chs), !cur0[chs[j]] && des0(chs[j]))
  assert[all-wanted] forall(k, string, !cur0[k] && des0(k) ==> exists(j, 0, len(chs), chs[j] == k))
  set subd = 1
on after (*github.com/redis/go-redis/v9.PubSub).Subscribe(p, c, chs) -> (err)
  set subBad = err != nil
on call (*github.com/redis/go-redis/v9.PubSub).Unsubscribe(p, c, chs)
  assert[once] p == r.redisMessageBus.ps && passes > 0 && unsubd == 0 && !held(r.redisMessageBus.mu)
  assert[only-unwanted] forall(j, 0, len(chs), cur0[chs[j]] && !des0(chs[j]))
  assert[all-unwanted] forall(k, string, cur0[k] && !des0(k) ==> exists(j, 0, len(chs), chs[j] == k))
  set unsubd = 1
on after (*github.com/redis/go-redis/v9.PubSub).Unsubscribe(p, c, chs) -> (err)
  set unsubBad = err != nil
ensures[converged] passes > 0 && forall(k, string, cur0[k] == des0(k)) && forall(k, string, !marks0[k])

# the write worker: what is queued is run, once each, before it waits again; a push is under the
# queue's lock, and so is seeing that nothing is left
unit B02.push
property B02
func (*internal/bus.redisWriteOpQueue).push
check index
check panics
ghost n int
on call (*deque.Deque).PushBack(d, x)
  assert[queued] iface(x) == iface(op) && held(q.mu) && n == 0 && d == addr(q.ops)
  set n = 1
ensures[queued] n == 1 && nolocks()

unit B02.drain
property B02
func (*internal/bus.redisWriteOpQueue).drain
check index
check panics
ghost left int
ghost known bool
ghost op bus.redisWriteOp
ghost popped bool
loop !popped
loop held(q.mu)
loop !known
on lock internal/bus.redisWriteOpQueue.mu(self, w)
  assert[own-queue] self == q
  set known = false
on after (*deque.Deque).Len(d) -> (n)
  assert[under-lock] held(q.mu)
  assume n >= 0
  set left = n
  set known = true
on call (*deque.Deque).PopFront(d)
  assert[not-empty] known && left > 0 && !popped && held(q.mu) && d == addr(q.ops)
on after (*deque.Deque).PopFront(d) -> (x)
  assume x != nil
  set op = x
  set popped = true
  set known = false
on call (internal/bus.redisWriteOp).run(x)
  assert[once] iface(x) == iface(op) && popped && !held(q.mu)
  set popped = false
ensures[emptied] known && left <= 0 && !popped && nolocks()

unit B02.writer
property B02
func (*internal/bus.redisMessageBus).writeWorker
check index
check panics
havoc (*internal/bus.redisWriteOpQueue).drain
ghost owed bool
loop !owed
on recv chan struct{}(ch, v, ok)
  assert[wakeup] ch == r.wakeup && !owed
  set owed = ok
on call (*internal/bus.redisWriteOpQueue).drain(q)
  assert[own-queue] q == r.ops
  set owed = false
ensures[all-run] !owed

# a new bus: empty tables, its own queue and wake-up channel, both workers
unit B02.new
property B02
func internal/bus.NewRedisMessageBus
check index
check panics
havoc internal/bus.newRedisPublishQueue
flag nothreads *
spec b() = as(result, *bus.redisMessageBus)
ghost readers int
ghost writers int
ghost ps *redis.PubSub
on after (github.com/redis/go-redis/v9.UniversalClient).Subscribe(c, cx, chs) -> (p)
  set ps = p
on go (*internal/bus.redisMessageBus).readWorker(x)
  set readers = readers + 1
on go (*internal/bus.redisMessageBus).writeWorker(x)
  set writers = writers + 1
ensures[tables] b().subs != nil && b().queues != nil && b().subs != b().queues && b().dirtyChannels != nil && b().currentChannels != nil && b().dirtyChannels != b().currentChannels
ensures[empty] forall(k, string, !has(b().subs, k) && !has(b().queues, k) && !has(b().dirtyChannels, k) && !has(b().currentChannels, k))
ensures[wakeup] b().ops != nil && b().wakeup != nil && cap(b().wakeup) >= 1 && b().ps == ps && b().rc == rc
ensures[workers] readers == 1 && writers == 1
