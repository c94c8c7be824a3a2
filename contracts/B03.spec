# B03: the redis publish queues

guard internal/bus.redisPublishQueue.lock: messages

# one queue per channel: the bucket is a function of the channel's name alone
unit B03.publish
property B03
func (*internal/bus.redisMessageBus).Publish
check index
check panics
havoc internal/bus.serialize (*internal/bus.redisPublishQueue).Enqueue
requires forall(j, 0, 17, r.publishQueues[j] != nil)
ghost b []byte
ghost serr error
ghost ns int
ghost nh int
ghost h uint64
ghost nq int
on after internal/bus.serialize(m, c) -> (bb, err)
  assert[message] m == msg
  set b = bb
  set serr = err
  set ns = ns + 1
on after github.com/zeebo/xxh3.HashString(s) -> (u)
  assert[by-channel] s == channel.Legacy
  set h = u
  set nh = nh + 1
on call (*internal/bus.redisPublishQueue).Enqueue(q, c, x)
  assert[own-channel] c == channel.Legacy
  assert[payload] serr == nil && ns == 1 && ref(x) == ref(b) && off(x) == off(b) && len(x) == len(b)
  assert[one-queue] nh > 0 && q == r.publishQueues[h % 17]
  assert[once] nq == 0
  set nq = nq + 1
ensures[queued] ns == 1 && ite(serr == nil, nq == 1 && result == nil, nq == 0 && result == serr)

# queued at the end, in one critical section, and the worker is told (or has been and has not yet
# looked): what is in front stays as it is
unit B03.enqueue
property B03
func (*internal/bus.redisPublishQueue).Enqueue
check index
check panics
ghost at int = any
ghost n0 int
ghost c0 string
ghost p0 int
ghost o0 int
ghost l0 int
ghost taken int
ghost put int
ghost woken bool
on lock internal/bus.redisPublishQueue.lock(self, w)
  assert[own-queue] self == r && taken == 0
  set taken = 1
  set n0 = len(r.messages)
  set c0 = ite(0 <= at && at < len(r.messages), r.messages[at].channel, "")
  set p0 = ite(0 <= at && at < len(r.messages), ref(r.messages[at].payload), 0)
  set o0 = ite(0 <= at && at < len(r.messages), off(r.messages[at].payload), 0)
  set l0 = ite(0 <= at && at < len(r.messages), len(r.messages[at].payload), 0)
on send chan struct{}(ch, v) when ch == r.wakeup
  set woken = woken || put == 1 || held(r.lock)
on default select() when offered(r.wakeup)
  set woken = woken || put == 1 || held(r.lock)
on unlock internal/bus.redisPublishQueue.lock(self, w)
  assert[one-more] len(r.messages) == n0 + 1
  assert[at-the-end] r.messages[n0].channel == channel && ref(r.messages[n0].payload) == ref(payload) && off(r.messages[n0].payload) == off(payload) && len(r.messages[n0].payload) == len(payload)
  assert[rest-kept] 0 <= at && at < n0 ==> r.messages[at].channel == c0 && ref(r.messages[at].payload) == p0 && off(r.messages[at].payload) == o0 && len(r.messages[at].payload) == l0
  set put = 1
ensures[queued] put == 1 && nolocks()
ensures[woken] woken

# the worker: after a wake-up all that is queued is taken, and sent in the order it was queued in
unit B03.worker
property B03
func (*internal/bus.redisPublishQueue).worker
check index
check panics
ghost owed bool
ghost at int = any
ghost n0 int
ghost sent int
ghost c0 string
ghost p0 int
ghost o0 int
ghost l0 int
ghost loaded bool
ghost m0 int
ghost pipe redis.Pipeliner
loop !owed && (!loaded || n0 == 0) && nolocks()
loop sent == _i
loop sent == _i+1
on after (context.Context).Done(c) -> (d)
  assume d != r.wakeup
on recv chan struct{}(ch, v, ok) when ch == r.wakeup
  assert[wakeup] !owed && (!loaded || n0 == 0)
  set owed = true
on lock internal/bus.redisPublishQueue.lock(self, w)
  assert[own-queue] self == r && (!loaded || n0 == 0)
  set m0 = ref(r.messages)
  set n0 = len(r.messages)
  set c0 = ite(0 <= at && at < len(r.messages), r.messages[at].channel, "")
  set p0 = ite(0 <= at && at < len(r.messages), ref(r.messages[at].payload), 0)
  set o0 = ite(0 <= at && at < len(r.messages), off(r.messages[at].payload), 0)
  set l0 = ite(0 <= at && at < len(r.messages), len(r.messages[at].payload), 0)
  set sent = 0
on unlock internal/bus.redisPublishQueue.lock(self, w)
  assert[taken-whole] len(r.messages) == 0
  assert[let-go] ref(r.messages) == 0 || ref(r.messages) != m0
  set owed = false
  set loaded = true
on after (github.com/redis/go-redis/v9.UniversalClient).Pipeline(x) -> (p)
  assert[own-client] iface(x) == iface(r.rc)
  set pipe = p
on call (github.com/redis/go-redis/v9.Pipeliner).Publish(p, c, ch, x)
  assert[own-pipeline] iface(p) == iface(pipe) && loaded
  assert[to-own-channel] sent == at ==> ch == c0
  assert[bytes] is(x, []byte)
  assert[own-payload] sent == at ==> ref(as(x, []byte)) == p0 && off(as(x, []byte)) == o0 && len(as(x, []byte)) == l0
  assert[no-more] sent < n0
  set sent = sent + 1
on call (github.com/redis/go-redis/v9.Pipeliner).Exec(p, c)
  assert[whole-batch] loaded && iface(p) == iface(pipe) && sent == n0
  set loaded = false
ensures[stopped] isdone(r.ctx) && !owed && (!loaded || n0 == 0)

# a new queue has its worker, and room for a pending wake-up
unit B03.new
property B03
func internal/bus.newRedisPublishQueue
check index
check panics
flag nothreads *
ghost workers int
on go (*internal/bus.redisPublishQueue).worker(x)
  assert[own-worker] x.ctx == ctx && x.rc == rc && x.wakeup != nil
  set workers = workers + 1
ensures[worker] workers == 1 && result != nil && result.ctx == ctx && iface(result.rc) == iface(rc)
ensures[empty] len(result.messages) == 0
ensures[wakeup] result.wakeup != nil && cap(result.wakeup) >= 1

# a new bus has a queue for every bucket, each with its own worker
unit B03.bus
property B03
func internal/bus.NewRedisMessageBus
check index
check panics
flag nothreads *
havoc internal/bus.newRedisPublishQueue
spec b() = as(result, *bus.redisMessageBus)
on after internal/bus.newRedisPublishQueue(c, x) -> (q)
  assume q != nil
ensures[queues] forall(j, 0, 17, b().publishQueues[j] != nil)
