# R01: a claimed request is run by at most the selected server

unit R01.server
property R01
func pkg/server.RegisterHandler
check index
havoc @server
pure @names
ghost inf *info.RequestInfo
ghost ir *internal.Request
ghost inner bool
ghost started int
ghost asked bool
ghost given bool
ghost reg chan *internal.ClaimResponse
ghost lk string
ghost lc chan *internal.ClaimResponse
ghost bad bool
ghost runs int
ghost answers int
ghost aff float32
on after (*pkg/info.ServiceDefinition).GetInfo(d, r, t) -> (i)
  set inf = i
on recv chan *internal.Request(ch, m, ok)
  set ir = m
  set started = 0
  set asked = false
  set given = false
  set bad = false
  set runs = 0
  set answers = 0
  set aff = 1
on go ... when ir != nil
  assert[handled-once] started == 0
  set started = 1
on after internal/bus.DeserializePayload(b) -> (m, err)
  set bad = err != nil
on after pkg/server.AffinityFunc(hc, req) -> (a)
  set aff = a
on mapset map[string]chan *internal.ClaimResponse(m, k, v)
  assert[own-id] k == ir.RequestId
  set reg = v
on mapdel map[string]chan *internal.ClaimResponse(m, k)
  assert[own-id] k == ir.RequestId
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.ClaimRequest)
  assert[registered-first] reg != nil
  assert[one-claim] !asked && runs == 0
  assert[own-claim] as(msg, *internal.ClaimRequest).RequestId == ir.RequestId && as(msg, *internal.ClaimRequest).ServerId == s.ID
  assert[affinity] !(aff < 0) && same(as(msg, *internal.ClaimRequest).Affinity, aff)
  assert[to-client] ch == info.GetClaimRequestChannel(s.Name, ir.ClientId)
  set asked = true
# the dispatcher: a claim response goes to the handler waiting for this request
on mapget map[string]chan *internal.ClaimResponse(m, k, v, ok)
  set lk = k
  set lc = v
on send chan *internal.ClaimResponse(ch, m)
  assert[to-its-handler] m.RequestId == lk && ch == lc
on recv chan *internal.ClaimResponse(ch, m, ok) when asked
  assert[own-channel] ch == reg
  assume ok && m != nil && m.RequestId == ir.RequestId
  set given = m.ServerId == s.ID
on enter psrpc.ServerRPCHandler(ctx, req)
  set inner = true
on call psrpc.ServerRPCInterceptor(hc, req, i, next)
  assert[once] runs == 0 && answers == 0 && !bad
  assert[selected] inf.RequireClaim ==> asked && given
  set runs = 1
on call func(hc, req) when callee == val(svcImpl) && !inner
  assert[once] runs == 0 && answers == 0 && !bad
  assert[selected] inf.RequireClaim ==> asked && given
  set runs = 1
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Response)
  assert[one-answer] answers == 0
  assert[selected] bad || runs == 1
  assert[own-answer] as(msg, *internal.Response).RequestId == ir.RequestId && as(msg, *internal.Response).ServerId == s.ID
  assert[to-client] ch == info.GetResponseChannel(s.Name, ir.ClientId)
  set answers = 1

unit R01.unary
property R01
func pkg/client.RequestSingle
check index
check panics
havoc @client pkg/client.selectServer
pure @names
ghost rid string
ghost inf *info.RequestInfo
ghost sid string
ghost sel bool
ghost told bool
ghost reqs int
on after (*pkg/info.ServiceDefinition).GetInfo(d, r, t) -> (i)
  set inf = i
on enter psrpc.ClientRPCHandler(ctx, req, opts)
  set told = false
  set sel = false
  set reqs = 0
on after pkg/rand.NewRequestID() -> (id)
  set rid = id
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Request)
  assert[one-request] reqs == 0 && as(msg, *internal.Request).RequestId == rid
  set reqs = 1
on after pkg/client.selectServer(sc, claims, res, so) -> (id, err)
  set sid = id
  set sel = err == nil
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.ClaimResponse)
  assert[one-claim-response] !told
  assert[selected] sel && as(msg, *internal.ClaimResponse).ServerId == sid
  assert[own-request] reqs == 1 && as(msg, *internal.ClaimResponse).RequestId == rid
  assert[to-servers] ch == inf.GetClaimResponseChannel()
  set told = true

unit R01.open
property R01
func pkg/client.OpenStream
check index
check panics
havoc @client pkg/client.selectServer
pure @names
flag nocallbacks *
flag nothreads *
ghost rid string
ghost inf *info.RequestInfo
ghost sid string
ghost sel bool
ghost told bool
ghost reqs int
on after (*pkg/info.ServiceDefinition).GetInfo(d, r, t) -> (i)
  set inf = i
on after pkg/rand.NewRequestID() -> (id)
  set rid = id
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Stream) && is(as(msg, *internal.Stream).Body, *internal.Stream_Open)
  assert[one-request] reqs == 0 && as(msg, *internal.Stream).RequestId == rid
  set reqs = 1
on after pkg/client.selectServer(sc, claims, res, so) -> (id, err)
  set sid = id
  set sel = err == nil
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.ClaimResponse)
  assert[one-claim-response] !told
  assert[selected] sel && as(msg, *internal.ClaimResponse).ServerId == sid
  assert[own-request] reqs == 1 && as(msg, *internal.ClaimResponse).RequestId == rid
  assert[to-servers] ch == inf.GetClaimResponseChannel()
  set told = true
