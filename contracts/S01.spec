# S01: server selection

unit S01.select
property S01
func pkg/client.selectServer
check index
check panics
given opts.MinimumAffinity == opts.MinimumAffinity && opts.MaximumAffinity == opts.MaximumAffinity
ghost eligible int
ghost now bool
ghost pick string
ghost sel bool
ghost best string
ghost bestAff float32
ghost ids gmap[int]string
ghost affs gmap[int]float32
ghost started bool
ghost deadline bool
ghost reported bool
ghost code psrpc.ErrorCode
ghost msg string
ghost a int
ghost sc bool
ghost cf int
ghost dctx context.Context
ghost asked bool
ghost fr string
ghost fe error
loop opts.SelectionFunc != nil ==> len(_s) == eligible
loop forall(j, 0, len(_s), allocated(_s[j]))
loop opts.SelectionFunc != nil ==> forall(j, 0, len(_s), _s[j].ServerID == ids[j] && same(_s[j].Affinity, affs[j]))
loop eligible >= 0
loop !now && !deadline
loop sel ==> eligible > 0
loop sc == (eligible > 0 && opts.ShortCircuitTimeout > 0)
loop sel == (best != "")
loop reported ==> is(_e, *psrpc.psrpcError) && as(_e, *psrpc.psrpcError).code == ite(code == "", psrpc.Unknown, code) && as(_e, *psrpc.psrpcError).Error() == msg
loop reported == (_e != nil)
loop a == ite(opts.AffinityTimeout > 0, 1, 0)
on after context.WithCancel(p) -> (c, f)
  assert[of-call] p == ctx
  set dctx = c
  set cf = val(f)
on call time.AfterFunc(d, f) when !started
  assert[deadline] d == opts.AffinityTimeout && d > 0 && a == 0 && val(f) == cf
  set a = 1
on call time.AfterFunc(d, f) when started
  assert[short-circuit] d == opts.ShortCircuitTimeout && d > 0 && !sc && eligible == 1 && val(f) == cf
  set sc = true
on recv chan *internal.ClaimRequest(ch, m, ok)
  assert[claims] ch == claimChan && !now && !deadline
  assume ok && m.ServerId != ""
  set started = true
  set now = (opts.MinimumAffinity <= 0 || m.Affinity >= opts.MinimumAffinity) && (opts.AcceptFirstAvailable || opts.MaximumAffinity > 0 && m.Affinity >= opts.MaximumAffinity)
  set pick = ite(now, m.ServerId, pick)
  set ids = ite((opts.MinimumAffinity <= 0 || m.Affinity >= opts.MinimumAffinity), upd(ids, eligible, m.ServerId), ids)
  set affs = ite((opts.MinimumAffinity <= 0 || m.Affinity >= opts.MinimumAffinity), upd(affs, eligible, m.Affinity), affs)
  set eligible = ite((opts.MinimumAffinity <= 0 || m.Affinity >= opts.MinimumAffinity), eligible+1, eligible)
  set best = ite((opts.MinimumAffinity <= 0 || m.Affinity >= opts.MinimumAffinity) && opts.SelectionFunc == nil && m.Affinity > bestAff, m.ServerId, best)
  set sel = sel || (opts.MinimumAffinity <= 0 || m.Affinity >= opts.MinimumAffinity) && opts.SelectionFunc == nil && m.Affinity > bestAff
  set bestAff = ite((opts.MinimumAffinity <= 0 || m.Affinity >= opts.MinimumAffinity) && opts.SelectionFunc == nil && m.Affinity > bestAff, m.Affinity, bestAff)
on recv chan *internal.Response(ch, m, ok)
  assert[responses] ch == resChan && !now && !deadline
  set started = true
  set code = ite(m.Error != "" || m.Code != "", m.Code, code)
  set msg = ite(m.Error != "" || m.Code != "", m.Error, msg)
  set reported = reported || m.Error != "" || m.Code != ""
on recv chan struct{}(ch, v, ok)
  assert[deadline] ch == dctx.Done() && !now
  assert[timers] a == ite(opts.AffinityTimeout > 0, 1, 0) && sc == (eligible > 0 && opts.ShortCircuitTimeout > 0)
  set deadline = true
on call func(cl)
  assert[selection-func] deadline && !asked && callee == val(opts.SelectionFunc)
  assert[exactly-eligible] len(cl) == eligible && forall(j, 0, eligible, cl[j].ServerID == ids[j] && same(cl[j].Affinity, affs[j]))
  set asked = true
on after func(cl) -> (id, err)
  set fr = id
  set fe = err
ensures[ends] now || deadline
ensures[first] now ==> result0 == pick && result1 == nil
ensures[custom] !now && opts.SelectionFunc != nil ==> asked && result0 == fr && result1 == fe
ensures[highest] !now && opts.SelectionFunc == nil && sel ==> result0 == best && result1 == nil
ensures[reported] !now && opts.SelectionFunc == nil && !sel && reported ==> is(result1, *psrpc.psrpcError) && as(result1, *psrpc.psrpcError).code == ite(code == "", psrpc.Unknown, code) && as(result1, *psrpc.psrpcError).Error() == msg
ensures[unavailable] !now && opts.SelectionFunc == nil && !sel && !reported ==> is(result1, *psrpc.psrpcError) && as(result1, *psrpc.psrpcError).code == psrpc.Unavailable
ensures[nobody] result1 != nil && !asked ==> result0 == ""
