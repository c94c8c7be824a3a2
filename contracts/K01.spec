# K01: the recovery interceptor

unit K01.recovery
property K01
func pkg/middleware.WithServerRecovery
check index
check panics
flag explore result
flag panics psrpc.ServerRPCHandler
flag nocallbacks *
ghost c context.Context
ghost q any
ghost h int
ghost calls int
ghost panicked bool
ghost r any
ghost e error
on enter result(ctx, req, info, handler)
  set c = ctx
  set q = req
  set h = val(handler)
on call psrpc.ServerRPCHandler(ctx, req)
  assert[handler] callee == h
  assert[once] calls == 0
  assert[args] ctx == c && iface(req) == q
  set calls = calls + 1
on after psrpc.ServerRPCHandler(ctx, req) -> (resp, err)
  set r = resp
  set e = err
on panic external
  set panicked = true
maybe escape result
  assert[contained] false
on exit result(ctx, req, info, handler) -> (resp, err)
  assert[called-once] calls == 1
  assert[pass-through] !panicked ==> iface(resp) == r && err == e
  assert[internal] panicked ==> err != nil && is(err, *psrpc.psrpcError) && as(err, *psrpc.psrpcError).code == psrpc.Internal
