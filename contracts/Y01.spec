# Y01: the retry middleware

unit Y01.unary
property Y01
func pkg/middleware.NewRPCRetryInterceptor
check index
check panics
requires opt.GetRetryParameters != nil
flag explore result
ghost nx int
ghost c context.Context
ghost q any
ghost o []psrpc.RequestOption
ghost calls int
ghost asked int
ghost again bool
ghost r any
ghost e error
ghost t time.Duration
ghost w time.Duration
ghost waited bool
ghost dn int
ghost after int
ghost cancelled bool
loop calls >= 0
loop _i == calls + 1
loop _i == t
loop asked == calls
loop calls == 0 || again
loop calls == 0 || e != nil
on enter result(rpcInfo, next)
  set nx = val(next)
on enter psrpc.ClientRPCHandler(ctx, req, opts)
  set c = ctx
  set q = req
  set o = opts
  set calls = 0
  set asked = 0
  set again = true
  set cancelled = false
  set t = opt.Timeout
on call psrpc.ClientRPCHandler(ctx, req, opts)
  assert[next] callee == nx
  assert[only-if-retryable] again && !cancelled && asked == calls
  assert[arguments] ctx == c && iface(req) == q
  assert[options] len(opts) == ite(t > 0, len(o)+1, len(o)) && forall(j, 0, len(o), val(opts[j]) == val(o[j]))
  assert[timeout] t > 0 ==> applied(opts[len(o)], psrpc.RequestOpts).Timeout == t
  assert[own-list] len(opts) > len(o) ==> ref(opts) != ref(o)
on after psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  set calls = calls + 1
  set r = res
  set e = err
on call func(err, attempt)
  assert[asked-once] asked + 1 == calls
  assert[error] err == e && e != nil
  assert[attempt] attempt == calls
on after func(err, attempt) -> (retry, timeout, wait)
  set asked = calls
  set again = retry
  set t = timeout
  set w = wait
on recv chan struct{}(ch, v, ok)
  set cancelled = true
  assert[cancelled-by-caller] ch == c.Done()
on exit psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  assert[called] calls > 0
  assert[success] e == nil ==> err == nil && iface(res) == r
  assert[last-error] e != nil && !cancelled ==> err == e && iface(res) == r && !again
  assert[cancelled] cancelled ==> err == psrpc.ErrRequestCanceled

# the parameters used when no GetRetryParameters is given
unit Y01.default
property Y01
func pkg/middleware.NewRPCRetryInterceptor
check index
check panics
requires opt.GetRetryParameters == nil && opt.IsRecoverable != nil
flag explore result
ghost calls int
ghost asked int
ghost rec bool
ghost e error
ghost t time.Duration
ghost o int
ghost cancelled bool
loop calls >= 0
loop _i == calls + 1
loop _i == t
loop asked == calls
loop calls == 0 || rec
loop calls == 0 || e != nil
loop opt.MaxAttempts > 0 ==> calls < opt.MaxAttempts
on enter psrpc.ClientRPCHandler(ctx, req, opts)
  set o = len(opts)
  set calls = 0
  set asked = 0
  set rec = true
  set cancelled = false
  set t = opt.Timeout
on call psrpc.ClientRPCHandler(ctx, req, opts)
  assert[only-if-recoverable] rec && asked == calls && !cancelled
  assert[max-attempts] opt.MaxAttempts > 0 ==> calls < opt.MaxAttempts
  assert[timeout] t > 0 ==> len(opts) == o+1 && applied(opts[o], psrpc.RequestOpts).Timeout == t
  assert[no-timeout] t <= 0 ==> len(opts) == o
on after psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  set calls = calls + 1
  set t = t + opt.Backoff
  set e = err
on call func(err)
  assert[error] err == e && e != nil
on after func(err) -> (ok)
  set asked = calls
  set rec = ok
on recv chan struct{}(ch, v, ok)
  set cancelled = true
on exit psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  assert[stops-on] e == nil || cancelled || !rec || calls == opt.MaxAttempts
  assert[last-error] !cancelled ==> err == e
  assert[cancelled] cancelled ==> err == psrpc.ErrRequestCanceled

# the errors retried when no IsRecoverable is given
unit Y01.codes
property Y01
func pkg/middleware.NewRPCRetryInterceptor
check index
check panics
requires opt.GetRetryParameters == nil && opt.IsRecoverable == nil
havoc psrpc.GetErrorCode
flag explore result
ghost calls int
ghost asked int
ghost rec bool
ghost e error
ghost cancelled bool
loop calls >= 0
loop _i == calls + 1
loop asked == calls
loop calls == 0 || rec
loop calls == 0 || e != nil
on enter psrpc.ClientRPCHandler(ctx, req, opts)
  set calls = 0
  set asked = 0
  set rec = true
  set cancelled = false
on call psrpc.ClientRPCHandler(ctx, req, opts)
  assert[only-if-recoverable] rec && asked == calls && !cancelled
on after psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  set calls = calls + 1
  set e = err
on call psrpc.GetErrorCode(err)
  assert[error] err == e && e != nil
on after psrpc.GetErrorCode(err) -> (code, ok)
  set asked = calls
  set rec = !ok || code == psrpc.DeadlineExceeded || code == psrpc.Unavailable
on recv chan struct{}(ch, v, ok)
  set cancelled = true
on exit psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  assert[stops-on] e == nil || cancelled || !rec || calls == opt.MaxAttempts
  assert[last-error] !cancelled ==> err == e

unit Y01.stream
property Y01
func pkg/middleware.NewStreamRetryInterceptor
check index
check panics
requires opt.GetRetryParameters != nil
flag explore result
ghost nx int
ghost nt int
ghost q any
ghost o []psrpc.StreamOption
ghost calls int
ghost asked int
ghost again bool
ghost sending bool
ghost e error
ghost t time.Duration
loop calls >= 0
loop _i == calls + 1
loop _i == t
loop asked == calls
loop calls == 0 || again
loop calls == 0 || e != nil
on enter result(rpcInfo, next)
  set nx = val(next)
  set nt = tag(next)
on enter (psrpc.StreamHandler).Send(msg, opts)
  set q = msg
  set o = opts
  set calls = 0
  set asked = 0
  set again = true
  set sending = true
  set t = opt.Timeout
on call (psrpc.StreamHandler).Send(h, msg, opts)
  assert[next] val(h) == nx && tag(h) == nt
  assert[only-if-retryable] again && asked == calls
  assert[arguments] iface(msg) == q
  assert[options] len(opts) == ite(t > 0, len(o)+1, len(o)) && forall(j, 0, len(o), val(opts[j]) == val(o[j]))
  assert[timeout] t > 0 ==> applied(opts[len(o)], psrpc.StreamOpts).Timeout == t
  assert[own-list] len(opts) > len(o) ==> ref(opts) != ref(o)
on after (psrpc.StreamHandler).Send(h, msg, opts) -> (err)
  set calls = calls + 1
  set e = err
on call func(err, attempt)
  assert[asked-once] asked + 1 == calls
  assert[error] err == e && e != nil
  assert[attempt] attempt == calls
on after func(err, attempt) -> (retry, timeout, wait)
  set asked = calls
  set again = retry
  set t = timeout
on exit (psrpc.StreamHandler).Send(msg, opts) -> (err)
  assert[called] calls > 0
  assert[success] e == nil ==> err == nil
  assert[last-error] e != nil ==> err == e && !again
