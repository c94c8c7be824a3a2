# A01: registering a group of methods is all or nothing

unit A01.register
property A01
func (pkg/server.RegistererSlice).Register
trusted reflect.Value.Call runs the function value it was made from, with the given arguments
ghost n int
ghost d int
ghost failed bool
ghost err any
on call (reflect.Value).Call(f, in)
  assert[register-in-order] !failed ==> n < len(rs) && f == reflect.ValueOf(rs[n].register)
  assert[deregister-registered] failed ==> d < n && f == reflect.ValueOf(rs[d].deregister)
  assert[same-params] len(in) == len(params) && forall(j, 0, len(params), in[j] == reflect.ValueOf(params[j]))
on after (reflect.Value).Call(f, in) -> (out)
  set d = ite(failed, d+1, d)
  set err = ite(failed, err, out[0].Interface())
  set n = ite(failed || !out[0].IsNil(), n, n+1)
  set failed = failed || !out[0].IsNil()
ensures[all-registered] !failed ==> result == nil && n == len(rs) && d == 0
ensures[rolled-back] failed ==> d == n && tag(result) == tag(err) && val(result) == val(err)

unit A01.deregister
property A01
func (pkg/server.RegistererSlice).Deregister
check index
check panics
ghost d int
on call (reflect.Value).Call(f, in)
  assert[deregister-once] d < len(rs) && f == reflect.ValueOf(rs[d].deregister)
  assert[same-params] len(in) == len(params) && forall(j, 0, len(params), in[j] == reflect.ValueOf(params[j]))
  set d = d + 1
ensures[deregister-all] d == len(rs)
