# E01: a caller sees exactly the outcome the handler produced

spec sameDetails(a, b) = len(a) == len(b) && forall(j, 0, len(b), a[j] == b[j])
spec errorOf(err) = asval(err, psrpc.Error)
spec statusOf(err) = statusof(err, *status.Status)
spec isStatusErr(err) = statusok(err) && statusOf(err) != nil && statusOf(err).Code() != 0

# the server: every outcome of handler and interceptors becomes the response that says so
unit E01.server
property E01
func pkg/server.RegisterHandler
check index
havoc @server (*pkg/server.rpcHandlerImpl).claimRequest
pure @names psrpc.ErrorCodeFromGRPC (psrpc.Error).Code (psrpc.Error).DetailsProto (*google.golang.org/grpc/internal/status.Status)...
ghost ir *internal.Request
ghost bad bool
ghost berr error
ghost inner bool
ghost ran bool
ghost oerr error
ghost ores any
ghost sres any
ghost sdone bool
ghost sbytes string
ghost serr error
on recv chan *internal.Request(ch, m, ok)
  set ir = m
  set ran = false
  set sdone = false
  set bad = false
on after internal/bus.DeserializePayload(b) -> (m, err)
  set bad = err != nil
  set berr = err
on enter psrpc.ServerRPCHandler(ctx, req)
  set inner = true
on call psrpc.ServerRPCInterceptor(hc, req, i, next)
  assert[decoded] !bad
on after psrpc.ServerRPCInterceptor(hc, req, i, next) -> (res, err)
  set ran = true
  set oerr = err
  set ores = iface(res)
on call func(hc, req) when callee == val(svcImpl) && !inner
  assert[decoded] !bad
on after func(hc, req) -> (res, err) when callee == val(svcImpl) && !inner
  set ran = true
  set oerr = err
  set ores = iface(res)
on after internal/bus.SerializePayload(m) -> (b, err)
  set sdone = true
  set sres = iface(m)
  set sbytes = str(b)
  set serr = err
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Response)
  assert[malformed-request] bad ==> as(msg, *internal.Response).Code == "malformed_request" && as(msg, *internal.Response).Error == berr.Error()
  assert[outcome] bad || ran
  assert[psrpc-error] ran && !bad && oerr != nil && asok(oerr, psrpc.Error) ==> as(msg, *internal.Response).Error == errorOf(oerr).Error() && as(msg, *internal.Response).Code == ite(errorOf(oerr).Code() == "", "unknown", errorOf(oerr).Code())
  assert[details] ran && !bad && oerr != nil && asok(oerr, psrpc.Error) ==> sameDetails(as(msg, *internal.Response).ErrorDetails, errorOf(oerr).DetailsProto())
  assert[status] ran && !bad && oerr != nil && !asok(oerr, psrpc.Error) && isStatusErr(oerr) ==> as(msg, *internal.Response).Error == statusOf(oerr).Message() && as(msg, *internal.Response).Code == ite(psrpc.ErrorCodeFromGRPC(statusOf(oerr).Code()) == "", "unknown", psrpc.ErrorCodeFromGRPC(statusOf(oerr).Code()))
  assert[status-details] ran && !bad && oerr != nil && !asok(oerr, psrpc.Error) && isStatusErr(oerr) ==> sameDetails(as(msg, *internal.Response).ErrorDetails, statusOf(oerr).Proto().Details)
  assert[unknown] ran && !bad && oerr != nil && !asok(oerr, psrpc.Error) && !isStatusErr(oerr) ==> as(msg, *internal.Response).Error == oerr.Error() && as(msg, *internal.Response).Code == "unknown"
  assert[never-success] bad || oerr != nil ==> as(msg, *internal.Response).Code != ""
  assert[result] ran && !bad && oerr == nil && ores != nil ==> sdone && sres == ores
  assert[encoded] ran && !bad && oerr == nil && sdone && serr == nil ==> as(msg, *internal.Response).Code == "" && as(msg, *internal.Response).Error == "" && str(as(msg, *internal.Response).RawResponse) == sbytes
  assert[not-encoded] ran && !bad && oerr == nil && sdone && serr != nil ==> as(msg, *internal.Response).Code == "malformed_result" && as(msg, *internal.Response).Error == serr.Error()

# the unary client: the response to the request decides what the caller gets
unit E01.unary
property E01
func pkg/client.RequestSingle
check index
check panics
havoc @client pkg/client.selectServer
pure @names
ghost inner bool
ghost rc chan *internal.Response
ghost m *internal.Response
ghost ran bool
ghost dbytes string
ghost dres any
ghost derr error
ghost done bool
ghost cres any
ghost cerr error
on enter psrpc.ClientRPCHandler(ctx, req, opts)
  set inner = true
  set m = nil
  set ran = false
on recv chan *internal.Response(ch, r, ok) when inner
  assume ok && r != nil
  set m = r
on after internal/bus.DeserializePayload(b) -> (v, err)
  set ran = true
  set dbytes = str(b)
  set dres = iface(v)
  set derr = err
on exit psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  assert[no-response-no-success] m == nil ==> err != nil
  assert[error] m != nil && (m.Error != "" || m.Code != "") ==> is(err, *psrpc.psrpcError) && as(err, psrpc.Error).Code() == ite(m.Code == "", "unknown", m.Code) && err.Error() == m.Error && as(err, psrpc.Error).DetailsProto() == m.ErrorDetails
  assert[result] m != nil && m.Error == "" && m.Code == "" ==> ran && dbytes == str(m.RawResponse)
  assert[decoded] m != nil && m.Error == "" && m.Code == "" && derr == nil ==> err == nil && iface(res) == dres
  assert[not-decoded] m != nil && m.Error == "" && m.Code == "" && derr != nil ==> is(err, *psrpc.psrpcError) && as(err, psrpc.Error).Code() == "malformed_result" && err.Error() == derr.Error()
on after psrpc.ClientRPCHandler(ctx, req, opts) -> (res, err)
  set done = true
  set cres = iface(res)
  set cerr = err
ensures[closed] !done ==> result1 != nil
ensures[same-error] done ==> result1 == cerr
ensures[same-result] done && is(cres, ResponseType) ==> iface(result0) == cres

# multi RPC: each response carries its result or its error to the caller's channel
unit E01.multi
property E01
func pkg/client.RequestMulti
check index
check panics
havoc @client
pure @names
ghost rc chan *internal.Response
ghost m *internal.Response
ghost ran bool
ghost dbytes string
ghost dres any
ghost derr error
ghost fwd bool
on recv chan *internal.Response(ch, r, ok)
  assume ok && r != nil
  set m = r
  set ran = false
on after internal/bus.DeserializePayload(b) -> (v, err)
  set ran = true
  set dbytes = str(b)
  set dres = iface(v)
  set derr = err
on call (psrpc.ClientMultiRPCHandler).Recv(h, v, err)
  assert[error] m.Error != "" || m.Code != "" ==> is(err, *psrpc.psrpcError) && as(err, psrpc.Error).Code() == ite(m.Code == "", "unknown", m.Code) && err.Error() == m.Error && as(err, psrpc.Error).DetailsProto() == m.ErrorDetails
  assert[result] m.Error == "" && m.Code == "" ==> ran && dbytes == str(m.RawResponse)
  assert[decoded] m.Error == "" && m.Code == "" && derr == nil ==> err == nil && iface(v) == dres
  assert[not-decoded] m.Error == "" && m.Code == "" && derr != nil ==> is(err, *psrpc.psrpcError) && as(err, psrpc.Error).Code() == "malformed_result" && err.Error() == derr.Error()
