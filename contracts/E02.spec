# E02: translation of error codes and errors

spec httpOf(c) = \
  ite(c == psrpc.OK, 200, \
  ite(c == psrpc.InvalidArgument || c == psrpc.MalformedRequest, 400, \
  ite(c == psrpc.Unauthenticated, 401, ite(c == psrpc.PermissionDenied, 403, \
  ite(c == psrpc.NotFound, 404, ite(c == psrpc.NotAcceptable, 406, \
  ite(c == psrpc.AlreadyExists || c == psrpc.Aborted, 409, \
  ite(c == psrpc.FailedPrecondition, 412, ite(c == psrpc.OutOfRange, 416, \
  ite(c == psrpc.UnprocessableEntity, 422, ite(c == psrpc.UpstreamClientError, 424, \
  ite(c == psrpc.ResourceExhausted, 429, ite(c == psrpc.Unimplemented, 501, \
  ite(c == psrpc.UpstreamServerError, 502, \
  ite(c == psrpc.Canceled || c == psrpc.DeadlineExceeded || c == psrpc.Unavailable, 503, 500)))))))))))))))

spec grpcOf(c) = \
  ite(c == psrpc.OK, 0, ite(c == psrpc.Canceled, 1, \
  ite(c == psrpc.InvalidArgument || c == psrpc.MalformedRequest || c == psrpc.UpstreamClientError, 3, \
  ite(c == psrpc.DeadlineExceeded, 4, ite(c == psrpc.NotFound, 5, ite(c == psrpc.AlreadyExists, 6, \
  ite(c == psrpc.PermissionDenied, 7, ite(c == psrpc.ResourceExhausted, 8, ite(c == psrpc.FailedPrecondition, 9, \
  ite(c == psrpc.Aborted, 10, ite(c == psrpc.OutOfRange, 11, ite(c == psrpc.Unimplemented, 12, \
  ite(c == psrpc.Internal || c == psrpc.MalformedResponse || c == psrpc.UpstreamServerError, 13, \
  ite(c == psrpc.Unavailable, 14, ite(c == psrpc.DataLoss, 15, ite(c == psrpc.Unauthenticated, 16, 2))))))))))))))))

spec fromGrpc(k) = \
  ite(k == 0, psrpc.OK, ite(k == 1, psrpc.Canceled, ite(k == 3, psrpc.InvalidArgument, ite(k == 4, psrpc.DeadlineExceeded, \
  ite(k == 5, psrpc.NotFound, ite(k == 6, psrpc.AlreadyExists, ite(k == 7, psrpc.PermissionDenied, ite(k == 8, psrpc.ResourceExhausted, \
  ite(k == 9, psrpc.FailedPrecondition, ite(k == 10, psrpc.Aborted, ite(k == 11, psrpc.OutOfRange, ite(k == 12, psrpc.Unimplemented, \
  ite(k == 13, psrpc.Internal, ite(k == 14, psrpc.Unavailable, ite(k == 15, psrpc.DataLoss, ite(k == 16, psrpc.Unauthenticated, psrpc.Unknown))))))))))))))))

spec twirpOf(c) = \
  ite(c == psrpc.OK, twirp.NoError, ite(c == psrpc.Canceled, twirp.Canceled, \
  ite(c == psrpc.InvalidArgument || c == psrpc.UpstreamClientError, twirp.InvalidArgument, \
  ite(c == psrpc.MalformedRequest || c == psrpc.MalformedResponse, twirp.Malformed, \
  ite(c == psrpc.DeadlineExceeded, twirp.DeadlineExceeded, ite(c == psrpc.NotFound, twirp.NotFound, \
  ite(c == psrpc.AlreadyExists, twirp.AlreadyExists, ite(c == psrpc.PermissionDenied, twirp.PermissionDenied, \
  ite(c == psrpc.ResourceExhausted, twirp.ResourceExhausted, ite(c == psrpc.FailedPrecondition, twirp.FailedPrecondition, \
  ite(c == psrpc.Aborted, twirp.Aborted, ite(c == psrpc.OutOfRange, twirp.OutOfRange, \
  ite(c == psrpc.Unimplemented, twirp.Unimplemented, ite(c == psrpc.Internal || c == psrpc.UpstreamServerError, twirp.Internal, \
  ite(c == psrpc.Unavailable, twirp.Unavailable, ite(c == psrpc.DataLoss, twirp.DataLoss, \
  ite(c == psrpc.Unauthenticated, twirp.Unauthenticated, twirp.Unknown)))))))))))))))))

unit E02.http
property E02
func (psrpc.ErrorCode).ToHTTP
check index
check panics
ensures[http-table] result == httpOf(arg0)
ensures[http-not-success] arg0 != psrpc.OK ==> result >= 400

unit E02.grpc
property E02
func (psrpc.ErrorCode).ToGRPC
check index
check panics
ensures[grpc-table] int(result) == grpcOf(arg0)
ensures[grpc-not-success] arg0 != psrpc.OK ==> result != 0
ensures[grpc-defined] result <= 16

unit E02.twirp
property E02
func (psrpc.ErrorCode).ToTwirp
check index
check panics
ensures[twirp-table] result == twirpOf(arg0)
ensures[twirp-not-success] arg0 != psrpc.OK ==> result != twirp.NoError

unit E02.fromgrpc
property E02
func psrpc.ErrorCodeFromGRPC
check index
check panics
ensures[from-grpc] result == fromGrpc(code)
ensures[grpc-roundtrip] code <= 16 ==> result.ToGRPC() == code
ensures[grpc-unknown] code > 16 ==> result == psrpc.Unknown

unit E02.unwrap
property E02
func psrpc.NewErrorFromResponse
check index
check panics
ensures[is-code] errors.Is(result, result.Code())
ensures[is-code2] code != "" ==> errors.Is(result, psrpc.ErrorCode(code))
ensures[code] result.Code() == ite(code == "", psrpc.Unknown, psrpc.ErrorCode(code))
ensures[message] result.Error() == err
ensures[details] result.DetailsProto() == details

unit E02.newerror
property E02
func psrpc.NewError
check index
requires !is(err, *psrpc.psrpcError)
ensures[is-cause] errors.Is(result, err)
ensures[is-code] errors.Is(result, code)
ensures[code] result.Code() == code
ensures[message] result.Error() == err.Error()
ensures[http] result.ToHttp() == httpOf(code)

unit E02.newerrorf
property E02
func psrpc.NewErrorf
check index
check panics
ensures[is-code] errors.Is(result, code)
ensures[code] result.Code() == code
ensures[http] result.ToHttp() == httpOf(code)

unit E02.status
property E02
func (psrpc.psrpcError).GRPCStatus
check index
check panics
on call google.golang.org/grpc/status.FromProto(p)
  assert[status-code] int(p.Code) == grpcOf(arg0.code)
  assert[status-message] p.Message == arg0.error.Error()
  assert[status-details] p.Details == arg0.details

unit E02.astwirp
property E02
func (psrpc.psrpcError).As
check index
check panics
on call github.com/twitchtv/twirp.NewError(code, msg)
  assert[twirp-code] code == twirpOf(arg0.code)
  assert[twirp-message] msg == arg0.error.Error()
ensures[as-twirp] result == is(target, *twirp.Error)

unit E02.geterrorcode
property E02
func psrpc.GetErrorCode
check index
check panics
ghost isPsrpc bool
ghost code psrpc.ErrorCode
ghost isStatus bool
on after errors.As(e, t) -> (ok)
  assert[of-err] val(e) == val(err) && tag(e) == tag(err)
  set isPsrpc = ok
on after (psrpc.Error).Code(r) -> (c)
  set code = c
on after google.golang.org/grpc/status.FromError(e) -> (s, ok)
  assert[of-err] val(e) == val(err) && tag(e) == tag(err)
  set isStatus = ok && s != nil
on after (*google.golang.org/grpc/internal/status.Status).Code(s) -> (k)
  set code = fromGrpc(k)
ensures[recovers-psrpc] is(err, *psrpc.psrpcError) ==> isPsrpc
ensures[recovers] isPsrpc || isStatus ==> result1 && result0 == code
ensures[unknown] !isPsrpc && !isStatus ==> !result1 && result0 == psrpc.Unknown
