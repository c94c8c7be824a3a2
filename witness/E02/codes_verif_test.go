// overlay: .
package psrpc

import (
	"errors"
	"fmt"
	"testing"

	"github.com/twitchtv/twirp"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func TestVerifCodes(t *testing.T) {
	all := []ErrorCode{
		Canceled, MalformedRequest, MalformedResponse, DeadlineExceeded, Unavailable, Unknown, InvalidArgument, NotFound, NotAcceptable,
		AlreadyExists, PermissionDenied, ResourceExhausted, FailedPrecondition, Aborted, OutOfRange, Unimplemented, Internal, DataLoss,
		Unauthenticated, UnprocessableEntity, UpstreamServerError, UpstreamClientError, "no_such_code", "OK", "ok", " ",
	}
	if OK.ToHTTP() != 200 || OK.ToGRPC() != codes.OK || OK.ToTwirp() != twirp.NoError {
		t.Fatal("ok is not ok")
	}
	for c := codes.Code(0); c < 17; c++ {
		if got := ErrorCodeFromGRPC(c).ToGRPC(); got != c {
			t.Fatalf("gRPC code %v comes back as %v", c, got)
		}
	}
	for _, c := range []codes.Code{17, 18, 100, 1 << 31} {
		if ErrorCodeFromGRPC(c) != Unknown {
			t.Fatalf("gRPC code %d is %v", c, ErrorCodeFromGRPC(c))
		}
	}
	for _, c := range all {
		if c.ToHTTP() < 400 || c.ToHTTP() > 599 || c.ToGRPC() == codes.OK || c.ToTwirp() == twirp.NoError || !twirp.IsValidErrorCode(c.ToTwirp()) {
			t.Fatalf("code %q is HTTP %d, gRPC %v, Twirp %q", c, c.ToHTTP(), c.ToGRPC(), c.ToTwirp())
		}
		cause := fmt.Errorf("cause of %q", c)
		for i, e := range []Error{NewError(c, cause), NewErrorf(c, "%w", cause), NewErrorFromResponse(string(c), cause.Error())} {
			if i < 2 && !errors.Is(e, cause) || !errors.Is(e, c) || e.Error() != cause.Error() || e.Code() != c || e.ToHttp() != c.ToHTTP() {
				t.Fatalf("error %d of code %q: %v", i, c, e)
			}
			for _, o := range all {
				if o != c && errors.Is(e, o) {
					t.Fatalf("error of code %q matches %q", c, o)
				}
			}
			var te twirp.Error
			if !errors.As(e, &te) || te.Code() != c.ToTwirp() || te.Msg() != cause.Error() {
				t.Fatalf("error of code %q as Twirp: %v", c, te)
			}
			if st, ok := status.FromError(e); !ok || st.Code() != c.ToGRPC() || st.Message() != cause.Error() {
				t.Fatalf("error of code %q as gRPC: %v", c, st)
			}
			for _, w := range []error{e, fmt.Errorf("wrapped: %w", e), errors.Join(errors.New("other"), fmt.Errorf("twice: %w", e))} {
				if got, ok := GetErrorCode(w); !ok || got != c {
					t.Fatalf("code of %v: %q %v, want %q", w, got, ok, c)
				}
			}
		}
	}
	if e := NewErrorFromResponse("", "text"); e.Code() != Unknown {
		t.Fatalf("response without a code: %q", e.Code())
	}
	for c := codes.Code(1); c < 17; c++ {
		for _, e := range []error{status.Error(c, "m"), fmt.Errorf("wrapped: %w", status.Error(c, "m"))} {
			if got, ok := GetErrorCode(e); !ok || got != ErrorCodeFromGRPC(c) {
				t.Fatalf("code of %v: %q %v", e, got, ok)
			}
		}
	}
	if c, ok := GetErrorCode(errors.New("plain")); ok || c != Unknown {
		t.Fatalf("code of a plain error: %q %v", c, ok)
	}
}
