# N01: generated identifiers

unit N01.client
property N01
func pkg/rand.NewClientID
check panics
flag unroll 0
loop inre(_b[0:4+_i], "CLI_[0-9A-Za-z]*")
loop inre(_b[0:_i], "[0-9A-Za-z]*")
ensures[length] len(result) == 16
ensures[format] inre(result, "CLI_[0-9A-Za-z]*")

unit N01.server
property N01
func pkg/rand.NewServerID
check panics
flag unroll 0
loop inre(_b[0:4+_i], "SRV_[0-9A-Za-z]*")
loop inre(_b[0:_i], "[0-9A-Za-z]*")
ensures[length] len(result) == 16
ensures[format] inre(result, "SRV_[0-9A-Za-z]*")

unit N01.request
property N01
func pkg/rand.NewRequestID
check panics
flag unroll 0
loop inre(_b[0:4+_i], "REQ_[0-9A-Za-z]*")
loop inre(_b[0:_i], "[0-9A-Za-z]*")
ensures[length] len(result) == 16
ensures[format] inre(result, "REQ_[0-9A-Za-z]*")

unit N01.stream
property N01
func pkg/rand.NewStreamID
check panics
flag unroll 0
loop inre(_b[0:4+_i], "STR_[0-9A-Za-z]*")
loop inre(_b[0:_i], "[0-9A-Za-z]*")
ensures[length] len(result) == 16
ensures[format] inre(result, "STR_[0-9A-Za-z]*")

unit N01.string
property N01
func pkg/rand.NewString
check panics
flag unroll 0
loop inre(_b[0:_i], "[0-9A-Za-z]*")
ensures[length] len(result) == 12
ensures[format] inre(result, "[0-9A-Za-z]*")

unit N01.init
property N01
func pkg/rand.init
check index
check panics
on call math/rand.New(s)
  assert[locked-source] is(s, *rand.lockedRandSource)

unit N01.int63
property N01
func (*pkg/rand.lockedRandSource).Int63
check index
check panics
check locks
on call (math/rand.Source).Int63(s)
  assert[lock-held] held(self.mu)

unit N01.seed
property N01
func (*pkg/rand.lockedRandSource).Seed
check index
check panics
check locks
on call (math/rand.Source).Seed(s, n)
  assert[lock-held] held(self.mu)
