# C01: channel names

spec plain(r) = (48 <= r && r <= 57) || (65 <= r && r <= 90) || r == 95 || (97 <= r && r <= 122)
spec hx(d) = chr("0123456789abcdef"[d % 16])
spec enc(r) = ite(plain(r), chr(r), ite(r < 65536, concat("u+", hx(r/4096), hx(r/256), hx(r/16), hx(r)), concat("U+", hx(r/268435456), hx(r/16777216), hx(r/1048576), hx(r/65536), hx(r/4096), hx(r/256), hx(r/16), hx(r))))

unit C01.clientname
property C01
func pkg/info.formatClientChannel
check index
check panics
on after (*sync.Pool).Get(p) -> (x)
  assume is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
maybe on call (*sync.Pool).Put(p, x)
  assert[returned-empty] is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
ensures[name] result == concat("CLI.", service, ".", clientID, ".", channel)

unit C01.localname
property C01
func pkg/info.formatLocalChannel
check index
check panics
on after (*sync.Pool).Get(p) -> (x)
  assume is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
maybe on call (*sync.Pool).Put(p, x)
  assert[returned-empty] is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
ensures[name] result == concat(method, ".", channel)

# the table of plain characters is built once
unit C01.table
property C01
func pkg/info.init
ensures[table] len(info.channelChar.R16) == 4 && len(info.channelChar.R32) == 0
ensures[digits] info.channelChar.R16[0].Lo == 48 && info.channelChar.R16[0].Hi == 57 && info.channelChar.R16[0].Stride == 1
ensures[upper] info.channelChar.R16[1].Lo == 65 && info.channelChar.R16[1].Hi == 90 && info.channelChar.R16[1].Stride == 1
ensures[underscore] info.channelChar.R16[2].Lo == 95 && info.channelChar.R16[2].Hi == 95 && info.channelChar.R16[2].Stride == 1
ensures[lower] info.channelChar.R16[3].Lo == 97 && info.channelChar.R16[3].Hi == 122 && info.channelChar.R16[3].Stride == 1
ensures[latin] info.channelChar.LatinOffset == 4

unit C01.part
property C01
func pkg/info.appendSanitizedChannelPart
check index
check panics
ghost out string = ""
ghost b0 string = str(buf)
on next string(x, i, r)
  set out = concat(out, enc(r))
maybe on after unicode.Is(t, r) -> (b)
  assert[table] t == info.channelChar
  assume b == plain(r)
loop str(_s) == concat(b0, out)
ensures[encoded] str(result) == concat(b0, out)

# the encoding of a whole string: what appendSanitizedChannelPart appends (C01.part)
uninterp san(string) string
uninterp dots(int) string
uninterp joined(int) string

unit C01.servername
property C01
func pkg/info.formatServerChannel
check index
check panics
havoc pkg/info.appendSanitizedChannelPart
given dots(0) == ""
given forall(j, 0, len(topic), dots(j+1) == ite(topic[j] != "", concat(dots(j), ".", san(topic[j])), dots(j)))
on after (*sync.Pool).Get(p) -> (x)
  assume is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
maybe on call (*sync.Pool).Put(p, x)
  assert[returned-empty] is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
on after pkg/info.appendSanitizedChannelPart(b, s) -> (r)
  assume str(r) == concat(str(b), san(s))
loop str(_s) == concat("SRV.", service, dots(_i+1))
ensures[name] result == concat("SRV.", service, dots(len(topic)), ite(queue, ".Q", ""))


# topics joined by the separator d after what is there already
unit C01.handlerkey
property C01
func (*pkg/info.RequestInfo).GetHandlerKey
check index
check panics
havoc pkg/info.appendSanitizedChannelPart
requires i.Method != ""
given joined(0) == ""
given forall(j, 0, len(i.Topic), joined(j+1) == concat(joined(j), ite(j > 0 && i.Topic[j-1] != "", ".", ""), san(i.Topic[j])))
on after (*sync.Pool).Get(p) -> (x)
  assume is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
maybe on call (*sync.Pool).Put(p, x)
  assert[returned-empty] is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
on after pkg/info.appendSanitizedChannelPart(b, s) -> (r)
  assume str(r) == concat(str(b), san(s)) && len(r) == len(b) + len(san(s)) && (s != "" ==> len(r) > len(b)) && (s == "" ==> len(r) == len(b))
loop str(_s) == concat(san(i.Method), ".", joined(_i+1))
loop _t == (_i >= 0 && i.Topic[_i] != "")
ensures[key] result == concat(san(i.Method), ".", joined(len(i.Topic)))

unit C01.rpc
property C01
func (*pkg/info.RequestInfo).GetRPCChannel
check index
check panics
havoc pkg/info.appendSanitizedChannelPart pkg/info.formatServerChannel pkg/info.formatLocalChannel
requires i.Service != "" && i.Method != ""
given joined(0) == ""
given forall(j, 0, len(i.Topic), joined(j+1) == concat(joined(j), ite(j > 0 && i.Topic[j-1] != "", "|", ""), san(i.Topic[j])))
ghost srv string
ghost loc string
ghost last string
on after (*sync.Pool).Get(p) -> (x)
  assume is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
maybe on call (*sync.Pool).Put(p, x)
  assert[returned-empty] is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
on after pkg/info.appendSanitizedChannelPart(b, s) -> (r)
  assume str(r) == concat(str(b), san(s)) && len(r) == len(b) + len(san(s)) && (s != "" ==> len(r) > len(b)) && (s == "" ==> len(r) == len(b))
  set last = str(b)
on after pkg/info.formatServerChannel(s, t, q) -> (r)
  assert[server-of-endpoint] s == i.Service && t == i.Topic && q == i.Queue
  set srv = r
on after pkg/info.formatLocalChannel(m, k) -> (r)
  assert[local-of-endpoint] m == i.Method && k == "REQ"
  set loc = r
loop str(_s) == concat(san(i.Service), "|", san(i.Method), "|", joined(_i+1))
loop len(_s) == len(concat(san(i.Service), "|", san(i.Method), "|", joined(_i+1)))
loop _t == (_i >= 0 && i.Topic[_i] != "")
ensures[legacy-topics] joined(len(i.Topic)) != "" ==> last == concat(san(i.Service), "|", san(i.Method), "|", joined(len(i.Topic)), "|")
ensures[legacy-none] joined(len(i.Topic)) == "" ==> last == concat(san(i.Service), "|", san(i.Method), "|")
ensures[legacy] result.Legacy == concat(last, san("REQ"))
ensures[server] result.Server == srv && result.Local == loc

unit C01.claimresponse
property C01
func (*pkg/info.RequestInfo).GetClaimResponseChannel
check index
check panics
havoc pkg/info.appendSanitizedChannelPart pkg/info.formatServerChannel pkg/info.formatLocalChannel
requires i.Service != "" && i.Method != ""
given joined(0) == ""
given forall(j, 0, len(i.Topic), joined(j+1) == concat(joined(j), ite(j > 0 && i.Topic[j-1] != "", "|", ""), san(i.Topic[j])))
ghost srv string
ghost loc string
ghost last string
on after (*sync.Pool).Get(p) -> (x)
  assume is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
maybe on call (*sync.Pool).Put(p, x)
  assert[returned-empty] is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
on after pkg/info.appendSanitizedChannelPart(b, s) -> (r)
  assume str(r) == concat(str(b), san(s)) && len(r) == len(b) + len(san(s)) && (s != "" ==> len(r) > len(b)) && (s == "" ==> len(r) == len(b))
  set last = str(b)
on after pkg/info.formatServerChannel(s, t, q) -> (r)
  assert[server-of-endpoint] s == i.Service && t == i.Topic && q == false
  set srv = r
on after pkg/info.formatLocalChannel(m, k) -> (r)
  assert[local-of-endpoint] m == i.Method && k == "RCLAIM"
  set loc = r
loop str(_s) == concat(san(i.Service), "|", san(i.Method), "|", joined(_i+1))
loop len(_s) == len(concat(san(i.Service), "|", san(i.Method), "|", joined(_i+1)))
loop _t == (_i >= 0 && i.Topic[_i] != "")
ensures[legacy-topics] joined(len(i.Topic)) != "" ==> last == concat(san(i.Service), "|", san(i.Method), "|", joined(len(i.Topic)), "|")
ensures[legacy-none] joined(len(i.Topic)) == "" ==> last == concat(san(i.Service), "|", san(i.Method), "|")
ensures[legacy] result.Legacy == concat(last, san("RCLAIM"))
ensures[server] result.Server == srv && result.Local == loc

unit C01.streamserver
property C01
func (*pkg/info.RequestInfo).GetStreamServerChannel
check index
check panics
havoc pkg/info.appendSanitizedChannelPart pkg/info.formatServerChannel pkg/info.formatLocalChannel
requires i.Service != "" && i.Method != ""
given joined(0) == ""
given forall(j, 0, len(i.Topic), joined(j+1) == concat(joined(j), ite(j > 0 && i.Topic[j-1] != "", "|", ""), san(i.Topic[j])))
ghost srv string
ghost loc string
ghost last string
on after (*sync.Pool).Get(p) -> (x)
  assume is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
maybe on call (*sync.Pool).Put(p, x)
  assert[returned-empty] is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
on after pkg/info.appendSanitizedChannelPart(b, s) -> (r)
  assume str(r) == concat(str(b), san(s)) && len(r) == len(b) + len(san(s)) && (s != "" ==> len(r) > len(b)) && (s == "" ==> len(r) == len(b))
  set last = str(b)
on after pkg/info.formatServerChannel(s, t, q) -> (r)
  assert[server-of-endpoint] s == i.Service && t == i.Topic && q == false
  set srv = r
on after pkg/info.formatLocalChannel(m, k) -> (r)
  assert[local-of-endpoint] m == i.Method && k == "STR"
  set loc = r
loop str(_s) == concat(san(i.Service), "|", san(i.Method), "|", joined(_i+1))
loop len(_s) == len(concat(san(i.Service), "|", san(i.Method), "|", joined(_i+1)))
loop _t == (_i >= 0 && i.Topic[_i] != "")
ensures[legacy-topics] joined(len(i.Topic)) != "" ==> last == concat(san(i.Service), "|", san(i.Method), "|", joined(len(i.Topic)), "|")
ensures[legacy-none] joined(len(i.Topic)) == "" ==> last == concat(san(i.Service), "|", san(i.Method), "|")
ensures[legacy] result.Legacy == concat(last, san("STR"))
ensures[server] result.Server == srv && result.Local == loc

unit C01.claimrequest
property C01
func pkg/info.GetClaimRequestChannel
check index
check panics
havoc pkg/info.appendSanitizedChannelPart pkg/info.formatClientChannel
requires service != "" && clientID != ""
ghost cl string
on after (*sync.Pool).Get(p) -> (x)
  assume is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
maybe on call (*sync.Pool).Put(p, x)
  assert[returned-empty] is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
on after pkg/info.appendSanitizedChannelPart(b, s) -> (r)
  assume str(r) == concat(str(b), san(s)) && len(r) == len(b) + len(san(s)) && (s != "" ==> len(r) > len(b)) && (s == "" ==> len(r) == len(b))
on after pkg/info.formatClientChannel(s, c, k) -> (r)
  assert[of-client] s == service && c == clientID && k == "CLAIM"
  set cl = r
ensures[legacy] result.Legacy == concat(san(service), "|", san(clientID), "|", san("CLAIM"))
ensures[server] result.Server == cl && result.Local == ""

unit C01.clientstream
property C01
func pkg/info.GetStreamChannel
check index
check panics
havoc pkg/info.appendSanitizedChannelPart pkg/info.formatClientChannel
requires service != "" && nodeID != ""
ghost cl string
on after (*sync.Pool).Get(p) -> (x)
  assume is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
maybe on call (*sync.Pool).Put(p, x)
  assert[returned-empty] is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
on after pkg/info.appendSanitizedChannelPart(b, s) -> (r)
  assume str(r) == concat(str(b), san(s)) && len(r) == len(b) + len(san(s)) && (s != "" ==> len(r) > len(b)) && (s == "" ==> len(r) == len(b))
on after pkg/info.formatClientChannel(s, c, k) -> (r)
  assert[of-client] s == service && c == nodeID && k == "STR"
  set cl = r
ensures[legacy] result.Legacy == concat(san(service), "|", san(nodeID), "|", san("STR"))
ensures[server] result.Server == cl && result.Local == ""

unit C01.response
property C01
func pkg/info.GetResponseChannel
check index
check panics
havoc pkg/info.appendSanitizedChannelPart pkg/info.formatClientChannel
requires service != "" && clientID != ""
ghost cl string
on after (*sync.Pool).Get(p) -> (x)
  assume is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
maybe on call (*sync.Pool).Put(p, x)
  assert[returned-empty] is(x, *[]byte) && as(x, *[]byte) != nil && len(*as(x, *[]byte)) == 0
on after pkg/info.appendSanitizedChannelPart(b, s) -> (r)
  assume str(r) == concat(str(b), san(s)) && len(r) == len(b) + len(san(s)) && (s != "" ==> len(r) > len(b)) && (s == "" ==> len(r) == len(b))
on after pkg/info.formatClientChannel(s, c, k) -> (r)
  assert[of-client] s == service && c == clientID && k == "RES"
  set cl = r
ensures[legacy] result.Legacy == concat(san(service), "|", san(clientID), "|", san("RES"))
ensures[server] result.Server == cl && result.Local == ""

# an encoded character only uses plain characters and '+', which it never begins with, and no separator
unit C01.alphabet
property C01
lemma (r int): inre(chr(r), "[0-9A-Za-z_]")
given plain(r)

unit C01.alphabethex
property C01
lemma (d int): inre(hx(d), "[0-9a-f]")
given 0 <= d

unit C01.alphabetescape
property C01
lemma (a string, b string): inre(concat("u+", a), "[0-9A-Za-z_][0-9A-Za-z_+]*") && inre(concat("U+", b), "[0-9A-Za-z_][0-9A-Za-z_+]*")
given inre(a, "[0-9a-f][0-9a-f][0-9a-f][0-9a-f]")
given inre(b, "[0-9a-f][0-9a-f][0-9a-f][0-9a-f][0-9a-f][0-9a-f][0-9a-f][0-9a-f]")

# the encoding of a text can be read back: the first character is determined by
# what is written, whatever the rest (a rest never begins with '+')
unit C01.readplain
property C01
lemma (r int, q int, x string, y string): r == q && x == y
given plain(r) && plain(q)
given concat(chr(r), x) == concat(chr(q), y)

unit C01.readkind
property C01
lemma (r int, x string, a string, b string): concat(chr(r), x) != concat("u+", a) && concat(chr(r), x) != concat("U+", a) && concat("u+", a) != concat("U+", b)
given plain(r)
given !hasprefix(x, "+")

unit C01.readshort
property C01
lemma (a string, b string, x string, y string): a == b && x == y
given len(a) == 4 && len(b) == 4
given concat("u+", a, x) == concat("u+", b, y)

unit C01.readlong
property C01
lemma (a string, b string, x string, y string): a == b && x == y
given len(a) == 8 && len(b) == 8
given concat("U+", a, x) == concat("U+", b, y)

unit C01.readdigits
property C01
lemma (d0 int, d1 int, e0 int, e1 int): d0 % 16 == e0 % 16 && d1 % 16 == e1 % 16
given d0 >= 0 && d1 >= 0 && e0 >= 0 && e1 >= 0
given concat(hx(d1), hx(d0)) == concat(hx(e1), hx(e0))

# a number is determined by its last digit and the rest, and the rest's digits are the number's next ones
unit C01.readnumber
property C01
lemma (r int, q int): r == q
given 0 <= r && r <= 1114111 && 0 <= q && q <= 1114111
given r % 16 == q % 16 && r/16 == q/16

unit C01.readrest
property C01
lemma (r int): (r/16)/16 == r/256 && (r/256)/16 == r/4096 && (r/4096)/16 == r/65536 && (r/65536)/16 == r/1048576 && (r/1048576)/16 == 0
given 0 <= r && r <= 1114111

unit C01.buffer
property C01
func pkg/info.init$1
ensures[empty] is(result, *[]byte) && as(result, *[]byte) != nil && len(*as(result, *[]byte)) == 0

unit C01.endpoint
property C01
func (*pkg/info.ServiceDefinition).GetInfo
flag panics none
ensures[endpoint] result != nil && result.Service == s.Name && result.Method == rpc && result.Topic == topic
