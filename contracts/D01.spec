# D01: outgoing and incoming metadata

# the outgoing metadata of a context: a base map and pairs appended to it, in order
uninterp pairs(int) int
uninterp pkey(int) string
uninterp pval(int) string

unit D01.outgoing
property D01
func pkg/metadata.OutgoingContextMetadata
check index
check panics
given pairs(0) == 0
given forall(n, 0, len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added), pairs(n+1) == pairs(n) + len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added[n])/2)
given forall(n, 0, len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added), forall(j, 0, len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added[n])/2, pkey(pairs(n)+j) == as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added[n][2*j] && pval(pairs(n)+j) == as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added[n][2*j+1]))
requires as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md == nil ==> len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added) == 0
ghost w int
loop _i % 2 == 1
loop _i <= len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added[_o+1]) + 1
loop w == pairs(_i+1)
loop w == pairs(_o+1) + (_i-1)/2
loop _i % 2 == 0
loop _i <= len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added[_o+1])
loop w == pairs(_o+1) + _i/2
on mapset ...(m, k, v)
  assert[own-copy] m != as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md
  assert[in-order] k == pkey(w) && v == pval(w)
  set w = w + 1
ensures[unset] !is(ctx.Value(metadata.metadataKey{}), metadata.ctxMD) ==> result == nil
ensures[every-pair] is(ctx.Value(metadata.metadataKey{}), metadata.ctxMD) ==> w == pairs(len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added))
ensures[own-copy] result != nil ==> result != as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md

unit D01.replace
property D01
func pkg/metadata.NewContextWithOutgoingMetadata
check index
check panics
ensures[base] is(result.Value(metadata.metadataKey{}), metadata.ctxMD) && len(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).added) == 0
ensures[same] md != nil ==> forall(k, string, has(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md, k) == has(md, k) && (has(md, k) ==> as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md[k] == md[k]))
ensures[unset] md == nil ==> as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md == nil
ensures[own-copy] md != nil ==> as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md != md

# set on top of everything that was set or appended before
unit D01.set
property D01
func pkg/metadata.WithOutgoingMetadata
check index
check panics
havoc pkg/metadata.OutgoingContextMetadata
ghost wk gmap[string]bool
ghost wv gmap[string]string
ghost got bool
ghost om metadata.Metadata
on after pkg/metadata.OutgoingContextMetadata(c) -> (m)
  set om = m
  assert[of-parent] c == ctx
  assume foreign(m) && m != md && m != as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md
  set got = m != nil
  set wk = domof(m)
  set wv = valof(m)
loop forall(k, string, has(_m, k) == (wk[k] && visited(om)[k]))
loop forall(k, string, has(_m, k) ==> _m[k] == wv[k])
loop forall(k, string, has(_m, k) == (wk[k] || has(md, k) && visited(md)[k]))
loop forall(k, string, has(md, k) && visited(md)[k] ==> _m[k] == md[k])
loop forall(k, string, wk[k] && !(has(md, k) && visited(md)[k]) ==> _m[k] == wv[k])
ensures[nothing-to-add] len(md) == 0 ==> result == ctx
ensures[base] len(md) > 0 ==> is(result.Value(metadata.metadataKey{}), metadata.ctxMD) && len(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).added) == 0
ensures[later-wins] len(md) > 0 ==> forall(k, string, has(md, k) ==> has(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md, k) && as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md[k] == md[k])
ensures[keeps-earlier] len(md) > 0 && got ==> forall(k, string, !has(md, k) ==> has(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md, k) == wk[k] && (wk[k] ==> as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md[k] == wv[k]))
ensures[first] len(md) > 0 && !got ==> forall(k, string, !has(md, k) ==> !has(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md, k))
ensures[own-copy] len(md) > 0 ==> as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md != md && as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md != as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md
ensures[parent-unchanged] forall(k, string, has(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md, k) == old(has(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md, k)) && as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md[k] == old(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md[k]))
ensures[argument-unchanged] forall(k, string, has(md, k) == old(has(md, k)) && md[k] == old(md[k]))

unit D01.append
property D01
func pkg/metadata.AppendMetadataToOutgoingContext
check index
check panics
given as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md == nil ==> len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added) == 0
ensures[nothing-to-add] len(kv) == 0 ==> result == ctx
ensures[added] len(kv) > 0 ==> is(result.Value(metadata.metadataKey{}), metadata.ctxMD)
ensures[base-kept] len(kv) > 0 && as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md != nil && is(ctx.Value(metadata.metadataKey{}), metadata.ctxMD) ==> as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md == as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md
ensures[base-empty] len(kv) > 0 && (as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).md == nil || !is(ctx.Value(metadata.metadataKey{}), metadata.ctxMD)) ==> as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md != nil && len(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).md) == 0
ensures[appended-last] len(kv) > 0 && is(ctx.Value(metadata.metadataKey{}), metadata.ctxMD) ==> len(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).added) == len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added) + 1
ensures[pairs] len(kv) > 0 && is(ctx.Value(metadata.metadataKey{}), metadata.ctxMD) ==> len(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).added[len(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).added)-1]) == len(kv) && forall(j, 0, len(kv), as(result.Value(metadata.metadataKey{}), metadata.ctxMD).added[len(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).added)-1][j] == kv[j])
ensures[earlier-kept] len(kv) > 0 && is(ctx.Value(metadata.metadataKey{}), metadata.ctxMD) ==> forall(j, 0, len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added), as(result.Value(metadata.metadataKey{}), metadata.ctxMD).added[j] == as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added[j])
ensures[parent-unchanged] forall(j, 0, len(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added), as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added[j] == old(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added[j]))
ensures[own-list] len(kv) > 0 ==> ref(as(result.Value(metadata.metadataKey{}), metadata.ctxMD).added) != ref(as(ctx.Value(metadata.metadataKey{}), metadata.ctxMD).added)

unit D01.incoming
property D01
func pkg/metadata.IncomingHeader
check index
check panics
ensures[none] !is(ctx.Value(metadata.headerKey{}), *metadata.Header) ==> result == nil
ensures[header] is(ctx.Value(metadata.headerKey{}), *metadata.Header) && as(ctx.Value(metadata.headerKey{}), *metadata.Header) != nil ==> result != nil && result.RemoteID == as(ctx.Value(metadata.headerKey{}), *metadata.Header).RemoteID && result.SentAt == as(ctx.Value(metadata.headerKey{}), *metadata.Header).SentAt
ensures[own-copy] result != nil && result.Metadata != nil ==> val(result) != val(ctx.Value(metadata.headerKey{})) && result.Metadata != as(ctx.Value(metadata.headerKey{}), *metadata.Header).Metadata
ensures[metadata] result != nil ==> forall(k, string, has(result.Metadata, k) == has(as(ctx.Value(metadata.headerKey{}), *metadata.Header).Metadata, k) && result.Metadata[k] == as(ctx.Value(metadata.headerKey{}), *metadata.Header).Metadata[k])

unit D01.setincoming
property D01
func pkg/metadata.NewContextWithIncomingHeader
check index
check panics
ensures[header] as(result.Value(metadata.headerKey{}), *metadata.Header) == head && is(result.Value(metadata.headerKey{}), *metadata.Header)

# requests carry the metadata of the caller's context
unit D01.request
property D01
func pkg/client.RequestSingle
check index
check panics
havoc @client pkg/client.selectServer pkg/metadata.OutgoingContextMetadata
pure @names
ghost mc context.Context
ghost m metadata.Metadata
ghost c0 context.Context
ghost sent int
on enter psrpc.ClientRPCHandler(ctx, req, opts)
  set c0 = ctx
on after pkg/metadata.OutgoingContextMetadata(c) -> (r)
  set mc = c
  set m = r
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Request)
  assert[of-caller] mc == c0
  assert[metadata] as(msg, *internal.Request).Metadata == m
  assert[client] as(msg, *internal.Request).ClientId == c.ID

unit D01.multi
property D01
func pkg/client.RequestMulti
check index
check panics
havoc @client pkg/metadata.OutgoingContextMetadata
pure @names
ghost mc context.Context
ghost m metadata.Metadata
ghost c0 context.Context
on enter (psrpc.ClientMultiRPCHandler).Send(ctx, req, opts)
  set c0 = ctx
on after pkg/metadata.OutgoingContextMetadata(c) -> (r)
  set mc = c
  set m = r
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Request)
  assert[of-caller] mc == c0
  assert[metadata] as(msg, *internal.Request).Metadata == m
  assert[client] as(msg, *internal.Request).ClientId == c.ID

unit D01.open
property D01
func pkg/client.OpenStream
check index
check panics
havoc @client pkg/client.selectServer pkg/metadata.OutgoingContextMetadata
pure @names
flag nocallbacks *
flag nothreads *
ghost mc context.Context
ghost m metadata.Metadata
on after pkg/metadata.OutgoingContextMetadata(c) -> (r)
  set mc = c
  set m = r
on call (internal/bus.MessageBus).Publish(b, pc, ch, msg) when is(msg, *internal.Stream) && is(as(msg, *internal.Stream).Body, *internal.Stream_Open)
  assert[of-caller] mc == ctx
  assert[metadata] as(as(msg, *internal.Stream).Body, *internal.Stream_Open).Open.Metadata == m
  assert[client] as(as(msg, *internal.Stream).Body, *internal.Stream_Open).Open.NodeId == c.ID

# the handler's context has the request's metadata, client id and send time as its header
unit D01.server
property D01
func pkg/server.RegisterHandler
check index
havoc @server @respond
pure @names
ghost ir *internal.Request
ghost inner bool
on recv chan *internal.Request(ch, m, ok)
  set ir = m
on enter psrpc.ServerRPCHandler(ctx, req)
  set inner = true
on call psrpc.ServerRPCInterceptor(hc, req, inf, next)
  assert[header] is(hc.Value(metadata.headerKey{}), *metadata.Header)
  assert[client] as(hc.Value(metadata.headerKey{}), *metadata.Header).RemoteID == ir.ClientId
  assert[sent-at] as(hc.Value(metadata.headerKey{}), *metadata.Header).SentAt == time.Unix(0, ir.SentAt)
  assert[metadata] as(hc.Value(metadata.headerKey{}), *metadata.Header).Metadata == ir.Metadata
on call func(hc, req) when callee == val(svcImpl) && !inner
  assert[header] is(hc.Value(metadata.headerKey{}), *metadata.Header)
  assert[client] as(hc.Value(metadata.headerKey{}), *metadata.Header).RemoteID == ir.ClientId
  assert[sent-at] as(hc.Value(metadata.headerKey{}), *metadata.Header).SentAt == time.Unix(0, ir.SentAt)
  assert[metadata] as(hc.Value(metadata.headerKey{}), *metadata.Header).Metadata == ir.Metadata

unit D01.stream
property D01
func pkg/server.RegisterStreamHandler
check index
check panics
havoc @server
pure @names
flag nocallbacks *
ghost is *internal.Stream
on recv chan *internal.Stream(ch, m, ok)
  set is = m
on call func(ss) when callee == val(svcImpl)
  assert[header] is(ss.Context().Value(metadata.headerKey{}), *metadata.Header)
  assert[client] as(ss.Context().Value(metadata.headerKey{}), *metadata.Header).RemoteID == as(is.Body, *internal.Stream_Open).Open.NodeId
  assert[sent-at] as(ss.Context().Value(metadata.headerKey{}), *metadata.Header).SentAt == time.Unix(0, is.SentAt)
  assert[metadata] as(ss.Context().Value(metadata.headerKey{}), *metadata.Header).Metadata == as(is.Body, *internal.Stream_Open).Open.Metadata
