# Z01: shared tables only under their locks; locks released; one order
#
# Every unit runs its function (and the callbacks and goroutines it makes) with every access to a
# guarded table and every lock operation checked; together the units must come past every such place
# in the module ("cover" below), so a table is not touched anywhere else.

guard internal/bus.redisWriteOpQueue.mu: ops
guard pkg/rand.lockedRandSource.mu: src
cover Z01 except testutils

# clients
unit Z01.client.new
property Z01
func pkg/client.NewRPCClientWithStreams
check guards
check locks
check lockorder
havoc @names
havoc internal/bus.Subscribe

unit Z01.client.single
property Z01
func pkg/client.RequestSingle
check guards
check locks
check lockorder
havoc @names
havoc @client pkg/client.selectServer

unit Z01.client.multi
property Z01
func pkg/client.RequestMulti
check guards
check locks
check lockorder
havoc @names
havoc @client

unit Z01.client.open
property Z01
func pkg/client.OpenStream
check guards
check locks
check lockorder
havoc @names
havoc @client pkg/client.selectServer internal/stream.NewStream

unit Z01.client.streamclose
property Z01
func (*pkg/client.clientStream).Close
check guards
check locks
check lockorder
havoc @names

unit Z01.client.close
property Z01
func (*pkg/client.RPCClient).Close
check guards
check locks
check lockorder
havoc @names

# servers
unit Z01.server.new
property Z01
func pkg/server.NewRPCServer
check guards
check locks
check lockorder
havoc @names

unit Z01.server.register
property Z01
func pkg/server.RegisterHandler
check guards
check locks
check lockorder
havoc @names
havoc @server @respond

unit Z01.server.unregister
property Z01
func pkg/server.RegisterHandler
check guards
check locks
check lockorder
havoc @names
havoc @server @respond
flag nothreads *
flag nocallbacks *
flag explore hd
ghost hd server.rpcHandler
on mapset map[string]pkg/server.rpcHandler(m, k, v)
  set hd = v

unit Z01.server.registerstream
property Z01
func pkg/server.RegisterStreamHandler
check guards
check locks
check lockorder
havoc @names
havoc @server internal/stream.NewStream

unit Z01.server.unregisterstream
property Z01
func pkg/server.RegisterStreamHandler
check guards
check locks
check lockorder
havoc @names
havoc @server internal/stream.NewStream
flag nothreads *
flag nocallbacks *
flag explore hd
ghost hd server.rpcHandler
on mapset map[string]pkg/server.rpcHandler(m, k, v)
  set hd = v

unit Z01.server.deregister
property Z01
func (*pkg/server.RPCServer).DeregisterHandler
check guards
check locks
check lockorder
havoc @names
havoc (*pkg/info.ServiceDefinition).GetInfo

unit Z01.server.close
property Z01
func (*pkg/server.RPCServer).Close
check guards
check locks
check lockorder
havoc @names

unit Z01.server.closehandler
property Z01
func (*pkg/server.rpcHandlerImpl).close
check guards
check locks
check lockorder
havoc @names

unit Z01.server.closestream
property Z01
func (*pkg/server.streamHandler).close
check guards
check locks
check lockorder
havoc @names

unit Z01.server.streamclose
property Z01
func (*pkg/server.serverStream).Close
check guards
check locks
check lockorder
havoc @names

# streams
unit Z01.stream.new
property Z01
func internal/stream.NewStream
check guards
check locks
check lockorder
havoc @names
havoc internal/interceptors.ChainClientInterceptors
flag nocallbacks *

unit Z01.stream.send
property Z01
func (*internal/stream.streamBase).Send
check guards
check locks
check lockorder
havoc @names
havoc internal/bus.SerializePayload @ids internal/stream.getStreamOpts

unit Z01.stream.handle
property Z01
func (*internal/stream.stream).HandleStream
check guards
check locks
check lockorder
havoc @names
havoc internal/bus.DeserializePayload

unit Z01.stream.recv
property Z01
func (*internal/stream.streamBase).Recv
check guards
check locks
check lockorder
havoc @names

unit Z01.stream.close
property Z01
func (*internal/stream.streamBase).Close
check guards
check locks
check lockorder
havoc @names
havoc @ids
flag split (psrpc.Error)...

unit Z01.stream.hijack
property Z01
func (*internal/stream.stream).Hijack
check guards
check locks
check lockorder
havoc @names

unit Z01.stream.hijacked
property Z01
func (*internal/stream.stream).Hijacked
check guards
check locks
check lockorder
havoc @names

unit Z01.stream.err
property Z01
func (*internal/stream.streamBase).Err
check guards
check locks
check lockorder
havoc @names

# buses
unit Z01.local.new
property Z01
func internal/bus.NewLocalMessageBus
check guards
check locks
check lockorder
havoc @names

unit Z01.local.publish
property Z01
func (*internal/bus.localMessageBus).Publish
check guards
check locks
check lockorder
havoc @names
havoc internal/bus.serialize (*internal/bus.localSubscription).write

unit Z01.local.subscribe
property Z01
func (*internal/bus.localMessageBus).Subscribe
check guards
check locks
check lockorder
havoc @names
flag explore result0

unit Z01.local.subscribequeue
property Z01
func (*internal/bus.localMessageBus).SubscribeQueue
check guards
check locks
check lockorder
havoc @names
flag explore result0

unit Z01.redis.new
property Z01
func internal/bus.NewRedisMessageBus
check guards
check locks
check lockorder
havoc @names
havoc (*internal/bus.redisSubscription).write internal/bus.newRedisPublishQueue

unit Z01.redis.queue
property Z01
func internal/bus.newRedisPublishQueue
check guards
check locks
check lockorder
havoc @names

unit Z01.redis.publish
property Z01
func (*internal/bus.redisMessageBus).Publish
check guards
check locks
check lockorder
havoc @names
havoc internal/bus.serialize

unit Z01.redis.subscribe
property Z01
func (*internal/bus.redisMessageBus).Subscribe
check guards
check locks
check lockorder
havoc @names

unit Z01.redis.subscribequeue
property Z01
func (*internal/bus.redisMessageBus).SubscribeQueue
check guards
check locks
check lockorder
havoc @names

unit Z01.redis.close
property Z01
func (*internal/bus.redisSubscription).Close
check guards
check locks
check lockorder
havoc @names

unit Z01.redis.reconcile
property Z01
func (*internal/bus.redisReconcileSubscriptionsOp).run
check guards
check locks
check lockorder
havoc @names

unit Z01.redis.drain
property Z01
func (*internal/bus.redisWriteOpQueue).drain
check guards
check locks
check lockorder
havoc @names

unit Z01.redis.empty
property Z01
func (*internal/bus.redisWriteOpQueue).empty
check guards
check locks
check lockorder
havoc @names

unit Z01.nats.new
property Z01
func internal/bus.NewNatsMessageBus
check guards
check locks
check lockorder
havoc @names

unit Z01.nats.publish
property Z01
func (*internal/bus.natsMessageBus).Publish
check guards
check locks
check lockorder
havoc @names
havoc internal/bus.serialize

unit Z01.nats.subscribe
property Z01
func (*internal/bus.natsMessageBus).Subscribe
check guards
check locks
check lockorder
havoc @names
havoc internal/bus.deserializeChannel

unit Z01.nats.subscribequeue
property Z01
func (*internal/bus.natsMessageBus).SubscribeQueue
check guards
check locks
check lockorder
havoc @names
havoc internal/bus.deserializeChannel

unit Z01.nats.close
property Z01
func (*internal/bus.natsSubscription).Close
check guards
check locks
check lockorder
havoc @names

unit Z01.nats.closerouted
property Z01
func (*internal/bus.natsRouterSubscription).Close
check guards
check locks
check lockorder
havoc @names

# identifiers
unit Z01.rand.next
property Z01
func (*pkg/rand.lockedRandSource).Int63
check guards
check locks
check lockorder
havoc @names

unit Z01.rand.seed
property Z01
func (*pkg/rand.lockedRandSource).Seed
check guards
check locks
check lockorder
havoc @names
