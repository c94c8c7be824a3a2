# functions that contracts about their callers treat as unknown (havoc) or as unknown but
# deterministic (pure); what they return is under contract in the property named
#   GetInfo, channel names: C01; identifiers: N01; payloads: B05; option merging: R02, I01
group ids pkg/rand.NewRequestID pkg/rand.NewStreamID
group client (*pkg/info.ServiceDefinition).GetInfo internal/bus.SerializePayload internal/bus.DeserializePayload pkg/client.getRequestOpts pkg/client.getRequestInterceptors internal/interceptors.ChainClientInterceptors pkg/rand.NewRequestID pkg/rand.NewStreamID
group server internal/bus.Subscribe internal/bus.SubscribeQueue (*pkg/info.ServiceDefinition).GetInfo internal/bus.SerializePayload internal/bus.DeserializePayload pkg/rand.NewRequestID internal/interceptors.ChainClientInterceptors
group names (*pkg/info.RequestInfo)... pkg/info.Get...
group respond (*pkg/server.rpcHandlerImpl).sendResponse
# what each lock guards: other goroutines may change it whenever the lock is not held
guard pkg/client.RPCClient.mu: claimRequests, responseChannels, streamChannels
guard pkg/server.RPCServer.mu: handlers, closed
guard pkg/server.rpcHandlerImpl.mu: claims
guard pkg/server.streamHandler.mu: claims, streams
