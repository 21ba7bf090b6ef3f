prop("P08", "Circuit breakers shed exactly the traffic of failing subgraphs",
     "With a circuit breaker enabled for a subgraph: while it is closed every call is sent; it opens when, after volume_threshold outcomes are known, an outcome brings the share of failures among the last volume_threshold outcomes to error_threshold or more; while it is open every call to that subgraph is answered at once with a circuit breaker error and nothing is sent, until reset_timeout has passed; then probes are let through, and after half_open_attempts of them an outcome closes it (share of failures not above the threshold) or opens it again. Failures are transport errors, timeouts, unreadable bodies and the configured status codes (500, 502, 503, 504 by default), nothing else; each call counts once; the response of a counted failure still reaches the client as it would without a breaker. Breakers of different subgraphs do not influence each other, and per-subgraph settings override the global ones field by field.",
     "histories schedules fault_sequences configurations", "all sequences and overlappings of calls with all outcomes x thresholds x timings",
     "Tests drive one breaker through one hand-written sequence with long pauses; sliding windows, overlapping calls, several subgraphs and setting inheritance are not sampled.",
     "bin/router/src/executor/executors/map.rs bin/router/src/config/traffic_shaping.rs lib/hive-console-sdk/src/circuit_breaker.rs",
     [dict(name="per-subgraph breaker around executor calls", where="executor/executors/map.rs")],
     TV, "CircuitBreaker.tla checked exhaustively (containment, recovery under fairness); recorded histories with random outcomes, overlaps and pauses validated with TraceBreaker.tla (times as intervals). " + BB)
prop("P09", "Supergraph reloads are atomic, never go back and always catch up",
     "Every request is answered entirely by one supergraph version (schema, plan, subgraph addresses, authorization rules, caches), one that was in service at some moment between its arrival and its answer; a version older than one already seen in service is never used for a new request. A supergraph that cannot be used (unreadable, not GraphQL, inconsistent, missing) never replaces the one in service and never stops later ones from being loaded; failed or broken-off polls of the source are retried, and once the source is stable its newest valid version gets into service. Until the first valid supergraph is in service requests are refused and readiness says so. Subscriptions of a version that went out of service are ended.",
     "histories schedules crash_points fault_sequences", "all sequences of source contents, poll failures and concurrent requests",
     "Tests swap the supergraph once between two requests; requests that straddle a swap, broken versions, broken-off downloads and repeated swaps are not sampled.",
     "bin/router/src/schema_state.rs bin/router/src/supergraph lib/hive-console-sdk/src/supergraph_fetcher",
     [dict(name="configured supergraph swap", where="schema_state.rs"), dict(name="pollers with etag / id / mtime", where="supergraph/{file,hive,apollo_graphos}.rs, supergraph_fetcher")],
     TV, "Reload.tla with a polling loader whose transfers may break off (MCReload) is checked exhaustively; histories of the real router fed from a file, a CDN and an uplink mock with faults, under concurrent requests and subscriptions, are validated with TraceReload.tla. " + BB)
prop("P10", "Only requests with a currently valid token are treated as authenticated",
     "With JWT authentication configured, the identity and claims a request acts under (authorization, forwarded claims, extensions) come from the first token found at the configured lookup locations, and only if that token is signed with a key that a configured JWKS provider currently offers for that key id and algorithm, uses an allowed algorithm, carries a configured issuer and audience where those are required, and has an expiry date that has not passed (60 s of clock skew). Every such token is accepted whichever provider holds its key and whatever other keys the providers list. With require_authentication every other request is refused and causes no subgraph request; without it, it proceeds as anonymous. Identities never leak between requests: not through the token cache, key rotation or deduplication.",
     "token_contents key_sets histories schedules configurations", "all tokens x key sets x rotations x cache states x concurrent requests",
     "Tests use one provider with one key and a handful of tokens; several providers, rotation, near-expiry tokens, repeated tokens, unusual key sets and concurrent identities are not sampled.",
     "bin/router/src/jwt bin/router/src/config/jwt_auth.rs bin/router/src/executor",
     [dict(name="token lookup and validation", where="jwt/mod.rs"), dict(name="JWKS providers and polling", where="jwt/jwks_manager.rs")],
     TV, "Jwt.tla (which tokens must / may be accepted, as a function of key sets, configuration and time) with a caching verifier checked exhaustively (MCJwt); histories with random keys, providers, rotations, forged and expiring tokens and repeated and concurrent requests are validated with TraceJwt.tla. " + BB)
prop("P11", "Subscribers receive every event in order, and nothing is left running",
     "Over every transport (clients: SSE, Apollo multipart, incremental-delivery multipart, graphql-transport-ws; subgraphs: SSE, multipart, websocket with and without shared connections, HTTP callback), whatever the chunking, line endings, heartbeats and text of the events: an open subscriber receives the values its subgraph emitted since it was subscribed (the one it was opened for from the first value on), each once, in order, with the content a query would have given (including nulls and errors of entity resolution); values are only skipped when the subscriber fell behind by more than the broadcast capacity. It is ended exactly when its upstream ended: completed after all values when the subgraph completed, with an error when it failed, and it is never ended otherwise. Identical subscriptions share one upstream only if deduplication is enabled (and their headers match where these count) and then do; an upstream is not ended while somebody uses it and is ended when nobody does, even one that stays silent and even if the client left while it was being started. Callback messages with a wrong verifier, id or header are refused.",
     "histories schedules inputs configurations", "all interleavings of emissions, joins, leaves and ends x transports x chunkings x contents",
     "Tests subscribe one client to a subgraph that emits a fixed list; joins and leaves at arbitrary moments, chunk splits, hostile event texts, silent upstreams and shared upstreams across transports are not sampled.",
     "bin/router/src/pipeline/mod.rs bin/router/src/shared_state.rs bin/router/src/pipeline/active_subscriptions.rs bin/router/src/executor/executors bin/router/src/pipeline/websocket_server.rs bin/router/src/pipeline/sse.rs bin/router/src/pipeline/multipart_subscribe.rs",
     [dict(name="broadcast pump and shared responses", where="pipeline/mod.rs, shared_state.rs"), dict(name="upstream transports", where="executor/executors/{sse,multipart_subscribe,websocket*,http_callback}.rs"), dict(name="client transports", where="pipeline/{sse,multipart_subscribe,websocket_server}.rs")],
     TV, "Subscription.tla (broadcast with bounded lag, sharing, leaving) checked exhaustively for 2 and 3 clients (MCSubscription); histories with random clients, transports, values, chunkings, ends and departures are validated with TraceSubscription.tla, with quiet points at which everything must have settled. " + BB)
