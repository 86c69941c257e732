TECH = "deterministic simulation: seeded search over schedules and faults of the real code, checked against a reference model"


def q(over, text):
    return {"over": over, "text": text}


def a(files, *mech, **kw):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    d.update(kw)
    return d


NOTE = ("Sampled: a clean batch is evidence, not proof. Seeded executions of the real sources under a simulator that decides task and thread "
        "scheduling, timers and every fault; switches happen at lock, atomic and await points (sequentially consistent). ")

PROPS = [
    dict(
        id="C01",
        title="Request deduplication is single-flight and shares only the right result",
        statement="Concurrent deduplicated calls with equal keys run the work at most once at any time, and every call made while that work is in flight gets exactly the result (value or error) that work produced. "
        "No call ever gets the result of another key, a result nobody produced, or, when results are not persisted, the result of work whose own caller had already been answered before the call was made. "
        "When results are persisted, the work of a key completes at most once and every later call for that key gets the same result.",
        quantifier=q(["schedules", "fault_sequences", "histories"], "all interleavings of calls on one or several threads, work durations, failing, panicking and cancelled calls"),
        why_tests_cant="The unit tests run one join of a few calls on one schedule; the race between a finishing call, a cancelled one and an arriving one needs particular interleavings.",
        anchors=a(["src/core/data_loader/dedupe.rs", "src/core/http/mod.rs", "src/core/ir/eval_io.rs", "src/core/jit/graphql_executor.rs"],
                  ("DedupeResult: per-key state Pending/Ready, weak broadcast sender", "src/core/data_loader/dedupe.rs"),
                  observe_at=["DedupeResult::dedupe"]),
        level_note=NOTE + "Oracle: history check of every call against the recorded executions of the work.",
    ),
    dict(
        id="C02",
        title="A deduplicated call always makes progress when others fail or disconnect",
        statement="A deduplicated call that is waiting for another call's work never hangs: if that work is cancelled (its client disconnected) or panics, a waiting call runs its own work at once and returns, and the waiter itself does not panic. "
        "Later calls for that key work as if nothing had happened.",
        quantifier=q(["schedules", "fault_sequences", "crash_points"], "every point at which the executing call can be dropped or panic, with any number of waiters and schedules"),
        why_tests_cant="Tests cover one abort at a fixed sleep; the cancellation point relative to the waiters' own steps is unbounded.",
        anchors=a(["src/core/data_loader/dedupe.rs"],
                  ("weak sender upgraded by waiters, retry when the channel closes", "src/core/data_loader/dedupe.rs"),
                  observe_at=["DedupeResult::dedupe"]),
        level_note=NOTE + "Liveness: a run that ends with a waiting call, or a call that waits in simulated time while nothing executes for its key, is a violation.",
    ),
    dict(
        id="C03",
        title="Batched loads give each caller its own keys' values and its own batch's error",
        statement="Every batched load returns, for each key asked for and only for those, the value that a batch containing that key loaded for that key after the call was made, and omits a key only if the batch that loaded it had no value for it. "
        "A failing batch fails exactly the calls it served, with its error; a call whose keys are in no failed batch succeeds. "
        "Every call whose batch completes is answered, also when other callers of the batch were cancelled.",
        quantifier=q(["schedules", "fault_sequences", "histories"], "all interleavings of load calls, batch timers, batch completions, failures, missing values, panics and cancelled callers, including keys with colliding hashes"),
        why_tests_cant="Unit tests load fixed keys with one caller pattern; misrouting needs batches that overlap in time with other batches, failures or cancelled callers.",
        anchors=a(["src/core/data_loader/data_loader.rs", "src/core/data_loader/loader.rs"],
                  ("pending key set and waiters per key type, oneshot per caller", "src/core/data_loader/data_loader.rs"),
                  observe_at=["DataLoader::load_many", "DataLoader::load_one"]),
        level_note=NOTE + "Oracle: every value is tagged with the batch that produced it; each call's result is checked against the recorded batches.",
    ),
    dict(
        id="C04",
        title="Batching: nothing loaded twice, no empty batch, size and delay limits kept",
        statement="A batch is never empty and never asks for a key twice, a key is loaded only for a call that no other batch served, and a batch never exceeds its size limit by a whole call's worth of keys. "
        "A batch that reaches its size limit leaves at once, every other batch leaves no later than the configured delay after each of its calls was made, and calls that wait at the same time leave in the same batch. "
        "A call is answered as soon as its batch completes.",
        quantifier=q(["schedules", "fault_sequences", "configurations"], "all arrival patterns of calls around the delay and size limit, delays including zero, limits including one, cancelled callers and failing batches"),
        why_tests_cant="Tests use one delay and check final values; lost or doubled batches appear only when arrivals race with the timer or the size limit.",
        anchors=a(["src/core/data_loader/data_loader.rs"],
                  ("immediate load at max_batch_size, delayed load task otherwise", "src/core/data_loader/data_loader.rs"),
                  observe_at=["DataLoader::load_many", "Loader::load"]),
        level_note=NOTE + "Oracle: conservation and timing check of every recorded batch in simulated time.",
    ),
    dict(
        id="C05",
        title="The batch loader's cache never serves a cleared, overwritten or disabled entry",
        statement="With caching on, a load returns a value that was loaded or fed for that key and not certainly overwritten by a later feed, cleared, or disabled before the load; a key that certainly is in the enabled cache when every call for it was made is not loaded again. "
        "A dump of the cache shows every fed key that was not cleared since.",
        quantifier=q(["schedules", "histories", "fault_sequences"], "all interleavings of load, feed, clear, enable/disable and dump operations with batches in flight"),
        why_tests_cant="Unit tests run cache operations one after another; here they race with batches that insert when they finish.",
        anchors=a(["src/core/data_loader/data_loader.rs", "src/core/data_loader/cache.rs", "src/core/data_loader/storage.rs", "src/core/data_loader/factory.rs"],
                  ("cache storage behind the loader's lock", "src/core/data_loader/cache.rs"),
                  observe_at=["DataLoader::{load_many,feed_many,clear,enable_cache,enable_all_cache,get_cached_values}"]),
        level_note=NOTE + "Oracle: interval check (an entry is judged stale or missing only when every order of the recorded operations makes it so).",
    ),
    dict(
        id="C06",
        title="The in-memory TTL cache is linearizable and never serves an expired entry",
        statement="Concurrent gets and sets on the shared response cache behave like a sequential map: a get returns the last value set for exactly that key, unless its time to live has elapsed, and misses a live entry only when at least as many other keys as the capacity were set after it. "
        "Wall-clock jumps change nothing, the number of live entries never exceeds the capacity, and the reported hit rate equals hits divided by lookups.",
        quantifier=q(["schedules", "histories", "fault_sequences"], "all interleavings of operations on several threads, TTLs around each other, wall-clock jumps, capacities"),
        why_tests_cant="The tests sleep for one TTL on one task; expiry boundaries and concurrent hit counting need controlled clocks and schedules.",
        anchors=a(["src/core/cache/cache.rs"],
                  ("ttl_cache behind an RwLock, hit/miss counters", "src/core/cache/cache.rs"),
                  observe_at=["InMemoryCache::{set,get,hit_rate}"]),
        level_note=NOTE + "Oracle: Wing-Gong linearizability check per key against a one-entry model with expiry, on the simulated clock.",
    ),
    dict(
        id="C07",
        title="The HTTP response cache serves only the right, still valid response",
        statement="However requests overlap, an upstream response is served again only for the same method and URL, while it is fresh by its own cache-control and matches its vary header, and not after a later POST to that URL has been answered; a response marked no-store is never served again. "
        "The store itself behaves like a sequential map with put, get, delete and clear that keeps response and policy together, drops a live entry only when at least as many other keys as its capacity were used after it, and never holds more than its capacity. "
        "While a fresh response is stored the upstream is not asked, an upstream failure is never stored, and a disconnecting client disturbs no other.",
        quantifier=q(["schedules", "histories", "fault_sequences"], "overlapping requests and store operations of several clients, capacities, lifetimes from seconds to hours, upstream failures, latencies and disconnects"),
        why_tests_cant="The tests put and get single entries on one task; validity depends on the order of overlapping requests, evictions and the passing of time.",
        anchors=a(["tailcall-http-cache/src/cache.rs"],
                  ("moka cache with LRU eviction behind CacheManager", "tailcall-http-cache/src/cache.rs"),
                  observe_at=["HttpCacheManager::{get,put,delete,clear}", "reqwest-middleware client"]),
        level_note=NOTE + "Oracle: linearizability per key with an eviction allowance, and the freshness rules over the recorded calls. A request whose own upstream call failed may get a stale entry.",
    ),
    dict(
        id="C10",
        title="Every response holds exactly what its own query asked of the upstream",
        statement="However requests overlap, and whatever batching, deduplication and ways of resolving relations are configured, each response to a query has exactly the selected fields (aliases, fragments, @skip/@include, variables applied), each object in it is the one the query's arguments and the upstream's data call for, and every value was delivered by an upstream call made for that very resource during the request (or during a request it shares work with). "
        "The gateway makes no upstream call that no running request needs, never asks for one thing more often than the requests together need it, keeps batches within their size limit, and answers in time bounded by the upstream's latencies.",
        quantifier=q(["inputs", "schedules", "histories", "configurations"], "random queries from several clients, all interleavings, upstream latencies, batch sizes and delays, dedupe per resolver, resolution by path, query, grouped, body-batched, @call and upstream GraphQL"),
        why_tests_cant="The execution specs run one request at a time against fixed mocks; cross-request mixing and per-path placement of values need overlapping requests and answers that can be traced to the call that produced them.",
        anchors=a(["src/core/jit/exec.rs", "src/core/jit/exec_const.rs", "src/core/jit/synth/synth.rs", "src/core/ir/eval.rs", "src/core/ir/eval_io.rs", "src/core/ir/eval_http.rs", "src/core/http/data_loader.rs", "src/core/graphql/data_loader.rs", "src/core/http/request_handler.rs"],
                  ("JIT executor and store, synthesis of the response", "src/core/jit"), ("upstream calls through data loaders and dedupe", "src/core/ir/eval_io.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE + "Oracle: a reference executor over the upstream's data; every upstream answer carries the number of the call, so each value is attributed to one call.",
    ),
    dict(
        id="C11",
        title="Upstream faults are reported where they belong and never turn into wrong data",
        statement="When upstream calls fail (connection errors, error statuses, garbage, truncated or empty bodies, missing rows, hangs), every client still gets an HTTP 200 GraphQL response: either correct complete data, or null data with errors. "
        "A request is failed only by a call it depends on or by a call in the same batch of the same resolver; the error reported is one that such a call produced; a failed or partial answer never shows up as data of another object; nothing waits longer than the upstream does.",
        quantifier=q(["fault_sequences", "schedules", "configurations", "inputs"], "every placement of the fault kinds over the upstream calls of overlapping requests, under all batching and dedupe configurations"),
        why_tests_cant="Tests inject one fixed failure into one request; who is affected by a failure depends on which requests share batches and in-flight work when it strikes.",
        anchors=a(["src/core/ir/eval_http.rs", "src/core/http/data_loader.rs", "src/core/graphql/data_loader.rs", "src/core/jit/exec.rs", "src/core/jit/response.rs", "src/core/data_loader/data_loader.rs"],
                  ("errors through data loaders to the store and the response", "src/core/http/data_loader.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE + "Error messages carry the number of the failing call, so blame is checked per call.",
    ),
    dict(
        id="C12",
        title="After faults and disconnects stop, every request is served again",
        statement="Whatever upstream faults, hangs and client disconnects happened before, at whatever point they hit requests in flight, once the upstream is healthy every request that was ever sent gets a correct response again when it is repeated, within the upstream's latency; no deduplication entry, batch, plan or cache entry left behind blocks or poisons it.",
        quantifier=q(["fault_sequences", "crash_points", "schedules"], "every cancellation point of requests, with sharing requests in flight, and fault sequences before the probe"),
        why_tests_cant="A leaked in-flight entry or lost batch shows only when a client goes away at particular steps and others follow.",
        anchors=a(["src/core/data_loader/dedupe.rs", "src/core/data_loader/data_loader.rs", "src/core/jit/graphql_executor.rs", "src/core/ir/eval_io.rs"],
                  ("operation and IO dedupe, data loader requests", "src/core/data_loader"),
                  observe_at=["handle_request"]),
        level_note=NOTE + "Liveness: bounded simulated time after the last fault.",
    ),
    dict(
        id="C13",
        title="Each mutation is sent upstream exactly once and in order",
        statement="Every mutation field of a request that is answered was sent to the upstream exactly once, also when other clients send equal mutations at the same moment, upstream calls fail, batching and dedupe are on; a mutation of a disconnected client is sent at most once. "
        "Mutation fields of one request run one after another in the order written: none starts before the one ahead of it has ended. The answer is that of its own call.",
        quantifier=q(["schedules", "fault_sequences", "configurations"], "equal and different mutations from several clients, faults and disconnects at any point, batching and dedupe configurations"),
        why_tests_cant="Tests send single mutations; merging or reordering needs equal mutations within one batch window, or slow first fields.",
        anchors=a(["src/core/jit/exec.rs", "src/core/app_context.rs", "src/core/ir/eval_http.rs", "src/core/ir/eval_io.rs", "src/core/jit/model.rs"],
                  ("serial execution of mutation root fields; no dedupe or batching for them", "src/core/jit/exec.rs"),
                  observe_at=["HttpIO::execute", "handle_request"]),
        level_note=NOTE + "Every mutation carries a nonce that the simulated upstream counts.",
    ),
    dict(
        id="C14",
        title="@cache serves only the right entry, only while it lives, and does serve it",
        statement="With @cache on fields, data older than the field's maxAge (counted from when the entry was made) is never served, an entry is served only for the same upstream request with the same forwarded headers, a field without @cache never gets cached data, and while an entry certainly lives the upstream is not asked again for it.",
        quantifier=q(["schedules", "histories", "configurations", "inputs"], "overlapping and spaced requests around the expiry times, cache on any subset of resolvers, combined with batching and dedupe"),
        why_tests_cant="Tests look at one entry with one real TTL; expiry, sharing between users and combination with dedupe need a controlled clock.",
        anchors=a(["src/core/ir/eval.rs", "src/core/ir/model.rs", "src/core/http/request_template.rs", "src/core/graphql/request_template.rs", "src/core/cache/cache.rs"],
                  ("IR::Cache lookup and insert; cache_key of request templates", "src/core/ir/eval.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE + "Each value carries the number of the call that delivered it; its age is checked against maxAge in simulated time.",
    ),
    dict(
        id="C15",
        title="Batching solves N+1: upstream calls per request are bounded by levels",
        statement="For a request on its own, a grouped relation over n objects with k distinct keys costs at most one call per full batch plus one, not n calls; with dedupe on, each distinct upstream request is made once per GraphQL request; with neither, exactly as many calls are made as the query needs; and every needed resource is fetched.",
        quantifier=q(["inputs", "configurations", "schedules"], "random nested queries, batch sizes and delays, dedupe per resolver, latencies and schedules"),
        why_tests_cant="Specs pin a handful of queries; whether siblings meet in one batch depends on when each of them asks.",
        anchors=a(["src/core/http/data_loader.rs", "src/core/graphql/data_loader.rs", "src/core/data_loader/data_loader.rs", "src/core/ir/eval_io.rs", "src/core/http/transformations/query_batching.rs", "src/core/http/transformations/body_batching.rs"],
                  ("DataLoader windows, QueryBatching, BodyBatching", "src/core/http/data_loader.rs"),
                  observe_at=["HttpIO::execute"]),
        level_note=NOTE + "Conservation check: calls per resource against the number the reference executor needs.",
    ),
    dict(
        id="C16",
        title="Concurrent users never see or cause each other's upstream requests",
        statement="With requests of different users in flight at once (different authorization and tenant headers, both forwarded and part of the batch key), each upstream call carries the identity of a user whose request needs it, and each response holds only data fetched under its own user's headers and tenant, under any combination of batching, grouping and dedupe.",
        quantifier=q(["schedules", "histories", "configurations"], "overlapping requests of several users with equal and different queries, all batching, grouping and dedupe configurations"),
        why_tests_cant="Tests run one user at a time; a leak needs two users' requests in the same batch window or dedupe flight.",
        anchors=a(["src/core/http/data_loader.rs", "src/core/http/data_loader_request.rs", "src/core/graphql/data_loader.rs", "src/core/graphql/request_template.rs", "src/core/http/request_template.rs", "src/core/async_graphql_hyper.rs"],
                  ("headers in data loader keys, cache keys and operation ids", "src/core/http/data_loader_request.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE + "The simulated upstream answers with the caller's identity.",
    ),
    dict(
        id="C17",
        title="Protected fields and types are served only to those with valid credentials",
        statement="A response contains the value of a field that is protected (itself, by its type, or by an interface or implementing type of it) only if its own request carried credentials valid for each provider the protection demands, whatever was served, cached or deduplicated before. "
        "A request without them is answered with an error and no data, reaches no protected mutation or root field upstream, and a request that has them or selects nothing protected is not denied.",
        quantifier=q(["schedules", "histories", "configurations"], "mixes of htpasswd and JWKS providers, protections on fields, types, interfaces and constant fields, sequences of requests with 16 kinds of valid and invalid credentials, with dedupe and caching"),
        why_tests_cant="Tests check single requests against fresh servers; a leak needs a cached or deduplicated response of another user, or an unusual way to reach the field.",
        anchors=a(["src/core/blueprint/operators/protected.rs", "src/core/jit/transform/auth_planner.rs", "src/core/jit/transform/check_protected.rs", "src/core/jit/graphql_executor.rs", "src/core/auth/verify.rs", "src/core/auth/basic.rs", "src/core/auth/jwt/jwt_verify.rs", "src/core/ir/eval.rs"],
                  ("authorization IR hoisted to plan.before, const response cache", "src/core/jit/graphql_executor.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE + "Oracle: a table of credentials and which providers accept them. Token expiry uses fixed tokens far in the past or future.",
    ),
    dict(
        id="C18",
        title="Response headers promise and reveal no more than the upstreams allow",
        statement="With cache-control enabled, a successful response's max-age is at most the least max-age of the upstream responses its own calls returned, is private if one of those was, and is absent or no-cache if one of those said no-cache or no-store; a failed response, or any response when it is not enabled, promises no caching. "
        "With cookies enabled the cookies of the request's own upstream calls, and the listed experimental headers, are passed on and none is lost; no reply ever carries a cookie or header from a call of another client's request, or one that is not enabled or listed. "
        "Configured custom headers are on every GraphQL reply, once with their value.",
        quantifier=q(["inputs", "configurations", "schedules", "fault_sequences", "histories"], "sets of fields with their own cache-control, cookies and headers, concurrent clients, latencies, upstream faults, dedupe, @cache and batching"),
        why_tests_cant="The tests build one policy from one header; the aggregate over several calls of concurrent requests that finish in any order, fail or are shared is never run.",
        anchors=a(["src/core/http/request_context.rs", "src/core/http/request_handler.rs", "src/core/app_context.rs", "src/core/ir/eval_io.rs", "src/core/blueprint/server.rs"],
                  ("set_cache_control, set_cookie_headers, add_x_headers, extend_x_headers", "src/core/http/request_context.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE + "Oracle: the headers the simulated upstream attached to each request's own calls. Two known findings (shared calls do not pass their cache-control on).",
    ),
    dict(
        id="C19",
        title="Each request of an array is answered as itself, in order",
        statement="With request batching on, an array of GraphQL requests is answered by an array of as many responses in the same order, each the response its request would get alone (its own document, operation name and variables, its own error), whatever else is in the array or in flight, with dedupe, caches and upstream failures. "
        "A mutation in an array is sent upstream exactly once, and malformed bodies are answered with an error.",
        quantifier=q(["schedules", "fault_sequences", "inputs", "histories"], "arrays of requests over several documents with several operations, variables and conditions, concurrent clients, upstream faults, disconnects, malformed bodies"),
        why_tests_cant="Tests send one array with distinct queries; mixing needs members that share a plan, a dedupe key or an upstream call.",
        anchors=a(["src/core/async_graphql_hyper.rs", "src/core/jit/graphql_executor.rs", "src/core/http/request_handler.rs"],
                  ("FuturesOrdered over the members, operation id per member", "src/core/jit/graphql_executor.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE,
    ),
    dict(
        id="C20",
        title="A response depends on its own operation and variables, not on earlier ones",
        statement="The response to a request is determined by its own document, the operation it names and its variables (each string as it was written, with skip and include applied to its own values) and upstream answers no older than the settings allow, however many requests of the same document with other names and variables came before or at the same time. "
        "An ambiguous or unknown operation name, a missing required variable and a malformed body are answered with an error and no data, and a request always gets an HTTP response.",
        quantifier=q(["inputs", "schedules", "histories", "fault_sequences"], "documents of one to three operations over constant and upstream fields, sequences of operation names and variable values, malformed and non-UTF-8 bodies, dedupe, cache and upstream faults"),
        why_tests_cant="Plans and constant responses are cached by hash across requests; tests start a fresh server per query and never send the second request that exposes a bad key.",
        anchors=a(["src/core/jit/request.rs", "src/core/jit/graphql_executor.rs", "src/core/app_context.rs", "src/core/http/request_handler.rs", "src/core/jit/transform/skip.rs", "src/core/jit/transform/input_resolver.rs", "src/core/async_graphql_hyper.rs"],
                  ("operation_plans and const_execution_cache keyed by a hash of the request", "src/core/app_context.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE + "Not judged: conditions whose variable is missing.",
    ),
    dict(
        id="C21",
        title="A REST request runs the operation it addresses, with its own parameters",
        statement="A request under /api reaches the first declared operation whose method and path it matches (each literal segment equal, each typed segment and query parameter of its variable's type, no segment missing or left over), with exactly its own path, query and body values as variables, and no parameter value can become another parameter upstream. "
        "The reply holds that operation's data; a request no operation fits gets 404, a body that is not JSON or a failing upstream an error status, and every request gets a reply. A mutation is sent upstream exactly once.",
        quantifier=q(["inputs", "configurations", "schedules", "fault_sequences"], "sets of endpoints (methods, literal and typed segments, query keys, bodies, queries and mutations, one or several files), exact and mangled requests of concurrent clients, upstream faults, batching and dedupe"),
        why_tests_cant="The tests match a handful of paths against one endpoint without the server around it; they send no query string through the handler and no ambiguous or short path.",
        anchors=a(["src/core/http/request_handler.rs", "src/core/rest/endpoint.rs", "src/core/rest/endpoint_set.rs", "src/core/rest/path.rs", "src/core/rest/query_params.rs", "src/core/rest/typed_variables.rs", "src/core/rest/partial_request.rs", "src/core/http/request_template.rs", "src/core/blueprint/into_schema.rs"],
                  ("Path::matches, QueryParams::matches, PartialRequest::into_request", "src/core/rest/path.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE + "Oracle: a separate matcher over the same endpoints; an upstream that echoes its parameters. Where several endpoints fit, the first one declared is taken.",
    ),
    dict(
        id="C22",
        title="Cross-origin grants and routes are exactly those configured",
        statement="Every response carries exactly the cross-origin headers its configuration grants to the origin and request it answers (and no other origin, credential, method, header, vary or upstream-supplied value), whatever other requests are in flight or share its upstream answer; a configuration that joins credentials with a wildcard is refused. "
        "Preflights, the status route and paths that are not routes are answered without touching the upstream, each with its own status. "
        "An operation is executed whatever its origin, and a mutation is sent upstream exactly once.",
        quantifier=q(["configurations", "inputs", "schedules", "fault_sequences"], "cross-origin settings, route names, allowed, unknown and look-alike origins, queries, mutations, REST requests, preflights and other routes of concurrent clients, dedupe, upstream faults, disconnects"),
        why_tests_cant="The tests look at one preflight and one request alone; a grant leaking through a shared answer needs two origins at the same time.",
        anchors=a(["src/core/blueprint/cors.rs", "src/core/config/cors.rs", "src/core/http/request_handler.rs", "src/core/blueprint/server.rs"],
                  ("handle_request_with_cors, allow_origin_to_header", "src/core/http/request_handler.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE + "Oracle: a separate computation of the headers from the configuration.",
    ),
    dict(
        id="C23",
        title="Values stay values on their way to the upstream",
        statement="Whatever a client's string or number, a parent's value, or an allowed header holds (quotes, backslashes, line breaks, separators, template or GraphQL syntax), the upstream service decodes exactly that value at exactly its place from the query string, header, JSON or form body, batch, GraphQL argument, nested GraphQL argument or directive it was put in, and nothing else changes in the call. "
        "No such value is ever taken for a template, more parameters, more JSON or more GraphQL, nor does it make two different values share one answer. "
        "Each field's data then comes from a call that carried its own values.",
        quantifier=q(["inputs", "configurations", "schedules", "fault_sequences"], "values (literal, by variable, from a parent row, from a header) at every place of a template, several values meeting in batches, dedupe and cache of concurrent clients, upstream faults, disconnects"),
        why_tests_cant="Templates are tested with plain words; the encodings of a value and the keys made of them differ by place, by characters and by which other values share the batch.",
        anchors=a(["src/core/http/request_template.rs", "src/core/graphql/request_template.rs", "src/core/mustache/parse.rs", "src/core/path.rs", "src/core/jit/transform/graphql.rs", "src/core/json/mod.rs"],
                  ("RequestTemplate::{create_url,set_body,set_headers}", "src/core/http/request_template.rs"),
                  ("RequestTemplate::render_graphql_query", "src/core/graphql/request_template.rs"),
                  observe_at=["HttpIO::execute", "handle_request"]),
        level_note=NOTE + "Oracle: an upstream that decodes each call with standard parsers. Left out: values in the path of a URL template, body templates that are parsed again by @expr, control characters in GraphQL (async-graphql prints them wrongly).",
    ),
    dict(
        id="C24",
        title="A response has exactly the shape and values of its selection",
        statement="For a valid query over objects, lists, interfaces and unions, the response's data hold exactly the selected fields, each under its response key with the value its resolver or parent delivered for that very object, whichever fragments (nested, named, inline), aliases, repeated keys and skip/include conditions on fields or fragments lead to it, in whatever order the upstream answers. "
        "A field of a fragment appears only on objects of the fragment's type, and the resolvers called are exactly those of selected fields of objects of that type. "
        "Well-typed answers never give an error, and an upstream failure is never shown as data.",
        quantifier=q(["inputs", "configurations", "schedules", "fault_sequences"], "random schemas (1-4 object types, an interface, a union, list and non-null nestings, enums, custom scalars, three ways to tell types apart), random selections and variables (defaults, omitted), several clients at once, latencies and failures of upstream calls"),
        why_tests_cant="The specs hold a few dozen fixed queries against hand-written answers; merging selections, applying fragments and indexing nested lists go wrong only for combinations of them.",
        anchors=a(["src/core/jit/builder.rs", "src/core/jit/exec.rs", "src/core/jit/exec_const.rs", "src/core/jit/synth/synth.rs", "src/core/jit/model.rs", "src/core/jit/transform/skip.rs", "src/core/ir/discriminator.rs", "src/core/blueprint/interface_resolver.rs", "src/core/blueprint/union_resolver.rs"],
                  ("Builder::iter, merge_field, merge_fragment", "src/core/jit/builder.rs"),
                  ("Synth::iter, iter_inner", "src/core/jit/synth/synth.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE + "Oracle: a separate evaluator of the GraphQL execution algorithm. A field selected through several types may be resolved once for each.",
    ),
    dict(
        id="C25",
        title="An upstream value that is not of its type is not passed off as one",
        statement="When an upstream answers with values that do not fit the schema (null for non-null, an object for a list, a scalar for an object, an unknown enum value, a malformed custom scalar, a type name that is none of the interface's or union's), the response never shows them: a non-null place gives an error whose path leads to it and no data, a nullable place gives null or such an error, and every other field is exact. "
        "Each of several requests at once is judged by its own selection and gets an HTTP response.",
        quantifier=q(["inputs", "configurations", "schedules", "fault_sequences"], "the schemas and queries of C24 over upstream data mistyped at random places, several clients at once, upstream faults"),
        why_tests_cant="Tests mistype one value in one place; whether a mistake at some depth of lists and abstract types passes, panics or takes the rest of the response with it depends on the place.",
        anchors=a(["src/core/jit/synth/synth.rs", "src/core/jit/exec.rs", "src/core/jit/exec_const.rs", "src/core/ir/discriminator.rs", "src/core/ir/discriminator/keyed_discriminator.rs", "src/core/ir/discriminator/type_field_discriminator.rs", "src/core/scalar.rs"],
                  ("Synth::iter_inner, node_nullable_guard", "src/core/jit/synth/synth.rs"),
                  ("Discriminator::resolve_type", "src/core/ir/discriminator.rs"),
                  observe_at=["handle_request", "HttpIO::execute"]),
        level_note=NOTE + "Oracle: the evaluator of C24, which notes every place that does not fit. Not judged: the built-in scalars, which tailcall passes on unchecked.",
    ),
    dict(
        id="C26",
        title="A configuration loads whole or not at all, whatever the timing of its sources",
        statement="When any source that a configuration needs (its own files or URLs, and everything linked: configurations, scripts, certificates, keys, operations, credentials, key sets, protos with their imports, reflection servers) cannot be read in full, or the sources contradict each other, loading fails with an error; nothing is ever left out silently. "
        "Otherwise it succeeds, and the result is exactly the merge of all of them (types, fields, arguments, enums, unions, endpoints, credentials, descriptors, in the order of their declaration), the same whatever is read from a file or by HTTP, in whatever order and however slowly reads complete, whichever loads run at once, and whatever failed or was cancelled before. "
        "Only sources that are linked are read, relative ones against the place of the file that links them, and one reader does not read again what it has already read.",
        quantifier=q(["configurations", "schedules", "fault_sequences", "histories"], "sets of sources in three formats and two places with their links, read latencies, disk and HTTP failures, short and garbled contents, missing sources, a source replaced meanwhile, concurrent, repeated and cancelled loads, hash seeds"),
        why_tests_cant="The tests load a few fixed files that can all be read at once; what happens to a failed, late, shared or replaced one, or to the order of what comes out of hash maps, differs per run.",
        anchors=a(["src/core/config/reader.rs", "src/core/resource_reader.rs", "src/core/proto_reader/reader.rs", "src/core/proto_reader/fetch.rs", "src/core/config/config_module.rs", "src/core/config/config_module/merge.rs", "src/core/rest/endpoint.rs"],
                  ("ConfigReader::{read_all,ext_links}", "src/core/config/reader.rs"),
                  ("Cached::read", "src/core/resource_reader.rs"),
                  observe_at=["ConfigReader::read_all", "FileIO::read", "HttpIO::execute"]),
        level_note=NOTE + "Oracle: a separate model of what the sources say and how they merge; every read is recorded. Links of linked configurations are not followed (as in the code).",
    ),    dict(
        id="C27",
        title="gRPC upstreams get what was asked for, and everyone gets their own answer",
        statement="Every call to a gRPC service is a well-formed request of the right method at the right URL, whose protobuf message holds the values of the template to the letter and whose headers are those of a user who asked; each mutation is sent exactly once, a batch holds each key once, at most maxSize of them, and only keys of the same URL and batch headers. "
        "Every row in a response comes from a successful call, made in its time (or kept by the cache), that asked for exactly this row with this user's identity, whatever order, additions or doubles the service answers with; a failed call (transport, HTTP status, gRPC status, unreadable or empty message) gives null data with an error that it explains, with its gRPC status.",
        quantifier=q(["inputs", "schedules", "fault_sequences", "histories"], "ids (64 bit, zero, negative), texts, names, URLs and headers of concurrent users; batching, dedupe, caches; latencies, failures of five kinds, disconnects"),
        why_tests_cant="The tests answer single requests from recorded bytes; batches of different users, merged URLs, and failures at chosen calls need several requests in flight.",
        anchors=a(["src/core/grpc/data_loader.rs", "src/core/grpc/request_template.rs", "src/core/grpc/protobuf.rs", "src/core/grpc/request.rs", "src/core/grpc/data_loader_request.rs", "src/core/ir/eval_io.rs", "src/core/blueprint/operators/grpc.rs"],
                  ("GrpcDataLoader::load", "src/core/grpc/data_loader.rs"),
                  ("execute_grpc_request", "src/core/grpc/request.rs"),
                  observe_at=["HttpIO::execute (http2_only)", "handle_request response"]),
        level_note=NOTE + "Oracle: a gRPC service that decodes and encodes by hand and signs each row with its call. Not judged: the declared length of an answer's frame, which tailcall ignores and the existing tests rely on; requests of one batch may share its failure.",
    ),
    dict(
        id="C28",
        title="Scripts see the request and the value at hand, and decide only their own field",
        statement="A field's onRequest hook (or upstream.onRequest) gets the method, URL, headers and body that would be sent; what goes out is exactly the request it returns, a response it returns is answered without a call, and a redirect is followed to its location. "
        "The value of a field is what its own onResponseBody hook makes, once, of the answer to its own request (made in its time by this user's identity, or kept by the cache), and @js gets the value of its own parent; this holds with batching, dedupe and caches, also for fields that send the same request but have other hooks. "
        "A hook that fails gives null data with an error that it explains, and each mutation is sent exactly once.",
        quantifier=q(["inputs", "schedules", "fault_sequences", "histories"], "which fields have which hooks, ids and texts in URLs and bodies, concurrent users; batching, dedupe, caches; slow and failing scripts and upstreams, disconnects"),
        why_tests_cant="The tests run one script on one request after the other; results shared between fields and users, batches of changed requests, and failures of the script engine at chosen calls need several requests in flight.",
        anchors=a(["src/core/ir/eval_http.rs", "src/core/ir/eval_io.rs", "src/core/ir/model.rs", "src/core/worker_hooks.rs", "src/core/worker/worker.rs", "src/cli/javascript/runtime.rs", "src/cli/javascript/codec.rs"],
                  ("EvalHttp::execute_with_worker", "src/core/ir/eval_http.rs"),
                  ("WorkerHooks", "src/core/worker_hooks.rs"),
                  observe_at=["HttpIO::execute", "WorkerIO::call", "handle_request response"]),
        level_note=NOTE + "The scripts run in the real QuickJS runtime, on its thread, at the moment the simulator picks. Not judged: a hook that throws in onRequest (the request is sent as it was), script timeouts (not implemented), repeated query keys (the script's object has one value per key).",
    ),
    dict(
        id="C29",
        title="Federated entities come from their own representations, in their order",
        statement="`_entities` gives one row per representation, in the order of the list, whether it is sent as a variable, a literal or both; each row has the `__typename` that was asked for and comes from a successful call made for exactly this representation's keys with this user's identity, in its time or kept by the cache, also with batching, dedupe, caches and representations of several types mixed or repeated. "
        "Fields below an entity come from the entity's own values; an upstream that has nothing for a representation gives null for that row only, one that fails gives null data and an error that it explains, and a representation without a known `__typename` is refused. "
        "`_service` gives a parseable schema with exactly the keys that the resolvers need.",
        quantifier=q(["inputs", "schedules", "fault_sequences", "histories"], "lists of representations of five types (ids as text and numbers, composite and nested keys, extra members, repetitions), concurrent users; batching, dedupe, caches, answers in another order or with additions; latencies, three failures, disconnects"),
        why_tests_cant="The tests ask for one short list at a time; who gets whose row when lists of several users share batches, doubles and failures depends on what is in flight together.",
        anchors=a(["src/core/ir/eval.rs", "src/core/ir/model.rs", "src/core/config/transformer/subgraph.rs", "src/core/blueprint/operators/apollo_federation.rs", "src/core/http/data_loader.rs"],
                  ("IR::eval (Entity, Service)", "src/core/ir/eval.rs"),
                  ("Subgraph::transform", "src/core/config/transformer/subgraph.rs"),
                  observe_at=["HttpIO::execute", "handle_request response"]),
        level_note=NOTE + "Oracle: an upstream that signs each row with its call, compared with what each representation asks for.",
    ),
    dict(
        id="C30",
        title="globalResponseTimeout ends a request in time, and only that request",
        statement="With `server.globalResponseTimeout` set, every request (GraphQL or REST, alone or in an array, query or mutation) is answered within it, with its data or with null data and the error of the timeout, and never with that error before the time is over. "
        "Who runs out of time does not take others with them: a request that shares calls, batches or doubles with one that timed out still gets its own data or its own timeout, no call is sent for a request that is over, no mutation is sent twice, and once the upstream is quick again every request succeeds.",
        quantifier=q(["inputs", "schedules", "fault_sequences", "histories"], "limits, latencies around them, queries, lists with relations, mutations, arrays, REST; dedupe and batching; concurrent users, hung and failing upstreams, disconnects"),
        why_tests_cant="The tests have no clock to move and no two requests in flight; what is left behind by a request that ran out of time shows only in the others that overlap it.",
        anchors=a(["src/core/jit/graphql_executor.rs", "src/core/blueprint/timeout.rs", "src/core/http/request_handler.rs"],
                  ("JITExecutor::execute", "src/core/jit/graphql_executor.rs"),
                  ("GlobalTimeout", "src/core/blueprint/timeout.rs"),
                  observe_at=["HttpIO::execute", "handle_request response"]),
        level_note=NOTE + "Time is virtual; the bounds leave room for what the scheduler itself lets pass.",
    ),
    dict(
        id="C31",
        title="What a query gives as arguments is what the upstream is sent",
        statement="For every field the arguments sent to its upstream (as a body, in a query string, as GraphQL arguments or through @call) are those of the GraphQL specification: literals, variables and both nested, the defaults of variables, arguments and input fields where nothing is given, null where null is given and nothing where nothing is, one value for a list of it, enums as enums, strings to the letter. "
        "A request that gives null or nothing where a value must be is refused as a whole before anything is sent, and every other request is executed. "
        "This holds for each request on its own, however many others use the same operation with other variables at the same time.",
        quantifier=q(["inputs", "schedules", "fault_sequences", "histories"], "schemas with input types (nested, recursive, lists of lists, defaults), operations with up to four uses of fields and variables of any type, values that are left out, null or given; concurrent users of the same operations with other variables; failures, disconnects"),
        why_tests_cant="The tests look at a few shapes of arguments with one request each; plans are kept and shared between requests, and the combinations of absent, null and default at every depth are too many to list.",
        anchors=a(["src/core/jit/transform/input_resolver.rs", "src/core/jit/builder.rs", "src/core/jit/exec_const.rs", "src/core/jit/graphql_executor.rs", "src/core/serde_value_ext.rs", "src/core/graphql/request_template.rs", "src/core/path.rs"],
                  ("InputResolver::recursive_parse_arg", "src/core/jit/transform/input_resolver.rs"),
                  ("OperationPlan::resolve_missing_variables", "src/core/jit/transform/input_resolver.rs"),
                  observe_at=["HttpIO::execute", "handle_request response"]),
        level_note=NOTE + "Oracle: a separate implementation of the coercion rules. Not judged: literals of the wrong type (not validated by tailcall), strings that look like other values in @call (read as those, as documented by the tests), null and nothing in @call (the same there).",
    ),
    dict(
        id="C32",
        title="With responseValidation, what does not match the declared types is an error",
        statement="With `server.responseValidation` every response of an HTTP upstream is held against the declared type of the field it resolves, under the names the upstream uses and after batching took it apart: a value of another type or a null where none may be makes the request fail with null data and an error, whichever fields are selected, and a response that matches is never refused; without it, values are only judged by what is selected. "
        "Renamed, omitted and constant fields, selections of a response, unions and types that contain themselves work the same with both, and a schema with a cycle loads and answers like any other. "
        "Each object gets the values of its own call, made with its own arguments and parent, also where calls are grouped.",
        quantifier=q(["inputs", "schedules", "fault_sequences", "histories"], "schemas of up to six object types (cyclic, lists of lists, unions, renamed and omitted fields, constants, grouped calls with arguments); upstreams that make mistakes at chosen places; concurrent users of the same operations; failures, disconnects"),
        why_tests_cant="The tests validate two responses of flat types; which of many nested places may be wrong, and what batches and shared calls make of a response before it is looked at, needs whole requests over many schemas and mistakes.",
        anchors=a(["src/core/ir/eval_http.rs", "src/core/json/json_schema.rs", "src/core/blueprint/from_config.rs", "src/core/blueprint/operators/http.rs", "src/core/http/data_loader.rs", "src/core/blueprint/definitions.rs"],
                  ("JsonSchema::validate", "src/core/json/json_schema.rs"),
                  ("to_json_schema", "src/core/blueprint/from_config.rs"),
                  ("EvalHttp::execute", "src/core/ir/eval_http.rs"),
                  observe_at=["HttpIO::execute", "handle_request response"]),
        level_note=NOTE + "Oracle: an upstream that decides each value and each mistake from the place and the call, and a separate validator. Not judged: enums, IDs, floats, unions and interfaces in responses (accepted by tailcall as any value), and what is below the second occurrence of a recursive type.",
    ),
    dict(
        id="C33",
        title="A GraphQL upstream is asked, in its own schema, for what the query needs",
        statement="Each request to a GraphQL upstream is valid in the upstream's own schema: original field names, the arguments of the query, fragments only on types that can occur, never an empty selection, and never a field that tailcall resolves itself. It asks for all the reply needs - also the values that calls, templates and added fields below it are made from, and the type of interface and union members - and for nothing the query has no use for. "
        "The reply holds exactly the selected data whether a field comes from the upstream, from a call of its own, from a part of another field or from several resolvers together, errors of the upstream are told beside it, and introspection shows just the public fields with their types.",
        quantifier=q(["inputs", "schedules", "fault_sequences", "histories"], "schemas of up to four object types over one GraphQL upstream (interface, union, arguments, renamed, omitted, added, cached, called, batched, merged fields); queries with fragments, aliases, variables, @skip and @include; concurrent users that share headers; failures, upstream errors, disconnects"),
        why_tests_cant="The tests compare a few upstream queries with their text; whether every selection of every schema yields a query that a strict upstream accepts and that brings enough for all calls below needs an upstream that validates and answers exactly what it is asked.",
        anchors=a(["src/core/jit/transform/graphql.rs", "src/core/graphql/request_template.rs", "src/core/graphql/data_loader.rs", "src/core/blueprint/operators/graphql.rs", "src/core/blueprint/index.rs", "src/core/blueprint/definitions.rs", "src/core/ir/eval.rs"],
                  ("format_selection_set", "src/core/jit/transform/graphql.rs"),
                  ("to_fields", "src/core/blueprint/definitions.rs"),
                  ("parse_graphql_response", "src/core/ir/eval_http.rs"),
                  observe_at=["HttpIO::execute", "handle_request response"]),
        level_note=NOTE + "Oracle: an upstream that parses and validates each query and answers only what it was asked, from data that are a function of the place; a separate reference for the reply and for what is needed. Not judged: aliased nested fields with differing arguments (sent without aliases), added fields that end in an enum or pass a list without an index.",
    ),
    dict(
        id="C34",
        title="A read is never staler than its own configuration allows",
        statement="What a reply says of an entity was the upstream's state at some moment between the request's arrival and the reply: a write that was acknowledged is seen by every read that comes later, also below the write itself, and nothing comes from before or from the future. "
        "Only where a field asks for it may its data be older: with `dedupe` as old as the work in flight that it joined, with `@cache` as old as maxAge; a whole response is shared only if everything in it may be, and no entry or constant outlives that. "
        "Every write is applied once, and its reply holds its own version.",
        quantifier=q(["inputs", "schedules", "fault_sequences", "histories"], "plain, POST, GraphQL, merged, constant, namespaced, called, listed and batched sources, each with or without dedupe and @cache; writes and reads of concurrent users, arrays, REST; slow handling and late delivery, failures, disconnects"),
        why_tests_cant="The tests' upstreams answer the same for ever and one request runs at a time; who got an old value is seen only when the state changes while an equal request is in flight, and judged by when the upstream said what.",
        anchors=a(["src/core/jit/transform/check_dedupe.rs", "src/core/jit/transform/check_cache.rs", "src/core/jit/transform/check_const.rs", "src/core/jit/graphql_executor.rs", "src/core/ir/eval_io.rs", "src/core/http/request_template.rs"],
                  ("CheckDedupe", "src/core/jit/transform/check_dedupe.rs"),
                  ("JITExecutor::execute_request", "src/core/jit/graphql_executor.rs"),
                  observe_at=["HttpIO::execute", "handle_request response"]),
        level_note=NOTE + "A deduped read may be as old as any request in flight that uses the same source, which is more than what it joined.",
    ),
    dict(
        id="C35",
        title="An upstream call carries the configured headers and no others",
        statement="Each upstream call carries exactly the headers of its own field's template, filled with plain text from the request, parent, environment and vars it is for, and of the client's headers exactly those that `upstream.allowedHeaders` lists (in whatever case, each with all its values, never one of a similar name). "
        "Calls share a batch, or one call, only if the values of all `batch.headers` agree, and the call then carries the headers of one of those who asked. "
        "A query parameter without a value is left out exactly if `skipEmpty` is set, and host, path and query come out of their templates as configured.",
        quantifier=q(["inputs", "schedules", "fault_sequences"], "allowed and batch header lists in any case; templates of constants, environment, vars, arguments, parents and client headers for GET, POST, GraphQL, @call and batched fields; concurrent clients with allowed, forbidden, similarly named, repeated headers; batching delays and sizes, failures, disconnects"),
        why_tests_cant="The tests send one client at a time with a header or two; which headers a call carries that several clients wait for, and what leaks from whom, depends on how their requests meet in a batch.",
        anchors=a(["src/core/http/request_handler.rs", "src/core/http/request_template.rs", "src/core/graphql/request_template.rs", "src/core/http/data_loader_request.rs", "src/core/http/data_loader.rs", "src/core/graphql/data_loader.rs", "src/core/path.rs", "src/core/mustache/parse.rs"],
                  ("create_allowed_headers", "src/core/http/request_handler.rs"),
                  ("RequestTemplate::to_request", "src/core/http/request_template.rs"),
                  observe_at=["HttpIO::execute", "handle_request response"]),
        level_note=NOTE + "Not judged: a client header with the name of a template header, templates over values with quotes or line breaks (C23), gRPC (C27).",
    ),
    dict(
        id="C36",
        title="A showcased configuration is served as it stands, apart from the server",
        statement="With `enableShowcase`, a request to `/showcase/graphql?config=URL` is answered by the configuration that is at URL during that request (one version of it, all of it: fields, constants, headers, upstream calls), as a server that was started with it would answer; without it, by GET or elsewhere there is nothing (404). "
        "Nothing of one configuration shows in another: no call, header, allowed client header, cached or shared answer of the server's own configuration or of another showcased one, and no file of the server is ever read for it. "
        "A configuration that cannot be fetched, parsed or served is answered with errors, leaves the server serving, and a mutation is sent once.",
        quantifier=q(["inputs", "schedules", "fault_sequences", "histories"], "the server's own configuration and up to three at URLs that are republished while requests run: good ones, broken ones, ones that link other URLs or files of the server; users of all of them at once who ask the same things; @cache ages, batching, dedupe, allowed headers; failures, disconnects"),
        why_tests_cant="The tests post one query to one showcased file; leaks between configurations need the same query and call through two of them while a cache entry or a call in flight could be shared, and a change of the configuration between or during requests.",
        anchors=a(["src/core/http/showcase.rs", "src/core/http/request_handler.rs", "src/core/app_context.rs", "src/core/config/reader.rs"],
                  ("create_app_ctx", "src/core/http/showcase.rs"),
                  ("handle_request_inner", "src/core/http/request_handler.rs"),
                  observe_at=["HttpIO::execute", "FileIO", "handle_request response"]),
        level_note=NOTE + "The fetch of a configuration is a call of the same simulated network, its source files are those of the simulated file system.",
    ),
]

NA = []
