#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))

p("C01","Every request gets exactly one response",
  "For every request handed to the server, the handler commits exactly one response status line and writes at most one complete body after it; it never returns without having responded and never writes a second status or a second body.",
  ["inputs","schedules","fault_sequences"],
  "every request, every combination of upstream success, failure, timeout, retry and client abort",
  "Tests drive a handful of success/failure sequences; exactly-once must hold on every path through validation, authentication, routing, retry recursion and the abort races.",
  ["proxyhandler.go","server.go","responses.go","proxy.go"],
  [("early returns after error responses","proxyhandler.go proxyHandler"),("boolean handled result of response processing","proxyhandler.go handle/processUpstreamResponse")],
  ["http.ResponseWriter WriteHeader/Write calls"])
p("C02","Identification headers are on every response and set before commit",
  "Every response the server sends carries a Server header of the form 'j8a <version> <id>', an X-Request-Id header equal to the id of that request, and, when the server runs in TLS mode, the server's own Strict-Transport-Security header; each of these that the server sets has a single value that the upstream cannot override or duplicate. No response header is set or changed after the status line was committed.",
  ["inputs","configurations"],
  "every response (canned error, relayed, about) in both serving modes, for any upstream header set",
  "Tests look at one or two headers of one response; a header emitted after commit is silently lost and no test enumerates every response path.",
  ["server.go","proxy.go","responses.go"],
  [("writeStandardResponseHeaders","server.go"),("copyUpstreamResponseHeaders","proxy.go")],
  ["http.Header Set/Add/Del calls on the response writer"])
p("C03","JSON error responses are self-consistent",
  "Whenever the server answers with its own JSON status document, the Code in the document equals the HTTP status sent, the Content-Type is application/json, and the Content-Encoding label says gzip exactly when the bytes written were gzip-compressed, which happens exactly when the client offered gzip.",
  ["inputs"],
  "every canned response: 400, 401, 404, 413, 502, 503, 504 and replaced upstream 4xx, with and without gzip",
  "No unit test decodes the error documents or looks at their encoding label.",
  ["server.go","responses.go","proxy.go"],
  [("sendStatusCodeAsJSON","server.go"),("StatusCodeResponse.AsJSON","responses.go")])
p("C04","The Content-Encoding label always describes the relayed bytes",
  "For a relayed upstream response with a body, the bytes are gzip-compressed only if the client offered gzip and the upstream body was not already encoded, decompressed only if it was valid gzip and the client did not offer gzip, and otherwise (including foreign content codings) passed through unchanged; the single Content-Encoding header sent names the encoding of the bytes actually sent.",
  ["inputs"],
  "every combination of upstream encoding, client acceptance, and body content",
  "Tests cover five fixed combinations of encoding; custom encodings combined with a gzip client are not among them.",
  ["proxy.go","gzip.go"],
  [("encodeUpstreamResponseBody / contentEncoding / writeContentEncodingHeader","proxy.go")])
p("C05","Content-Length equals the bytes sent",
  "For every relayed response the Content-Length header is the length of the final, possibly re-encoded, body that is written; only for HEAD is it the upstream's own valid Content-Length, or 0 if there is none, and for CONNECT, 1xx and 204 it is 0.",
  ["inputs"],
  "every relayed response, method and status",
  "Two unit tests check a HEAD request; the relation between re-encoding order and length is not tested.",
  ["proxy.go","proxyhandler.go"],
  [("setContentLengthHeader after encodeUpstreamResponseBody","proxyhandler.go processUpstreamResponse")])
p("C06","A protected route never contacts the upstream without an accepted token",
  "If the matched route names a jwt configuration, no upstream request is made and no other content is served for a request unless that request's bearer token was accepted by the validation for that route; a request whose token is missing or not accepted is answered with 401.",
  ["inputs","configurations","histories"],
  "every request on every route configured with jwt, whatever resource the route maps to",
  "Tests call token validation in isolation; none checks that the request path cannot reach the upstream around it.",
  ["proxyhandler.go","proxy.go","server.go","route.go"],
  [("hasJwt && !validateJwt → 401","proxyhandler.go proxyHandler")])
p("C07","A token is accepted only after signature and date verification",
  "A token is accepted only if it was taken from the request's own Authorization header, its signature verified under exactly the algorithm configured for the route and with a key from that configuration's key set for that algorithm family, and its date claims verified with the configured skew. Only the configured algorithm 'none' is exempt from the signature check, and nothing is exempt from the date check; any error at any of these steps means the token is rejected.",
  ["inputs","configurations","histories"],
  "every token and every configured algorithm, key set and key rotation history",
  "Tests validate a few well-formed tokens; that no path returns acceptance with an unverified or failed parse is a for-all-paths claim.",
  ["proxy.go","jwt.go"],
  [("validateJwt / verifySignature / verifyDateClaims","proxy.go")])
p("C08","Invalid, oversized or unreadable requests are never forwarded",
  "A request whose method is not one of the legal methods, whose body exceeds the configured maximum (declared or actual), or whose announced or partly received body cannot be read completely is never forwarded to an upstream; a handler that forwards answers it with 413 when it was too large and with 400 otherwise.",
  ["inputs","fault_sequences"],
  "every method, declared length, chunked body and client-side read failure",
  "Tests check one illegal method and the declared-length branch; actual-size and read-error branches have no test.",
  ["proxyhandler.go","proxy.go"],
  [("validate","proxyhandler.go"),("parseRequestBody limits","proxy.go")])
p("C09","Upstream retries are bounded and only for repeatable methods",
  "For one downstream request a second or later upstream attempt is made only if the method is one of GET, HEAD, OPTIONS, TRACE, PUT, DELETE, the previous attempt produced no usable response and nothing was sent downstream yet, and the downstream roundtrip has not timed out; the total number of attempts never exceeds the configured maximum.",
  ["inputs","fault_sequences","configurations"],
  "every sequence of attempt outcomes, every configured maximum",
  "One test loops GET until 502; method, abort and boundary conditions of the counter are not explored.",
  ["proxyhandler.go","proxy.go"],
  [("shouldRetryUpstreamAttempt","proxy.go"),("handle/nextAttempt","proxyhandler.go")])
p("C10","Every upstream attempt replays the same request in full",
  "Every attempt for a request is sent with the downstream method, a URI built from the mapped upstream and the downstream request URI, the complete downstream body from its first byte, all forwardable downstream headers, and an X-Request-Id equal to the id reported downstream.",
  ["inputs","fault_sequences"],
  "first and all later attempts of every request",
  "Mock clients in tests never read the forwarded request; a body consumed by attempt one and empty on attempt two goes unseen.",
  ["proxyhandler.go","proxy.go"],
  [("scaffoldUpstreamRequest / bodyReader","proxyhandler.go, proxy.go")])
p("C11","No request waits without a deadline",
  "Every point at which request handling waits for the upstream also wakes up on the upstream read timeout of the current attempt and on the downstream roundtrip timeout; both timers are armed with the configured durations before the wait, the timeout of an attempt cancels its upstream request, and key-set refreshes triggered by requests never block the request.",
  ["schedules","fault_sequences","configurations"],
  "every wait in request handling, every stalled upstream",
  "Timeout behaviour is only covered by integration tests that need live servers; unit tests never stall an upstream.",
  ["proxyhandler.go","proxy.go"],
  [("three-way select","proxyhandler.go performUpstreamRequest/parseUpstreamResponse"),("time.AfterFunc cancel","proxy.go parseIncoming, proxyhandler.go scaffoldUpstreamRequest")])
p("C12","Only a completely and successfully read upstream response is relayed",
  "An upstream response is passed to the client only if the request returned no error, its body was read to the end without error before any timeout, its status is a valid one below 500, and the downstream roundtrip has not timed out; the relayed status is the upstream's own status, and for an upstream 4xx only the status is passed on, with the server's own JSON document as body.",
  ["inputs","fault_sequences","schedules"],
  "every upstream outcome, including failures in the middle of a body",
  "Tests never fail a body read half way, nor combine a timeout with a partial response.",
  ["proxyhandler.go"],
  [("shouldProxyUpstreamResponse / isUpstreamClientError","proxyhandler.go")])
p("C13","Failures map to the documented status codes",
  "A request that fails is answered 404 if no route matched, 503 if the route could not be mapped to an upstream, 504 if the downstream roundtrip timed out or the last attempt was aborted by its read timeout, and 502 for any other upstream failure; these codes are used for nothing else.",
  ["inputs","fault_sequences","configurations"],
  "every failing path",
  "Tests check 502 after retries and little else.",
  ["proxyhandler.go"],
  [("status selection","proxyhandler.go proxyHandler/handle")])
p("C14","Hop-managed headers are never copied, all others always are",
  "Date, Content-Length, Transfer-Encoding and Server are never copied from the client to the upstream or from the upstream to the client; every other header is forwarded in both directions of a relayed exchange with all its values.",
  ["inputs"],
  "every header name in any letter case, every number of values",
  "Tests check one header per direction at most.",
  ["proxyhandler.go","proxy.go"],
  [("shouldProxyHeader","proxyhandler.go")])
p("C15","The longest matching route wins",
  "Routes are examined in order of decreasing path length, the first route whose pattern, anchored at the start of the request URI, matches handles the request, and no other route's upstream, policy or jwt setting is used for it; without a match the answer is 404.",
  ["inputs","configurations"],
  "every route table and request URI",
  "Tests sort two routes and match single patterns.",
  ["proxyhandler.go","config.go","route.go"],
  [("sort.Sort(Routes)","config.go validateRoutes"),("matching loop","proxyhandler.go proxyHandler"),("^ anchored regex","config.go compileRoutePaths")])
p("C16","Requests only go to an upstream that the route's policy selected",
  "A route with a policy is mapped to an upstream of the route's own resource that carries the label the policy produced, a route without a policy to the first upstream of its resource; if there is no such upstream the request is answered 503 and nothing is contacted, and an empty or unknown resource never crashes the request.",
  ["configurations","inputs"],
  "every policy, resource and label configuration",
  "Tests cover one resource without policy and one matching label.",
  ["route.go","policy.go"],
  [("mapURL","route.go"),("resolveLabel","policy.go")])
p("C17","Upstream connections are never leaked",
  "Every upstream response obtained for a request has its body closed or its upstream request cancelled by the time request handling is over, whatever the outcome of the attempt; when the roundtrip timeout fires while an upstream is waited for, every attempt made so far is cancelled, and what is recorded about an attempt is recorded on the attempt itself and not on a copy that is dropped.",
  ["fault_sequences","schedules"],
  "every attempt outcome including abort while waiting for headers or body",
  "Mock bodies in tests are no-op closers, so a leak is invisible.",
  ["proxyhandler.go","proxy.go"],
  [("deferred Body.Close","proxyhandler.go handle"),("abortAllUpstreamAttempts","proxy.go")])
p("C18","Every response is recorded in the access log exactly once",
  "For every response exactly one access log entry is written, after the response status is decided, and the status code in it is the status code that was sent to the client.",
  ["inputs","fault_sequences"],
  "every response path",
  "Log output is not examined by any test.",
  ["proxyhandler.go","server.go","responses.go"],
  [("logHandledDownstreamRoundtrip","proxyhandler.go")])
p("C19","Handlers share no unsynchronised mutable state",
  "While the server is serving, code run by concurrent requests and background tasks never writes memory that another of them can access at the same time without holding a common lock (or atomic/once/pool primitive); configuration is read-only after start.",
  ["schedules","histories"],
  "every interleaving of requests, key refreshes and statistics tasks",
  "Unit tests run requests one at a time; a race only shows under unlucky schedules.",
  ["proxy.go","proxyhandler.go","policy.go","iprex.go","jwt.go","stats.go","responses.go","gzip.go"],
  [("per-request proxy object","proxy.go"),("sync.Pool","gzip.go"),("locks","stats.go, jwt.go")])
p("C20","A late upstream attempt cannot affect the exchange that abandoned it",
  "What the background call of an upstream attempt produced (response, error, body, flags) is used by request handling only after that attempt signalled completion; an attempt that was given up on timeout or abort writes nothing that later attempts or the client response read.",
  ["schedules"],
  "every interleaving of an attempt's background completion with timeout, abort and the next attempt",
  "Schedules with a straggling upstream reply cannot be produced by the existing tests.",
  ["proxyhandler.go"],
  [("completion channels closed by the attempt goroutine","proxyhandler.go performUpstreamRequest/parseUpstreamResponse")])
p("C21","Key-set refresh is single-flight, throttled and always released",
  "At most one refresh of a key set runs at a time, the refresh slot is released on every path exactly when it was acquired, every fetch has a finite timeout, and after the initial load the slot is held for at least ten seconds per refresh; a fetch that fails or yields no keys leaves the keys already held untouched.",
  ["fault_sequences","histories","schedules"],
  "every fetch failure, malformed key set and request history",
  "Tests load a key set once; release on error paths and throttling are not exercised.",
  ["jwt.go","proxy.go"],
  [("semaphore TryAcquire/Release","jwt.go LoadJwks"),("jwksRefreshSlowwait","jwt.go")])
p("C22","Only keys that match the configured algorithm enter a key set",
  "A key is added to the key set of a jwt configuration only if it was decoded without error, has the key type and, for ECDSA, the curve size of the configured algorithm, and, when it comes from a remote key set, declares exactly the configured algorithm; a key with an id already present replaces the old key under that id.",
  ["inputs","histories","configurations"],
  "every local key, remote key set and rotation history",
  "Tests use valid sample keys and a few fixed bad ones.",
  ["jwt.go"],
  [("parseKey / LoadJwks / Upsert","jwt.go")])
p("C23","Pooled gzip coders are never shared or reused while in use",
  "A gzip coder taken from the pool is reset onto a fresh private buffer before use, returned at most once and only after its last use, and the returned bytes are never backed by memory the pool can hand out again; the compressor is closed before its output is taken.",
  ["schedules","inputs"],
  "every concurrent use of the gzip helpers",
  "Tests call the helpers sequentially.",
  ["gzip.go"],
  [("zipPool / unzipPool","gzip.go")])
p("C24","A configuration that cannot be read or decoded refuses to start",
  "If the configuration source cannot be opened, read or decoded, or has no routes, the server terminates with an error and never listens.",
  ["inputs","configurations","fault_sequences"],
  "every configuration text and I/O failure",
  "Tests parse valid documents only.",
  ["config.go","server.go"],
  [("load / readYml* / parse","config.go")])
p("C25","The server listens only with a fully validated and completed configuration",
  "Before the server listens, every jwt configuration was validated, every route path was given its leading slash and compiled in that final form, transforms and jwt references were checked, routes were sorted, upstream schemes and names applied, the default policy added and all defaults set; any failing check terminates the server instead of listening.",
  ["configurations"],
  "every configuration",
  "Stages are tested individually, not their presence, order and failure handling at start-up.",
  ["server.go","config.go"],
  [("BootStrap chain","server.go")])
p("C26","Defaults fill in unset values only, with the documented values",
  "A connection setting given in the configuration is used unchanged (the mode up to letter case); an unset one gets its documented default: read timeout 120, roundtrip timeout 240, idle timeout 120, max body 2 MiB, mode HTTP, port 8080 or 443 in TLS mode downstream, and socket timeout 3, read timeout 120, idle timeout 120, pool size 32768, max attempts 1 upstream.",
  ["configurations"],
  "every combination of set and unset values",
  "Tests sample a few defaults, never that a set value survives next to an unset one.",
  ["config.go"],
  [("setDefaultUpstreamParams / setDefaultDownstreamParams","config.go")])
p("C27","Unsafe jwt configurations are refused",
  "A jwt configuration is accepted only if it has a name, an algorithm from the supported list, no key material for algorithm 'none', a key or key-set URL for every other algorithm whose loading reported no error, and a numeric non-negative skew, with 120 seconds used when none is given.",
  ["configurations","inputs"],
  "every jwt configuration",
  "Tests use a fixed set of good and bad configurations.",
  ["jwt.go","config.go"],
  [("Jwt.Validate","jwt.go")])
p("C28","TLS mode serves only hardened TLS with a verified chain",
  "In TLS mode the server listens only with TLS 1.2 or newer, only with the approved AEAD forward-secret cipher suites, and only after the configured certificate chain parsed, names at least one DNS name and verified; it never falls back to plaintext, and in HTTP mode it never serves TLS.",
  ["configurations","inputs"],
  "every certificate, key and mode configuration",
  "Tests build one valid TLS configuration and never look at versions, suites or the listen decision.",
  ["server.go","tls.go"],
  [("tlsConfig / checkCertChain / startListening","server.go, tls.go")])
p("C29","Server timeouts and limits come from the configuration",
  "The listening server uses the configured port, the configured read timeout for headers and for the whole request, a write timeout of at least the configured roundtrip timeout, the configured idle timeout, and a handler that routes every path; no timeout is left unset.",
  ["configurations"],
  "every configuration",
  "No test inspects the server object.",
  ["server.go"],
  [("http.Server literal","server.go startListening")])
p("C30","The upstream client verifies TLS and honours connection settings",
  "The upstream client verifies upstream certificates unless the configuration explicitly opts out, never follows redirects on the client's behalf, and applies the configured socket timeout to dialling and TLS handshakes and the configured idle timeout and pool size to its connection pool.",
  ["configurations"],
  "every configuration",
  "One test checks a socket timeout over the network and is unreliable; nothing checks TLS verification.",
  ["httpclient.go"],
  [("http.Client/Transport literal","httpclient.go scaffoldHTTPClient")])
p("C31","Secrets never reach the logs",
  "No log entry at any level contains a bearer token or Authorization header value, a jwt signing secret or key setting, the TLS private key, or the content of request or response bodies.",
  ["inputs","configurations"],
  "every log statement at every level",
  "Log content is not examined by tests and depends on which statement runs.",
  ["proxy.go","proxyhandler.go","jwt.go","server.go","config.go","tls.go"],
  [("explicit log fields","all log call sites")])
p("C32","Failed operations are never used as if they had succeeded",
  "The result of an operation that can fail is dereferenced, called or indexed at a fixed position only where its failure has been ruled out, and no text is cut into pieces beyond its end, so that no malformed token, key, certificate, URL, upstream reply or process statistic can crash a request handler, a background task or the server.",
  ["inputs","fault_sequences"],
  "every fallible call whose result is used",
  "Tests provide well-formed inputs; the failing branch of each call is rarely taken.",
  ["proxy.go","proxyhandler.go","jwt.go","tls.go","stats.go","config.go"],
  [("error checks","everywhere")])
p("C33","The process statistics history stays bounded",
  "The in-memory history of process samples never holds more than 24 samples however long the server runs, new samples are appended at the end, and the growth report never reads outside it.",
  ["histories"],
  "every uptime and sample sequence",
  "The test appends fifty samples; boundedness is an inductive property.",
  ["stats.go"],
  [("samples.append / samples.log","stats.go")])
# not applicable in this family
p("C34","Policies split traffic according to their weights",
  "Over many requests the share of requests a policy sends to each label equals that label's configured weight.",
  ["histories","configurations"],
  "every policy and request volume",
  "A statistical property of random choices over time.",
  ["policy.go"],[("resolveLabel","policy.go")])
p("C35","Decompression inverts compression",
  "Decompressing what the server compressed yields the original bytes for every body.",
  ["inputs"],"every byte sequence","Tests try two payloads.",
  ["gzip.go"],[("Gzip/Gunzip","gzip.go")])
p("C36","Path transforms rewrite exactly the matched prefix",
  "For every route with a transform, the upstream request URI is the downstream URI with exactly the leading route path replaced by the transform.",
  ["inputs","configurations"],"every URI and transform","Nine sample rewrites are tested.",
  ["proxy.go"],[("resolveUpstreamURI","proxy.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
