#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so they can be diffed and reviewed."""
import json, os
P = []
L = "wruster/src/lib.rs"; M = "wruster/src/http/mod.rs"; H = "wruster/src/http/headers.rs"
R = "wruster/src/router/mod.rs"; T = "wruster/src/router/trie.rs"; CS = "wruster/src/streams/cancellable_stream.rs"
TS = "wruster/src/streams/timeout_stream.rs"; OB = "wruster/src/streams/observable.rs"; TL = "wruster/src/streams/tls/mod.rs"
TP = "wruster/src/thread_pool/mod.rs"; SP = "wruster/src/thread_pool/static_pool.rs"; DP = "wruster/src/thread_pool/dynamic_pool.rs"
CL = "wruster/src/http/client/mod.rs"; CP = "wruster/src/http/client/connection_pool.rs"; ST = "wruster/src/http/status.rs"
WH = "wruster_handlers/src/lib.rs"; WS = "wrustatic/src/main.rs"; WD = "wrusdummy/src/main.rs"

def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}})

prop("C01", "Each request gets exactly its own response, once and in order",
 "On every connection, each complete well-formed request runs the handler registered for it exactly once and gets exactly one response, the one that handler call produced, and responses arrive in the order of the requests, including requests that the client pipelines. Nothing of a request or of a response ever shows up on another connection, however many connections are active at the same time.",
 ["histories", "schedules", "inputs"], "all sets of concurrent connections, request sequences per connection, pipelining depths, handler delays and thread interleavings",
 "The tests send one request per connection, one connection at a time; none pipelines, reuses a server connection under load, or checks which request a response belongs to.",
 [L, M, CS, SP, DP], [("one worker drives one conversation, request by request", L+": handle_conversation/handle_connection"), ("request parser consumes exactly one message", M+": Request::read_from")],
 ["client sockets (request sent / response received)", "handler entry with the request's unique id"],
 [("connection buffer", "bytes already received that belong to later requests", L)])

prop("C02", "Handlers see exactly the request that was sent, however it is cut up",
 "For every well-formed request, the handler is given exactly the method, target, version, header fields (values in order, names matched case-insensitively, surrounding whitespace dropped) and body bytes that the client sent. This does not depend on how the bytes are divided into segments or delayed within the timeouts, on their total size, or on what was sent before on the connection.",
 ["inputs", "schedules"], "all well-formed requests (methods, targets, header sets, body sizes from 0 to megabytes) and all ways of cutting their bytes into writes",
 "The tests parse a dozen fixed strings held in memory and send one 4-byte body over a socket in one write.",
 [M, H, CS, TS, L], [("buffered line/header/body parsing", M+": HttpRequestLine::read_from, Body::read_from"), ("header parsing and name normalisation", H+": Header::parse_header_line")],
 ["what the handler observes in &mut Request", "bytes written by the client"])

prop("C03", "Body bytes a handler leaves unread are never taken for a request",
 "Whatever part of a request body its handler reads (nothing, some, all, through either reading interface), the rest of that body is discarded, and the next request on the connection starts exactly after it. Body bytes, even ones that spell a valid request, never cause a handler to run.",
 ["inputs", "histories"], "all body contents and sizes, all amounts read by the handler before it answers, all sequences of such requests on a kept-alive connection",
 "Every handler in the tests reads the whole body, and no test sends a second request on the same server connection.",
 [L, M], [("the request body is drained before the response is written", L+": handle_connection"), ("Body::ensure_read", M)],
 ["handler invocations per connection", "responses on the wire"])

prop("C04", "Malformed requests run no handler and hurt nobody else",
 "Bytes that do not form a well-formed request (bad method, bad request line, control characters or line breaks in the target, bad header field, a head that ends early) never run a handler: the client gets a 400 response or its connection is closed. No such input stops the server, makes it burn CPU forever, exhausts its memory or takes away its capacity to serve other connections, however long it is and however often it is repeated.",
 ["inputs", "histories"], "all byte sequences that are not well-formed requests, sent alone, repeatedly, truncated at every point, and mixed with good traffic",
 "The tests feed four malformed header lines to the header parser and never send a malformed request to a server, so neither the reaction nor the survival of the server is observed.",
 [L, M, H, SP], [("InvalidRequest becomes 400 and close", L+": handle_connection"), ("syntax checks", M+": HttpRequestLine::read_from; "+H+": parse_header_line")],
 ["client sockets", "handler invocation log", "panics and CPU time of the server process", "a good client running beside it"])

prop("C05", "Ambiguous message lengths are refused",
 "A request whose body length is not given by at most one Content-Length made only of digits (repeated, signed, non-numeric or overflowing Content-Length, or any Transfer-Encoding other than a single identity) never runs a handler and its connection is closed. No byte that follows its header section is ever interpreted as another request.",
 ["inputs"], "all combinations, spellings, letter cases, whitespace and orders of Content-Length and Transfer-Encoding fields, with any following bytes",
 "No test sends Transfer-Encoding or a repeated or malformed Content-Length.",
 [M, H, L], [("length and encoding checks", M+": Body::read_from"), ("close after a failed read", L+": handle_connection")],
 ["handler invocation log", "responses on the wire after the ambiguous request"])

prop("C06", "Every response on the wire is self-delimiting or the connection ends",
 "Every response the server sends carries exactly one Content-Length, equal to the number of body bytes that follow it (after a HEAD request no body follows), so a client on a kept-alive connection always knows where it ends, also when the handler built the response from a plain string, from a status, from a reader of known length, or with explicit headers. If the announced body cannot be delivered in full (its source ends early or fails), the connection is closed and nothing more is sent on it.",
 ["inputs", "fault_sequences"], "all ways of building a response through the public API, body sizes around the buffer limits and above 2 MiB, sources that end early, run long or fail part-way",
 "The tests serialise three tiny well-behaved responses into memory; none checks framing for a string response, a source of the wrong length, or a failing source.",
 [M, L], [("headers and body writing", M+": Response::write, Body::write"), ("close on write error", L+": handle_connection")],
 ["raw bytes on the client socket"])

prop("C07", "Message parsers are total: they always end with a value or an error",
 "Reading a request, a response or a header section from any source of bytes ends with a message or an error after a bounded amount of work: it never panics, never loops forever, also when the source ends in the middle, delivers one byte at a time, or fails part-way. A message that ends before its header section is complete is an error, never a shortened message, and a body cut short is reported as an error to its reader.",
 ["inputs", "fault_sequences"], "all byte strings, all truncation points, all read granularities, and an I/O error or interruption at every read",
 "The tests parse complete inputs held in memory; none ends early, errors or contains arbitrary bytes.",
 [M, H], [("line and header readers", M+": HttpRequestLine/HttpResponseLine::read_from; "+H+": Header::read_from")],
 ["return value, panics and number of reads made on an instrumented source"])

prop("C08", "What is written is read back the same",
 "A response or request that is written and read again has the same status code (for every three-digit code), method, target, header fields with their values in order, and body bytes. The bytes written do not depend on how few bytes the destination accepts per write, and an error of the destination is reported to the caller, never swallowed.",
 ["inputs", "fault_sequences"], "all messages expressible through the public API, all status codes 100 to 999, all short-write patterns and write errors of the destination",
 "The tests compare four fixed serialisations into a Vec, which accepts everything in one write; no test reads back what it wrote, and status codes are not covered.",
 [M, H, ST], [("message writers", M+": Request::write, Response::write; "+H+": Headers::write"), ("status code table", ST)],
 ["bytes collected by an instrumented writer", "the message parsed back from them"])

prop("C09", "Routing picks the most specific registered route, and only a real match",
 "A request is handled by the handler registered for its method on the longest registered path that equals the request path or is an ancestor of it by whole path segments, whatever the order of registration; a later registration for the same path and method replaces the earlier one and leaves all others alone. If there is none, the response is 404 and no handler runs; a query string does not take part in the match.",
 ["inputs", "configurations"], "all sets of routes over overlapping paths and methods, all registration orders, all request paths and methods",
 "The tests register at most two routes and look up at most one path per case; they do not probe sibling names, shadowing by method or replacement.",
 [R, T, L], [("prefix search in the trie", T+": get_value_prefix"), ("handler table per path", R+": Router::add/get_prefix"), ("404 when nothing matches", L+": run_action")],
 ["which handler answers on the wire"],
 [("trie of routes", "path to handler-per-method", T)])

prop("C10", "Request paths are normalised and never climb above the root",
 "The path that routing and handlers see is always absolute and free of '.', '..' and empty segments, and equals the request path resolved in the usual way; the query string after it is passed on unchanged. A path that would climb above the root, or that is not absolute, is answered with an error status and runs no handler.",
 ["inputs"], "all request targets: every mix of dots, double dots, repeated slashes, long and odd segments and query strings",
 "The tests normalise five fixed paths and never look at what a handler receives.",
 [L, R], [("path normalisation", R+": Normalize for PathBuf"), ("applied before routing", L+": run_action")],
 ["request.uri as the handler sees it", "response status on the wire"])

prop("C11", "Static files: exactly the file's bytes, and only from the served directory",
 "Serving a directory answers a path with 200, the exact current content and the matching length exactly when it names a regular file inside that directory, directly or through symbolic links that stay inside it; anything else (missing, directory, special file, or a path leading outside by a symbolic link, '..', absolute or doubled slashes) is answered with an error status. Content from outside the directory is never sent, whether the handler is reached through the server or called directly, and serving never blocks on special files.",
 ["inputs", "histories"], "all directory trees and request targets, all file sizes (empty, small, around buffers, several MiB), files that grow, shrink or vanish while being served",
 "There is no test for the static handler at all.",
 [WH, L, R, WS], [("path joining and file checks", WH+": serve_static"), ("normalisation in front of it", L+": run_action")],
 ["response bytes on the wire compared with the tree on disk and with canary files outside it"])

prop("C12", "Connections stay open or close as version and Connection header say",
 "After a complete exchange the server keeps the connection open and serves the next request when the request was HTTP/1.1 without the close option or HTTP/1.0 with keep-alive, and otherwise, or when the handler's response carries the close option itself, closes it after delivering the full response; after an error response to an unreadable request it always closes. The Connection option is recognised in any letter case and anywhere in a comma-separated list.",
 ["inputs", "histories"], "all versions, Connection header spellings and positions, at any point of a sequence of requests",
 "The tests only see keep-alive indirectly through the client and never send Connection or HTTP/1.0; none has a handler that asks for the end or changes the request it was lent.",
 [L, M], [("persistence decision", L+": is_connection_persistent"), ("conversation loop", L+": handle_conversation")],
 ["whether a following request is answered or the socket reaches end-of-file"])

prop("C13", "Under overload every connection is either served or told 503",
 "The server serves up to 100 connections at the same time and never runs more than 100 handlers at once; every connection it accepts beyond its free capacity gets a 503 response and is closed, and none is silently dropped or left hanging; a few that stall while they are refused delay the refusal of no others. When connections end, their capacity becomes available again, for any number of overload rounds, and connections in service are not disturbed.",
 ["schedules", "histories"], "all arrival orders and bursts of connections, holding times, and repeated overload and recovery rounds",
 "The tests check the busy error of the pool with one or two blocked actions; nothing saturates a server or looks at 503.",
 [L, TP, SP, DP], [("pool limits", TP+": Pool::run"), ("503 path", L+": handle_busy"), ("accept loop", L+": accept_connections")],
 ["per-connection outcome at the client", "number of handlers running at once"])

prop("C14", "Thread pools run every accepted action exactly once",
 "An action that a pool accepts runs exactly once, and an action it refuses is handed back unrun; dropping a pool returns only after all accepted actions have finished. No more actions run at the same time than the configured maximum, a pool with an idle worker accepts work within bounded time (at once when the worker has been idle for a while, whichever others are busy), and workers that time out, exit or are replaced lose no action and no capacity.",
 ["schedules", "histories"], "all submission patterns, action durations, worker time-outs and interleavings of submission with worker exit, for all pool sizes",
 "The tests submit one or two actions to pools of one or two workers; the race between a worker timing out and a new action is not exercised.",
 [TP, SP, DP], [("rendezvous hand-over", SP+": Worker::exec; "+DP+": DynamicWorker::exec"), ("free cell list", DP+": try_add_worker")],
 ["run results, action start/finish events, drop return"],
 [("free_cells", "slots without a live worker", DP)], "cfg(wruster_verif) re-export of the private pool types (wruster::verif_hooks)")

prop("C15", "A panicking handler costs only its own connection",
 "If a handler panics, only the connection it was serving is affected (it is closed, possibly without a response): the server keeps accepting, all other connections go on undisturbed, and the number of connections it can serve at once does not shrink, no matter how many handlers panic or when. A shutdown afterwards still succeeds.",
 ["schedules", "fault_sequences"], "all patterns of panicking and normal handlers over all workers, before, during and after load",
 "No test has a handler that panics while other requests follow.",
 [L, SP, DP], [("worker loop", SP+": Worker::new; "+DP+": DynamicWorker::new")],
 ["client outcomes after panics", "concurrency reached after panics", "result of shutdown"])

prop("C16", "The read timeout bounds every request, however the client paces its bytes",
 "A connection on which a complete request has not arrived within the configured read timeout (measured from when the server starts waiting for it, sub-second values included) is closed and its worker freed, whether the client is silent, sends a part and stops, or keeps trickling single bytes, and nobody keeps a connection by sending on after its last response. A request that arrives completely well within the timeout is always answered, no matter how many slow clients are connected as long as capacity is left.",
 ["schedules", "configurations"], "all pacings of request bytes (head and body), all timeout values, on fresh and kept-alive connections",
 "One test waits for an idle close with a whole-second timeout; pacing below one second and sub-second timeouts are not tested (and the one timeout unit test is unreliable).",
 [TS, CS, L], [("accumulated per-request budget", TS+": Operation"), ("poll with timeout", CS+": read_int")],
 ["time to close at the client with wide margins", "number of trickled bytes the server accepted"])

prop("C17", "The write timeout bounds every response, however slowly the client reads",
 "A response that its client does not take within the configured write timeout (not reading at all, or draining a few bytes at a time) makes the server close that connection and free its worker instead of waiting longer. A client that keeps reading fast enough gets every byte of the response, and other connections are not affected.",
 ["schedules", "configurations"], "all reading paces, response sizes larger than the socket buffers, and timeout values",
 "No test has a client that reads slowly or a response that exceeds the socket buffers (the file the only large-write test needs is missing).",
 [TS, CS, L], [("write loop with poll", CS+": write_int"), ("accumulated budget", TS+": Operation")],
 ["time until the server gives up, seen by the client and by the body source being read"])

prop("C18", "Shutdown is graceful, complete and prompt",
 "Shutdown lets every request whose handler is already running finish and deliver its complete response; when it returns, no handler is running or will start, the port is closed and free to be bound again, and every connection has been closed. It returns within bounded time when clients are idle or silent, and only after the running handlers are done.",
 ["schedules", "crash_points"], "all moments of shutdown relative to connecting, sending, handling, writing and idling clients, for any number of connections, plain and TLS",
 "One test shuts down a server that never had a connection; none shuts down while requests are running or checks what happened to them.",
 [L, CS, OB, TP], [("stop flag, notify, drain and shutdown of tracked streams", L+": accept_connections, Server::shutdown"), ("pool drop joins workers", SP)],
 ["handler start/end events against the return of shutdown", "client outcomes", "re-binding the port"],
 [("ObservedStreamList", "connections that shutdown must close", OB)])

prop("C19", "Connections leave nothing behind",
 "When all connections of a server have ended, in whatever way (answered, refused, malformed, timed out, reset, panicked, over TLS or not), the process holds no more sockets or poll descriptors than before, and extra worker threads end after their idle period. Memory does not grow with the number of connections or requests served.",
 ["histories", "fault_sequences"], "all histories of connections with any mix of endings, of any length",
 "The tests check that one tracked stream leaves a list; none counts descriptors, threads or memory after a workload.",
 [L, OB, CS, DP], [("stream drop and list removal", OB+": ObservableStream::drop"), ("worker timeout", DP)],
 ["/proc/self/fd, thread count and heap use before and after the workload"])

prop("C20", "TLS carries exactly the same conversations as plain TCP",
 "Every exchange (requests of any size and segmentation, pipelined or kept alive, responses of any size, slow or fast readers) has the same result over TLS as over plain TCP: the handler sees the same request and the client receives the complete response. A client that fails or stalls the TLS handshake, or sends garbage, affects only its own connection, which is closed within the read timeout. All this holds with every kind of private key (RSA, ECDSA or Ed25519, in PKCS#1, PKCS#8 or SEC1 form) and wherever in their PEM files key and certificate stand.",
 ["inputs", "schedules"], "all exchanges, TLS record sizes, socket segmentations, reading paces, and broken handshakes",
 "The TLS tests exchange one request with a 4-byte body and an empty response; larger bodies, several records and slow readers are not covered.",
 [TL, CS, L], [("non-blocking rustls stream behind a poller", TL+"; "+CS+": read_int/write_int/flush")],
 ["handler log and client results over TLS compared with a model and with plain TCP"])

prop("C21", "The client returns each caller the response to its own request",
 "Each successful client call returns the complete response (delimited by Content-Length) the server sent for that very request, also when many threads share one client and connections are reused. A connection is reused only after the previous response on it is fully consumed or discarded and only if neither side asked to close it, so a sequence of calls against a healthy server never fails because of an earlier call.",
 ["histories", "schedules"], "all interleavings of calls by several threads, all amounts of body consumed before dropping a response, all mixes of keep-alive and close, all addresses",
 "The client tests make two sequential calls on one thread with empty response bodies.",
 [CL, CP, M], [("take from / return to the pool", CL+": Client::run, ClientResponse::drop"), ("drain before reuse", M+": Body::ensure_read")],
 ["per-call result against the server's log", "connections and order of requests seen by an independent server"])

prop("C22", "Bad servers give the client an error, never a wrong success or a hang",
 "When a server closes early, resets, sends a truncated, malformed or garbage response, or announces an unsupported encoding, the client call or the reading of its body ends with an error, without panic or endless loop; a body cut short is never presented as complete. The client stays usable for other calls.",
 ["inputs", "fault_sequences"], "all byte sequences a server can send, cut at every point, at every stage of an exchange",
 "The client is only ever tested against wruster's own server behaving well.",
 [CL, M, H], [("response parsing", M+": Response::read_from"), ("body reading", M+": Body::read_from")],
 ["result of the call and of reading the body against a hostile scripted server"])

prop("C23", "The client's connection pool is bounded, exclusive and cleaned up",
 "The client keeps at most 100 idle connections, never hands one idle connection to two calls, drops the least recently used one when full, closes connections idle for longer than the idle limit, and closes all idle connections when it is dropped, which does not block. A connection used within the idle limit stays usable.",
 ["histories", "schedules"], "all sequences of calls over any number of addresses, idle times, and drop moments",
 "The tests insert one resource and check that dropping the pool ends its worker thread.",
 [CP, CL], [("bounded map with eviction", CP+": Pool::insert/remove_lru"), ("expiry worker", CP+": expire_connections")],
 ["server-side view: which connections are open, reused or closed"],
 [("resources", "idle connections by address", CP)])

prop("C24", "Server lifecycle calls behave as documented in any order",
 "Once run returns successfully the server is reachable at once; a second run on the same server, a run on an address that is taken or invalid, and wait or shutdown on a server that was not started return an error, leave a running server untouched and a not-started server still startable. Any number of servers can be run, shut down and started again on the same address, in one process, without interfering with each other.",
 ["histories", "schedules", "configurations"], "all sequences of new, run, run_tls, wait and shutdown over several servers and addresses, with clients connecting at any moment",
 "The tests run each server once on a free port, sleep one second before connecting, and never exercise the documented errors.",
 [L, TL], [("start guards and binding before return", L+": Server::start"), ("stop and join", L+": Server::shutdown, Server::wait")],
 ["return values", "connections made right after run returns"])

prop("C25", "Transient system faults stop neither the server nor a response",
 "Interrupted system calls (signals, stop and continue), temporary exhaustion of file descriptors, and connections aborted before they are accepted never end the server and never corrupt, duplicate or drop bytes of a request or response in progress, nor do signals make a client call fail. Once the fault is over, new connections are served as before.",
 ["fault_sequences", "schedules"], "all placements and repetitions of signals, descriptor exhaustion and aborted connections during accepting, reading and writing",
 "No test injects any system-level fault.",
 [L, CS, TL], [("accept loop error handling", L+": accept_connections"), ("retry on interruption", CS+": read_int/write_int")],
 ["a server in its own process under injected signals and descriptor limits, observed by an independent client"])

prop("C26", "The programs and the logging middleware serve exactly what they are told",
 "The dummy server answers every configured path and method with exactly the configured status, content type and content, and everything else with 404; the static server serves exactly its directory over HTTP or HTTPS; a configuration that cannot be read or used (bad arguments, file, method, content type, directory, key or address) ends the program with an error status instead of a half-configured server. Wrapping a handler in the logging middleware calls it exactly once per request and changes neither the request nor the response.",
 ["configurations", "inputs"], "all valid and invalid configuration files and command lines, all requests, all handlers wrapped by the middleware",
 "The two programs and the middleware have no tests.",
 [WD, WS, WH], [("configuration to routes", WD+": main, config"), ("command line to server", WS+": main"), ("log_middleware", WH)],
 ["exit status of the programs", "responses on the wire", "handler invocation log"])

prop("C27", "No memory error, data race or leak in any reachable execution",
 "Under concurrent load (parsing, routing, pools, connections, shutdown, client calls), no execution reads or writes invalid memory, races on shared data, or loses track of allocated memory. This holds for the repository's code together with the libraries it drives.",
 ["schedules", "inputs"], "all interleavings and inputs of the concurrent parts: pools, streams, server, client",
 "Ordinary test runs are not instrumented: an error of this kind usually leaves no visible trace.",
 [SP, DP, CS, OB, CP, L], [("ownership and synchronisation of shared state", "thread pools, streams, connection pool")],
 ["reports of the thread, address and leak sanitizers and of Miri over the workloads"])

prop("C28", "What a peer sends or leaves costs bounded memory and proportional work",
 "Whatever one peer sends (heads or bodies without end, requests whose responses it never takes, responses it does not read, bytes behind a refused request) the memory the server or the client holds for that connection stays below a constant that does not depend on how much is sent or announced; bodies in both directions and served files are streamed, never collected. The processor time spent on a message grows in proportion to its size, however it is shaped or cut up. The number of threads stays bounded however many connections there are.",
 ["inputs", "histories"], "all shapes, sizes and segmentations of requests and responses, all peers that send without end or take nothing, any number of connections",
 "No test sends anything larger than a few kilobytes or measures memory or time.",
 [M, H, L, R, CL, WH], [("limit of the head", M+": MAX_HEAD_SIZE"), ("streaming of bodies", M+": Body::write, Body::ensure_read, RequestReader::discard_body"), ("normalisation and routing", R+": normalize, get_prefix")],
 ["peak of the heap of the process", "processor time of the process for a message and for one 32 times as large", "number of threads"])
prop("C29", "What stalls holds up nothing but itself",
 "As long as fewer connections are in service than the server serves at once, a client that stalls at any point (before or within its TLS handshake, within a head or a body, without taking its response, after its last response), a handler or a body source that takes long or panics, and connections that are opened and dropped without end, hold up no other exchange: connections that exist, new ones, and other servers of the same process are served, and other servers shut down, without delay. In the same way a call of a client that waits (for the connection, for a head or a body, to send its request, or to discard what is left of a response) holds up no call of another thread through the same client, to the same server or to others, and no other client.",
 ["schedules", "histories"], "all combinations of stalled peers, handlers and calls below the capacity, and everything that goes on beside them",
 "No test has more than one client at a time with one of them stalled.",
 [L, M, CL, OB, TL, WH], [("nothing waits in the accepting thread", L+": accept_connections"), ("no lock is held while connecting or reading", CL+": Client::run, ClientResponse::drop"), ("tracking of connections", OB+": ObservedStreamList")],
 ["how long each exchange, call, shutdown and new connection takes while the others are stalled"])

prop("C30", "What messages are made of follows simple models",
 "After any sequence of additions a header collection holds each name once, whatever the case of its letters, with all its values in the order they were added; look-ups, iteration and what is written agree with that. Numbers, names and texts of statuses, methods and versions convert to each other and back without confusing two of them, and what the constructors of bodies, requests and responses produce has exactly the content, length, type, status and connection option that were asked for. After any sequence of reads, through the body or its content, discarding the rest of a body takes exactly what is missing of its announced length from its source, never takes more when done again and never panics, and errors of input and output are reported as what they are.",
 ["inputs", "histories"], "all sequences of operations on headers and bodies, all numbers and names, all messages built by hand",
 "The tests construct a handful of messages, with one or two headers each, and read a body in one way only.",
 [M, H, ST, "wruster/src/http/version.rs", "wruster/src/http/errors.rs"], [("multimap of headers", H+": Headers::add, get, iter, write"), ("conversions", ST+"; "+M+": HttpMethod"), ("bodies", M+": Body::ensure_read, IntoBody, Response::from_content")],
 ["every observation of a history compared with a model of it"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
import re
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = len(re.findall(r"[.!?](?:\s|$)", p["statement"])); assert n <= 3, (p["id"], n)
print(len(P), "properties")
