chk("C02", "runtime monitoring: handler-side recording compared with an independent model of the request sent, under generated segmentations and delays", G)
chk("C03", "runtime monitoring: trace checker over handler log and wire for bodies that spell requests, with handlers reading chosen parts of them", G)
chk("C04", "runtime monitoring: malformed-input fuzzing of the running server with a handler-ran oracle, capacity probes, CPU and memory monitors", G)
chk("C05", "runtime monitoring: grammar-generated ambiguous lengths followed by smuggled requests, handler-ran and connection-closed oracles", G)
chk("C06", "runtime monitoring: independent strict response parser on the wire, with failing and short body sources", G)
D2 = "The verdict is about the inputs generated and observed (counts in the evidence file), not a proof."
chk("C07", "runtime monitoring: structure-aware fuzzing of the parsers through an instrumented byte source (panic, runaway-read and granularity monitors, every truncation and I/O fault)", D2)
chk("C08", "runtime monitoring: write/read-back round trips through an instrumented destination with short writes, interruptions and injected faults", D2)
chk("C09", "runtime monitoring: which handler ran (hit log) compared with an independent model of route matching, over generated route tables and requests", G)
chk("C10", "runtime monitoring: the target seen by the handler compared with an independent model of normalisation and query splitting", G)
chk("C11", "runtime monitoring: file-serving oracle over a scratch tree with links, special files and concurrent replacement; marked secrets outside the tree must never appear on the wire", G)
chk("C12", "runtime monitoring: connection-lifetime monitor (when the server closes, keeps open, or continues) over version and Connection combinations, plain and TLS", G)
chk("C13", "runtime monitoring: overload runs with gate-blocked handlers; accounting of accepted, refused and served connections", G)
chk("C14", "runtime monitoring: instrumented actions (run, finish, release and concurrency counters) over random, expiry-timed, concurrent and panicking histories of the real pools", "The verdict is about the histories observed, not a proof; the pools are reached through a guarded re-export (cfg wruster_verif).")
chk("C15", "runtime monitoring: panic injection at every moment of an exchange with per-connection trace oracles, capacity probes and shutdown", G)
chk("C16", "runtime monitoring: timing monitor of connection lifetimes under paced (silent, partial, trickled, flooding) clients, with a stall detector and threefold confirmation", G + " Timing verdicts tolerate 0.65 s plus measured stalls.")
chk("C17", "runtime monitoring: lifetime monitor on response sources under clients that do not read or drip, byte-exact check of clients that do", G + " Timing verdicts tolerate 0.8 s plus measured stalls.")
chk("C18", "runtime monitoring: shutdown with connections in every state; handler start/end times, wire traces, port and promptness oracles, under a storm of new connections", G)
chk("C19", "runtime monitoring: descriptor, thread and heap accounting (counting allocator) over thousands of connections ended in every way", G)
chk("C20", "runtime monitoring: differential oracle plain versus TLS (responses and handler observations) with a record-level TLS client, plus broken-handshake clients with lifetime, CPU and capacity monitors", G)
chk("C21", "runtime monitoring: the real client against scripted healthy servers, both ends of every connection watched (exclusive use, reuse only after full consumption and without close) and byte-exact response oracles", G)
chk("C22", "runtime monitoring: fault injection by scripted bad servers (cuts, resets, stalls, nonsense, unsupported lengths and encodings) under an error-or-exact oracle, with panic, time and volume monitors", G)
chk("C23", "runtime monitoring: exact LRU/bound/exclusivity model over random and contended pool histories, expiry-time monitor on pooled entries, and connection-lifetime logs kept by 130 servers around the real client", "The pool is also reached through a guarded re-export (cfg wruster_verif). Verdicts are about the histories observed.")
chk("C24", "runtime monitoring: random histories of lifecycle calls over several servers against a reference state machine, with connections made right after run and threads/descriptors accounted for", G)
chk("C25", "runtime monitoring: fault injection into a server process (signal storms, stop/continue, descriptor exhaustion, aborted connections) with byte-exact traffic, exactly-once, capacity and CPU monitors", G)
chk("C26", "runtime monitoring: the built programs run as processes under generated good and bad configurations, with a wire oracle and exit-status monitor; the middleware compared call by call with the bare handler through instrumented bodies", G)
chk("C27", "sanitizers: ThreadSanitizer, AddressSanitizer with LeakSanitizer (standard library rebuilt with them) over the workloads of the other checks, and Miri over parsers, pools, client and whole plain-TCP server runs; planted errors prove each monitor live on every run", "Covers the executions observed. ring assembly is not instrumented, TLS is not run under Miri, and under Miri the crate polling is replaced by an equivalent one.")
chk("C29", "runtime monitoring: latency monitor over exchanges, calls, starts and shutdowns beside deliberately stalled peers, handlers and client calls", G + " An exchange counts as held up after 2 s, in three runs of the same case.")
chk("C28", "runtime monitoring: heap high-water mark (counting allocator), processor-time and thread monitors under endless, untaken and adversarially shaped traffic, with ratio and absolute bounds", G + " Heap and processor time include those of the harness's peers.")
chk("C30", "runtime monitoring: model-based random histories of header collections and bodies through an instrumented source, exhaustive conversion of codes and names, and constructed messages compared with what was asked for", D2)
