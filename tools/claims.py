CLAIMS = {}
def claim(pid, technique, note, **kw): CLAIMS[pid] = dict(technique=technique, note=note, **kw)
claim("K01", "TLA+ spec SharedPtr.tla, TLC model checking + replay of TLC-generated histories",
      "Exhaustive over 3 pointers and 3-4 objects up to the stated depth in the model; all histories up to length 4/5 over 2 pointers and random ones of length 30 over 4 replayed on the real class with instrumented objects.")
NOT_APPLICABLE = {}
HOOKS = None
NOTES = "TLA+ specifications (spec/*.tla) checked with TLC; conformance by replaying TLC-generated behaviours into the real code and by TLC trace validation of recorded executions."
HP = "TLA+ spec HttpParse.tla (byte-level incremental parser), TLC over all segmentations and truncations + replay of every generated message into the real parser"
claim("H01", HP, "Model: every generated head (names x separators x padding x fold) under every segmentation. Code: every single cut, byte-by-byte, random multi-cuts, truncations, heads up to many times the 16 KB receive buffer (each line within it).")
claim("H02", HP, "Model: all generated bodies (content-length, chunked with extensions/trailers/size styles, pipelined successor) under every segmentation and truncation. Code: same messages, scaled to buffer-size boundaries, through parseBody.")
claim("H05", HP, "As H01/H02 for status lines, response headers and bodies, plus response sequences on one connection.")
claim("H08", HP, "As H02 through saveToFile, checking the resulting file over missing/shorter/longer previous contents.")

HS = "TLA+ spec HttpSession.tla (server connection state machine with pipelining, partial sends, faults, drain and reset), TLC safety + liveness checking; TLC-generated client scripts replayed against the real ConnectionHandler/Router over socket pairs"
claim("H03", HS, "Model: one connection with 3 requests exhaustively incl. liveness (2x2 in thorough). Code: hundreds/thousands of generated scripts on 1-2 connections with random segmentations; every response compared with what that request must produce. Endpoints: fixed and chunked bodies, whole/partial file transfers, SSE, path parameters, wildcards, bodies read/ignored, handlers that throw, transfers whose file fails half way (the connection must then close, never be reused).")
claim("H04", HS, "As H03 with half-close, reset, unparsable bytes, throwing handlers and idle time-outs on up to 3 connections; each connection must be open or closed exactly when the model says.")
claim("H10", "TLA+ spec HttpGarbage.tla (contract of an attacked and a probe connection; liveness by TLC), TLC-enumerated token sequences replayed against the real server connection code",
      "All token pairs plus random structured sequences up to 24 tokens (45 tokens: start lines, header and chunk fragments, overflowing numbers, binary, oversize). Harness built with libstdc++ assertions; output of the attacked connection must be well-formed responses, the probe connection must stay correct.")
claim("R01", "TLA+ spec Router.tla: TLC proves the tree search equal to 'most specific match' for every small table and path; TLC-generated tables and paths replayed against the real Router",
      "All ordered tables of 2 routes (3 in thorough, model) over depth-2 patterns with all paths to length 3 over {a,c,**}; random tables of 6 routes, depth 3, two methods, odd slashes, queries.")
claim("R02", "TLA+ specs Router.tla (expected parameters, wildcard text and query map of each generated request) and PathParams.tla (what a parameter text denotes in each integer, floating point, bool and enumeration type; bounds as digit sequences), compared with what the handler observes",
      "Random tables (3-6 routes) and request sequences on one connection; targets with doubled and trailing slashes, literal '**', '{}' segments and queries; patterns to depth 6; texts around the bounds of every type and with trailing characters.")
claim("R03", "TLA+ spec Interceptors.tla checked by TLC over every interceptor program; every generated program and request history replayed against the real Router",
      "Exhaustive over the compiled interceptor signatures (up to 3 interceptors of 6 kinds, all outcomes), 1-2 requests, plus random three-route histories of 6 requests.")
WS = "TLA+ specs WebSocket.tla (endpoint receiving frames in units, reassembly, pongs, time-out pings, close), WsFrame.tla (frame layout), WsHandshake.tla (upgrade + early data), checked by TLC; generated frame histories replayed against WebSocketServer and WebSocketClient over socket pairs"
claim("W01", WS, "Model: every sequence of up to 4 frames (text/binary/continuation/ping/pong/close, fin or not, malformed kinds) delivered in units, with recv time-outs. Code: generated histories with payload sizes across the length encodings, random splits of header and payload, both roles.")
claim("W02", WS, "Model: canonical header for every length class and role. Code: every class boundary (0,125,126,127,65535,65536,...) sent and received in both roles, as messages and as prepared frames sent once or twice, raw bytes decoded by an independent strict decoder; wrong masking refused.")
claim("W03", WS, "Model: all header presence/absence combinations x early frames; close initiated by either side at every point. Code: the same handshakes against accept and connect, and generated close histories.")
claim("H06", "TLA+ spec HttpWriter.tla (setter calls -> wire tokens, independent decoder), TLC checks that every setter history round-trips; generated setter histories replayed on the real writers over a socket pair and decoded by an independent strict parser",
      "Model: all setter/send/clear/transfer histories of up to 5-6 operations and 2 messages, bodies that look like framing. Code: random histories of 4 messages and 18 calls for responses and requests, body sizes up to twice the file buffer, HEAD.")
claim("H07", "TLA+ spec Range.tla (request -> refused / plan of byte intervals, transfer through a buffer), checked by TLC; TLC-enumerated sizes x range forms x lists replayed on the real transfer and compared byte for byte",
      "Model: all sizes and range forms over small positions with buffer 2-3, termination. Code: every form over boundary sizes and positions around the 128 KB buffer, lists of up to 4 ranges, malformed values, HEAD, read-only files.")
claim("H09", "TLA+ spec Sse.tla (writer, byte stream in arbitrary pieces, incremental parser), TLC safety + liveness; generated event histories pushed through the real handler and parsed by the real client",
      "Model: all events over a small alphabet with every segmentation. Code: random histories of 8 events (CRLF/blank/colon content, multi-line, values beyond the receive buffer), own and foreign renderings, random segmentations.")
CO = "TLA+ spec Coro.tla (abstract machine of tasks, timers, yields, I/O, whenAny/whenAll, serial executor on one event loop), TLC safety + liveness over all small programs; generated programs run on the real EventLoop, every recorded trace accepted or rejected by TLC"
claim("L01", CO, "Programs of up to ~16 coroutines with sleeps of equal/near/zero duration, timed loops, cancelled timers under whenAny; trace order of expiries and early firing judged.")
claim("L02", CO, "Yield-heavy programs with pending timers and I/O, detached roots, sync entry, signals between coroutines; every coroutine that can run must end, the loop must return exactly when nothing is left.")
claim("L03", CO, "Nested whenAny over tasks, timers, yields and pending reads; losers must not run again, completions in the same turn, values and exceptions of the winner.")
claim("L04", CO, "Nested whenAll over tasks, timers, yields and reads; completes exactly when the last operand ends; results or the exception delivered once.")
claim("L05", CO, "Call chains with values, exceptions, dropped tasks and instrumented results (leaks, double destruction), long loops of synchronous completions.")
claim("L06", CO, "Several submitters, tasks that sleep, yield, do I/O, throw or complete synchronously; one at a time, FIFO, result or exception to its submitter. Cancelling a queued submission (whenAny) is excluded: the class documents it as unsupported.")

PO = "TLA+ specs Pool.tla (contract) and PoolImpl.tla (mutex/condition-variable algorithm, manager, destructor; TLC checks safety, liveness and refinement to the contract); generated programs run on the real pool under a controlled scheduler that picks every interleaving point from a seed, every trace accepted or rejected by TLC"
claim("T01", PO, "Programs of up to 12 tasks submitted from up to 3 threads and from inside tasks, fixed and dynamic pools; 1100 (quick) schedules. Lost wake-ups show as 'nobody can go on'.")
claim("T02", PO + "; FutureAwait.tla (loop, pool, wake-up; TLC safety + liveness), real coroutine/pool runs validated against it", "Futures of value, void and throwing tasks: get, wait, drop, continuations (value, void, throw, Try, pass-through, future-returning), awaited by coroutines with time limits and other pending I/O.")
claim("T03", PO, "Destruction at arbitrary moments, strategies that grow and shrink within the bounds at every check, thread births and deaths counted; pools destroyed while workers are about to wait or are being retired; time passing while others can run.")
claim("K02", "TLA+ spec Variant.tla (slots holding at most one live object, per-object construction and destruction ledger), checked by TLC; every generated operation history replayed on the real containers with instrumented objects",
      "Model: all histories of construct/emplace/copy/move/assign/swap/reset with throwing constructors over two slots up to a bound. Code: enumerated short and random long histories on UninitializedNonVoidVariant, Uninitialized, Try.")
claim("K03", "TLA+ specs PerfectHash.tla (two-level construction: TLC proves lookup = membership for every small key set and hash family) and HashMapGen.tla (key sets and probes); generated tables built and probed with the real CHashMap",
      "Key sets up to 300 keys of strings, integers of each width, enumerations; probes inside, near and outside the set in every lookup style.")
claim("K04", "TLA+ specs TokenCodec.tla (base64url codec: TLC shows exactly one text per byte string over a small alphabet) and Token.tla (seal/alter/open histories); generated histories replayed on the real token class",
      "Every single-character change, truncation, extension, swap, foreign key and splice of sealed tokens; values of several record types. The cipher itself is taken as ideal in the model.")
JS = "TLA+ specs TypedJson.tla (what a text denotes for a type: value, refused, or unconstrained extension), JsonTexts.tla (all texts over an alphabet), JsonGen.tla (typed values with every freedom of the writer, damage); TLC checks that rendering inverts reading and that prefixes are refused; the texts are parsed by the real reader with a guard page behind them"
claim("J01", JS + "; texts written by the real writer are judged by TLC against the specification (JsonTrace.tla)", "26 types (nested records, recursive records, maps, tuples, optionals, smart pointers, enumerations, all integer widths, float/double, strings with any code point). Numbers are finite, keys are strings.")
claim("J02", JS, "All texts up to length 5-9 over type-specific alphabets (82 k for the recursive record), random well-formed documents and damaged ones. Fresh target objects; lenient extensions (case-insensitive literals, leading zeros, unknown escapes, raw control characters, duplicate or missing members, short arrays) are unconstrained.")

claim("C01", "TLA+ spec HttpClient.tla (calls, connection, one retry, scripted servers): explored by TLC, which also generates the programs and server behaviours; recorded runs of the real client are accepted or rejected by TLC",
      "Programs of up to 8 calls (synchronous, from coroutines, in bursts, with call-backs, uploads, URLs of two hosts) against servers that answer, stay silent, close before/inside/after, send nonsense, interim responses, refuse connections; with and without automatic reconnection.")
claim("C03", "TLA+ spec Socks5.tla (client, proxy, byte stream in pieces), TLC safety + liveness over every proxy behaviour; generated exchanges replayed on the real client against a scripted proxy",
      "All reply kinds (address types, refusals, wrong version, truncations, silence) x credentials and host lengths up to and beyond 255 x segmentations; bytes of the tunnelled connection sent right behind the reply.")
claim("C04", "TLA+ spec Url.tla (grammar and decomposition; TLC shows that composing and decomposing are inverse over every small URL); generated URLs decomposed by the real extractor",
      "All URLs over small component alphabets in the model; random ones with delimiters inside path, query, user and password, ports at and beyond the limits, replayed on the real functions.")

claim("S02", "TLA+ spec Timed.tla (limited and unlimited reads and writes against a peer): TLC safety + liveness over all orderings, which also generates programs and peer time lines; recorded runs of the real operations are accepted or rejected by TLC",
      "Programs of up to 4 operations per stream, up to 24 streams and crowds of up to 1100 idle and 600 limited operations on one loop; limits of 40-1100 ms; data, room, close before/at/after the limit; conservation of every byte.")

claim("F01", "TLA+ spec File.tla (handles with positions over file contents), TLC safety over all small histories; every generated history replayed on real files",
      "All histories of 3-4 operations with one handle, random ones of 16 operations with 3 handles on 2 files; units of 1 byte to just over the 128 KB buffer, synchronous and coroutine forms, relative and absolute paths, devices and directories.")

claim("S01", "TLA+ spec ServerStop.tla (workers, connections, stop flag, descriptors): TLC safety + liveness (stopping terminates, nothing begun is cut), which also generates driver programs; recorded runs of the real server are accepted or rejected by TLC",
      "Programs of up to 16 operations with 3 connections (fast, slow, streamed answers, half requests), stopped synchronously, asynchronously or by destruction at every point of the program and within microseconds of the start; 1-8 workers; descriptors running out and coming back; no listener or descriptor remains and the port serves again.")

claim("D01", "TLA+ spec Db.tla (two tables; statements of the builder as syntax trees with their three-valued relational meaning): TLC checks the tables stay legal over generated histories; the statements are rendered as C++ against the real builder, the histories replayed on a database file and judged step by step",
      "Random statements of every kind (queries with joins, nested conditions, calculations, like, in, null tests, grouping, having, ordering, limits, aggregates; inserts, updates and deletes with returning) with positional and named parameters; tables read back through an independent connection. Doubles are dyadic, so that every result is exact; the NULL aggregate of an empty non-optional column is unconstrained.")
claim("D02", "TLA+ spec Db.tla in its cache mode: every statement is run again and again after successes, constraint failures, locked files, dropped and recreated tables, closing and reopening on another file; TLC checks that failures change nothing; histories replayed on the real statement cache",
      "After every step another connection takes the exclusive lock (no transaction or row lock is left) and reads the whole table.")
claim("D03", "TLA+ spec DbValues.tla (a table with a column of every supported type, stored by insert and update, read by query, returning and comparison, across reopening), checked by TLC; histories replayed on the real database",
      "Boundary values of every signed width, finite floating point incl. subnormal and largest, texts and blobs with NUL, quotes, invalid UTF-8, 5000 bytes, null in every optional column, registered custom types (also with temporary text and dates). -0.0 is not distinguished from 0.0.")

TL = "TLA+ spec Tls.tla (connections of one thread exchanging records through bounded buffers with peers that write, read, cut, damage and fall silent), TLC safety + liveness; TLC-generated scripts replayed on the real HttpsIO against independent OpenSSL peers that cut the ciphertext at will"
claim("X01", TL + "; the sessions of HttpSession.tla replayed on the real HTTPS server through a TLS relay",
      "Up to 3 connections, 10 operations, sizes around every record and buffer boundary up to 700 KB, TLS 1.2 and 1.3, key updates, records of 1 byte to 16 KB, ciphertext cut anywhere (also data glued to the last handshake bytes).")
claim("X02", TL + "; TlsClient.tla (connection histories of a client), enumerated by TLC and replayed on the real HttpsClient",
      "3 connections with failing handshakes and endings interleaved with healthy traffic; client histories of up to 3 scripted connections and 4 calls. Certificate verification is not covered. A cut without close_notify may be reported as the end or as an error.")
