# Single source of /verif/properties.jsonl.  `python3 tools/meta.py` regenerates properties.jsonl + MANIFEST.json.
N = "include/HXLibs/net/"
C = "include/HXLibs/coroutine/"
K = "include/HXLibs/container/"
D = "include/HXLibs/db/"

def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return d

PROPS = [
# ------------------------------------------------------------------ HTTP wire format
P("H01", "HTTP request parsing does not depend on how TCP segments the bytes",
  "For every well-formed HTTP/1.1 request, the server-side parser yields exactly the method, target, version and (case-insensitively named) header values that were sent, however the bytes are split into network reads. "
  "It completes as soon as the last byte of the header block has been read and never needs bytes beyond it.",
  ["inputs", "schedules"], "all request line/header shapes x all segmentations of the byte stream",
  "The tests send each request from the library's own client over loopback, where one send arrives as one read; no test splits a request line, a header, or CRLF.",
  [N+"protocol/http/Request.hpp", K+"ArrayBuf.hpp", "include/HXLibs/utils/StringUtils.hpp"],
  [("incremental head parser", "HttpRequest::parserReqHead / _parserReqHead"), ("left-over bytes moved to buffer head", "ArrayBuf::moveToHead")],
  ["getReqType/getReqPath/getProtocolVersion/getHeaders after parserReqHead"],
  [("phase", "request line / headers / complete", "_completeRequestHeader, _requestLine"), ("buffered bytes", "bytes read and not yet consumed", "_recvBuf")]),
P("H02", "Request bodies are delivered byte-exact under any segmentation",
  "For every request body sent with Content-Length or chunked transfer coding, reading the body returns exactly the bytes the client meant (all of them, none of the framing), whichever way the bytes are split into network reads. "
  "The read completes when the last byte of the body's framing has arrived, and a connection that ends earlier is reported as an error rather than as a shorter body.",
  ["inputs", "schedules", "fault_sequences"], "all bodies, chunk layouts, segmentations and early disconnects",
  "Tests post a handful of small bodies in one write; segment boundaries inside chunk sizes, CRLFs or the terminating chunk never occur there.",
  [N+"protocol/http/Request.hpp"],
  [("content-length accounting", "HttpRequest::_parserReqBody"), ("chunk decoding", "HttpRequest::_parserReqBody"), ("at-most-once body read", "HttpRequest::parseBody")],
  ["value or exception of parseBody"],
  [("remaining", "body bytes of the current unit still to be read", "_remainingBodyLen")]),
P("H03", "A connection serves any request sequence in order, with no bleed-over",
  "On one keep-alive connection every request of any sequence - pipelined or not, with bodies read or ignored by the handler - is dispatched exactly once, in order, with its own method, target, headers, parameters and body, and is answered by exactly one response in the same order. "
  "Nothing of an earlier request or response (headers, body bytes, parameters, status) is visible in a later one.",
  ["histories", "schedules", "inputs"], "all sequences of requests on one connection, all segmentations and pipelining depths",
  "Tests reuse a connection for a few sequential identical requests; no test pipelines, leaves a body unread, or checks state left from the previous request.",
  [N+"server/ConnectionHandler.hpp", N+"protocol/http/Request.hpp", N+"protocol/http/Response.hpp"],
  [("keep-alive loop", "ConnectionHandler::start"), ("per-request reset", "HttpRequest::clear, HttpResponse::clear")],
  ["bytes seen by a raw client; what handlers observe"]),
P("H04", "A connection is kept or closed as the request asks",
  "After answering a request the server closes the connection if and only if that request asked for it (Connection: close, in any letter case), its handler failed or asked for it, or the connection failed, timed out or sent something unparsable; otherwise it keeps the connection open for the next request. "
  "A failed or abandoned connection never affects another connection.",
  ["histories", "fault_sequences"], "all sequences of requests, disconnects, resets and handler exceptions over several connections",
  "Tests only use well-behaved clients that close in an orderly way.",
  [N+"server/ConnectionHandler.hpp", N+"server/Acceptor.hpp"],
  [("close decision", "ConnectionHandler::start")],
  ["EOF / liveness of raw client connections"]),
P("H05", "HTTP response parsing does not depend on how TCP segments the bytes",
  "For every well-formed HTTP/1.1 response with a Content-Length or chunked body, the client-side parser yields exactly the status, headers and body that were sent, however the bytes are split into network reads, and a connection that ends before the message does is reported as a failure. "
  "Successive responses on one connection are each parsed independently of what the previous one looked like.",
  ["inputs", "schedules", "fault_sequences"], "all responses, chunk layouts, segmentations, truncations and response sequences",
  "The client tests only see responses of the library's own server, written in one piece on loopback.",
  [N+"protocol/http/Response.hpp", N+"client/HttpClient.hpp"],
  [("status line/header parser", "HttpResponse::parserResHead"), ("body decoder", "HttpResponse::_parserReqBody")],
  ["parserResHead/parseBody results", "ResponseData of the client"]),
P("H06", "Messages written by the library are correctly framed",
  "Every response and request the library writes - status or request line, headers, fixed-length body, chunked body, any body content including empty and CRLF-laden ones - is one well-formed HTTP/1.1 message whose decoded status, headers and body equal what the application set. "
  "No byte is written outside the declared framing.",
  ["inputs", "programs"], "all sequences of setter calls and body contents",
  "Tests check a few fixed bodies through the library's own parser, which shares its assumptions with the writer.",
  [N+"protocol/http/Response.hpp", N+"protocol/http/Request.hpp"],
  [("response serializer", "HttpResponse::_buildResponseLineAndHeaders / sendRes"), ("chunk writer", "_buildToChunkedEncoding")],
  ["raw bytes on the socket"]),
P("H07", "File downloads and Range requests return exactly the requested bytes",
  "Serving a file returns, for no Range, the whole file, and for a satisfiable Range the requested bytes with a 206 status and matching Content-Range and Content-Length; an unsatisfiable Range is refused with 416 and no file bytes. "
  "This holds for every file size (including empty and larger than any internal buffer), every single range form (a-b, a-, -n) and every list of ranges, and HEAD returns the same headers with no body.",
  ["inputs", "configurations"], "all file sizes x all Range header values x GET/HEAD x chunked/range transfer",
  "The file tests use one file and one or two ranges; boundaries (last byte, one past the end, suffix, empty file, buffer multiples) are not sampled.",
  [N+"protocol/http/Response.hpp", N+"protocol/http/Request.hpp", "include/HXLibs/utils/FileUtils.hpp"],
  [("range parsing and transfer", "HttpResponse::useRangeTransferFile"), ("chunked file transfer", "HttpResponse::useChunkedEncodingTransferFile")],
  ["raw bytes on the socket"]),
P("H08", "A request body saved to a file equals the body that was sent",
  "Saving a request body straight to a file leaves a file holding exactly the body bytes, for every body size, both body codings, every segmentation, and whatever the target path contained before. "
  "A body that arrives incompletely is reported as an error.",
  ["inputs", "schedules", "histories"], "all bodies x codings x segmentations x previous contents of the target",
  "One test uploads one file over loopback.",
  [N+"protocol/http/Request.hpp", "include/HXLibs/utils/FileUtils.hpp"],
  [("streaming body decoder", "HttpRequest::saveToFile / _coParserReqBody"), ("file append position", "AsyncFile::write")],
  ["content of the saved file"]),
P("H09", "Server-sent events arrive intact and in order",
  "Every sequence of events pushed by a server handler is received by the client as exactly the same sequence of events with the same fields, regardless of how the stream is segmented, and ends when the server ends the stream.",
  ["inputs", "schedules"], "all event sequences x all segmentations",
  "One example streams a few fixed events.",
  [N+"protocol/http/Response.hpp", N+"client/HttpClient.hpp"],
  [("SSE writer/parser", "HttpResponse SSE functions"), ("client loop", "HttpClient::coSseLoop")],
  ["events handed to the client callback"]),
P("H10", "Malformed HTTP input never harms the server",
  "Whatever bytes a peer sends, the server either answers or closes that connection: it never crashes, never hangs a connection past its timeout, and keeps serving other connections correctly.",
  ["inputs", "fault_sequences"], "all byte streams",
  "No test sends malformed input.",
  [N+"protocol/http/Request.hpp", N+"server/ConnectionHandler.hpp", "include/HXLibs/utils/NumericBaseConverter.hpp"],
  [("parser error handling", "HttpRequest::_parserReqHead/_parserReqBody"), ("catch-all", "ConnectionHandler::start")],
  ["liveness of the server process and of a probe connection"]),
# ------------------------------------------------------------------ TLS
P("X01", "TLS carries exactly the application's bytes, like plain TCP",
  "Over TLS every byte either side writes arrives once, in order and unchanged, for every size (also empty and far beyond any internal buffer), record size, segmentation of the ciphertext, receive buffer and TLS version, from the last handshake byte on; no byte is kept back until something else is sent. "
  "HTTP sessions over TLS behave exactly as over TCP.",
  ["inputs", "schedules", "histories"], "all sequences of reads and writes of all sizes x all segmentations of the ciphertext x HTTP sessions",
  "The tests exchange at most a few small messages over TLS between the library's own two ends; ciphertext is never split inside records and no message exceeds an internal buffer.",
  [N+"socket/IO.hpp", N+"protocol/https/Https.hpp", N+"server/ConnectionHandler.hpp"],
  [("decrypting receive", "HttpsIO::recv / recvLinkTimeout / fullyRecv"), ("encrypting send", "HttpsIO::fullySend / sendLinkTimeout"), ("BIO pair", "SslBio::writeCiphertext / readPlaintext / writePlaintext / readCiphertext")],
  ["bytes decrypted by an independent peer; results of the receive operations"],
  [("BIO pair", "ciphertext fed and not yet decrypted, produced and not yet sent", "SslBio::_netBio")]),
P("X02", "A failing TLS connection is reported and leaves the others alone",
  "Whatever a TLS peer does - garbage or plain text instead of a handshake, silence, a close or cut inside or between records, damaged records - the operation on that connection ends with the end of the stream, an error or its time limit, never with data and never in an endless retry, while every other connection of the same thread goes on unharmed. "
  "A client whose TLS connection is gone starts a new session on the next one and its calls succeed again.",
  ["fault_sequences", "schedules", "histories"], "all peer failures at every phase x other connections' operations x connection histories of a client",
  "No test breaks a TLS connection, or has two of them at once, or reconnects one.",
  [N+"socket/IO.hpp", N+"protocol/https/Https.hpp", N+"client/HttpClient.hpp"],
  [("handshake driver", "HttpsIO::initSsl"), ("end of stream", "HttpsIO::recv"), ("error queue", "SslBio::readPlaintext/writePlaintext/driveHandshake"), ("reconnection", "HttpBaseClient::makeSocket")],
  ["results of the operations of every connection; calls of the client"]),
# ------------------------------------------------------------------ routing
P("R01", "Routing picks the most specific matching endpoint for every path",
  "For every set of registered routes and every request path, the endpoint invoked is the one whose pattern matches the path segment by segment, preferring at each segment a literal over a parameter and a parameter over a trailing wildcard; if nothing matches, the not-found endpoint runs. "
  "The result does not depend on registration order (except that re-registering the same pattern replaces it), on a query string, or on earlier requests.",
  ["configurations", "inputs"], "all route tables x all methods and paths",
  "Router tests check one fixed table with a dozen paths.",
  [N+"router/Router.hpp", N+"router/RouterTree.hpp", N+"router/RequestParsing.hpp", K+"RadixTree.hpp"],
  [("backtracking lookup", "RouterTree::find"), ("route registration", "Router::addEndpoint")],
  ["which endpoint runs for a request"]),
P("R02", "Path parameters, wildcards and query parameters carry the request's own text",
  "In the endpoint selected for a request, the i-th path parameter equals the path segment at the i-th parameter position of the pattern, the wildcard equals the rest of the path, and the query parameters equal the key/value pairs of the query string. "
  "Values never come from another request or another route.",
  ["configurations", "inputs", "histories"], "all patterns x paths x query strings x request sequences",
  "Tests read one or two parameters from single requests.",
  [N+"router/Router.hpp", N+"router/RequestParsing.hpp", N+"protocol/http/Request.hpp"],
  [("parameter index map", "RequestTemplateParsing"), ("query parsing", "HttpRequest::getParseQueryParameters")],
  ["getPathParam, getUniversalWildcardPath, getParseQueryParameters in handlers"]),
P("R03", "Interceptors wrap the endpoint in declaration order",
  "For every list of interceptors on a route, the before-steps run in declaration order and stop at the first that refuses, the endpoint runs exactly once if and only if every before-step accepted, and the after-steps then run in declaration order, also when a before-step refused, stopping at the first that refuses. "
  "The interceptors of one route never run for another.",
  ["programs", "configurations"], "all interceptor lists and accept/refuse outcomes",
  "One test uses a single interceptor pair.",
  [N+"router/Router.hpp"],
  [("interceptor composition", "Router::addEndpoint interceptor wrapper")],
  ["order of before/endpoint/after calls"]),
# ------------------------------------------------------------------ websocket
P("W01", "WebSocket messages survive fragmentation, segmentation and control frames",
  "For every sequence of well-formed frames, receiving yields exactly the sequence of application messages with exact payload bytes and type, however messages are fragmented, however the bytes are split into reads, and with pings and pongs interleaved anywhere (also between fragments). "
  "Each ping is answered by one pong carrying the same payload, in order.",
  ["inputs", "schedules"], "all frame sequences x all segmentations",
  "Tests exchange a few unfragmented messages written in one piece.",
  [N+"protocol/websocket/WebSocket.hpp"],
  [("frame reader", "WebSocket::recvPacket"), ("message reassembly", "WebSocket::recv"), ("auto pong", "WebSocket::recv")],
  ["messages returned, frames written back"]),
P("W02", "WebSocket frames are encoded canonically and masked by role",
  "Every message sent is one well-formed frame sequence whose payload decodes to the message for every payload length (0, 125, 126, 65535, 65536 and beyond) and content; client frames are masked, server frames are not, and a peer's frame with the wrong masking is refused.",
  ["inputs"], "all payload lengths/contents x both roles",
  "Tests send short texts between the library's own two ends, which agree even when both are wrong.",
  [N+"protocol/websocket/WebSocket.hpp"],
  [("frame writer", "WebSocket::sendPacket"), ("mask check", "WebSocket::recvPacket")],
  ["raw bytes on the socket"]),
P("W03", "WebSocket open and close handshakes follow the protocol",
  "A connection is upgraded exactly when the request is a valid upgrade (Origin present, Upgrade: websocket, Connection listing Upgrade - tokens in any letter case -, Sec-WebSocket-Key present), with the accept key derived from the client's key, and data sent right behind the upgrade request is not lost. "
  "When either side closes, exactly one close frame goes out from each side, no data frame is delivered after it, and the receive operation ends instead of hanging.",
  ["inputs", "histories", "schedules"], "all handshakes and all close/data orderings from both roles",
  "Tests perform one orderly close per role.",
  [N+"protocol/websocket/WebSocket.hpp"],
  [("accept", "WebSocketFactory::accept"), ("connect", "WebSocketFactory::connect"), ("close", "WebSocket::close")],
  ["bytes on the socket, outcome of recv/close"]),
# ------------------------------------------------------------------ client
P("C01", "The client returns to each request its own response, sent at most once",
  "For every sequence of requests on one client, each call yields the response the server gave to that very request or an error; a request is transmitted at most once, or once more only after its first attempt failed (connection broken, or no answer in time) and automatic reconnection is enabled; a request goes to the server its URL names. "
  "Informational responses are not the answer; answers to HEAD and 204/304 have no body. After any failure the client remains usable, and closing it waits for the requests it has been given.",
  ["histories", "fault_sequences"], "all request sequences x server behaviours (answer, close before/after/midway, refuse, delay)",
  "Tests cover one server restart scenario.",
  [N+"client/HttpClient.hpp", N+"client/HttpClientOptions.hpp"],
  [("send with reconnect", "HttpClient::sendReq"), ("connection state", "HttpClient::needConnect / close")],
  ["responses per call, requests received by a scripted server"]),
P("C03", "SOCKS5 proxying performs the protocol's exchange exactly",
  "Connecting through a SOCKS5 proxy sends the greeting, optional user/password sub-negotiation and CONNECT request of the protocol, consumes exactly the proxy's replies (IPv4, IPv6 or name bound address) however segmented, and then hands over the connection with no proxy byte left in it. "
  "User and password are offered exactly if the proxy URL carries them; a user name, password or host of more than 255 bytes is refused. Any refusal at any step is reported as an error and nothing further is sent.",
  ["inputs", "schedules", "fault_sequences"], "all reply sequences x reply address types x credentials x segmentations",
  "No test uses a proxy.",
  [N+"protocol/proxy/Socks5Proxy.hpp"],
  [("handshake state machine", "Socks5Proxy::connect")],
  ["bytes exchanged with a scripted proxy"]),
P("C04", "A URL decomposes into the right scheme, user, host, port and path",
  "For every absolute URL built from a scheme, optional credentials (user, optional password), host name or IPv4 address, optional port (an empty one means the default, one above 65535 is refused), path and query, extraction returns exactly those parts (and the scheme's default port when none is given); characters such as ':', '@' or '/' inside the path or query never change the authority.",
  ["inputs"], "all URLs of the grammar",
  "Tests use a few fixed URLs.",
  [N+"protocol/url/UrlParse.hpp"],
  [("extraction functions", "UrlParse, UrlInfoExtractor")],
  ["return values"]),
P("S01", "Stopping the server terminates and loses no accepted work",
  "When starting the server returns, connections to it are accepted. Stopping the server, at any time and with any number of open, idle or busy connections and worker threads, terminates (connections without a complete request end by their time limit); every request whose handling had begun is answered in full, no connection is accepted afterwards, nothing stays open and the port can be served again. Until then every connection is served, also after accepting has failed for a while.",
  ["schedules", "histories"], "all interleavings of start, requests, idle connections and stop",
  "Tests stop an idle server once per run.",
  [N+"server/HttpServer.hpp", N+"server/Acceptor.hpp", N+"server/ConnectionHandler.hpp"],
  [("stop loop", "HttpServer::syncStop/asyncStop"), ("running thread count", "HttpServer::_runNum")],
  ["return of stop, state of client connections"]),
P("S02", "Read and write time limits are enforced per operation",
  "An operation given a time limit finishes no later than a bounded delay after it: it yields the data if data arrived in time, a time-out otherwise (never before the limit; each bit of progress of a long write starts its limit anew), and leaves no pending operation behind that could steal later data or block the loop from finishing - with any number of operations started at once.",
  ["schedules"], "all orderings of data arrival, peer close and time-out",
  "Tests have one timeout case with one ordering.",
  [N+"socket/IO.hpp", C+"task/AioTask.hpp", N+"server/ConnectionHandler.hpp"],
  [("linked timeout", "AioTask::linkTimeout")],
  ["result kind, elapsed time, bytes left in the socket"]),
# ------------------------------------------------------------------ coroutine runtime
P("L01", "Timers fire once, never early, in deadline order",
  "Every sleep resumes its waiter exactly once, not before its deadline, and sleeps with distinct deadlines resume in deadline order (equal deadlines in the order they were started); a cancelled sleep never fires. "
  "This holds for any nesting and any number of timers started from timer callbacks.",
  ["schedules", "programs"], "all programs of nested sleeps and cancellations",
  "Tests run two or three fixed sleeps.",
  [C+"loop/TimerLoop.hpp", C+"loop/EventLoop.hpp"],
  [("ordered timer map", "TimerLoop")],
  ["order and times of resumption"]),
P("L02", "The event loop runs every ready coroutine and stops only when none is left",
  "While the loop runs, every coroutine that is ready - because it was started, yielded, its timer expired or its I/O completed - is eventually resumed, whatever the others do; yielded coroutines resume in FIFO order. "
  "The loop returns only when nothing is pending any more.",
  ["schedules", "programs"], "all programs mixing yields, timers, I/O and nested tasks",
  "Tests run yields alone and timers alone; combinations where one kind starves another are not exercised.",
  [C+"loop/EventLoop.hpp", C+"loop/TimerLoop.hpp", C+"loop/ThreadLoop.hpp"],
  [("scheduler loop", "EventLoop::run"), ("yield queue", "TimerLoop")],
  ["progress of each coroutine, return of run"]),
P("L03", "whenAny completes with the first finisher and cancels the rest",
  "Waiting for any of several operations resumes exactly once, with the index and the result (or exception) of an operation that finished first; the others are abandoned, their frames are destroyed, and none of their effects happens later. "
  "This holds also when operations finish synchronously, in the same loop turn, or by throwing.",
  ["schedules", "programs"], "all sets of operations and completion orders",
  "Tests use two fixed combinations.",
  [C+"awaiter/WhenAny.hpp"],
  [("first-completion latch", "WhenAny control block")],
  ["index/result, destruction of the losers"]),
P("L04", "whenAll waits for all operations and reports every result",
  "Waiting for all of several operations resumes exactly once, after the last of them finished, with each operation's own result or exception at its own position, in any completion order.",
  ["schedules", "programs"], "all sets of operations and completion orders",
  "Tests use one or two fixed combinations.",
  [C+"awaiter/WhenAll.hpp"],
  [("completion counter", "WhenAll control block")],
  ["result tuple"]),
P("L05", "A task delivers its value or exception exactly once to its awaiter",
  "Awaiting a task runs its body once and yields its value, or rethrows its exception, in the awaiting coroutine, through any depth of nesting; every frame and every local object is destroyed exactly once, whether the task completes, throws, or is dropped before completion.",
  ["programs"], "all call trees of tasks with values, void, exceptions and drops",
  "Tests look at return values of a few trees; object lifetimes are never counted.",
  [C+"task/Task.hpp", C+"task/RootTask.hpp", C+"promise/Promise.hpp", C+"awaiter/ExitAwaiter.hpp"],
  [("promise result", "Promise"), ("frame ownership", "Task destructor")],
  ["values, exceptions, construction/destruction counts"]),
P("L06", "The serial executor runs operations one at a time in FIFO order",
  "Operations submitted to a serial executor run one at a time, each starting only after the previous one finished, in submission order, whether they finish synchronously, suspend, or throw; every submitted operation runs exactly once.",
  ["schedules", "programs"], "all submission patterns including submissions from inside running operations",
  "One test submits a fixed batch.",
  [C+"executor/SerialExecutor.hpp"],
  [("task queue", "SerialExecutor")],
  ["start/end order of operations"]),
# ------------------------------------------------------------------ threads
P("T01", "The thread pool runs every task exactly once",
  "Every task submitted to a running thread pool, from any thread and at any time, is executed exactly once by a pool thread, with the arguments it was given, and tasks of a single-threaded pool run in submission order. "
  "No accepted task is left waiting while a worker is idle. (Tasks that have not started when the pool is destroyed may be discarded.)",
  ["schedules"], "all interleavings of submitters and workers, pool sizes and growth/shrink decisions",
  "Tests submit a few tasks and wait; lost wake-ups need a specific interleaving.",
  [K+"ThreadPool.hpp", K+"SafeQueue.hpp"],
  [("task queue and condition variable", "ThreadPool::addTask / worker loop")],
  ["execution count per task, completion"]),
P("T02", "A future becomes ready only with the finished task's result or exception",
  "Waiting on a task's future (blocking, by continuation, or by awaiting in a coroutine) ends exactly when the task has finished, and yields its value or rethrows its exception; for a task without a value too, readiness means the task has run. "
  "Continuations run exactly once, after the task, and receive its outcome. A coroutine that awaits a task is resumed by its own event loop, once, after the task, even while the loop waits for something else; a coroutine that gave up waiting is left alone.",
  ["schedules", "programs"], "all task kinds (value, void, throwing) x all waiting styles x all orders of completion and waiting",
  "Tests read values of tasks that finish quickly; void tasks and exceptions observed early are not checked.",
  [K+"ThreadPool.hpp", K+"FutureResult.hpp"],
  [("shared state", "FutureResult"), ("task wrapper", "ThreadPool::addTask"), ("continuations", "FutureResult::thenTry")],
  ["order of task end and wait return, value/exception"]),
P("T03", "The thread pool keeps to its size limits and shuts down cleanly",
  "A fixed pool has exactly the configured number of workers; a dynamic pool never leaves its configured bounds (its strategy asking for a number within them). "
  "Destroying or stopping a pool at any moment terminates, and afterwards no task is running.",
  ["schedules", "configurations"], "all load histories, configurations and shutdown moments",
  "Tests destroy an idle pool.",
  [K+"ThreadPool.hpp"],
  [("manager thread", "ThreadPool::run"), ("shutdown", "~ThreadPool")],
  ["number of concurrently running tasks, return of the destructor"]),
# ------------------------------------------------------------------ containers
P("K01", "Shared coroutine pointers keep their object alive exactly as long as needed",
  "For every history of creating, copying, moving, assigning (also to itself), swapping, resetting and destroying shared pointers, the object lives as long as at least one pointer refers to it, is destroyed exactly once when the last one goes, and the reported use count equals the number of pointers referring to it.",
  ["histories"], "all operation histories over any number of pointers and objects",
  "The test is one fixed history.",
  [K+"CoSharedPtr.hpp"],
  [("reference count", "RefCntBlock")],
  ["useCount, construction/destruction counts"]),
P("K02", "Variant and optional-result containers track their alternative exactly",
  "For every history of constructing, emplacing, copying, moving, assigning, swapping and resetting, the result containers hold exactly the last value stored (or nothing), report the matching index, refuse access to another alternative, and construct and destroy each stored object exactly once.",
  ["histories"], "all operation histories over several containers",
  "The tests are fixed histories and mostly print.",
  [K+"UninitializedNonVoidVariant.hpp", K+"Uninitialized.hpp", K+"Try.hpp"],
  [("active index", "UninitializedNonVoidVariant"), ("availability flag", "Uninitialized")],
  ["index/get results, construction/destruction counts"]),
P("K03", "The compile-time hash map answers every lookup like a map",
  "For every set of distinct keys, looking up a key of the set gives its value and looking up any other key reports absence, for string, integer and enumeration keys and any set size, in all lookup styles.",
  ["inputs", "configurations"], "all key sets and probe keys",
  "The test probes one table with its own keys.",
  [K+"CHashMap.hpp", K+"CPmhTable.hpp", K+"CPmhBucket.hpp", "include/HXLibs/meta/Hash.hpp"],
  [("perfect hash construction", "makeCPmhTable"), ("key verification", "CHashMap::find/at")],
  ["find/at results"]),
P("F01", "The file API behaves like the file it opened",
  "For every sequence of open (in each mode), read, write, append and close operations on files, synchronous or asynchronous, the bytes read and the final content equal those of an ideal file accessed in that mode (reads proceed from a position that opening resets and setOffset moves; writes proceed from the start, or from the end in append mode). "
  "Operations that fail - missing file, operation the mode does not allow, full device - are reported and change nothing; no descriptor is leaked.",
  ["histories", "inputs"], "all operation sequences and sizes around the internal buffer size",
  "The tests read and write a file once per mode.",
  ["include/HXLibs/utils/FileUtils.hpp"],
  [("async file offset", "AsyncFile"), ("whole-file helpers", "FileUtils")],
  ["bytes read, final file content"]),
# ------------------------------------------------------------------ database
P("D01", "Typed SQL statements compute what the expression says",
  "For every history of inserts, updates, deletes and queries issued through the typed statement builder, the rows stored, returned and counted are those of the relational meaning of the written expressions - conditions, nesting, operand order, bound parameters, ordering, limits, joins and aggregates.",
  ["histories", "programs", "inputs"], "all statement histories over all table contents",
  "Tests compare a few generated SQL strings and one query result.",
  [D+"sql/Dml.hpp", D+"sql/Expression.hpp", D+"sqlite3/SqliteStmt.hpp"],
  [("SQL text generation", "exprToString, *Build"), ("parameter binding", "SqliteStmt::bind")],
  ["rows and counts returned, table content read independently"]),
P("D02", "A cached statement is reusable after any outcome",
  "Running the same cached statement again - after success, after a constraint failure, after a returning query, with other parameters, while or after the file is locked by another connection, after the table was dropped and created again, after closing and reopening - behaves like running a fresh statement with those parameters, and leaves no transaction or row lock behind. "
  "A failed statement changes nothing and is reported as an error.",
  ["histories", "fault_sequences"], "all re-execution histories of cached statements with successes and failures",
  "No test executes the same cached mutation twice or after a failure.",
  [D+"sql/DataBase.hpp", D+"sql/Dml.hpp", D+"sqlite3/SqliteStmt.hpp"],
  [("statement cache", "DataBaseCrtp::sqlTemplate"), ("statement reset", "SqliteStmt::reset")],
  ["outcome of each execution, table content"]),
P("D03", "Values survive the round trip through the database",
  "Every value of a supported column type - signed integers of all widths, finite floating point, text and blobs with any bytes, null in optional columns, registered custom types - is read back equal to what was stored.",
  ["inputs", "histories"], "all values of all supported column types",
  "Tests store a few small integers and short strings.",
  [D+"sqlite3/SqliteStmt.hpp", D+"sql/CustomType.hpp", D+"sql/Stmt.hpp"],
  [("bind/column conversions", "SqliteStmt::bind, selectForEachBuild")],
  ["values read back"]),
# ------------------------------------------------------------------ data
P("J01", "JSON serialization round-trips every supported value",
  "Parsing the JSON text produced for any supported value - nested records, lists, maps, tuples, optionals, smart pointers, enumerations, finite numbers and strings with any Unicode text and control characters, with string keys - yields an equal value, and the text is valid JSON.",
  ["inputs"], "all values of the supported type combinations",
  "Tests round-trip a few literals.",
  ["include/HXLibs/reflection/json/JsonRead.hpp", "include/HXLibs/reflection/json/JsonWrite.hpp", "include/HXLibs/reflection/deserialization/Numer.hpp"],
  [("escape writer", "writeStringWithEscape"), ("escape reader", "handleEscapeChar")],
  ["text and parsed value"]),
P("J02", "JSON parsing accepts exactly well-formed text for the type",
  "Parsing any text that is valid JSON for the target type into a fresh object gives the value it denotes, independent of insignificant white space and member order; any truncated or corrupted text that is no JSON for the type is rejected with an error, without reading outside the text. (Lenient extensions such as case-insensitive literals, leading zeros, unknown escapes or absent members may be accepted or refused.)",
  ["inputs"], "all valid documents, their truncations and corruptions",
  "Tests parse well-formed documents only.",
  ["include/HXLibs/reflection/json/JsonRead.hpp", "include/HXLibs/reflection/deserialization/Numer.hpp"],
  [("recursive-descent reader", "FromJson")],
  ["value or exception"]),
P("K04", "A token opens to its content or not at all",
  "Opening a token returns exactly the value that was sealed with the same key; any token that was altered, truncated, extended or sealed with another key is rejected with an error and yields no value.",
  ["inputs", "histories"], "all values, keys and modifications",
  "One test seals and opens one value.",
  [N+"token/Token.hpp", N+"token/tools/Aes256Gcm.hpp", N+"protocol/codec/Base64Url.hpp"],
  [("authenticated encryption", "Aes256Gcm::decrypt"), ("text codec", "base64UrlDecode")],
  ["value or exception"]),
]
