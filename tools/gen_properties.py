#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one record per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n.strip(), "where": files[0]} for n in state.split(",")]
    if observe: a["observe_at"] = [o.strip() for o in observe.split(",")]
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Thread pool runs every accepted task exactly once, rejected ones never",
 "Every closure for which ThreadPool::execute returned Ok is run exactly once, on a pool worker thread, and starts within bounded time of a worker being free; no accepted task is lost, duplicated or left stranded while a worker idles. A closure for which execute returned Err is never run. This holds for any interleaving of concurrent submitters (through clones of the handle), task completions and task panics.",
 ["schedules", "histories"], "for all interleavings of submissions, completions and panics, pool sizes, queue capacities and clone topologies",
 "The existing tests submit a few tasks from one thread and print; lost wake-ups and hand-off races between execute, the notify manager and finishing workers need specific interleavings.",
 ["src/utils/concurrent/thread_pool.rs"],
 [("idle-worker / task-queue hand-off", "ThreadPool::execute, ThreadPool::notify_check"), ("worker loop and Idle notification", "Worker::new, Sentinel::drop")],
 "worker_idle_queue, task_queue, notify channel", "closure entry/exit, result of execute", "scheduling points in execute/notify_check/worker loop (cfg starry_verif)")

prop("C02", "Thread pool keeps its parallelism bound, queue bound and self-heals",
 "At no time do more than size() submitted tasks run simultaneously, and whenever at least size() unfinished accepted tasks exist, size() of them get to run in parallel; execute is refused with Err only while at least task_count accepted tasks are still waiting to start, and with all workers busy exactly task_count further tasks are accepted. A task that panics costs nothing but itself: the pool replaces the worker, keeps size() workers able to run in parallel and keeps executing queued and new tasks, even after any number or burst of panics, and when the system has no thread to give for a moment. Worker threads, replacements included, carry the configured name prefix and have at least the configured stack size. After the last handle is dropped and every accepted task has run, all threads of the pool end; a pool that cannot create its threads is an Err and leaves no thread behind.",
 ["schedules", "fault_sequences"], "for all pool sizes, queue capacities and sequences of panicking and normal tasks",
 "No existing test makes a task panic, fills the queue, or measures parallelism.",
 ["src/utils/concurrent/thread_pool.rs"],
 [("worker replacement after panic", "ThreadPool::notify_check Notify::Fill, Sentinel::drop"), ("bounded task queue", "ThreadPool::execute task_queue.push"), ("builder sizes", "Builder::create")],
 "threads vector, worker_idle_queue, task_queue", "task entry/exit timestamps, execute results", "same scheduling points as C01")

prop("C03", "Routing dispatches each path and method to the matching route",
 "A request is dispatched to the handler of a route registered for exactly its method whose pattern (group prefix plus pattern) matches the whole path segment by segment, literal segments byte-for-byte and ':name' segments capturing exactly that one segment under that route's own name (names distinct within one pattern), and to no other handler. If no registered route of that method matches - including a path that is only a prefix or an extension of a pattern - the answer is 404 and nothing is dispatched. When several patterns match, selection descends segment by segment through the alternatives in the order they were first registered (all ':name' segments at one position being one alternative), backtracking from dead ends, so a matching route is always found. Routes registered while the server is running count for the requests that come after.",
 ["inputs", "configurations"], "for all route tables over the 12 methods (static, parameterised, overlapping, nested groups) and all request paths",
 "Tests check a handful of hand-picked tables against internal tree shape; overlapping routes, dead-end branches, prefixes and shared parameter positions are combinatorial.",
 ["src/server/node.rs", "src/server/router.rs", "src/server/server.rs", "src/server/context.rs"],
 [("route tree insert", "Node::add_fn, Node::add_split"), ("route lookup with backtracking", "Node::fetch_fn, Node::fetch_split"), ("per-method roots", "Root::add, Root::fetch"), ("group prefix", "Router::repo")],
 "Root / Node tree", "handler identity and req_field/req_count_fields seen by the handler, status on the wire")

prop("C04", "Filters run in order before the handler and can short-circuit it",
 "For every dispatched request the route's own filters run first in their listed order, then the group's filters in their listed order, then the handler, each exactly once per listing (a filter listed twice runs twice) and on the same context, so response state set by an earlier stage is seen by later stages. As soon as one filter has sent the response (context.response()), no later filter and no handler runs for that request and the client receives exactly that filter's response.",
 ["configurations", "inputs", "schedules"], "for all compositions of group and route filters, all positions of a responding filter, and concurrent requests",
 "No existing test executes the filter pipeline.",
 ["src/server/router.rs", "src/server/extend.rs", "src/server/server.rs"],
 [("filter composition", "Router::repo, Extend::copy1/copy2"), ("filter execution", "Extend::check_filter"), ("handler gate", "exec_stream")],
 "Context.executed", "event log of filter/handler invocations per request id, wire response")

prop("C05", "Request reaches the handler intact however TCP delivers it",
 "For any well-formed HTTP/1.x request, however its bytes are split, delayed or coalesced across TCP segments and whatever reads the system cuts short or interrupts, with a header block up to 1 MiB and a body of any size, the handler sees exactly the sent method, path, query parameters and header values (each header name sent once), and the complete declared (Content-Length) body as sent, as observed through forms and files. Header names are matched case-insensitively for the headers the server itself interprets (Host, Content-Length, Content-Type, Connection, Cookie, Authorization, Accept-Encoding), optional whitespace around values is not significant, and header values may be empty or contain ':'. req_client_addr returns the connected peer's address (IPv4 or IPv6), for WebSocket upgrade requests too, and req_is_web_socket is true exactly when the Connection header lists the token upgrade (in any case) and Upgrade is websocket (in any case).",
 ["inputs", "schedules"], "for all requests, header counts and sizes, body sizes and segmentations of the byte stream",
 "The only test parses one request out of a single in-memory buffer; segmentation, large headers and large bodies are never exercised.",
 ["src/http/requester.rs", "src/http/request.rs", "src/http/header/header.rs", "src/server/context.rs"],
 [("request line parser", "Requester::parse_request_line"), ("header parser", "Requester::parse_request_header"), ("body reader", "Requester::fill_body"), ("context accessors", "Context::req_*")],
 "Request", "values read by a recording handler, compared with the values the independent client sent")

prop("C06", "Form bodies decode to exactly the fields and files sent",
 "For every application/x-www-form-urlencoded body the form contains exactly the sent key/value pairs (split at '&' and the first '='; no percent-decoding), and for every multipart/form-data body as browsers send it (CRLF line ends, Content-Disposition first in each part, part header names in any case, distinct names without quotes or backslashes) each field and each file arrives with exactly its name, filename and byte-exact content (including CR, LF, NUL, empty content and text resembling a boundary). Nothing from one part leaks into another, and counts (req_count_form) and presence queries agree with the values.",
 ["inputs"], "for all field sets, names, contents, boundaries and content types with parameters",
 "One fixed multipart sample with LF-only line ends is tested.",
 ["src/http/requester.rs", "src/http/header/content_type.rs", "src/http/values.rs"],
 [("body decoding", "Requester::parse_body"), ("content type detection", "ContentType::from_str")],
 "Request.form / multipart_form", "form values and file contents read by a recording handler")

prop("C07", "Request target is split into path, query and fragment exactly",
 "For every request target the path is everything before the first '?' or '#', the query is what follows '?' up to '#', the fragment is the rest; the query maps each '&'-separated item's key (text before its first '=') to the text after it, with later occurrences of a key replacing earlier ones, a key without '=' mapping to the empty string and empty items ignored. req_path, req_param, req_have_param and req_count_param agree with that decomposition.",
 ["inputs"], "for all request targets made of arbitrary non-space bytes",
 "A single fixed target is tested.",
 ["src/http/url/location.rs", "src/http/requester.rs", "src/http/request.rs", "src/server/context.rs"],
 [("target parser", "Location::from_bytes"), ("query access", "Request::param_value, have_param_value, count_param_value")],
 "Location", "path, params and counts seen by the handler")

prop("C08", "Malformed input and failing handlers never take the server down",
 "Whatever bytes a client sends, and whenever it stalls, resets, closes or connects (also while the process is out of file descriptors, or of threads, for a moment), the server process keeps running and keeps serving other connections as long as a worker is free; the offending connection is answered with an error status or closed. A request whose request line, version, host or declared-length body is malformed or incomplete is never dispatched to a handler (405 for an unknown method, 505 for an unsupported version, 404 for no route, 417 for a missing Host, 411 for an invalid Content-Length of a POST, PUT or PATCH, 400 otherwise), and a handler that panics affects only its own connection. listener() reports an address it cannot bind as Err instead of panicking.",
 ["inputs", "fault_sequences"], "for all byte sequences, truncation points, resets and sequences of panicking handlers",
 "No existing test talks to a running server.",
 ["src/http/requester.rs", "src/server/server.rs", "src/utils/concurrent/thread_pool.rs", "src/http/url/authority/userinfo.rs", "src/http/header/cookie.rs", "src/http/header/content_type.rs"],
 [("request validation and interrupt", "Requester::parse, parse_others, interrupt"), ("connection isolation", "handle_connection, ThreadPool worker sentinel"), ("bind", "HttpServer::listener")],
 None, "raw socket observations, dispatch log, canary requests")

prop("C09", "Each dispatched request gets exactly one correctly framed response",
 "For every request whose handler (or filter) responds, the client receives exactly one response: the status code, version, headers (every value of a repeated header), Set-Cookie lines and Content-Type set through the context, a Content-Length equal to the body bytes that follow, and a body byte-identical to the last body set. A response to HEAD, or with status 204 or 304, ends with its header whatever body was set: the connection carries the next response right after it; its Content-Length, if any, is the one the body would have had, and a 204 has none. Bodies of any size and content arrive complete, also when the system takes fewer bytes at a time than offered or interrupts a write, and a second call of response() or a form-parse error during handling adds no further bytes to the stream.",
 ["inputs", "histories"], "for all sequences of response-building calls, statuses, header multisets and bodies up to many MiB",
 "No existing test reads a response off a socket.",
 ["src/http/requester.rs", "src/http/response.rs", "src/http/body.rs", "src/server/context.rs", "src/http/status.rs"],
 [("response serialisation", "Requester::response"), ("body and framing headers", "Response::write_type, write_slice_type, set_this"), ("context response API", "Context::resp_*, Context::response")],
 "Response", "independent HTTP parser on the raw socket versus the recorded API calls")

prop("C10", "Compressed responses are negotiated, labelled and decodable",
 "When compression is enabled and the client's Accept-Encoding lists a supported coding (gzip preferred, then deflate - raw DEFLATE or zlib stream -, then zlib), the response body, decoded according to the response's Content-Encoding header (or as is when there is none), equals the body the handler set, and Content-Length is the number of bytes on the wire. A body is never encoded with a coding the client did not list, never encoded when compression is off, and never labelled with a coding that was not applied.",
 ["inputs", "configurations"], "for all bodies, Accept-Encoding lists and compression settings, including rewriting the body several times",
 "Only the codecs are tested, never the negotiated response.",
 ["src/http/response.rs", "src/http/header/encode_type.rs", "src/http/header/header.rs", "src/utils/compress.rs"],
 [("negotiation", "AcceptEncoding::best"), ("encoding and labelling", "Response::write_type, write_slice_type, set_this_encode")],
 None, "wire response decoded by an independent flate2 decoder")

prop("C11", "Connections persist, time out and stay isolated as negotiated",
 "On a connection whose requests list the token keep-alive in their Connection header (in any case, and without the token close) and are sent one after the other's response the server answers every request in order and keeps the connection open; it closes the connection after a response to a request that lists the token close (alone or beside keep-alive) or lacks the header, the response announcing 'Connection: keep-alive' exactly when the connection stays open, and closes an idle kept-alive connection once the keep-alive time since the last response has passed, but never within that time and never while a request is arriving or being handled, whatever the system clock is set to meanwhile; a connection whose timeout cannot be arranged is closed, with nothing after its response. As many connections as the pool size are served at once, further ones wait their turn and none is lost. Requests on concurrent connections never see each other's parameters, headers, bodies or response state.",
 ["schedules", "histories"], "for all interleavings of concurrent connections and all sequences of keep-alive and close requests with pauses",
 "No existing test opens a connection.",
 ["src/server/server.rs", "src/http/header/header.rs", "src/http/requester.rs", "src/http/response.rs"],
 [("keep-alive loop and timeout", "loop_exec, check_keepalive"), ("connection decision", "Header::check_close"), ("per-connection context", "exec_stream")],
 "connection state", "timestamps, tokens echoed per connection, EOF observed by the raw client")

prop("C12", "Rate limits admit no more than configured and starve nobody",
 "A route registered with Limit(section, count >= 1, interval) never has more than count of its requests admitted within any window of section milliseconds, and never admits two requests less than interval milliseconds apart (no interval bound when it is 0 or less, no window bound when section is 0 or less), in elapsed time, whatever the system clock is set to meanwhile. Requests above the limit are delayed, not dropped: each is eventually handled exactly once, after a wait not longer than a small multiple of what the limit asks for, and routes without a limit are unaffected.",
 ["schedules", "histories"], "for all limit parameters, arrival patterns (bursts, trickles, concurrent clients) and idle periods before a burst",
 "The existing test only prints and asserts nothing.",
 ["src/server/limit.rs", "src/server/extend.rs", "src/server/node.rs", "src/utils/channel.rs"],
 [("token release", "Limit::run"), ("admission", "Limit::recv, Extend::check_limit"), ("limiter thread start", "Node::add_split")],
 "times vector, token channel", "handler entry timestamps")

prop("C13", "HTTP client returns exactly the response the server sent",
 "For every well-formed HTTP/1.x final response with a registered status code and no Transfer-Encoding, however it is split across TCP segments, HttpClient returns, as soon as it is complete (also when the server keeps the connection open), the sent status, all header values (repeated headers keep all values, in order), all Set-Cookie cookies with their attributes (Expires as an absolute GMT date), and the complete body: Content-Length bytes when declared, otherwise everything up to connection close (none with status 204 or 304, whatever is declared). Malformed, truncated or missing responses yield Err, never a panic, a hang after the peer closed, or a silently shortened body.",
 ["inputs", "schedules", "fault_sequences"], "for all responses, reason phrases, body sizes and segmentations, and all truncation points",
 "No existing test runs the client.",
 ["src/http/responser.rs", "src/client/client.rs", "src/http/response.rs"],
 [("status line and header parser", "Responser::parse_response_line, parse_response_header"), ("body reader", "Responser::fill_body")],
 "Response", "Response returned by HttpClient::get versus the bytes a scripted raw server sent")

prop("C14", "HTTP client connects to and requests exactly what the URL says",
 "For every URL http://[user:password@]host[:port][/path][?query][#fragment], with or without the scheme, HttpClient::get connects to that host and port (80 by default) and sends one well-formed request whose target is the path with the same query pairs (distinct keys; a path of '/' when none is given; no fragment), a Host header naming the host, and Basic credentials equal to the user info when present. A malformed URL is reported as Err without panicking.",
 ["inputs"], "for all URLs of the documented shapes",
 "The URL tests only print their results and assert nothing.",
 ["src/http/url/url.rs", "src/http/url/location.rs", "src/http/request.rs", "src/client/client.rs", "src/http/responser.rs"],
 [("URL parser", "URL::from"), ("target serialisation", "Location::to_string"), ("request serialisation", "Responser::request")],
 None, "bytes received by a scripted raw server")

prop("C15", "Cookies survive serialisation and parsing in both directions",
 "Every cookie pair a client sends in its Cookie header (pairs separated by ';', with or without a space) is seen by the handler with its exact name and value (including values containing '=' and empty values), in order, and req_cookie_get returns the first of that name. Every cookie a handler adds produces one Set-Cookie line carrying its exact name, value, Path, Domain, Max-Age, Secure, HttpOnly and SameSite attributes and an Expires date (in GMT, whatever the local time zone) that lies the given duration after the response was built, and parsing those lines back (Response::read_set_cookies) gives equal cookies.",
 ["inputs"], "for all cookie names, values and attribute combinations",
 "The existing tests cover one fixed cookie.",
 ["src/http/header/cookie.rs", "src/http/header/header.rs", "src/http/request.rs", "src/server/context.rs"],
 [("Cookie parsing", "Cookie::read_cookies, Cookie::read_set_cookies"), ("serialisation", "Cookie::to_string"), ("builder", "CookieBuilder")],
 None, "cookies seen by the handler, Set-Cookie lines on the wire, cookies read back")

prop("C16", "Basic credentials reach the handler exactly as sent",
 "For every request with 'Authorization: Basic base64(user:password)' (the scheme in any case, one or more spaces after it), with a non-empty user name without ':' and any UTF-8 password (which may contain ':'), req_userinfo returns exactly that user name and password; without the header it returns None. An Authorization value that is not valid Basic credentials is rejected with 400 or ignored for other schemes, and never dispatches a request with wrong or partial credentials, never panics.",
 ["inputs"], "for all credentials and all malformed Authorization values",
 "One fixed credential is tested.",
 ["src/http/url/authority/userinfo.rs", "src/http/header/header.rs", "src/utils/cryptos/base64.rs", "src/server/context.rs"],
 [("Basic decoding", "Userinfo::from_basic"), ("encoding", "Userinfo::base64")],
 None, "userinfo seen by the handler, status on the wire")

prop("C17", "Header/form/file containers behave as ordered multi-maps",
 "Values (headers, query, forms) behaves as a case-sensitive map from key to an ordered list: set replaces the list, add appends, get returns the first value, vec the whole list, contain/len/map reflect exactly the present keys, del removes the key and returns its first value. MultipartValues behaves as a map where insert replaces and reports the previous entry.",
 ["histories"], "for all sequences of operations with arbitrary keys and values",
 "Only short fixed sequences are tested.",
 ["src/http/values.rs"],
 [("Values operations", "Values::set/add/get/vec/contain/del/len/map"), ("MultipartValues operations", "MultipartValues::insert/get/have/del/len/map")],
 "map from key to value list", "return values compared with a reference model")

prop("C18", "Codecs round-trip and reject corrupt input without panicking",
 "For all byte strings x and levels, decoding the gzip, zlib, deflate, base64 or hex encoding of x returns x, the encodings are the standard formats (RFC 1950-1952, RFC 4648 as accepted and produced by independent implementations), and the String and byte variants agree. Corrupt, truncated or non-alphabet input to a decoder gives Err or, for formats that cannot detect it, some bytes, but never a panic, memory error or hang.",
 ["inputs"], "for all byte strings, compression levels and corruptions",
 "Tests cover one short ASCII string per codec.",
 ["src/utils/compress.rs", "src/utils/cryptos/base64.rs", "src/utils/cryptos/hex.rs"],
 [("compression", "Compress::*"), ("base64 via OpenSSL FFI", "Base64::encode/decode"), ("hex", "Hex::encode/decode")],
 None, "round trips, independent reference codecs, memory checker")

prop("C19", "Time arithmetic, unit conversion, formatting and parsing are exact",
 "A Time is a signed number of nanoseconds since the epoch: every from_* constructor, add_*/sub_* method and num_* accessor converts exactly its unit (accessors truncate toward zero), and add followed by the matching sub restores the value. Formatting equals the civil UTC date/time of the value at whole-second precision, and parse_from_str(format_string(t, f), f) returns t for every second-precision format of date and time fields, for the years 1 to 9999, dates before 1970 included. Time::now() is the moment of the call, as the civil time of the process's time zone. Parsing any text gives a value or Err, never a panic.",
 ["inputs"], "for all instants in the representable range, units, amounts and formats",
 "Tests cover one instant.",
 ["src/utils/time.rs"],
 [("constructors and arithmetic", "Time::from_*, add_*, sub_*"), ("formatting and parsing", "Time::format, Time::parse_from_str")],
 None, "values compared with independent integer and civil-calendar arithmetic")

prop("C20", "Log records reach exactly the configured files, once and in order",
 "After LogModule::config_log (which HttpServer::listener calls with what set_log was given, by default a main module of level TRACE in the directory tmp), a record belongs to the module whose pkg encloses its target most closely (pkg equal to the target, or a prefix of it ending before '::'), or to the main module when none does. If its level passes that module's level it is written exactly once to that module's file (dir/name.log) as one well-formed JSON line carrying its level, target and message, and, while the module is additive, likewise to the file of the next enclosing module and so on up to the main file (whose own level filters only records that belong to it); otherwise it appears nowhere. Modules without a dir, size or count of their own take those of the main module. Records from one thread keep their order in each file; none is lost, torn or written twice under concurrent logging, nor across a change of configuration; a file rolls over only beyond its size limit and keeps at most file_max_count numbered older files, dropping only the oldest records. (Module names and pkgs are distinct and non-empty, counts at least 1.)",
 ["schedules", "configurations", "histories"], "for all module sets, levels, additive flags, concurrent writers and reconfigurations",
 "The existing test logs a few lines and asserts nothing.",
 ["src/utils/log.rs"],
 [("configuration", "LogModule::config, LogModule::config_log"), ("rolling files", "rolling_appender")],
 "log4rs configuration", "parsed log files compared with the sequence of emitted records")

prop("C21", "Protocol tokens parse and print consistently",
 "Every Method, Version and registered Status token converts to its standard text or number (Status also to its registered reason phrase) and back to the same value, and compares equal to that text and to no other; unknown, differently-cased or malformed tokens are rejected with Err, never mapped to a different token (an empty method means GET by documentation). Safety, idempotence and cacheability of OPTIONS, GET, HEAD, POST, PUT, DELETE, TRACE, CONNECT and PATCH are those of RFC 9110 and RFC 5789. Every media type ContentType names round-trips through its text in any case and with parameters, a multipart boundary included; other text gives application/octet-stream. The ready-made responses (Response::success, bad_request, ... and custom) carry the status they are named after and no body.",
 ["inputs"], "for all registered tokens and all other byte strings",
 "Tests check a few tokens.",
 ["src/http/method.rs", "src/http/version.rs", "src/http/status.rs", "src/http/header/content_type.rs", "src/http/response.rs"],
 [("method table", "Method::from_bytes, as_str"), ("version table", "Version::from_bytes"), ("status table", "Status::from_code/code/phrase"), ("media types", "ContentType::from_str, as_str")],
 None, "conversion results compared with tables transcribed from the RFCs")

prop("C22", "Thread helpers run the closure once as asked; errors keep their text",
 "Thread::spawn, spawn_on_name and spawn_on_custom run the closure exactly once, in a thread of its own that has the name and at least the stack size asked for, and the handle returns that closure's value or hands on its panic; when the system refuses the thread they give Err and the closure does not run. Thread::sleep(d) blocks for at least d, and not markedly longer. An error made by Errs keeps its whole text whatever it contains (the message, or 'message: cause'), through clone, the ? operator, source(), Box<dyn Error> and being the cause of another error.",
 ["inputs", "schedules"], "for all closures, names, stack sizes, messages and causes",
 "The existing thread tests print and assert nothing.",
 ["src/utils/concurrent/thread.rs", "src/utils/errors/entrances.rs", "src/utils/errors/children.rs"],
 [("threads", "Thread::spawn, spawn_on_name, spawn_on_custom, sleep"), ("errors", "Errs::string/str/err/strs/strings, Error")],
 None, "closures record their runs and what they see of their thread; texts compared")

prop("C23", "Nothing accumulates: finished work leaves no descriptor, thread or memory",
"Once a connection has ended, whichever way (closed by either side, reset in the middle, malformed, timed out, its handler panicked or answered nothing, its client left during the response), and the keep-alive time has passed, the server holds no descriptor, thread or memory for it; the same holds for a request on a kept connection once it is answered, a dropped ThreadPool (tasks panicked or not), a task that ran or panicked, an HttpClient call whether it succeeds or fails, a thread that ended, and a log configuration that was replaced. However often the same work is repeated, these do not grow, and with nothing to do the process uses hardly any processor time.",
["inputs", "histories", "fault_sequences", "schedules"], "for all histories of clients, handlers, tasks, client calls and configurations",
"Tests run a handful of requests and never look at what the process holds afterwards; a server runs for months.",
["src/server/server.rs", "src/http/requester.rs", "src/utils/concurrent/thread_pool.rs", "src/utils/log.rs", "src/client/client.rs"],
[("lifetimes", "HttpServer, connections, ThreadPool, HttpClient, LogModule"), ("idle", "keep-alive watching and worker waiting")],
None, "resources of the process compared before and after repeated rounds of the same work")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
