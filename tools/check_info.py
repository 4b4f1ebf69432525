"""Per-property texts of the evidence files and the manifest, minimum observation counts and extra stages."""
RULES = {
    "C01": "one evaluation = one scenario on a fresh pool (size, capacity, submitters, task kinds, panics, handle drops, delay injection drawn from the seed), or one schedule under Miri; non-trivial = at least one task accepted, distinct = distinct (parameters, recorded sequence of scheduling points)",
    "C02": "one evaluation = one pool taken through several rounds of history, full-parallel barrier and queue-bound measurement, or one schedule under Miri; distinct = distinct (parameters, recorded sequence of scheduling points)",
    "C03": "one evaluation = one random route table probed with 20-60 requests; distinct = distinct (route table, method, path)",
    "C04": "one evaluation = 5-20 requests on a connection to routes with random filter chains; distinct = distinct (chain, responding stage)",
    "C05": "one evaluation = 2-6 random requests on one connection (method, target, headers, body, segmentation); distinct = distinct (first 4000 request bytes, cut positions)",
    "C06": "one evaluation = 2-8 form bodies on one connection; distinct = distinct body bytes",
    "C07": "one evaluation = 3-10 random targets on one connection; distinct = distinct target",
    "C08": "one evaluation = one history of 1-3 troubles (defective requests, garbage, odd header blocks, broken forms, stalls, resets, panicking handlers, floods, unbindable addresses) with a bystander connection and a canary request after each; distinct = distinct hostile input",
    "C09": "one evaluation = 2-7 random response programs (status, version, headers, cookies, bodies, late calls, form errors) on one connection; distinct = distinct (method, program)",
    "C10": "one evaluation = 2-7 responses with random Accept-Encoding and body programs; distinct = distinct (compression, Accept-Encoding, program)",
    "C11": "one evaluation = one history: concurrent connections with interleaved bytes, a connection that ends, or a connection with idle times, slow handlers and slow readers; distinct = distinct (parameters, order of pieces)",
    "C12": "one evaluation = 1-4 rounds of bursts, sequences, idle times and vanishing clients against one limited route; distinct = distinct (limit, rounds)",
    "C13": "one evaluation = one scripted response (well-formed, truncated, reset, malformed, damaged) under random segmentation; distinct = distinct (response bytes, segmentation)",
    "C14": "one evaluation = one URL; distinct = distinct (scheme, user info, port form, path, query, fragment) or malformed URL text",
    "C15": "one evaluation = 3-9 Cookie headers on one connection, or one set of response cookies; distinct = distinct cookie text",
    "C16": "one evaluation = 3-10 requests with valid, absent, foreign or corrupted Authorization values; distinct = distinct value",
    "C17": "one evaluation = one history of 5-120 operations on up to four copies of a container; distinct = distinct (keys, history)",
    "C18": "one evaluation = one byte string through one codec, then up to 12 damaged variants, or one call of the Python cross-check; distinct = distinct (codec, level, bytes)",
    "C19": "one evaluation = one history of arithmetic, one set of formats of an instant, one parse round trip or one hostile text; distinct = distinct history, instant or text",
    "C20": "one evaluation = one log configuration (0 to 6 modules, levels, nested packages, additivity, directory, size, count) and the records emitted under it; distinct = distinct (configuration, records)",
    "C21": "one evaluation = 50 tokens (valid, mutated or random), or the complete tables once per process; distinct = distinct token text",
    "C22": "one evaluation = one batch of 1 to 60 threads, one sleep or one set of ten errors; distinct = distinct batch of (helper, name, stack size, panic), duration or texts",
    "C23": "one evaluation = one kind of work done in rounds (two to settle, six measured) by three threads at a time; distinct = distinct (kind, amount, seed)",
}
TECHNIQUE = {
    "C01": "runtime monitoring: exactly-once ledger over stressed schedules with injected delays at hooked scheduling points; the same pool under Miri (random scheduler, virtual clock, race and deadlock detection)",
    "C02": "runtime monitoring: concurrency counter, barrier and queue-bound monitors over panic histories; the same pool under Miri (random scheduler, virtual clock, race and deadlock detection)",
    "C03": "runtime monitoring: dispatch log of a live server compared with a reference matcher",
    "C04": "runtime monitoring: trace of filter/handler invocations checked against the pipeline specification",
    "C05": "runtime monitoring: values seen by a recording handler compared with the values an independent client sent, under random TCP segmentation",
    "C06": "runtime monitoring: form values and file contents seen by a recording handler compared with the generated parts",
    "C07": "runtime monitoring: path and query seen by a recording handler compared with a reference decomposition",
    "C08": "runtime monitoring with fault injection: hostile clients and failing handlers against a live server; canary and bystander connections, dispatch log, status oracle and thread/descriptor accounting",
    "C09": "runtime monitoring: strict independent parser over the bytes on the wire, compared with the model of the calls the handler made",
    "C10": "runtime monitoring: independent decoders over the bytes on the wire, compared with the body the handler set",
    "C11": "runtime monitoring: request-unique values echoed over interleaved connections; connection trace checked against keep-alive timing with timestamps taken inside the handlers",
    "C12": "runtime monitoring: offline check of every window of the recorded handler starts of each limited route, exactly-once ledger, heartbeat-calibrated slack",
    "C13": "runtime monitoring with fault injection: scripted servers (segmentation, stalls, truncation, resets, damage) and comparison of what the client returns with what was sent",
    "C14": "runtime monitoring: connection address and request bytes recorded by scripted servers, compared with a reference decomposition of the URL",
    "C15": "runtime monitoring: cookies seen by a recording handler and Set-Cookie bytes on the wire compared with independent readers",
    "C16": "runtime monitoring: credentials seen by a recording handler compared with an independent base64 reference",
    "C17": "runtime monitoring: random operation histories, every observer compared with a reference map after every step",
    "C18": "runtime monitoring: encodings and decodings compared with independent decoders (own header readers, Python zlib/gzip/base64); damaged input; valgrind memcheck around the same calls",
    "C19": "runtime monitoring: results compared with 128-bit integers and an independent civil calendar",
    "C20": "offline checker over recorded histories: log files on disk compared with the records the threads emitted, under concurrent logging and reconfiguration",
    "C21": "runtime monitoring: conversions and comparisons of every token, every 16-bit status code and of mutated tokens compared with tables transcribed from the RFCs",
    "C22": "runtime monitoring: closures record their runs, thread name, stack size (pthread_getattr_np) and id; join results and error texts compared with what was handed in",
    "C23": "runtime monitoring: descriptors, threads, live heap bytes (counting allocator) and processor time of the process compared before and after repeated rounds of the same work, with fault-ridden clients, peers and tasks",
}
NOTE = {
    "C01": "Held on every explored schedule (seeded stress with delays injected at ten scheduling points, and Miri's random scheduler); schedules not reached are not covered. Liveness verdicts use a logical-time bound of tens of seconds.",
    "C02": "Held on every explored history of panics, bursts and submissions for pools of 1-16 workers; other schedules are not covered.",
    "C03": "Held for every generated route table and request; the reference matcher is trusted.",
    "C04": "Held for every generated chain and responding position, with concurrent connections.",
    "C05": "Held for every generated request and segmentation on loopback; request shapes outside the generator are not covered.",
    "C06": "Held for every generated form body; the generator's own multipart encoder is trusted.",
    "C07": "Held for every generated target.",
    "C08": "Held for every generated hostile input and history on loopback; a client that holds every worker of the pool is outside (as long as a worker is free).",
    "C09": "Held for every generated response program; request pipelining is outside.",
    "C10": "Held for every generated Accept-Encoding and body; flate2's decoders are the reference. Preference is only asserted when no weights are sent.",
    "C11": "Held for every generated history; timing verdicts use bounds that no delay of the machine can fake (handler timestamps) or must come back on a repetition. In every run also: servers with pool sizes from 1 to 130 and more connections than threads, keep-alive times of 0, of 30 s and of more than a minute, and requests that take longer to arrive than an idle connection is kept.",
    "C12": "Held for every recorded window with 45 ms of slack; a burst inside the slack is not seen. Limits on a route group as a whole are outside.",
    "C13": "Held for every generated response and fault on loopback. Status and headers are read through the observation hook.",
    "C14": "Held for every generated URL on loopback addresses, default port included; name resolution beyond localhost is outside.",
    "C15": "Held for every generated cookie, in four local time zones; a second of slack on Expires.",
    "C16": "Held for every generated credential and corruption; the strict reference decoder is trusted. Non-canonical base64 of valid credentials may be accepted or rejected.",
    "C17": "Held for every generated history.",
    "C18": "Held for every generated byte string, level and damage. Bytes after the end of a stream may be ignored or refused; non-canonical base64 tail bits and surrounding white space likewise.",
    "C19": "Held for every generated value; formatting and parsing are claimed for the years 1 to 9999. chrono parses no signed '%s'.",
    "C20": "Roll-over limits are at least 1 MiB (the API's unit). Crash of the process or a full disk are not explored. Several thousand log configurations (0 to 6 modules, all levels, nested packages, additive or not, own or inherited directory, size and count) are installed one after another in a process; up to five threads emit records of hostile text; an independent model of the routing predicts which files hold which records; every file on disk is then read back and must hold exactly these, complete, well formed, in order per thread, with no stray files. Small limits force roll-overs, servers with set_log and without log what their handlers log, and configurations are swapped while threads log, where every record must be in the files of exactly one of the configurations in force.",
    "C21": "Tables are covered completely; other texts as generated. LINK, UNLINK and PRI have no method properties in the RFCs named.",
    "C22": "Names are free of NUL (std panics on it). Stack sizes up to 40 MB.",
    "C23": "Held for every kind of work explored. A leak of fewer than 24 bytes for each piece of work, or one that shows only after more than several hundred pieces, is not seen; what is held until the keep-alive time has passed is allowed.",
}
NOT_APPLICABLE = {}
MINIMUM = {}
ASSUMPTIONS = {}
from stages import cross_codecs, memcheck_codecs  # noqa: E402
from miri import pool_c01, pool_c02  # noqa: E402
EXTRA = {"C01": [pool_c01], "C02": [pool_c02], "C18": [cross_codecs, memcheck_codecs]}
