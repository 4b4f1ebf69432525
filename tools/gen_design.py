import json,os,glob,sys
sys.path.insert(0,'/verif/tools')
HEAD = '''# Deciding starry's properties by runtime monitoring

## Approach
All 22 properties (`properties.jsonl`) are decided by *executing the real crate* and letting an oracle that
shares no code with it judge the execution. No property is left to another technique and none is listed as
not applicable.

* One harness crate, `harness/` (path dependency on `/repo`, own `[workspace]`), starts real `HttpServer`s on
  loopback, drives the real `HttpClient` against scripted servers, or calls the public API directly.
* **Events**: handlers and filters are plain `fn`s, so the harness provides a table of 48 recording handlers and
  filters (`srv.rs`); a request carries the number of a *script* (header `X-Id`) that tells them what to do, and they
  record under that number what they saw (method, path, fields, cookies, body, ..., `Instant` of entry and exit).
  What cannot be seen from outside (scheduling points of the pool, fields of a client `Response`, the end of the pool's
  queue) comes through hooks under `cfg(starry_verif)` (`src/verif.rs`): `point(id)` callbacks at
  ten places of the pool, accessors, and the parts of a parsed request target or URL. With the flag off they compile to nothing.
* **Clients** are raw sockets (`raw.rs`): an independent serializer with a segmentation plan (offsets and pauses) and a
  strict independent response reader, so neither side of the wire trusts the code under test.
* **Workloads** are seeded (VERIF_SEED), random plus hand-shaped hostile families at the boundaries of the buffers
  (1024, 8192, 65536 bytes), with faults injected: resets, half-closed and stalled peers, panicking tasks/handlers/
  filters, clients that vanish, unbindable addresses, damaged encodings, random delays at the hooked points.
* **Runs**: `check.py <ID> [--thorough]` rebuilds the harness from /repo's working tree into `harness/target`, runs 3-8
  worker processes ("shards": same binary, different part of the seed's case numbers, different time zone) in
  a scratch directory that is removed afterwards. It writes `evidence/<ID>.json` (events, distinct cases, samples)
  and prints the verdict. `--replay FILE` runs one recorded case again.
* **Verdicts**: a monitor mismatch, a process death by signal, a case that hangs for 150 s, or a panic of the code
  under test that the case did not order = VIOLATION; trouble of the harness itself (no port, a panic with a location
  inside the harness) = inconclusive (exit 2), never a violation. Fewer than the minimal number of evaluations = exit 2.
  A verdict that depends on time uses timestamps taken inside the code under test (no delay of the machine can fake
  them) or has to come back on a repetition, with a slack calibrated by a heartbeat thread.
* Hangs and starvation are bounded liveness: "still not done after tens of seconds on an idle machine".

## The properties
Cost = wall time of the quick tier on 8 cores; the thorough tier runs the same families with 5-10 times the time.
The number of cases each run covered, with samples, is in the evidence file.
'''
P = {
'C01': ('''Random pools (1-16 workers, queue 0-1000), 1-8 submitting threads, task kinds (quick, sleeping, panicking with str/String/
custom payloads, spawning further tasks, deep stacks), clones and drops of handles, delays at the scheduling points. Ledger:
every task for which `execute` returned Ok runs exactly once, one that was refused never runs; the end is awaited with
a bound, so a stranded task is a violation. Special families: marathons (thousands of tasks), panic storms (hundreds of panics), idle
times of seconds, pools of up to 64, queues of tens of thousands.''',
 'Interleavings: distinct recorded sequences of scheduling points are counted in the evidence. Exploration, not enumeration; loom/shuttle cannot run crossbeam channels and std threads of the crate unmodified.', '85 s'),
'C02': ('''Rounds of history (panics, bursts) and measurement: a full-parallel barrier of `size` tasks must meet (so all workers live),
the running count never exceeds `size`, the queue accepts exactly what the configuration says while all workers are blocked, replacements
carry the configured name and stack size, refused submissions return Err at once.''',
 'Exact queue probe and barrier after every history; bounded by the generated histories.', '85 s'),
'C03': ('''Random tables of up to 48 routes (nested groups, literals with odd characters, parameters, same pattern under several methods)
on a live server; 20-60 probes per table derived from the patterns (exact, one segment changed, removed, doubled, other case, other method). Reference
matcher written from the documentation (literal before parameter with backtracking); compared: which handler ran (exactly one or none), 404, parameter names and values.''',
 'Tables are finite samples; the matcher is trusted.', '6 s'),
'C04': ('''Chains of 0-20 filters on group and route; the script lets any of them respond, respond twice, panic or do nothing. The trace of invocations
(who, in which order, how often) must equal the specified pipeline; after a response nothing further runs.''', '', '5 s'),
'C05': ('''Random requests (all methods, targets, 0-60 headers with odd spacing and case, long lines over the buffer sizes, bodies up to
a megabyte) from an independent serializer, cut at random or boundary offsets with pauses; every accessor of `Context` is recorded in the handler and compared with what was sent.''',
 'One case pauses 11.5 s in the middle of a request.', '23 s'),
'C06': ('''Independent urlencoded and multipart encoders (nested CRLF and boundary-like bytes in contents, empty parts, many parts, quotes, UTF-8 names, repeated names);
all form accessors, in random order, compared with the generated pairs.''','','8 s'),
'C07': ('''Random targets (empty pairs, repeated and empty keys, '=', '&', '?' and '#' in odd places, absolute form); path, query accessors, counts compared with a reference split.''','','6 s'),
'C08': ('''Histories of 1-3 troubles on a live server: mutated requests, garbage, huge lines, odd header blocks, wrong lengths, broken forms, stalls, resets, panicking
handlers and filters, connection floods, unbindable addresses. Monitors: status oracle per defect class (400/404/405/411/505/closed), the dispatch log (a defective request is never
dispatched), a bystander connection that must not notice, a canary request after each trouble, thread and descriptor accounting at the end (leaks).''',
 'A client that occupies every worker is outside the statement.', '10 s'),
'C09': ('''Random programs of response calls (status, version, headers, cookies, bodies, `response()` called zero, one or several times, form errors in between, 100-600 calls) judged by a strict
parser: one response per request, status line and reason per RFC table, all headers once and in order, Content-Length equal to the body.''','','32 s'),
'C10': ('''Random Accept-Encoding (weights, case, spaces, unknown codings, `identity;q=0`), compressions and bodies; body decoded by independent decoders equals what was set; the label is one the client listed; Content-Length counts the coded bytes.''','Preference among weighted codings is not asserted.','20 s'),
'C11': ('''Up to 12 interleaved connections that carry request-unique values; connection endings (Connection tokens, HTTP/1.0, errors); idle, slow-handler and slow-reader histories with the keep-alive time known. Checked: order, no foreign value, no answer twice, closing exactly when due (idle time measured from
handler timestamps).''','','56 s'),
'C12': ('''22 limited routes per process (section, count, interval, filters, groups), bursts, trickles, idle times, vanishing clients from 8 threads; every window of every history of handler starts is checked against both bounds; every request is handled once; batches of waiting requests are timed; at the end four long queues, with nothing
else running, must move at the rate the limit allows (factor 1.7); unlimited routes in between must not wait.''','Slack 45 ms plus observed stalls: a burst inside the slack is not seen.','40 s'),
'C13': ('''Scripted servers answer with random well-formed responses (reasons, repeated headers, cookies, bodies with and without length) under segmentation, closing the connection or keeping it open (then the client must be back long before 20 s), or with truncated at every kind of point, reset, malformed, damaged, slow or silent ones. Well-formed: every part equal. Others: Err, within a bound, no panic.''','Status and headers are read through the hook.','45 s'),
'C14': ('''URLs of all documented shapes on loopback addresses (also port 80) and malformed texts; the scripted server records address and bytes; compared with a reference decomposition.''','','8 s'),
'C15': ('''Incoming: Cookie headers with all separators, values with '=', quotes, empty; outgoing: all attribute combinations, read by an independent strict Set-Cookie reader (IMF-fixdate; four time zones) and read back by the crate.''','One second of slack on Expires.','10 s'),
'C16': ('''Valid credentials of all kinds, damaged base64, other schemes, no header; strict reference decoder.''','','6 s'),
'C17': ('''Histories of 5-120 operations on up to four clones of `Values`/`MultipartValues`; after every step all observers equal those of a reference map; large keys are timed (quadratic behaviour).''','','12 s'),
'C18': ('''base64, hex, gzip, zlib, deflate of random, structured and large inputs at all levels; decoded by own header readers and Python's zlib/base64 in a second process; damaged encodings give Err or the original, never a panic; the same calls run once under valgrind memcheck (flate2's backend is the only native-like code here).''','','25 s'),
'C19': ('''Arithmetic histories against 128-bit integers, formatting and parsing against an independent civil calendar for the years 1 to 9999, hostile texts for totality.''','','15 s'),
'C20': ('''Configurations installed one after another in a process, up to five threads logging, roll-overs, swaps while logging, servers with set_log or without whose handlers log; every file is read back and must hold exactly the records of the routing model.''','Disk full and process death are not explored.','30 s'),
'C21': ('''Tables transcribed from the RFCs: every 16-bit status code, all methods, versions, header names and content types, plus mutated tokens; the ready-made responses.''','','4 s'),
'C22': ('''Batches of 1-60 threads through the three helpers (names of all kinds, stacks to 40 MB that are used up, panics): each closure counts its
runs and records its thread's id, name and stack size; the handles are joined in any order. Errors of every constructor with any text, passed through clone, `?`, source, Box and wrapping.''','Names without NUL.','12 s'),
'C23': ('''Sixteen kinds of work (requests, kept connections closed, timed out or reset, malformed requests, panicking and silent handlers, forms, large compressed bodies,
leaving clients, client calls to good and bad peers, pools made and dropped, panicking tasks, threads, log configurations, long connections, codecs) are done in rounds by
three threads at a time, with other values in every round. After two rounds descriptors, threads and live heap bytes (the harness's global allocator counts) are taken
(the least over 3 s); after six more rounds they have to come back to that within a minute, with less than 24 bytes for each piece of work on top. Then the process has to
be idle: processor time below half a core over 250 ms.''','Leaks of a few bytes, and those that need very many repetitions, are not seen.','45 s'),
}
FIXES=len({l.split()[2] for l in open('/verif/known-findings.txt') if l.startswith('fixed:')})
LIM='''
## Faults injected at the border to the operating system
`harness/src/inject.rs`: the harness executable defines `send`, `recv`, `pthread_create` and `clock_gettime`; the crate's calls (through std) reach the C
library by way of them. Only what POSIX allows is done, each with its own counter in the evidence:
* one read or write in 12 on threads of a server's pool, or of a client being checked, moves only part of the bytes; one in 24 is interrupted
  (EINTR) first. It is on in every check with sockets, whose oracles stay the same;
* thread creations are refused with EAGAIN: while a pool is created (C02), while dead workers are being replaced (C01, C02, C08), when a
  connection is to be kept alive (C11), in the thread helpers (C22);
* the system clock is set back and forth by up to hours again and again (half of the shards of C11 and C12); the monotonic clock, which the monitors use, goes on;
* file descriptors run out for real (RLIMIT_NOFILE), with 0 to 13 of them left (C08).
This found: reads interrupted by a signal answered with 400; a pool that stopped for good when a replacement was refused once; a stray
500 on a kept connection without timeout; rate limits that stood still for hours after the clock was set back.

## Sanitizers and interpreters
The crate has no `unsafe` code, so memory errors can only come from its dependencies and data races only from logic.
* **Miri** (`miri/`, `tools/miri.py`, stage of C01 and C02) interprets the real pool, a new small history (1-3 workers, queue 1-4, up to three submitters,
  panics, tasks that submit, handles that come and go) per Miri seed. Miri's scheduler preempts at random (four rates), emulates weak memory and runs on a
  virtual clock, so "nothing happens for an hour" costs nothing and no load of the machine can fake it; deadlocks, aborts and data races are
  errors. About 120 schedules per quick run, all distinct so far. The original pool's lost wake-up is found after 4 schedules, a swapped replacement after 17.
* **valgrind memcheck** runs the codecs (C18): Base64 is openssl's C code behind FFI; the rest is safe Rust.
* ThreadSanitizer would watch the same safe code and knows nothing about lost wake-ups: not used.

## Defects found and repaired
''' + str(FIXES) + ''' `fix:` commits in /repo (listed with their properties in `known-findings.txt`). The largest: two deadlocks/strandings of the
thread pool, requests split over TCP segments misparsed, rate limit bursts after idle times, client losing headers and bodies,
multipart parsing losing bytes, several responses per request, wrong Content-Encoding header.

## Known finding (not repaired)
`Method::is_idempotent()` is false for GET, HEAD, OPTIONS, TRACE; RFC 9110 and the method's own documentation say otherwise, an existing test asserts it.

## Read and deliberately not claimed
Behaviour seen in the code that the properties leave out, because the documentation promises nothing or an existing test fixes it:
* repeated request header lines: the last wins (an existing test asserts it); request pipelining and chunked bodies are not supported;
  a negative Content-Length reads to the end of the stream; bodiless methods with an invalid Content-Length are dispatched;
* "deflate" is the raw format; multi-member gzip: the first member is decoded; bytes after a compressed stream are ignored;
* a literal route segment "?" acts as a parameter (it cannot occur in a request path); registering a route twice panics;
* a limit on a route group is dropped; `Limit` with count 0 panics; `Time::now` is the wall clock's local time;
* the client speaks HTTP/1.0 and waits for the connection to close; IPv6 literals and user info without a password are Err; unregistered status codes are Err;
* `Cookie` built with an expiry is relative to now, a parsed one absolute; a cookie item without '=' gives 400;
* log: duplicate module names or packages make the configuration panic; main's level is not applied to additive records;
* the first request of a connection has no read timeout; an error answered early while data is unread may reset the connection.

## False alarms met and what was done
* C12: a burst reported because handler starts were stamped late by the scheduler: slack from a heartbeat, repetition required.
* C11: connection "closed late" on a loaded machine: judged on timestamps taken in handlers, repeated.
* C08: descriptor counts taken before the kernel had finished closing: polled until stable.
* C13: a reset overtaking data on loopback: the complete response followed by a reset may be Err or complete.
* C19: `%s` of negative numbers cannot be parsed back by chrono: excluded from the round trip.
* C16/C18: non-canonical base64 tail bits and trailing bytes of a stream: either verdict accepted.
'''
out=[HEAD]
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
for k in sorted(P):
    a,b,c=P[k]
    out.append('\n### %s %s\n%s\n%s*Why beyond the tests*: %s *Cost*: %s.\n'%(k,props[k]['title'],a.strip(),('*Bounds*: '+b+'\n') if b else '',props[k]['why_tests_cant'],c))
out.append(LIM)
out.append('\n## Planted bugs and the checks that catch them\nEach is in `seeded/<id>/`; all listed here were run against the quick tier of the property named (exit 1 with its VIOLATION line).\n\n| bug | caught by | what it breaks |\n|---|---|---|\n')
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); n=d.rstrip('/').split('/')[-1]
    out.append('| %s | %s | %s |\n'%(n,m.get('caught_by',m['property']),m['what_it_breaks'].replace('|','/')))
extra='/verif/tools/design_extra.md'
if os.path.exists(extra): out.append('\n'+open(extra).read())
open('/verif/DESIGN.md','w').write(''.join(out))
