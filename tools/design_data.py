D, S = {}, {}
D['C01'] = '''
`HttpConn.tla` is a state machine of one client connection: a byte stream cut into segments, the read position, the request being answered, the answers written.
Invariants: answers in request order, exactly one per complete request, made from that request's bytes only, nothing served behind a request that ends the
stream; liveness (`HttpConnLive`): a complete request is answered. TLC checks all segmentations and interleavings of 3 requests with lengths, chunked bodies,
close/keep-alive and errors; `HttpConnBug` (body bytes read as a request) must fail. `HttpConnGen` prints schedules that `http1.Player` replays on the real
worker (plus seeded random longer ones, 256 kB pipelines, slow handlers); every recorded history is validated with `HttpConnTrace`. Cost 30-60 s. Tests never cut or pipeline.'''
D['C02'] = '''
`Relay.tla` describes a response in flight from backend (HTTP, FastCGI, SCGI; lengths, chunked, until close, early end, reset, 1xx/204/205/304, HEAD) to the
client and which endings the client may see: complete exactly if the backend's response was complete, otherwise visibly cut off. TLC: all scripts of small
pieces and faults; bug and vacuity configurations. Scripted backends play TLC's and random scripts; what the client got is validated.
`Tunnel.tla` does the same for upgraded connections (both directions are exact, end is propagated).'''
D['C03'] = '''
`HttpHead.tla` is an executable byte-level definition of acceptable request heads (automaton over the bytes plus header rules) with the required verdict
(accept with these values / refuse with 4xx-5xx and close). TLC evaluates it on every combination from a token pool (MC configurations), prints heads, and judges the
real worker's answer to each of these and to thousands of mutated heads, also delivered in cuts and incomplete up to the size limits.'''
D['C04'] = '''
`Url.tla` defines splitting, decoding, normalisation and the docroot/alias/index/pathinfo/static pipeline over an abstract file system; containment and normal
form are invariants over all targets of up to 5 tokens and all configurations of the pool. The same targets and random ones are requested from the real worker over a
scratch tree full of decoys; TLC judges each answer (which file, 301, 403, 404).'''
D['C05'] = '''
`Range.tla` defines Range/If-Range/If-None-Match/If-Modified-Since for a file version; TLC enumerates all headers of up to 5/6 tokens for small sizes with invariants
(parts are inside the file, 206 iff satisfiable). Replayed on the worker with real files of many sizes, plus histories of replacing files; answers judged by TLC byte for byte.'''
D['C06'] = '''
`ChunkQueue.tla`: a queue is a byte sequence with length and memory accounting; operations append/steal/skip/extract/iterate/write with limits. TLC explores all
histories of 2 queues to depth 4 and generates histories (simulation, all of length 2) that `harness/cq.c` runs on the library (memory, string, file, temp file
chunks); results and accounting after each step are validated by `ChunkQueueTrace`; `ChunkQueueBug` must fail.'''
D['C07'] = '''
`Chunked.tla` is a decoder automaton and an encoder; TLC checks decode(encode(x)) = x for all segmentations and that the decoder never over-reads on all inputs up to
12 symbols. All inputs up to length 7 and random ones with every segmentation go through the real filter (`harness/chunked.c`) and the worker; judged by `ChunkedTrace`.'''
D['C08'] = '''
`Forward.tla` defines what a backend must be told (request line, headers or CGI variables, body) for a request and configuration, for proxy, FastCGI and SCGI; what must not reach it
(spoofed variables, hop headers) and how backend failures may look to the client. TLC: small header pools exhaustively, with vacuity runs; real backends record what they got; judged by TLC.'''
D['C09'] = '''
`Pool.tla`: waiters, connects, connections, idle list, outages, aborts; safety (one request per connection, no use after close, nothing leaked) and liveness (every request gets an
answer). Random and TLC-shaped histories with held, refusing and hanging backends are recorded at the sockets and validated with `PoolTrace`; file descriptors of the worker are counted at the end.'''
D['C11'] = '''
`Config.tla` defines conditions (all operators and lvalues incl. regex captures and subnets), blocks, else, maps, and/or nesting, and what sequence of actions a program performs.
TLC: all programs to depth 2-4 over a pool (determinism, short-circuit and else exclusivity). The generated and random programs are loaded in the real worker and every request's answer is judged.'''
D['C12'] = '''
`ConfigValue.tla` defines the value language (numbers with suffixes, strings, escapes, lists, hashes, variables, scopes, operators, casts) or refusal. Expressions enumerated by TLC plus random ones are loaded and
printed by the real configuration parser; values compared by TLC.'''
D['C13'] = '''
`Auth.tla`: user files as histories of versions, ttl reload with candidate versions, credentials; invariant: nobody passes without a matching entry of a version that may be loaded. Generated files, hashes (crypt/apr1/SHA/digest),
headers and edit histories on the worker, judged with `AuthTrace`.'''
D['C14'] = '''
`Limit.tla`: slots and one-second windows; conservation and bound invariants over all interleavings of 3 requests (7 constant sets), `LimitBug` must fail. Histories with held backends, aborts and simultaneous arrivals
on 1 and 3 threads are validated with interval clocks.'''
D['C16'] = '''
`Rewrite.tla` (on `Url.tla`): rules, regex family, patterns, raw/decoded path and query, Location forms. TLC: all targets of up to 3 tokens through a pool of statements with consistency invariants; the same and random programs on the worker.'''
D['C17'] = '''
`Headers.tla`: header lists and environment as data, edit statements in order, pattern evaluation, folding. TLC: all programs of 3/4 statements (name-case and separation invariants). 450 random programs x 8 requests with backends of all three protocols, judged by TLC.'''
D['C22'] = '''
`Alog.tla`: formats, fields, escaping; `AlogMC` models workers, queue, log thread and stop (exactly once at every stop point; escaping of all texts up to length 3 over critical bytes is printable, unique and stays inside quotes; `AlogBug*` lose
lines and must fail). Random formats and requests, pipelining, aborts, bad targets on three threads, stop by signal; each line, file and per-connection order judged by `AlogTrace`.'''
D['C29'] = '''
`Access.tla`: prefix table as a finite map with longest-prefix lookup, address grammar; TLC: all histories of 3/4 operations with 2-3 bit keys. The histories, stretched to 32/128 bit keys, run on the radix tree; texts on the parsers (`harness/ip.c`); rule lists on the worker with many client addresses.'''
D['C10'] = '''
`Balance.tla`/`BalanceMC`: members, what the balancer believes of them, load, backlog and its timer (load = requests under way, passed on once, waiting requests are in the backlog and timed; liveness: served once a member is up; a lost timer,
leaked load and repeated requests must fail). Histories of requests, answers, breaks, aborts and outages on 48 balancers (nested ones too) are recorded at the sockets and validated with `BalanceTrace`, which keeps what may be known of each member as time intervals.'''
D['C23'] = '''
`Vhost.tla` (on `Rewrite.tla`/`Url.tla`): host names, label ranges, maps, docroot, alias, userdir as a state machine over statements. TLC: every host of 3/4 tokens and path of 2 tokens through a pool of statements with
the invariants "nothing climbs", "the file is below the root", "only the name counts"; the same and random programs on the worker. Redirects of directories are checked separately (`userdir-redirect` is a known finding: userdir removes the user from the path,
so the redirect loses it; a repair would need another field for the requested path).'''
D['C25'] = '''
`KeepAlive.tla`: phases of one connection (head or body incomplete, busy, response stuck, idle, closing) and when it may and must be shut. `KeepAliveMC` explores all orders of client actions with an exact clock; variants that cut busy clients, cut early, or never cut
a client that does not read an unfinished response must fail. `KeepAliveGen` prints the action histories; they run on the real worker (backends of `hold.py`, an endless backend and a big file for stalled readers), events carry time intervals and `KeepAliveTrace` accepts or rejects.
Found and repaired: three defects in connection.c (see known-findings.txt).'''
D['C31'] = '''
`Flow.tla`/`FlowMC`: backend, kernel, a chain of queues sharing a limit that is spread once the head is complete, kernel, client that pauses and resumes. Invariants: conservation, held <= limit + one read, no quiet state with room and waiting data; liveness: all delivered.
`FlowBug*` (no wake-up after unlock, limit on the last queue only) must fail. The check runs real transfers: at points where nothing moves it takes what the sender got rid of, what waits in the kernel's socket buffers (/proc/net/tcp) and what the client has; the rest is in the server
and must be within [limit, limit + read] when more is waiting, and below the bound always (`FlowTrace`). Resident memory is compared with the same bound; contents are compared byte by byte; uploads nobody reads must not grow memory.
Found and repaired: limits were never passed on (backend responses of any size in memory), TLS encrypted without limit and did not count plain data, `io.buffer_out 0` was refused. Known finding: `upload-unbuffered`.'''
D['C20'] = '''
`Deflate.tla`: input queue, compressor, output buffer, client, with pauses, end and break of the origin. `Coding.tla`: the choice from an Accept-Encoding set, entity tags of codings, a shared cache in front. `checks/c20.py` sends random responses (three framings, random segments with pauses the test controls, breaks by
FIN and RST, statuses, presets, static files, ranges, HEAD, HTTP/1.0, slow clients) through nine compressor configurations (one byte blocks, one byte buffers, every codec), decodes the stream as it arrives and validates with `DeflateTrace`; the following pipelined request is checked too; tag and If-None-Match histories are separate records.
Found and repaired: five defects (see known-findings.txt), among them a crash and truncated bodies that ended properly.'''
D['C15'] = '''
`Throttle.tla`: every unit is in exactly one place (magazine of a worker, share and magazine of a connection), gained once per step; the clock of the pool is modulo a small number and may go back. Invariants: room in the worst interval never negative (leaky bucket), total since the start, no place above a burst; progress as a bounded
wait. `ThrottleTrace.tla` holds the same bounds over records of `harness/throttle.c`, which runs the real `li_throttle_*` and wait queues (1-3 workers, up to 8 connections, pools, own limits) with `ev_now` replaced by a virtual clock - 25 s of traffic take milliseconds, and the start can lie just before the 32-bit millisecond counter wraps. Lower
bounds (progress) are claimed only for scripts in which the connections ask all the time. Downloads through a real server with each action check the prefix bound from the client's side (what had arrived by t) and that they end. Found and repaired: a pool that never gave out anything again after the millisecond counter wrapped (every 49.7 days)
or the clock was set back; magazines of idle workers that piled up without limit and were let out at once (and would overflow). Setting the clock back while connections wait delays those until the old time comes again (wait queues use the wall clock); the property is only claimed for connections that begin to wait afterwards.'''
D['C24'] = '''
`Lifecycle.tla`: up to four instances, each with a process (boot, ready, warmup, running, told to stop, stopping), what the angel wants and knows of each, which one replaces which, the configuration good or bad, connections; actions: SIGHUP, SIGTERM, kill, edit, start-up steps, exit, accept, done, cut. Checked with fairness: `Kept` (nothing given up), `NoGap` (somebody listens), `Ends` (SIGTERM leads to nothing left), `Takes` (the newest good configuration ends up serving alone), `Stable`, at most two processes. Five wrong designs (stop before the new one listens, SIGHUP lost after a failed start, replacement orphaned by SIGTERM, connections dropped on stop, old one not resumed) are refuted.
`LifecycleTrace.tla` extends the same module: recorded events (signals, requests and their answers with the generation of the configuration, closed idle connections, the process table when nothing changes any more, the end with its exit code) are matched while the steps of angel and workers stay hidden: TLC must find an interleaving of the model's own actions that explains the record. `checks/c24.py` runs random histories on real angels (mixed; kills; SIGTERM at 0-300 ms into a restart; bad first start; many restarts for descriptors) and on workers alone, with requests held by a backend, idle connections, half requests and readers that stand still. A SIGHUP during a restart is ignored by the angel (by design; the model allows it), and a response begun before the stop may still say keep-alive although its connection is then closed. Found and repaired: both items in known-findings.txt.'''
D['C30'] = '''
`Tls.tla`: who may talk (a verdict over setting and certificate), which certificate a name gets, and one connection: bytes given, encrypted, read, the end (complete or cut), close_notify, the end of TCP. Invariants `NoLeak`, `Prefix`, `NoteIsAll`, `AllHasNote`; liveness: everything given arrives. Five `TlsBug_*` variants must fail and `TlsVac` shows that every phase is reached.
`checks/c30.py` makes listeners of mod_openssl with every combination of verify, verify-any, verify-require and depth 0-2 and talks to them with client certificates that are good, self-signed, of a foreign CA, expired, for servers only, below intermediates and below a CA that is none (`lib/pki`), in TLS 1.2 and 1.3, also when a session is resumed and when a session comes from another listener; names with mod_gnutls (stored, fallback, unknown, none);
and random exchanges in both libraries (static files, backends with length, chunked, until close, broken ones; HTTP/1.0 and 1.1; uploads up to megabytes in small and large records; slow and pausing readers). Records are validated with `TlsTrace`. Found and repaired: four defects (uploads that stop, ends that are not noticed, close_notify missing always with gnutls and sometimes with both). `verify-require` without `verify` has no effect in the code; the property takes it as documented there.'''
D['C19'] = '''
`DiskCache.tla`: resources with versions, tags that are unique for one resource only, requests that hit or write, publish by rename, breaks, kills, removal by a cron job. `checks/c19.py` runs histories on two workers (stat cache off and 1 s), with coded copies before and after the cache action, hosts and queries that share tags, origins held after the head (the body
can only come from the file), kills of the worker while files are written, and files replaced under a static origin; at the end every file of the history is read back. Found and repaired: the file name lacked host and query.'''
