prop('C01', 'Requests on one connection are answered in order, once, from their own bytes',
 'On a persistent client connection every complete request receives exactly one final response, in request order, produced from exactly that request\'s own bytes no matter how the bytes are cut into packets or pipelined. Bytes of a request body are never interpreted as a request, no response is lost or left waiting while input for it is complete, and the connection ends exactly when a response announced its end or the request stream can no longer be delimited.',
 ['inputs', 'schedules', 'histories'], 'every sequence of requests, every segmentation of the byte stream, every interleaving of delivery and service',
 'the tests send single complete requests on fresh connections; they reach no pipelining, no cut inside a head or body and almost no connection reuse',
 ['src/main/connection.c', 'src/main/request.c', 'src/main/http_request_parser.rl', 'src/main/filter_chunked.c', 'src/main/stream.c', 'src/main/stream_simple_socket.c', 'src/main/virtualrequest.c'],
 [('head/body state machine', 'connection.c _connection_http_in_cb'), ('end of response, keep-alive reset', 'connection.c li_connection_request_done, li_connection_reset_keep_alive'), ('body length decision', 'request.c li_request_validate_header')],
 'TLA+ model of a connection (TLC exhaustive) + replay of TLC-generated schedules against the real worker + trace validation of the recorded histories',
 'HttpConn.tla is checked exhaustively for 3 requests and all segmentations; the recorded histories of the real server are checked for refinement by TLC',
 state=[('read position', 'how far the byte stream has been consumed'), ('current request', 'the request whose response is being produced')])
prop('C03', 'Malformed, ambiguous and oversized requests are refused, connection closed',
 'A request head that violates the HTTP grammar or framing rules (bad bytes or line structure, unsupported version, missing, repeated or malformed Host, malformed, repeated or overflowing Content-Length, unknown or repeated transfer codings, a body on GET/HEAD, unsupported Expect, missing length on POST, target longer than 8 kB, head longer than 64 kB complete or not) is answered with an error status and the connection is closed without serving anything behind it; every other head is accepted and its method, target, host and header values are taken over exactly as sent. Nothing is answered before a head is complete.',
 ['inputs', 'schedules'], 'every byte sequence sent as a request head, every segmentation',
 'the unit tests parse a handful of well-formed heads; the input space is all byte strings',
 ['src/main/http_request_parser.rl', 'src/main/request.c', 'src/main/url_parser.rl', 'src/main/connection.c', 'src/main/chunk_parser.c', 'src/main/http_headers.c'],
 [('head grammar', 'http_request_parser.rl'), ('header validation', 'request.c li_request_validate_header'), ('uri/head limits', 'connection.c, http_request_parser.rl')],
 'TLA+ byte automaton and rule set for request heads (TLC: all heads of a token pool) + TLC-generated and mutated heads sent to the real worker, every answer judged by TLC',
 'HttpHead.tla is an executable definition of acceptable heads; the combination space of the token pool is checked exhaustively in the model, the code is compared on thousands of generated heads per run')
prop('C04', 'Request targets map to exactly one normalised path inside the configured root',
 'Every request target is split into path and query at the first "?", percent-decoded exactly once (control bytes neutralised, broken escapes dropped) and normalised so that no "//", "/./" or "/../" survives; the file served is the one that docroot, alias, index and pathinfo assign to that normalised path, always at or below a configured root, however the target is encoded. Anything that does not name a servable file is answered with 301 (directory without slash), 403 or 404, never with another file.',
 ['inputs', 'configurations'], 'every target string and every combination of docroot, alias, index and pathinfo settings',
 'the tests request a few fixed paths; traversal and encoding bugs live in rare combinations of escapes, dots and prefixes',
 ['src/main/url_parser.rl', 'src/common/utils.c', 'src/main/plugin_core.c', 'src/main/request.c', 'src/main/virtualrequest.c', 'src/main/stat_cache.c'],
 [('escape decoding, path simplification', 'utils.c li_url_decode, li_path_simplify'), ('target grammar', 'url_parser.rl'), ('docroot, alias, index, pathinfo, static actions', 'plugin_core.c')],
 'TLA+ definition of decoding, normalisation and the static pipeline over an abstract file system (TLC: all targets of <= 4/5 tokens) + the same targets and random ones replayed on the real worker, answers judged by TLC',
 'Url.tla; containment and normal form are invariants checked over every enumerated target and configuration; the code is compared on >20000 answers per run')
prop('C05', 'Range and conditional requests return exactly the asked bytes of one version',
 'For a static file a syntactically valid Range header yields 206 with exactly the satisfiable requested byte ranges (single, or multipart in request order), 416 with the file size if none is satisfiable, and the complete file with 200 if the header is malformed, ranges are switched off, or If-Range names another version. 304 is only sent when the given validators match the current file; validators change whenever size or modification time change, and all bytes of a response come from the file as announced.',
 ['inputs', 'histories'], 'every Range header, every combination of validators, every file size, every history of file replacement',
 'the unit test of the range parser covers a few strings; the combination with validators, multipart output and changing files is untested',
 ['src/main/http_range_parser.rl', 'src/main/etag.c', 'src/main/plugin_core.c', 'src/main/stat_cache.c'],
 [('range parser', 'http_range_parser.rl'), ('206/416 assembly', 'plugin_core.c core_handle_static'), ('validators', 'etag.c')],
 'TLA+ definition of acceptable answers (TLC: all Range headers of <= 5/6 tokens on 4 sizes) + all/sampled headers with random validators replayed on the real worker, answers judged by TLC',
 'Range.tla; the code is compared on >7000 answers per run and on histories of file replacement')
prop('C06', 'Chunk queues are exact byte FIFOs with exact length and memory accounting',
 'For every sequence of calls on chunk queues (appending strings, memory, shared buffers, files and temporary files; stealing, skipping, extracting, parsing, reading from and writing to sockets) the bytes that leave a queue are exactly the bytes that entered it, in order, never lost, duplicated or altered; return values, length, bytes_in, bytes_out and memory usage always match the content; queues sharing a memory limit are locked exactly while their summed usage reaches it and the owner is notified of every change; files and temporary files are released with their last byte, and a file that shrank is reported as an error after its remaining bytes.',
 ['inputs', 'histories'], 'every finite sequence of queue operations on several queues, with every mix of chunk kinds, sizes and shared or private limits',
 'unit tests cover a few appends and one steal; the state space of chunk kinds, partial consumption and shared limits is never combined',
 ['src/main/chunk.c', 'src/main/chunk_parser.c', 'src/main/network.c', 'src/main/network_write.c', 'src/main/network_writev.c', 'src/main/network_sendfile.c', 'src/common/buffer.c', 'include/lighttpd/chunk.h'],
 [('move/split/drop chunks', 'chunk.c li_chunkqueue_steal_len, _steal_all, _steal_chunk, _skip'), ('limit accounting', 'chunk.c cqlimit_update, li_chunkqueue_set_limit'), ('socket io', 'network.c, network_writev.c, network_sendfile.c')],
 'TLA+ model of queues (TLC exhaustive for short histories, conservation invariants) + TLC-generated call sequences executed on the real library, every intermediate observation validated by TLC',
 'ChunkQueue.tla; all pairs of calls and thousands of random sequences of 9-30 calls per run',
 state=[('chunks', 'remaining data per queue'), ('mem_usage / limit.current', 'accounted memory'), ('bytes_in, bytes_out', 'running totals')])
prop('C09', 'Every request to a backend gets its own connection and an answer',
 'A request handed to a proxy, SCGI or FastCGI backend is passed on at most once, completely, on a connection no other request is using at that time, and its client gets exactly the answer given to that request. It fails (5xx or closed connection) only if the backend broke it off or was refusing or not accepting connections while it waited, and then it does fail instead of waiting beyond the connect timeout; as soon as the backend listens again requests are served again. When the client leaves, its backend connection is closed or the unused connection is kept for at most the idle timeout. Afterwards no connection and no descriptor is left over.',
 ['histories', 'schedules', 'faults'], 'every history of requests, answers, aborts and backend outages, on one or several worker threads',
 'tests use one healthy backend and one request at a time; lost wake-ups, cross-talk and leaks need concurrent requests and outages',
 ['src/main/backends.c', 'src/modules/mod_proxy.c', 'src/modules/mod_scgi.c', 'src/modules/mod_fastcgi.c', 'src/modules/fastcgi_stream.c', 'src/common/waitqueue.c'],
 [('pool', 'backends.c S_backend_pool_distribute, li_backend_get, li_backend_wait_stop, li_backend_put'), ('connect results', 'backends.c backend_con_watch_connect_cb, backend_pool_worker_connect_timeout, S_backend_pool_failed'), ('idle', 'backends.c backend_pool_worker_idle_timeout, backend_con_watch_for_close_cb')],
 'TLA+ model of requests, pending, idle and used connections and backend outages (TLC: safety for 3 requests, liveness for 2) + random histories on the real worker (1 and 3 threads, TCP and unix backends that answer, break, refuse or stop accepting), every history replayed by TLC against the model with its internal steps hidden',
 'Pool.tla; about 96 backends, 900 requests per run; connection limits > 0 and disable_time are not reachable from any module and not covered',
 state=[('requests', 'state per request'), ('connections', 'pending, idle, in use'), ('backend', 'up, down or stuck')])
prop('C11', 'Configured conditions, blocks and maps select exactly the documented actions',
 'For every configuration and every request the actions that run are exactly those the configuration language defines, in order: conditions compare the documented request attribute with the documented operator, "and" binds stronger than "or", "!" negates, if/else-if/else runs exactly one branch; captures (%0..%9, $0..$9, ranges) are those of the innermost matching regular expression and are restored when its block ends; map picks the first matching key (lists of keys included) or the default; the last value set for an option before it is used wins; header and environment actions apply in order; the first respond/backend action decides the answer and later ones do not replace it; conditions on response status or headers wait for the backend and see its answer.',
 ['inputs', 'configurations'], 'every configuration program over these constructs and every request to it',
 'the tests run a few dozen fixed configurations; conditions, captures and nesting combine without limit',
 ['src/main/actions.c', 'src/main/condition.c', 'src/main/pattern.c', 'src/main/config_parser.rl', 'src/main/plugin_core.c', 'src/main/options.c'],
 [('action stack', 'actions.c li_action_execute, action_stack_pop'), ('condition evaluation', 'condition.c'), ('pattern expansion', 'pattern.c li_pattern_eval'), ('condition parser', 'config_parser.rl p_condition')],
 'TLA+ evaluator of configuration programs (TLC: laws on all expressions up to a size) + TLC-enumerated condition expressions and random nested programs loaded into the real worker, every answer judged by TLC',
 'Config.tla; about 1400 programs and 12000 requests per run',
 state=[('action stack', 'blocks being executed'), ('capture stack', 'regex matches in scope'), ('option values', 'per request')])
prop('C12', 'Configuration values, variables, scopes mean what is documented or are refused',
 'Every value expression in a configuration evaluates to exactly its documented value: integer literals in base 8, 10 and 16 with byte, bit and time suffixes as exact 64 bit integers, arithmetic with the usual precedence, string literals with their escapes, concatenation, lists, key-value lists, casts and blocks; a variable reference yields the value of the innermost scope that defines it, "local" and "global" assignments touch only that scope, plain assignments change the existing variable, blocks and included files open a scope that ends with them. Whatever is not valid (overflow, division by zero, wrong types, undefined names, bad escapes) is refused with an error at load time; no configuration text crashes the loader.',
 ['inputs', 'configurations'], 'every configuration text over values, expressions, assignments, blocks and includes',
 'the tests never look at values; overflow, sign and scope errors silently change limits and options',
 ['src/main/config_parser.rl', 'src/main/value.c', 'src/main/utils.c', 'include/lighttpd/config_parser.h'],
 [('lexer (numbers, strings)', 'config_parser.rl'), ('expressions', 'config_parser.rl p_value, op_execute'), ('scopes', 'config_parser.rl scope_setvar, scope_getvar, p_vardef'), ('string form', 'value.c li_value_to_string')],
 'TLA+ evaluator with exact big-number arithmetic and scopes (TLC: all histories of 3/4 variable operations) + those histories and random programs loaded by the real worker, every printed value judged by TLC',
 'ConfigValue.tla; 2500 configurations per run',
 state=[('scope stack', 'variables per open block or file'), ('global scope', 'variables of "global"')])
prop('C07', 'Chunked transfer coding is decoded and encoded exactly, or refused',
 'Every chunked message body is decoded to exactly the payload its chunks carry, whatever the sizes, leading zeros, trailers and cuts between packets; decoding ends exactly behind the final empty line and touches nothing behind it; sizes that are empty, not hexadecimal or 2^63 and above, missing line ends and missing terminators are refused and never taken for a complete body. Every payload the server encodes itself decodes back to the same bytes, with exactly one final chunk, exactly when the payload is complete.',
 ['inputs', 'schedules'], 'every byte string, every segmentation and every chunk kind it is delivered in',
 'one unit test decodes one body; the automaton has states that only rare cuts, sizes and malformations reach',
 ['src/main/filter_chunked.c', 'src/main/connection.c', 'src/main/chunk_parser.c', 'include/lighttpd/filter_chunked.h'],
 [('decoder', 'filter_chunked.c li_filter_chunked_decode'), ('encoder', 'filter_chunked.c li_filter_chunked_encode, http_chunk_append_len'), ('request bodies', 'connection.c _connection_http_in_cb')],
 'TLA+ byte automaton proved equal to a declarative definition of chunked bodies by TLC (all strings up to 10/12 bytes) + all short strings and random and mutated bodies with random cuts run through the real filter and the real worker, every observation validated by TLC',
 'Chunked.tla; 18000 scripts on the filter and 900 request bodies per run',
 state=[('decoder mode', 'position in size line, data, trailer'), ('missing bytes', 'rest of the current chunk')])
prop('C02', 'The end of every response is certain to the client',
 'Every response carries exactly one framing (Content-Length, chunked, or end of connection; none for HEAD, 204 and 304; an explicit zero length for 205), never two; chunked is only used towards HTTP/1.1; the announced length equals the bytes sent; a connection is only kept open when the response is delimited, and then the next request on it is answered; connection and version of the answer agree with the request; one Date and one Server header. This holds for built-in answers and for HTTP, SCGI and FastCGI backends, whatever status, headers, lengths, transfer codings and packet boundaries they use; interim 1xx answers are dropped and unusable status codes become an error page.',
 ['inputs', 'schedules'], 'every method, version, keep-alive wish, status, backend framing and packetisation',
 'tests look at a few complete responses; framing errors need odd combinations (HEAD with chunked, 205, conflicting lengths, interim answers in the same packet)',
 ['src/main/response.c', 'src/main/connection.c', 'src/main/stream_http_response.c', 'src/main/http_response_parser.rl', 'src/main/filter_chunked.c', 'src/modules/fastcgi_stream.c', 'src/modules/mod_proxy.c', 'src/modules/mod_scgi.c'],
 [('framing decision', 'response.c li_response_send_headers'), ('response stream', 'connection.c _connection_http_out_cb'), ('backend responses', 'stream_http_response.c, http_response_parser.rl'), ('FastCGI records', 'fastcgi_stream.c fastcgi_decode')],
 'TLA+ state machine of one response from producer to client (TLC exhaustive over all scenarios) + thousands of scripted backend and built-in responses through the real worker, every client observation validated against the state machine by TLC',
 'Relay.tla; about 3300 responses per run',
 state=[('head sent', 'answer head and its framing'), ('forwarded bytes', 'progress of the body'), ('producer state', 'head, pieces, whole or cut')])
prop('C08', 'Backends see the real request; their failures never look like success',
 'What a backend is told is what the client asked: method, target, every end-to-end header in order and the exact body with its length (chunked or not) reach HTTP backends; SCGI and FastCGI backends get well-formed records and one variable per name with the documented value; hop-by-hop headers are not forwarded, and X-Forwarded-*, REMOTE_*, and variables set by the configuration cannot be overridden by the client. Status, headers and body of a complete answer arrive unchanged. An answer that is malformed, cut short or reset never arrives as a complete response, and the client is never left waiting for it. An upgraded connection relays both byte streams unchanged until either side ends.',
 ['inputs', 'schedules', 'faults'], 'every request and every backend behaviour, including death of the backend at every point of the exchange',
 'tests use well-behaved backends; the guarantees are about failing and malicious peers at arbitrary points',
 ['src/main/stream_http_response.c', 'src/main/environment.c', 'src/main/network.c', 'src/main/stream_simple_socket.c', 'src/modules/mod_proxy.c', 'src/modules/mod_scgi.c', 'src/modules/mod_fastcgi.c', 'src/modules/fastcgi_stream.c', 'src/main/virtualrequest.c'],
 [('request to HTTP backends', 'mod_proxy.c proxy_send_headers'), ('CGI environment', 'environment.c li_environment_dup2cgi'), ('truncation', 'stream_http_response.c'), ('resets', 'stream_simple_socket.c'), ('upgrade', 'connection.c mainvr_connection_upgrade')],
 'TLA+ models of response relay, request forwarding and tunnels (TLC exhaustive) + faulty, honest and upgrading backends driven through the real worker, every observation of client and backend validated by TLC',
 'Relay.tla, Forward.tla, Tunnel.tla; 2000 faulty responses, 1200 requests, 80 tunnels per run')
prop('C17', 'Header and environment edits do exactly what they say, in order',
 'header.add, append, overwrite and remove (and the req_header forms) change exactly the named header, compared without case: add gives a new line, append extends the last line of that name or adds one, overwrite replaces the value of the last one or adds one, remove deletes all; every other line keeps its place and value. env.set, add, remove and clear likewise. They run in the order written, before or after the backend answered, and their patterns see the values of that moment. What a client or backend sends can become part of a value but never a line of its own: the header lists the client and the backend receive have exactly the lines that follow from the statements.',
 ['inputs', 'configurations'], 'every program of edits, every request and backend header list',
 'tests add single headers; order, duplicates, case and hostile values are not combined',
 ['src/main/http_headers.c', 'src/main/plugin_core.c', 'src/main/environment.c', 'src/main/pattern.c', 'src/main/response.c'],
 [('lists', 'http_headers.c li_http_header_append, li_http_header_overwrite, li_http_header_remove, _http_header_sanitize'), ('statements', 'plugin_core.c core_handle_header, core_handle_header_remove, core_handle_env_set'), ('environment', 'environment.c')],
 'TLA+ definition of header lists and edits (TLC: all programs of 3 statements over a pool, no-split and exactness invariants) + random programs before and after proxy, SCGI, FastCGI and respond on the real worker with hostile paths and folded headers, every header list judged by TLC',
 'Headers.tla; about 450 programs and 3600 requests per run')
prop('C29', 'Address rules decide by the most precise network containing the client',
 'Textual IPv4 and IPv6 addresses, networks and ports are accepted exactly if they are well formed (numbers in range however long, "::" standing for at least one zero group, brackets, prefix length) and then mean exactly their value; prefix tables return for a key the entry of the longest stored prefix, exact lookups and removals affect exactly their key for keys of any length, whatever the history of insertions and removals. access.check lets a request pass exactly if the most precise given network that contains the client address (the last one of equals) is an allow entry, refuses it with 403 otherwise, also when no network matches; =/ and !/ conditions are true exactly for addresses inside (outside) the network; anything malformed is refused when the configuration is loaded.',
 ['inputs', 'configurations', 'histories'], 'every address and network text, every rule list, every client address, every history of table operations',
 'the unit tests parse a few addresses and never remove long keys; overlapping networks and word boundaries in the tree are not combined',
 ['src/common/radix.c', 'src/common/ip_parsers.rl', 'src/common/utils.c', 'src/modules/mod_access.c', 'src/main/condition.c'],
 [('prefix tree', 'radix.c li_radixtree_insert, _remove, _lookup, _lookup_exact'), ('address grammar', 'ip_parsers.rl'), ('rules', 'mod_access.c access_check, access_check_create'), ('subnet conditions', 'condition.c ip_in_net; utils.c li_ipv6_in_ipv6_net')],
 'TLA+ finite map with longest-prefix semantics and address grammar (TLC: all histories of 3/4 table operations) + TLC-generated histories stretched to real key widths run on the library, random texts and rule lists loaded in the real worker, every result judged by TLC',
 'Access.tla; 2800 table histories, 5500 parses and comparisons, 400 rule lists x 10 client addresses per run',
 state=[('prefix table', 'key bits to value')])
prop('C13', 'Authentication lets exactly the right passwords through',
 'A request covered by auth.plain, auth.htpasswd or auth.htdigest passes exactly if it carries well-formed Basic credentials whose user is in the file and whose password matches that user\'s own entry: verbatim (plain), by the crypt, apr1 or {SHA} hash (htpasswd), or by the MD5 of user, exactly the configured realm and password (htdigest). Every other request is answered 401 with a challenge naming the realm, and its target is never served or executed. A file that cannot be parsed lets nobody in; an edited file takes effect within its ttl and never in a half-read or mixed form; require_user and auth.deny see only the authenticated name, and REMOTE_USER is set exactly for authenticated requests.',
 ['inputs', 'configurations', 'histories'], 'every Authorization header, every user file, every history of edits to it',
 'no test exercises mod_auth at all; wrong accepts need particular bytes in headers, user files or realms',
 ['src/modules/mod_auth.c', 'src/common/encoding.c', 'src/common/utils.c'],
 [('credentials', 'mod_auth.c auth_basic'), ('user files', 'mod_auth.c auth_file_load, auth_file_update'), ('hashes', 'mod_auth.c auth_backend_plain, auth_backend_htpasswd, auth_backend_htdigest'), ('hashes', 'utils.c li_apr_md5_crypt, li_apr_sha1_base64')],
 'TLA+ model of user files, reloads and credentials (TLC: all histories of edits, requests and time steps; nobody passes without a matching entry) + generated files, realms, hashes and Authorization headers on the real worker, every answer judged by TLC; reload histories validated with candidate versions within the ttl',
 'Auth.tla; about 110 configurations, 4400 requests and 24 reload histories per run',
 state=[('file versions', 'user -> password entry, per write'), ('loaded', 'which version a worker may be using')])
prop('C14', 'Connection and request limits admit exactly the configured number',
 'limit.con and limit.con_ip let a request pass exactly while fewer than the configured number of admitted requests (of the same client address) are under way; an admitted request gives its slot back exactly once when it ends, however it ends (answered, client or backend gone), and refused requests hold none. limit.req and limit.req_ip let at most the configured number of requests (per address) pass in the second that begins with the first of them and admit again afterwards. A refused request gets 503 or exactly the configured action; independent limits, addresses and worker threads do not influence each other beyond the shared count.',
 ['histories', 'schedules', 'configurations'], 'every history of arriving, finishing and aborted requests from several addresses on several workers, every combination of limits',
 'no test drives concurrent requests into a limit; slot leaks appear only after aborts and refusals in the same program',
 ['src/modules/mod_limit.c', 'src/common/radix.c', 'src/common/waitqueue.c', 'src/main/virtualrequest.c'],
 [('admission', 'mod_limit.c mod_limit_action_handle'), ('release', 'mod_limit.c mod_limit_vrclose'), ('per address expiry', 'mod_limit.c mod_limit_timeout_callback')],
 'TLA+ model of slots and windows (TLC: all interleavings of 3 requests, conservation and bound invariants) + random histories with held backends, aborts and simultaneous arrivals on the real worker (1 and 3 threads), every history validated by TLC with interval clocks',
 'Limit.tla; about 90 programs and 1000 requests per run',
 state=[('slots', 'taken per limit and address'), ('windows', 'start and count per limit and address')])
prop('C16', 'Rewrites and redirects: first match wins, path, query and raw path agree',
 'A rewrite, rewrite_raw or redirect applies exactly the first of its rules whose regular expression matches (the decoded path; for rewrite_raw the raw path with query) and nothing if none does. Targets are built from the rule\'s captures ($n, ranges, reversed ranges), the captures of the enclosing condition (%n), request variables (plain or URL-encoded) and escaped literals; captures that do not exist are empty. rewrite replaces the query exactly if the target has an unescaped "?", rewrite_raw always; the new path is normalised again and can never leave "/", and afterwards raw path, path and query denote the same resource. A redirect answers 301 unless the request is already answered, with a Location that is absolute, on the same host, in the same directory or the same path with another query, the repeated path correctly escaped.',
 ['inputs', 'configurations'], 'every request target and every program of rules, conditions and patterns',
 'tests rewrite a handful of paths; the interplay of escapes, captures, conditions and repeated rewrites is not sampled',
 ['src/modules/mod_rewrite.c', 'src/modules/mod_redirect.c', 'src/main/pattern.c', 'src/main/url_parser.rl', 'src/common/encoding.c', 'src/common/utils.c'],
 [('rules', 'mod_rewrite.c rewrite_internal, rewrite, rewrite_raw'), ('locations', 'mod_redirect.c redirect_internal'), ('patterns', 'pattern.c li_pattern_new, li_pattern_eval, li_pattern_regex_cb'), ('re-parsing', 'url_parser.rl li_parse_raw_path')],
 'TLA+ definition of rules, patterns and URL rewriting (TLC: all targets of <= 3 tokens through a pool of statements, consistency invariants) + those scenarios and random programs replayed on the real worker, every answer judged by TLC',
 'Rewrite.tla; about 1000 programs and 20000 requests per run')
prop('C22', 'The access log records every answered request exactly once, unforgeably',
 'With an access log configured for a request, every answered or cut-off request leaves exactly one complete line in exactly the file selected for it, lines of one connection in request order, also with several worker threads and when the server is stopped right after the last answer. Every field shows what was really received and sent: addresses, port, method, target, status, sizes without headers ("-" for none in CLF), headers, environment, user, names and whether the connection was kept, closed or cut off. Text a client controls is escaped so that it can neither end the line nor leave its quotes. Unwritable or empty targets lose only their own lines and never harm the server.',
 ['inputs', 'histories', 'schedules', 'configurations'], 'every format, every request and response, every interleaving of workers and the log thread',
 'no test looks into an access log',
 ['src/modules/mod_accesslog.c', 'src/main/log.c', 'src/main/connection.c', 'src/main/response.c'],
 [('formats', 'mod_accesslog.c al_parse_format, al_format_log'), ('escaping', 'mod_accesslog.c al_append_escaped'), ('one entry per request', 'mod_accesslog.c al_handle_vrclose; virtualrequest.c li_vrequest_reset'), ('log thread', 'log.c log_watcher_cb, log_open, li_log_thread_finish')],
 'TLA+ definition of formats and escaping and model of workers, queue and log thread (TLC: unambiguous escaping of all short texts, exactly-once over all interleavings and stop points) + random formats, requests, aborts and targets on the real worker with three threads, every line and file judged by TLC',
 'Alog.tla; 180 formats and about 1700 requests per run',
 state=[('queue', 'entries handed to the log thread'), ('files', 'lines written')])
prop('C10', 'Balancers use each reachable backend as configured and lose no request',
 'balance.rr passes requests to its members in cyclic order, balance.sqf to one with the fewest requests under way; members that cannot be reached are passed over while another one can. A request is passed on to at most one member completely, never again after it was passed on, and its client gets that member\'s answer or an error. If no member can be used the request waits and is served, within the retry time, as soon as a member is back; this holds also for balancers inside balancers and for members that answer by themselves. An aborted request, waiting or passed on, influences no other and leaves no load behind.',
 ['histories', 'schedules', 'faults', 'configurations'], 'every history of requests, answers, aborts and outages of members, every nesting',
 'the tests have one balancer with two healthy members',
 ['src/modules/mod_balance.c', 'src/main/actions.c', 'src/main/virtualrequest.c', 'src/main/backends.c'],
 [('choice', 'mod_balance.c balancer_act_select, _balancer_context_select_backend'), ('failure', 'mod_balance.c balancer_act_fallback; actions.c li_action_execute'), ('backlog', 'mod_balance.c _balancer_backlog_schedule, balancer_timer_cb'), ('release', 'mod_balance.c balancer_context_free; actions.c action_stack_pop')],
 'TLA+ model of members, load, view, backlog and timer (TLC: safety for 3 requests on 2-3 members, liveness for 2; three seeded faults must fail) + random histories on real balancers over proxy, SCGI and FastCGI members that go away and come back, 1 and 3 threads, every history validated by TLC with interval clocks',
 'Balance.tla; 48 balancers, about 700 events per run; backlog-limit has no configuration and is not covered',
 state=[('load', 'requests under way per member'), ('view', 'alive, overloaded, down per member'), ('backlog', 'waiting requests')])
prop('C23', 'Host and path select exactly the configured site, root and user directory',
 'vhost.map runs the block of exactly the requested host (port, case and final dots do not matter; the host of an absolute target wins), else the default; vhost.map_regex the first matching one. docroot uses the first of its patterns that names an existing directory, else the last, alias the first prefix that ends at a path separator, userdir the directory made from the user\'s home or the pattern, with unknown users and root refused; $n stands for host labels counted from the top level, %n for captures of the enclosing condition. Whatever host and path a client sends, the file lies below that root and neither contains "..". A redirect to a directory keeps the requested URL. Meaningless mappings are refused at load time.',
 ['inputs', 'configurations'], 'every host, path and mapping configuration',
 'tests use one host and one docroot; hosts with empty or many labels, and prefixes at odd boundaries are not sampled',
 ['src/modules/mod_vhost.c', 'src/modules/mod_userdir.c', 'src/main/plugin_core.c', 'src/main/pattern.c', 'src/main/url_parser.rl', 'src/main/request.c'],
 [('maps', 'mod_vhost.c vhost_map, vhost_map_regex'), ('document root', 'plugin_core.c core_handle_docroot, core_docroot_nth_cb, core_handle_alias'), ('user directories', 'mod_userdir.c userdir'), ('host name', 'url_parser.rl li_parse_hostname; request.c li_request_validate_header'), ('redirect', 'virtualrequest.c li_vrequest_redirect_directory')],
 'TLA+ definition of host names, maps, document roots, aliases and user directories (TLC: all hosts of <= 3-4 tokens and paths of <= 2 through a pool of statements; nothing climbs, case and port are irrelevant) + those scenarios and random programs replayed on the real worker, every answer judged by TLC; a table of meaningless mappings through the loader',
 'Vhost.tla; about 780 programs and 17000 requests per run; what $n beyond the last label means is left open')
prop('C25', 'Connections end exactly when keep-alive, request limit or io timeout say so',
 'A connection serves requests until the client or the answer to a request ends it: the answer to the keepalive.requests-th request, to one with keepalive.timeout 0, or to one that asks for it announces the end, no other does, and an announced end follows. Between two requests it stays open for keepalive.timeout. A client that owes bytes (request head or body) or does not take response bytes is cut when nothing moves for io.timeout, not before and not much later; while the server or a backend works on a complete request it is never cut; a slow client whose bytes move is never cut.',
 ['inputs', 'histories', 'schedules'], 'every sequence of partial and complete requests, pipelining, pauses, stalled and slow readers under every timeout configuration',
 'the tests have no pauses and no connection with more than a few requests',
 ['src/main/connection.c', 'src/main/waitqueue.c', 'src/main/worker.c', 'src/main/plugin_core.c'],
 [('io timeout', 'connection.c li_connection_update_io_timeout, li_connection_update_io_wait; waitqueue.c'), ('keep-alive', 'connection.c li_connection_reset_keep_alive, _connection_http_in_cb, _connection_http_out_cb'), ('keep-alive queue', 'worker.c worker_keepalive_cb')],
 'TLA+ model of one connection with its three clocks (TLC: all client action orders x configurations; never cut while busy, never early, never overdue, at most n requests; three buggy variants must fail) + its action histories replayed on the real worker with pauses, held and unlimited backends and stalled readers; every history judged by TLC with interval clocks',
 'KeepAlive.tla; about 450 histories per run on 16 servers, 2200 in the thorough run; granularity of io.timeout 1 s as implemented, up to 4 s late tolerated')
prop('C31', 'Slow peers cost bounded memory, stall nothing else and lose no byte',
 'While a client reads its response slowly or not at all, the server holds at most io.buffer_out (default 256 KiB) plus one read of it in memory and stops reading from the backend, over HTTP, SCGI, FastCGI and upgraded connections, plain and over TLS, with and without compression; with 0 it does not stop. It reads on as soon as the client takes bytes, never stalls while there is room, delivers every byte unchanged, and lets go of the backend when the client leaves. A request body waiting for a slow backend is held in temporary files, not memory.',
 ['inputs', 'schedules', 'histories'], 'every size, protocol, limit and pattern of reading, pausing and leaving',
 'the tests have small responses and clients that read at once',
 ['src/main/stream.c', 'src/main/chunk.c', 'src/main/stream_simple_socket.c', 'src/main/virtualrequest.c', 'src/main/plugin_core.c', 'src/modules/openssl_filter.c', 'src/modules/gnutls_filter.c', 'src/modules/mod_deflate.c', 'src/modules/fastcgi_stream.c'],
 [('limits along a chain', 'stream.c li_stream_set_cqlimit, li_stream_connect'), ('lock and unlock', 'chunk.c cqlimit_update; stream.c iostream callbacks'), ('TLS', 'openssl_filter.c do_ssl_write; gnutls_filter.c do_gnutls_write'), ('body buffering', 'filter_buffer_on_disk.c')],
 'TLA+ model of a chain of queues with one limit and event driven reads (TLC: bounded, conserving, working at every quiet state, everything delivered under fairness; lost wake-up and partial limit must fail) + stuck and resuming transfers on the real worker with every byte located (sender, kernel, server, client) at quiet points and the memory measured, judged by TLC',
 'Flow.tla; about 80 transfers of 24 MB per run in 5 limits x 7 backend kinds x 3 transports; unbuffered uploads are a known finding')
prop('C20', 'Compressed responses decode to exactly the response, and only for those who ask',
 'A response that passed mod_deflate is coded with a coding the client accepts (zero quality refuses, names match as a whole) and the configuration allows, or not at all; it is coded when that is possible and the response is eligible. Decoding what the client got gives exactly the body of the response, for every content, size, block size, buffer size and level. When the backend pauses, everything sent so far can be decoded (gzip, deflate); a response that breaks off never ends properly. Every coding of every version has an entity tag of its own, conditional requests answer 304 for exactly that tag, and such responses say Vary: Accept-Encoding.',
 ['inputs', 'configurations', 'schedules'], 'every body, segmentation, pause, break, Accept-Encoding header and compressor configuration',
 'the tests compress one small file with the default configuration',
 ['src/modules/mod_deflate.c', 'src/main/filter.c', 'src/main/virtualrequest.c', 'src/main/etag.c', 'src/main/response.c'],
 [('choice', 'mod_deflate.c deflate_handle, header_to_encoding_mask'), ('filters', 'mod_deflate.c deflate_filter_zlib, deflate_filter_bzip2; filter.c filter_handle_data'), ('connecting filters', 'virtualrequest.c li_vrequest_state_machine'), ('entity tags', 'mod_deflate.c cached_handle_etag; etag.c li_etag_mutate')],
 'TLA+ models of the compressor between two queues (TLC: honest end, prompt at every pause, ends under fairness; one-shot flush, closing on a break, no flush must fail) and of the choice of codings and tags (TLC: all offers over 3 names x configurations with a shared cache; three buggy variants must fail) + random responses, pauses and breaks through the real worker in 9 compressor configurations, decoded while they arrive and judged by TLC',
 'Deflate.tla, Coding.tla; about 960 histories per run; bzip2 is exempt from promptness (the code never flushes it)')
prop('C19', 'A response taken from the disk cache is exactly what the origin would have sent',
 'With cache.disk.etag a client whose response ends properly has exactly the body of the resource (host, path and query) and version the entity tag in its head stands for, whether it came from the origin or from a file, under concurrent requests, version changes, origins that break off, clients that leave, coded and plain copies and files replaced while they are read. A kept file is always one complete body, also after the server was killed at any point; nothing temporary stays behind otherwise. Only 200 answers to GET with one entity tag are kept; once kept, the body comes from the file although the origin sends nothing; a cache that cannot be written only costs the caching.',
 ['histories', 'schedules', 'crash points', 'inputs'], 'every history of requests, versions and failures',
 'no test uses the cache',
 ['src/modules/mod_cache_disk_etag.c', 'src/main/stat_cache.c', 'src/main/filter.c', 'src/modules/mod_deflate.c', 'src/main/etag.c'],
 [('naming', 'mod_cache_disk_etag.c createFileName'), ('writing', 'mod_cache_disk_etag.c cache_etag_filter_miss, cache_etag_file_finish, cache_etag_file_free'), ('serving', 'mod_cache_disk_etag.c cache_etag_handle, cache_etag_filter_hit'), ('stat cache', 'stat_cache.c li_stat_cache_get')],
 'TLA+ model of origin, versions, concurrent requests, temporary and final files, breaks and kills (TLC: exact and whole in all interleavings; tags without resource, shared temporary files, writing in place, keeping broken bodies must fail) + histories of sequential and simultaneous requests, breaks, held origins and kills on the real worker, every answer and every file judged by TLC',
 'DiskCache.tla; about 230 histories and 16 kills per run')
prop('C15', 'Rate limits hold in every interval, and a limited connection gets its share',
 'io.throttle, io.throttle_pool and io.throttle_ip never let more bytes leave, in any interval of time, than the burst (plus a fixed allowance per connection) and the rate times its length: for one connection, for all connections of a pool over all workers and for every pool when a connection is in several, whatever connections come, go, stop reading and go on. A connection that wants more is woken again and again and, together with the others, gets most of the rate; this does not depend on the absolute time (millisecond counters wrap around, the clock can be set back). A limited response still arrives complete.',
 ['schedules', 'histories', 'inputs'], 'all schedules of connections over workers and all times',
 'the tests contain nothing about limits; the failures need many refills, idle workers or a certain date',
 ['src/main/throttle.c', 'src/common/waitqueue.c', 'src/modules/mod_throttle.c', 'src/main/stream_simple_socket.c'],
 [('refill of a pool', 'throttle.c S_throttle_pool_rearm_workers, throttle_pool_rearm'), ('queries', 'throttle.c li_throttle_query'), ('waking', 'throttle.c li_throttle_waitqueue_cb, waitqueue.c'), ('use', 'stream_simple_socket.c stream_simple_socket_write'), ('configuration', 'mod_throttle.c')],
 'TLA+ model of magazines of pools, workers and connections under a clock that wraps around (TLC: interval bound, place bound, progress; ordered time stamps, piled up magazines, uncharged refills, a burst per worker must fail) + thousands of recorded queries of the real limiter under a virtual clock, and downloads through a server, judged by TLC',
 'Throttle.tla; about 300 scripts and 6 downloads per run')

prop('C24', 'Restarts, crashes and shutdown lose no request and always come to an end',
 'SIGHUP to the angel brings up a new worker with the current configuration before the old one stops, and the old one still answers what it had accepted: no request fails, also while a restart is under way. A configuration that cannot be used leaves the old worker serving, and a later SIGHUP with a good one takes effect (even when the very first start failed). A killed worker is started again and loses only its own connections. SIGTERM at any moment (also during a restart) ends all processes with exit code 0: requests under way are answered, idle connections closed, connections that stand still for some seconds are cut. The angel holds no more descriptors after any number of restarts.',
 ['histories', 'schedules', 'crashes'], 'all interleavings of SIGHUP, SIGTERM, crashes and configuration edits with requests',
 'the tests start and stop one worker without clients and never start the angel',
 ['src/angel/angel_server.c', 'src/angel/angel_plugin_core.c', 'src/main/server.c', 'src/main/worker.c', 'src/main/connection.c', 'src/main/angel.c'],
 [('instances and their replacement', 'angel_server.c li_instance_state_reached, instance_child_cb, li_instance_replace'), ('signals', 'angel_plugin_core.c core_handle_sig_hup, core_stop; server.c sigint_cb'), ('graceful stop', 'server.c li_server_start_transition, worker.c li_worker_suspend, li_worker_stopping'), ('cutting', 'connection.c li_connection_update_io_wait')],
 'TLA+ model of angel, instances and worker processes with fairness (TLC: no gap, nothing lost, SIGHUP takes effect, SIGTERM ends everything; five wrong designs must fail); histories of the real angel and workers under signals, kills, edits and clients are accepted by TLC only if the unseen steps of the same model explain them',
 'Lifecycle.tla; about 56 histories per run, 1-3 threads per worker')

prop('C30', 'TLS: only sound clients get in, and a response ends exactly when it is complete',
 'With openssl verify/verify-any/verify-require/verify-depth a client is served exactly when its certificate passes (chain to the client CA, dates, purpose, CA flags, depth) or none is needed, also when it resumes a session, and sessions issued by one listener never let somebody in at another; the subject the application sees is that of the verified certificate. gnutls shows the certificate stored for the name asked for, the fallback or the default. With both libraries the client gets exactly the bytes the application sent, in order, under slow, pausing and small-record clients, large uploads and pipelining; a complete response is followed by close_notify before the connection ends, a broken one never is.',
 ['inputs', 'schedules', 'histories'], 'every certificate and verification setting, every record and read schedule',
 'the tests make a few https requests without client certificates',
 ['src/modules/mod_openssl.c', 'src/modules/openssl_filter.c', 'src/modules/mod_gnutls.c', 'src/modules/gnutls_filter.c', 'src/modules/ssl_client_hello_parser.h', 'src/modules/ssl-session-db.h'],
 [('verification', 'mod_openssl.c openssl_setup, verify-any callback'), ('names', 'mod_gnutls.c sni_job_cb, fetch-cert'), ('streams', 'openssl_filter.c / gnutls_filter.c do_*_read, do_*_write, stream_plain_drain_cb'), ('shutdown', 'mod_openssl.c openssl_tcp_finished, mod_gnutls.c gnutls_tcp_finished')],
 'TLA+ model of verdict, certificate choice and the record stream with close_notify (TLC: no leak before the verdict, prefix, close_notify if and only if complete, all delivered under fairness; deciding late, notify on a cut, early, none, and foreign sessions must fail) + the whole table of certificates x settings, resumed and foreign sessions, names, and random exchanges on real listeners of both libraries, judged by TLC',
 'Tls.tla; 384 verdicts, 200 foreign sessions, 64 names, 240 exchanges per run')
