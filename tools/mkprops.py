import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Only authorized commands of the authenticated client reach the command file",
"Whatever byte sequence a client pushes, the server hands data to the monitoring command file only if that complete byte sequence (every byte that is handed over, including anything after a NUL byte) was authorized for the identity the client authenticated with in its TLS handshake. Data that is not authorized is answered with a FAIL line and nothing of it is ever queued; data that is authorized is handed over exactly once, complete and unmodified, and answered with OKAY.",
["inputs","histories"],"all pushed payloads (any bytes, any length), all identities, all authorization outcomes, all sequences of requests on a connection",
"The tests push about a dozen well-formed text commands with fixed identities; whether a payload can slip bytes past the check is a statement about all payloads.",
["src/server/server.c","src/server/auth.c","src/common/tls.c"],
[("handle_push(): is_authorized() gates fifo_write()","src/server/server.c"),("accept_ssl_cb(): identity taken from the PSK callback","src/common/tls.c"),("check_psk() stores the identity","src/server/auth.c")],
[("tls_state.id","identity that authenticated","src/common/tls.h"),("connection_state.input_length","number of announced bytes","src/server/server.c")],
["bytes arriving at fifo_write()/the named pipe","response lines"])

p("C02","The authorization decision is exactly what the configuration says",
"A command is authorized if and only if it consists of exactly one newline-terminated line that contains a ']' and, with the text up to and including the first ']' and the blanks following it removed, matches at least one of the hosts, services or commands patterns of the client's authorize section, or of the `*' section when there is no section for that identity. A matching error, a missing section, a missing newline or an embedded newline never authorizes.",
["inputs","configurations"],"all identities, all commands, all numbers of patterns of each kind, all regexec(3) results",
"Tests try a few patterns and commands; which pattern index, kind, or malformed command is consulted or skipped is a statement over every configuration and command.",
["src/server/auth.c","src/common/util.c","src/server/hash.c"],
[("is_authorized()","src/server/auth.c"),("match()","src/server/auth.c"),("skip_whitespace()","src/common/util.c"),("hash_lookup()","src/server/hash.c")],
(),["return value of is_authorized()"])

p("C03","Authorization patterns are anchored; host/service patterns stay in their fields",
"A configured commands pattern grants a command only if the pattern as a whole matches the whole command text; a hosts pattern P grants only PROCESS_HOST_CHECK_RESULT commands, and a services pattern S@H (or S, for any host) grants only PROCESS_SERVICE_CHECK_RESULT commands, with the pattern, as one unit, standing between the field delimiters of the host or service field. This holds for every pattern text that is a valid regular expression, including ones with alternatives.",
["inputs","configurations"],"all pattern strings (with or without '@', alternations, groups), all commands",
"Tests configure simple patterns without alternation; anchoring must hold for every pattern an administrator may write.",
["src/server/conf.c"],
[("host_to_command(), service_to_command()","src/server/conf.c"),("parse_command_pattern_cb(): anchoring","src/server/conf.c")],
(),["the regular expression handed to regcomp(3)"])

p("C04","Clients authenticate with the key of their own section (or the fallback section)",
"During the handshake the server answers with exactly the password of the authorize section named like the identity the client presented, or of the `*' section if there is none, truncated to at most the size OpenSSL allows and never written beyond it; an identity without section gets no key, so its handshake fails. The identity used for all later decisions and log messages is the one that was presented, and the client correspondingly presents its configured identity and password within the buffer sizes it is given.",
["inputs","configurations"],"all identities, all sets of sections, all password lengths and buffer sizes",
"Tests use short passwords and three or so identities; buffer limits and lookup fallbacks are for-all statements.",
["src/server/auth.c","src/client/auth.c","src/server/hash.c","src/common/tls.c"],
[("check_psk()","src/server/auth.c"),("set_psk()","src/client/auth.c"),("hash_lookup()/hash_insert()","src/server/hash.c"),("accept_ssl_cb()","src/common/tls.c")],
(),["PSK callback results"])

p("C05","The server's protocol conversation: one answer per request, never a stall",
"For every request line the server produces exactly one answer of the kind the protocol prescribes for it in the current phase (MOIN/PING before, PUSH/NOOP/QUIT after the handshake, FAIL for anything malformed or out of place; none for BAIL), and afterwards either waits for the next request or announced data of exactly the announced size, or closes the connection (after QUIT, PING, BAIL, a timeout or an overlong line, the last two announced with BAIL). It never executes PUSH before a successful MOIN, never leaves a live connection with neither a pending read nor a shutdown in progress, and never touches a connection's state after releasing it.",
["inputs","histories"],"all request lines (any bytes), all sequences of requests, timeouts and errors at any point",
"Tests run a few scripted conversations; unusual request lines and sequences are not covered (NOOP never is).",
["src/server/server.c","src/common/util.c"],
[("handle_handshake(), handle_connection(), handle_push(), bail(), client_exited()","src/server/server.c"),("parse_line()","src/common/util.c")],
[("connection_state","per-connection state, freed by connection_stop()","src/server/server.c")],
["response lines","tls_read_line()/tls_read()/tls_shutdown() requests"])

p("C06","Request and line size limits are enforced",
"With a configured max_command_size greater than zero, a PUSH request announcing more bytes than that is refused with FAIL and no payload is read, while an announcement between 1 and the limit is accepted; non-positive or non-numeric sizes are refused. A peer that sends no line terminator never makes the process buffer more than 2048 bytes of a line before the connection is refused as `line too long', and lines of up to 1920 bytes (terminator included) are never refused for their length.",
["inputs"],"all announced sizes, limits, lines and segmentations of the incoming stream",
"Tests have one oversized PUSH and no overlong-line test; the bounds are for-all statements.",
["src/server/server.c","src/common/tls.c"],
[("handle_connection()","src/server/server.c"),("read_line()","src/common/tls.c")],
[("server_state.max_command_size","limit","src/server/server.c"),("tls_state.input_buffer","bytes of the incomplete line","src/common/tls.h")],
["FAIL/BAIL lines","memory held per connection"])

p("C07","Queued commands reach the command file complete, in order, exactly once",
"Every byte sequence submitted for the command file, unless dropped by the documented queue limit or a failed dump, is passed on exactly once, unmodified and in submission order, over any sequence of submissions, full pipes, interrupted calls, reader restarts and reopen attempts; data written to a dump file counts as passed on at that moment (the command announcing the file is itself queued when the dump is complete). Each single write to the named pipe consists of whole submissions and is no larger than PIPE_BUF, so it cannot interleave with other writers, and nothing is ever written to something that is not a named pipe.",
["histories","fault_sequences","inputs"],"all submission sizes and contents, all results of open/fstat/write at every call, all schedules of watcher callbacks",
"Tests submit a handful of small commands to an always-ready pipe; partial readiness, EAGAIN, EINTR, EPIPE and reopen never occur there.",
["src/server/fifo.c","src/common/buffer.c"],
[("fifo_write(), write_cb(), open_cb(), dispatch_data(), join_buffers()","src/server/fifo.c")],
[("fifo_state.output/output_size","chunk currently owned for output","src/server/fifo.c"),("fifo_state.output_buffer","queued bytes","src/server/fifo.c"),("fifo_state.fd","named pipe or -1","src/server/fifo.c")],
["write(2) calls on the pipe"])

p("C08","Oversized queues are dumped completely before Nagios is told to process the file",
"When the pending data does not fit one atomic pipe write, it is written to a freshly created file in the temp directory, and a PROCESS_FILE command naming exactly that file, with the delete flag set, is queued if and only if every byte of the data was written there and the file was closed successfully. The data given to an asynchronous write stays valid and unmodified until the write has completed, at most one such write is outstanding, and it is released exactly once.",
["histories","fault_sequences","inputs"],"all data sizes above PIPE_BUF, all outcomes of mkstemp/aio_write/aio_error/aio_return/close/write, all schedules of completion and further submissions",
"Tests never inject I/O errors, short writes or submissions during an outstanding dump.",
["src/server/fifo.c"],
[("async_dump_data(), async_cb(), sync_dump_data(), make_process_file_command(), open_dump_file(), close_dump_file()","src/server/fifo.c")],
[("fifo_state.async_cb","the outstanding AIO request","src/server/fifo.c"),("fifo_state.dump_file/dump_fd","dump target","src/server/fifo.c")],
["aio_write(3)/write(2) on the dump file","PROCESS_FILE command in the pipe"])

p("C09","The command queue is bounded and data is dropped only beyond the limit",
"With max_queue_size set to N > 0 megabytes, queued data is thrown away only at a submission that would make the queue (the data waiting behind the chunk already set aside for output) exceed N*1048576 bytes, and then what remains queued is that submission only, so the queue never exceeds the larger of the limit and one submission. With max_queue_size 0 nothing is ever thrown away, and data not dropped stays queued while the command file cannot be opened or written.",
["histories","configurations"],"all limits, all submission sizes and histories",
"No test reaches the limit.",
["src/server/fifo.c"],
[("fifo_write()","src/server/fifo.c"),("fifo_start(): limit computation","src/server/fifo.c")],
[("fifo_state.max_queue_size","limit in bytes","src/server/fifo.c")],
["bytes retained across fifo_write()"])

p("C10","The byte queue behind all I/O is a lossless FIFO",
"For every sequence of operations, the bytes read from a byte queue (by size, by line, by terminator or all at once) are exactly the bytes appended to it, in order, none lost, duplicated or invented; the reported size is always appended minus read. No operation accesses memory outside its blocks, uses released memory, or leaks a block.",
["inputs","histories"],"all sequences of append/read/read_line/read_chunk/slurp/free with any sizes and contents",
"Tests only move small inputs through the queue; block boundaries (128 bytes) combined with offsets, detach and partial reads need every size.",
["src/common/buffer.c"],
[("buffer_append(), buffer_read(), buffer_read_alloc(), buffer_slurp(), buffer_find_char(), block_add(), block_remove(), block_detach()","src/common/buffer.c")],
[("buffer_s","block list with start/end offsets and size","src/common/buffer.c")],
["returned data and sizes"])

p("C11","Incoming data is framed by content, not by how the network segments it",
"The lines and data blocks delivered to the protocol layer are determined by the received byte stream alone: a line is everything up to the next LF, delivered without the LF or CRLF; a data block is exactly the requested number of bytes following the previously delivered unit. Each delivered unit is NUL-terminated, delivered exactly once and in stream order, with no byte lost or reused, however the stream is split over TLS records and reads.",
["inputs","schedules"],"all byte streams, all segmentations into SSL_read results, all alternations of line and block requests",
"Tests send each request in one record after waiting for the previous answer.",
["src/common/buffer.c","src/common/tls.c"],
[("buffer_read_line(), buffer_read_chunk()","src/common/buffer.c"),("read_line(), read_bytes(), tls_read()","src/common/tls.c")],
[("tls_state.input_buffer/input/input_offset/input_size","receive state","src/common/tls.h")],
["arguments of the read handlers"])

p("C12","Outgoing TLS data is transmitted exactly once, in order, before shutdown",
"The bytes handed to TLS for a connection are exactly the bytes the program submitted, in submission order, each accepted once, whatever partial writes and retries occur; a write that must be retried is repeated with the same buffer and length, as OpenSSL demands. A connection is shut down, or its drained-handler called, only after all submitted data has been accepted, and each submitted buffer is released exactly once, after its last use.",
["inputs","schedules","fault_sequences"],"all sequences of submissions, all SSL_write results (complete, partial, want-read, want-write, error)",
"Tests use messages which a single SSL_write accepts.",
["src/common/tls.c","src/common/buffer.c"],
[("tls_write(), tls_write_line(), write_buffered(), write_cb(), tls_on_drain(), tls_shutdown()","src/common/tls.c")],
[("tls_state.output/output_size/output_offset/output_buffer","send state","src/common/tls.h")],
["SSL_write calls","drain handler calls"])

p("C13","A check result becomes exactly one command with its own fields",
"For every input record with three (host) or four or more (service) delimiter-separated fields, the client builds exactly one PROCESS_HOST_CHECK_RESULT or PROCESS_SERVICE_CHECK_RESULT command whose first fields are the record's fields and whose last field is the whole rest, with each backslash and newline of the record escaped as two characters and no other byte changed, so the command never contains a raw newline. Records with fewer fields are rejected with a nonzero exit status, nothing being sent, for every permitted delimiter character.",
["inputs","configurations"],"all records, all delimiters accepted by -d",
"Tests use a few records and delimiters; escapes at field boundaries and delimiters which coincide with escape output are not tested.",
["src/client/parse.c"],
[("parse_check_result()","src/client/parse.c"),("escape()","src/client/parse.c")],
(),["PUSHed command text"])

p("C14","The client sends each command with a timestamp, one newline, and its true size",
"A raw command that starts (after leading blanks) with '[' is sent as is, any other raw command is prefixed with the current time as `[seconds] '; empty records are skipped. What is sent for each record is the command followed by exactly one added newline, and the size announced in the PUSH request is the number of bytes then transmitted, with no access outside the command's memory.",
["inputs"],"all records from standard input in both modes",
"Tests send a few commands.",
["src/client/parse.c","src/client/client.c","src/common/util.c"],
[("parse_command()","src/client/parse.c"),("handle_input_chunk(), handle_tls_push_response()","src/client/client.c"),("skip_newlines(), skip_whitespace(), chomp()","src/common/util.c")],
[("client_state.command/command_length","command in transit","src/client/client.c")],
["PUSH request line and data passed to tls_write()"])

p("C15","Every record on standard input is processed exactly once",
"The records delivered to the client are exactly the separator-terminated pieces of standard input, in order, plus a final unterminated piece if it is not empty, however the input is split over reads and whatever interruptions occur; then end-of-input is signalled exactly once and the input is released exactly once. Nothing is delivered twice, merged or dropped, and a read error ends the program with a nonzero exit status.",
["inputs","schedules","fault_sequences"],"all inputs, separators, and read(2) result sequences including short reads, EAGAIN, EINTR and errors",
"Tests read from small files in one go.",
["src/client/input.c","src/common/buffer.c"],
[("read_cb(), input_read_chunk(), input_stop()","src/client/input.c"),("buffer_read_chunk()","src/common/buffer.c")],
[("input_state","buffer, eof flag","src/client/input.h")],
["chunks passed to the read handler"])

p("C16","The client reports success only if the server accepted everything",
"The client sends a command only after the server accepted its announcement, starts the next record only after the server acknowledged the previous one, and says QUIT only after the input is exhausted and everything was acknowledged. Any FAIL or BAIL answer, unexpected answer, or connection failure makes it exit with a nonzero status, and it exits with status zero only after the server has acknowledged QUIT.",
["inputs","histories"],"all sequences of server response lines (any bytes) and connection events",
"Tests use a well-behaved server and few error answers.",
["src/client/client.c","src/common/tls.c","src/client/send_nsca.c"],
[("handle_tls_moin_response(), handle_tls_push_response(), handle_tls_command_response(), handle_tls_quit_response(), server_is_grumpy(), bail()","src/client/client.c")],
[("exit_code","process exit status","src/client/send_nsca.c")],
["requests sent, exit status"])

p("C17","Client configuration files are read as documented, whatever they contain",
"For every configuration file content (text without NUL characters), send_nsca either exits with an error or assigns to each named variable exactly the documented value: comments and blank lines are ignored, blanks around names and values skipped, quotes removed, backslash-escaped characters taken literally, and lines ending in a backslash joined with the next. No file content (long lines, missing final newline, CRLF, trailing backslashes) makes it access memory out of bounds or use uninitialised or released memory.",
["inputs"],"all configuration file contents",
"Tests use small well-formed files.",
["src/client/conf.c"],
[("parse_conf_file(), read_conf_line(), lookup_conf(), conf_setstr()","src/client/conf.c"),("xfgets()","lib/wrappers.c")],
(),["conf_getstr()/conf_getint() values, exit status"])

p("C18","Delimiter options denote exactly one character or are rejected",
"The argument of -d and -e is accepted if and only if it is a single character, a C backslash escape, or an octal or hexadecimal number of at most five characters introduced by a backslash or a zero (`\\012', `012', `\\x0a', `0x0a') with a value from 0 to 127, and then denotes exactly that character. Every other argument of any length is rejected, and no argument causes an out-of-bounds access.",
["inputs"],"all argument strings",
"Tests try few escape forms.",
["src/client/send_nsca.c"],
[("parse_backslash_escape()","src/client/send_nsca.c")],
(),["return value"])

p("C19","Logging is memory-safe and reproduces messages faithfully",
"For every message format and arguments (including peer-controlled text of any length and any errno text), a log message is formatted like printf(3) with %m replaced by the error description, and never reads or writes outside its buffers, never interprets text that came from an argument or from an error description as formatting directives, and treats %% as a literal percent sign. Messages that do not fit the buffer are cut and marked with ` [...]' (formats whose own text, after expanding %m, stays below 500 characters).",
["inputs"],"all formats used or usable, all arguments, all errno descriptions",
"Tests only look at a few short messages.",
["src/common/log.c"],
[("vlog()","src/common/log.c")],
(),["text written to stderr/syslog"])

p("C20","Privileges are dropped completely and in order, or the server does not start",
"If a user is configured, the server sets the supplementary groups, then the group, then the user ID of exactly that account, changing root (and into the new root) in between if configured, and all of it happens before it opens its listening socket, PID file and command file; any failing step terminates the server with a nonzero status before it accepts connections.",
["configurations","fault_sequences"],"all combinations of user/chroot settings, all failures of each step",
"Tests run unprivileged and configure neither.",
["src/server/nsca-ng.c"],
[("drop_privileges()","src/server/nsca-ng.c"),("main(): ordering","src/server/nsca-ng.c")],
(),["sequence of initgroups/chroot/chdir/setgid/setuid calls"])

p("C21","Inactive connections are timed out, active ones are not",
"With a timeout T > 0, a connection on which nothing happened for T seconds is terminated (on the server, an established one after a BAIL notice; on the client, with a nonzero exit status), and a connection with activity in the last T seconds is not; the check always remains scheduled for the exact remaining time, so a silent peer can never keep a connection open indefinitely, also not during the handshake or the final shutdown. With timeout 0 no connection is ever timed out. The callbacks of a connection never keep the event loop busy among themselves while OpenSSL makes no progress on it, so timeouts and other connections are always attended to.",
["schedules","configurations"],"all activity times and timer firings, all timeout values",
"Tests wait for no timeout.",
["src/common/tls.c","src/server/server.c"],
[("timeout_cb(), tls_on_timeout(), tls_shutdown()","src/common/tls.c"),("handle_timeout()","src/server/server.c")],
[("tls_state.timeout/last_activity/timeout_watcher","inactivity bookkeeping","src/common/tls.h")],
["timer arming, handler calls"])

p("C22","Server configuration is complete and consistent before the server runs",
"The server runs only with at least one authorize section, and every section ends up registered under exactly its own title with a password; each of hosts, services, commands and password that a section lacks is taken over from the global setting of the same name if there is one, and settings a section has are never changed. Negative numbers for settings that must be non-negative, a missing password, invalid patterns or unreadable files stop the start with an error. The server is started with exactly the configured addresses, files and limits, where options given on the command line take precedence over the configuration, and the default port is added to an address without one.",
["configurations","inputs"],"all configurations: any number of sections, any subset of settings present, all libconfuse results",
"Tests have a few configurations.",
["src/server/conf.c","src/server/hash.c","src/server/nsca-ng.c"],
[("process_auth_sections(), fallback_to_defaults(), validate_auth_section(), validate_unsigned_int_cb(), validate_unsigned_float_cb(), check_parse_success()","src/server/conf.c")],
(),["contents of the identity table"])

p("C23","The PID file marks at most one running server and is removed only by its owner",
"If a PID file is configured, the server holds an exclusive lock on the very file at that path before it opens its socket, and the file is created or truncated only under that lock, so a second server using the same path is refused (and told the process ID in the file, if there is one) without modifying the file; the server serves only after the file consists of exactly the decimal ID of the process that serves. The file is written, truncated or removed only through a descriptor that still is the file that was locked: a closed or reused descriptor is left alone, and the file is removed at most once.",
["fault_sequences","schedules"],"all results of open/flock/fstat/read/write/unlink and process identities",
"No test runs two servers or injects failures.",
["lib/pidfile/pidfile.c","lib/pidfile/flopen.c","src/server/nsca-ng.c"],
[("pidfile_open(), pidfile_write(), pidfile_remove(), pidfile_verify()","lib/pidfile/pidfile.c")],
(),["calls on the PID file"])

p("C24","The embedded Python and Perl clients send exactly the given result and report success only if it was accepted",
"For all host, service, message and command strings of any length, all timeouts and all server answers, the client code embedded in the Python and Perl modules never accesses memory outside its buffers; greets, announces in PUSH exactly the number of bytes it then sends, and sends the command made of the given values, with a time stamp, followed by one newline (a Perl command that already ends in a newline gets no second one). It reports success only if the server answered OKAY to both announcement and command, and reports an error otherwise (the Python methods: an exception). It waits only within the time limit. Connections are looked up, registered and released consistently, however their initialization ended.",
["inputs","fault_sequences"],"all argument strings, all server answers including empty and one-byte reads, all failures of TLS, memory and locking calls",
"The Python module has no tests and the Perl tests only load the module.",
["python/client.c","python/nscang.c","perl/client.c"],
[("nscang_client_send_push(), nscang_client_response(), nscang_client_init(), nscang_client_free(), set_psk()","python/client.c"),("nscang_host_result(), nscang_svc_result(), NSCAngNotifyer_init(), NSCAngNotifyer_dealloc()","python/nscang.c"),("nscang_client_send_command() and the functions above","perl/client.c")],
(),["SSL_write/SSL_read calls, return values"])

p("C25","Connection resources are released exactly once and never used afterwards",
"Whatever happens on a connection (failed address lookup, failed or aborted handshake, I/O error, peer close, timeout, overlong line, orderly shutdown), its socket, TLS object, buffers, strings and watchers are each released exactly once when it ends, no watcher stays registered for it, and no code touches it afterwards. A peer therefore cannot make the server leak descriptors or memory by connecting and failing in any particular way.",
["histories","fault_sequences","schedules"],"all results of OpenSSL and socket calls at every step, all callback orders",
"Tests do not fail handshakes or connections at chosen points, nor count resources.",
["src/common/tls.c","src/server/server.c"],
[("tls_free(), check_tls_error(), accept_tcp_cb(), accept_ssl_cb(), shutdown_cb(), timeout_cb()","src/common/tls.c"),("connection_stop()","src/server/server.c")],
[("tls_state","per-connection state","src/common/tls.h")],
["free/SSL_free/BIO_free calls"])

p("C26","Configured passwords are wiped from memory on exit and restart",
"Once the configuration has been loaded: before the process exits normally or by a fatal error, and before the server restarts itself, every password of the configuration is overwritten in full, and each configuration value is released exactly once; the client also wipes each configuration line and value it has parsed.",
["configurations","inputs"],"all numbers of sections, sections with and without password, all password lengths",
"Memory contents at exit are not observable in tests.",
["src/server/nsca-ng.c","src/client/send_nsca.c","src/client/conf.c"],
[("forget_config()","src/server/nsca-ng.c"),("forget_config()","src/client/send_nsca.c"),("conf_free(), parse_conf_file()","src/client/conf.c")],
(),["memset/cfg_free/free calls"])
p("C27","Command-line options do what the manuals say and override the configuration file",
"For every command line of the server and of send_nsca: each option has its documented effect, the last occurrence counts, and a value given with -b, -C, -P or -l (server) or with -H, -p, -D or -o (client) is used instead of the one in the configuration file, which is the file given with -c if any; messages up to the selected log level, and no others, go to exactly the selected log targets (client: warnings and worse, one level more for every -v; server, once started: standard error with -F, the system logger otherwise or with -s, both with -S, which is refused without -F); the server stays in the foreground if and only if -F is given or the init system passed it its socket; the client waits a random time between zero and the configured delay before it contacts the server. -h and -V (or --help, --version as the only argument) print to the standard output and end the program successfully without doing anything else; an unknown option, a missing or unusable argument and an argument that is no option end it with a nonzero status before the configuration is read, and nothing else is refused.",
["inputs","configurations"],"all argument vectors (any number and order of options, repeated options, any argument strings), all configuration values",
"Tests start the programs with a few fixed option lists; repetition, order, zero values and combinations with the configuration file are for-all statements.",
["src/server/nsca-ng.c","src/client/send_nsca.c","src/common/log.c","src/common/log.h"],
[("main(), get_options(), usage()","src/server/nsca-ng.c"),("main(), get_options(), delay_execution(), usage()","src/client/send_nsca.c"),("log_set()","src/common/log.c"),("debug() ... die()","src/common/log.h")],
[("options","values of the command line, -1 or NULL if not given","src/server/nsca-ng.c and src/client/send_nsca.c"),("log_level, log_target","what is logged, and where","src/common/log.c")],["arguments of server_start()/client_start()","exit status","log output"])

import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
