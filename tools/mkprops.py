import json
P=[]
def p(id,title,st,over,text,why,files,mech,hook=False):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p("S01","Only authorised commands reach the command queue",
"Submitted data is handed to the command queue only if it is one single line that starts (after optional blanks) with a bracketed timestamp, ends with its only newline and contains no NUL byte, and the text after the timestamp (and the whitespace following it) is accepted by a pattern of the authorize section belonging to the client's own identity, or of the \"*\" section when that identity has none. No other section's patterns ever count.",
["inputs","configurations"],"every data block of up to the bound, every identity, every outcome of every pattern match",
"Tests submit a handful of friendly commands; the guarantee is about every hostile byte string (embedded newlines and NULs, misplaced brackets) and every combination of sections and patterns.",
["src/server/auth.c","src/server/server.c","src/server/hash.c","src/common/util.c"],
[("push handling and the authorisation decision","src/server/server.c handle_push(), src/server/auth.c is_authorized()"),("section lookup","src/server/hash.c hash_lookup()")])
p("S02","Accepted submissions are queued once, unmodified, and answered truthfully",
"An authorised submission is handed to the command queue exactly once, with exactly the bytes and the length the client declared, and is answered OKAY; a refused one is answered FAIL and nothing of it is queued. Either way exactly one response is sent and the session goes on to the next request.",
["inputs","configurations"],"every data block and declared length up to the bound and every authorisation outcome",
"The client cannot observe a lost, duplicated, truncated or wrongly acknowledged command; tests compare a few files.",
["src/server/server.c","src/server/auth.c"],
[("push handling","src/server/server.c handle_push()"),("authorisation decision","src/server/auth.c is_authorized()")])
p("S03","Server session follows the protocol for every request sequence",
"Whatever lines a client sends, the server answers every request with exactly one response of the kind the protocol prescribes (MOIN, PONG, OKAY or FAIL; none after BAIL) and afterwards either waits for the next request or shuts the connection down cleanly, never neither and never both. Submissions are only accepted after a successful MOIN; QUIT, BAIL and PING end the session, and NOOP or a FAIL response leaves it usable.",
["inputs","histories"],"every sequence of up to three request lines of bounded length, in either phase of the session",
"A session that hangs, double-answers or skips the handshake needs a particular request order that example sessions do not contain.",
["src/server/server.c","src/common/util.c","PROTOCOL"],
[("handshake and request dispatch","src/server/server.c handle_handshake(), handle_connection(), client_exited()"),("argument splitting","src/common/util.c parse_line()")])
p("S04","max_command_size is enforced and exactly the announced bytes are read",
"A PUSH announcing a positive decimal size within the configured maximum (or any size up to 2147483647 when the maximum is 0) is answered OKAY and exactly that many bytes are then read as the submission. A PUSH announcing more than the maximum or than 2147483647, zero, a negative number or no number is answered FAIL, no data is read for it, and the next request is awaited.",
["inputs","configurations"],"every size argument up to the bound and every configured maximum",
"Boundary values (limit, limit+1, 0, sign, leading blanks, many digits) in combination with every limit are not enumerable by tests.",
["src/server/server.c"],[("PUSH request","src/server/server.c handle_connection()")])
p("S05","Pre-shared key and identity come from the right section, within bounds",
"For an identity with its own authorize section the server uses that section's password, otherwise that of the \"*\" section, and otherwise supplies no key at all so that the handshake fails. The key is copied unmodified up to the size of the buffer provided and never beyond it, and the identity later used for authorisation is the one that was presented for the key.",
["inputs","configurations"],"every identity, password content and length up to the bound, and every buffer size",
"Over-long keys, unknown identities and every mixture of sections are outside what the tests configure.",
["src/server/auth.c","src/server/hash.c"],[("key callback","src/server/auth.c check_psk()"),("lookup","src/server/hash.c")])
p("S06","Authorisation patterns are implicitly anchored as documented",
"Each configured commands, hosts or services pattern accepts a command only if the pattern, taken as a whole, matches the whole command text, or the whole host or service part at its documented position; alternation, anchors or bracket expressions inside a pattern never let it match only a part. A services pattern with an at sign is split at its last at sign into a service and a host pattern that must both match.",
["inputs","configurations"],"a corpus of pattern values with every metacharacter class, against every command of bounded length over an alphabet containing all characters the pattern distinguishes",
"A partial match only shows for particular pairs of pattern and command; tests use literal names.",
["src/server/conf.c"],[("pattern construction","src/server/conf.c parse_command_pattern_cb(), host_to_command(), service_to_command()")])
p("S07","Global authorisation settings are a fallback only, and a password is mandatory",
"A global hosts, services, commands or password setting (a list of patterns included) applies to exactly those authorize sections that do not define that setting themselves, with all its values, and never adds to or replaces a section's own values. A configuration without any authorize section, with a section left without a password, or with a pattern that is no valid regular expression, is refused at startup.",
["configurations"],"every combination of presence and number of values of every setting in up to two sections and globally",
"The combinations multiply; a wrong fallback silently widens or narrows what a client may do.",
["src/server/conf.c","src/server/hash.c"],[("fallback","src/server/conf.c fallback_to_defaults(), validate_auth_section(), process_auth_sections()")])
p("S08","Configuration includes pick exactly the .cfg and .conf files",
"Including a directory (or starting the server with a directory as its configuration) parses exactly the regular files in its tree whose names end in .cfg or .conf, whatever characters the names consist of, and skips everything else in it; including a file parses that file. Including what is missing or neither a file nor a directory, a directory that cannot be traversed, and a parse error in any of the files stop the server from starting.",
["inputs","configurations"],"every file name of bounded length, every file type and every parse result",
"Names that merely contain or resemble the extensions, and failures inside an included file, are corner cases tests skip.",
["src/server/conf.c"],[("include handling","src/server/conf.c include_cb(), include_file_cb(), check_parse_success()")])
p("S09","Commands reach the named pipe whole, once, in order and atomically",
"The bytes written to the command file are exactly the queued submissions, each complete, each once and in the order they were queued (data moved to a temporary file apart), across full pipes, interrupted calls, write errors, a reader that goes away and comes back, and re-opening. No single write to the pipe ever exceeds the size the system writes atomically.",
["schedules","fault_sequences","histories"],"every interleaving of bounded many submissions with write and open results",
"Loss or duplication needs an EAGAIN, EPIPE or reopen at one particular moment between submissions.",
["src/server/fifo.c","src/common/buffer.c"],[("pipe writer","src/server/fifo.c write_cb(), dispatch_data(), open_cb(), fifo_write()")])
p("S10","Oversized data goes through a completely written temporary file, or not at all",
"Data too large for one atomic pipe write is written in full and in order to a freshly created temporary file in the configured directory, and a PROCESS_FILE command naming exactly that file (with deletion requested) is queued once, only after the file was completely written and successfully closed. If creating, writing or closing fails no PROCESS_FILE command is queued, and in every case the descriptor is closed and no memory is lost.",
["fault_sequences","schedules"],"every combination of results of creating, asynchronously writing and closing the file, and of submissions arriving meanwhile",
"Disk-full, short writes and late submissions during an asynchronous write are not produced by the tests.",
["src/server/fifo.c"],[("dump path","src/server/fifo.c async_dump_data(), async_cb(), join_buffers(), close_dump_file()")])
p("S11","The backlog for an absent reader is bounded by max_queue_size",
"While the command file cannot be written, the queued backlog never grows beyond the configured maximum (plus the one submission already being written, or a single larger submission): when a submission would exceed it, the older backlog is dropped and the new submission is kept whole. With a maximum of 0 nothing is ever dropped, and nothing is dropped below the limit. Without a reader, nothing of it is moved to temporary files (where no limit would apply).",
["histories","configurations"],"every sequence of up to four submissions of arbitrary 64-bit-bounded sizes and every limit in megabytes",
"Gigabyte backlogs cannot be produced in a unit test, and the arithmetic matters at the boundary.",
["src/server/fifo.c"],[("bound","src/server/fifo.c fifo_write()")])
p("S12","The command file is only used if it is a named pipe, and never blocks the server",
"The server opens the command file write-only and non-blocking, never creates or truncates it, and writes only to a descriptor that was verified to be a named pipe; any other file is closed again untouched. Whenever no pipe is open a retry is scheduled 10 seconds later, and after every successful open the pending data is sent.",
["fault_sequences","histories"],"every result of opening and examining the file over bounded many attempts",
"A regular file at that path, a reader that is not there, and an fstat failure are environment states the tests do not create.",
["src/server/fifo.c"],[("open","src/server/fifo.c open_cb()")])
p("S13","Privileges are dropped completely, in order, before anything is served",
"With user and/or chroot configured, the server sets the supplementary groups, changes root and working directory, sets the group ID and then the user ID, in that order and with the values of the configured user, before it creates the PID file or the listening socket. If any of these steps fails (or the user is unknown) it exits with a failure status instead of continuing with more privileges.",
["fault_sequences","configurations"],"every combination of configured settings and every failing step",
"Tests do not run as root and cannot make each of these system calls fail.",
["src/server/nsca-ng.c"],[("privilege drop","src/server/nsca-ng.c drop_privileges(), main()")])
p("S14","Server options override the configuration; everything else is passed on",
"A command file, PID file, listen address or log level given on the command line (the last one, if repeated) takes the place of the configured one, which takes the place of the documented default; everything else reaches the server exactly as configured, and negative sizes, timeouts and log levels are refused. A listen address without a port gets the default port 5668, one with a port is used unchanged, and in the socket-activated case the inherited descriptor is used instead (more than one of them is refused). Messages go to syslog, or to standard error with -F, or to the init system if socket activated, unless -s or -S says otherwise (-S needs -F or socket activation); the server detaches exactly without -F and socket activation. Unknown options and stray arguments are refused; help and version requests exit successfully.",
["configurations","inputs"],"every subset of the options with symbolic values, and every configured value",
"The option matrix is large and each test run uses one fixed command line.",
["src/server/nsca-ng.c"],[("startup","src/server/nsca-ng.c main(), get_options()")])
p("S16","Signals end or restart the server cleanly",
"SIGINT and SIGTERM end the event loop, the server is stopped once and exits successfully; SIGHUP does the same and then executes the program again with the very arguments it was started with. On every way out (a failed start or restart included) the configuration is released at most once, a PID file that was opened is removed exactly once, before a restart, the log is closed once, and the exit status tells failure from success. The init system is told once that the server is ready, after it was started; if it asks for keep-alive messages, they are sent at least twice per requested interval, and not otherwise.",
["schedules","fault_sequences","configurations"],"each signal, every failing system call during start, restart and exit, and watchdog settings including malformed ones",
"A failing restart or PID file removal and a second release of the same memory are not produced by the tests.",
["src/server/nsca-ng.c"],[("life cycle","src/server/nsca-ng.c main(), signal_cb(), remove_pidfile(), forget_config(), notify_systemd(), stop_keep_alive()")])
p("S15","The PID file is exclusive and only ever touched under its lock",
"At most one server holds the PID file: opening it succeeds only if the lock was obtained on the very file the path names at that time, and otherwise fails, reporting the running server's PID when there is one, without modifying or removing the file. Writing replaces the whole content by this process's decimal PID, and writing or removing happens only while the descriptor still is that of the file that was locked.",
["fault_sequences","inputs"],"every result of every system call involved and every file content, within the stated number of retries",
"The races (file replaced or removed between open and lock) and failures are not reproducible in tests.",
["lib/pidfile/pidfile.c","lib/pidfile/flopen.c"],[("locking open","lib/pidfile/flopen.c flopen()"),("PID file handling","lib/pidfile/pidfile.c")])
p("T01","Buffers are exact byte queues",
"For every sequence of appends, reads, line and chunk extractions, bytes leave a buffer in exactly the order and number they entered it, the reported size is the number of bytes inside, and a line or chunk is returned exactly up to its first terminator (stripped, with a preceding CR for lines) or not at all. No memory outside the stored data is accessed and none is leaked.",
["histories","inputs"],"every sequence of bounded many operations with sizes around the internal block size and every content",
"Errors live at block boundaries and in particular operation orders.",
["src/common/buffer.c"],[("byte queue","src/common/buffer.c")])
p("T02","Inbound data is framed correctly however it arrives",
"Lines and announced data blocks are delivered to the session byte-exactly, once and in order, no matter how the TLS layer fragments or delays them; a line is delivered only when complete and without its terminator, a data block only with exactly the announced number of bytes. A line that does not fit the 2048-byte limit is never delivered and ends the connection. (As the protocol demands, a data block is sent only after it was asked for.)",
["schedules","inputs"],"every fragmentation of the incoming bytes and every retry pattern within the bound",
"Loopback tests nearly always deliver whole records at once.",
["src/common/tls.c","src/common/buffer.c"],[("input","src/common/tls.c read_cb(), read_line(), read_bytes()")])
p("T03","Outbound data is sent completely, in order and once, before shutdown",
"Everything handed to a connection for sending is transmitted completely, exactly once and in order, through any sequence of partial or deferred writes, and a requested shutdown starts only after all of it was sent.",
["schedules","fault_sequences"],"every sequence of partial writes and retry results within the bound",
"Partial writes and renegotiation-style retries do not occur in small loopback sessions.",
["src/common/tls.c","src/common/buffer.c"],[("output","src/common/tls.c write_cb(), tls_write(), write_buffered(), tls_on_drain()")])
p("T04","Inactive connections are timed out, active ones never are",
"A connection without any I/O activity for the configured timeout is ended once that time has passed, on the server and on the client, in every phase including handshake and shutdown, and is never ended by the timeout while its last activity is more recent than that. A timeout of 0 disables this.",
["schedules","histories"],"every non-decreasing sequence of clock values and activity within the bound",
"It depends on the relative order of clock readings and I/O events, which tests cannot steer.",
["src/common/tls.c"],[("timeout","src/common/tls.c timeout_cb(), tls_on_timeout()")])
p("T05","Connections are torn down exactly once and without memory errors",
"Whatever sequence of readiness events, TLS errors, peer closes, timeouts and shutdowns a connection goes through, its resources are released at most once, nothing of it is used afterwards, no event source of it stays registered, and once it has ended nothing is leaked.",
["schedules","fault_sequences","histories"],"every sequence of bounded many events with every TLS result, on a server connection running the real session code",
"Use-after-free and leaks need an error in one particular phase.",
["src/common/tls.c","src/server/server.c","src/server/auth.c"],[("teardown","src/common/tls.c tls_free(), check_tls_error(), shutdown_cb(), timeout_cb()"),("session teardown","src/server/server.c connection_stop(), bail()")])
p("T06","TLS is set up exactly as configured, or not at all",
"Whatever is configured, the TLS layer of server and client permits exactly the configured cipher list (TLS 1.3 has suites of its own), never SSLv2 or SSLv3, takes keys from the configured callback only, and is set up completely before the first connection: the server is bound to exactly the configured address (or uses the inherited descriptor and keeps it), the client connects to exactly the given server, neither blocks on its sockets, and a peer that vanishes does not kill the program. If any step fails, the program ends with an error instead of going on with something else.",
["inputs","configurations","fault_sequences"],"every short address, server name and cipher list, and a failure of any single step",
"Tests run with one cipher list and without failing steps, and do not look at what is permitted besides.",
["src/common/tls.c"],[("set-up","src/common/tls.c tls_server_start(), tls_client_start(), tls_connect(), initialize_openssl()")])
p("T07","Every connection is accepted and kept apart from the others",
"However connections arrive and fail (aborted ones, peers without a known address, a lack of memory or descriptors), the server takes every pending connection, goes on listening without spinning or blocking, gives every complete connection its own timeout, address and authenticated identity, and closes and forgets those that cannot be set up, without effect on the others.",
["schedules","fault_sequences","histories"],"every grouping and failure of bounded many connections",
"Tests open one connection at a time and none fails while it is accepted.",
["src/common/tls.c"],[("accepting","src/common/tls.c accept_tcp_cb(), accept_ssl_cb(), get_peer_address()")])
p("C01","Check results are converted to the right command for every input",
"A record with three or four delimiter-separated fields becomes one timestamped host or service check result command with exactly these fields (the last field may itself contain delimiters), and a record with fewer fields is rejected with an error. Newlines and backslashes of the record are escaped such that unescaping yields the original text, so the command is always one line, whatever delimiter is used.",
["inputs","configurations"],"every record up to the bound and every permitted delimiter",
"Interactions of delimiter, escapes and field boundaries only show on particular inputs.",
["src/client/parse.c"],[("conversion","src/client/parse.c parse_check_result(), escape()")])
p("C02","Raw commands are passed on verbatim, with a timestamp added only if missing",
"A raw monitoring command that starts with a bracket after optional leading blanks is submitted as it is from that bracket on, and any other one is submitted, without its leading blanks, after a current bracketed timestamp and a space; nothing else is changed.",
["inputs"],"every command up to the bound",
"The boundary between both cases depends on the leading bytes only; tests use two commands.",
["src/client/parse.c"],[("raw commands","src/client/parse.c parse_command()")])
p("C03","Standard input is split into exactly the records it contains",
"For every input and every way it arrives, each record up to a separator is delivered once, in order and unmodified, as soon as it is complete and asked for; a final record without separator is delivered at end of file, and end of file is reported exactly once, after the last record. An interrupted or temporarily unavailable read changes nothing.",
["inputs","schedules"],"every input up to the bound, every fragmentation into reads and every separator",
"Splits across reads and missing final separators depend on pipe timing.",
["src/client/input.c","src/common/buffer.c"],[("reader","src/client/input.c read_cb(), input_read_chunk()")])
p("C04","send_nsca reports success only if every command was acknowledged",
"The client transmits each command only after the server accepted a PUSH announcing exactly its length, and reads the next record only after the previous one was acknowledged with OKAY. It exits successfully only if the handshake, every command and QUIT were acknowledged; any FAIL, BAIL, unexpected or unparsable response makes it fail, and nothing further is submitted after that.",
["inputs","histories"],"every sequence of server responses of bounded length and every record up to the bound",
"A misbehaving or refusing server at each step of the dialogue is not part of the tests.",
["src/client/client.c"],[("dialogue","src/client/client.c handle_tls_*_response(), handle_input_chunk()")])
p("C05","The client configuration file is parsed as documented",
"For every file, each line assigns exactly the documented value to exactly the named setting (quotes, backslash escapes, comments, blanks and continuation lines included). A line without a known setting, without an equals sign, without a value or with text after the value, and a number that is not one, end the program with an error (unterminated quotes are tolerated). Settings the file doesn't mention have their documented defaults; the identity defaults to the whole host name. No input makes the parser access memory out of bounds.",
["inputs"],"every file of up to the bound number of bytes after a symbolic or fixed key",
"Quoting, escaping and continuation at end of line or file combine in ways examples do not cover.",
["src/client/conf.c"],[("parser","src/client/conf.c parse_conf_file(), read_conf_line()")])
p("C06","Delimiter and separator options denote the documented character",
"A -d or -e argument is accepted exactly if it is a single character, a C-style escape, or an octal or hexadecimal number of an ASCII character, and then denotes that character; anything else, a forbidden delimiter, or a delimiter equal to the separator ends the program with an error.",
["inputs"],"every argument of up to seven bytes for either option",
"There are many spellings per character and only few are tested.",
["src/client/send_nsca.c"],[("options","src/client/send_nsca.c parse_backslash_escape(), get_options()")])
p("C07","The startup delay stays within the configured maximum; options beat the file",
"With a configured delay the client sleeps for a time between 0 and that many seconds, never longer, whatever the random source returns; without a delay, or with one that is not positive, it does not sleep. Server, port, timeout and delay given on the command line take precedence over the configuration file.",
["inputs","configurations"],"every random value, every delay and every option subset",
"The outcome depends on random numbers and on the option matrix.",
["src/client/send_nsca.c"],[("startup","src/client/send_nsca.c main(), delay_execution(), random_number()")])
p("C08","The client offers its configured identity and key within the given buffers",
"The client passes its configured identity, terminated and truncated to the buffer at most, and its configured password, truncated to the buffer at most, to the TLS layer and reports the number of key bytes written. It never writes outside the two buffers.",
["inputs","configurations"],"every identity and password up to the bound and every buffer size",
"Over-long values and tiny buffers are not tested.",
["src/client/auth.c"],[("key callback","src/client/auth.c set_psk()")])
p("C09","Passwords are wiped from memory when the programs exit",
"When the client or the server exits (successfully or not) after it read its configuration, or the server restarts, the memory in which the configuration holds the passwords, the server's global one and those of all sections, is overwritten before it is released; so is the line of the client's configuration file they were read from.",
["inputs","configurations"],"every password up to the bound, and up to two authorize sections with or without password",
"Freed memory is not observable by the tests.",
["src/client/send_nsca.c","src/server/nsca-ng.c","src/client/conf.c"],[("wiping","forget_config() in src/client/send_nsca.c and src/server/nsca-ng.c")])
p("C10","The command line of send_nsca means what is documented",
"For every sequence of options, send_nsca passes on exactly what the last of each kind says, options over file over defaults: the configuration file read, server, port, timeout, mode, delimiter, separator, ciphers, verbosity and where messages go. -h, -V and their long forms print to the standard output and exit successfully without reading a configuration. Unknown options, missing or stray arguments, negative numbers and equal delimiter and separator end it with an error before it connects. Its exit status is that of the session.",
["inputs","configurations"],"every command line of bounded many arguments of all kinds",
"Tests use few of the options and few combinations.",
["src/client/send_nsca.c"],[("options","src/client/send_nsca.c main(), get_options()")])
p("M01","The Perl client library sends each command exactly and stays in bounds",
"For every command or check result, the library announces exactly the number of bytes it then transmits, and these are a timestamp and the given text, terminated by a newline (newlines within the text are not escaped); text that cannot be sent whole, or has a malformed timestamp, is reported as an error or cut to what fits, never sent beyond its buffers. Success is reported only if the server acknowledged the announcement and the command. Waiting is for the direction the TLS layer asked for and ends once the time is up, also if the server does not take anything any more; a session without incidents ends with QUIT, and a new attempt begins with a new TLS session.",
["inputs","fault_sequences"],"every argument string (lengths around the internal buffer size included) and every sequence of server responses",
"Long plugin output and stale error state need unusual inputs.",
["perl/client.c"],[("send","perl/client.c nscang_client_send_command(), nscang_client_send_push()")])
p("M02","The Python client library sends each check result exactly and stays in bounds",
"For every check result, the library announces exactly the number of bytes it then transmits, and these are a timestamp and the given values, terminated by a newline (newlines within the values are not escaped), cut to what fits its buffer at most; it never reads or writes outside that buffer. Success is reported only if the server acknowledged the announcement and the command. Waiting is for the direction the TLS layer asked for and ends once the time is up, also if the server does not take anything any more; a session without incidents ends with QUIT, and a new attempt begins with a new TLS session.",
["inputs","fault_sequences"],"every argument string (lengths around the internal buffer size included) and every sequence of server responses",
"Long plugin output needs unusual inputs.",
["python/client.c"],[("send","python/client.c nscang_client_send_push()")])
p("M03","The client libraries interpret every server response safely",
"Whatever bytes a server returns, in whatever pieces, the Perl and Python client libraries accept only a complete line that is exactly MOIN 1, or that starts with OKAY, as success, report FAIL, BAIL, unknown, over-long and malformed responses as errors with the server's text, and never read or write outside their buffers or use bytes the server did not send.",
["inputs","schedules"],"every response of bounded length and every fragmentation",
"A hostile or broken server is not part of the tests.",
["perl/client.c","python/client.c"],[("responses","nscang_client_response() in perl/client.c and python/client.c")])
p("M04","Each client library object authenticates with its own credentials",
"With several client objects alive, the key callback of a connection is given the identity and key of exactly the object it belongs to, truncated to the provided buffers at most, and an unknown or freed connection gets none.",
["histories","inputs"],"two objects in every order of creation and destruction, every identity and key up to the bound and every buffer size",
"Mixing up objects needs several live objects and particular destruction orders.",
["perl/client.c","python/client.c"],[("instances","set_psk(), nscang_client_init(), nscang_client_free()")])
p("M05","Python notifier objects stay memory-safe through their whole life",
"Whatever is done with a Python notifier object, in whatever order and with whatever failing on the way (initialising it, initialising it again, reading its attributes, submitting results, destroying it), no memory is accessed after its release, released twice or leaked, and every failure raises exactly one exception. The attributes are those the object was initialised with, and an object that could not be initialised submits nothing.",
["histories","fault_sequences"],"every sequence of up to the bound number of operations on an object, with every memory allocation and TLS set-up step failing",
"Use after free needs particular orders of operations and failures within constructors.",
["python/nscang.c","python/client.c"],[("object life","python/nscang.c NSCAngNotifyer_init(), NSCAngNotifyer_dealloc(), nscang_host_result(), nscang_svc_result()")])
p("L01","Log messages are complete, bounded and expand error codes safely",
"A log message is exactly its format with the arguments inserted and every %m replaced by the text of the current error; over-long messages are cut, marked and terminated inside the buffer. Neither the error text nor the arguments are ever interpreted as a format. A message is emitted, once to each configured target, exactly if its severity is within the configured level.",
["inputs"],"every format up to the bound (ordinary characters, %m, %%, %s, %d), every error text and argument up to the bound, with buffer sizes scaled down",
"Truncation happens only for long messages at particular lengths.",
["src/common/log.c"],[("formatting","src/common/log.c vlog()")])
p("L02","String helpers do exactly what their callers rely on",
"Concatenation, splitting into a fixed number of blank-separated arguments, skipping of blanks and newlines, and removal of one trailing newline give the exact result for every string, without accessing memory outside it.",
["inputs"],"every string up to the bound and every requested number of arguments",
"Edge cases (empty strings, only blanks, too many arguments) are spread over many callers.",
["src/common/util.c"],[("helpers","src/common/util.c concat(), parse_line(), skip_newlines(), skip_whitespace(), chomp()")])
p("L03","The bundled formatted-output replacement is standard-conforming and bounded",
"The bundled snprintf family writes at most the given number of bytes including the terminator, returns the length the full result has, and produces the standard result for the string, character and integer conversions with flags, width and precision.",
["inputs"],"every argument value (full integer width where stated) and flag combination, widths and precisions up to the bound and every buffer size",
"It is not compiled on this platform, so no test ever runs it; other platforms depend on it.",
["lib/xprintf.c"],[("replacement","lib/xprintf.c rpl_vsnprintf(), rpl_vasprintf()")])
p("L04","The bundled string replacements behave like the standard functions",
"The bundled strcasecmp, strncasecmp, strdup and program-name functions agree with the standard functions for all strings, including bytes above 127, embedded case differences and length limits; the bundled daemon() detaches the process completely or reports an error; the bundled flock() locks the whole file as requested.",
["inputs"],"every pair of strings up to the bound and every length",
"They are not compiled on this platform, so no test ever runs them.",
["lib/strcasecmp.c","lib/strncasecmp.c","lib/strdup.c","lib/progname.c","lib/daemon.c","lib/pidfile/flock.c"],[("replacements","lib/*.c")])
p("L05","Bundled event-loop timers fire when due, in order, and never after being stopped",
"For every sequence of starting and stopping timers, a timer of the bundled event library fires only when it is due and still active, due timers fire in order of their expiry, none due is forgotten, one-shot timers fire once, and the loop sleeps neither past the next expiry nor for no time before it.",
["histories"],"every sequence of bounded many starts, stops and clock advances on up to three timers, and removals and restarts in heaps of up to ten",
"Heap-order bugs need particular insertion and removal orders.",
["lib/ev/ev.c"],[("timer heap","lib/ev/ev.c upheap(), downheap(), ev_timer_start(), ev_timer_stop(), timers_reify()")])
p("L06","Bundled event-loop descriptor watchers report exactly what happens",
"For every sequence of starting, stopping and feeding descriptor watchers, also from within callbacks, and every readiness of the descriptors, each active watcher is called exactly once per turn with exactly the events it waits for that happened, never after it was stopped, higher priorities first; the kernel is asked about exactly what active watchers wait for, also for files epoll refuses and for descriptors that were closed and reopened, so that nothing is forgotten and nothing keeps the loop busy.",
["histories","schedules"],"every sequence of bounded many operations, every readiness and interrupted waits, with the epoll, the poll and the select backend",
"Lost or repeated events need particular orders of stopping, reopening and readiness.",
["lib/ev/ev.c","lib/ev/ev_epoll.c","lib/ev/ev_poll.c","lib/ev/ev_select.c"],[("descriptor watchers","lib/ev/ev.c ev_io_start(), ev_io_stop(), fd_reify(), fd_event(), ev_feed_event(), ev_invoke_pending(); ev_epoll.c; ev_poll.c; ev_select.c")])
p("L07","Signals and notifications are never lost by the bundled event loop",
"Whenever signals or asynchronous notifications (from signal handlers or other threads) arrive, also several at once, within the library's own code, in callbacks, or just before it sleeps, each is followed by a call of its callback, none is called without one or after its watcher was stopped, and the loop never sleeps while one waits. Interrupted code finds errno as it was. Idle callbacks run only when there is nothing else to do and keep the loop from sleeping. The loop ends when nothing is left to wait for.",
["schedules"],"every point of arrival of bounded many signals and notifications, and bounded interleavings with other threads",
"A lost wake-up needs a signal within a few instructions.",
["lib/ev/ev.c"],[("wake-ups","lib/ev/ev.c evpipe_write(), pipecb(), ev_signal_start(), ev_async_send(), idle_reify(), ev_run()")])
p("L08","The bundled event loop goes on after daemonizing",
"When the process has forked and the child calls ev_loop_fork(), as the server does when it becomes a daemon, the child's loop goes on where it was: whatever was watched before is still reported, with all guarantees of L06, and no signal or notification that arrived before, during or after the fork is lost or told without reason. Nothing the child does afterwards changes what the parent's loop is told, takes a wake-up from it, or wakes it, and no descriptor is left behind.",
["schedules","histories"],"forks at every point of bounded histories of watchers, signals and notifications",
"Only a daemon ever gets here, and it looks alive as long as no event is due that was registered before the fork.",
["lib/ev/ev.c","lib/ev/ev_epoll.c","lib/ev/ev_poll.c"],[("fork handling","lib/ev/ev.c ev_loop_fork(), loop_fork(), evpipe_init(), fd_rearm_all(); lib/ev/ev_epoll.c epoll_fork()")])
p("E01","The server delivers every acknowledged command whole and once, no refused one",
"With several clients connected at once, every submission that any client was told was accepted (OKAY after the data) reaches the command file completely, exactly once and unmodified, each client's in the order of their acknowledgement, never interleaved with another one's bytes, as soon as the command file has a reader again and whatever happened to connections or the command file meanwhile. No submission that was refused (FAIL), or was not completely received, reaches it at all. Afterwards nothing of a finished session is left over.",
["inputs","schedules","faults"],"two clients with up to two commands each, every order of what they send and of the command file's events, and failures at every point: connections lost, messages split, responses delayed or cut, no reader, a full or broken pipe",
"The pieces are tested one by one, at best; a command lost or mixed up between session and queue needs a failure at one point of one order of events.",
["src/server/server.c","src/server/auth.c","src/server/hash.c","src/server/fifo.c","src/common/tls.c","src/common/buffer.c","src/common/util.c"],
[("session","src/server/server.c handle_handshake(), handle_connection(), handle_push()"),("queue","src/server/fifo.c fifo_write(), open_cb(), write_cb()"),("transport","src/common/tls.c tls_read(), tls_write(), tls_shutdown()")])
p("E02","send_nsca's success means that the command file has received all its commands",
"When send_nsca, talking to this server, exits successfully, all check results of its input have been written to the server's command file as the documented commands, in order, each exactly once, or are queued until there is a reader. When it exits with an error, what was delivered is a beginning of what was submitted. It succeeds if nothing fails and every command is permitted; if a command is refused or the connection is lost, it does not report success for what was not accepted. Both ends finish in every case: neither waits for the other forever.",
["inputs","schedules","faults"],"two check results with arbitrary bytes, permitted or not, every order of events at both ends, and up to two failures (three in the thorough check) of the connection and the command file at every point",
"Client and server only ever meet over a healthy loopback connection in tests; a deadlock between both state machines or a wrong success needs a particular interleaving with a failure.",
["src/client/client.c","src/client/input.c","src/client/parse.c","src/server/server.c","src/server/auth.c","src/server/fifo.c","src/common/tls.c","src/common/buffer.c"],
[("client session","src/client/client.c client_start(), handle_tls_connect(), handle_input_chunk()"),("server session","src/server/server.c handle_connection(), handle_push()"),("transport","src/common/tls.c"),("queue","src/server/fifo.c")])
p("R01","Running out of memory ends the programs with an error, without other damage",
"When any single memory allocation of send_nsca or the server fails, at whatever point (reading options and configuration, starting, opening the PID file, during a session, spilling a backlog to a temporary file, or ending), the program stops there and exits with a failure status: it neither goes on without the memory nor accesses memory it must not access, nor releases anything twice on its way out, and a PID file it holds is removed. The other end of a session isn't misled: what the server has delivered by then is a beginning of what was submitted, made of whole commands, and send_nsca never reports success for commands that were not accepted.",
["inputs","faults","schedules"],"every allocation at either end of a session of two check results or commands with every order of events and one failure of the connection or the command file; every allocation of the programs' start and end with various configurations, of the include processing, of the backlog file and of the PID file",
"An allocation fails at one particular call out of dozens, in states tests cannot bring about.",
["lib/wrappers.c","src/client/conf.c","src/client/client.c","src/client/input.c","src/client/parse.c","src/client/send_nsca.c","src/server/server.c","src/server/fifo.c","src/server/conf.c","src/server/auth.c","src/server/nsca-ng.c","src/common/tls.c","src/common/buffer.c","src/common/util.c","lib/pidfile/pidfile.c"],
[("allocation","lib/wrappers.c xmalloc(), xrealloc(), xstrdup(), xvasprintf()"),("exit handlers","src/client/send_nsca.c forget_config(), src/server/nsca-ng.c"),("PID file","lib/pidfile/pidfile.c pidfile_open()")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
