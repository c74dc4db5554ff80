bug("S01a", "S01", [("src/server/auth.c", """		cfg_opt_t *opt = cfg_getopt(auth, settings[i]);
		unsigned int j;
""", """		cfg_opt_t *opt = cfg_getopt(auth, settings[i]);
		unsigned int j;

		if (cfg_opt_size(opt) == 0 && hash_lookup("*") != NULL)
			opt = cfg_getopt(hash_lookup("*"), settings[i]);
""")], r'''
s = Server('authorize "foo" { password = "pw" hosts = "h" }\nauthorize "*" { password = "pw" commands = "A.*" }\n')
c = Raw(s).moin()
r = c.push(b"[1] PROCESS_HOST_CHECK_RESULT;h;0;ok\n")
if r != "OKAY":
    fail("own pattern refused: %r" % r)
r = c.push(b"[1] ABC\n")
if not r.startswith("FAIL"):
    fail("foo was authorised by the section for everyone else: %r" % r)
''', "an identity with its own authorize section lacking a setting that the * section has", "patterns of the * section authorise clients that have a section of their own")

bug("S02a", "S02", [("src/server/server.c", """	server_state *ctx;
	size_t input_length;
} connection_state;
""", """	server_state *ctx;
} connection_state;

static size_t input_length; /* Size of the announced data. */
"""), ("src/server/server.c", """			connection->input_length = (size_t)data_size;
			tls_read(tls, handle_push, connection->input_length);
""", """			input_length = (size_t)data_size;
			tls_read(tls, handle_push, input_length);
"""), ("src/server/server.c", """	int width = connection->input_length > 0
	    && data[connection->input_length - 1] == '\\n'
	    ? (int)connection->input_length - 1 : (int)connection->input_length;
""", """	int width = input_length > 0
	    && data[input_length - 1] == '\\n'
	    ? (int)input_length - 1 : (int)input_length;
"""), ("src/server/server.c", """	if (strlen(data) == connection->input_length
""", """	if (strlen(data) == input_length
"""), ("src/server/server.c", """		    connection->input_length, free);
""", """		    input_length, free);
""")], r'''
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
a, b = Raw(s).moin(), Raw(s).moin()
one, two = b"[1] ABC\n", b"[1] ABCDEF\n"
if a.ask(b"PUSH %d\r\n" % len(one)) != "OKAY" or b.ask(b"PUSH %d\r\n" % len(two)) != "OKAY":
    fail("PUSH refused")
if a.ask(one) != "OKAY" or s.got(want=len(one)) != one:
    fail("first submission")
if b.ask(two) != "OKAY" or s.got(want=len(two)) != two:
    fail("second submission")
''', "two connections whose PUSH requests and data interleave", "a submission is taken to have the size another connection announced")

bug("S03a", "S03", [("src/server/server.c", '''			send_response(tls, "FAIL Expected protocol version");
			tls_read_line(tls, handle_handshake);
''', '''			send_response(tls, "FAIL Expected protocol version");
			tls_read_line(tls, handle_connection);
''')], r'''
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s)
if not c.ask(b"MOIN 0 abc\r\n").startswith("FAIL"):
    fail("MOIN 0 not refused")
r = c.ask(b"PUSH 8\r\n")
if not r.startswith("FAIL"):
    fail("PUSH without a successful MOIN: %r" % r)
''', "a client whose MOIN was refused because of the version and which goes on with PUSH", "submissions are accepted without a successful handshake")

bug("S03b", "S03", [("src/server/server.c", '''		error("%s said: %s", tls->peer, line);
		tls_shutdown(tls);
		connection_stop(tls);
		return true;
''', '''		error("%s said: %s", tls->peer, line);
		send_response(tls, "OKAY");
		tls_shutdown(tls);
		connection_stop(tls);
		return true;
''')], r'''
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s).moin()
r = c.ask(b"BAIL out\r\n")
if r:
    fail("BAIL was answered: %r" % r)
''', "a client that bails out and reads on", "BAIL is answered")

bug("S04a", "S04", [("src/server/server.c", '''	size_t input_length;
''', '''	unsigned short input_length;
''')], r'''
s = Server('max_command_size = 70000\nauthorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s).moin()
if c.ask(b"PUSH 65546\r\n") != "OKAY":
    fail("PUSH refused")
d = b"[1] " + b"A" * 65541 + b"\n"
r = c.ask(d)
if r != "OKAY":
    fail("the data was not read as announced: %r" % r)
''', "a submission of more than 65535 bytes", "fewer bytes than announced are read; the rest is taken for requests")

bug("S05a", "S05", [("src/server/auth.c", "MIN(strlen(configured_pw), max_password_len);", "MIN(strlen(configured_pw), max_password_len - 1);")], r'''
pw = "k" * 256
s = Server('authorize "*" { password = "%s" commands = ".*" }\n' % ("k" * 600))
r = send_nsca(s, b"[1] ABC\n", ["-C"], pw="k" * 600)
if r.returncode != 0:
    fail("the same over-long key on both sides was not accepted: %r" % r.stdout)
''', "a password that is longer than OpenSSL's key buffer", "one byte less than fits is used as the key, so that client and server disagree")

bug("S06a", "S06", [("src/server/conf.c", "if ((at = strrchr(pattern, '@')) == NULL)", "if ((at = strchr(pattern, '@')) == NULL)")], r'''
s = Server('authorize "*" { password = "pw" services = "a@b@h" }\n')
c = Raw(s).moin()
r = c.push(b"[1] PROCESS_SERVICE_CHECK_RESULT;h;a@b;0;ok\n")
if r != "OKAY":
    fail("service a@b on host h: %r" % r)
''', "a services pattern with two at signs", "the pattern is split at its first at sign instead of its last")

bug("S09a", "S09", [("src/server/fifo.c", """				(void)close(fifo->fd);
				fifo->fd = -1;
				ev_io_stop(EV_A_ w);
""", """				(void)close(fifo->fd);
				fifo->fd = -1;
				free_output(fifo);
				ev_io_stop(EV_A_ w);
""")], r'''
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s).moin()
if c.push(b"[1] ONE\n") != "OKAY" or s.got(want=8) != b"[1] ONE\n":
    fail("first command")
s.close_reader()
if c.push(b"[1] TWO\n") != "OKAY":
    fail("second command refused")
time.sleep(0.5)
s.open_reader()
got = s.got(15, want=8)
if got != b"[1] TWO\n":
    fail("after the reader came back: %r" % got)
''', "the reader of the named pipe goes away while it is open and comes back", "the command being written when the reader went away is lost")

bug("S11a", "S11", [("src/server/fifo.c", """		    && buffer_size(fifo->output_buffer) + size
		    > fifo->max_queue_size) {
""", """		    && buffer_size(fifo->output_buffer)
		    > fifo->max_queue_size) {
""")], r'''
import glob
s = Server('max_command_size = 0\nmax_queue_size = 1\nauthorize "*" { password = "pw" commands = ".*" }\n', reader=False)
c = Raw(s).moin()
def cmd(ch, n):
    return b"[1] " + ch * (n - 5) + b"\n"
for ch in (b"A", b"B", b"C"):
    if c.push(cmd(ch, 700000)) != "OKAY":
        fail("refused")
s.open_reader()
got = s.got(15, want=40)
name = got.split(b";")[1].decode()
if not name.startswith(DIR):
    fail("file %r" % name)
text = open(name, "rb").read()
if text != cmd(b"A", 700000) + cmd(b"C", 700000):
    fail("backlog of %d bytes kept with a maximum of 1 MB (and one submission)" % len(text))
''', "a submission that does not fit in what is left of max_queue_size while nobody reads", "the backlog exceeds max_queue_size")

bug("S12a", "S12", [("src/server/fifo.c", "|| !S_ISFIFO(sb.st_mode)) {", "|| S_ISREG(sb.st_mode)) {")], r'''
import tty
m, sl = os.openpty()
tty.setraw(sl)
s = Server('authorize "*" { password = "pw" commands = ".*" }\n', fifo=False, args=["-C", os.ttyname(sl)])
c = Raw(s).moin()
if c.push(b"[1] ABC\n") != "OKAY":
    fail("refused")
if select.select([m], [], [], 2)[0]:
    fail("data was written to a terminal: %r" % os.read(m, 100))
''', "a command file that is a device", "data is written to a file that is not a named pipe")

bug("S15a", "S15", [("lib/pidfile/flopen.c", """		if (sb.st_dev != fsb.st_dev ||
		    sb.st_ino != fsb.st_ino) {
""", """		if (sb.st_nlink == 0) {
""")], r'''
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
int flopen(const char *, int, ...);
static int calls;
/* While the file is being locked, another process removes it and creates its own. */
int flock(int fd, int op)
{
	if (calls++ == 0) {
		int other;
		unlink("pid");
		other = open("pid", O_WRONLY | O_CREAT, 0600);
		(void)other; /* Kept open and locked. */
		syscall(SYS_flock, other, op);
	}
	return (int)syscall(SYS_flock, fd, op);
}
int main(void)
{
	int fd;
	struct stat a, b;
	close(open("pid", O_WRONLY | O_CREAT, 0600));
	fd = flopen("pid", O_WRONLY | O_CREAT | O_NONBLOCK, 0600);
	if (fd == -1)
		return 0; /* As it should be: the other process holds the lock. */
	fstat(fd, &a);
	stat("pid", &b);
	if (a.st_ino != b.st_ino) {
		printf("FAIL: the lock is on a file that is not the PID file any more\n");
		return 1;
	}
	return 0;
}
''', "another process replacing the PID file between open and lock", "two servers hold the PID file at the same time", kind="-Isrc/common -Ilib -Ilib/pidfile lib/pidfile/flopen.c")

bug("T01a", "T01", [("src/common/buffer.c", """	if (buf->size == 0 && buf->first != NULL) {
		block_remove(buf);
		buf->start_offset = 0;
	}
""", """	if (buf->size == 0 && buf->first != NULL)
		block_remove(buf);
""")], r'''
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s).moin()
c.send(b"NOOP\r\nNOOP 1\r\n")
if c.line() != "OKAY" or c.line() != "OKAY":
    fail("two requests in one piece")
if c.ask(b"NOOP 22222222222\r\n") != "OKAY":
    fail("the request after two requests that came in one piece")
''', "several lines arriving in one piece, and another one later", "lines are read from the wrong position of a reused buffer")

bug("T02a", "T02", [("src/common/tls.c", "			tls->input_offset += (size_t)n;\n", "			tls->input_offset = (size_t)n;\n")], r'''
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s).moin()
if c.ask(b"PUSH 12\r\n") != "OKAY":
    fail("PUSH")
for part in (b"[1] A", b"BCDEF", b"G\n"):
    c.send(part)
    time.sleep(0.4)
r = c.line(2)
if r != "OKAY" or s.got(want=12) != b"[1] ABCDEFG\n":
    fail("data in three pieces: %r" % r)
''', "a data block that arrives in three or more pieces", "pieces of a data block overwrite each other")

bug("T03a", "T03", [("src/common/tls.c", "				tls->output_offset += (size_t)n;\n", "				tls->output_offset = (size_t)n;\n")], r'''
s = Server('max_command_size = 0\nauthorize "*" { password = "pw" commands = ".*" }\n')
text = "".join("%06d " % i for i in range(9000)).encode()
try:
    r = send_nsca(s, b"h\ts\t0\t" + text + b"\n", ["-o", "5"])
except subprocess.TimeoutExpired:
    fail("the client never finishes")
if r.returncode != 0:
    fail("client: %r" % r.stdout)
got = s.got(5, want=30)
name = got.split(b";")[1].decode()
if not name.startswith(DIR) or not open(name, "rb").read().endswith(b";0;" + text + b"\n"):
    fail("other data arrived")
''', "data that takes three or more writes", "parts of the data are sent repeatedly and the end is not sent")

bug("T04a", "T04", [("src/common/tls.c", "		ev_timer_set(w, diff, 0.0);\n", "		ev_timer_set(w, tls->timeout, 0.0);\n")], r'''
s = Server('timeout = 4\nauthorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s).moin()
time.sleep(0.5)
c.ask(b"NOOP\r\n")
t = time.time()
r = c.line(6.5)
if r != "BAIL Connection timed out":
    fail("idle for %.1f s with a timeout of 4 s: %r" % (time.time() - t, r))
''', "activity shortly after the timer was started, then none", "an inactive connection is kept up to twice as long as the timeout")

bug("T05a", "T05", [("src/common/tls.c", """	xasprintf(&peer, "%s (ID: %s)", tls->peer, id);
	free(tls->peer);
	tls->peer = peer;
""", """	xasprintf(&peer, "%s (ID: %s)", tls->peer, id);
	if (tls->id == NULL)
		free(tls->peer);
	tls->peer = peer;
""")], r'''
def rss(pid):
    for l in open("/proc/%d/smaps" % pid):
        pass
    return 0
log = os.path.join(DIR, "vg")
SERVER_REAL = SERVER
wrap = os.path.join(DIR, "wrap")
with open(wrap, "w") as f:
    f.write("#!/bin/sh\nexec valgrind --leak-check=full --show-leak-kinds=definite --error-exitcode=0 --log-file=%s %s \"$@\"\n" % (log, SERVER_REAL))
os.chmod(wrap, 0o755)
import drive
drive.SERVER = wrap
s = drive.Server('authorize "*" { password = "pw" commands = ".*" }\n')
for i in range(100):
    try:
        socket.create_connection(("127.0.0.1", s.port), 1).close()
        break
    except OSError:
        time.sleep(0.1)
for i in range(3):
    c = Raw(s)
    if c.ask(b"MOIN 1 demo\r\n", 20) != "MOIN 1":
        fail("handshake")
    c.ask(b"QUIT\r\n", 20)
    c.line(20)
s.p.terminate()
s.p.wait()
t = open(log).read()
if "tls_set_connection_id" in t or "definitely lost: 0 bytes" not in t and "no leaks are possible" not in t:
    fail("leak:\n" + t)
''', "any ended connection whose handshake gave it a name (only visible as memory use)", "the peer name of every connection is leaked")

bug("C01a", "C01", [("src/client/parse.c", 'if (strpbrk(input, "\\\\\\n") != NULL)', "if (strchr(input, '\\n') != NULL)")], r'''
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
r = send_nsca(s, b"h\ts\t0\tC:\\new\n")
got = s.got(3, want=45)
if r.returncode != 0 or not got.endswith(b"PROCESS_SERVICE_CHECK_RESULT;h;s;0;C:\\\\new\n"):
    fail("%r" % got)
''', "a check result with a backslash but without a newline", "backslashes are not escaped, so that unescaping gives another text")

bug("C02a", "C02", [("src/client/parse.c", "	if (line[0] == '[')\n", "	if (line[0] == '[' && line[1] >= '0' && line[1] <= '9')\n")], r'''
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
r = send_nsca(s, b"[ 12] ABC\n", ["-C"])
got = s.got(3, want=10)
if r.returncode != 0 or got != b"[ 12] ABC\n":
    fail("%r %r" % (r.stdout, got))
''', "a raw command whose timestamp does not start right after the bracket", "a second timestamp is put in front of the command")

bug("C03a", "C03", [("src/client/input.c", "			if (len > 0) {\n", "			if (len > 1) {\n")], r'''
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
r = send_nsca(s, b"ABC\nX", ["-C"])
got = s.got(2)
if r.returncode != 0 or not got.endswith(b"ABC\n" + got[:got.index(b"]") + 1] + b" X\n"):
    fail("%r %r" % (r.stdout, got))
''', "a last record of one byte that no separator follows", "the record is dropped silently")

bug("C04a", "C04", [("src/client/client.c", """	critical("%s", message);
	free(message);
	exit_code = EXIT_FAILURE;
""", """	critical("%s", message);
	free(message);
""")], r'''
import threading
port_ = port()
sv = subprocess.Popen(["openssl", "s_server", "-quiet", "-accept", "127.0.0.1:%d" % port_, "-tls1_2", "-nocert", "-psk", b"pw".hex(),
                       "-psk_identity", "foo", "-cipher", CIPHER + ":@SECLEVEL=0"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
import drive
drive._procs.append(sv)
for _ in range(100):
    if ":%04X" % port_ in open("/proc/net/tcp").read():
        break
    time.sleep(0.05)
class S: port = port_
answers = {b"MOIN": b"MOIN 1\r\n", b"PUSH": b"HMMM\r\n"}
def serve():
    for l in sv.stdout:
        a = answers.get(l[:4])
        if a:
            sv.stdin.write(a)
threading.Thread(target=serve, daemon=True).start()
r = send_nsca(S, b"[1] ABC\n", ["-C", "-o", "5"])
if r.returncode == 0:
    fail("success reported after an unknown response: %r" % r.stdout)
''', "a server that sends an unexpected response", "send_nsca exits successfully although the command was not accepted")

bug("C05a", "C05", [("src/client/conf.c", "			if (len >= sizeof(value) - 1)\n", "			if (len > sizeof(value) - 1)\n")], r'''
def run(n):
    conf = os.path.join(DIR, "c.cfg")
    with open(conf, "w") as f:
        f.write("server = 127.0.0.1\nport = 1\nidentity = %s\n" % ("i" * n))
    return subprocess.run([CLIENT, "-c", conf], input=b"", stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout
if b"too long" in run(2047):
    fail("2047 characters refused")
if b"too long" not in run(2048):
    fail("2048 characters written to a buffer of 2048 bytes")
''', "a value of exactly 2048 characters", "one byte is written beyond the value buffer")

bug("C06a", "C06", [("src/client/send_nsca.c", "value >= 0 && value <= CHAR_MAX)", "value >= 0 && value <= UCHAR_MAX)")], r'''
r = subprocess.run([CLIENT, "-d", "0x80"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
if b"-d argument must be a single character" not in r.stdout:
    fail("-d 0x80: %r" % r.stdout)
''', "a numeric escape between 128 and 255", "a number that is not an ASCII character is accepted")

bug("C07a", "C07", [("src/client/send_nsca.c", "	if (opt->delay != -1)\n", "	if (opt->delay > 0)\n")], r'''
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
conf = os.path.join(DIR, "c.cfg")
with open(conf, "w") as f:
    f.write("identity=foo\npassword=pw\nserver=127.0.0.1\nport=%d\ntls_ciphers=%s\ndelay=1000000\n" % (s.port, CIPHER))
try:
    r = subprocess.run([CLIENT, "-c", conf, "-D", "0", "-C"], input=b"[1] ABC\n", timeout=8)
except subprocess.TimeoutExpired:
    fail("-D 0 did not take precedence over the configured delay")
if r.returncode != 0:
    fail("client")
''', "-D 0 with a delay in the configuration file", "the configured delay is used although the command line says otherwise")

bug("C08a", "C08", [("src/client/auth.c", "MIN(strlen(configured_id), max_identity_len - 1);", "MIN(strlen(configured_id), max_identity_len);")], r'''
#include <stdio.h>
#include <string.h>
#include <openssl/ssl.h>
#include "conf.h"
#include "auth.h"
conf *cfg;
char *conf_getstr(conf * restrict c, const char * restrict key) { return strcmp(key, "identity") == 0 ? "abcdefgh" : "pw"; }
int main(void)
{
	char id[10];
	unsigned char pw[4];
	memset(id, 'x', sizeof(id));
	if (set_psk(NULL, NULL, id, 8, pw, 4) != 2 || id[8] != 'x' || memchr(id, 0, 8) == NULL) {
		printf("FAIL: written beyond the identity buffer\n");
		return 1;
	}
	return 0;
}
''', "an identity that is as long as the buffer or longer", "one byte is written beyond the identity buffer", kind="-Isrc/common -Isrc/client -Ilib -Ilib/ev src/client/auth.c")

bug("L01a", "L01", [("src/common/log.c", "	    > (int)sizeof(message) - 1)\n", "	    > (int)sizeof(message))\n")], r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include "log.h"
const char *getprogname(void) { return "p"; }
int main(void)
{
	static char s[769], out[4096];
	int fd, n;
	char *e;
	memset(s, 'a', 768);
	fd = open("err", O_RDWR | O_CREAT | O_TRUNC, 0600);
	dup2(fd, 2);
	warning("%s", s);
	n = pread(fd, out, sizeof(out) - 1, 0);
	if (n < 7 || strcmp(out + n - 7, " [...]\n") != 0) {
		printf("FAIL: a message was cut without a mark\n");
		return 1;
	}
	return 0;
}
''', "a message whose length is exactly the size of the message buffer", "the message is cut without being marked", kind="-Isrc/common -Ilib -Ilib/ev src/common/log.c")

bug("L02a", "L02", [("src/common/util.c", "if ((len = strlen(string)) > 0 && string", "if ((len = strlen(string)) > 1 && string")], r'''
#include <stdio.h>
#include <string.h>
#include <ev.h>
#include "util.h"
int main(void)
{
	char s[] = "\n", t[] = "a\n";
	chomp(s);
	chomp(t);
	if (*s != '\0' || strcmp(t, "a") != 0) {
		printf("FAIL: the newline was not removed\n");
		return 1;
	}
	return 0;
}
''', "a string that consists of a newline only", "the newline is kept", kind="-Isrc/common -Ilib -Ilib/ev LIBS")

bug("L04a", "L04", [("lib/strncasecmp.c", """		if (s1[i] == '\\0')
			break;
""", "")], r"""
#include <stdio.h>
int rpl_strncasecmp(const char *, const char *, size_t);
int main(void)
{
	if (rpl_strncasecmp("ab\0x", "AB\0y", 4) != 0) {
		printf("FAIL: bytes after the end of the strings are compared\n");
		return 1;
	}
	return 0;
}
""", "equal strings that are shorter than the limit", "the comparison goes on beyond the end of the strings", kind="-Dstrncasecmp=rpl_strncasecmp -Isrc/common -Ilib lib/strncasecmp.c")

bug("M01a", "M01", [("perl/client.c", """   if(*end == ']') return 1;
   return -1;
""", """   return end != s && *end != ' ' ? 1 : -1;
""")], r'''
f = Fake([b"MOIN 1\r\n", b"OKAY\r\n", b"OKAY\r\n"])
c = Client(lib("perl"), f.port)
if c.command(b"[12;FOO") != 0:
    fail("a malformed timestamp was sent: %r" % f.got)
if f.got:
    fail("something was sent")
''', "a command whose timestamp isn't closed by a bracket", "a malformed timestamp is sent instead of being refused", kind="lib")

bug("M01b", "M01", [("perl/client.c", """	if (!nscang_client_write(c, command_buf, len, timeout))
      return 0;

	rc = nscang_client_response(c, timeout);

	if (!rc)
      return 0;
""", """	if (!nscang_client_write(c, command_buf, len, timeout))
      return 0;

	rc = nscang_client_response(c, timeout);

	if (!rc)
      return c->_errno == NSCANG_ERROR_FAIL && strlen(c->errstr) == 0;
""")], r'''
f = Fake([b"MOIN 1\r\n", b"OKAY\r\n", b"FAIL\r\n"])
c = Client(lib("perl"), f.port)
if c.push(b"h", b"s", 0, b"text") != 0:
    fail("a refused command was reported as submitted")
''', "a server that refuses the command without giving a reason", "a refused command is reported as submitted", kind="lib")

bug("M02a", "M02", [("python/client.c", """	if (!nscang_client_write(c, command, len, timeout))
		return 0;

	rc = nscang_client_response(c, timeout);

	if (!rc)
		return 0;
""", """	if (!nscang_client_write(c, command, len, timeout))
		return 0;

	rc = nscang_client_response(c, timeout);

	if (!rc)
		return c->_errno == NSCANG_ERROR_TIMEOUT; /* It was sent. */
""")], r'''
f = Fake([b"MOIN 1\r\n", b"OKAY\r\n", None], fork=True)
m = module()
n = m.NSCAngNotifyer("127.0.0.1", f.port, "id", "pw", CIPHER)
try:
    n.host_result("h", 0, "text", 3)
except RuntimeError:
    sys.exit(0)
fail("success was reported without an acknowledgement")
''', "a server that is slow to acknowledge the data", "success is reported without the server's acknowledgement", kind="lib")

bug("M03a", "M03", [("python/client.c", """		if (strcmp(buf, "MOIN 1") == 0) {""", """		if (strncmp(buf, "MOIN 1", 6) == 0) {""")], r'''
f = Fake([b"MOIN 10\r\n", b"OKAY\r\n", b"OKAY\r\n"])
c = Client(lib("python"), f.port)
if c.push(b"h", b"s", 0, b"text") != 0:
    fail("another protocol version was accepted")
''', "a server speaking a protocol version that begins with 1", "another protocol version is accepted", kind="lib")

bug("M03b", "M03", [("perl/client.c", """			if (was_read == 1024) {
				c->_errno""", """			if (was_read > 1024) {
				c->_errno""")], r'''
f = Fake([b"x" * 1024])
c = Client(lib("perl"), f.port)
r = c.push(b"h", b"s", 0, b"text", 1)
if r != 0 or "too long" not in c.err():
    fail("a response that is too long: %r %r" % (r, c.err()))
''', "a response of exactly 1024 bytes without a newline", "a response that is too long is not told apart (the buffer's full, so that nothing is read any more)", kind="lib")

bug("M04a", "M04", [("perl/client.c", """		return strlen((char *)psk);
	}
	identity[0]""", """		return strlen(c->psk);
	}
	identity[0]""")], r'''
#include "client.h"
#include <stdio.h>
#include <string.h>
unsigned int set_psk(SSL *, const char *, char *, unsigned int, unsigned char *, unsigned int);
int main(void)
{
	nscang_client_t c;
	char id[16];
	unsigned char key[8];
	unsigned n;

	if (!nscang_client_init(&c, "127.0.0.1", 1, NULL, "identity", "a long password"))
		return 2;
	n = set_psk(c.ssl, NULL, id, sizeof(id), key, sizeof(key));
	if (n > sizeof(key)) {
		printf("FAIL: %u key bytes in a buffer of %zu\n", n, sizeof(key));
		return 1;
	}
	nscang_client_free(&c);
	return 0;
}
''', "a password longer than the buffer for the key", "more key bytes are reported than were written", kind="-Iperl perl/client.c LIBS")

bug("M04b", "M04", [("python/client.c", """	if (c != NULL) {
		strncpy(identity""", """	if (c == NULL && HASH_COUNT(nscang_client_instances) == 1)
		c = nscang_client_instances;
	if (c != NULL) {
		strncpy(identity""")], r'''
#include "client.h"
#include <stdio.h>
#include <string.h>
unsigned int set_psk(SSL *, const char *, char *, unsigned int, unsigned char *, unsigned int);
int main(void)
{
	nscang_client_t a, b;
	char id[16];
	unsigned char key[16];
	SSL *old;

	if (!nscang_client_init(&a, "127.0.0.1", 1, NULL, "a", "secret") || !nscang_client_init(&b, "127.0.0.1", 1, NULL, "b", "other"))
		return 2;
	old = b.ssl;
	SSL_up_ref(old);
	nscang_client_free(&b);
	if (set_psk(old, NULL, id, sizeof(id), key, sizeof(key)) != 0) {
		printf("FAIL: a connection was given somebody else's key\n");
		return 1;
	}
	nscang_client_free(&a);
	return 0;
}
''', "a connection the object of which is gone, while one other object is alive", "it is given the other object's identity and key", kind="-Ipython python/client.c LIBS")

bug("M05a", "M05", [("python/nscang.c", """	if (!PyArg_ParseTupleAndKeywords(args, kwds, "ssI|sI:svc_result",
	    kwlist, &host, &service, &rc, &output, &timeout))
		return NULL;
""", """	if (!PyArg_ParseTupleAndKeywords(args, kwds, "ssI|sI:svc_result",
	    kwlist, &host, &service, &rc, &output, &timeout)) {
		nscang_client_disconnect(client);
		return NULL;
	}
""")], r'''
import subprocess
m = module()
if len(sys.argv) < 2:
    p = subprocess.run([sys.executable, "-B", __file__, "child"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        fail("the interpreter crashed: %d %r" % (p.returncode, p.stdout))
else:
    n = m.NSCAngNotifyer.__new__(m.NSCAngNotifyer)
    try:
        n.svc_result("h")
    except (TypeError, RuntimeError):
        pass
''', "a method called with missing arguments on an object that was never initialised", "the interpreter crashes", kind="lib")

bug("S07a", "S07", [("src/server/conf.c", """	if (cfg_size(auth, "password") == 0)
		die(""", """	if (cfg_size(auth, "password") == 0 && strcmp(identity, "*") != 0)
		die(""")], r'''
s = Server('authorize "foo" { password = "pw" commands = ".*" }\nauthorize "*" { commands = "A" }\n')
time.sleep(0.5)
if s.p.poll() is None:
    fail("the server runs with a section that has no password")
''', "a section for everyone else without a password", "the server starts although a section has no password")

bug("S07b", "S07", [("src/server/conf.c", """	hash_new((size_t)(n_auth_blocks""", """	if (cfg_size(cfg, "password") > 0)
		n_auth_blocks = cfg_size(cfg, "authorize");
	hash_new((size_t)(n_auth_blocks"""), ("src/server/conf.c", """		fallback_to_defaults(cfg, auth);
		validate_auth_section(auth);
""", """		if (cfg_size(auth, "hosts") == 0 || cfg_size(auth, "services") == 0
		    || cfg_size(auth, "commands") == 0)
			fallback_to_defaults(cfg, auth);
		validate_auth_section(auth);
""")], r'''
s = Server('password = "pw"\nauthorize "foo" { commands = "A" hosts = "h" services = "x" }\n')
time.sleep(0.5)
if s.p.poll() is not None:
    fail("the global password was not used: " + s.logged())
''', "a section with patterns of all three kinds that relies on the global password", "the global password is not used for such sections")

bug("S08a", "S08", [("src/server/conf.c", """	    || (strcmp(dot, ".cfg") != 0 && strcmp(dot, ".conf") != 0)) {
""", """	    || (strncmp(dot, ".cfg", 4) != 0 && strncmp(dot, ".conf", 5) != 0)) {
""")], r'''
d = os.path.join(DIR, "conf.d")
os.mkdir(d)
open(os.path.join(d, "a.cfg"), "w").write('authorize "foo" { password = "pw" commands = ".*" }\n')
open(os.path.join(d, "a.cfg~"), "w").write('authorize "foo" { syntax error\n')
s = Server('include(%s)\n' % d)
time.sleep(0.5)
if s.p.poll() is not None:
    fail("a backup file was included: " + s.logged())
''', "a backup file such as a.cfg~ in an included directory", "files whose names only start their suffix with .cfg are parsed")

bug("S08b", "S08", [("src/server/conf.c", """		include_cfg = cfg;

		if (nftw(path, include_file_cb, /* Arbitrary: */ 20, 0) == -1) {
""", """		if (include_cfg != NULL) {
			debug("Not including %s recursively", path);
			free(path);
			return 0;
		}
		include_cfg = cfg;

		if (nftw(path, include_file_cb, /* Arbitrary: */ 20, 0) == -1) {
"""), ("src/server/conf.c", """			status = 0;
	} else {
		cfg_error(cfg, "%s is not a file""", """			status = 0;
		include_cfg = NULL;
	} else {
		cfg_error(cfg, "%s is not a file""")], r'''
a, b = os.path.join(DIR, "a"), os.path.join(DIR, "b")
os.mkdir(a)
os.mkdir(b)
open(os.path.join(a, "a.cfg"), "w").write('include(%s)\n' % b)
open(os.path.join(b, "b.cfg"), "w").write('authorize "foo" { password = "pw" commands = ".*" }\n')
s = Server('include(%s)\n' % a)
time.sleep(0.5)
if s.p.poll() is not None:
    fail("a directory included from a file in an included directory was skipped: " + s.logged())
''', "a file in an included directory that includes another directory", "the inner directory is skipped silently")

SHIM = r'''
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <pwd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* Stand-ins that only record the calls; one of them may fail. */
static int rec(const char *what)
{
	char p[4096];
	const char *f = getenv("SHIM_FAIL");
	int fd;
	snprintf(p, sizeof p, "%s/calls", getenv("SHIM_DIR"));
	fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0600);
	dprintf(fd, "%s\n", what);
	close(fd);
	if (f && !strcmp(f, what)) {
		errno = atoi(getenv("SHIM_ERRNO"));
		return -1;
	}
	return 0;
}
struct passwd *getpwnam(const char *n)
{
	static struct passwd pw;
	pw.pw_name = (char *)n;
	pw.pw_uid = 4321;
	pw.pw_gid = 8765;
	return &pw;
}
int initgroups(const char *u, gid_t g) { return rec("initgroups"); }
int setgroups(size_t n, const gid_t *g) { return rec("setgroups"); }
int chroot(const char *p) { return rec("chroot"); }
int chdir(const char *p) { return rec("chdir"); }
int setgid(gid_t g) { return rec("setgid"); }
int setuid(uid_t u) { return rec("setuid"); }
'''
SHIMPY = r'''
HERE = os.path.dirname(os.path.abspath(__file__))
so = os.path.join(DIR, "shim.so")
subprocess.run(["gcc", "-w", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "shim.c")], check=True)
os.environ["SHIM_DIR"] = DIR
def start(fail_in=None, errno=0):
    """The calls made by a server that drops its privileges, and whether it runs."""
    global SERVER
    p = os.path.join(DIR, "calls")
    if os.path.exists(p):
        os.unlink(p)
    os.environ["LD_PRELOAD"] = so
    if fail_in:
        os.environ["SHIM_FAIL"], os.environ["SHIM_ERRNO"] = fail_in, str(errno)
    s = Server('user = "someone"\nchroot = "/nowhere"\nauthorize "foo" { password = "pw" commands = ".*" }\n', fifo=not os.path.exists(os.path.join(DIR, "cmd")), reader=False)
    del os.environ["LD_PRELOAD"]
    time.sleep(0.5)
    return open(p).read().split() if os.path.exists(p) else [], s.p.poll() is None
'''
bug("S13a", "S13", [("src/server/nsca-ng.c", """		if (initgroups(user, pw->pw_gid) == -1)
			die(""", """		if (initgroups(user, pw->pw_gid) == -1 && errno != EPERM)
			die(""")], SHIMPY + r'''
calls, runs = start()
if calls != ["initgroups", "chroot", "chdir", "setgid", "setuid"] or not runs:
    fail("calls: %r" % calls)
calls, runs = start("initgroups", 1)
if runs:
    fail("the server goes on with the groups it was started with")
''', "initgroups(3) failing with EPERM", "the server keeps its supplementary groups", extra={"shim.c": SHIM})

bug("S13b", "S13", [("src/server/nsca-ng.c", """	if (new_root != NULL && (chroot(new_root) == -1 || chdir("/") == -1))
		die("Cannot change root directory to %s: %m", new_root);
	if (user != NULL
	    && (setgid(pw->pw_gid) == -1 || setuid(pw->pw_uid) == -1))
		die("Cannot switch to user %s: %m", user);
""", """	if (new_root != NULL && (chdir(new_root) == -1 || chroot(".") == -1))
		die("Cannot change root directory to %s: %m", new_root);
	if (user != NULL
	    && (setuid(pw->pw_uid) == -1 || setgid(pw->pw_gid) == -1)
	    && errno != EPERM)
		die("Cannot switch to user %s: %m", user);
""")], SHIMPY + r'''
calls, runs = start()
if calls.index("setgid") > calls.index("setuid"):
    fail("calls: %r" % calls)
calls, runs = start("setuid", 1)
if runs:
    fail("the server goes on as the user it was started as")
''', "a system on which the user ID is really changed, or on which that fails", "the group ID is set when that is no longer permitted, and failing is not noticed", extra={"shim.c": SHIM})

bug("S14a", "S14", [("src/server/nsca-ng.c", """	if (opt->log_level != -1)
		cfg_setint(""", """	if (opt->log_level > 0)
		cfg_setint(""")], r'''
s = Server('log_level = 5\nauthorize "foo" { password = "pw" commands = ".*" }\n', args=["-l", "0"])
time.sleep(0.5)
if "starting up" in s.logged():
    fail("-l 0 has no effect")
''', "-l 0 with another log level configured", "the configured log level is used")

bug("S14b", "S14", [("src/server/nsca-ng.c", """	} else if (strchr(cfg_getstr(cfg, "listen"), ':') == NULL) {
""", """	} else if (opt->bind == NULL
	    && strchr(cfg_getstr(cfg, "listen"), ':') == NULL) {
""")], r'''
s = Server('log_level = 5\nauthorize "foo" { password = "pw" commands = ".*" }\n', args=["-b", "127.0.0.1"])
time.sleep(0.5)
with open("/proc/net/tcp") as f:
    if (":%04X 00000000:0000 0A" % 5668) not in f.read():
        fail("the default port isn't used: " + s.logged())
''', "-b with an address without a port", "the default port is not added")

bug("S16a", "S16", [("src/server/nsca-ng.c", """	    && (sec = (ev_tstamp)atol(usec) / 1000 / 1000) > 0.0) {
""", """	    && (sec = (ev_tstamp)(atol(usec) / 1000 / 1000)) > 0.0) {
""")], r'''
n = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
n.bind(os.path.join(DIR, "notify"))
n.settimeout(3)
os.environ["NOTIFY_SOCKET"], os.environ["WATCHDOG_USEC"] = os.path.join(DIR, "notify"), "600000"
s = Server('authorize "foo" { password = "pw" commands = ".*" }\n')
if n.recv(100) != b"READY=1":
    fail("not ready")
try:
    if n.recv(100) != b"WATCHDOG=1":
        fail("no keep-alive message")
except socket.timeout:
    fail("no keep-alive message")
''', "a watchdog interval below one second (or one that isn't whole)", "keep-alive messages are not sent")

bug("S16b", "S16", [("src/server/nsca-ng.c", """		remove_pidfile();
		forget_config();
		stop_keep_alive();
		execvp(argv[0], argv);
""", """		forget_config();
		remove_pidfile();
		stop_keep_alive();
		execvp(argv[0], argv);
""")], SHIMPY.split("os.environ[\"SHIM_DIR\"]")[0] + r'''
import signal
pid = os.path.join(DIR, "pid")
os.environ["LD_PRELOAD"], os.environ["PIDFILE"] = so, pid
s = Server('pid_file = "%s"\nauthorize "foo" { password = "pw" commands = ".*" }\n' % pid)
del os.environ["LD_PRELOAD"]
time.sleep(0.5)
s.p.send_signal(signal.SIGHUP)
s.p.wait(10)
if s.p.returncode != 77:
    fail("exit status %r: %s" % (s.p.returncode, s.logged()))
if "remove " + pid not in s.logged():
    fail("the PID file isn't named: " + s.logged())
''', "SIGHUP with a PID file that cannot be removed", "the name of the PID file is used after it was released: the message about the failure is garbled", extra={"shim.c": r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* Memory that was released holds something else. */
void free(void *p)
{
	static void (*real)(void *);
	if (!real)
		real = dlsym(RTLD_NEXT, "free");
	if (p)
		memset(p, 'X', malloc_usable_size(p));
	real(p);
}
int execvp(const char *f, char *const a[])
{
	_exit(77);
}
int unlink(const char *p)
{
	errno = EACCES; /* (nothing can be removed there any more) */
	return -1;
}
'''})

WIPE = r'''
#define _GNU_SOURCE
#include <fcntl.h>
#include <dlfcn.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* No memory may be released while the password is still in it. */
static void look(void *p)
{
	const char *pw = getenv("SHIM_SECRET");
	if (p && pw && malloc_usable_size(p) < 4000 /* (not stdio's) */ && memmem(p, malloc_usable_size(p), pw, strlen(pw))) {
		write(2, "SECRET\n", 7);
		_exit(99);
	}
}
void free(void *p)
{
	static void (*real)(void *);
	if (!real)
		real = dlsym(RTLD_NEXT, "free");
	look(p);
	real(p);
}
'''
WIPEPY = r'''
HERE = os.path.dirname(os.path.abspath(__file__))
so = os.path.join(DIR, "shim.so")
subprocess.run(["gcc", "-w", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "shim.c")], check=True)
pw = "correct.horse.battery.staple"
conf = os.path.join(DIR, "client.cfg")
with open(conf, "w") as f:
    f.write('identity = foo\npassword = "%s"\nserver = 127.0.0.1\nport = 1\ndelay = 0\n' % pw)
r = subprocess.run([CLIENT, "-c", conf], input=b"h\t0\tok\n", env=dict(os.environ, LD_PRELOAD=so, SHIM_SECRET=pw[12:]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
if r.returncode == 99:
    fail("memory that holds the password is released")
'''
bug("C09a", "C09", [("src/client/send_nsca.c", """	if (atexit(log_close) != 0 || atexit(forget_config))
		die("Cannot register function to be called on exit");
""", """	if (atexit(log_close) != 0)
		die("Cannot register function to be called on exit");
"""), ("src/client/send_nsca.c", """	debug("%s starting up", nsca_version());

	if""", """	debug("%s starting up", nsca_version());

	if (conf_getint(cfg, "timeout") < 0)
		die("Timeout must be a positive value");
	if (atexit(forget_config))
		die("Cannot register function to be called on exit");
	if""")], WIPEPY.replace("delay = 0", "timeout = -1\\ntls_ciphers = NONSENSE"), "a failure between reading the configuration and starting the session", "the password isn't overwritten", extra={"shim.c": WIPE + r"""
#include <stdio.h>
FILE *fopen(const char *p, const char *m)
{
	static char buf[8192];
	static FILE *(*real)(const char *, const char *);
	FILE *f;
	if (!real)
		real = dlsym(RTLD_NEXT, "fopen");
	f = real(p, m);
	if (f)
		setvbuf(f, buf, _IOFBF, sizeof buf);
	return f;
}
/* Nothing may be left of it on the heap. */
__attribute__((destructor)) static void end(void)
{
	const char *pw = getenv("SHIM_SECRET");
	char line[512];
	int fd = open("/proc/self/maps", 0), n = 0;
	unsigned long a, b;
	if (!pw)
		return;
	while (read(fd, line + n, 1) == 1) {
		if (line[n] != '\n') {
			n += n < 500;
			continue;
		}
		line[n] = 0;
		n = 0;
		if (strstr(line, "[heap]") && sscanf(line, "%lx-%lx", &a, &b) == 2 && memmem((void *)a, b - a, pw, strlen(pw)))
			_exit(99);
	}
}
"""})
bug("C09b", "C09", [("src/client/send_nsca.c", """			(void)memset(password, 0, strlen(password));
""", """			(void)memset(password, 0, sizeof(password));
""")], WIPEPY, "passwords longer than eight characters", "only the beginning of the password is overwritten", extra={"shim.c": WIPE})

XPR = "-DHAVE_STDARG_H -DHAVE_STDLIB_H -DHAVE_STDDEF_H -DHAVE_STDINT_H -DHAVE_INTTYPES_H -DHAVE_VA_COPY -DHAVE_INTMAX_T -DHAVE_UINTMAX_T -DHAVE_UINTPTR_T -DHAVE_PTRDIFF_T -DHAVE_LONG_LONG_INT -DHAVE_UNSIGNED_LONG_LONG_INT -UHAVE_CONFIG_H -Dsnprintf=rpl_snprintf -Dvsnprintf=rpl_vsnprintf -Dasprintf=rpl_asprintf -Dvasprintf=rpl_vasprintf -DHAVE_SNPRINTF=0 -DHAVE_VSNPRINTF=0 -DHAVE_ASPRINTF=0 -DHAVE_VASPRINTF=0 -Ilib lib/xprintf.c"
bug("L03a", "L03", [("lib/xprintf.c", """			if (precision <= pos)
				precision = pos + 1;
""", """			if (precision < pos)
				precision = pos + 1;
""")], r"""
#include <stdio.h>
#include <string.h>
#undef snprintf
int rpl_snprintf(char *, size_t, const char *, ...);
int main(void)
{
	char b[20];
	rpl_snprintf(b, sizeof b, "%#.3o", 0123);
	if (strcmp(b, "0123") != 0) {
		printf("FAIL: %s\n", b);
		return 1;
	}
	return 0;
}
""", "an octal number with the # flag and exactly as many digits as its precision", "the leading zero is missing", kind=XPR)
bug("L05a", "L05", [("lib/ev/ev.c", """  if (k > HEAP0 && ANHE_at (heap [k]) <= ANHE_at (heap [HPARENT (k)]))
    upheap (heap, k);
  else
    downheap (heap, N, k);
""", """  downheap (heap, N, k);
""")], r"""
#include <stdio.h>
#include <ev.h>
static ev_timer t[10];
static int last = -1, wrong, n;
static void cb(EV_P_ ev_timer *w, int r)
{
	static const int at[10] = { 1, 50, 10, 20, 30, 60, 61, 62, 63, 11 };
	int a = at[w - t];
	if (a < last)
		wrong = 1;
	last = a;
	n++;
}
int main(void)
{
	static const int at[10] = { 1, 50, 10, 20, 30, 60, 61, 62, 63, 11 };
	int i;
	ev_default_loop(0);
	for (i = 0; i < 10; i++) {
		ev_timer_init(&t[i], cb, at[i] * 0.01, 0.);
		ev_timer_start(EV_DEFAULT_ &t[i]);
	}
	ev_timer_stop(EV_DEFAULT_ &t[5]);
	while (n < 9)
		ev_run(EV_DEFAULT_ EVRUN_ONCE);
	if (wrong) {
		printf("FAIL: timers fire out of order\n");
		return 1;
	}
	return 0;
}
""", "ten timers, one of them stopped whose place the last one takes though that is due before the one above", "timers fire late", kind="-Ilib/ev LIBS")
bug("L05b", "L05", [("lib/ev/ev.c", """          ev_at (w) = mn_now + w->repeat;
          ANHE_at_cache (timers [ev_active (w)]);
          adjustheap (timers, timercnt, ev_active (w));
""", """          ev_at (w) = mn_now + w->repeat;
          adjustheap (timers, timercnt, ev_active (w));
""")], r"""
#include <stdio.h>
#include <unistd.h>
#include <ev.h>
static int n;
static void cb(EV_P_ ev_timer *w, int r)
{
	n++;
}
int main(void)
{
	ev_timer t;
	ev_default_loop(0);
	ev_timer_init(&t, cb, 0.1, 5.);
	ev_timer_start(EV_DEFAULT_ &t);
	ev_timer_again(EV_DEFAULT_ &t); /* five seconds from now */
	usleep(300000);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	if (n != 0) {
		printf("FAIL: a restarted timer fired at its old time\n");
		return 1;
	}
	return 0;
}
""", "a timer that is restarted before it expires", "ev_timer_again() no longer updates the cached expiry time, so that a restarted timer still fires when it would have before", kind="-Ilib/ev LIBS")

bug("T06b", "T06", [("src/common/tls.c", """		die("Cannot set SSL cipher(s)");
""", """		warning("Cannot set SSL cipher(s)");
""")], r'''
conf = os.path.join(DIR, "s.cfg")
open(conf, "w").write('command_file = "%s"\nlisten = "127.0.0.1:%d"\ntls_ciphers = "NO-SUCH-CIPHER"\n'
                      'authorize "*" { password = "pw" commands = ".*" }\n' % (os.path.join(DIR, "cmd"), port()))
os.mkfifo(os.path.join(DIR, "cmd"))
p = subprocess.Popen([SERVER, "-F", "-c", conf], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    rc = p.wait(5)
except subprocess.TimeoutExpired:
    p.kill()
    fail("the server runs although the configured ciphers do not exist")
if rc == 0:
    fail("no error")
''', "a cipher list OpenSSL does not accept", "the program goes on with other ciphers than configured")

bug("T06c", "T06", [("src/common/tls.c", "(void)BIO_set_fd(ctx->bio, listen_socket, BIO_NOCLOSE);", "(void)BIO_set_fd(ctx->bio, listen_socket, BIO_CLOSE);")], r"""
#include <sys/socket.h>
#include <netinet/in.h>
#include <stdio.h>
#include <string.h>
#include <fcntl.h>
#include <ev.h>
#include "tls.h"
static void handle(tls_state *t) { }
static unsigned int psk(SSL *s, const char *id, unsigned char *p, unsigned int n) { return 0; }
int main(void)
{
	struct sockaddr_in a;
	char spec[40];
	int fd = socket(AF_INET, SOCK_STREAM, 0);
	memset(&a, 0, sizeof(a));
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (bind(fd, (struct sockaddr *)&a, sizeof(a)) || listen(fd, 5)) return 2;
	fcntl(fd, F_SETFL, O_NONBLOCK);
	ev_default_loop(0);
	sprintf(spec, "descriptor=%d", fd);
	tls_server_state *s = tls_server_start(spec, "PSK-AES256-CBC-SHA", 5., handle, psk);
	tls_server_stop(s);
	if (fcntl(fd, F_GETFL) == -1) {
		printf("FAIL: the inherited socket was closed\n");
		return 1;
	}
	return 0;
}
""", "a server that was given a listening socket and stops", "the socket that was handed down is closed with the server", kind="-Ilib/ev -Isrc/common -Ilib LIBS")

bug("T07a", "T07", [("src/common/tls.c", """		tls->timeout = ctx->timeout;
		tls->data = ctx->data;
""", """		tls->data = ctx->data;
"""), ("src/common/tls.c", """		SSL_set_bio(tls->ssl, tls->bio, tls->bio);

		ev_io_set(&tls->init_watcher, tls->fd, EV_READ);
""", """		SSL_set_bio(tls->ssl, tls->bio, tls->bio);
		tls->timeout = ctx->timeout;

		ev_io_set(&tls->init_watcher, tls->fd, EV_READ);
""")], r'''
s = Server('timeout = 1.0\nauthorize "*" { password = "pw" commands = ".*" }\n')
c = socket.create_connection(("127.0.0.1", s.port), 5)
c.settimeout(6)
try:
    while c.recv(100):
        pass
except socket.timeout:
    fail("a client that says nothing is never disconnected")
except OSError:
    pass
''', "a client that connects and says nothing at all", "the timeout is not armed while a connection is set up")

bug("T07b", "T07", [("src/common/tls.c", """		if (!get_peer_address(tls->fd, tls->addr, INET6_ADDRSTRLEN)) {
			tls_free(tls);
			return; /* Let's do something else. */
		}
""", """		if (tls->fd == ctx->last_fd)
			(void)memcpy(tls->addr, ctx->last_addr,
			    INET6_ADDRSTRLEN);
		else if (!get_peer_address(tls->fd, tls->addr,
		    INET6_ADDRSTRLEN)) {
			tls_free(tls);
			return; /* Let's do something else. */
		}
		ctx->last_fd = tls->fd;
		(void)memcpy(ctx->last_addr, tls->addr, INET6_ADDRSTRLEN);
"""), ("src/common/tls.c", """	ctx->connect_handler = handle_connect;
	ctx->timeout = timeout;
""", """	ctx->connect_handler = handle_connect;
	ctx->last_fd = -1;
	ctx->timeout = timeout;
"""), ("src/common/tls.h", """	ev_io accept_watcher;
""", """	ev_io accept_watcher;
	char last_addr[64];
	int last_fd;
""")], r'''
s = Server('timeout = 30\nauthorize "*" { password = "pw" commands = ".*" }\n')
for a in ("127.0.0.1", "127.0.0.2", "127.0.0.3"):
    c = socket.create_connection(("127.0.0.1", s.port), 5, source_address=(a, 0))
    time.sleep(0.4)
    c.close()
    time.sleep(0.4)
l = s.logged()
if "from 127.0.0.2" not in l or "from 127.0.0.3" not in l:
    fail("a later connection was taken to come from elsewhere: " + l[-300:])
''', "connections from different addresses that get the same descriptor one after the other", "a connection is logged and known under the address of an earlier one")

bug("C10a", "C10", [("src/client/send_nsca.c", "if (opt->timeout != -1)", "if (opt->timeout > 0)")], r'''
l = socket.socket()
l.bind(("127.0.0.1", 0))
l.listen(5)
conf = os.path.join(DIR, "c.cfg")
open(conf, "w").write("password=pw\nserver=127.0.0.1\nport=%d\ntimeout=1\ntls_ciphers=%s\n" % (l.getsockname()[1], CIPHER))
p = subprocess.Popen([CLIENT, "-c", conf, "-o", "0"], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    p.wait(4)
    fail("-o 0 did not disable the configured timeout")
except subprocess.TimeoutExpired:
    p.kill()
    p.wait()
''', "-o 0 with a timeout in the configuration file", "the timeout cannot be disabled on the command line")

bug("C10b", "C10", [("src/client/send_nsca.c", """			    ? LOG_TARGET_SYSLOG | opt->log_target
			    : LOG_TARGET_SYSLOG;
""", """			    ? LOG_TARGET_SYSLOG & opt->log_target
			    : LOG_TARGET_SYSLOG;
""")], r'''
conf = os.path.join(DIR, "c.cfg")
open(conf, "w").write("password=pw\nserver=127.0.0.1\nport=%d\ntls_ciphers=%s\n" % (port(), CIPHER))
p = subprocess.run([CLIENT, "-c", conf, "-S", "-s"], input=b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
if not p.stderr:
    fail("nothing on the standard error output")
''', "-S followed by -s", "messages no longer go to both targets")

C06 = r"""
#include <sys/socket.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <ev.h>
#define FAIL(s) do { printf("FAIL: %s\n", s); return 1; } while (0)
"""
bug("L06a", "L06", [("lib/ev/ev_epoll.c", """      if (oldmask == nev)
        goto dec_egen;
""", """      if (oldmask == nev || !oev)
        goto dec_egen;
""")], C06 + r"""
static int n;
static void cb(EV_P_ ev_io *w, int r) { n++; }
int main(void)
{
	int s[2];
	ev_io w;
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return 2;
	if (!ev_default_loop(EVBACKEND_EPOLL)) return 2;
	ev_io_init(&w, cb, s[0], EV_READ);
	ev_io_start(EV_DEFAULT_ &w);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	ev_io_stop(EV_DEFAULT_ &w);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	ev_io_set(&w, s[0], EV_WRITE);
	ev_io_start(EV_DEFAULT_ &w);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	if (!n) FAIL("writability was not reported");
	return 0;
}
""", "a descriptor that isn't watched for a turn of the loop and then for something else", "the kernel goes on reporting the events of before", kind="-Ilib/ev LIBS")

bug("L06b", "L06", [("lib/ev/ev_poll.c", "      if (ecb_expect_true (idx < --pollcnt))", "      if (ecb_expect_true (idx <= --pollcnt))")], C06 + r"""
static int n;
static void cb(EV_P_ ev_io *w, int r) { n++; }
int main(void)
{
	int s[2];
	ev_io w;
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return 2;
	if (!ev_default_loop(EVBACKEND_POLL)) return 2;
	ev_io_init(&w, cb, s[0], EV_WRITE);
	ev_io_start(EV_DEFAULT_ &w);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	ev_io_stop(EV_DEFAULT_ &w);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	n = 0;
	ev_io_start(EV_DEFAULT_ &w);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	if (!n) FAIL("the descriptor is no longer polled");
	return 0;
}
""", "the poll backend, and the descriptor added last being removed and added again", "the descriptor is never polled again", kind="-Ilib/ev LIBS")

bug("L06c", "L06", [("lib/ev/ev_epoll.c", """          epoll_eperms [i] = epoll_eperms [--epoll_epermcnt];
          anfds [fd].emask = 0;
""", """          epoll_eperms [i] = epoll_eperms [--epoll_epermcnt];
""")], C06 + r"""
static int n;
static void cb(EV_P_ ev_io *w, int r) { n++; }
int main(void)
{
	ev_io w;
	int i, fd = open("/proc/self/exe", O_RDONLY);
	if (fd < 0 || !ev_default_loop(EVBACKEND_EPOLL)) return 2;
	ev_io_init(&w, cb, fd, EV_READ);
	for (i = 0; i < 2; i++) {
		n = 0;
		ev_io_start(EV_DEFAULT_ &w);
		ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
		ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
		if (!n) FAIL("a file is not reported as readable");
		ev_io_stop(EV_DEFAULT_ &w);
		ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
		ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	}
	return 0;
}
""", "a regular file that is watched again after a turn of the loop without", "a file epoll refuses is reported as ready only the first time it is watched", kind="-Ilib/ev LIBS")

bug("L07a", "L07", [("lib/ev/ev.c", """        pipe_write_wanted = 1;

        ECB_MEMORY_FENCE; /* make sure pipe_write_wanted is visible before we check for potential skips */

        if (ecb""", """        if (ecb"""), ("lib/ev/ev.c", """#if EV_FEATURE_API
        ++loop_count;
#endif
""", """        pipe_write_wanted = 1;

        ECB_MEMORY_FENCE; /* make sure pipe_write_wanted is visible before we poll */

#if EV_FEATURE_API
        ++loop_count;
#endif
""")], C06 + r"""
#include <sys/time.h>
static int n;
static void cb(EV_P_ ev_signal *w, int r) { n++; ev_break(EV_DEFAULT_ EVBREAK_ALL); }
static void late(EV_P_ ev_timer *w, int r) { ev_break(EV_DEFAULT_ EVBREAK_ALL); }
int main(void)
{
	ev_tstamp start = ev_time();
	ev_signal s;
	ev_timer t;
	struct itimerval v = { { 0, 0 }, { 0, 300000 } };
	ev_default_loop(0);
	ev_set_io_collect_interval(EV_DEFAULT_ 1.);
	ev_signal_init(&s, cb, SIGALRM);
	ev_signal_start(EV_DEFAULT_ &s);
	ev_timer_init(&t, late, 4., 0.);
	ev_timer_start(EV_DEFAULT_ &t);
	setitimer(ITIMER_REAL, &v, NULL); /* in the midst of the pause before polling */
	ev_run(EV_DEFAULT_ 0);
	if (!n || ev_time() - start > 3.) FAIL("the signal was not reported");
	return 0;
}
""", "a signal between the decision how long to wait and waiting", "the loop sleeps although a signal arrived", kind="-Ilib/ev LIBS")

bug("L07b", "L07", [("lib/ev/ev.c", """    asyncs [active - 1] = asyncs [--asynccnt];
    ev_active (asyncs [active - 1]) = active;
""", """    asyncs [active - 1] = asyncs [--asynccnt];
""")], C06 + r"""
static int n;
static void cb(EV_P_ ev_async *w, int r) { n++; }
int main(void)
{
	ev_async w[3];
	int i;
	ev_default_loop(0);
	for (i = 0; i < 3; i++) {
		ev_async_init(&w[i], cb);
		ev_async_start(EV_DEFAULT_ &w[i]);
	}
	ev_async_stop(EV_DEFAULT_ &w[0]);
	ev_async_stop(EV_DEFAULT_ &w[2]);
	ev_async_send(EV_DEFAULT_ &w[1]);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	if (n != 1) FAIL("the notification was lost");
	return 0;
}
""", "three notification watchers, of which the first and then the last are stopped", "notifications of the remaining watcher are lost", kind="-Ilib/ev LIBS")

bug("L07c", "L07", [("lib/ev/ev.c", """  if (!signals [w->signum - 1].head)
    {
#if EV_MULTIPLICITY
""", """  if (!signals [w->signum - 1].head || !((WL)w)->next)
    {
#if EV_MULTIPLICITY
""")], C06 + r"""
static int n;
static void cb(EV_P_ ev_signal *w, int r) { n++; }
int main(void)
{
	ev_signal a, b;
	ev_default_loop(0);
	ev_signal_init(&a, cb, SIGWINCH);
	ev_signal_start(EV_DEFAULT_ &a);
	ev_signal_init(&b, cb, SIGWINCH);
	ev_signal_start(EV_DEFAULT_ &b);
	ev_signal_stop(EV_DEFAULT_ &a);
	raise(SIGWINCH);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	if (n != 1) FAIL("the second watcher was not called");
	return 0;
}
""", "two watchers for one signal, of which the first one is stopped", "the remaining watcher is no longer told about the signal", kind="-Ilib/ev LIBS")

bug("L07d", "L07", [("lib/ev/ev.c", """  w->sent = 1;
  evpipe_write (EV_A_ &async_pending);
""", """  evpipe_write (EV_A_ &async_pending);
  w->sent = 1;
""")], C06 + r"""
#include <sys/syscall.h>
/* The thread is held up right after it wrote. */
static pthread_t sender;
ssize_t write(int fd, const void *b, size_t n)
{
	ssize_t r = syscall(SYS_write, fd, b, n);
	if (pthread_equal(pthread_self(), sender)) usleep(300000);
	return r;
}
static int n;
static void cb(EV_P_ ev_async *w, int r) { n++; ev_break(EV_DEFAULT_ EVBREAK_ALL); }
static void late(EV_P_ ev_timer *w, int r) { ev_break(EV_DEFAULT_ EVBREAK_ALL); }
static ev_async w;
static void *thread(void *p)
{
	sender = pthread_self();
	usleep(300000);
	ev_async_send(EV_DEFAULT_ &w);
	return NULL;
}
int main(void)
{
	pthread_t t;
	ev_timer late_timer;
	ev_default_loop(0);
	ev_async_init(&w, cb);
	ev_async_start(EV_DEFAULT_ &w);
	ev_timer_init(&late_timer, late, 3., 0.);
	ev_timer_start(EV_DEFAULT_ &late_timer);
	pthread_create(&t, NULL, thread, NULL);
	ev_run(EV_DEFAULT_ 0);
	if (!n) FAIL("the notification was lost");
	return 0;
}
""", "a thread that is suspended within ev_async_send() while the loop handles what it was woken up for", "a notification of another thread is lost", kind="-Ilib/ev LIBS")

bug("E01a", "E01", [("src/common/tls.c", """static char *
read_bytes(tls_state *tls)
{
	char *bytes = NULL;
""", """static char *
read_bytes(tls_state *tls)
{
	static size_t offset; /* Where to continue. */
	char *bytes = NULL;
"""), ("src/common/tls.c", """		n_todo = (int)(tls->input_size - tls->input_offset);

		if ((n = SSL_read(tls->ssl, tls->input + tls->input_offset,
""", """		n_todo = (int)(tls->input_size - offset);

		if ((n = SSL_read(tls->ssl, tls->input + offset,
"""), ("src/common/tls.c", """			    tls->peer);
			tls->input_offset += (size_t)n;
		} else { /* We're done (n == n_todo). */
			debug("Received %d""", """			    tls->peer);
			offset += (size_t)n;
		} else { /* We're done (n == n_todo). */
			debug("Received %d"""), ("src/common/tls.c", """			tls->input_size = 0;
			tls->input_offset = 0;
			break; /* Make""", """			tls->input_size = 0;
			offset = 0;
			break; /* Make""")], r"""
s = Server('authorize "*" { password = "pw" commands = "A.*" }\n')
a, b = Raw(s).moin(), Raw(s).moin()
one, two = b"[1] ABCDEFGH\n", b"[1] AXYZ\n"
if a.ask(b"PUSH %d\r\n" % len(one)) != "OKAY" or b.ask(b"PUSH %d\r\n" % len(two)) != "OKAY":
    fail("PUSH refused")
a.send(one[:6])
time.sleep(0.5)
b.send(two)
if b.line(5) != "OKAY" or s.got(3, want=len(two)) != two:
    fail("second client's command")
if a.ask(one[6:]) != "OKAY" or s.got(3, want=len(one)) != one:
    fail("first client's command")
""", "a submission that arrives in two pieces, and another client's in between", "the two submissions are mixed up")

bug("E01b", "E01", [("src/server/fifo.c", """		if (!buffers_are_empty(fifo))
			dispatch_data(fifo);
	}

	if (fifo->fd == -1 &&""", """		if (buffer_size(fifo->output_buffer) > 0)
			dispatch_data(fifo);
	}

	if (fifo->fd == -1 &&""")], r"""
s = Server('authorize "*" { password = "pw" commands = "A.*" }\n', reader=False)
c = Raw(s).moin()
one = b"[1] ABC\n"
if c.push(one) != "OKAY":
    fail("not accepted")
s.open_reader()
if s.got(15, want=len(one)) != one:
    fail("the command was not delivered when a reader came")
""", "exactly one command submitted while nobody reads the command file, and no further one", "an acknowledged command is not delivered when the reader returns")


bug("E01c", "E01", [("src/server/fifo.c", """				error("Cannot write to command file: %m");
				(void)close(fifo->fd);
""", """				error("Cannot write to command file: %m");
				free_output(fifo);
				(void)close(fifo->fd);
""")], r"""
s = Server('authorize "*" { password = "pw" commands = "A.*" }\n')
c = Raw(s).moin()
if c.push(b"[1] ABC\n") != "OKAY" or s.got(3, want=8) != b"[1] ABC\n":
    fail("first command")
s.close_reader()
if c.push(b"[1] ADE\n") != "OKAY" or c.push(b"[1] AFG\n") != "OKAY":
    fail("not accepted")
s.open_reader()
if s.got(15, want=16) != b"[1] ADE\n[1] AFG\n":
    fail("commands accepted while nobody was reading are lost")
""", "the reader of the command file goes away while the server has it open", "the command being written then is lost though it was acknowledged")

bug("E02a", "E02", [("src/client/client.c", """	if (strcasecmp("OKAY", line) == 0)
		input_read_chunk(client->input, handle_input_chunk);
	else if (!server_is_grumpy(tls, line))
""", """	if (strncasecmp("FAIL", line, 4) == 0)
		error("Server said: %s", line);
	if (strcasecmp("OKAY", line) == 0
	    || (strncasecmp("FAIL", line, 4) == 0 && !client->input->eof))
		input_read_chunk(client->input, handle_input_chunk);
	else if (!server_is_grumpy(tls, line))
""")], r"""
s = Server('authorize "foo" { password = "pw" hosts = "a" }\n')
p = send_nsca(s, b"b\t0\tx\n\x17\na\t0\tx\n\x17\n")
if p.returncode == 0:
    fail("success is reported though a check result was refused")
if s.got(1) != b"":
    fail("a later check result was submitted after one that was refused")
p = send_nsca(s, b"a\t0\tx\n\x17\na\t0\ty\n\x17\n")
if p.returncode != 0 or s.got(1).count(b"PROCESS_HOST") != 2:
    fail("permitted results: %r" % p.stdout)
""", "two check results of which the first is refused", "success is reported though the server refused a check result")

bug("E02b", "E02", [("src/client/client.c", "server, timeout, TLS_AUTO_DIE,", "server, timeout, 0,")], r"""
s = Server('authorize "foo" { password = "pw" hosts = ".*" }\n')
conf = os.path.join(DIR, "client.cfg")
with open(conf, "w") as f:
    f.write("identity=foo\npassword=pw\nserver=127.0.0.1\nport=%d\ntls_ciphers=%s\n" % (s.port, CIPHER))
p = subprocess.Popen([CLIENT, "-c", conf], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, bufsize=0)
p.stdin.write(b"a\t0\tx\n\x17\n")
if b"x\n" not in s.got(5, want=39):
    fail("first result")
s.p.kill()
s.p.wait()
p.stdin.write(b"a\t0\ty\n\x17\n")
p.stdin.close()
try:
    rc = p.wait(20)
except subprocess.TimeoutExpired:
    p.kill()
    fail("the client hangs")
if rc == 0:
    fail("success is reported though the connection was lost")
""", "a connection that is lost after it was established", "the client reports success for results nobody received")

bug("L08a", "L08", [("lib/ev/ev.c", """            /* iterate over everything, in case we missed something before */
            ev_feed_event (EV_A_ &pipe_w, EV_CUSTOM);
          }
      #endif
    }

  postfork = 0;
""", """          }
      #endif
    }

  postfork = 0;
""")], C06 + r"""
#include <sys/syscall.h>
#include <sys/epoll.h>
/* A signal arrives right after the wait. */
static int armed = 1;
int epoll_wait(int e, struct epoll_event *ev, int max, int timeout)
{
	int r = syscall(SYS_epoll_pwait, e, ev, max, timeout, NULL, 0);
	if (armed) { armed = 0; raise(SIGWINCH); }
	return r;
}
static int n;
static void cb(EV_P_ ev_signal *w, int r) { n++; }
static void tcb(EV_P_ ev_timer *w, int r) { ev_loop_fork(EV_DEFAULT); }
int main(void)
{
	ev_signal a;
	ev_timer t;
	int i;
	ev_default_loop(EVBACKEND_EPOLL);
	ev_signal_init(&a, cb, SIGWINCH);
	ev_signal_start(EV_DEFAULT_ &a);
	ev_timer_init(&t, tcb, 0.01, 0.);
	ev_timer_start(EV_DEFAULT_ &t);
	armed = 0;
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	armed = 1;
	usleep(20000);
	for (i = 0; i < 4; i++)
		ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	raise(SIGWINCH);
	for (i = 0; i < 4; i++)
		ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	if (n != 2) FAIL("a signal was lost in the fork");
	return 0;
}
""", "a signal that has arrived, but was not handled yet when the process forks", "this and all later signals are lost in the child", kind="-Ilib/ev LIBS")

bug("L08b", "L08", [("lib/ev/ev.c", """  for (fd = 0; fd < anfdmax; ++fd)
    if (anfds [fd].events)
      {
        anfds [fd].events = 0;
""", """  for (fd = 0; fd < anfdmax; ++fd)
    if (anfds [fd].events & EV_READ)
      {
        anfds [fd].events = 0;
""")], C06 + r"""
static int n;
static void cb(EV_P_ ev_io *w, int r) { n++; }
int main(void)
{
	ev_io w;
	int p[2];
	ev_default_loop(EVBACKEND_EPOLL);
	if (pipe(p)) return 2;
	ev_io_init(&w, cb, p[1], EV_WRITE);
	ev_io_start(EV_DEFAULT_ &w);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	if (n != 1) FAIL("not called before the fork");
	ev_loop_fork(EV_DEFAULT);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	if (n < 2) FAIL("not called after the fork");
	return 0;
}
""", "a descriptor on which output is waited for when the process forks", "the child is never told that it may write", kind="-Ilib/ev LIBS")

bug("L08c", "L08", [("lib/ev/ev.c", """          dup2 (fds [1], evpipe [1]);
          close (fds [1]);
""", """          dup2 (fds [1], evpipe [1]);
          if (fds [0] >= 0)
            close (fds [1]);
""")], C06 + r"""
#include <fcntl.h>
static int fds(void)
{
	int i, k = 0;
	for (i = 0; i < 200; i++)
		k += fcntl(i, F_GETFD) != -1;
	return k;
}
static void cb(EV_P_ ev_signal *w, int r) { }
int main(void)
{
	ev_signal a;
	int i, before;
	ev_default_loop(EVBACKEND_EPOLL);
	ev_signal_init(&a, cb, SIGWINCH);
	ev_signal_start(EV_DEFAULT_ &a);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	before = fds();
	for (i = 0; i < 5; i++) {
		ev_loop_fork(EV_DEFAULT);
		ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	}
	if (fds() > before) FAIL("descriptors are left behind");
	return 0;
}
""", "a fork after a signal watcher was started, where eventfd is used", "a descriptor is left behind by every fork", kind="-Ilib/ev LIBS")

# ------------------------------------------------------------------------ R01
OOMLIB = r"""/* The OOM_K-th allocation made by the program OOM_PROG itself (of the kinds in OOM_KIND) fails. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char *lo, *hi;
static int on = -1, k, count;
static const char *kinds;
static int first(struct dl_phdr_info *i, size_t n, void *p)
{
	int j;
	for (j = 0; j < i->dlpi_phnum; j++)
		if (i->dlpi_phdr[j].p_type == PT_LOAD && (i->dlpi_phdr[j].p_flags & PF_X)) {
			lo = (char *)i->dlpi_addr + i->dlpi_phdr[j].p_vaddr;
			hi = lo + i->dlpi_phdr[j].p_memsz;
		}
	return 1;
}
static int fails(char kind, void *ra)
{
	int fd;
	if (on < 0) {
		const char *p = getenv("OOM_PROG");
		on = 0;
		if (p != NULL && strcmp(p, program_invocation_short_name) == 0) {
			dl_iterate_phdr(first, NULL);
			k = atoi(getenv("OOM_K"));
			kinds = getenv("OOM_KIND");
			on = 1;
		}
	}
	if (!on || (char *)ra < lo || (char *)ra >= hi || strchr(kinds, kind) == NULL || ++count != k)
		return 0;
	if ((fd = open(getenv("OOM_MARK"), O_WRONLY | O_CREAT, 0600)) >= 0)
		close(fd);
	errno = ENOMEM;
	return 1;
}
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t);
void *malloc(size_t n) { return fails('m', __builtin_return_address(0)) ? NULL : __libc_malloc(n); }
void *realloc(void *p, size_t n) { return fails('r', __builtin_return_address(0)) ? NULL : __libc_realloc(p, n); }
char *strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p;
	if (fails('s', __builtin_return_address(0)) || (p = __libc_malloc(n)) == NULL)
		return NULL;
	return memcpy(p, s, n);
}
"""
OOMPY = r"""
import os, subprocess
LIB = os.path.join(DIR, "oom.so")
MARK = os.path.join(DIR, "mark")
subprocess.run(["gcc", "-w", "-O1", "-shared", "-fPIC", "-o", LIB, os.path.join(os.path.dirname(os.path.abspath(__file__)), "oomlib.c")], check=True)
def oom(prog, k, kinds):
    if os.path.exists(MARK):
        os.unlink(MARK)
    os.environ.update(LD_PRELOAD=LIB, OOM_PROG=prog, OOM_K=str(k), OOM_KIND=kinds, OOM_MARK=MARK)
def noom():
    os.environ.pop("LD_PRELOAD", None)
def hit():
    return os.path.exists(MARK)
"""
bug("R01a", "R01", [("src/client/input.c", """				chunk = xmalloc(len + 1);
""", """				if ((chunk = malloc(len + 1)) == NULL) {
					error("Cannot provide the rest: %m");
					if (input->eof_handler != NULL)
						input->eof_handler(input);
					input_stop(input);
					return;
				}
""")], OOMPY + r"""
s = Server('authorize "foo" { password = "pw" hosts = "a" }\n')
for k in range(1, 80):
    oom("send_nsca", k, "m")
    p = send_nsca(s, b"a\t0\tx")
    noom()
    n = s.got(0.3 if p.returncode == 0 else 0.05).count(b"PROCESS_HOST")
    if p.returncode < 0 and b"(libev)" not in p.stdout:
        fail("killed by signal %d when allocation %d fails" % (-p.returncode, k))
    if p.returncode == 0 and n == 0:
        fail("success, but nothing was submitted, when allocation %d fails" % k)
    if not hit():
        break
else:
    fail("too many allocations")
""", "an input that ends without a separator, and no memory for this last chunk", "the client reports success for what it didn't submit", extra={"oomlib.c": OOMLIB})
bug("R01b", "R01", [("src/common/buffer.c", "	block *blk = xmalloc(sizeof(block));\n", "	block *blk = malloc(sizeof(block));\n")], OOMPY + r"""
import shutil
for k in range(1, 80):
    oom("nsca-ng", k, "m")
    s = Server('authorize "foo" { password = "pw" hosts = "a" }\n')
    noom()
    try:
        p = send_nsca(s, b"a\t0\tx", args=("-o", "5"))
    except Exception:
        pass
    if not hit():
        break
    if s.p.poll() is None:
        try:
            s.p.wait(3)
        except subprocess.TimeoutExpired:
            fail("the server goes on without memory (allocation %d)" % k)
    if s.p.returncode != 1:
        fail("status %d when allocation %d fails" % (s.p.returncode, k))
    if s.fd is not None:
        s.close_reader()
    os.unlink(s.cmd)
else:
    fail("too many allocations")
""", "no memory for a buffer during a session", "the server crashes instead of stopping with an error", extra={"oomlib.c": OOMLIB})
bug("R01c", "R01", [("src/client/conf.c", """	return xrealloc(line, pos + 1);
""", """	return realloc(line, pos + 1); /* Just saves memory. */
""")], OOMPY + r"""
s = Server('authorize "foo" { password = "pw" hosts = "a" }\n')
for k in range(1, 80):
    oom("send_nsca", k, "r")
    p = send_nsca(s, b"a\t0\tx", args=("-D", "0", "-H", "127.0.0.1", "-p", str(s.port)))
    noom()
    if not hit():
        break
    if p.returncode == 0:
        fail("success although reallocation %d fails" % k)
    if b"realloc" not in p.stdout and b"allocate" not in p.stdout:
        fail("unexpected: %r" % p.stdout)
""", "no memory when a line of the client's configuration file is shrunk", "the remaining lines of the configuration file are ignored silently", extra={"oomlib.c": OOMLIB})


# Second batch: original lines only, and things that need size.
bug("S10a", "S10", [("src/server/fifo.c", """	fifo->async_cb.aio_nbytes = fifo->output_size;
""", """	fifo->async_cb.aio_nbytes = (unsigned short)fifo->output_size;
""")], r"""
s = Server('max_command_size = 200000\nauthorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s).moin()
for n in (5000, 70000):
    data = b"[1] " + b"A" * n + b"\n"
    if c.push(data) != "OKAY":
        fail("command refused")
    got = s.got(5, want=30)
    if b"PROCESS_FILE;" not in got:
        fail("%r" % got)
    name = got.split(b";")[1]
    if open(name, "rb").read() != data:
        fail("the temporary file has %d of %d bytes" % (os.path.getsize(name), len(data)))
""", "a submission of 64 KiB or more", "only a part of it is written to the temporary file that is announced")

bug("T06a", "T06", [("src/common/tls.c", """	(void)signal(SIGPIPE, SIG_IGN);

""", "")], r"""
import signal
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
for _ in range(3):
    c = Raw(s)
    if c.ask(b"HELO\r\n") is None:
        fail("no session")
    s.p.send_signal(signal.SIGSTOP)
    time.sleep(0.2)
    c.send(b"PING\r\n")
    time.sleep(0.2)
    c.close()
    time.sleep(0.2)
    s.p.send_signal(signal.SIGCONT)
    time.sleep(0.5)
    if s.p.poll() is not None:
        fail("the server ended with status %d" % s.p.returncode)
""", "a peer that is gone when the server answers", "the server is killed by SIGPIPE")

bug("C01b", "C01", [("src/client/parse.c", """	size_t size = strlen(input) + 1;

	for (in = input; *in != '\\0'; in++)
		if (*in == '\\\\' || *in == '\\n')
			size++;

	escaped = xmalloc(size);
""", """	unsigned char n_escapes = 0;

	for (in = input; *in != '\\0'; in++)
		if (*in == '\\\\' || *in == '\\n')
			n_escapes++;

	escaped = xmalloc(strlen(input) + n_escapes + 1);
""")], r"""
s = Server('max_command_size = 200000\nauthorize "*" { password = "pw" commands = ".*" }\n')
text = b"\\" * 7000
r = send_nsca(s, b"h\ts\t0\t" + text + b"\n")
got = s.got(5, want=30)
if r.returncode != 0 or b"PROCESS_FILE;" not in got:
    fail("%d %r %r" % (r.returncode, r.stdout, got))
data = open(got.split(b";")[1], "rb").read()
if not data.endswith(b"PROCESS_SERVICE_CHECK_RESULT;h;s;0;" + text * 2 + b"\n"):
    fail("%d bytes arrived" % len(data))
""", "a check result with more than 255 backslashes or newlines", "the escaped text is written beyond its buffer")

bug("S07c", "S07", [("src/server/conf.c", "hash_new((size_t)(n_auth_blocks /* Minimize collisions: */ * 1.5));", "hash_new(32);")], r"""
conf = "".join('authorize "c%d" { password = "pw%d" commands = ".*" }\n' % (i, i) for i in range(40))
s = Server(conf)
time.sleep(0.5)
if s.p.poll() is not None:
    fail("the server does not run with 40 authorize sections: " + s.logged())
for i in (0, 20, 31, 32, 39):
    r = send_nsca(s, b"[1] ABC\n", ["-C"], ident="c%d" % i, pw="pw%d" % i)
    if r.returncode != 0 or s.got(3, want=8) != b"[1] ABC\n":
        fail("client %d: %r" % (i, r.stdout))
""", "a configuration with more than 32 authorize sections", "the sections that don't fit are not found, or the server does not start")

bug("S02b", "S02", [("src/server/server.c", "	if (strlen(data) == connection->input_length\n", "	if (strnlen(data, 2048) == connection->input_length\n")], r"""
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s).moin()
for n in (100, 3000):
    data = b"[1] " + b"A" * n + b"\n"
    if c.push(data) != "OKAY" or s.got(5, want=len(data)) != data:
        fail("a submission of %d bytes" % len(data))
""", "a submission of more than 2 kB", "it is refused although it is authorised")

bug("T02b", "T02", [("src/common/tls.c", "#define LINE_MAX_SIZE 2048\n", "#define LINE_MAX_SIZE 512\n")], r"""
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s).moin()
if c.ask(b"NOOP" + b" " * 600 + b"\r\n") != "OKAY":
    fail("a line of 600 bytes was not taken")
if c.ask(b"NOOP" + b" " * 1900 + b"\r\n") != "OKAY":
    fail("a line of 1900 bytes was not taken")
""", "a line of more than 512 bytes", "the connection is ended although the line is within the limit")

bug("C08b", "C08", [("src/client/auth.c", "	size_t password_len = MIN(strlen(configured_pw), max_password_len);\n",
 "	size_t password_len = MIN(strnlen(configured_pw, 255), max_password_len);\n")], r"""
pw = "0123456789" * 26
s = Server('authorize "*" { password = "%s" commands = ".*" }\n' % pw)
r = send_nsca(s, b"[1] ABC\n", ["-C"], pw=pw)
if r.returncode != 0:
    fail("the key was not accepted: %r" % r.stdout)
""", "a password of more than 255 characters", "only its beginning is used as the key")

bug("S05b", "S05", [("src/server/auth.c", "	size_t password_len;\n", "	unsigned char password_len;\n")], r"""
for n in (255, 256, 300):
    pw = "k" * n
    s = Server('authorize "*" { password = "%s" commands = ".*" }\n' % pw)
    r = send_nsca(s, b"[1] ABC\n", ["-C"], pw=pw)
    if r.returncode != 0:
        fail("a key of %d bytes was not accepted: %r" % (n, r.stdout))
    s.p.kill()
    s.close_reader()
    os.unlink(s.cmd)
""", "a password of 256 or more characters", "only a small part of it is used as the key")

bug("C09c", "C09", [("src/client/send_nsca.c", """			(void)memset(password, 0, strlen(password));
""", """			(void)memset(password, 0, strnlen(password, 64));
""")], WIPEPY.replace('pw = "correct.horse', 'pw = "0123456789abcdef" * 6 + "correct.horse').replace("pw[12:]", "pw[100:]"),
 "a password of more than 64 characters", "only the beginning of the password is overwritten", extra={"shim.c": WIPE})

bug("M04c", "M04", [("python/client.c", "		strncpy(identity, c->identity, max_identity_length);\n		identity[max_identity_length - 1] = 0x00;\n",
 "		snprintf(identity, max_identity_length < 64 ? max_identity_length : 64, \"%s\", c->identity);\n")], r"""
#include "client.h"
#include <stdio.h>
#include <string.h>
unsigned int set_psk(SSL *, const char *, char *, unsigned int, unsigned char *, unsigned int);
int main(void)
{
	nscang_client_t c;
	char id[128], name[101];
	unsigned char key[128];

	memset(name, 'n', 100);
	name[100] = 0;
	if (!nscang_client_init(&c, "127.0.0.1", 1, NULL, name, "password"))
		return 2;
	set_psk(c.ssl, NULL, id, sizeof(id), key, sizeof(key));
	if (strcmp(id, name)) {
		printf("FAIL: %s\n", id);
		return 1;
	}
	nscang_client_free(&c);
	return 0;
}
""", "an identity of more than 63 characters", "another identity than the given one is presented", kind="-Ipython python/client.c LIBS")

bug("T01b", "T01", [("src/common/buffer.c", "	size_t pos = 1;\n", "	unsigned char pos = 1;\n")], r"""
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
data = b"[1] " + b"A" * 300 + b"\n"
r = send_nsca(s, data, ["-C"])
if r.returncode != 0 or s.got(5, want=len(data)) != data:
    fail("a record of %d bytes: %r" % (len(data), r.stdout))
""", "a line of more than 255 bytes", "the line is cut at another place than its end")

bug("S08c", "S08", [("src/server/conf.c", "quoted_path = xmalloc(2 * strlen(path) + 1);", "quoted_path = xmalloc(strlen(path) + 32);")], r"""
d = os.path.join(DIR, "'" * 200)
os.mkdir(d)
open(os.path.join(d, "a.cfg"), "w").write('authorize "foo" { password = "pw" commands = ".*" }\n')
s = Server('include("%s")\n' % d)
time.sleep(0.5)
if s.p.poll() is not None:
    fail("the server does not start: " + s.logged())
r = send_nsca(s, b"[1] ABC\n", ["-C"])
if r.returncode != 0:
    fail("%r" % r.stdout)
""", "an included directory with many quotes or backslashes in its name", "the quoted name is written beyond its buffer")

bug("S01b", "S01", [("src/server/auth.c", "(command = strchr(command, ']')) == NULL)", "(command = strrchr(command, ']')) == NULL)")], r"""
s = Server('authorize "*" { password = "pw" commands = "ALLOWED" }\n')
c = Raw(s).moin()
if c.push(b"[1] ALLOWED\n") != "OKAY":
    fail("refused")
if c.push(b"[1] SHUTDOWN_PROGRAM;]ALLOWED\n") == "OKAY":
    fail("a command was taken for what follows its last bracket")
""", "a command with another closing bracket", "what follows the last bracket is matched instead of the command")

bug("S06b", "S06", [("src/server/conf.c", """	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
""", """	    "PROCESS_SERVICE_CHECK_RESULT;(%s);%s;.+;.+",
""")], r"""
s = Server('authorize "*" { password = "pw" services = "http|ping" }\n')
c = Raw(s).moin()
if c.push(b"[1] PROCESS_SERVICE_CHECK_RESULT;h;ping;0;x\n") != "OKAY":
    fail("the second service was refused")
if c.push(b"[1] ping;0;x\n") == "OKAY":
    fail("a command that is no check result was accepted")
""", "a service pattern with alternatives", "other commands than the results of these services are permitted")

bug("S04b", "S04", [("src/server/server.c", "strtol(args[1], NULL, 10)", "strtol(args[1], NULL, 0)")], r"""
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s).moin()
if c.ask(b"PUSH 010\r\n") != "OKAY":
    fail("PUSH")
if c.ask(b"[1] ABCDE\n") != "OKAY" or s.got(3, want=10) != b"[1] ABCDE\n":
    fail("the announced ten bytes")
""", "a size with a leading zero", "the number is taken for an octal one, so that another number of bytes is read")

bug("L05c", "L05", [("lib/ev/ev.c", """      if (ecb_expect_true (pos + DHEAP - 1 < E))
""", """      if (ecb_expect_true (pos + DHEAP - 1 <= E))
""")], r"""
#include <stdio.h>
#include <ev.h>
static ev_timer t[5];
static int n[5];
static void cb(EV_P_ ev_timer *w, int r) { n[w - t]++; }
int main(void)
{
	static const double at[5] = { 0.05, 9, 9, 9, 0.1 };
	int i;
	ev_default_loop(0);
	for (i = 0; i < 5; i++) {
		ev_timer_init(&t[i], cb, at[i], i == 0 ? 0.2 : 0.);
		ev_timer_start(EV_DEFAULT_ &t[i]);
	}
	ev_timer_stop(EV_DEFAULT_ &t[4]);
	while (n[0] < 3 && n[4] == 0)
		ev_run(EV_DEFAULT_ EVRUN_ONCE);
	if (n[4]) {
		printf("FAIL: a stopped timer fired\n");
		return 1;
	}
	return 0;
}
""", "a heap of four timers that had five, the last of which was stopped, and a repeating one", "the heap takes back a timer that was stopped", kind="-Ilib/ev LIBS")

bug("L06d", "L06", [("lib/ev/ev_poll.c", """  base += offset;
  while (count--)
""", """  count += offset;
  while (count--)
""")], C06 + r"""
static int n, turns;
static void cb(EV_P_ ev_io *w, int r) { n++; }
static void tick(EV_P_ ev_timer *w, int r) { ev_break(EV_A_ EVBREAK_ALL); }
int main(void)
{
	int s[2];
	ev_io w, x;
	ev_timer t;
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return 2;
	if (dup2(s[1], 300) != 300) return 2;
	if (!ev_default_loop(EVBACKEND_POLL)) return 2;
	ev_io_init(&w, cb, s[0], EV_WRITE);
	ev_io_start(EV_DEFAULT_ &w);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	ev_io_init(&x, cb, 300, EV_READ);
	ev_io_start(EV_DEFAULT_ &x);
	ev_run(EV_DEFAULT_ EVRUN_NOWAIT);
	ev_io_stop(EV_DEFAULT_ &w);
	ev_timer_init(&t, tick, 0.3, 0.);
	ev_timer_start(EV_DEFAULT_ &t);
	turns = ev_iteration(EV_DEFAULT);
	ev_run(EV_DEFAULT_ 0);
	if (ev_iteration(EV_DEFAULT) - turns > 100) FAIL("the loop is busy with a descriptor nobody watches");
	return 0;
}
""", "the poll backend, and a descriptor so high that the table grows while another one is watched", "the other one's place in the table is forgotten", kind="-Ilib/ev LIBS")

bug("C03b", "C03", [("src/client/input.c", "	} while (n > 0);\n", "	} while (n == (ssize_t)sizeof(input->input));\n")], r'''
# A client that reads from a pipe that stays open: the record is submitted at once.
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
conf = os.path.join(DIR, "client.cfg")
with open(conf, "w") as f:
    f.write("identity=foo\npassword=pw\nserver=127.0.0.1\nport=%d\ntls_ciphers=%s\n" % (s.port, CIPHER))
p = subprocess.Popen([CLIENT, "-c", conf, "-C"], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
import drive
drive._procs.append(p)
time.sleep(1)
p.stdin.write(b"ABC\n")
p.stdin.flush()
got = s.got(5, want=5)
p.stdin.close()
p.wait(20)
if b"ABC\n" not in got:
    fail("the command was not submitted within 5 seconds: %r" % got)
''', "a record shorter than the read buffer that arrives after the client went to sleep, with nothing following it", "a complete record is held back until more input or its end arrives")

bug("C05b", "C05", [("src/client/conf.c", "pos >= 2 && line", "pos > 2 && line")], r'''
conf = os.path.join(DIR, "c.cfg")
with open(conf, "wb") as f:
    f.write(b"\\\nport = 1\nserver = 127.0.0.1\n")
r = subprocess.run([CLIENT, "-c", conf, "-C"], input=b"", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
if b"c.cfg" in r.stdout:
    fail("a line continued after nothing was not joined with the next one: %r" % r.stdout)
''', "a line that consists only of a backslash", "the continuation is not recognised and a valid file is refused")

bug("S10b", "S10", [("src/server/fifo.c", """		free(fifo->dump_file);
		fifo->dump_file = NULL;
""", """		free(fifo->dump_file);
""")], r'''
os.mkdir(os.path.join(DIR, "missing"))
s = Server('max_command_size = 200000\ntemp_directory = "%s/missing"\nauthorize "*" { password = "pw" commands = ".*" }\n' % DIR)
os.rmdir(os.path.join(DIR, "missing"))
c = Raw(s).moin()
c.push(b"[1] " + b"A" * 6000 + b"\n")
time.sleep(0.5)
c.push(b"[1] " + b"A" * 6000 + b"\n")
time.sleep(0.5)
c.close()
s.p.terminate()
if s.p.wait(20) < 0:
    fail("the server was ended by signal %d" % -s.p.returncode)
''', "a temporary directory that cannot be written to, then the server's shutdown", "the file name is freed twice")

bug("T04b", "T04", [("src/common/tls.c", """	tls->last_activity = ev_now(EV_A);
	result = SSL_connect""", """	result = SSL_connect""")], r'''
# A slow network: the server's half of the handshake arrives in small pieces.
import threading
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
l = socket.socket()
l.bind(("127.0.0.1", 0))
l.listen(1)
def slow():
    a = l.accept()[0]
    b = socket.create_connection(("127.0.0.1", s.port))
    def up():
        while True:
            d = a.recv(4096)
            if not d:
                break
            b.sendall(d)
    threading.Thread(target=up, daemon=True).start()
    n = 0
    while True:
        d = b.recv(4096)
        if not d:
            break
        for i in range(0, len(d), 20):
            a.sendall(d[i:i + 20])
            n += 1
            if n <= 6:
                time.sleep(0.9)
    a.close()
threading.Thread(target=slow, daemon=True).start()
class S:
    port = l.getsockname()[1]
r = send_nsca(S, b"ABC\n", ["-C", "-o", "3"], timeout=60)
if r.returncode != 0 or b"timed out" in r.stdout:
    fail("timed out although the handshake progressed every second: %r" % r.stdout)
''', "a handshake that takes longer than the timeout, without a pause that long", "an active connection of the client is timed out")

bug("S12b", "S12", [("src/server/fifo.c", "fstat(fifo->fd, &sb)", "stat(fifo->path, &sb)")], r'''
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <ev.h>
#include "fifo.h"
static int opened = -1;
/* While the server looks at the command file, it is replaced by a pipe. */
int open(const char *path, int flags, ...)
{
	int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, 0600);
	if (strcmp(path, "cmd") == 0 && opened == -1) {
		opened = fd;
		unlink("cmd");
		mkfifo("cmd", 0600);
	}
	return fd;
}
int main(void)
{
	fifo_state *f;
	struct stat sb;
	int fd = (int)syscall(SYS_openat, AT_FDCWD, "file", O_RDWR | O_CREAT, 0600);

	rename("file", "cmd");
	ev_default_loop(0);
	f = fifo_start("cmd", ".", 0);
	fifo_write(f, strdup("[1] A\n"), 6, free);
	ev_run(EVRUN_NOWAIT);
	ev_run(EVRUN_NOWAIT);
	fstat(fd, &sb);
	if (sb.st_size != 0) {
		printf("FAIL: %ld bytes were written to a regular file\n", (long)sb.st_size);
		return 1;
	}
	return 0;
}
''', "the command file being replaced between its being opened and examined", "a regular file is written to", kind="-Isrc/common -Isrc/server -Ilib -Ilib/ev src/server/fifo.c LIBS")

bug("S15b", "S15", [("lib/pidfile/flopen.c", "	flags &= ~O_TRUNC;\n", "")], r'''
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
int flopen(const char *, int, ...);
int main(void)
{
	struct stat sb;
	int other = open("pid", O_WRONLY | O_CREAT, 0600);

	/* A running server's PID file. */
	if (write(other, "1234", 4) != 4 || flock(other, LOCK_EX | LOCK_NB) != 0)
		return 0;
	if (flopen("pid", O_WRONLY | O_CREAT | O_TRUNC | O_NONBLOCK, 0600) != -1) {
		printf("FAIL: locked twice\n");
		return 1;
	}
	stat("pid", &sb);
	if (sb.st_size != 4) {
		printf("FAIL: the running server's PID file was emptied\n");
		return 1;
	}
	return 0;
}
''', "a second server started while the first one is running", "the first server's PID file is truncated", kind="-Isrc/common -Ilib -Ilib/pidfile lib/pidfile/flopen.c")

bug("S07d", "S07", [("src/server/conf.c", "hash_new((size_t)(n_auth_blocks /* Minimize collisions: */ * 1.5))", "hash_new((size_t)(unsigned char)n_auth_blocks)")], r'''
s = Server("".join('authorize "c%d" { password = "pw" commands = ".*" }\n' % i for i in range(256)))
time.sleep(0.5)
if s.p.poll() is not None:
    fail("a configuration of 256 sections is refused: %r" % s.logged()[-200:])
if Raw(s, "c255").moin().push(b"[1] A\n") != "OKAY":
    fail("not authorized")
''', "exactly 256 (or a bit more) authorize sections", "the server doesn't start")

bug("S09b", "S09", [("src/server/fifo.c", """		if (!buffers_are_empty(fifo))
			dispatch_data(fifo);
	}
""", """		if (buffer_size(fifo->output_buffer) > 0)
			dispatch_data(fifo);
	}
""")], r'''
s = Server('authorize "*" { password = "pw" commands = ".*" }\n')
c = Raw(s).moin()
s.close_reader()
if c.push(b"[1] LOST\n") != "OKAY":
    fail("command refused")
time.sleep(0.5)
s.open_reader()
got = s.got(15, want=9)
if got != b"[1] LOST\n":
    fail("the command was not delivered after the reader came back: %r" % got)
''', "a reader that goes away while a single command is being written, and comes back", "the acknowledged command stays in the server until the next one is submitted")

bug("S14c", "S14", [("src/server/nsca-ng.c", """	else if (socket_activated > 1)
		die("Received too many sockets from init system");
""", "")], r'''
conf = os.path.join(DIR, "s.cfg")
cmd = os.path.join(DIR, "cmd")
os.mkfifo(cmd)
with open(conf, "w") as f:
    f.write('command_file = "%s"\ntemp_directory = "%s"\ntls_ciphers = "%s"\nauthorize "*" { password = "pw" }\n' % (cmd, DIR, CIPHER))
socks = []
for i in range(2):
    l = socket.socket()
    l.bind(("127.0.0.1", 0))
    l.listen(1)
    l.setblocking(False)
    socks.append(l)
def take():
    a, b = os.dup2(socks[0].fileno(), 20), os.dup2(socks[1].fileno(), 21)
    os.dup2(a, 3)
    os.dup2(b, 4)
p = subprocess.Popen(["/bin/sh", "-c", 'LISTEN_PID=$$ LISTEN_FDS=2 exec "$0" -F -c "$1"', SERVER, conf], preexec_fn=take, close_fds=False,
                     stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
import drive
drive._procs.append(p)
try:
    if p.wait(5) != 1:
        fail("two sockets aren't refused, the server crashes: %d" % p.returncode)
except subprocess.TimeoutExpired:
    fail("started with two sockets, only one of which is served (or none)")
''', "two sockets handed over by the init system", "the server starts with descriptors it doesn't expect")

bug("M02b", "M02", [("python/client.c", """	SSL_clear(c->ssl);
""", "")], r'''
s = Server('timeout = 1.0\nauthorize "*" { password = "pw" commands = ".*" }\n')
m = module()
n = m.NSCAngNotifyer("127.0.0.1", s.port, "id", "pw", CIPHER)
n.host_result("h", 0, "first")
time.sleep(3) # The server times the connection out.
try:
    n.host_result("h", 0, "second")
except RuntimeError as e:
    fail("the second result was not sent over a new connection: %s" % e)
''', "a connection the server has timed out between two results of one object", "the second result cannot be submitted", kind="lib")

bug("S15c", "S15", [("lib/pidfile/pidfile.c", "			if (errno == 0 || errno == EAGAIN)\n", "			if (errno == 0)\n")], r'''
#include <sys/types.h>
#include <sys/param.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
struct pidfh;
struct pidfh *pidfile_open(const char *, mode_t, pid_t *);
int main(void)
{
	pid_t pid = 0;
	int other = open("pid", O_WRONLY | O_CREAT, 0600);

	/* A running server which has not written its PID yet. */
	if (flock(other, LOCK_EX | LOCK_NB) != 0)
		return 0;
	if (pidfile_open("pid", 0600, &pid) != NULL) {
		printf("FAIL: locked twice\n");
		return 1;
	}
	if (errno != EEXIST || pid != -1) {
		printf("FAIL: the running server was not recognised: errno %d, pid %ld\n", errno, (long)pid);
		return 1;
	}
	return 0;
}
''', "a server that holds the PID file but has not written its PID", "the running server is not recognised", kind="-Isrc/common -Ilib -Ilib/pidfile lib/pidfile/flopen.c lib/pidfile/pidfile.c")
