"""Runs the built server and client against each other in a scratch directory."""
import os, subprocess, tempfile, shutil, socket, time, atexit, select, sys

SERVER = os.path.abspath("_build/src/server/nsca-ng")
CLIENT = os.path.abspath("_build/src/client/send_nsca")
CIPHER = "PSK-AES256-CBC-SHA"
DIR = tempfile.mkdtemp(prefix="demo.")
_procs = []

def _cleanup():
    for p in _procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    shutil.rmtree(DIR, ignore_errors=True)
atexit.register(_cleanup)

def port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    n = s.getsockname()[1]
    s.close()
    return n

def fail(why):
    print("FAIL:", why)
    sys.exit(1)

class Server:
    """A server with the given configuration text; %(dir)s is the scratch directory."""
    def __init__(self, conf, fifo=True, reader=True, args=()):
        self.port = port()
        self.cmd = os.path.join(DIR, "cmd")
        self.fd = None
        if fifo:
            os.mkfifo(self.cmd)
            if reader:
                self.open_reader()
        self.conf = os.path.join(DIR, "server.cfg")
        with open(self.conf, "w") as f:
            f.write('command_file = "%s"\nlisten = "127.0.0.1:%d"\ntls_ciphers = "%s"\ntemp_directory = "%s"\n'
                    % (self.cmd, self.port, CIPHER, DIR))
            f.write(conf)
        self.log = os.path.join(DIR, "server.log")
        self.p = subprocess.Popen([SERVER, "-F", "-l", "5", "-c", self.conf] + list(args),
                                  stdin=subprocess.DEVNULL, stdout=open(self.log, "w"), stderr=subprocess.STDOUT)
        _procs.append(self.p)
        for _ in range(100):
            if self.p.poll() is not None:
                break
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                break
            except OSError:
                time.sleep(0.05)
    def open_reader(self):
        self.fd = os.open(self.cmd, os.O_RDONLY | os.O_NONBLOCK)
    def close_reader(self):
        os.close(self.fd)
        self.fd = None
    def got(self, secs=1.0, want=None):
        """What arrives at the named pipe (until `want' bytes, or for `secs' seconds)."""
        out, end = b"", time.time() + secs
        while time.time() < end and (want is None or len(out) < want):
            try:
                b = os.read(self.fd, 65536)
            except BlockingIOError:
                b = b""
            out += b
            if not b:
                time.sleep(0.02)
        return out
    def logged(self):
        return open(self.log, errors="replace").read()

class Raw:
    """A TLS connection on which any bytes can be sent."""
    def __init__(self, server, ident="foo", pw="pw"):
        self.p = subprocess.Popen(["openssl", "s_client", "-quiet", "-connect", "127.0.0.1:%d" % server.port, "-tls1_2",
                                   "-cipher", CIPHER + ":@SECLEVEL=0", "-psk", pw.encode().hex(), "-psk_identity", ident],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        _procs.append(self.p)
        self.buf = b""
    def send(self, data):
        self.p.stdin.write(data)
    def line(self, secs=5.0):
        """The next line, None at the end of the connection, or "" if nothing comes."""
        end = time.time() + secs
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                return ""
            if select.select([self.p.stdout], [], [], left)[0]:
                b = os.read(self.p.stdout.fileno(), 4096)
                if not b:
                    return None
                self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        return l.rstrip(b"\r").decode("latin1")
    def ask(self, data, secs=5.0):
        self.send(data)
        return self.line(secs)
    def moin(self):
        r = self.ask(b"MOIN 1 demo\r\n")
        if r != "MOIN 1":
            fail("handshake: %r" % r)
        return self
    def push(self, data):
        r = self.ask(b"PUSH %d\r\n" % len(data))
        return self.ask(data) if r == "OKAY" else r
    def close(self):
        self.p.kill()
        self.p.wait()

def send_nsca(server, data, args=(), ident="foo", pw="pw", timeout=20):
    conf = os.path.join(DIR, "client.cfg")
    with open(conf, "w") as f:
        f.write("identity=%s\npassword=%s\nserver=127.0.0.1\nport=%d\ntls_ciphers=%s\n" % (ident, pw, server.port, CIPHER))
    return subprocess.run([CLIENT, "-c", conf] + list(args), input=data, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
