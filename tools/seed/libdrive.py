"""Loads the Perl or Python client library and talks to a server played by the demo."""
import ctypes, subprocess, threading
from drive import *
from drive import _procs

def lib(name, *flags):
    """The client library as a shared object."""
    so = os.path.join(DIR, name + ".so")
    subprocess.run(["gcc", "-w", "-g", "-shared", "-fPIC", "-o", so, name + "/client.c"] + list(flags) + ["-lssl", "-lcrypto"], check=True)
    l = ctypes.CDLL(so)
    l.nscang_client_errstr.restype = ctypes.c_char_p
    return l

def module():
    """The Python module."""
    import sysconfig, importlib.util
    so = os.path.join(DIR, "nscang.so")
    subprocess.run(["gcc", "-w", "-g", "-shared", "-fPIC", "-I" + sysconfig.get_paths()["include"], "-o", so,
                    "python/nscang.c", "python/client.c", "-lssl", "-lcrypto"], check=True)
    spec = importlib.util.spec_from_file_location("nscang", so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m

class Client:
    def __init__(self, l, port, ident=b"id", pw=b"pw"):
        self.l = l
        self.c = ctypes.create_string_buffer(8192)
        if l.nscang_client_init(self.c, b"127.0.0.1", port, CIPHER.encode(), ident, pw) != 1:
            fail("client init: " + self.err())
    def push(self, host, service, status, text, timeout=2):
        return self.l.nscang_client_send_push(self.c, host, service, status, text, timeout)
    def command(self, text, timeout=2):
        return self.l.nscang_client_send_command(self.c, text, timeout)
    def err(self):
        b = ctypes.create_string_buffer(200)
        return self.l.nscang_client_errstr(self.c, b, 200).decode("latin-1")

class Fake:
    """A server that answers with the given lines, one per request (data counts as one); None: no answer."""
    def __init__(self, answers, pw="pw", ident="id", fork=False):
        self.port = port()
        self.got = []
        self.p = subprocess.Popen(["openssl", "s_server", "-accept", "127.0.0.1:%d" % self.port, "-psk", pw.encode().hex(), "-psk_identity", ident,
                                   "-nocert", "-tls1_2", "-cipher", CIPHER + ":@SECLEVEL=0", "-quiet"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _procs.append(self.p)
        for _ in range(100):
            with open("/proc/net/tcp") as f:
                if (":%04X 00000000:0000 0A" % self.port) in f.read():
                    break
            time.sleep(0.05)
        if not fork:
            threading.Thread(target=self.run, args=(list(answers),), daemon=True).start()
        elif os.fork() == 0: # (The module keeps other threads from running.)
            try:
                self.run(list(answers))
            finally:
                os._exit(0)
    def run(self, answers):
        for a in answers:
            self.got.append(self.p.stdout.readline())
            if a is not None:
                try:
                    self.p.stdin.write(a)
                    self.p.stdin.flush()
                except OSError:
                    return
