exec(open('/tmp/seed/drive.py').read())
port_ = port()
sv = subprocess.Popen(["openssl", "s_server", "-quiet", "-accept", "127.0.0.1:%d" % port_, "-tls1_2", "-nocert", "-psk", b"pw".hex(),
                       "-psk_identity", "foo", "-cipher", CIPHER + ":@SECLEVEL=0"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
time.sleep(1)
class S: port = port_
import threading
def serve():
    for l in sv.stdout:
        print("got",l)
        a = {b"MOIN": b"MOIN 1\r\n", b"PUSH": b"HMMM\r\n"}.get(l[:4])
        if a: sv.stdin.write(a)
threading.Thread(target=serve, daemon=True).start()
r = send_nsca(S, b"[1] ABC\n", ["-C", "-o", "5"])
print(r.returncode, r.stdout)
sv.kill()
