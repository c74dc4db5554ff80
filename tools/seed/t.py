from drive import *
s = Server('authorize "foo" { password = "pw" commands = "A.*" }\n')
c = Raw(s).moin()
print(c.push(b"[1] ABC\n"), s.got(want=8))
print(c.push(b"[1] BBC\n"))
print(c.ask(b"QUIT\r\n"), c.line())
r = send_nsca(s, b"h\ts\t0\tok\n"); print(r.returncode, r.stdout)
