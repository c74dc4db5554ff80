from driver import Job as J
PROPS = {}
def P(pid, jobs, assumes=()):
    PROPS[pid] = dict(jobs=jobs, assumes=list(assumes))

BUF = ["src/common/buffer.c", "lib/wrappers.c"]
STD = ("libc.c", "both_log.c")
P("T01", [
    J("ops4", "t01_buffer.c", BUF, STD, part="common", defs=["K=4", "NMAX=6"], leak=True,
      scale={"src/common/buffer.c": {"BUFFER_BLOCK_SIZE": 4}},
      bounds="4 operations of any kind, up to 6 bytes each, every terminator, block size scaled from 128 to 4"),
    J("sizes", "t01_buffer.c", BUF, STD, part="common", defs=["K=4", "NMAX=300", "SIZES", "TERM=';'"], leak=True,
      bounds="an addition and 3 operations of any kind, 1 to 300 bytes each (5 sizes), two of which are arbitrary, block size as it is"),
])

SRV = ["src/server/server.c", "src/server/auth.c", "src/server/hash.c", "src/common/util.c", "lib/wrappers.c"]
LOGT = ["VP_LOG_LEVEL=5", "VP_LOG_TOUCH"]
def srvjob(name, mode, **kw):
    d = kw.pop("d", [])
    return J(name, "s_server.c", SRV, STD, defs=["MODE=%d" % mode] + d + LOGT, leak=True, **kw)
SRVA = ["the TLS layer behaves as T01-T05 establish (stand-in harness/h_tls.h)", "a pattern match has any outcome the solver chooses, one per pattern and command"]
P("S01", [srvjob("push%d" % v, 1, d=["VARY=%d" % v, "NB=6", "REP=1"],
                 bounds="every data block of 1 to 6 bytes, every one-byte identity against sections a, b and *, present or not; 0 to 2 patterns in one of the three pattern lists, one in the others") for v in (0, 1, 2)] +
  [srvjob("push-long%d" % v, 1, d=["VARY=%d" % v, "NB=9", "REP=1"], tier="thorough", timeout=900, bounds="as above with up to 9 bytes") for v in (0, 1, 2)], SRVA)
P("S02", [srvjob("twice", 1, d=["VARY=2", "NB=4", "REP=2"], timeout=300,
                 bounds="two submissions of 1 to 4 arbitrary bytes each on one connection, every pattern outcome"),
          srvjob("pair", 4, d=["K=5"], bounds="two connections, 5 steps of either one in any order: an announcement, its data (one byte arbitrary), QUIT or an error"),
          srvjob("pair7", 4, d=["K=7"], tier="thorough", timeout=900, bounds="7 steps"),
          srvjob("sizes", 1, d=["VARY=9", "SIZES", "REP=1"], timeout=300, bounds="a submission of 64 to 5000 bytes, around the powers of two, with a timestamp of 0 to 255 bytes and one arbitrary byte at one of 9 places"),
          srvjob("huge", 1, d=["VARY=9", "SIZES", "HUGE_SIZES", "REP=1"], timeout=300, bounds="a submission of 32768 to 70001 bytes (3 lengths), one byte of it arbitrary (2 places)"),
          srvjob("long", 1, d=["VARY=9", "NB=9", "REP=1"], timeout=300, bounds="one submission of 1 to 9 arbitrary bytes"),
          srvjob("three", 1, d=["VARY=9", "NB=4", "REP=3"], tier="thorough", timeout=900, bounds="three submissions")], SRVA)
P("S03", [srvjob("session", 2, d=["K=3", "LMAX=8"],
                 bounds="3 steps, one of them any line of up to 8 bytes, the others any of 8 typical lines, an error, a timeout or an over-long line"),
          srvjob("many", 2, d=["MANY=300"], bounds="sessions with 1 to 300 requests of one kind or of four in turn (5 numbers), then any two of 8 typical lines"),
          srvjob("session4", 2, d=["K=4", "LMAX=9"], tier="thorough", timeout=900, bounds="4 steps, lines of up to 9 bytes")], SRVA)
P("S04", [srvjob("size", 3, d=["NB=4"], bounds="every argument of up to 4 arbitrary bytes, every maximum (64 bits)"),
          srvjob("digits", 3, d=["DIGITS"], bounds="ten digit strings of 10 to 24 digits around the word-size limits with any two digits (the last and any other) arbitrary, every maximum (64 bits)"),
          srvjob("size5", 3, d=["NB=5"], tier="thorough", timeout=900, bounds="up to 5 arbitrary bytes")], SRVA)

CONF = ["src/server/conf.c", "src/server/auth.c", "src/server/hash.c", "src/common/util.c", "lib/wrappers.c"]
KINDS = ["commands", "hosts", "services"]
P("S06",
  [J(KINDS[k], "s06_pattern.c", CONF, STD, defs=["KIND=%d" % k, "TMAX=%d" % t] + LOGT) for k, t in ((0, 5), (1, 5), (2, 7))] +
  [J("all-" + KINDS[k], "s06_pattern.c", CONF, STD, defs=["KIND=%d" % k, "TMAX=%d" % t, "VMAX=3", 'ALPHABET="%s"' % a] + LOGT)
   for k, t, a in ((0, 3, "a|.*^$;"), (1, 4, "a|.*^$"), (2, 5, "a|.*@"))] +
  [J("fields-" + KINDS[k], "s06_pattern.c", CONF, STD, defs=["KIND=%d" % k, "TMAX=%d" % t, "STRICT"] + LOGT, known=("fields-" + KINDS[k], "the pattern matches the field itself")) for k, t in ((1, 6), (2, 9))])

def confjob(name, d, **kw):
    return J(name, "s_conf.c", CONF, STD, defs=d + LOGT, **kw)
P("S07", [confjob("fallback", ["MODE=7", "VALS=1"], bounds="0 to 2 sections (names *, a and b), every setting present or not in each and globally, global settings first or last, any of three identities, a submission that any one pattern matches"),
          confjob("lists", ["MODE=7", "NSEC=1", "GVALS=2", "VALS=2"], bounds="one section, 0 to 2 patterns per list in it and globally"),
          confjob("bad", ["MODE=7", "NSEC=1", "BADRE=1", "VALS=1"], bounds="one section, one invalid pattern anywhere"),
          confjob("many", ["MODE=7", "MANY", "MC_VALS=64"], bounds="1 to 60 sections (16 numbers), with or without one for everyone, any one of them with a pattern; three sections with 1 to 50 patterns (13 numbers) in one of them or globally, any one of which matches"),
          confjob("sections", ["MODE=7", "MANY", "MC_VALS=310", "NSECS=100,127,128,255,256,257,300"], bounds="100 to 300 sections (7 numbers), with or without one for everyone, one of three of them with a pattern"),
          confjob("fallback2", ["MODE=7", "VALS=2"], tier="thorough", timeout=900, bounds="two sections with up to 2 patterns per list"),
          confjob("bad2", ["MODE=7", "BADRE=1", "VALS=1"], tier="thorough", timeout=900, bounds="two sections, one invalid pattern anywhere")],
  ["a small libConfuse (harness/mini_confuse.h) that calls the code's own option tables and callbacks", "a compiled pattern matches exactly the submissions chosen for it"])
P("S08", [confjob("include", ["MODE=8", "NMAX=6", "ENTRIES=2"], bounds="a configuration file with an include directive or a configuration directory; a target that is missing, a file, a directory or something else; a directory of up to 2 entries of 5 kinds, one name of up to 6 arbitrary bytes; every file may be unparsable, the walk may fail anywhere"),
          confjob("sizes", ["MODE=8", "NMAX=255", "ENTRIES=1", "SIZES"], bounds="one entry with a name of 8 to 255 bytes (13 lengths), full of letters, quotes or backslashes, one byte arbitrary"),
          confjob("include3", ["MODE=8", "NMAX=8", "ENTRIES=3"], tier="thorough", timeout=900, bounds="up to 3 entries, one name of up to 8 arbitrary bytes"),
          confjob("name12", ["MODE=8", "NMAX=12", "ENTRIES=1"], tier="thorough", timeout=900, bounds="one entry, names of up to 12 arbitrary bytes")],
  ["nftw() reports the entries in some order, as documented", "libConfuse's scanner reads quoted strings as its 3.3 release does"])
MAIN = ["src/server/nsca-ng.c", "src/server/conf.c", "src/server/hash.c", "src/common/util.c", "lib/wrappers.c", "lib/progname.c"]
def mainjob(name, mode, d=(), **kw):
    return J(name, "s_main.c", MAIN, ("libc.c",), defs=["MODE=%d" % mode] + list(d), **kw)
MAINA = ["system calls, libev, the PID file and the server core are stand-ins that record the calls (S09-S12, S15, T04, T05 cover the real ones)"]
P("S13", [mainjob("privileges", 13, bounds="user, chroot (up to 2 arbitrary bytes each) and PID file configured or not, every user and group ID (32 bits each), foreground or not, socket activated or not, one failing step anywhere"),], MAINA)
P("S14", [mainjob("settings", 14, bounds="each option once, twice or not, and in the configuration or not, with texts of up to 2 arbitrary bytes; every number (64 bits); -s, -S and -F in every combination; socket activated or not"),
          mainjob("settings5", 14, ["SMAX=5"], tier="thorough", timeout=900, bounds="texts of up to 5 arbitrary bytes")], MAINA)
P("S16", [mainjob("signals", 16, bounds="each of the three signals, 7 watchdog settings, PID file or not, one failing step anywhere")], MAINA)
P("C09", [mainjob("server", 9, bounds="a global password or none, one or two sections with or without password, passwords of up to 3 arbitrary bytes, each signal, one failing step anywhere"),
          mainjob("server-sizes", 9, ["SIZES", "MC_VALS=20"], bounds="1 to 17 sections (5 numbers), with and without a global password, one password of 0 to 600 bytes (11 lengths), each signal, one failing step anywhere"),
          mainjob("server8", 9, ["PWMAX=8"], tier="thorough", timeout=900, bounds="passwords of up to 8 bytes")], MAINA)

FIFO = ["src/server/fifo.c"] + BUF
def fifojob(name, mode, sizes, k, blk=4, pb=40, sync=False, **kw):
    d = kw.pop("d", [])
    kw.setdefault("bounds", "%d events of any kind after the start (submission of %s bytes, retry timer, pipe writable, temporary file written), every outcome of every system call, PIPE_BUF %s %d, buffer blocks %d; then stop or drain" % (k, " or ".join(map(str, sizes)), "as usual" if pb == 4096 else "scaled to", pb, blk))
    return J(name, "s_fifo.c", FIFO, STD, defs=["MODE=%d" % mode, "PB=%d" % pb, "K=%d" % k, "SIZES=" + ",".join(map(str, sizes))] + d + LOGT,
             leak=True, pre=["vp_pipebuf.h"], include=["config-noaio"] if sync else [], scale={"src/common/buffer.c": {"BUFFER_BLOCK_SIZE": blk}}, **kw)
P("S09", [fifojob("small", 9, [1, 3], 5), fifojob("copied", 9, [3, 40], 4, d=["NOFREE"]), fifojob("full", 9, [1, 4095, 4096], 4, blk=128, pb=4096, d=["QMAX=20000"]),
            fifojob("small7", 9, [1, 3], 7, tier="thorough", timeout=900),
            fifojob("many", 9, [3], 2, blk=128, pb=4096, d=["MANY=200", "QMAX=2000", "DRAIN=260"],
              bounds="1 to 200 submissions of 3 bytes (4 numbers) with a reader that keeps up, that doesn't read, or without any; then two events as above"),
            fifojob("mixed", 9, [1, 20, 40], 5, tier="thorough", timeout=900)])
P("S10", [fifojob("aio", 10, [20, 40, 41], 4, blk=16), fifojob("sync", 10, [20, 40, 41], 4, blk=16, sync=True),
            fifojob("full", 10, [4000, 4096, 5000], 3, blk=128, pb=4096, d=["QMAX=20000"]), fifojob("sync-full", 10, [4000, 4096, 4097], 3, blk=128, pb=4096, sync=True, d=["QMAX=20000"]),
            fifojob("huge", 10, [65536, 70001], 2, blk=128, pb=4096, d=["QMAX=300000"]), fifojob("sync-huge", 10, [65536, 70001], 2, blk=128, pb=4096, sync=True, d=["QMAX=300000"]),
            fifojob("aio5", 10, [20, 40, 41], 5, blk=16, tier="thorough", timeout=900), fifojob("sync5", 10, [20, 41], 5, blk=16, sync=True, tier="thorough", timeout=900)])
P("S12", [fifojob("open", 12, [2], 4), fifojob("open5", 12, [2], 5, tier="thorough", timeout=900)])
P("S11", [J("backlog", "s11_backlog.c", ["src/server/fifo.c", "lib/wrappers.c"], STD, defs=["K=4"] + LOGT, srcflags=["-Dmalloc=n_malloc"],
            bounds="a maximum of 0 to 2^43 MB, 4 submissions of 1 to 2^40 bytes (every size), handed over or copied; command file absent, or full with a temporary file in flight"),
          J("backlog6", "s11_backlog.c", ["src/server/fifo.c", "lib/wrappers.c"], STD, defs=["K=6"] + LOGT, srcflags=["-Dmalloc=n_malloc"], tier="thorough", timeout=900, bounds="6 submissions")])

TLS = ["src/common/tls.c"] + BUF
def tlsjob(name, harness, d, lmax=8, lbuf=2, blk=4, src=(), **kw):
    kw.setdefault("leak", True)
    return J(name, harness, TLS + list(src), STD, part=kw.pop("part", "server"), defs=["LMAX=%d" % lmax, "LGOOD=%d" % (lmax // 2)] + d + LOGT,
             scale={"src/common/buffer.c": {"BUFFER_BLOCK_SIZE": blk}, "src/common/tls.c": {"LINE_MAX_SIZE": lmax, "LINE_BUFFER_SIZE": lbuf}}, **kw)
P("T02", [tlsjob("mixed", "t02_read.c", ["K=3", "NS=5", "BMAX=2", "WANTS=1"], lmax=4),
           tlsjob("mixed6", "t02_read.c", ["K=3", "NS=6", "BMAX=3", "WANTS=1"], lmax=4),
           tlsjob("lines", "t02_read.c", ["K=4", "NS=7", "BMAX=0", "WANTS=1"], lmax=4),
           J("huge", "t02_read.c", TLS, STD, part="server", leak=True, defs=["SIZES", "HUGE_SIZES", "K=2", "NS=150000", "BMAX=1", "WANTS=0"] + LOGT,
             bounds="two requests, each a line (up to 70000 bytes) or a block of up to 70001 bytes (5 sizes), arriving 1000 to 65536 bytes at a time"),
           J("sizes", "t02_read.c", TLS, STD, part="server", leak=True, defs=["SIZES", "K=2", "NS=10000", "BMAX=1", "WANTS=0"] + LOGT,
             bounds="two requests, each a line of 0 to 2200 bytes (9 lengths) or a block of 1 to 4999 bytes (7 sizes), arriving 100 to 5000 bytes at a time; line limit, line and block buffers as they are; first and last bytes arbitrary"),
           tlsjob("long", "t02_read.c", ["K=1", "NS=10", "BMAX=0", "WANTS=2"], lmax=8, lbuf=3)])
P("T03", [tlsjob("send", "t03_write.c", ["STEPS=4", "WMAX=2", "WANTS=1", "PARTS=1"]),
          tlsjob("send2", "t03_write.c", ["STEPS=3", "WMAX=3", "WANTS=2", "PARTS=2"]),
          J("huge", "t03_write.c", TLS, STD, part="server", leak=True, defs=["SIZES", "HUGE_SIZES", "STEPS=3", "WMAX=70001", "WANTS=1", "PARTS=1"] + LOGT,
            bounds="up to 3 texts of 1, 65536 or 70001 bytes, sent as they are or 65536 bytes at first"),
          J("sizes", "t03_write.c", TLS, STD, part="server", leak=True, defs=["SIZES", "STEPS=3", "WMAX=5000", "WANTS=1", "PARTS=1"] + LOGT,
            bounds="up to 3 texts, the first one of 125 to 5000 bytes (7 sizes), the others of 1 or 130,, block size as it is, one deferred and one partial write; the first bytes and the last one arbitrary"),
          tlsjob("duplex", "t03_write.c", ["STEPS=3", "WMAX=2", "WANTS=1", "PARTS=1", "WITH_READ"])])
PH = ["handshake", "reading", "writing", "shutdown", "duplex"]
P("T04", [tlsjob(PH[i], "t04_timeout.c", ["PHASE=%d" % i, "K=%d" % (2 if i == 4 else 3), "TICKS=40"], timeout=120) for i in range(5)] +
         [tlsjob("client-" + PH[i], "t04_timeout.c", ["PHASE=%d" % i, "CLIENT=1", "K=2", "TICKS=40"], part="client") for i in (0, 4)] +
         [tlsjob("send_nsca-" + PH[i], "t04_timeout.c", ["PHASE=%d" % i, "CLIENT=2", "K=%d" % (2 if i == 4 else 3), "TICKS=40"], part="client") for i in (0, 1, 2, 4)] +
         [tlsjob(PH[i] + "4", "t04_timeout.c", ["PHASE=%d" % i, "K=4", "TICKS=40"], tier="thorough", timeout=900) for i in range(5)])
SESS = ["src/server/server.c", "src/server/auth.c", "src/server/hash.c", "src/common/util.c"]
P("T05", [tlsjob("start", "t05_teardown.c", ["MODE=0", "K=4"], lmax=20, lbuf=12, src=SESS),
          tlsjob("session", "t05_teardown.c", ["MODE=1", "K=5"], lmax=20, lbuf=12, src=SESS),
          tlsjob("renegotiation", "t05_teardown.c", ["MODE=2", "K=4"], lmax=20, lbuf=12, src=SESS),
          tlsjob("start5", "t05_teardown.c", ["MODE=0", "K=5"], lmax=20, lbuf=12, src=SESS, tier="thorough", timeout=900),
          tlsjob("session6", "t05_teardown.c", ["MODE=1", "K=6", "LINES=4"], lmax=20, lbuf=12, src=SESS, tier="thorough", timeout=900)])
END = TLS + ["src/server/server.c", "src/server/auth.c", "src/server/hash.c", "src/common/util.c", "src/server/fifo.c"]
def endjob(name, d, bounds, **kw):
    return J(name, "e01_end.c", END, STD, part="server", defs=d + LOGT, leak=True, bounds=bounds, **kw)
EB = "two clients, %s commands with one arbitrary byte each, each permitted or not, any order of their messages, the pipe's events and retries; "
P("E01", [endjob("faults1", ["CMDS=1,1", "FAULTS=1"], EB % "1 + 1" + "one failure (lost connection, split message, delayed or split response, absent reader, full or broken pipe) anywhere"),
          endjob("faults1b", ["CMDS=2,1", "FAULTS=1"], EB % "2 + 1" + "one failure anywhere"),
          endjob("faults2", ["CMDS=1,1", "FAULTS=2"], EB % "1 + 1" + "two failures anywhere", tier="thorough", timeout=900)])
def bothjob(name, d, bounds, **kw):
    return J(name, "e02_both.c", END, STD, part="both", private=TLS + ["src/common/util.c", "src/client/client.c", "src/client/parse.c", "src/client/input.c"], exported=["client_start", "client_stop"],
             defs=d + LOGT, leak=True, bounds="two check results with one arbitrary byte each, each permitted or not; whatever is ready happens in any order; " + bounds, **kw)
P("E02", [bothjob("both", ["FAULTS=1"], "one failure (lost connection, delayed or partial transfer, absent reader, full or broken pipe) anywhere"),
          bothjob("both2", ["FAULTS=2"], "two of these failures"), bothjob("commands", ["FAULTS=1", "COMMANDS=1"], "commands instead of check results, one failure"), bothjob("both3", ["FAULTS=3"], "three of these failures", tier="thorough", timeout=900)])
OOMF = lambda p: ["-D%s=%s_%s" % (f, p, f) for f in ("malloc", "calloc", "realloc", "strdup", "vasprintf", "asprintf")]
P("T06", [tlsjob("server", "t06_setup.c", ["MODE=0"], bounds="listening addresses of 1 to 3 arbitrary bytes or descriptor=3 to 9, cipher lists of 1 to 3 arbitrary bytes, with or without a timeout, one failing step anywhere"),
          tlsjob("client", "t06_setup.c", ["MODE=1"], part="client", bounds="server names of 1 to 4 arbitrary bytes, cipher lists of 1 to 3 arbitrary bytes, with or without a timeout, one failing step anywhere, up to 2 waits in the handshake")],
  ["OpenSSL's contexts and BIOs behave as documented (stand-ins in harness/t06_setup.c, bind mode and accept mode as in OpenSSL 3)", "an inherited socket is non-blocking already (NonBlocking=true in the service unit)"])
P("T07", [tlsjob("accept", "t06_setup.c", ["MODE=2", "NCONN=2", "ROUNDS=2"], bounds="2 connections arriving in any grouping, each good or failing in one of 3 ways (aborted, no peer address or an unknown family, no SSL object), IPv4 or IPv6, any one-byte identity, descriptors exhausted in any round"),
          tlsjob("many", "t06_setup.c", ["MODE=2", "NCONN=150", "ROUNDS=2", "MANY", "HE_MAX=400", "HE_ROUNDS=1000"], bounds="150 connections, one, seven or all at a time; good, mixed or mostly bad; handshakes finished at once or later; sessions that go on, end at once or end later; any one-byte identity of two of them; no descriptors in every tenth round or the first ones"),
          tlsjob("accept3", "t06_setup.c", ["MODE=2", "NCONN=3", "ROUNDS=3"], tier="thorough", timeout=900, bounds="3 connections")],
  ["OpenSSL's contexts and BIOs behave as documented (stand-ins in harness/t06_setup.c)"])
AUTH = ["src/server/auth.c", "src/server/hash.c", "src/common/util.c"]
P("S05", [J("callback", "s05_psk.c", AUTH + ["lib/wrappers.c"], STD, defs=["IMAX=2", "PMAX=2", "BMAX=3", "REP=2"] + LOGT, leak=True,
            bounds="sections a, bc and *, each present or not, passwords of 0 to 2 arbitrary bytes, 2 requests with identities of 0 to 2 arbitrary bytes and key buffers of 0 to 3 bytes, storing the identity may fail"),
          J("long", "s05_psk.c", AUTH + ["lib/wrappers.c"], STD, defs=["IMAX=3", "PMAX=5", "BMAX=6", "REP=1"] + LOGT, leak=True,
            bounds="one request, identities of up to 3 bytes, passwords of up to 5, buffers of up to 6"),
          tlsjob("handshake", "s05_psk.c", ["VIA_TLS", "IMAX=2", "PMAX=1", "BMAX=2", "REP=2"], lmax=20, lbuf=12, src=AUTH,
            bounds="1 or 2 key requests during one handshake"),
          J("sizes", "s05_psk.c", AUTH + ["lib/wrappers.c"], STD, defs=["SIZES", "IMAX=256", "PMAX=600", "BMAX=512", "REP=1"] + LOGT, leak=True,
            bounds="one request, identities of 1 to 256, passwords of 1 to 600 and key buffers of 64 to 512 bytes, around the powers of two, the first and last byte arbitrary"),
          J("callback3", "s05_psk.c", AUTH + ["lib/wrappers.c"], STD, defs=["IMAX=3", "PMAX=2", "BMAX=3", "REP=3"] + LOGT, leak=True, tier="thorough", timeout=900,
            bounds="3 requests, identities of up to 3 bytes")])
def logjob(name, d, buf, bounds, **kw):
    return J(name, "l01_log.c", ["src/common/log.c"], ("libc.c",), part="common", defs=d, cflags=["-DLOG_BUFFER_SIZE=%d" % buf], bounds=bounds, **kw)
P("L01", [logjob("levels", ["NT=1", "SMAX=9", "EMAX=2"], 8, "every level, threshold and combination of targets; formats of up to 1 piece"),
          logjob("format", ["NT=3", "SMAX=3", "EMAX=2", "FIXED"], 8,
            "formats of up to 3 pieces (any character, %m, %%, m, %s, %d), arguments of up to 3 and error texts of up to 2 bytes; message buffer scaled from 768 to 8 bytes"),
          logjob("format9", ["NT=3", "SMAX=3", "EMAX=3", "FIXED"], 9, "the same with up to 3 bytes"),
          logjob("edge", ["NT=2", "SMAX=1", "EMAX=4", "PREFIX=512", "FIXED"], 768, "formats of 504 to 512 constant characters and up to 2 pieces (the format buffer has 512 bytes)"),
          logjob("format4", ["NT=4", "SMAX=3", "EMAX=3", "FIXED"], 10, "up to 4 pieces", tier="thorough", timeout=900)])
UTIL = ["src/common/util.c", "lib/wrappers.c"]
P("L02", [J("simple", "l02_util.c", UTIL, STD, part="common", defs=["OP=0", "SMAX=5"] + LOGT, leak=True, bounds="strings of up to 5 arbitrary bytes"),
          J("split", "l02_util.c", UTIL, STD, part="common", defs=["OP=1", "SMAX=9", "AMAX=4"] + LOGT, leak=True, bounds="lines of up to 9 arbitrary bytes, 0 to 4 requested arguments"),
          J("sizes", "l02_util.c", UTIL, STD, part="common", defs=["OP=0", "SIZES"] + LOGT, leak=True, bounds="strings of 0 to 2900 bytes (14 lengths) that start with 0 to 257 newlines or blanks (8 numbers), first and last byte arbitrary"),
          J("split-sizes", "l02_util.c", UTIL, STD, part="common", defs=["OP=1", "SIZES", "AMAX=4"] + LOGT, leak=True, bounds="lines of 0 to 257 words of up to 257 bytes, 1 to 256 blanks before each, 0 to 4 requested arguments"),
          J("simple8", "l02_util.c", UTIL, STD, part="common", defs=["OP=0", "SMAX=8"] + LOGT, leak=True, tier="thorough", timeout=900, bounds="strings of up to 8 arbitrary bytes"),
          J("split12", "l02_util.c", UTIL, STD, part="common", defs=["OP=1", "SMAX=12", "AMAX=5"] + LOGT, leak=True, tier="thorough", timeout=900, bounds="lines of up to 12 arbitrary bytes")])
RPL = ["-Dstrcasecmp=rpl_strcasecmp", "-Dstrncasecmp=rpl_strncasecmp", "-Dstrdup=rpl_strdup", "-Dsetprogname=rpl_setprogname", "-Dgetprogname=rpl_getprogname", "-Ddaemon=rpl_daemon", "-Dflock=rpl_flock", "-DHAVE_PATHS_H=1"]
def strjob(name, op, src, n, bounds, **kw):
    return J(name, "l04_string.c", ["lib/%s.c" % x for x in src], ("libc.c",), part="common", defs=["OP=%d" % op, "SMAX=%d" % n], cflags=RPL, leak=True, bounds=bounds, **kw)
P("L04", [strjob("strcasecmp", 0, ["strcasecmp"], 5, "every pair of strings of up to 5 bytes"),
          strjob("strncasecmp", 1, ["strncasecmp"], 4, "every pair of strings of up to 4 bytes, every limit (64 bits); unterminated strings of up to 3 bytes"),
          strjob("strdup", 2, ["strdup", "progname"], 6, "every string of up to 6 bytes"),
          strjob("daemon", 3, ["daemon"], 1, "every outcome of fork, setsid and open"),
          strjob("flock", 4, ["pidfile/flock"], 1, "every descriptor and operation (32 bits each), success or any error"),
          strjob("strcasecmp12", 0, ["strcasecmp"], 12, "strings of up to 12 bytes", tier="thorough", timeout=900),
          strjob("strncasecmp10", 1, ["strncasecmp"], 10, "strings of up to 10 bytes", tier="thorough", timeout=900)])
PRF = ["-Dsnprintf=rpl_snprintf", "-Dvsnprintf=rpl_vsnprintf", "-Dasprintf=rpl_asprintf", "-Dvasprintf=rpl_vasprintf"]
def prfjob(name, op, d, bounds, **kw):
    return J(name, "l03_xprintf.c", ["lib/xprintf.c"], ("libc.c",), part="common", defs=["OP=%d" % op] + d, srcflags=PRF + kw.pop("sf", []), include=["config-xprintf"], leak=True, bounds=bounds, **kw)
P("L03", [prfjob("flags", 0, ["WMAX=4", "PMAX=3", "STARS=0", "BYTE"], "every combination of flags, widths up to 4, precisions up to 2, d, i, u, o, x and X; octal and hexadecimal values of one arbitrary byte, 7 decimal values"),
          prfjob("stars", 0, ["WMAX=3", "PMAX=3", "FLAGS=6", "BYTE"], "widths of -3 to 3 and precisions of -1 to 2, in the format or as arguments"),
          prfjob("decimal", 0, ["FLAGS=0", "DECIMAL=1"], "every decimal value from -255 to 255"),
          prfjob("sizes", 0, ["MODS", "FLAGS=0"], "every length modifier; octal and hexadecimal values of one arbitrary byte at any place among zeros or ones, 18 decimal values around the limits of the types"),
          prfjob("truncated", 0, ["FLAGS=2", "WMAX=5", "SLACK=7", "BYTE", "STARS=0"], "buffers of 0 to 7 bytes, widths up to 5"),
          prfjob("texts", 1, ["WMAX=4", "PMAX=3"], "every string of up to 3 bytes and every character, widths of -4 to 4, precisions of -1 to 2"),
          prfjob("texts-truncated", 1, ["WMAX=4", "PMAX=2", "SLACK=7"], "buffers of 0 to 7 bytes"),
          prfjob("wide", 0, ["WMAX=12", "PMAX=12", "FLAGS=6", "BYTE", "STARS=0"], "widths and precisions of up to 2 digits, to 12"),
          prfjob("flags8", 0, ["WMAX=9", "PMAX=8", "BYTE"], "every combination of flags, widths up to 9 and precisions up to 7, in the format or as arguments", tier="thorough", timeout=900),
          prfjob("several", 2, [], "two formats of three conversions in one format, all four functions, memory running out", sf=["-Dmalloc=n_malloc"])])
EVD = ["EV_STANDALONE=1", "EV_USE_EPOLL=0", "EV_USE_SELECT=0", "EV_USE_INOTIFY=0", "EV_USE_SIGNALFD=0", "EV_USE_EVENTFD=0", "EV_USE_TIMERFD=0",
       "EV_USE_LINUXAIO=0", "EV_USE_IOURING=0", "EV_USE_CLOCK_SYSCALL=0", "EV_USE_MONOTONIC=1", "EV_USE_REALTIME=1", "EV_USE_FLOOR=0", "ECB_NO_THREADS=1"]
def evjob(name, d, bounds, harness="l05_timers.c", **kw):
    f = ["-D" + x for x in EVD] + ["-include", "evts.h", "-w"]
    return J(name, harness, ["lib/ev/ev.c"], ("libc.c",), part="common", defs=d + EVD, srcflags=f, include=["config-ev"], leak=kw.pop("leak", False), bounds=bounds, **kw)
P("L05", [evjob("histories", ["TIMERS=3", "START=2", "REPEAT=2", "STEPS=2", "RANGE=40"], "three timers, two of them started before, two starts, stops or restarts, each followed by a turn of the loop after one of four times or not; delays of 0 to 40 ms"),
          evjob("heap", ["TIMERS=6", "START=6", "REPEAT=0", "STEPS=1", "RANGE=15", "HEAP"], "six timers with delays of 0 to 15 ms, any of them stopped"),
          evjob("deep", ["TIMERS=10", "START=10", "REPEAT=0x262", "STEPS=1", "RANGE=127", "FIXED={ 0, 50, 10, 20, 30, 60, 61, 62, -1, -1 }", "HEAP"], "ten timers (three levels of the heap), two of them with delays of 0 to 127 ms, any of them stopped or restarted"),
          evjob("callbacks", ["TIMERS=3", "START=3", "REPEAT=4", "STEPS=1", "IN_CALLBACK=1", "RANGE=15"], "three timers, one of them stopped, started or restarted while another one fires"),
          evjob("sleep", ["TIMERS=2", "START=2", "REPEAT=2", "STEPS=2", "SLEEP", "RANGE=7"], "two timers, two operations and turns which may sleep, late by 0 or 1 ms"),
          evjob("many", [], "200 timers with growing, shrinking, equal or mixed delays and one of 0 to 255 ms, every seventh stopped and half of these restarted, or a third or all of them stopped while one fires; five turns", harness="l05_many.c"),
          evjob("histories3", ["TIMERS=3", "START=1", "REPEAT=1", "STEPS=3", "RANGE=25"], "three operations", tier="thorough", timeout=900),
          evjob("deep3", ["TIMERS=10", "START=10", "REPEAT=0x262", "STEPS=1", "RANGE=127", "FIXED={ 0, 50, 10, 20, 30, 60, -1, 62, -1, -1 }", "HEAP"], "three of ten timers with arbitrary delays", tier="thorough", timeout=900),
          evjob("callbacks2", ["TIMERS=3", "START=3", "REPEAT=5", "STEPS=2", "IN_CALLBACK=1", "RANGE=7"], "two turns with an operation each", tier="thorough", timeout=900)])
# As configured by the repository: one loop, three priorities; on epoll or poll, with stand-ins below.
EVI = [x for x in EVD if "EPOLL" not in x and "SELECT" not in x] + ["EV_USE_EPOLL=1", "EV_USE_SELECT=1", "EV_MULTIPLICITY=0", "EV_MINPRI=-1", "EV_MAXPRI=1", "EV_COMPAT3=0", "EV_VERIFY=0", "EV_CHILD_ENABLE=0"]
def iojob(name, d, bounds, harness="l06_io.c", **kw):
    f = ["-D" + x for x in EVI] + ["-include", "evts.h", "-w"]
    return J(name, harness, ["lib/ev/ev.c"], ("libc.c",), part="common", defs=d + EVI, srcflags=f, include=["config-ev"], bounds=bounds, **kw)
IOB = "descriptors with any readiness or error in each turn, started watchers with any direction; "
MANYFD = "150 descriptors, every third number up to 451, a watcher each, started upwards or downwards, any readiness of three and all, half or none of the others ready; two of them, every other one or all but one stopped by the program or a callback, and started again; %s"
P("L06", [iojob("epoll", ["EPOLL", "STARTED=2", "OPS=2", "TURNS=1"], IOB + "epoll, 2 descriptors, 3 watchers of different priorities, 2 operations (start, stop, feed an event, descriptor replaced by another one or by a file), 3 turns of the loop"),
          iojob("epoll2", ["EPOLL", "STARTED=2", "OPS=1", "TURNS=2"], IOB + "one operation before each of 2 turns, 4 turns altogether"),
          iojob("epoll-callbacks", ["EPOLL", "STARTED=3", "OPS=0", "CBOPS=1", "TURNS=1"], IOB + "one operation in a callback in each of 3 turns"),
          iojob("epoll-files", ["EPOLL", "STARTED=2", "OPS=1", "CBOPS=0", "TURNS=2", "FILES"], IOB + "one of the descriptors is a file, which epoll refuses"),
          iojob("epoll-file", ["EPOLL", "FDS=1", "WATCHERS=1", "STARTED=1", "OPS=1", "TURNS=5", "FILES"], IOB + "one file (replaced or not) and one watcher, an operation before each of 5 turns"),
          iojob("epoll-reopen", ["EPOLL", "FDS=1", "WATCHERS=2", "OPS=2", "TURNS=2"], IOB + "one descriptor, 2 watchers, 2 operations before each of 2 turns"),
          iojob("epoll-timer", ["EPOLL", "STARTED=3", "OPS=1", "TURNS=1", "WITH_TIMER"], IOB + "with a timer of low priority that is due or not"),
          iojob("poll", ["STARTED=2", "OPS=2", "TURNS=1"], IOB + "poll, 2 operations, 3 turns"),
          iojob("poll2", ["STARTED=2", "OPS=1", "TURNS=2"], IOB + "poll, one operation before each of 2 turns"),
          iojob("poll-callbacks", ["STARTED=3", "OPS=0", "CBOPS=1", "TURNS=1", "WITH_TIMER"], IOB + "poll, one operation in a callback in each turn, timer"),
          iojob("select", ["SELECT", "STARTED=2", "OPS=2", "TURNS=1"], IOB + "select, 2 operations, 3 turns"),
          iojob("select-callbacks", ["SELECT", "STARTED=3", "OPS=0", "CBOPS=1", "TURNS=1", "WITH_TIMER"], IOB + "select, one operation in a callback in each turn, timer"),
          iojob("epoll-eintr", ["EPOLL", "STARTED=2", "OPS=1", "TURNS=1", "INTR"], IOB + "one operation, 3 turns, one of them interrupted by a signal or none"),
          iojob("poll-eintr", ["STARTED=2", "OPS=1", "TURNS=1", "INTR"], IOB + "poll, one operation, 3 turns, one of them interrupted by a signal or none"),
          iojob("select-eintr", ["SELECT", "STARTED=2", "OPS=1", "TURNS=1", "INTR"], IOB + "select, one operation, 3 turns, one of them interrupted by a signal or none"),
          iojob("epoll-many", ["EPOLL"], MANYFD % "epoll (64 events at once, then more)", harness="l06_many.c"),
          iojob("poll-many", [], MANYFD % "poll", harness="l06_many.c"),
          iojob("select-many", ["SELECT"], MANYFD % "select", harness="l06_many.c"),
          iojob("epoll4", ["EPOLL", "STARTED=2", "OPS=2", "TURNS=2"], IOB + "2 operations before each of 2 turns", tier="thorough", timeout=900),
          iojob("poll4", ["STARTED=2", "OPS=2", "TURNS=2"], IOB + "poll, 2 operations before each of 2 turns", tier="thorough", timeout=900),
          iojob("epoll-files3", ["EPOLL", "STARTED=2", "OPS=1", "CBOPS=1", "TURNS=2", "FILES"], IOB + "a file, operations before the turns and in callbacks", tier="thorough", timeout=900)],
  ["epoll(7) and poll(2) behave as documented (stand-in kernel in harness/l06_io.c)", "times of the library are whole milliseconds"])
def wakejob(name, d, bounds, harness="l07_wake.c", **kw):
    ev = [x for x in EVI if "NO_THREADS" not in x and "EVENTFD" not in x] + ["EV_USE_EVENTFD=%d" % ("EVENTFD" in d)]
    # (Every memory fence is next to an access to a volatile object.)
    f = ["-D" + x for x in ev] + ["-D%s=((void)0)" % x for x in ("ECB_MEMORY_FENCE", "ECB_MEMORY_FENCE_ACQUIRE", "ECB_MEMORY_FENCE_RELEASE", "ECB_MEMORY_FENCE_RELAXED")] + ["-include", "evts.h", "-w"]
    return J(name, harness, ["lib/ev/ev.c"], ("libc.c",), part="common", defs=d + ev, srcflags=f, include=["config-ev"], bounds=bounds, volatile=True, **kw)
WB = "two signals and two asynchronous notifications, up to %s of them at any system call or access to a volatile object of the library, also while it sleeps or is in a callback, %s turns of the loop; "
WT = "%s sending %s notifications, up to %s switches between the threads at system calls and accesses to volatile objects, %s turns of the loop; "
P("L07", [wakejob("eventfd", ["EPOLL", "EVENTFD", "RAISES=2", "TURNS=2"], WB % (2, 2) + "epoll and eventfd"),
          wakejob("pipe", ["RAISES=2", "TURNS=2"], WB % (2, 2) + "poll and a pipe that holds 2 bytes"),
          wakejob("stops", ["EPOLL", "EVENTFD", "RAISES=2", "TURNS=2", "STOPS=1"], WB % (2, 2) + "one watcher stopped in a callback"),
          wakejob("many", [], "two watchers of each of 64 signals and 70 notifications, started upwards or downwards; any one, all signals or all notifications, twice, with some of the watchers stopped before or after, then everything once again; poll and a pipe", harness="l07_many.c"),
          wakejob("idle", ["EPOLL", "EVENTFD", "RAISES=2", "TURNS=3", "IDLE"], WB % (2, 3) + "an idle watcher started before any turn"),
          wakejob("watchers", ["EPOLL", "EVENTFD", "RAISES=1", "TURNS=1", "NAS=3", "OPS=3", "SAME_SIGNAL"], "two watchers for one signal and three notification watchers, three of which are stopped or started, one signal or notification"),
          wakejob("collect", ["EPOLL", "EVENTFD", "RAISES=1", "TURNS=2", "COLLECT=500"], WB % (1, 2) + "a pause before events are collected"),
          wakejob("threads", ["EPOLL", "EVENTFD", "NSIGW=0", "THREADS=1", "SENDS=2", "SWITCHES=4", "TURNS=2"], WT % ("a thread", 2, 4, 2) + "epoll and eventfd"),
          wakejob("threads2", ["NSIGW=0", "NAS=2", "THREADS=2", "SENDS=1", "SWITCHES=3", "TURNS=1"], WT % ("two threads, each", 1, 3, 1) + "poll and a pipe"),
          wakejob("eventfd3", ["EPOLL", "EVENTFD", "RAISES=3", "TURNS=2"], WB % (3, 2) + "epoll and eventfd", tier="thorough", timeout=900),
          wakejob("pipe3", ["RAISES=3", "TURNS=2"], WB % (3, 2) + "poll and a pipe", tier="thorough", timeout=900),
          wakejob("stops3", ["RAISES=2", "TURNS=3", "STOPS=2"], WB % (2, 3) + "poll and a pipe, two watchers stopped in callbacks", tier="thorough", timeout=900)],
  ["epoll(7), poll(2), eventfd(2), pipe(2) and signals behave as documented (stand-ins in harness/l07_wake.c)", "signals and other threads interfere in sequentially consistent order, and share with the loop only what is volatile"])
FB = "ev_loop_fork() once or never, before any of these operations or between any two turns or in a callback; "
P("L08", [iojob("epoll", ["EPOLL", "STARTED=2", "OPS=1", "TURNS=2", "FORKS=1", "WATCHERS=2"], FB + IOB + "epoll, 2 watchers, one operation before each of 2 turns"),
          iojob("epoll-callbacks", ["EPOLL", "STARTED=3", "OPS=0", "CBOPS=1", "TURNS=1", "FORKS=1"], FB + IOB + "epoll, an operation in a callback in each turn"),
          iojob("epoll-file", ["EPOLL", "FDS=1", "WATCHERS=1", "STARTED=1", "OPS=1", "TURNS=4", "FILES", "FORKS=1"], FB + IOB + "one file (replaced or not) and one watcher, an operation before each of 4 turns"),
          iojob("poll", ["STARTED=2", "OPS=1", "TURNS=2", "FORKS=1"], FB + IOB + "poll, one operation before each of 2 turns"),
          wakejob("eventfd", ["EPOLL", "EVENTFD", "RAISES=1", "TURNS=2", "FORKS=1"], FB + WB % (1, 2) + "epoll and eventfd"),
          wakejob("pipe", ["RAISES=1", "TURNS=2", "FORKS=1"], FB + WB % (1, 2) + "poll and a pipe"),
          wakejob("epoll-pipe", ["EPOLL", "RAISES=1", "TURNS=2", "FORKS=1"], FB + WB % (1, 2) + "epoll and a pipe"),
          wakejob("starts", ["EPOLL", "EVENTFD", "RAISES=1", "TURNS=2", "FORKS=1", "OPS=1"], FB + WB % (1, 2) + "one of the watchers stopped or started before each turn; epoll and eventfd"),
          wakejob("eventfd2", ["EPOLL", "EVENTFD", "RAISES=2", "TURNS=2", "FORKS=2"], FB + WB % (2, 2) + "epoll and eventfd", tier="thorough", timeout=900),
          wakejob("pipe2", ["EPOLL", "RAISES=2", "TURNS=2", "FORKS=2"], FB + WB % (2, 2) + "epoll and a pipe", tier="thorough", timeout=900)],
  ["epoll(7), poll(2), eventfd(2), pipe(2), dup2(2), fork(2) and signals behave as documented (stand-ins in harness/l06_io.c and harness/l07_wake.c)"])
PID = ["lib/pidfile/pidfile.c", "lib/pidfile/flopen.c"]
def pidjob(name, d, **kw):
    return J(name, "s15_pidfile.c", PID, ("libc.c",), part="common", defs=d, leak=True, **kw)
P("S15", [pidjob("races", ["OPENING", "EVENTS=2", "FAULTS=0", "CMAX=1"], bounds="up to 2 interferences by other processes (remove, replace, lock, unlock, fill the file) at any point; PID files of up to 1 arbitrary byte"),
          pidjob("faults", ["OPENING", "EVENTS=1", "FAULTS=1", "CMAX=1"], bounds="1 interference and 1 failing system call at any point"),
          pidjob("write", ["PIDMAX=9999", "CMAX=2"], bounds="two updates and the removal with 1 failing or short system call, every PID of up to 4 digits; the descriptor may belong to another file by then"),
          pidjob("content", ["OPENING", "EVENTS=0", "FAULTS=0", "CMAX=3"], bounds="no interference, PID files of up to 3 arbitrary bytes"),
          pidjob("path", ["LONG_PATH", "FAULTS=0", "EVENTS=0"], bounds="paths of 253 to 259 and 4093 to 4099 bytes"),
          pidjob("races-faults", ["OPENING", "EVENTS=2", "FAULTS=1", "CMAX=2"], tier="thorough", timeout=900, bounds="2 interferences and 1 failing system call"),
          pidjob("write7", ["PIDMAX=4194304", "CMAX=4", "FAULTS=2"], tier="thorough", timeout=900, bounds="2 failing system calls, every PID up to 4194304")])
CLI = ["src/client/send_nsca.c", "src/client/conf.c", "src/common/util.c", "lib/wrappers.c", "lib/progname.c"]
def clijob(name, d, **kw):
    return J(name, "c06_options.c", CLI, STD, part="client", defs=d, **kw)
P("C06", [clijob("single", ["OP=0", "BOTH=0", "OMAX=3"], bounds="-d or -e with an argument of up to 3 arbitrary bytes"),
          clijob("leads", ["OP=0", "BOTH=0", "OMAX=2", "LEADS"], bounds="-d or -e with an argument made of any of 8 typical beginnings and up to 2 arbitrary bytes"),
          clijob("leads3", ["OP=0", "BOTH=0", "OMAX=3", "LEADS"], tier="thorough", timeout=900, bounds="and up to 3 arbitrary bytes"),
          clijob("both", ["OP=0", "BOTH=1", "OMAX=2"], bounds="-d and -e with arguments of up to 2 arbitrary bytes each"),
          clijob("single6", ["OP=0", "BOTH=0", "OMAX=6"], tier="thorough", timeout=900, bounds="arguments of up to 6 bytes"),
          clijob("both4", ["OP=0", "BOTH=1", "OMAX=4"], tier="thorough", timeout=900, bounds="arguments of up to 4 bytes each")])
P("C07", [clijob("delay", ["OP=1"], bounds="server, port and delay each on the command line or not and in the file or not, delays from 0 to 4294967296, every random number"),
          clijob("timeout", ["OP=1", "TIMEOUTS"], bounds="server, port and timeout, timeouts of 1 to 2 digits")])
def argjob(name, d, **kw):
    return J(name, "c10_args.c", CLI, ("libc.c",), part="client", defs=d, **kw)
P("C10", [argjob("args", ["K=2"], bounds="every command line made of up to 2 of 27 kinds of arguments (options alone, in clusters, with attached or separate arguments, unknown ones, stray arguments), one symbolic byte in server names, file names and unknown options; ciphers in the file or not"),
          argjob("args3", ["K=3"], bounds="up to 3 arguments")])
PARSE = ["src/client/parse.c", "src/common/util.c", "lib/wrappers.c", "lib/progname.c"]
def parsejob(name, d, **kw):
    return J(name, "c01_parse.c", PARSE, STD, part="client", defs=d + LOGT, leak=True, **kw)
P("C01", [parsejob("any", ["OP=0", "NMAX=5"], bounds="every record of up to 5 bytes, every permitted delimiter, three times of day"),
          parsejob("fields", ["OP=0", "NMAX=4", "FIELDS"], bounds="records made of two short fields and up to 4 arbitrary bytes, every permitted delimiter"),
          parsejob("sizes", ["OP=0", "SIZES"], bounds="records in which one of the first three fields has 1 to 2000 bytes and the last one up to 257 characters to escape, around the powers of two, first and last bytes arbitrary, every permitted delimiter"),
          parsejob("huge", ["OP=0", "SIZES", "HUGE_SIZES"], bounds="the same with 1 or 65537 bytes and characters to escape"),
          parsejob("any7", ["OP=0", "NMAX=7"], tier="thorough", timeout=900, bounds="every record of up to 7 bytes"),
          parsejob("fields6", ["OP=0", "NMAX=6", "FIELDS"], tier="thorough", timeout=900, bounds="two fields and up to 6 arbitrary bytes")])
P("C02", [parsejob("raw", ["OP=1", "NMAX=7"], bounds="every line of up to 7 bytes, three times of day"),
          parsejob("sizes", ["OP=1", "SIZES"], bounds="lines of 1 to 2900 bytes with up to 256 leading blanks, around the powers of two, first and last bytes arbitrary"),
          parsejob("huge", ["OP=1", "SIZES", "HUGE_SIZES"], bounds="lines of 32767 to 70001 bytes (5 lengths), the same way"),
          parsejob("raw16", ["OP=1", "NMAX=16"], tier="thorough", timeout=900, bounds="every line of up to 16 bytes")])
def pskjob(name, i, b, **kw):
    return J(name, "c08_psk.c", ["src/client/auth.c"], ("libc.c",), part="client", defs=["IMAX=%d" % i, "BMAX=%d" % b], leak=True,
             bounds="every identity and password of up to %d bytes, identity buffers of 1 to %d and key buffers of 0 to %d bytes, two requests" % (i, b, b), **kw)
P("C08", [pskjob("buffers", 3, 5),
          J("sizes", "c08_psk.c", ["src/client/auth.c"], ("libc.c",), part="client", defs=["SIZES", "IMAX=600", "REP=1"], leak=True,
            bounds="identities and passwords of 0 to 600 bytes, identity buffers of 128 to 513 and key buffers of 64 to 512 bytes, around the powers of two, the first and last byte arbitrary"),
          pskjob("buffers6", 6, 8, tier="thorough", timeout=900)])
CCONF = ["src/client/conf.c", "src/common/util.c", "lib/wrappers.c"]
def cconfjob(name, d, **kw):
    return J(name, "c05_conf.c", CCONF, STD, part="client", defs=d + LOGT, leak=kw.pop("leak", True), **kw)
TOK = r'TOKENS={"server","=","x"," ","#","\\n","\"","\\\\"}'
P("C05", [cconfjob("value", ["OP=0", "NMAX=4", r'PREFIXES={"server = "}', r'SUFFIXES={"","\n"}'], bounds="a value of up to 4 arbitrary bytes, with and without a final newline"),
          cconfjob("quoted", ["OP=0", "NMAX=4", r'PREFIXES={"port=\"","port=\x27"}', r'SUFFIXES={"\"","\x27\n"}'], bounds="up to 4 arbitrary bytes within quotes"),
          cconfjob("number", ["OP=0", "NMAX=3", r'PREFIXES={"timeout = ","delay=\"1"}', r'SUFFIXES={"","\""}'], bounds="numbers of up to 3 arbitrary bytes and a digit"),
          cconfjob("line", ["OP=0", "NMAX=3", r'PREFIXES={"","server","server = 1\\\n","server=1\r"}', r'SUFFIXES={"","=y\n","\nport=2"}'], bounds="up to 3 arbitrary bytes anywhere in two lines"),
          cconfjob("tokens", ["OP=1", "NMAX=5", 'PREFIX=""', TOK], bounds="up to 5 tokens of 8 kinds"),
          cconfjob("more", ["OP=1", "NMAX=5", 'PREFIX="server="', TOK.replace('"server"', r'"\\\n","\r\n","\nport=y","\t"')], bounds="up to 5 tokens of 11 kinds after an equals sign"),
          cconfjob("long", ["OP=2", "FMAX=4096"], bounds="lines of 509 to 2064 characters, values of 0 to 2056, continued at any of 3 places or not"),
          cconfjob("errors", ["OP=3"], leak=False, bounds="failures to open, read or close the file, at every byte"),
          cconfjob("memory", ["OP=4", "NMAX=4"], bounds="every file of up to 4 bytes, null bytes included"),
          cconfjob("value6", ["OP=0", "NMAX=6", r'PREFIXES={"server = "}', r'SUFFIXES={"","\n"}'], tier="thorough", timeout=900, bounds="a value of up to 6 arbitrary bytes"),
          cconfjob("tokens7", ["OP=1", "NMAX=7", 'PREFIX=""', TOK], tier="thorough", timeout=900, bounds="up to 7 tokens of 8 kinds")])
INPUT = ["src/client/input.c"] + BUF
def inputjob(name, d, blk=4, **kw):
    return J(name, "c03_input.c", INPUT, STD, part="client", defs=d + LOGT, leak=True, scale={"src/common/buffer.c": {"BUFFER_BLOCK_SIZE": blk}}, **kw)
P("C03", [inputjob("any", ["NS=5", "PAUSES=2"], bounds="every input of up to 5 bytes, every separator, every way to split it, two unavailable, interrupted or failed reads, requests at once or later; buffer blocks scaled to 4 bytes"),
          inputjob("longer", ["NS=6", "PAUSES=0", "CUTS=1"], bounds="every input of up to 6 bytes, split once"),
          inputjob("bulk", ["NS=300", "PAUSES=0", "CUTS=1", "BULK"], blk=128, bounds="inputs of 1 to 300 bytes with up to 2 separators around the sizes of the read buffer and the buffer blocks"),
          inputjob("any6", ["NS=6", "PAUSES=1"], tier="thorough", timeout=900, bounds="every input of up to 6 bytes")])
CLIENT = ["src/client/client.c", "src/client/parse.c", "src/common/util.c", "lib/progname.c"]
def dialjob(name, d, **kw):
    return J(name, "c04_client.c", CLIENT + ["lib/wrappers.c"], STD, part="client", defs=["MODE=0"] + d + LOGT, **kw)
P("C04", [dialjob("sizes", ["K=10", "RECORDS=2", "SIZES", "H_OUT=70100"], bounds="a record of 60 to 70001 bytes (16 lengths) and an ordinary one, 5 typical responses at any point"),
          dialjob("many", ["K=1000", "RECORDS=300", "MANY"], bounds="sessions of 1 to 300 records (5 numbers), any of 5 typical responses from the last record on"),
          dialjob("dialogue", ["K=10", "RECORDS=2", "LMAX=6"], bounds="up to 2 records of 6 kinds in either mode, 5 typical responses, one response of up to 6 arbitrary bytes or up to 3 arbitrary bytes after OKAY or MOIN"),
          J("faults", "c04_client.c", CLIENT + ["src/client/input.c"] + TLS, STD, part="client", defs=["MODE=1", "K=40"] + LOGT,
            bounds="a session of two records over the real TLS layer and reader, two incidents (a TLS call failing in any of 11 ways, a response that refuses or is unknown), input arriving late once"),
          dialjob("dialogue3", ["K=12", "RECORDS=3", "LMAX=8"], tier="thorough", timeout=900, bounds="up to 3 records, responses of up to 8 bytes")])

def libjob(lib, name, d, nscang=False, **kw):
    cf = ["-I/usr/include/python3.12"] if nscang else []
    return J(lib + "-" + name if not name.startswith(lib) else name, "m_client.c", ["%s/client.c" % lib] + (["python/nscang.c"] if nscang else []), ("libc.c",), part=lib,
             defs=d + (["WITH_NSCANG"] if nscang else []), cflags=cf + kw.pop("cflags", []), leak=True, **kw)
NOENV = ["ODD=0", "FAULTS=0", "WAITS=0", "CUTS=0"]
ENV = "one TLS call that fails, one that has to be repeated, one response in pieces, one response of 7 other kinds (two of them late)"
def libtexts(l, n, **kw):
    a = "commands and check results" if l == "perl" else "check results"
    return [libjob(l, "short", ["MODE=0", "K=1", "TMAX=3"], n, bounds="one of the " + a + ", texts of up to 3 arbitrary bytes and 4 statuses, or: " + ENV),
            libjob(l, "two", ["MODE=0", "K=2", "TMAX=0", "ODD=2", "FAULTS=0", "WAITS=0", "CUTS=0"], n, bounds="two " + a + ", two responses of 7 other kinds"),
            libjob(l, "long", ["MODE=0", "K=1", "LONGTEXT=970", "ODD=0", "WAITS=0", "FAULTS=0"], n, bounds="texts of 970 to 1010 bytes (around the 1024-byte buffer)"),
            libjob(l, "short6", ["MODE=0", "K=1", "TMAX=6", "FAULTS=2", "WAITS=2"], n, tier="thorough", timeout=900, bounds="texts of up to 6 bytes, two failing and two repeated TLS calls"),
            libjob(l, "three", ["MODE=0", "K=3", "TMAX=0", "ODD=3", "FAULTS=0", "WAITS=0", "CUTS=0"], n, tier="thorough", timeout=900, bounds="three " + a + ", three odd responses"),
            libjob(l, "twofaults", ["MODE=0", "K=2", "TMAX=0"], n, tier="thorough", timeout=900, bounds="two " + a + ", " + ENV)]
P("M01", libtexts("perl", False))
P("M02", libtexts("python", True))
P("M03", [libjob(l, n, ["MODE=1"] + d, tier=t, timeout=900 if t == "thorough" else 300, bounds=b) for l in ("perl", "python") for n, t, d, b in (
    ("responses", "quick", ["LMAX=6", "ODD=0", "FAULTS=1", "WAITS=0"], "one arbitrary response to any of the three requests: up to 6 arbitrary bytes, or up to 3 after one of 5 keywords, with and without CR and LF, in up to two pieces, with or without a failing TLS call"),
    ("overlong", "quick", ["OVERLONG", "ODD=0", "FAULTS=0", "WAITS=0", "CUTS=0"], "responses of 1020 to 1028 bytes with and without a newline among the last 9 (the buffer has 1024)"),
    ("responses10", "thorough", ["LMAX=10", "ODD=0", "FAULTS=1", "WAITS=1", "CUTS=2"], "up to 10 arbitrary bytes, three pieces"))])
MF = ["-Dmalloc=n_malloc", "-Dstrdup=n_strdup"]
P("M04", [libjob(l, n, ["MODE=2", "NOBJ=%d" % o] + d + NOENV, tier=t, timeout=900 if t == "thorough" else 300, srcflags=MF if "MALLOCFAIL=1" in d else [], bounds=b) for l in ("perl", "python") for n, t, o, d, b in (
    ("sizes", "quick", 1, ["K=1", "SIZES"], "one object, identities and keys of 0 to 512 bytes (11 and 12 lengths), identity buffers of 128 to 257, key buffers of 64 to 512"),
    ("many", "quick", 1, ["MANY=80", "N_SSL=84"], "3 to 80 objects (6 numbers), any one of them destroyed"),
    ("keys", "quick", 2, ["K=4", "TMAX=2"], "up to 4 creations, destructions and key requests on two objects, identities and keys of up to 2 arbitrary bytes, buffers of 1 to 4 bytes"),
    ("failures", "quick", 2, ["K=3", "TMAX=1", "INITFAIL=1", "MALLOCFAIL=1", "LOCKFAIL=1"], "up to 3 operations, one failing allocation, TLS set-up step and lock each"),
    ("keys6", "thorough", 3, ["K=6", "TMAX=2"], "up to 6 operations on three objects"),
    ("failures4", "thorough", 2, ["K=4", "TMAX=1", "INITFAIL=1", "MALLOCFAIL=1", "LOCKFAIL=1"], "up to 4 operations with failures"))])
P("M05", [libjob("python", n, ["MODE=3", "K=%d" % k, "INITFAIL=1", "MALLOCFAIL=1", "ODD=1", "FAULTS=0", "WAITS=0", "CUTS=0"], True, srcflags=MF, tier=t, timeout=900 if t == "thorough" else 300,
    bounds="up to %d operations (initialisation, attributes, results, missing arguments) and the destruction, one failing allocation and TLS set-up step each, one odd response" % k) for n, k, t in (("object", 3, "quick"), ("object4", 4, "thorough"))])
MEMF = ["-Dmalloc=n_malloc", "-Dcalloc=n_calloc", "-Drealloc=n_realloc", "-Dstrdup=n_strdup", "-Dfree=n_free"]
PROPS["C09"]["jobs"] += [
    J("client", "c09_client.c", CLI, STD, part="client", defs=["PWMAX=4"], srcflags=MEMF, bounds="no password or one of 1 to 4 arbitrary bytes in one of four notations, other settings around it, failures before and during the session"),
    J("client-sizes", "c09_client.c", CLI, STD, part="client", defs=["PWMAX=400", "SIZES"], srcflags=MEMF, bounds="passwords of 15 to 400 bytes (13 lengths)"),
    J("client-optimised", "c09_client.c", CLI, STD, part="client", defs=["PWMAX=3"], optimised=["malloc", "calloc", "realloc", "strdup", "free"], bounds="the same with passwords of 1 to 3 bytes and the code as clang -O2 makes it"),
    J("client8", "c09_client.c", CLI, STD, part="client", defs=["PWMAX=8"], srcflags=MEMF, tier="thorough", timeout=900, bounds="passwords of up to 8 bytes")]
P("R01", [bothjob("session", ["FAULTS=0", "OOM=1"], "one allocation at either end fails", srcflags=OOMF("n"), privflags=OOMF("c")),
          bothjob("session-commands", ["FAULTS=0", "OOM=1", "COMMANDS=1"], "commands instead of check results; one allocation at either end fails", srcflags=OOMF("n"), privflags=OOMF("c")),
          bothjob("session-faults", ["FAULTS=1", "OOM=1"], "one allocation and one failure of the connection or pipe", srcflags=OOMF("n"), privflags=OOMF("c")),
          bothjob("session-faults2", ["FAULTS=2", "OOM=1"], "one allocation and two failures of the connection or pipe", srcflags=OOMF("n"), privflags=OOMF("c"), tier="thorough", timeout=900),
          mainjob("server", 9, ["OOM=1", "PWMAX=1"], srcflags=OOMF("n"), bounds="the server's start and end: options, configuration, settings; a global password or none, one or two sections, any signal; one allocation fails"),
          J("client", "c09_client.c", CLI, STD, part="client", defs=["PWMAX=2", "OOM=1"], srcflags=MEMF + ["-Dvasprintf=n_vasprintf"], bounds="the client's start and end, with different configurations; one allocation fails"),
          confjob("settings", ["MODE=7", "NSEC=1", "VALS=1", "OOM=1"], srcflags=OOMF("n"), bounds="one section, every setting present or not in it and globally; one allocation fails"),
          confjob("include", ["MODE=8", "NMAX=5", "ENTRIES=1", "OOM=1"], srcflags=OOMF("n"), bounds="include directives and directories with up to one entry; one allocation fails"),
          fifojob("dump", 10, [20, 40, 41], 3, blk=16, d=["OOM=1"], srcflags=OOMF("n")),
          pidjob("pidfile", ["OPENING", "EVENTS=1", "FAULTS=0", "CMAX=1", "OOM=1"], srcflags=OOMF("n"), bounds="opening the PID file without memory")],
  ["libConfuse, OpenSSL and libev (which aborts) look after their own allocations", "the end-to-end jobs have the stand-ins of E02, the others those of C09, S07, S08, S10 and S15"])
