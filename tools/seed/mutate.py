#!/usr/bin/env python3
"""mutate.py N SEED [FILE...]: random small mutants of the sources, each judged by the checks
of the file until one reports it; the survivors are printed for inspection."""
import os, random, re, subprocess, sys, tempfile, shutil, threading, queue
BASE = os.environ.get("MUT_BASE", "/repo")
MAP = {
 "src/server/server.c": "S03 S02 S04 S01 T05",
 "src/server/auth.c": "S01 S05 S06",
 "src/server/hash.c": "S05 S07 S01",
 "src/server/conf.c": "S07 S08 S06 S14",
 "src/server/fifo.c": "S09 S10 S11 S12",
 "src/server/nsca-ng.c": "S14 S13 S16 C09",
 "src/common/tls.c": "T02 T03 T05 T04 T06 T07 S05 S03 C04 S14",
 "src/common/buffer.c": "T01 T02",
 "src/common/util.c": "L02 S03",
 "src/common/log.c": "L01",
 "src/client/auth.c": "C08",
 "src/client/client.c": "C04",
 "src/client/send_nsca.c": "C06 C07 C09 C04",
 "src/client/conf.c": "C05 C07 C09",
 "src/client/input.c": "C03 C04",
 "src/client/parse.c": "C01 C02",
 "lib/wrappers.c": "T01 L02 C05",
 "lib/pidfile/pidfile.c": "S15 S16",
 "lib/pidfile/flopen.c": "S15",
 "lib/strcasecmp.c": "L04", "lib/strncasecmp.c": "L04", "lib/strdup.c": "L04", "lib/progname.c": "L04", "lib/daemon.c": "L04",
 "lib/xprintf.c": "L03",
 "perl/client.c": "M01 M03 M04",
 "python/client.c": "M02 M03 M04",
 "python/nscang.c": "M05",
}
EVRANGES = ("downheap", "upheap", "adjustheap", "timers_reify", "feed_reverse", "feed_reverse_done", "ev_timer_start", "ev_timer_stop", "ev_timer_again", "ev_timer_remaining", "ev_run", "ev_invoke_pending", "ev_feed_event", "clear_pending", "ev_start", "ev_stop", "pri_adjust", "time_update")
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=])<(?![<=a-z])", "<="), (r"(?<![>\-=])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\+ 1\b", ""), (r"- 1\b", ""), (r"\+\+", "--"), (r"\+=", "-="), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif \((?!.*\{\s*/\*)", "if (!"), (r" \+ ", " - "), (r" - ", " + "), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"), (r" \| ", " & "), (r"\bNULL\b", "(void *)1"), (r"\bsizeof\(([a-z_]+)\)", r"(sizeof(\1) + 1)"), (r'"(\w+)"', r'"\1x"')]
def lines_of(path, f):
    L = open(os.path.join(path, f), errors="replace").read().split("\n")
    start = 0; incomment = False; out = []; infun = False; name = None; depth = 0
    for i, l in enumerate(L):
        s = l.strip()
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incomment = True
            continue
        if l.startswith("{"): infun = True; name = L[i - 1] + L[i - 2]; continue
        if l.startswith("}"): infun = False; continue
        if not infun or s.startswith("#") or s.startswith("//") or not s: continue
        if "debug(" in s or "notice(" in s or "warning(" in s or "info(" in s: continue
        if f.endswith("ev.c") and not any(re.match(r"(noinline |inline_speed |inline_size |static )?.*\b%s \(" % n, name or "") for n in EVRANGES): continue
        out.append(i)
    return L, out
def mutants(path, f, rnd):
    L, idx = lines_of(path, f)
    res = []
    for i in idx:
        l = L[i]; code = l.split("/*")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if a.startswith(r"\bif"):
                    # negate a one-line condition
                    if code.count("(") != code.count(")"): continue
                    mm = re.match(r"^(.*\bif )\((.*)\)(\s*\{?\s*)$", code)
                    if not mm: continue
                    n = mm.group(1) + "(!(" + mm.group(2) + "))" + mm.group(3)
                res.append((f, i, n + l[len(code):]))
        s = code.strip()
        if s.endswith(";") and code.count("(") == code.count(")") and not re.match(r"^(return|break|continue|goto|case|default|else|for|while|do|char|int|size_t|bool|long|unsigned|static|const|struct|void \*|\}|ev_\w+ \w+;)", s) and ("(" in s or "=" in s):
            prev = L[i - 1].strip() if i else ""
            if prev.endswith((";", "{", "}", ")", ":", "else", "*/")) or prev == "":
                res.append((f, i, re.match(r"\s*", l).group(0) + "; /* deleted */"))
    return res
def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    MAP["lib/ev/ev.c"] = "L05"
    files = sys.argv[3:] or sorted(MAP)
    rnd = random.Random(seed)
    allm = []
    for f in files:
        ms = mutants(BASE, f, rnd)
        rnd.shuffle(ms)
        allm.append(ms)
    print("population", sum(map(len, allm)), flush=True)
    pick = []
    if len(files) == 1: pick = allm[0][:n]
    else:
        pool = [m for ms in allm for m in ms]
        rnd.shuffle(pool)
        pick = pool[:n]
    q = queue.Queue()
    for k, m in enumerate(pick): q.put((k, m))
    lock = threading.Lock()
    def work(w):
        tree = tempfile.mkdtemp(prefix="mut%d-" % w, dir="/tmp/mut")
        subprocess.run(["git", "clone", "-q", BASE, tree + "/r"], check=True)
        t = tree + "/r"
        while True:
            try: k, (f, i, new) = q.get_nowait()
            except queue.Empty: break
            L = open(os.path.join(BASE, f), errors="surrogateescape").read().split("\n")
            old = L[i]; L[i] = new
            with open(os.path.join(t, f), "w", errors="surrogateescape") as o: o.write("\n".join(L))
            verdict = "SURVIVED"; by = ""
            for c in MAP[f].split():
                r = subprocess.run(["./check", c], cwd="/verif", env=dict(os.environ, VP_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if r.returncode == 1: verdict = "killed"; by = c; break
                if r.returncode != 0:
                    by += " %s:rc%d" % (c, r.returncode); verdict = "inconclusive"
                    m = re.search(r"inconclusive: .*", r.stdout)
                    if m: by += "[" + m.group(0)[:150] + "]"
                    if m and "error:" in m.group(0): verdict = "nocompile"; break
            with lock:
                print("%-12s %s:%d %s\n      - %s\n      + %s" % (verdict, f, i + 1, by, old.strip(), new.strip()), flush=True)
            shutil.copy(os.path.join(BASE, f), os.path.join(t, f))
        shutil.rmtree(tree)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(int(os.environ.get("MUT_JOBS", "2")))]
    [x.start() for x in ts]; [x.join() for x in ts]
main()
