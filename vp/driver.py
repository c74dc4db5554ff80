"""Driver: compiles /repo's current sources to LLVM bitcode, lets the symbolic
executor (engine/vpsym.cpp, Z3) decide the harnesses of a property for all
values within the bounds, replays every counterexample and a sample of the
explored paths against the natively compiled code, and writes the evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
VERBOSE = bool(os.environ.get("VP_VERBOSE"))
SLOTS = 3
LLVM = "/usr/lib/llvm-18/bin/"

INC = {
    "server": ["src/server", "src/common"],
    "client": ["src/client", "src/common"],
    "both": ["src/server", "src/client", "src/common"],
    "common": ["src/common"],
    "lib": [],
    "perl": ["perl"],
    "python": ["python"],
}


class Job:
    """One harness with its sources, constants and bounds."""
    def __init__(self, name, harness, src=(), models=("libc.c",), part="server", defs=(), tier="quick",
                 timeout=300, leak=False, bounds="", assumes=(), pre=(), known=None, nomain=False, scale=None,
                 cflags=(), engine_flags=(), include=(), ncflags=(), srcflags=(), optimised=(), volatile=False, private=(), exported=(), privflags=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.more = ()          # sources found to be needed, too


def sh(cmd, timeout=None, mem_gb=None, **kw):
    def lim():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -99, o, e


class Err(Exception):
    pass


def incflags(job):
    r = ["-I" + os.path.join(VERIF, d) for d in job.include]
    r += ["-I%s/config" % VERIF, "-I%s/include" % VERIF]
    for d in INC[job.part]:
        r.append("-I%s/%s" % (REPO, d))
    for d in ("lib", "lib/ev", "lib/pidfile"):
        r.append("-I%s/%s" % (REPO, d))
    return r


def cflags(job, native):
    f = ["-DHAVE_CONFIG_H", '-DSYSCONFDIR="/usr/local/etc"', '-DLOCALSTATEDIR="/usr/local/var"', '-DNSCA_VERSION="1.6"']
    f += ["-D" + d for d in job.defs] + list(job.cflags)
    f += list(job.ncflags) if native else ["-DVP_SYM", "-D_FORTIFY_SOURCE=0"]
    for p in job.pre:
        f += ["-include", os.path.join(VERIF, "include", p)]
    return f + incflags(job)


def srcpath(s, job=None, d=None):
    if s.startswith("@"):
        return os.path.join(VERIF, s[1:])
    p = os.path.join(REPO, s)
    if job and job.scale and s in job.scale:
        # Same code, smaller constants: a copy with the constants replaced.
        text = open(p, encoding="latin-1").read()
        for name, val in job.scale[s].items():
            text = re.sub(r"(?m)^(\s*#\s*define\s+%s\s+)\d+(\.\d+)?\s*$" % name, r"\g<1>%s" % val, text)
            text = re.sub(r"\b(%s\s*=\s*)\d+\b" % name, r"\g<1>%s" % val, text)
        q = os.path.join(d, "scaled-" + os.path.basename(s))
        if not os.path.exists(q):
            with open(q, "w", encoding="latin-1") as f:
                f.write('#line 1 "%s"\n' % p + text)
        return q
    return p


UBSAN = ("-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,array-bounds,unreachable,return,vla-bound "
         "-fsanitize-trap=all").split()
PASSES = "internalize,globaldce,mem2reg,sroa,instsimplify,simplifycfg,early-cse,simplifycfg,dce"


def build_engine():
    exe = os.path.join(VERIF, "build", "vpsym")
    srcs = [os.path.join(VERIF, "engine", f) for f in ("vpsym.cpp", "expr.cpp", "expr.h", "build.sh")]
    if not os.path.exists(exe) or any(os.path.getmtime(x) > os.path.getmtime(exe) for x in srcs):
        rc, out, err = sh(["sh", srcs[3]], timeout=600)
        if rc != 0:
            raise Err("building the engine: " + err.decode(errors="replace")[-700:])
    return exe


def definers(names, job):
    """The sources of the repository (of the job's part) that define functions the code calls but the job doesn't list."""
    r = []
    for a in sorted(set(INC[job.part]) | {"src/common", "lib", "lib/pidfile"}):
        full = os.path.join(REPO, a)
        for f in sorted(os.listdir(full)) if os.path.isdir(full) else []:
            s = "%s/%s" % (a, f)
            if not f.endswith(".c") or s in job.src or s in job.more:
                continue
            text = open(os.path.join(full, f), encoding="latin-1").read()
            if any(re.search(r"(?m)^(?:\w[\w \t*]*[ \t*])?%s\([^;{]*\)\s*\{" % re.escape(n), text) for n in names):
                r.append(s)
    return r


def instrument(path):
    """Calls vp_interrupt() before every access to a volatile object in the IR file."""
    out, n = [], 0
    for l in open(path, encoding="latin-1"):
        m = re.match(r"  (?:%\S+ = load volatile|store volatile) .*?(, !dbg !\d+)?$", l)
        if m:
            out.append("  call void @vp_interrupt()%s\n" % (m.group(1) or ""))
            n += 1
        out.append(l)
    text = "".join(out)
    if n and not re.search(r"(?m)^(declare|define)\b[^\n]*@vp_interrupt\(", text):
        text += "\ndeclare void @vp_interrupt()\n"
    with open(path, "w", encoding="latin-1") as f:
        f.write(text)


def build_bitcode(job, d):
    objs = []
    units = [(srcpath(s, job, d), True) for s in job.src]
    units += [(os.path.join(VERIF, "harness", job.harness), False)]
    units += [(srcpath(s, job, d), True) for s in job.more]
    units += [(os.path.join(VERIF, "models", m), False) for m in job.models]
    npriv = len(job.private)
    units = [(srcpath(s, job, d), True) for s in job.private] + units
    procs = []
    for i, (p, isrepo) in enumerate(units):
        flags = job.privflags if i < npriv and job.privflags else job.srcflags
        o = os.path.join(d, "u%d.bc" % i)
        if isrepo and job.optimised:
            # As a compiler makes it: with optimisation, and the functions
            # named only given other names afterwards.
            cmd = [LLVM + "clang", "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-S", "-g", "-w",
                   "-o", o + ".ll", p] + cflags(job, False) + list(job.srcflags)
            if not job.nomain:
                cmd.append("-Dmain=vp_prog_main")
            rc, out, err = sh(cmd, timeout=120)
            if rc != 0:
                raise Err("clang %s: %s" % (p, err.decode(errors="replace")[-700:]))
            with open(o + ".ll") as f:
                t = f.read()
            for a in job.optimised:
                t = re.sub(r"@%s\b" % a, "@n_" + a, t)
            with open(o + ".ll", "w") as f:
                f.write(re.sub(r"^declare (.*@n_\w+\([^)]*\)).*$", r"declare \1", t, flags=re.M))
            procs.append((p, subprocess.Popen([LLVM + "llvm-as", "-o", o, o + ".ll"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            objs.append(o)
            continue
        cmd = [LLVM + "clang", "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", "-g", "-w", "-fno-builtin",
               "-o", o, p] + cflags(job, False)
        if isrepo:
            cmd += UBSAN + list(flags)
            if not job.nomain:
                cmd.append("-Dmain=vp_prog_main")
            if job.volatile:
                cmd[cmd.index("-c")] = "-S"
                cmd[cmd.index("-o") + 1] = o + ".ll"
                rc, out, err = sh(cmd, timeout=120)
                if rc != 0:
                    raise Err("clang %s: %s" % (p, err.decode(errors="replace")[-700:]))
                instrument(o + ".ll")
                cmd = [LLVM + "llvm-as", "-o", o, o + ".ll"]
        procs.append((p, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objs.append(o)
    for p, pr in procs:
        out, _ = pr.communicate()
        if pr.returncode != 0:
            raise Err("clang %s: %s" % (p, out.decode(errors="replace")[-700:]))
    if npriv:
        # A program of its own: only what it exports is visible to the rest.
        p0, p1 = os.path.join(d, "p0.bc"), os.path.join(d, "p1.bc")
        for cmd in ([LLVM + "llvm-link", "-o", p0] + objs[:npriv],
                    [LLVM + "opt", "-passes=internalize", "-internalize-public-api-list=" + ",".join(job.exported), p0, "-o", p1]):
            rc, out, err = sh(cmd, timeout=120)
            if rc != 0:
                raise Err("%s: %s" % (cmd[0], err.decode(errors="replace")[-700:]))
        objs = objs[npriv:]
        objs.insert(len(job.src) + 1, p1)
    raw, bc = os.path.join(d, "linked.bc"), os.path.join(d, "all.bc")
    # The harness and the code under test come first: models only fill gaps.
    nmod, nmore = len(job.models), len(job.more)
    if nmore:
        gap = objs[len(objs) - nmod - nmore:len(objs) - nmod]
        base, l2 = objs[:len(objs) - nmod - nmore], os.path.join(d, "l2.bc")
        rc, out, err = sh([LLVM + "llvm-link", "-o", os.path.join(d, "lm.bc")] + base, timeout=120)
        if rc == 0:
            rc, out, err = sh([LLVM + "llvm-link", "-only-needed", "-o", l2, os.path.join(d, "lm.bc")] + gap, timeout=120)
        if rc != 0:
            raise Err("llvm-link: %s" % err.decode(errors="replace")[-700:])
        objs = [l2] + objs[len(objs) - nmod:]
    if nmod:
        l0, l1 = os.path.join(d, "l0.bc"), os.path.join(d, "l1.bc")
        steps = [["-o", l0] + objs[:-nmod], ["-o", l1] + objs[-nmod:], ["-only-needed", "-o", raw, l0, l1]]
    else:
        steps = [["-o", raw] + objs]
    for s in steps:
        rc, out, err = sh([LLVM + "llvm-link"] + s, timeout=120)
        if rc != 0:
            raise Err("llvm-link: %s" % err.decode(errors="replace")[-700:])
    rc, out, err = sh([LLVM + "opt", "-passes=" + PASSES, "-internalize-public-api-list=vp_main", raw, "-o", bc], timeout=120)
    if rc != 0:
        raise Err("opt: %s" % err.decode(errors="replace")[-700:])
    return bc


def symex(job, bc, d):
    cmd = [build_engine(), "-t", str(job.timeout), "-j", "8", "-o", d] + (["-leak"] if job.leak else []) + \
        list(job.engine_flags) + [bc]
    t = time.time()
    rc, out, err = sh(cmd, timeout=job.timeout + 120)
    try:
        parts = json.loads(out)
    except Exception:
        raise Err("engine (rc %d): %s %s" % (rc, out.decode(errors="replace")[-500:], err.decode(errors="replace")[-500:]))
    if isinstance(parts, dict):
        raise Err("engine: " + parts.get("error", "?"))
    r = {"wall": time.time() - t, "cmd": " ".join(cmd)}
    for k in ("paths", "insts", "forks", "queries", "z3queries", "cachehits", "domq", "checks", "checkq", "killed", "solver_s", "crosschecked"):
        r[k] = sum(p.get(k, 0) for p in parts)
        if k != "solver_s":
            r[k] = int(r[k])
    r["fails"], seen = [], set()
    for p in parts:
        for f in p.get("fails", []):
            key = (f["kind"], f["msg"], f["where"].split(" < ")[0])
            if key not in seen:
                seen.add(key)
                r["fails"].append(f)
    r["reached"] = {}
    for p in parts:
        for k, v in p.get("reached", {}).items():
            r["reached"].setdefault(k, v)
    r["samples"] = sum((p.get("samples", []) for p in parts), [])
    for k in ("sites", "unmodelled", "functions"):
        r[k] = sorted(set(sum((p.get(k, []) for p in parts), [])))
    r["inconclusive"] = "; ".join(sorted(set(p["inconclusive"] for p in parts if p.get("inconclusive"))))
    return r


def harness_tags(job):
    """The reachability witnesses the harness (compiled with the job's constants) must produce."""
    p = os.path.join(VERIF, "harness", job.harness)
    rc, out, err = sh([LLVM + "clang", "-E", "-P", p, "-DVP_TAGS"] + cflags(job, False), timeout=60)
    return sorted(set(re.findall(r'vp_sym_reach\("((?:[^"\\]|\\.)*)"\)', out.decode(errors="replace"))))


# ---------------------------------------------------------------- native side
NATIVE_CC = ["gcc", "-g", "-O0", "-w", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


def build_native(job, d, variant="zero"):
    nd = os.path.join(d, "native-" + variant)
    exe = os.path.join(nd, "replay")
    if os.path.exists(exe):
        return exe
    os.makedirs(nd, exist_ok=True)
    cc = list(NATIVE_CC) + ["-ftrivial-auto-var-init=" + ("zero" if variant == "zero" else "pattern")]
    hobjs, robjs = [], []
    natmodels = [m for m in job.models if m.startswith("n_") or m.startswith("both_")]
    for i, p in enumerate([os.path.join(VERIF, "harness", job.harness)] +
                          [os.path.join(VERIF, "models", m) for m in natmodels + ["native.c"]]):
        o = os.path.join(nd, "h%d.o" % i)
        rc, out, err = sh(cc + ["-c", "-o", o, p] + cflags(job, True), timeout=120)
        if rc != 0:
            raise Err("native %s: %s" % (p, err.decode(errors="replace")[-700:]))
        hobjs.append(o)
    rc, out, err = sh(["nm", "--defined-only"] + hobjs)
    stubs = sorted(set(re.findall(r" [TDBVWC] vpstub_(\w+)", out.decode())))
    alias = {}
    for s in stubs:
        for a in (s + "64", "__isoc23_" + s, "__isoc99_" + s, s):
            if a == s or a not in stubs:
                alias[a] = s
    for i, s in enumerate(list(job.src) + list(job.more) + list(job.private)):
        o = os.path.join(nd, "r%d.o" % i)
        rcc = [LLVM + "clang", "-g", "-O2", "-w", "-U_FORTIFY_SOURCE"] if job.optimised else cc
        flags = job.privflags if i >= len(job.src) + len(job.more) and job.privflags else job.srcflags
        cmd = rcc + ["-c", "-o", o, srcpath(s, job, d)] + cflags(job, True) + list(flags)
        if not job.nomain:
            cmd.append("-Dmain=vp_prog_main")
        if job.volatile:
            # The same interruptions as in the solver's world.
            cmd = [LLVM + "clang", "-O0", "-g", "-w", "-fno-builtin", "-U_FORTIFY_SOURCE", "-ftrivial-auto-var-init=" + ("zero" if variant == "zero" else "pattern"),
                   "-emit-llvm", "-S", "-o", o + ".ll"] + cmd[cmd.index(srcpath(s, job, d)):]
            rc, out, err = sh(cmd, timeout=120)
            if rc != 0:
                raise Err("native %s: %s" % (s, err.decode(errors="replace")[-700:]))
            instrument(o + ".ll")
            cmd = [LLVM + "clang", "-O0", "-w", "-c", "-o", o, o + ".ll"]
        rc, out, err = sh(cmd, timeout=120)
        if rc != 0:
            raise Err("native %s: %s" % (s, err.decode(errors="replace")[-700:]))
        # Calls to stubbed functions go to the harness's stand-ins.
        rc, out, err = sh(["nm", "-u", o])
        und = set(re.findall(r" U (\w+)", out.decode()))
        pairs, have = ["%s n_%s\n" % (a, a) for a in sorted(und & set(job.optimised))], set()
        for a in sorted(und & set(alias)):
            if alias[a] in have:
                raise Err("two names for %s in %s" % (alias[a], s))
            have.add(alias[a])
            pairs.append("%s vpstub_%s\n" % (a, alias[a]))
        if pairs:
            red = os.path.join(nd, "redefine%d" % i)
            with open(red, "w") as f:
                f.write("".join(pairs))
            rc, out, err = sh(["objcopy", "--redefine-syms=" + red, o])
            if rc != 0:
                raise Err("objcopy: %s" % err.decode(errors="replace")[-800:])
        robjs.append(o)
    if job.private:
        n, po = len(job.private), os.path.join(nd, "private.o")
        for cmd in (["ld", "-r", "-o", po] + robjs[-n:], ["objcopy"] + ["--keep-global-symbol=" + x for x in job.exported] + [po]):
            rc, out, err = sh(cmd)
            if rc != 0:
                raise Err("%s: %s" % (cmd[0], err.decode(errors="replace")[-700:]))
        robjs = robjs[:-n] + [po]
    wraps = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "vasprintf", "asprintf"]
    wl = ["-Wl," + ",".join("--wrap=" + w for w in wraps)]
    # Functions of the repository that the harness does not reach may stay
    # unresolved: they are given an aborting stand-in.
    if job.more:
        wl.append("-Wl,-z,muldefs")
    rc, out, err = sh(cc + ["-o", exe] + hobjs + robjs + wl, timeout=120)
    if rc != 0:
        und = sorted(set(re.findall(r"undefined reference to `(\w+)'", err.decode(errors="replace"))))
        if not und:
            raise Err("native link: %s" % err.decode(errors="replace")[-700:])
        p = os.path.join(nd, "unresolved.c")
        with open(p, "w") as f:
            f.write("#include <stdio.h>\n#include <unistd.h>\n")
            for u in und:
                f.write('long %s(void) { fprintf(stderr, "[replay] unmodelled call: %s\\n"); _exit(78); }\n' % (u, u))
        o = os.path.join(nd, "unresolved.o")
        rc, out, err = sh(["gcc", "-w", "-fno-builtin", "-c", "-o", o, p])
        if rc == 0:
            rc, out, err = sh(cc + ["-o", exe] + hobjs + robjs + [o] + wl, timeout=120)
        if rc != 0:
            raise Err("native link: %s" % err.decode(errors="replace")[-700:])
    return exe


def run_native(job, exe, infile, fill):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "exitcode=44:print_stacktrace=0:halt_on_error=1"
    env["VP_FILL"] = str(fill)
    env["VP_LEAK"] = "1" if job.leak else "0"
    rc, out, err = sh([exe, infile, "v"], timeout=20, env=env, cwd=os.path.dirname(exe))
    text = (out + err).decode(errors="replace")
    return rc, text


def confirm(job, d, vals, tag, pid):
    """Replay an input vector natively.  Returns (confirmed, text)."""
    tmp = os.path.join(d, "in-%s.txt" % hashlib.sha1((tag + repr(vals)).encode()).hexdigest()[:12])
    with open(tmp, "w") as f:
        f.write("".join("%d\n" % v for v in vals))
    last = ""
    for variant, fill in (("zero", 0), ("zero", 0xA5), ("pattern", 0x01), ("pattern", 0xFF), ("pattern", 0x41)):
        exe = build_native(job, d, variant)
        rc, text = run_native(job, exe, tmp, fill)
        last = "exit %s\n%s" % (rc, text)
        if rc in (42, 43, 44) or rc == -99 or rc < 0 or rc in (134, 136, 139):
            return True, last, tmp, exe
    return False, last, tmp, None


def run_vector(job, d, vals, tag):
    tmp = os.path.join(d, "w-%s.txt" % hashlib.sha1((tag + repr(vals)).encode()).hexdigest()[:12])
    with open(tmp, "w") as f:
        f.write("".join("%d\n" % v for v in vals))
    exe = build_native(job, d, "zero")
    return run_native(job, exe, tmp, 0)


def run_job(pid, job, keep=None):
    """Returns a result dict."""
    t0 = time.time()
    d = keep or tempfile.mkdtemp(prefix="vp-%s-" % pid)
    r = {"job": job.name, "verdict": None, "detail": "", "x": {}, "reach": [], "witnesses": 0, "validated": 0,
         "disagree": [], "violations": [], "samples": []}
    try:
        bc = build_bitcode(job, d)
        x = r["x"] = symex(job, bc, d)
        for again in range(4):
            # Functions may have moved to another file of the repository.
            more = definers([u.split(" ")[0] for u in x["unmodelled"]], job) if x["unmodelled"] else []
            if not more:
                break
            job.more = tuple(job.more) + tuple(more)
            bc = build_bitcode(job, d)
            x = r["x"] = symex(job, bc, d)
        tags = harness_tags(job)
        r["reach"] = sorted(x["reached"])
        if x["fails"]:
            x["fails"].sort(key=lambda f: ("check", "memory", "ub", "recursion", "steps", "leak").index(f["kind"]))
            notes = ["%s at %s" % (f["msg"], f["where"]) for f in x["fails"] if f["msg"].startswith("(harness)")]
            for f in [f for f in x["fails"] if not f["msg"].startswith("(harness)")][:8]:
                ok, text, tmp, exe = confirm(job, d, f["in"], f["msg"], pid)
                if ok:
                    v = dict(desc="%s: %s" % (f["kind"], f["msg"]), where=f["where"], vals=f["in"], text=text)
                    if job.known and f["msg"] == job.known[1]:
                        r["violations"].append(v)
                        continue
                    r["violations"].insert(0, v)
                    r["unknown"] = True
                    break
                notes.append("%s: %s at %s does not replay: %s" % (f["kind"], f["msg"], f["where"], text[-300:]))
            r["verdict"] = "violated" if r["violations"] else "inconclusive"
            r["detail"] = "; ".join(notes) if not r["violations"] else ""
        elif x["unmodelled"]:
            r["verdict"] = "inconclusive"
            r["detail"] = "unmodelled: " + ", ".join(x["unmodelled"])
        elif x["inconclusive"]:
            r["verdict"] = "inconclusive"
            r["detail"] = x["inconclusive"]
        else:
            missing = [t for t in tags if t not in x["reached"]]
            if missing or not tags:
                r["verdict"] = "inconclusive"
                r["detail"] = "vacuous: never reached " + ", ".join(missing or ["(no witness)"])
            else:
                r["verdict"] = "holds"
        if r["verdict"] == "holds":
            # The same inputs on the natively compiled code must take the same course.
            todo = [(t, v, None) for t, v in sorted(x["reached"].items())]
            step = max(1, len(x["samples"]) // 8)
            todo += [(None, s_["in"], s_) for s_ in x["samples"][::step][:8]]
            for tag, vals, smp in todo:
                rc, text = run_vector(job, d, vals, tag or "path")
                m = re.search(r"summary checks=(\d+)", text)
                got = set(re.findall(r"(?m)^\[replay\] reached: (.*)$", text))
                if tag is not None:
                    ok = rc == 0 and tag in got
                    r["witnesses"] += ok
                else:
                    ok = rc == 0 and m and int(m.group(1)) == smp["checks"] and got == set(smp["tags"])
                    r["validated"] += bool(ok)
                if len(r["samples"]) < 6:
                    r["samples"].append(dict(job=job.name, witness=tag or "explored path", inputs=vals[:80], replayed=bool(ok)))
                if not ok:
                    r["disagree"].append("%s: rc %d, engine %s, native %s" % (tag or "path", rc, smp and (smp["checks"], smp["tags"]), text[-500:]))
                    if rc == 79:
                        r["verdict"] = "inconclusive"
                        r["detail"] = "a model differs from the real library: " + text[-300:]
                    if rc in (42, 43, 44):
                        r["verdict"] = "violated"
                        r["unknown"] = True
                        r["violations"].append(dict(desc="native run of an explored path (%s) fails" % (tag or "sample"),
                                                    where="", vals=vals, text="exit %d\n%s" % (rc, text)))
                        break
    except Err as e:
        r["verdict"] = "inconclusive"
        r["detail"] = str(e)
    finally:
        r["wall"] = time.time() - t0
        if r["verdict"] == "violated":
            save_replay(pid, job, d, r)
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
    return r


def save_replay(pid, job, d, r):
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    v = r["violations"][0]
    path = os.path.join(rdir, "%s-%s.replay" % (pid, job.name))
    with open(path, "w") as f:
        f.write("# property %s, job %s\n# %s\n# at %s\n" % (pid, job.name, v["desc"], v["where"]))
        f.write("# replay: python3 vp/driver.py replay %s %s %s\n" % (pid, job.name, path))
        for l in v["text"].splitlines()[:60]:
            f.write("#| %s\n" % l)
        f.write("".join("%d\n" % x for x in v["vals"]))
    r["replay"] = path


# ---------------------------------------------------------------- front end
def load():
    sys.path.insert(0, os.path.join(VERIF, "vp"))
    import jobs
    return jobs


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    known = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) job=(\S+) (.*)$", l)
            if m:
                known.append(m.groups())
    return known


def check(pid, only=None):
    t0 = time.time()
    J = load()
    prop = J.PROPS[pid]
    jobs_ = [j for j in prop["jobs"] if TIER == "thorough" or j.tier == "quick"]
    if only:
        jobs_ = [j for j in prop["jobs"] if j.name in only]
    sem = Slots(SLOTS)
    results = []
    stop = threading.Event()

    def one(j):
        with sem.take(1):
            if stop.is_set():
                return None
            r = run_job(pid, j)
            if r["verdict"] == "violated" and not j.known:
                stop.set()
            return r
    with cf.ThreadPoolExecutor(max_workers=max(1, len(jobs_))) as ex:
        futs = [ex.submit(one, j) for j in jobs_]
        for j, f in zip(jobs_, futs):
            r = f.result()
            if r:
                results.append((j, r))
    viol, incon = [], []
    known = {(a, b): c for a, b, c in known_findings()}
    for j, r in results:
        x = r["x"]
        print("%s/%s: %s %.1fs paths=%s insts=%s queries=%s z3=%s solver=%.1fs checks=%s validated=%d+%d" % (
            pid, j.name, r["verdict"], r["wall"], x.get("paths"), x.get("insts"), x.get("queries"), x.get("z3queries"),
            x.get("solver_s", 0), x.get("checks"), r["witnesses"], r["validated"]))
        for w in r["disagree"]:
            print("   native run differs: " + w.replace("\n", "\n      "))
        if r["verdict"] == "violated":
            if j.known and (pid, j.known[0]) in known and not r.get("unknown"):
                print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, j.known[0])]))
            else:
                viol.append((j, r))
        elif r["verdict"] != "holds":
            incon.append((j, r))
            print("   inconclusive: " + r["detail"])
    write_evidence(pid, prop, results, len(viol), time.time() - t0)
    for j, r in viol:
        v = r["violations"][0]
        print("   %s: %s at %s" % (j.name, v["desc"], v["where"]))
        for l in v["text"].splitlines()[:12]:
            print("      | " + l)
        print("VIOLATION property=%s replay=%s" % (pid, r["replay"]))
    if viol:
        return 1
    if incon:
        return 2
    return 0


class Slots:
    def __init__(self, n):
        self.n = n
        self.c = threading.Condition()

    def take(self, k):
        s = self

        class T:
            def __enter__(self_):
                with s.c:
                    while s.n < k:
                        s.c.wait()
                    s.n -= k

            def __exit__(self_, *a):
                with s.c:
                    s.n += k
                    s.c.notify_all()
        return T()


def write_evidence(pid, prop, results, nviol, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    agg = lambda k: sum(r["x"].get(k, 0) for _, r in results)
    srcs, fns = set(), set()
    for j, r in results:
        srcs.update(s for s in j.src)
        for f in r["x"].get("functions", []):
            f = f.replace("/./", "/")
            if f.startswith(REPO + "/") or "scaled-" in f:
                fns.add(f.replace(REPO + "/", ""))
    cov = {
        "states": int(agg("paths")),
        "transitions": int(agg("forks")),
        "traces_validated_against_impl": sum(r["witnesses"] + r["validated"] + len(r["violations"]) for _, r in results),
        "samples": sum([r.get("samples", []) for _, r in results], [])[:24],
        "counts_meaning": "states = symbolic paths explored to their end (each stands for all inputs satisfying its path "
                          "condition); transitions = feasible branchings between them; traces_validated_against_impl = "
                          "solver-generated input vectors replayed on the natively compiled code with the same outcome",
        "assertions_evaluated": int(agg("checks")),
        "assertions_needing_a_query": int(agg("checkq")),
        "queries": int(agg("queries")),
        "queries_to_z3": int(agg("z3queries")),
        "queries_from_cache": int(agg("cachehits")),
        "queries_decided_on_value_sets": int(agg("domq")),
        "value_set_decisions_confirmed_by_z3": int(agg("crosschecked")),
        "solver_s": round(agg("solver_s"), 3),
        "instructions_executed_symbolically": int(agg("insts")),
        "assertion_sites": sorted(set(sum([r["x"].get("sites", []) for _, r in results], [])))[:200],
        "sources_encoded": sorted(srcs),
        "functions_encoded": sorted(fns),
        "checker_cmd": next((r["x"]["cmd"] for _, r in results if r["x"].get("cmd")), ""),
        "exhaustive": bool(results) and all(r["verdict"] == "holds" for _, r in results),
        "native_disagreements": sum(len(r["disagree"]) for _, r in results),
        "jobs": [dict(name=j.name, verdict=r["verdict"], bounds=j.bounds, wall_s=round(r["wall"], 2), detail=r["detail"],
                      paths=r["x"].get("paths", 0), queries=r["x"].get("queries", 0), z3=r["x"].get("z3queries", 0),
                      solver_s=round(r["x"].get("solver_s", 0), 3), reached=r["reach"], harness=j.harness,
                      constants=list(j.defs), scaled=j.scale or {}, sources=list(j.src)) for j, r in results],
    }
    ev = dict(property=pid, tier="thorough" if TIER == "thorough" else "quick", seed=SEED, level="model_checking",
              coverage=cov, assumptions=list(prop.get("assumes", [])) + sorted(set(sum([list(j.assumes) for j, _ in results], []))),
              wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main(argv):
    if argv[0] == "replay":
        pid, name, path = argv[1:4]
        J = load()
        j = next(x for x in J.PROPS[pid]["jobs"] if x.name == name)
        vals = [int(l) for l in open(path) if l.strip() and not l.startswith("#")]
        d = tempfile.mkdtemp(prefix="vp-replay-")
        try:
            ok, text, _, _ = confirm(j, d, vals, "replay", pid)
            print(text)
            print("reproduced" if ok else "not reproduced")
            return 1 if ok else 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return check(argv[0], only=argv[1:] or None)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
