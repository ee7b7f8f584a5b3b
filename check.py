#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py PROP [--tier quick|thorough] [--seed N] [--only RUN] [--cases N]
  check.py --replay FILE
  check.py --build            (pre-builds everything)

exit 0: held on everything explored (known findings are listed);
exit 1: VIOLATION property=.. replay=..; exit 2: error or inconclusive."""
import os, sys, json, time, subprocess, shutil, tempfile, re, hashlib, struct, fcntl, signal, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props

BUILD = os.path.join(HERE, "build")
REPLAY = os.path.join(HERE, "replay")
HARN = os.path.join(HERE, "harness")
NCPU = os.cpu_count() or 4
SAN_EXIT = 77

class Trouble(Exception):
    pass

# ------------------------------------------------------------------ building
FALLBACK_SRCS = ("xmalloc hash set stack list error memory string debug flags maa prime bit timer "
                 "arg pr sl base64 base26 source parse-concrete text log").split()

VARIANTS = {
    "asan": dict(cc="clang", flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                    "-fno-sanitize=function", "-fno-sanitize-recover=all"]),
    "msan": dict(cc="clang", flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory",
                                    "-fno-sanitize-recover=all"]),
    "plain": dict(cc="gcc", flags=["-O2", "-g"]),
    "plain1": dict(cc="clang", flags=["-O1", "-g"]),
}

def lib_sources():
    maa = os.path.join(REPO, "maa")
    try:
        t = open(os.path.join(maa, "Makefile")).read().replace("\\\n", " ")
        m = re.search(r"^SRCS\s*\+?=(.*)$", t, re.M)
        s = [x for x in m.group(1).split() if x.endswith(".c")]
        for m in re.finditer(r"^SRCS\s*\+=(.*)$", t, re.M):
            s += [x for x in m.group(1).split() if x.endswith(".c") and x not in s]
        s = [x for x in s if os.path.exists(os.path.join(maa, x))]
        if s:
            return s
    except Exception:
        pass
    return [x + ".c" for x in FALLBACK_SRCS]

def versions():
    r = {"MAA_MAJOR": "4", "MAA_MINOR": "1", "MAA_TEENY": "0"}
    try:
        for m in re.finditer(r"^(MAA_(?:MAJOR|MINOR|TEENY))\s*[?:]?=\s*(\S+)", open(os.path.join(REPO, "Makefile.common")).read(), re.M):
            r[m.group(1)] = m.group(2)
    except OSError:
        pass
    return r

def digest_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def tree_files():
    maa = os.path.join(REPO, "maa")
    r = [os.path.join(maa, f) for f in os.listdir(maa)]
    r = [f for f in r if os.path.isfile(f) and not f.endswith((".o", ".os"))]
    c = os.path.join(REPO, "Makefile.common")
    return r + ([c] if os.path.exists(c) else [])

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise Trouble("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout

class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.f = open(path, "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def touch(d):
    try: os.utime(d)
    except OSError: pass

def prune():
    """keeps the build directory small: only the newest trees"""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("t-")]
        ds = [d for d in ds if time.time() - os.path.getmtime(d) > 3600]
        for d in sorted(ds, key=os.path.getmtime)[:-2] if len(ds) > 2 else []:
            shutil.rmtree(d, ignore_errors=True)
        o = os.path.join(BUILD, "objects")
        for f in os.listdir(o):
            f = os.path.join(o, f)
            if time.time() - os.path.getmtime(f) > 6 * 3600: os.unlink(f)
    except OSError:
        pass

def compile_cached(cc, flags, inc, src, out, deps, cwd=None):
    """compiles src, or takes the object of an earlier identical compilation"""
    c = os.path.join(BUILD, "objects", digest_files([src], "\0".join([cc, deps] + flags)) + ".o")
    if not os.path.exists(c):
        os.makedirs(os.path.dirname(c), exist_ok=True)
        tmp = c + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        run([cc] + flags + inc + ["-c", src, "-o", tmp], cwd=cwd)
        os.rename(tmp, c)
    touch(c)
    shutil.copyfile(c, out)

def lib_defs():
    v = versions()
    return ["-DHAVE_HEADER_SYS_RESOURCE_H=1", "-DHAVE_HEADER_ALLOCA_H=1", "-DSIZEOF_LONG=8"] + \
           ["-D%s=%s" % kv for kv in sorted(v.items())]

def build_lib(variant, tree):
    """-> directory with libmaa.a (or libmaa.so for 'so')"""
    base = os.path.join(BUILD, "t-" + tree)
    d = os.path.join(base, variant)
    with Lock(os.path.join(BUILD, "lock-" + tree + "-" + variant)):
        if os.path.exists(os.path.join(d, "done")):
            touch(base)
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        maa = os.path.join(REPO, "maa")
        with open(os.path.join(maa, "arggram.txt")) as i, open(os.path.join(d, "arggram.c"), "w") as o:
            subprocess.run(["awk", "-f", os.path.join(maa, "arggram2c")], stdin=i, stdout=o, check=True)
        if variant == "so":
            cc, fl = "gcc", ["-O2", "-g", "-fPIC"]
        else:
            cc, fl = VARIANTS[variant]["cc"], VARIANTS[variant]["flags"]
        srcs = lib_sources()
        shared = [f for f in tree_files() if os.path.basename(f) not in srcs]
        for s in srcs:
            if [x for x in re.findall(r'#\s*include\s*"([^"]+)"', open(os.path.join(maa, s), errors="replace").read()) if os.path.basename(x) in srcs]:
                shared = tree_files()
        deps = digest_files(shared)
        def one(s):
            compile_cached(cc, fl + ["-w"] + lib_defs(), ["-I" + maa, "-I" + d], os.path.join(maa, s), os.path.join(d, s[:-2] + ".o"), deps, cwd=d)
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, srcs))
        objs = [os.path.join(d, s[:-2] + ".o") for s in srcs]
        if variant == "so":
            sym = [l.split("#")[0].strip() for l in open(os.path.join(maa, "export.sym"))]
            sym = [l for l in sym if l]
            vs = os.path.join(d, "export.map")
            with open(vs, "w") as f:
                f.write("{ global:\n" + "".join(s + ";\n" for s in sym) + "local: *; };\n")
            run([cc, "-shared", "-Wl,-soname,libmaa.so.4", "-Wl,--version-script," + vs, "-o", os.path.join(d, "libmaa.so")] + objs, cwd=d)
            os.symlink("libmaa.so", os.path.join(d, "libmaa.so.4"))
        run(["ar", "rcs", os.path.join(d, "libmaa.a")] + objs, cwd=d)
        open(os.path.join(d, "done"), "w").close()
    return d

def build_driver(r, tree):
    """-> path of the executable for run r"""
    variant = r["variant"]
    lib = build_lib(variant, tree)
    if r.get("so"):
        so = r["_so"] = build_lib("so", tree)
    harness = [os.path.join(HARN, f) for f in os.listdir(HARN) if f.endswith((".c", ".h"))]
    used = [os.path.join(HARN, s) for s in r["src"]] + [h for h in harness if h.endswith(".h")] + [os.path.join(HARN, "vh.c"), os.path.join(HARN, "vh_plain.c")]
    key = digest_files(used, json.dumps([r.get("defs"), r.get("wrap"), r.get("libs"), r.get("so"), r.get("noplain"), r.get("cflags"), VARIANTS[variant]]))
    base = os.path.join(BUILD, "t-" + tree)
    exe = os.path.join(base, "%s-%s-%s" % (r["name"], variant, key))
    with Lock(exe.replace("/t-" + tree + "/", "/lock-" + tree + "-") ):
        if os.path.exists(exe):
            return exe
        v = VARIANTS[variant]
        inc = ["-I" + HARN, "-I" + os.path.join(REPO, "maa")]
        tmp = tempfile.mkdtemp(prefix="obj-", dir=base)
        try:
            srcs = [os.path.join(HARN, s) for s in r["src"]] + [os.path.join(HARN, "vh.c")]
            if not r.get("noplain"):
                srcs.append(os.path.join(HARN, "vh_plain.c"))
            objs = []
            heads = digest_files([h for h in harness if h.endswith(".h")] + [f for f in tree_files() if not f.endswith(".c")])
            for s in srcs:
                o = os.path.join(tmp, os.path.basename(s)[:-2] + ".o")
                compile_cached(v["cc"], ["-std=gnu11", "-D_GNU_SOURCE"] + v["flags"] + ["-Wall", "-Wno-unused-function", "-Wno-unknown-warning-option", "-Wno-format-truncation", "-Wno-unused-result"] + r.get("cflags", []) + r.get("defs", []),
                               inc, s, o, heads)
                objs.append(o)
            link = [v["cc"]] + v["flags"] + ["-o", exe + ".tmp"] + objs
            if r.get("so"):
                # what is missing is found by the driver, by name
                link += ["-rdynamic", "-L" + so, "-Wl,-rpath," + so, "-lmaa", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"]
            else:
                link += [os.path.join(lib, "libmaa.a")]
            link += ["-Wl,--wrap=" + w for w in r.get("wrap", [])] + ["-lm", "-lpthread", "-ldl"] + r.get("libs", [])
            run(link)
            os.rename(exe + ".tmp", exe)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return exe

# ------------------------------------------------------------------ running
def environment(scratch):
    sy = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "/usr/lib/llvm-18/bin/llvm-symbolizer"
    common = "exitcode=%d:symbolize=1:handle_abort=0:allocator_may_return_null=1:external_symbolizer_path=%s" % (SAN_EXIT, sy)
    return {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "TZ": "UTC", "HOME": scratch, "TMPDIR": scratch,
            "ASAN_OPTIONS": common + ":detect_leaks=0:abort_on_error=0:quarantine_size_mb=64:max_malloc_fill_size=4096",
            "UBSAN_OPTIONS": common + ":print_stacktrace=1:halt_on_error=1",
            "MSAN_OPTIONS": common.replace("exitcode", "exit_code") + ":abort_on_error=0"}

def read_progress(path):
    try:
        b = open(path, "rb").read()
        case, n = struct.unpack_from("<QQ", b, 0)
        return case, b[24:24 + n].decode(errors="replace")
    except Exception:
        return None, ""

LOST_RE = re.compile(r"lost-memory:")
MEMORY_RE = re.compile(r"san:|crash:signal-(4|7|8|11)$|.*(memory-error|memory-fault|sanitizer)")
SAN_RE = re.compile(r"ERROR: (AddressSanitizer|MemorySanitizer|LeakSanitizer|UndefinedBehaviorSanitizer): ([A-Za-z0-9_-]+)")
SAN_RE2 = re.compile(r"WARNING: MemorySanitizer: ([A-Za-z0-9_-]+)")
UB_RE = re.compile(r"runtime error: (.*)")
FRAME_RE = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)")

def san_key(err):
    kind = "sanitizer"
    m = UB_RE.search(err)
    if m:
        kind = "ub:" + re.sub(r"[^A-Za-z]+", "-", re.sub(r"0x[0-9a-f]+|'[^']*'|[-0-9]+", "", m.group(1)))[:50].strip("-")
    if "LeakSanitizer" in err:
        # the first loss that was allocated inside the library
        for b in re.split(r"\n\n", err):
            fs = [m.group(1) for m in FRAME_RE.finditer(b) if "/maa/" in m.group(2) and "/compiler-rt/" not in m.group(2)] if "leak of" in b else []
            if fs:
                return "lost-memory:" + next((f for f in fs if f not in ("xmalloc", "xcalloc", "xrealloc", "xstrdup")), fs[0])
        return "san:leak:not-the-library"
    m2 = SAN_RE.search(err) or SAN_RE2.search(err)
    if m2 and not m:
        kind = m2.group(m2.lastindex)
    fn = "?"
    for m in FRAME_RE.finditer(err):
        if "/maa/" in m.group(2) and "/compiler-rt/" not in m.group(2):
            fn = m.group(1); break
    return "san:%s:%s" % (kind, fn)

def classify(rc, err, verdict):
    """-> (status, key, message); status in ok, violation, inconclusive, hang, error"""
    if rc == 0:
        return "ok", None, None
    if rc == 10 and verdict:
        return "violation", verdict["key"], verdict["msg"]
    if rc == 11:
        return "inconclusive", "inconclusive", verdict["msg"] if verdict else err[-500:]
    if rc in (12, 13):
        return "hang", "hang", "the case did not end within its limit (%s)" % ("CPU time" if rc == 12 else "wall clock")
    if rc == SAN_EXIT or "Sanitizer" in err and "ERROR" in err or "runtime error:" in err:
        i = max(0, min([x for x in (err.find("ERROR: "), err.find("runtime error:"), err.find("WARNING: MemorySan")) if x >= 0] or [0]) - 100)
        return "violation", san_key(err), err[i:i + 2500]
    if rc == 20:
        return "error", "error", err[-1500:]
    if rc == -signal.SIGABRT:
        m = re.search(r"\(([A-Za-z_0-9]+)\): (.*)\n(?:.*\n)*?.*[Ii]nternal error", err) or re.search(r"([A-Za-z_0-9]+): (?:Assertion|.*)", err)
        return "violation", "unexpected-abort" + (":" + m.group(1) if m else ""), err[-1500:]
    if rc == -signal.SIGKILL:
        return "error", "killed", "killed (memory?)"
    if rc < 0:
        return "violation", "crash:signal-%d" % -rc, err[-1500:]
    return "violation", "unexpected-exit-%d" % rc, err[-1500:]

class Shard:
    pass

def start(exe, r, prop, seed, tier, frm, to, step, scratch, tag, cpu, wall, stop=None):
    base = os.path.join(scratch, tag)
    sub = base + ".d"
    os.makedirs(sub, exist_ok=True)
    cmd = [exe, "--seed", str(seed), "--prop", prop, "--tier", tier, "--from", str(frm), "--to", str(to), "--step", str(step),
           "--out", base + ".json", "--progress", base + ".pg", "--scratch", sub, "--cpu", str(cpu), "--wall", str(wall)]
    for o in r.get("opts", []):
        cmd += ["--opt", o]
    for f in (base + ".json", base + ".json.verdict", base + ".json.dig", base + ".pg"):
        if os.path.exists(f): os.unlink(f)
    err = open(base + ".err", "wb"); out = open(base + ".out", "wb")
    env = environment(sub)
    if r.get("leak"):
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1:leak_check_at_exit=0")
    env.update(r.get("env", {}))
    pre = None
    if r.get("stack_kb"):
        import resource
        kb = r["stack_kb"]
        pre = lambda: resource.setrlimit(resource.RLIMIT_STACK, (kb * 1024, kb * 1024))
    if r.get("helper"):
        env["VH_HELPER"] = r["_helper"]
    if r.get("so"):
        env.update({"VH_SO": os.path.join(r["_so"], "libmaa.so"), "VH_LIBA": os.path.join(r["_so"], "libmaa.a"), "VH_MAA": os.path.join(REPO, "maa")})
        env.update({"VH_" + k: v for k, v in versions().items()})
    t = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out, stderr=err, env=env, cwd=sub, start_new_session=True, preexec_fn=pre)
    hard = r.get("hard", 780)
    rc = None
    while rc is None:
        try:
            rc = p.wait(timeout=0.2 if stop else hard)
        except subprocess.TimeoutExpired:
            if time.time() - t > hard: rc = 14
            elif stop and stop.is_set(): rc = 15
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    if rc in (14, 15): p.wait()
    out.close(); err.close()
    s = Shard()
    s.rc, s.cmd, s.wall = rc, cmd, time.time() - t
    with open(base + ".err", "rb") as f:
        f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 60000)); s.err = f.read().decode(errors="replace")
    s.verdict = None
    try: s.verdict = json.load(open(base + ".json.verdict"))
    except Exception: pass
    s.case, s.trace = read_progress(base + ".pg")
    s.res = None; s.dig = []
    if rc == 0:
        try:
            s.res = json.load(open(base + ".json"))
            b = open(base + ".json.dig", "rb").read()
            s.dig = [x[0] for x in struct.iter_unpack("<Q", b)]
        except Exception as e:
            s.rc = 20; s.err += "\nno result file: %s" % e
    shutil.rmtree(sub, ignore_errors=True)
    return s

def known_findings():
    k = {}
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m:
                k[(m.group(1), m.group(2))] = m.group(3).strip()
    except OSError:
        pass
    return k

def explore(prop, cfg, tier, seed, only=None, cases=None, verbose=False):
    t0 = time.time()
    known = known_findings()
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop, dir="/tmp")
    os.chmod(scratch, 0o755)
    tot = dict(cases=0, nontrivial=0, events={}, samples=[], digests=set(), runs={})
    violations, knownhits, troubles = [], {}, []
    lock = threading.Lock(); stop = threading.Event()
    try:
        tree = digest_files(tree_files())
        runs = [r for r in cfg["runs"] if (not only or r["name"] == only or r["name"] + ":" + r["variant"] == only) and (tier == "thorough" or r.get("quick", 0))]
        jobs = []
        with ThreadPoolExecutor(4) as ex:
            def bld(r):
                try:
                    r["exe"] = build_driver(r, tree)
                    if r.get("helper"):
                        r["_helper"] = build_helper(r["helper"], tree)
                except Trouble as e:
                    r["exe"] = None
                    with lock: troubles.append("run %s:%s not built: %s" % (r["name"], r["variant"], e))
            list(ex.map(bld, runs))
            runs = [r for r in runs if r["exe"]]
        t_build = time.time() - t0
        for r in runs:
            n = cases or r.get(tier, r.get("quick"))
            J = min(n, r.get("shards", NCPU))
            for j in range(J):
                jobs.append((r, j, n, J))
        def work(job):
            r, j, n, J = job
            frm = j; others = 0
            tag = "%s-%s-%d" % (r["name"], r["variant"], j)
            cpu, wall = r.get("cpu", 30), r.get("wall", 100)
            while frm < n:
                with lock:
                    if stop.is_set() or r.get("_hung"): return
                s = start(r["exe"], r, prop, seed, tier, frm, n, J, scratch, tag, cpu, wall, stop)
                if s.rc == 15: return
                if s.rc == 14:
                    with lock: troubles.append("shard %s ran out of its hard limit at case %s" % (tag, s.case))
                    return
                st, key, msg = classify(s.rc, s.err, s.verdict)
                if st == "ok":
                    with lock:
                        tot["cases"] += s.res["cases"]; tot["nontrivial"] += s.res["nontrivial"]
                        mx = set(s.res["max"])
                        for k, v in s.res["events"].items():
                            tot["events"][k] = max(tot["events"].get(k, 0), v) if k in mx else tot["events"].get(k, 0) + v
                        for x in s.res["samples"]:
                            if len(tot["samples"]) < 6 and x not in tot["samples"]: tot["samples"].append(x)
                        tot["digests"].update(s.dig)
                        rr = tot["runs"].setdefault(r["name"] + ":" + r["variant"], dict(cases=0, cpu_wall_s=0.0))
                        rr["cases"] += s.res["cases"]; rr["cpu_wall_s"] = round(rr["cpu_wall_s"] + s.wall, 2)
                    return
                c = s.case if s.case is not None else frm
                if r.get("sanonly") and st in ("hang", "inconclusive", "error"):
                    # not a memory fault; the monitor this run is borrowed from judges it
                    with lock: tot["events"]["cases cut short by another property's monitor"] = tot["events"].get("cases cut short by another property's monitor", 0) + 1
                    if st == "hang": r["_hung"] = True
                    return
                # what came before this case in the shard was fine
                if st in ("hang", "inconclusive"):
                    a = start(r["exe"], r, prop, seed, tier, c, c + 1, 1, scratch, tag + "-again", cpu * 3, wall * 2, stop)
                    if a.rc == 15: return
                    st2, key2, msg2 = classify(a.rc, a.err, a.verdict)
                    if st2 == "ok":
                        with lock: tot["events"]["watchdog firings that did not reproduce"] = tot["events"].get("watchdog firings that did not reproduce", 0) + 1
                        # repeat the part before and go on behind it
                        if c > frm:
                            b = start(r["exe"], r, prop, seed, tier, frm, c, J, scratch, tag + "-before", cpu * 3, wall * 2, stop)
                            if b.rc == 0:
                                with lock: tot["cases"] += b.res["cases"]; tot["digests"].update(b.dig); tot["nontrivial"] += b.res["nontrivial"]
                        frm = c + J
                        continue
                    if st2 == "inconclusive":
                        with lock: troubles.append("inconclusive twice: %s" % msg2)
                        return
                    s = a; key, msg = key2, msg2
                    st = "violation" if st2 == "hang" else st2
                if st == "error":
                    with lock: troubles.append("%s case %s: %s" % (tag, c, msg))
                    return
                if r.get("sanonly") and not (LOST_RE if r.get("leak") else MEMORY_RE).match(key):
                    # another property's business
                    with lock: tot["events"]["cases cut short by another property's monitor"] = tot["events"].get("cases cut short by another property's monitor", 0) + 1
                    if os.environ.get("VH_SHOW"): print(tag, c, key, s.err[-1500:], file=sys.stderr)
                    others += 1
                    if others > 40: return
                    frm = c + J
                    continue
                with lock:
                    if (prop, key) in known:
                        knownhits.setdefault(key, known[(prop, key)])
                        frm = c + J
                        continue
                    violations.append(dict(key=key, msg=msg, case=c, run=r["name"], variant=r["variant"], opts=r.get("opts", []), prop=r.get("prop", prop), trace=s.trace, err=s.err[-6000:], cmd=s.cmd)); stop.set()
                return
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(work, jobs))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    prune()
    # ---- evidence
    need = dict(cfg.get("need", {}))
    if not only and not cases and not violations:
        for k, v in need.items():
            if tot["events"].get(k, 0) < v:
                troubles.append("too little observed: %s = %d, need %d" % (k, tot["events"].get(k, 0), v))
        if not tot["digests"]:
            troubles.append("no non-trivial case observed")
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "exploration"),
              coverage=dict(evaluations=tot["cases"], distinct_nontrivial=len(tot["digests"]), rule=cfg["rule"],
                            samples=tot["samples"] or ["(none)"], observed_events=dict(sorted(tot["events"].items())),
                            executions_per_build=tot["runs"]),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    if knownhits: ev["coverage"]["known_findings_met"] = sorted(knownhits)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=False); f.write("\n")
    for k, v in sorted(knownhits.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, v))
    if violations:
        os.makedirs(REPLAY, exist_ok=True)
        seen = set()
        for v in violations:
            if v["key"] in seen: continue
            seen.add(v["key"])
            path = os.path.join(REPLAY, "%s-%s-seed%d-case%d.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", v["key"])[:60], seed, v["case"]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, key=v["key"], message=v["msg"], seed=seed, tier=tier, run=v["run"], variant=v["variant"], opts=v["opts"], run_property=v["prop"], case=v["case"],
                               rerun="python3 check.py --replay " + path, trace=v["trace"].splitlines()[-400:], stderr=v["err"]), f, indent=1)
            print("%s [%s case %d]: %s" % (v["key"], v["run"] + ":" + v["variant"], v["case"], (v["msg"] or "")[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if troubles:
        for t in troubles[:5]: print("ERROR property=%s %s" % (prop, t), file=sys.stderr)
        return 2
    print("held: %s (%s, seed %d): %d executions, %d distinct non-trivial, %d oracle checks, build %.1f s, total %.1f s" % (
        prop, tier, seed, tot["cases"], len(tot["digests"]), tot["events"].get("oracle checks", 0), t_build, time.time() - t0))
    if verbose:
        for k, v in sorted(tot["events"].items()): print("   %-50s %d" % (k, v))
        for k, v in tot["runs"].items(): print("   run", k, v)
        for s in tot["samples"]: print("   sample:", s)
    return 0

def build_helper(name, tree):
    src = os.path.join(HARN, name)
    base = os.path.join(BUILD, "helpers"); os.makedirs(base, exist_ok=True)
    exe = os.path.join(base, name[:-2] + "-" + digest_files([src]))
    with Lock(os.path.join(BUILD, "lock-helper-" + name)):
        if not os.path.exists(exe):
            run(["gcc", "-O1", "-g", "-D_GNU_SOURCE", "-o", exe + ".tmp", src]); os.rename(exe + ".tmp", exe)
    return exe

def main():
    a = sys.argv[1:]
    opt = {}; pos = []
    i = 0
    while i < len(a):
        if a[i] in ("--tier", "--seed", "--only", "--cases", "--replay"):
            opt[a[i][2:]] = a[i + 1]; i += 2
        elif a[i] in ("-v", "--build"):
            opt[a[i].lstrip("-")] = True; i += 1
        else:
            pos.append(a[i]); i += 1
    if "build" in opt:
        tree = digest_files(tree_files())
        rs = [r for c in props.PROPS.values() for r in c["runs"]]
        for v in sorted(set(r["variant"] for r in rs)): build_lib(v, tree)
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda r: build_driver(r, tree), rs))
        for r in rs:
            if r.get("helper"): build_helper(r["helper"], tree)
        return 0
    if "replay" in opt:
        d = json.load(open(opt["replay"]))
        cfg = props.PROPS[d["property"]]
        tree = digest_files(tree_files())
        r = [r for r in cfg["runs"] if r["name"] == d["run"] and r["variant"] == d["variant"] and r.get("opts", []) == d.get("opts", [])
             and r.get("prop", d["property"]) == d.get("run_property", d["property"])][0]
        exe = build_driver(r, tree)
        if r.get("helper"): r["_helper"] = build_helper(r["helper"], tree)
        sc = tempfile.mkdtemp(prefix="vh-replay-", dir="/tmp"); os.chmod(sc, 0o755)
        try:
            s = start(exe, r, d["property"], d["seed"], d["tier"], d["case"], d["case"] + 1, 1, sc, "replay", r.get("cpu", 30) * 3, r.get("wall", 100) * 2)
        finally:
            shutil.rmtree(sc, ignore_errors=True)
        st, key, msg = classify(s.rc, s.err, s.verdict)
        print(s.trace[-6000:]); print(s.err[-6000:])
        print("replay:", st, key, msg)
        return 0 if st == "ok" else 1
    prop = pos[0]
    tier = opt.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opt.get("seed") or os.environ.get("VERIF_SEED") or "1")
    if tier not in ("quick", "thorough"): tier = "quick"
    if prop not in props.PROPS:
        print("unknown property", prop, file=sys.stderr); return 2
    return explore(prop, props.PROPS[prop], tier, seed, opt.get("only"), int(opt["cases"]) if "cases" in opt else None, "v" in opt)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Trouble as e:
        print("ERROR", e, file=sys.stderr); sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc(); sys.exit(2)
