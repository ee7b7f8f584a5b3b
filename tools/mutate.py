#!/usr/bin/env python3
"""Surveys the checks with small mechanical changes to the library (not part of any check).

  mutate.py OUT.jsonl [--files a.c,b.c] [--workers N] [--stride K] [--offset J]

Works on copies under /tmp; prints and records the changes no check noticed."""
import os, re, sys, json, shutil, subprocess, random, hashlib, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH = {"arg.c": "C12 C13", "base26.c": "C14", "base64.c": "C14", "bit.c": "C16", "debug.c": "C18", "flags.c": "C18", "error.c": "C19 C29",
      "hash.c": "C01 C02 C03", "list.c": "C06", "log.c": "C20 C21 C19", "maa.c": "C28", "memory.c": "C11 C10 C12", "parse-concrete.c": "C26",
      "pr.c": "C22 C24 C23", "prime.c": "C15", "set.c": "C04 C05 C02 C03", "sl.c": "C08", "source.c": "C25 C26", "stack.c": "C07",
      "string.c": "C09", "text.c": "C17", "timer.c": "C27", "xmalloc.c": "C29 C31", "maa.h": "C32", "arggram.txt": "C13"}
FALL = "C28 C29 C30 C31 C32".split()

def strip_comments(t):
    return re.sub(r"/\*.*?\*/|//[^\n]*", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S)

def num(v): return int(v, 8) if re.match(r"0\d", v) else int(v, 0)

def mutants(name, text):
    clean = strip_comments(text)
    # blank strings and chars
    blank = re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: m.group(0)[0] + "_" * (len(m.group(0)) - 2) + m.group(0)[0], clean)
    pos = 0; out = []
    cont = False; depth = 0
    for ln, line in enumerate(blank.split("\n")):
        raw = text.split("\n")[ln] if False else None
        s = line
        base = pos; pos += len(line) + 1
        pp = s.lstrip().startswith("#") or cont
        cont = pp and s.rstrip().endswith("\\")
        if name != "maa.h" and pp: continue
        if s.lstrip().startswith("#"): continue
        if s.startswith("__RCS"): continue
        def add(a, b, new, op): out.append((base + a, base + b, new, op, ln + 1))
        for m in re.finditer(r"(<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|->|<<|>>|\|=|&=|[<>+\-!*/%&|])", s):
            t = m.group(1); a, b = m.span()
            prev = s[:a].rstrip()[-1:] ; 
            if t == "->": continue
            if t in ("<", ">") and re.match(r"\s*#", s): continue
            R = {"<=": ["<", ">"], ">=": [">", "<"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "++": ["--"], "--": ["++"],
                 "+=": ["-="], "-=": ["+="], "<": ["<=", ">="], ">": [">=", "<="], "<<": [">>"], ">>": ["<<"], "|=": ["&="], "&=": ["|="]}.get(t)
            if R is None:
                if t == "!": R = [""]
                elif prev and (prev.isalnum() or prev in ")]_"):
                    R = {"+": ["-"], "-": ["+"], "%": ["/"], "/": ["*"], "&": ["|"], "|": ["&"]}.get(t)
                    if t == "*" and re.search(r"[0-9a-z)]\s*$", s[:a]) and re.match(r"\s*[0-9a-z(]", s[b:]) and not re.match(r"\s*(const|static|extern|int|char|void|unsigned|struct|typedef|FILE|size_t|double)\b", s): R = ["/"]
            for n in R or []: add(a, b, n, t + "->" + n)
        for m in re.finditer(r"(?<![\w.])(\d+|0x[0-9a-fA-F]+)(?![\w.])", s):
            v = m.group(1)
            add(m.start(), m.end(), str(num(v) + 1), v + "+1")
            if num(v) > 1: add(m.start(), m.end(), str(num(v) - 1), v + "-1")
        m = re.match(r"(\s+)((?:[\w\->.\[\]*()+ ]+(?:=|\+=|-=|\|=|&=)[^=].*|\+\+.*|.*\+\+|.*--|[\w>\-.]+\s*\(.*\));)\s*$", s)
        if m and not re.match(r"\s*(const|static|extern|int|char|void|unsigned|struct|typedef|FILE|size_t|double|long|[a-z_]+_[A-Z]\w*\s|\w+\s+\*?\w+\s*=|return)\b", s):
            add(len(m.group(1)), len(m.group(1)) + len(m.group(2)), ";", "delete statement")
        m = re.match(r"\s+(break|continue|return[^;]*|goto \w+);", s)
        if m and m.group(1) in ("break", "continue"): add(m.start(1), m.end(1) + 1, ";", "delete " + m.group(1))
        for m in re.finditer(r"\b(if|while)\s*\((.*)\)\s*(\{|\S.*;|)\s*$", s):
            if m.group(2).count("(") == m.group(2).count(")"):
                add(m.start(2), m.end(2), "1", "cond->1") if m.group(1) == "if" else None
                add(m.start(2), m.end(2), "0", "cond->0")
    return out

def main():
    a = sys.argv[1:]; opt = {}; outp = a[0]; i = 1
    while i < len(a): opt[a[i][2:]] = a[i + 1]; i += 2
    files = opt.get("files", ",".join(CH)).split(",")
    W = int(opt.get("workers", "5")); stride = int(opt.get("stride", "1")); off = int(opt.get("offset", "0"))
    done = set()
    if os.path.exists(outp):
        for l in open(outp): done.add(json.loads(l)["id"])
    q = queue.Queue(); n = 0
    allm = []
    for f in files:
        t = open("/repo/maa/" + f).read()
        for k, (s, e, new, op, ln) in enumerate(mutants(f, t)):
            mid = "%s:%d:%d:%s" % (f, ln, s, hashlib.sha1(op.encode()).hexdigest()[:6])
            allm.append((mid, f, s, e, new, op, ln))
    allm = allm[off::stride]
    random.Random(7).shuffle(allm)
    for m in allm:
        if m[0] not in done: q.put(m); n += 1
    print(n, "mutants"); sys.stdout.flush()
    lock = threading.Lock()
    def worker(w):
        R = "/tmp/mut/r%d" % w; V = "/tmp/mut/v%d" % w
        shutil.rmtree(R, ignore_errors=True); shutil.rmtree(V, ignore_errors=True)
        os.makedirs("/tmp/mut", exist_ok=True)
        shutil.copytree("/repo", R, ignore=shutil.ignore_patterns("_build", ".git", "doc"))
        os.makedirs(V)
        subprocess.run("cp -a check.py props.py harness known_findings.txt %s/" % V, shell=True, cwd=HERE, check=True)
        c = open(V + "/check.py").read().replace("NCPU = os.cpu_count() or 4", "NCPU = 3")
        open(V + "/check.py", "w").write(c)
        env = dict(os.environ, VH_REPO=R, VERIF_SEED="1", VERIF_TIER="quick")
        cc = ["gcc", "-O2", "-w", "-DHAVE_HEADER_SYS_RESOURCE_H=1", "-DHAVE_HEADER_ALLOCA_H=1", "-DSIZEOF_LONG=8", "-DMAA_MAJOR=4", "-DMAA_MINOR=1", "-DMAA_TEENY=0", "-I" + R + "/maa", "-I" + V, "-c"]
        subprocess.run("awk -f %s/maa/arggram2c < %s/maa/arggram.txt > %s/arggram.c" % (R, R, V), shell=True)
        base = {}
        def obj(f):
            p = subprocess.run(cc + [R + "/maa/" + f, "-o", V + "/o.o"], capture_output=True)
            if p.returncode: return None
            return open(V + "/o.o", "rb").read()
        while True:
            try: mid, f, s, e, new, op, ln = q.get_nowait()
            except queue.Empty: return
            t = open("/repo/maa/" + f).read()
            rec = dict(id=mid, file=f, line=ln, op=op, text=t.split("\n")[ln - 1].strip())
            if f.endswith(".c") and f not in base: base[f] = obj(f)
            open(R + "/maa/" + f, "w").write(t[:s] + new + t[e:])
            rec["res"] = None
            if f.endswith(".c"):
                o = obj(f)
                if o is None: rec["res"] = "nocompile"
                elif o == base[f]: rec["res"] = "same"
            if rec["res"] is None:
                for c in CH[f].split() + [x for x in FALL if x not in CH[f]]:
                    try: p = subprocess.run([sys.executable, "check.py", c], cwd=V, env=env, capture_output=True, timeout=900); rc = p.returncode
                    except subprocess.TimeoutExpired: rc = 99
                    if rc == 1: rec["res"] = "caught"; rec["by"] = c; rec["key"] = p.stdout.decode(errors="replace")[:120]; break
                    if rc: rec.setdefault("odd", []).append((c, rc, p.stderr.decode(errors="replace")[-200:]))
                else: rec["res"] = "survived"
                subprocess.run("rm -rf %s/build/t-* %s/build/lock-*" % (V, V), shell=True); shutil.rmtree(V + "/replay", ignore_errors=True)
            open(R + "/maa/" + f, "w").write(t)
            with lock:
                open(outp, "a").write(json.dumps(rec) + "\n")
                if rec["res"] == "survived": print(mid, op, "|", rec["text"], "|", rec.get("odd", "")); sys.stdout.flush()
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree("/tmp/mut", ignore_errors=True)
main()
