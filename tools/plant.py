#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and tells which checks catch them (not part of any check).

  plant.py SPEC.py [ID ...]    SPEC.py defines BUGS: id -> dict(property, file, edits=[(old, new)], demo=C text or sh, needs, breaks)
  plant.py --checks ID [PROP ...]   runs the checks (default: the bug's own) against a kept bug"""
import os, sys, json, subprocess, shutil, tempfile, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
W = os.environ.get("PLANT_DIR", "/tmp/pl"); R = W + "/repo"
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]

DEMO_C = """#!/bin/sh
# builds a small program against the library as built and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -g -O1 -w -I "$R/maa" -o "$T/demo" "$D/demo.c" "$R/_build/src/maa/libmaa.a" -lm || exit 2
cd "$T" || exit 2
exec </dev/null
timeout 100 ./demo
"""

def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **kw)

def scratch():
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        sh("cp -a /repo %s" % R)
    sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD" % R)
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read()
        t = t.replace("REPO=/repo", "REPO=" + R).replace("B=/repo/_build", "B=%s/_build" % R).replace("/opt/vp/build.sh", W + "/build.sh")
        open(W + "/" + f, "w").write(t)

def build():
    sh("rm -rf %s/_build/src/maa/*.o %s/_build/src/maa/*.a %s/_build/src/maa/*.so*" % (R, R, R))
    return sh("bash %s/build.sh" % W)
def tests():
    p = sh("bash %s/test.sh %s/out.json" % (W, W))
    try: d = json.load(open(W + "/out.json"))
    except Exception: return ["no result"]
    return [t for t in BASE if t not in d["passed"]]
def demo(d):
    p = sh("bash %s/demo.sh" % d, cwd=R, timeout=320)
    return p.returncode, (p.stdout + p.stderr)[-600:]
def checks(props):
    env = dict(os.environ, VH_REPO=R, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"); res = {}
    for c in props:
        p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c], env=env, capture_output=True, text=True, errors="replace")
        res[c] = p.returncode
        print("   check", c, "->", p.returncode, (p.stdout.splitlines() or [""])[0][:200], p.stderr[:300] if p.returncode not in (0, 1) else "")
    return res

def main():
    a = sys.argv[1:]
    scratch()
    if a[0] == "--checks":
        m = json.load(open(os.path.join(SEED, a[1], "meta.json")))
        p = sh("git apply %s/patch.diff" % os.path.join(SEED, a[1]), cwd=R); print(p.stderr)
        checks(a[2:] or [m["property"]]); sh("git checkout -q -- .", cwd=R); return
    if a[0] == "--confirm":      # kept bugs again, after a change of /repo
        for x in a[1:]:
            d = os.path.join(SEED, x); build(); r0 = demo(d)[0]
            p = sh("git apply %s/patch.diff" % d, cwd=R); b = build(); r1 = demo(d)[0]; t = tests()
            print(x, "apply", p.returncode, "demo", r0, r1, "tests failed", t, flush=True); sh("git checkout -q -- .", cwd=R)
        return
    ns = {}; exec(open(a[0]).read(), ns); bugs = ns["BUGS"]
    summary = []
    for bid, b in bugs.items():
        if a[1:] and bid not in a[1:]: continue
        d = os.path.join(W, "cand", bid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if b.get("sh"): open(d + "/demo.sh", "w").write(b["sh"])
        else: open(d + "/demo.sh", "w").write(DEMO_C)
        if b.get("demo"): open(d + "/demo.c", "w").write(b["demo"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        sh("git checkout -q -- .", cwd=R)
        build()
        rc0, o0 = demo(d)
        bad = None
        for f, old, new in [(e[0], e[1], e[2]) if len(e) == 3 else (b["file"], e[0], e[1]) for e in b["edits"]]:
            p = R + "/maa/" + f; t = open(p).read()
            if t.count(old) != 1: # blank lines do not matter
                rx = r"\n(?:[ \t]*\n)*".join(re.escape(l) for l in old.split("\n") if l.strip() or l == old.split("\n")[-1])
                m = re.findall(rx, t)
                if len(m) == 1: old = m[0]
            if t.count(old) != 1: bad = "edit matches %d times in %s: %s" % (t.count(old), f, old[:60]); break
            open(p, "w").write(t.replace(old, new)); st = os.stat(p).st_mtime + 3; os.utime(p, (st, st)) # make looks at seconds
        if bad: print(bid, "BAD", bad); summary.append((bid, "BAD")); sh("git checkout -q -- .", cwd=R); continue
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
        own = sh("git diff -U0 $(git rev-list --max-parents=0 HEAD | tail -1) HEAD -- maa", cwd=R).stdout
        own = set(l[1:].strip() for l in own.splitlines() if l.startswith("+") and not l.startswith("+++") and len(l.strip()) > 6)
        mine = [l for l in open(d + "/patch.diff").read().splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() in own]
        if mine: print(bid, "changes lines of fix commits:", mine)
        p = build()
        if p.returncode: print(bid, "does not build", p.stderr[-500:], p.stdout[-500:]); sh("git checkout -q -- .", cwd=R); summary.append((bid, "NOBUILD")); continue
        ft = tests()
        rc1, o1 = demo(d)
        ok = rc0 == 0 and rc1 != 0 and not ft
        print("%s: demo %d/%d, tests failed %s -> %s" % (bid, rc0, rc1, ft, "CONFIRMED" if ok else "REJECTED"))
        if not ok: print("   base:", o0, "\n   bug:", o1)
        res = {}
        if ok:
            res = checks([b["property"]] + b.get("also", []))
            k = os.path.join(SEED, bid); shutil.rmtree(k, ignore_errors=True); shutil.copytree(d, k)
        summary.append((bid, "ok" if ok else "REJECTED", res))
        sh("git checkout -q -- .", cwd=R); sys.stdout.flush()
    print("\n".join(str(x) for x in summary))
main()
