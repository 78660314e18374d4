#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seed_defs/*.py and validates each planted bug in a scratch copy.

usage: seedlab.py build            write patch.diff, demo.sh, demo.py, meta.json for all definitions
       seedlab.py verify [ID...]   in a scratch copy: applies, builds, stable tests pass, demo 0 / non-zero
       seedlab.py catch [ID...]    in a scratch copy: which checks raise a violation (VERIF_REPO)
The scratch copies live under /tmp and are removed afterwards; /repo itself is never changed."""
import difflib, glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = "/verif"
REPO = "/repo"


sys.path.insert(0, os.path.join(V, "tools"))


def defs():
    out = []
    for f in sorted(glob.glob(os.path.join(V, "tools/seed_defs/*.py"))):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.SEEDS
    ids = [d["id"] for d in out]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return out


def patch_of(d):
    txt = ""
    byfile = {}
    for f, a, b in d["edits"]:
        p = os.path.join(REPO, "framework_python", f)
        s = byfile.get(f)
        if s is None:
            s = open(p).read()
        if s.count(a) != 1:
            raise SystemExit(f"{d['id']}: {s.count(a)} matches in {f} for:\n{a}")
        byfile[f] = s.replace(a, b)
    for f, s in byfile.items():
        old = open(os.path.join(REPO, "framework_python", f)).read()
        a, b = old.splitlines(True), s.splitlines(True)
        for l in difflib.unified_diff(a, b, "a/framework_python/" + f, "b/framework_python/" + f):
            txt += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    return txt


def blame(d):
    """original and own lines the patch takes away: it must change lines of the original repository"""
    base = subprocess.check_output(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[-1]
    n = {"orig": 0, "own": 0}
    for f in {e[0] for e in d["edits"]}:
        bl = subprocess.check_output(["git", "-C", REPO, "blame", "-l", "-s", "--root", "framework_python/" + f], text=True).splitlines()
        diff = patch_of(dict(d, edits=[e for e in d["edits"] if e[0] == f])).splitlines()
        ln = 0
        for l in diff[2:]:
            m = re.match(r"@@ -(\d+)", l)
            if m:
                ln = int(m.group(1)) - 1
            elif l.startswith("-"):
                n["orig" if bl[ln].lstrip("^").split()[0][:39] in base else "own"] += 1
                ln += 1
            elif l.startswith(" "):
                ln += 1
    return n


DEMO_SH = """#!/bin/bash
# exits 0 when the property holds for the demonstrated case, non-zero otherwise
here=$(cd "$(dirname "$0")" && pwd)
cd framework_python || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python -B "$here/demo.py"
"""


def build():
    root = os.path.join(V, "seeded")
    os.makedirs(root, exist_ok=True)
    keep = set()
    for d in defs():
        n = blame(d)
        if not n["orig"] or n["own"]:
            print(d["id"], "takes away", n)
        p = os.path.join(root, d["id"])
        keep.add(d["id"])
        os.makedirs(p, exist_ok=True)
        open(os.path.join(p, "patch.diff"), "w").write(patch_of(d))
        open(os.path.join(p, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(p, "demo.sh"), 0o755)
        open(os.path.join(p, "demo.py"), "w").write(d["demo"].lstrip("\n"))
        if "import grammar" in d["demo"]:
            g = open(os.path.join(V, "dst/grammar.py")).read()
            assert g.count("from . import repo\n") == 1
            open(os.path.join(p, "grammar.py"), "w").write(g.replace("from . import repo\n", "class repo:\n    ROOT = os.path.dirname(os.getcwd())\n"))
        json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]),
                  open(os.path.join(p, "meta.json"), "w"), indent=1)
    for x in os.listdir(root):
        if x not in keep:
            shutil.rmtree(os.path.join(root, x))
    print(len(keep), "planted bugs written")


def scratch():
    t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.check_call(["cp", "-a", REPO + "/.", t + "/repo"])
    return t


def run(cmd, cwd, env=None, timeout=400):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def tests(rp):
    fp = rp + "/framework_python"
    x = rp + "/junit.xml"
    run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
         "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x, "test"], fp, {"PYTHONHASHSEED": "0"})
    out = rp + "/out.json"
    run(["python3", "/opt/vp/results.py", out, "junit:" + x], fp)
    p = set(json.load(open(out))["passed"])
    return sorted(set(STABLE) - p)


def verify_one(d):
    t = scratch()
    try:
        rp = t + "/repo"
        sd = os.path.join(V, "seeded", d["id"])
        dd = t + "/demo"
        os.makedirs(dd)
        for f in os.listdir(sd):
            if f not in ("patch.diff", "meta.json"):
                shutil.copy(os.path.join(sd, f), dd)
        rc0, o0 = run(["bash", dd + "/demo.sh"], rp)
        rc, o = run(["git", "apply", sd + "/patch.diff"], rp)
        if rc:
            return d["id"], "does not apply: " + o
        rc, o = run(["/opt/venv/bin/python", "-c", "import compileall,sys; sys.exit(0 if compileall.compile_dir('framework_python/rei', quiet=1, legacy=True) else 1)"], rp)
        if rc:
            return d["id"], "does not compile " + o[-300:]
        run(["git", "clean", "-fdxq"], rp)
        miss = tests(rp)
        rc1, o1 = run(["bash", dd + "/demo.sh"], rp)
        ok = rc0 == 0 and rc1 != 0 and not miss
        return d["id"], ("ok   " if ok else "BAD  ") + f"clean={rc0} patched={rc1} missing={miss}" + ("" if ok else "\n" + o0[-800:] + "\n--\n" + o1[-800:]) + ("" if not ok else "  [" + (o1.strip().splitlines() or [""])[-1][:110] + "]")
    finally:
        shutil.rmtree(t)


def catch_one(d, pids, tier="quick"):
    t = scratch()
    try:
        rp = t + "/repo"
        run(["git", "apply", os.path.join(V, "seeded", d["id"], "patch.diff")], rp)
        res = []
        for pid in pids or [d["property"]]:
            vc = t + "/verif"
            if not os.path.exists(vc):
                subprocess.check_call(["rsync", "-a", "--exclude", "seeded", "--exclude", ".git", "--exclude", "evidence", "--exclude", "replays", V + "/", vc + "/"]) if shutil.which("rsync") else shutil.copytree(V, vc, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays"))
            rc, o = run(["./check", pid], vc, {"VERIF_REPO": rp, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_PROCS": os.environ.get("VERIF_PROCS", "8")}, 900)
            first = (o.strip().splitlines() or [""])[0][:230]
            res.append(f"{pid}:{'CAUGHT' if rc == 1 and f'VIOLATION property={pid}' in o else 'missed' if rc == 0 else 'ERROR' + str(rc)} {first}")
        return d["id"], "\n      ".join(res)
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "build":
        build()
    else:
        pids = [a for a in sys.argv[2:] if re.fullmatch(r"P\d\d", a)]
        want = [a for a in sys.argv[2:] if a not in pids]
        ds = [d for d in defs() if not want or any(d["id"].startswith(w) for w in want)]
        if cmd == "verify":
            with ThreadPoolExecutor(4) as ex:
                for i, m in ex.map(verify_one, ds):
                    print(i, m, flush=True)
        else:
            for d in ds:
                i, m = catch_one(d, pids)
                print(i, m, flush=True)
