"""Is one seed one execution? Runs the same cases in separate processes with other hash seeds."""
import json
import os
import subprocess
import sys

from . import repo
from .base import digest


def digests(seed, n, pid=None):
    from .registry import CHECKS
    from .runner import gen_case, load_check, run_case
    for p in [pid] if pid else CHECKS:
        check = load_check(p)
        out = []
        for i in range(n):
            case = gen_case(check, seed, i, "quick")
            r = run_case(check, case)
            c = r.ctx
            out.append(digest([case, r.violation, r.discard, r.error, c.trace, sorted(c.states), sorted(c.ops.items()),
                               sorted(c.faults.items()), c.steps, c.simtime]))
            if r.error:
                print(r.error, file=sys.stderr)
        print(json.dumps([p, out]), flush=True)
    return 0


def main(seed, n, pid=None):
    outs = []
    ps = []
    for hs in ("0", "1", "77"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        cmd = [sys.executable, "-B", os.path.join(repo.VERIF, "check.py"), "--digest", "--seed", str(seed), "--runs", str(n)]
        ps.append(subprocess.Popen(cmd + ([pid] if pid else []), env=env, stdout=subprocess.PIPE, text=True))
    for p in ps:
        outs.append(p.communicate()[0])
    if any(p.returncode for p in ps):
        print("selftest: a run failed", file=sys.stderr)
        return 1
    a = [[json.loads(l) for l in o.splitlines()] for o in outs]
    bad = [x[0] for x, y, z in zip(*a) if not (x == y == z)]
    if bad:
        print("selftest: not reproducible: " + " ".join(bad), file=sys.stderr)
        return 1
    print(f"selftest: {len(a[0])} checks, {n} runs each, identical in {len(a)} processes with different hash seeds")
    return 0
