"""Runs the cases of a check on all cores, minimises violations, writes replays and evidence."""
import collections
import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

from . import repo
from .base import Ctx, Discard, Hang, Machinery, Violation, SimDeadlock, SimLivelock, digest, rng_of

CASE_WALL = 60      # seconds of CPU: back stop for one run, far above any regular run, whatever else the machine does

UNREADABLE = "the outcome cannot be observed: "

HUNG = "no end: the time limit of one run is over"


def _alarm(signum, frame):
    Hang.raised = True          # a task may keep the exception as its result: the loops look here, too
    raise Hang("time limit of one run")


class Result:
    __slots__ = ("violation", "discard", "error", "detail", "ctx")

    def __init__(self):
        self.violation = self.discard = self.error = self.detail = None
        self.ctx = Ctx()


def run_case(check, case, wall=CASE_WALL):
    """One simulated execution. Everything in it is a function of `case` and the code under test."""
    r = Result()
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, wall, 5)       # again and again: tasks may keep the exception as their result
    signal.setitimer(signal.ITIMER_REAL, 2 * wall, 5)      # for waits that take no CPU
    Hang.raised = False
    gc_was = gc.isenabled()
    gc.disable()            # finalizers must not run at arbitrary points
    repo.fresh()            # no module state of an earlier run
    try:
        with repo.quiet():
            check.run(case, r.ctx)
    except Violation as e:
        r.violation = str(e)
    except (SimLivelock, SimDeadlock) as e:
        r.violation = f"{type(e).__name__}: {e}"
    except Hang:
        r.violation = HUNG
    except Discard as e:
        r.discard = str(e)
    except RecursionError as e:
        r.violation = "RecursionError in the code under test"
    except (MemoryError, Machinery):
        r.error = traceback.format_exc()
    except Exception as e:
        # What the code under test returned or left behind has not the shape the oracle reads: the result is not there
        where = traceback.extract_tb(e.__traceback__)[-1].name
        r.violation = UNREADABLE + re.sub(r"0x[0-9a-fA-F]+", "0x..", f"{type(e).__name__}: {e} (in {where})")
        r.detail = traceback.format_exc()
    else:
        if Hang.raised:
            r.violation = HUNG
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])
        if gc_was:
            gc.enable()
    return r


def gen_case(check, seed, index, tier):
    rng = rng_of(check.pid, seed, index)
    case = check.gen(rng, index, tier)
    case["pid"] = check.pid
    case["index"] = index
    case["seed"] = seed
    # a case is data: what a replay file holds is what runs
    return json.loads(json.dumps(case))


# ---------------------------------------------------------------- parallel exploration

def _worker(modname, pid, seed, tier, start, step, count, deadline, q, stop):
    try:
        repo.setup()
        import warnings
        warnings.simplefilter("ignore")
        check = load_check(pid)
        agg = dict(runs=0, discards=0, ops=collections.Counter(), faults=collections.Counter(), states=set(),
                   sigs=set(), simtime=0.0, steps=0, sample=[], discard_reasons=collections.Counter(), note=collections.Counter())
        bad = None
        i = start
        done = 0
        while (count is None or i < count) and time.monotonic() < deadline:
            if stop.value >= 0 and stop.value < i:
                break
            case = gen_case(check, seed, i, tier)
            r = run_case(check, case)
            agg["runs"] += 1
            if agg["runs"] % 50 == 0:
                gc.collect()
            if r.error:
                bad = ("error", i, case, r.error)
                break
            c = r.ctx
            agg["ops"].update(c.ops)
            agg["faults"].update(c.faults)
            agg["note"].update(c.note)
            if len(agg["states"]) < 400000:
                agg["states"].update(c.states)
            agg["simtime"] += c.simtime
            agg["steps"] += c.steps
            if r.discard:
                agg["discards"] += 1
                agg["discard_reasons"][r.discard[:80]] += 1
            else:
                if c.nontrivial:
                    agg["sigs"].add(digest([c.trace, sorted(c.states), sorted(c.ops.items()),
                                            {k: v for k, v in case.items() if k not in ("index", "seed")}]))
                    if len(agg["sample"]) < 1 and i < 64:
                        agg["sample"].append(case)
            if r.violation:
                bad = ("violation", i, case, r.violation)
                with stop.get_lock():
                    if stop.value < 0 or i < stop.value:
                        stop.value = i
                break
            i += step
        agg["bad"] = bad
        q.put((start, agg))
    except BaseException:
        q.put((start, dict(crash=traceback.format_exc())))


def load_check(pid):
    from .registry import CHECKS
    mod, cls = CHECKS[pid]
    return getattr(importlib.import_module(mod), cls)()


def explore(pid, seed, tier, count, wall):
    nproc = max(1, min(8, os.cpu_count() or 1))
    if os.environ.get("VERIF_PROCS"):
        nproc = int(os.environ["VERIF_PROCS"])
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Value("q", -1)
    deadline = time.monotonic() + wall
    ps = [ctx.Process(target=_worker, args=(None, pid, seed, tier, w, nproc, count, deadline, q, stop), daemon=True)
          for w in range(nproc)]
    for p in ps:
        p.start()
    res = {}
    while len(res) < nproc:
        try:
            w, agg = q.get(timeout=5)
            res[w] = agg
        except Exception:
            dead = [w for w, p in enumerate(ps) if not p.is_alive() and w not in res]
            if dead:
                try:
                    w, agg = q.get(timeout=2)
                    res[w] = agg
                    continue
                except Exception:
                    pass
                for w in dead:
                    res[w] = dict(crash=f"worker {w} died (exit {ps[w].exitcode})")
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    return nproc, res


# ---------------------------------------------------------------- minimisation

def _ddmin(items, test, budget):
    n = 2
    while len(items) >= 1 and time.monotonic() < budget:
        chunk = max(1, len(items) // n)
        some = False
        i = 0
        while i < len(items) and time.monotonic() < budget:
            cand = items[:i] + items[i + chunk:]
            if test(cand):
                items = cand
                some = True
            else:
                i += chunk
        if chunk == 1:
            if not some:
                break
        elif not some:
            n = min(len(items), n * 2)
            if n == 0:
                break
    return items


def minimise(check, case, msg, seconds=45):
    end = time.monotonic() + seconds
    last = [msg]

    def fails(c):
        r = run_case(check, c, wall=CASE_WALL)
        # a shortened history that merely is none any more is not the violation
        if r.violation and r.violation.startswith(UNREADABLE) == msg.startswith(UNREADABLE):
            last[0] = r.violation
            return True
        return False

    # 1. pin the schedule actually taken
    r = run_case(check, case)
    if r.violation and r.ctx.trace is not None:
        c = dict(case)
        c["sched"] = {"trace": list(r.ctx.trace)}
        if fails(c):
            case = c
    # 2. drop operations (pinned schedule first, then FIFO schedule as a simpler alternative)
    if "sched" in case:
        c = dict(case)
        c["sched"] = {"trace": []}
        if fails(c):
            case = c
    for key in getattr(check, "shrink_lists", ("ops",)):
        if isinstance(case.get(key), list) and time.monotonic() < end:
            def t(items, key=key):
                c = dict(case)
                c[key] = items
                return fails(c)
            items = _ddmin(list(case[key]), t, end)
            c = dict(case)
            c[key] = items
            if fails(c):
                case = c
    # 3. simplify the schedule: choices to zero
    tr = case.get("sched", {}).get("trace")
    if tr:
        r = run_case(check, case)
        if r.violation and r.ctx.trace is not None:
            tr = list(r.ctx.trace)
        i = len(tr)
        size = max(1, len(tr) // 2)
        while size >= 1 and time.monotonic() < end:
            i = 0
            while i < len(tr) and time.monotonic() < end:
                if any(tr[i:i + size]):
                    cand = tr[:i] + [0] * len(tr[i:i + size]) + tr[i + size:]
                    c = dict(case)
                    c["sched"] = {"trace": cand}
                    if fails(c):
                        tr, case = cand, c
                i += size
            size //= 2
        while tr and tr[-1] == 0:
            tr = tr[:-1]
        c = dict(case)
        c["sched"] = {"trace": tr}
        if fails(c):
            case = c
    if hasattr(check, "simplify") and time.monotonic() < end:
        for c in check.simplify(case):
            if time.monotonic() > end:
                break
            if fails(c):
                case = c
    r = run_case(check, case)
    return case, (r.violation or last[0])


# ---------------------------------------------------------------- known findings

def known_findings(pid):
    """Entries of the known-findings file that still stand for this property."""
    path = os.path.join(repo.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out


# ---------------------------------------------------------------- the check command

def tree_digest():
    h = hashlib.sha1()
    for d, ds, fs in sorted(os.walk(repo.PKG)):
        ds[:] = sorted(x for x in ds if x not in ("__pycache__", ".git"))
        for f in sorted(fs):
            if f.endswith((".py", ".cogni")):
                h.update(f.encode())
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def main_check(pid, tier, seed, count=None, wall=None):
    t0 = time.monotonic()
    import warnings
    warnings.simplefilter("ignore")
    check = load_check(pid)
    if count is None:
        count = check.quick_runs if tier == "quick" else None
    if wall is None:
        wall = 240 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "600"))
    nproc, res = explore(pid, seed, tier, count, wall)
    errors = [a["crash"] for a in res.values() if "crash" in a]
    aggs = [a for a in res.values() if "crash" not in a]
    bads = sorted([a["bad"] for a in aggs if a["bad"]], key=lambda b: b[1])
    errors += [f"case {b[1]}: {b[3]}\n{json.dumps(b[2])[:2000]}" for b in bads if b[0] == "error"]
    viols = [b for b in bads if b[0] == "violation"]
    runs = sum(a["runs"] for a in aggs)
    disc = sum(a["discards"] for a in aggs)
    wall_s = time.monotonic() - t0
    tot = lambda k: sum((a[k] for a in aggs), collections.Counter())
    states = set().union(*[a["states"] for a in aggs]) if aggs else set()
    sigs = set().union(*[a["sigs"] for a in aggs]) if aggs else set()
    rc = 0
    replay = None
    if viols:
        _, idx, case, msg = viols[0]
        small, smsg = (case, msg) if msg == HUNG else minimise(check, case, msg)
        os.makedirs(os.path.join(repo.VERIF, "replays"), exist_ok=True)
        replay = os.path.join(repo.VERIF, "replays", f"{pid}-s{seed}-i{idx}.json")
        with open(replay, "w") as f:
            json.dump(dict(property=pid, seed=seed, index=idx, violation=smsg, first_violation=msg, case=small,
                           original=case, tree=tree_digest()), f, indent=1)
        print(f"{pid}: {smsg}")
        print(f"  seed {seed}, run {idx}; minimised from {size_of(case)} to {size_of(small)} decisions; "
              f"replay with: ./check --replay {replay}")
        print(f"VIOLATION property={pid} replay={replay}", flush=True)
        rc = 1
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    hours = max(wall_s, 1e-6) / 3600
    samples = [s for a in aggs for s in a["sample"]][:2]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(wall_s, 3), violations=len(viols),
              assumptions=list(getattr(check, "assumptions", [])) + [
                  "seeded search over simulated executions: covers the runs made, not all possible ones"],
              coverage=dict(
                  evaluations=runs, distinct_nontrivial=len(sigs), rule=check.rule, samples=samples,
                  discarded_runs=disc, discard_reasons=dict(tot("discard_reasons")),
                  runs_per_hour=int(runs / hours), seeds_per_hour=int(runs / hours),
                  operations=dict(tot("ops")), operations_total=sum(tot("ops").values()),
                  faults_injected=dict(tot("faults")), faults_total=sum(tot("faults").values()),
                  scheduler_steps=sum(a["steps"] for a in aggs), simulated_seconds=round(sum(a["simtime"] for a in aggs), 6),
                  distinct_states=len(states), state_measure=getattr(check, "state_measure", "digest of the reference model after an operation"),
                  notes=dict(tot("note")), real_components=check.real, stubbed_components=check.stubs,
                  processes=nproc, python_hash_seed=os.environ.get("PYTHONHASHSEED", "random"), tree=tree_digest()))
    if replay:
        ev["coverage"]["violation_replay"] = replay
    os.makedirs(os.path.join(repo.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(repo.VERIF, "evidence", f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(repo.VERIF, "evidence", f"{pid}.json"))
    if rc == 0:
        if errors:
            print(f"{pid}: the check itself failed:\n" + errors[0], file=sys.stderr)
            return 2
        if runs == 0 or disc > runs * 0.5:
            print(f"{pid}: {disc} of {runs} runs could not be judged: {dict(tot('discard_reasons'))}", file=sys.stderr)
            return 2
        print(f"{pid}: held on {runs} simulated runs ({len(sigs)} distinct, {len(states)} states, "
              f"{sum(tot('faults').values())} faults) in {wall_s:.1f} s")
    return rc


def size_of(case):
    return len(case.get("ops", [])) + len([c for c in case.get("sched", {}).get("trace", []) or [] if c])


def main_replay(path):
    d = json.load(open(path))
    repo.setup()
    check = load_check(d["property"])
    r = run_case(check, d["case"])
    if r.error:
        print(r.error, file=sys.stderr)
        return 2
    if r.violation:
        print(f"{d['property']}: {r.violation}")
        if r.detail:
            print(r.detail)
        same = r.violation == d["violation"]
        print("same violation as recorded" if same else f"recorded: {d['violation']}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print(f"{d['property']}: the replay no longer violates the property")
    return 0
