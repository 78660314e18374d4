"""World I, second part: the conversion program as a whole, on a simulated disk (P25)."""
import io
import os
import runpy
import shutil
import sys
import tempfile

from lxml import etree

from .. import grammar, repo
from ..base import Chooser, SimDeadlock, SimLivelock, Violation, need, rng_of
from ..cogni import DocOracle, Gen
from ..simclock import MODES, make_clock
from ..simfs import Crash, SimDisk, size_limit, wall_clock
from ..simloop import buggify_queues, loops
from .describe import REAL, STUBS, descs_of, seeded_sets

PROGRAM = "apps.simulation.convert_cognilang_sdf"
KINDS = ["open", "read", "write", "close"]
DIRS = ["out", "out2", "deep/out"]


class Failing(io.TextIOBase):
    """standard output of a program whose reader has gone away"""

    def writable(self):
        return True

    def write(self, s):
        raise BrokenPipeError(32, "Broken pipe")


class P25:
    pid = "P25"
    quick_runs = 1500
    real = REAL + [PROGRAM, "rei.format.mapping.cognilang_sdf_icon", "rei.format.phys", "rei.query", "argparse", "lxml", "io buffering and text layers"]
    stubs = STUBS + ["event loop (seeded scheduler)", "raw files (counted, shortened, failing, cut off)", "time.time, time.time_ns", "set ordering (seeded)"]
    assumptions = ["a failed close loses the end of what was written (delayed write error)", "the preconditions of P24 for the descriptions",
                   "a program that is cut off loses part of what it wrote without a sync"]
    rule = ("a run is 1-4 invocations of the program, as __main__, in one scratch directory, on 1-2 generated descriptions, "
            "with a failing, short or cut-off file operation, a full disk, missing or wrong paths or arguments, undecodable "
            "input, a limit of file sizes, or a closed standard output; the last invocation is undisturbed; non-trivial: a fault took effect")
    state_measure = "digest of outcome and files after an invocation"
    shrink_lists = ("ops", "calls")

    def gen(self, rng, index, tier):
        n = rng.choice([1, 1, 2])
        ops = []
        same = rng.random() < 0.6
        entities = rng.sample(["robot", "robot2", "robot_2", "my_robot", "Robot", "rob"], n)
        for k in range(n):
            names = ["base", "arm", "x"] if rng.random() < 0.2 else None
            ops += [[k, op] for op in Gen(rng, "d", False, names, "robot" if same else entities[k]).generate()]
        calls = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            calls.append([rng.randrange(n), rng.choice(DIRS), self.trouble(rng)])
        calls.append([rng.randrange(n), rng.choice(DIRS), {}])
        if rng.random() < 0.5:
            d = rng.choice(DIRS)
            for c in calls:
                c[1] = d
        for c in calls:
            t = c[2]
            t["seed"] = rng.randrange(10**6)
            t["clock"] = rng.choice(MODES)
            if rng.random() < 0.4:
                t["short"] = rng.choice([1, 3, 50, 700])
                if t["short"] < 50:
                    t["buf"] = 8192
            if rng.random() < 0.5:
                t.setdefault("buf", rng.choice([64, 600, 4096]))
            t["rel"] = rng.random() < 0.3
            t["same_name"] = n > 1 and rng.random() < 0.6
        return dict(ops=ops, calls=calls, cfg=dict(wseed=rng.randrange(10**6)), sched=dict(seed=rng.randrange(10**9), bias=0.3))

    def trouble(self, rng):
        r = rng.random()
        if r < 0.5:
            kind = rng.choice(KINDS)
            top = {"open": 3, "read": 4, "write": 8, "close": 3}[kind]
            code = {"open": ["EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO"], "read": ["EIO"], "write": ["EIO", "ENOSPC", "EDQUOT"],
                    "close": ["EIO", "ENOSPC", "EDQUOT"]}[kind]
            return {"fault": [kind, rng.randint(1, top), rng.choice(code), rng.random() < 0.4]}
        if r < 0.65:
            return {"fault": ["any", rng.randint(1, 16), "crash", False]}
        if r < 0.7:
            return {"limit": rng.choice([0, 1, 40, 64, rng.randrange(700), rng.randrange(3000), rng.randrange(12000)])}
        if r < 0.82:
            return {"room": rng.choice([0, 1, 50, rng.randrange(3000), rng.randrange(12000)])}
        return {"setup": rng.choice(["no_input", "no_dir", "dir_is_file", "input_is_dir", "no_input_arg", "no_output_arg", "undecodable", "stdout", "unknown_arg", "dangling", "dangling"])}

    # -- one invocation

    def invoke(self, case, ctx, work, argv, t, chooser):
        """runs the program; returns None if it ended normally, else what ended it"""
        repo.fresh()
        grammar.install()
        disk = SimDisk(work, t["seed"], t.get("fault"), t.get("short"), t.get("room"), t.get("buf"))
        old = sys.argv, sys.stdout, sys.stderr, os.getcwd()
        sys.argv = ["convert_cognilang_sdf.py"] + argv
        sys.stderr = io.StringIO()
        if t.get("setup") == "stdout":
            sys.stdout = Failing()
        os.chdir(work)
        end = None
        try:
            # the modules are loaded first: the disk is the one of the data
            __import__("rei.format.mapping.cognilang_sdf_icon")
            seeded_sets(t["seed"])
            clock = make_clock(t["seed"], t["clock"])
            with wall_clock(clock), loops(chooser) as L, buggify_queues():
                with disk, size_limit(t.get("limit")):
                    try:
                        runpy.run_module(PROGRAM, run_name="__main__")
                    except SystemExit as e:
                        if e.code not in (None, 0):
                            end = "exit status"
                    except Crash:
                        end = "crash"
                    except (SimLivelock, SimDeadlock):
                        raise
                    except Exception as e:
                        end = type(e).__name__
                ctx.steps += L.steps
        finally:
            sys.argv, sys.stdout, sys.stderr = old[:3]
            os.chdir(old[3])
        if disk.dead:
            end = "crash"
        for r in disk.live:
            # files the program left open are closed by its end, without anybody to see an error
            if not r.closed:
                io.FileIO.close(r)
        if disk.dead:
            disk.power_off()
        for h in disk.hit:
            ctx.fault(h)
        if t.get("short"):
            ctx.fault("short_transfers")
        return end, disk

    def prepare(self, case, work):
        ds = descs_of(case, True)
        texts = {}
        for k, d in ds.items():
            texts[k] = d.text(rng_of("text", case["cfg"]["wseed"], k))
            with open(os.path.join(work, f"in_{k}.cogni"), "w") as f:
                f.write(texts[k])
        for d in DIRS:
            os.makedirs(os.path.join(work, d))
        return ds, texts

    def run(self, case, ctx):
        work = os.path.realpath(tempfile.mkdtemp(prefix="verif_p25_"))
        try:
            self.scenario(case, ctx, work)
        except Violation as e:
            raise Violation(str(e).replace(work, "SCRATCH"))
        finally:
            shutil.rmtree(work)

    def scenario(self, case, ctx, work):
        ds, texts = self.prepare(case, work)
        if not ds:
            return
        chooser = Chooser(case.get("sched"))
        ctx.trace = chooser.trace
        ctx.nontrivial = False
        want = {}
        with open(os.path.join(work, "out", "notes.txt"), "w") as f:
            f.write("kept\n")
        for k, d in ds.items():         # models of other names, made long ago
            for i, n in enumerate(("2.sdf", "_old.sdf", "2.load.sh", "_world.sdf")):
                others = os.path.join(work, DIRS[i % 2], d.root.name + n)
                if d.root.name + n.split(".")[0] not in [o.root.name for o in ds.values()]:
                    with open(others, "w") as f:
                        f.write("made before\n")
        guarded_files = set(snapshot(work))
        for i, (k, out, t) in enumerate(case["calls"]):
            if k not in ds:
                continue
            if k not in want:
                want[k] = self.reference(case, ctx, work, k, ds[k])
            su = t.get("setup")
            src, dst = os.path.join(work, f"in_{k}.cogni"), os.path.join(work, out)
            if su == "no_input":
                src = os.path.join(work, "nothing.cogni")
            elif t.get("same_name"):      # one description after the other in one place
                src = os.path.join(work, "model.cogni")
                with open(src, "w") as f:
                    f.write(texts[k])
            if su == "input_is_dir":
                src = os.path.join(work, "out")
            elif su == "no_dir":
                dst = os.path.join(work, out, "missing")
            elif su == "dir_is_file":
                dst = os.path.join(work, "a_file")
                open(dst, "w").close()
            elif su == "undecodable":
                src = os.path.join(work, "bad.cogni")
                with open(src, "wb") as f:
                    f.write(texts[k].encode() + b"\n// \xc3\xa9\xff\n")
            elif su == "dangling":
                at = ds[k].referred()
                src = os.path.join(work, "dangling.cogni")
                with open(src, "w") as f:
                    f.write(ds[k].text(rng_of("text", t["seed"]), at[t["seed"] % len(at)]) if at else "")
            argv = []
            rel = lambda p: os.path.relpath(p, work) if t.get("rel") else p
            if su != "no_input_arg":
                argv += ["--input", rel(src)]
            if su != "no_output_arg":
                argv += ["--output", rel(dst)]
            if su == "unknown_arg":
                argv += ["--frobnicate"]
            before = snapshot(work)
            kept = guarded_files | {os.path.relpath(src, work)} & set(before)
            end, disk = self.invoke(case, ctx, work, argv, t, chooser)
            after = snapshot(work)
            what = f"invocation {i} ({describe(t)})"
            name = ds[k].root.name
            mine = {os.path.join(os.path.relpath(dst, work), name + s) for s in (".sdf", ".load.sh")}
            if end is None and su not in ("no_input_arg", "no_output_arg", "unknown_arg"):
                fields = want[k]
                for p, s in zip(sorted(mine), (".load.sh", ".sdf")):
                    got = after.get(p)
                    need(got is not None, "{} ended normally, but there is no {}{}", what, name, s)
                    need(got == fields[s], "{} ended normally, but {}{} is not complete: {}", what, name, s, gap(fields[s], got))
            if t.get("limit") is not None and end is not None and t["limit"] < max(len(x) for x in want[k].values()):
                disk.hit.append("file_size_limit")
                ctx.fault("file_size_limit")
            if su == "dangling":
                need(end is not None, "{}: the program ends normally although the description refers to something it does not declare", what)
            if not disk.hit and su is None:
                need(end is None, "{}: the program ends with {} although nothing failed", what, end)
            for p, c in before.items():
                if p in kept or p.endswith((".sdf", ".load.sh")):
                    need(p in mine or after.get(p) == c, "{} changed {}, which is not its output", what, p)
            if su:
                ctx.fault("setup_" + su)
            if disk.hit or su:
                ctx.nontrivial = True
            ctx.op("failed" if end else "converted")
            ctx.state([end, sorted((p, len(c or b"")) for p, c in after.items())])

    def reference(self, case, ctx, work, k, desc):
        """what an undisturbed run in an empty directory leaves, judged against the description"""
        t = dict(seed=case["cfg"]["wseed"], clock="tick")
        ref = os.path.join(work, f"ref_{k}")
        os.makedirs(ref)
        end, _ = self.invoke(case, ctx, work, ["--input", os.path.join(work, f"in_{k}.cogni"), "--output", ref], t, Chooser(None))
        need(end is None, "an undisturbed conversion ends with {}", end)
        name = desc.root.name
        got = snapshot(ref)
        for s in (".sdf", ".load.sh"):
            need(got.get(name + s) is not None, "an undisturbed conversion leaves no {}{}", name, s)
        try:
            root = etree.fromstring(got[name + ".sdf"])
        except etree.XMLSyntaxError as e:
            need(False, "the model file is no XML: {}", e)
        need(root.tag == "sdf" and root.get("version") and len(root) == 1, "the model file is <{} {}> with {} elements", root.tag, dict(root.attrib), len(root))
        DocOracle(desc, "model file").check(root[0])
        cmd = got[name + ".load.sh"].decode().split()
        need(cmd == f"ros2 run gazebo_ros spawn_entity.py -entity {name} -file {name}.sdf".split(), "the load script says {}", " ".join(cmd))
        shutil.rmtree(ref)
        return {".sdf": got[name + ".sdf"], ".load.sh": got[name + ".load.sh"]}


def snapshot(top):
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, top)] = h.read()
    return out


def describe(t):
    s = []
    if t.get("fault"):
        f = t["fault"]
        s.append(f"cut off at file operation {f[1]}" if f[2] == "crash" else f"{f[0]} {f[1]}{' and later' if f[3] else ''} fails with {f[2]}")
    if t.get("room") is not None:
        s.append(f"room for {t['room']} bytes")
    if t.get("limit") is not None:
        s.append(f"no file may exceed {t['limit']} bytes")
    if t.get("setup"):
        s.append(t["setup"])
    if t.get("short"):
        s.append("short transfers")
    return ", ".join(s) or "undisturbed"


def gap(want, got):
    if want.startswith(got):
        return f"{len(got)} of {len(want)} bytes"
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return f"differs at byte {i} ({len(got)} bytes instead of {len(want)})"
    return f"{len(got)} bytes instead of {len(want)}"
