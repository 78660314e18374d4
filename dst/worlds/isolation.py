"""World H: programs on separate graphs, alone and next to each other in threads and tasks (P15)."""
import asyncio
import importlib
import os

from .. import grammar, repo
from ..base import ERRORS, Chooser, Ctx, Discard, Injected, Violation, digest, need, rng_of
from ..baton import Baton
from ..cogni import Desc, Gen, fingerprint as graph_print
from ..simclock import MODES, make_clock
from ..simloop import SimLoop, buggify_queues, loops
from ..world import show
from .codec import encodable, fingerprint
from .describe import Reader, failing, selection
from .hier import short
from .mix import P14, PWorld, outcome
from .readers import elem_error, Job


class XchgJob(Job):
    """[id, "xchg", group, slot, context, write, fault]: encode, decode, update with codecs of the program"""

    def __init__(self, w, op):
        super().__init__(w, op, op[6])
        self.start = op[4]

    async def coro(self):
        from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
        w = self.w
        if not hasattr(w, "codecs"):
            w.codecs = [GraphTensorCbor("icon", w.clocks[0], w.obj[self.start]), GraphTensorCbor("icon", w.clocks[0], None)]
        s, r = w.codecs
        if self.fspec and self.fspec[0] == "elem":
            w.fragile().armed.set(elem_error(self.fspec))
        try:
            await s.update_context(w.obj[self.start])
            await s.update_coo()
            m = s.full_msg()
            if self.op[5]:
                r.create_graph(m)
            u = s.msg_value_update()
            try:
                r.from_msg_update_values(u)
            except Exception as e:      # for what this program restored before, if anything
                u = [u, type(e).__name__]
            root, h = r.create_graph(m)
            return [m, u, fingerprint(root), h.cnt_node, h.cnt_edges]
        finally:
            w.fragile().armed.set(False)


class ConvJob(Job):
    """[id, "conv", group, slot, declarations, [clock, seed], fault]: read a description and export it, by objects the program goes on using"""

    def __init__(self, w, op):
        super().__init__(w, op, op[6])
        self.desc = Desc(op[4], True)
        self.cm, self.seed = op[5]

    async def coro(self):
        from lxml import etree
        from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon
        w = self.w
        if not hasattr(w, "conv"):
            c = make_clock(self.seed, self.cm)
            rd = Reader(0)
            w.conv = rd, rd.visitor(c), CognilangSdfIcon(c), c
        rd, v, icon, clock = w.conv
        tree = rd.tree(self.desc.text(rng_of("text", self.seed)))
        if self.fspec and self.fspec[0] == "clock":
            read = clock.get_time_ns
            failing(clock, self.fspec[1])
            try:
                v.visit(tree)
            finally:
                clock.get_time_ns = read
        else:
            v.visit(tree)
        root = v.root_entity
        n = len(icon.root_xml)
        await icon.encode(await selection(root).execute())
        return [graph_print(root), [etree.tostring(m).decode() for m in icon.root_xml[n:]]]


class Program:
    """The steps of one program and what they gave."""

    def __init__(self, check, spec):
        self.check, self.ops = check, spec["ops"]
        self.ctx = Ctx()
        self.w = PWorld(self.ctx, spec["wseed"], clocks=1, modes=spec["modes"])
        self.log = []
        self.fifo = Chooser(None)

    def job(self, op):
        try:
            return self.check.make(self.w, op, "p")
        except Violation as e:
            return None

    def note(self, op, j, r):
        try:
            out = outcome(j, r)
        except Exception as e:
            out = [type(e).__name__]
        self.log.append([show(op), str(out)])

    def plain(self, op):
        try:
            self.w.do(op)
            self.log.append([show(op), "done"])
        except (Violation, Discard) as e:
            self.log.append([show(op), str(e)])

    def end(self):
        try:
            self.log.append(["the graph at the end", str(self.w.snapshot(timestamps=True))])
        except Exception as e:
            self.log.append(["the graph at the end", type(e).__name__])

    def thread(self, L):
        """the program as a thread: each asynchronous step on a loop of its own"""
        for op in self.ops:
            if op[1] not in self.check.kinds:
                self.plain(op)
                continue
            j = self.job(op)
            if j is None:
                continue
            try:
                if getattr(j, "plain", False):
                    r = ("ok", j.call())
                else:
                    l = SimLoop(self.fifo, 300000)
                    L.made.append(l)
                    asyncio.set_event_loop(l)
                    try:
                        r = ("ok", l.run_until_complete(j.coro()))
                    finally:
                        asyncio.set_event_loop(None)
            except Violation as e:
                r = ("err", e)
            except Exception as e:
                r = ("err", e)
            self.note(op, j, r)
        self.end()

    async def task(self, yields):
        """the program as a task next to others"""
        for op in self.ops:
            if op[1] in self.check.kinds:
                j = self.job(op)
                if j is not None and not getattr(j, "plain", False):
                    try:
                        r = ("ok", await j.coro())
                    except Exception as e:
                        r = ("err", e)
                    self.note(op, j, r)
            else:
                self.plain(op)
            if yields:
                await asyncio.sleep(0)
        self.end()


def preload():
    """all modules of the library, so that no thread imports"""
    grammar.install()
    base = os.path.join(repo.PKG, "rei")
    for d, ds, fs in sorted(os.walk(base)):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in sorted(fs):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), repo.PKG)[:-3].replace(os.sep, ".")
                try:
                    importlib.import_module(m[:-9] if m.endswith(".__init__") else m)
                except ImportError:
                    pass


class P15(P14):
    pid = "P15"
    kinds = ("trav", "exec", "fact", "index", "tensor", "htrav", "coo", "xchg", "conv")
    quick_runs = 900
    long = (100, 400)
    real = P14.real + ["rei.factories", "real threads (one at a time)"]
    stubs = ["thread scheduler (control passes at seeded source lines of the library)", "event loop (seeded scheduler, virtual time)",
             "clock (simulated, one per program)"]
    assumptions = ["searches are left out: the recorded finding of P12 is state they share", "control passes between source lines, not inside one"]
    rule = ("a run is 2-4 programs on graphs of their own (structural changes, refused operations, all kinds of readers, encoding and "
            "decoding, failing callbacks and elements), each run alone in a fresh interpreter state, then all together in a fresh state as "
            "threads that switch at drawn source lines or as tasks with extra suspension points, some cancelled; every outcome and the "
            "final graphs are compared; non-trivial: control passed between unfinished programs at least once")
    state_measure = "digest of the outcomes of a program with the order in which the programs ran"

    def gen(self, rng, index, tier):
        n = rng.choice([2, 2, 2, 3, 4])
        progs = []
        for _ in range(n):
            c = P14.gen(self, rng, index, tier)
            progs.append(dict(ops=c["ops"], wseed=c["cfg"]["wseed"], modes=c["cfg"]["modes"]))
        if rng.random() < 0.3:      # the same program twice
            progs[1] = dict(progs[0])
        ops = [[k, op] for k, p in enumerate(progs) for op in p.pop("ops")]
        mode = rng.choice(["thread", "thread", "task"])
        return dict(ops=ops, progs=progs, cfg=dict(mode=mode, extra=rng.choice([0.0, 0.1, 0.4]),
                                          cancel={str(rng.randrange(n)): rng.choice([3, 10, 40, 150])} if mode == "task" and rng.random() < 0.3 else {}),
                    sched=dict(seed=rng.randrange(10**9), bias=rng.choice([0.0, 0.2])))

    def reader_op(self, rng, g, grp):
        k = len(g.ops)
        if rng.random() < 0.25:
            id = g.nid()
            g.emit(id, "xchg", grp, id, self.ctx if rng.random() < 0.8 else g.pick("node"), rng.random() < 0.5, ["elem", rng.randrange(len(ERRORS))] if rng.random() < 0.1 else None)
            return
        if rng.random() < 0.12:
            id = g.nid()
            d = min((Gen(rng, "d", False, None, "robot").generate() for _ in range(3)), key=len)
            g.emit(id, "conv", grp, id, d, [rng.choice(MODES), rng.randrange(10**6)],
                   ["clock", rng.choice([3, 10, 30])] if rng.random() < 0.15 else None)
            return
        P14.reader_op(self, rng, g, grp)
        for op in g.ops[k:]:        # no searches, no cancelled readers: the programs are cancelled
            if op[-1] and op[-1][0] == "cancel":
                op[-1] = None
            if op[1] == "exec" and rng.random() < 0.3:
                op[4] = "sync"
        g.ops[k:] = [op for op in g.ops[k:] if op[1] != "search" and (op[1] != "conv" or isinstance(op[4], list))]

    def make(self, w, op, tag):
        if op[1] == "conv":
            j = ConvJob(w, op)
            return j if j.desc.root is not None else None
        if op[1] == "xchg":
            return XchgJob(w, op) if encodable(w, op[4]) else None
        return P14.make(self, w, op, tag)

    def run(self, case, ctx):
        mode = case["cfg"]["mode"]
        alone = []
        specs = [dict(p, ops=[op for i, op in case["ops"] if i == k]) for k, p in enumerate(case["progs"])]
        for spec in specs:
            repo.fresh()
            preload()
            p = Program(self, spec)
            with loops(Chooser(None), max_steps=600000) as L, buggify_queues(2000000):
                if mode == "thread":
                    p.thread(L)
                else:
                    L.run(p.task(False))
            alone.append(p.log)
            for k, v in p.ctx.ops.items():
                ctx.ops[k] += v
        repo.fresh()
        preload()
        chooser = Chooser(case.get("sched"))
        ctx.trace = chooser.trace
        ps = [Program(self, spec) for spec in specs]
        cancelled = set()
        if mode == "thread":
            b = Baton(chooser)
            with loops(chooser, max_steps=600000) as L, buggify_queues(4000000):
                errs = b.run([lambda p=p: p.thread(L) for p in ps])
            for e in errs:
                if e is not None:
                    raise e
            ctx.steps += b.lines
            ctx.fault("thread_switch", b.switches)
            ctx.nontrivial = b.switches > 0
            order = b.order
        else:
            extra = case["cfg"]["extra"]
            order = []
            with loops(chooser, max_steps=900000) as L, buggify_queues(4000000, chooser if extra else None, extra):
                tasks = []

                async def main():
                    for p in ps:
                        tasks.append(asyncio.ensure_future(p.task(True)))
                    for o in await asyncio.gather(*tasks, return_exceptions=True):
                        if isinstance(o, Exception):
                            raise o

                def on_step(loop, h):
                    o = getattr(h._callback, "__self__", None)
                    if o in tasks:
                        order.append(tasks.index(o))
                    for i, c in case["cfg"]["cancel"].items():
                        i = int(i)
                        if loop.steps == c and i < len(tasks) and not tasks[i].done():
                            tasks[i].cancel()
                            cancelled.add(i)
                            ctx.fault("cancelled_program")
                L.on_step = on_step
                L.run(main())
                ctx.steps += L.steps
            ctx.nontrivial = len(order) > len(ps)
        for i, (p, a) in enumerate(zip(ps, alone)):
            got = p.log
            if i in cancelled:
                need(len(got) <= len(a), "program {}: more steps than alone", i)
                a = a[:len(got)]
            for (s, x), (t, y) in zip(got, a):
                need(s == t and x == y, "program {} ({} next to {} others): {} gives {} instead of {} when run alone", i, mode, len(ps) - 1, s,
                     around(x, y), around(y, x))
            need(len(got) == len(a), "program {}: {} steps instead of {}", i, len(got), len(a))
            ctx.state([digest(a), digest(order[:200])])


def around(x, y):
    """the part of x where it starts to differ from y"""
    k = next((i for i, (a, b) in enumerate(zip(x, y)) if a != b), min(len(x), len(y)))
    return x[max(0, k - 60):k + 120]
