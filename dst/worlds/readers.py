"""World C: readers of the graph on a simulated event loop (P11-P14)."""
import asyncio
import collections
import contextvars
import math
import threading

from ..base import Discard, ERRORS, Chooser, Injected, Violation, injected, need, rng_of
from ..simclock import MODES
from ..simloop import buggify_queues, loops
from ..world import CONTAINERS, HistGen, World, show
from .hier import short

ALGOS = ["bfs", "dfs", "dlb", "dld"]


def pred(w, spec):
    """A predicate over model ids from data: ['all'] ['kinds', ...] ['name', n] ['mod', m, r] ['not', spec]"""
    k = spec[0]
    if k == "all":
        return lambda i: True
    if k == "none":
        return lambda i: False
    if k == "kinds":
        return lambda i: w.m[i].kind in spec[1]
    if k == "names":
        return lambda i: w.m[i].name in spec[1]
    if k == "mod":
        return lambda i: (sum(i.encode()) % spec[1]) != spec[2]
    if k == "not":
        p = pred(w, spec[1])
        return lambda i: not p(i)
    raise KeyError(k)


def answer(id, x):
    """what a predicate says, not always as a bool"""
    form = sum(map(ord, str(id))) % 4
    return x if form < 2 else int(bool(x)) if form == 2 else ["yes"] if x else []


def gen_pred(rng, names):
    k = rng.choice(["all", "all", "kinds", "kinds", "names", "mod", "not"])
    if k == "kinds":
        return ["kinds", rng.sample(["node", "edge", "item", "value", "sem", "rel", "port"], rng.randint(1, 5))]
    if k == "names":
        return ["names", rng.sample(names, rng.randint(1, len(names)))]
    if k == "mod":
        m = rng.randint(2, 5)
        return ["mod", m, rng.randrange(m)]
    if k == "not":
        return ["not", ["kinds", rng.sample(["value", "sem", "port", "rel", "item"], rng.randint(1, 3))]]
    return ["all"]


def reference(w, start, algo, depth, p, ignore_root):
    out = []
    if p(start) and not ignore_root:
        out.append(start)
    if algo in ("bfs", "dlb"):
        level, d = [start], 0
        while level and d < depth:
            level = [k for x in level for k in w.m[x].kids if p(k)]
            out += level
            d += 1
    else:
        st = [(k, 1) for k in w.m[start].kids if p(k)] if depth > 0 else []
        while st:
            x, d = st.pop()
            out.append(x)
            if d < depth:
                st += [(k, d + 1) for k in w.m[x].kids if p(k)]
    return out


class Fault:
    """Raises at the n-th callback."""

    def __init__(self, spec):
        self.n = spec[1] if spec and spec[0] in ("raise", "fraise") else None
        self.count = 0
        self.fired = False
        self.error = spec[2] if spec and len(spec) > 2 else 0

    def hit(self):
        self.count += 1
        if self.n is not None and self.count == self.n:
            self.fired = True
            raise injected("callback fails", self.error)


def elem_error(spec):
    return 1 + (spec[1] if spec and len(spec) > 1 else 0)


class RWorld(World):
    """World with elements whose listing of sub-elements can be made to fail."""

    def fragile(self):
        if not hasattr(self, "_fragile"):
            class Fragile(self.be.HypergraphNode):
                armed = contextvars.ContextVar("armed", default=False)      # per task: number of the error + 1

                def get_subelements(self, condition):
                    if self.armed.get():
                        raise injected("sub-elements cannot be listed", int(self.armed.get()) - 1)
                    return super().get_subelements(condition)
            self._fragile = Fragile
        return self._fragile

    def new_obj(self, op, kind, name, uuid, clock, parent, via, extra):
        if kind == "node" and via == "fragile":
            return self.fragile()(name, uuid, f"q/{name}", self.clocks[clock], self.obj.get(parent))
        return super().new_obj(op, kind, name, uuid, clock, parent, via, extra)

    def named(self, scope, name):
        """elements of the subtree of scope whose qualified name is name"""
        out, st = [], [(scope, self.path(scope))]
        while st:
            x, p = st.pop()
            if p == name:
                out.append(x)
            if name.startswith(p):
                st += [(k, p + "/" + self.m[k].name) for k in self.m[x].kids]
        return out


def fragile_nodes(rng, g):
    for _ in range(rng.randrange(3)):
        id = g.nid()
        g.emit(id, "new", "node", rng.choice(g.names), g.pick("node"), "fragile", 0, None)
        g.ids["node"].append(id)


class Session:
    """Runs groups of concurrent jobs on simulated loops and applies cancellations."""

    def __init__(self, case, ctx, extra=0.0, budget=400000):
        self.ctx = ctx
        self.chooser = Chooser(case.get("sched"))
        ctx.trace = self.chooser.trace
        self.extra = extra
        self.budget = budget

    def run(self, jobs):
        """jobs: [(coroutine function, cancel step or None)] -> [("ok", result) | ("err", exc) | ("cancelled",)]"""
        res = [None] * len(jobs)
        with loops(self.chooser, max_steps=300000) as L, buggify_queues(self.budget, self.chooser if self.extra else None, self.extra):
            tasks = []

            async def one(i, f):
                try:
                    res[i] = ("ok", await f())
                except asyncio.CancelledError:
                    res[i] = ("cancelled",)
                except (Violation,) as e:
                    raise
                except Exception as e:
                    res[i] = ("err", e)

            async def main():
                for i, (f, _) in enumerate(jobs):
                    tasks.append(asyncio.ensure_future(one(i, f)))
                out = await asyncio.gather(*tasks, return_exceptions=True)
                for o in out:
                    if isinstance(o, Exception):
                        raise o

            def on_step(loop, h):
                for i, (f, c) in enumerate(jobs):
                    if c is not None and loop.steps == c and i < len(tasks) and not tasks[i].done():
                        tasks[i].cancel()
                        self.ctx.fault("cancelled_reader")
            L.on_step = on_step
            L.run(main())
            self.ctx.steps += L.steps
        for i, r in enumerate(res):
            if r is None:
                res[i] = ("cancelled",)     # cancelled before its first step
        return res

    def run_plain(self, f, ambient="fresh"):
        """Call f outside any running event loop; loops it makes are simulated. What the thread has as its
        current event loop: never set any, none any more (after asyncio.run), a closed one, or another thread."""
        with loops(self.chooser, max_steps=300000) as L, buggify_queues(self.budget, self.chooser if self.extra else None, self.extra):
            def call():
                try:
                    return ("ok", f())
                except Violation:
                    raise
                except Exception as e:
                    return ("err", e)
            if ambient == "none":
                asyncio.set_event_loop(None)
            elif ambient == "closed":
                l = L.make()
                asyncio.set_event_loop(l)
                l.close()
            if ambient == "thread":
                r = in_thread(call)
            else:
                r = call()
            self.ctx.fault("ambient_loop_" + ambient)
            self.ctx.steps += L.steps
            for l in L.made:
                need(not l.is_running(), "an event loop is still running")
        asyncio.set_event_loop(None)
        return r


def in_thread(f):
    """f in a thread of its own, nothing else runs meanwhile"""
    out = []

    def body():
        try:
            out.append((f(), None))
        except BaseException as e:
            out.append((None, e))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if out[0][1] is not None:
        raise out[0][1]
    return out[0][0]


class Readers:
    """Histories with groups of reader operations in between."""
    real = ["rei.foundations.hierarchical_traversal_strategies", "rei.foundations.query.search_elements", "rei.query.query_engine",
            "rei.foundations.graph_monad", "rei.foundations.conceptual_item", "rei.hypergraph", "asyncio tasks and futures"]
    stubs = ["event loop (seeded scheduler, virtual time)", "asyncio queues (real, with seeded extra suspension points)", "clock (simulated)"]
    assumptions = ["the graph does not change while a reader that is judged runs", "one reader object is not used by two tasks at once"]
    weights = dict(new=8, add=5, rm=5, dereg=1, chain=0.6, fan=0.5, connect=4, rmrel=1, disc=0.5, readd=1)
    quick_runs = 7000
    reader_rate = 0.35
    long = (400, 1200)      # levels, or siblings, of the large hierarchies
    wide = True             # also edges with very many relations
    world = RWorld

    def gen(self, rng, index, tier):
        wt = dict(self.weights)
        for k in list(wt):
            if k not in ("new",) and rng.random() < 0.25:
                wt[k] = 0.0001
        names = rng.choice([["a", "b"], ["a", "b", "c", "node"], ["x.y", "ñ", "a b", "node"]])
        g = HistGen(rng, wt, clocks=1, names=names)
        g.generate(rng.randint(5, 15))
        if index % 60 == 11:
            id = g.nid()
            n = rng.choice(self.long)
            g.emit(id, rng.choice(["chain", "fan"]), n, g.pick("node"), 0)
            g.ids["node"] += [id, f"{id}.{n // 2}", f"{id}.{n - 1}"]
        if index % 60 == 41 and self.wide:
            g.g_star(rng)
        self.prepare(rng, g)
        n = rng.randint(15, 40) if tier == "quick" or index % 3 else rng.randint(40, 120)
        grp = 0
        while len(g.ops) < n:
            if rng.random() < self.reader_rate:
                grp += 1
                for _ in range(rng.choice([1, 1, 2, 3])):
                    self.reader_op(rng, g, grp)
            else:
                g.step()
        for _ in range(2):
            grp += 1
            self.reader_op(rng, g, grp)
        return dict(ops=g.ops, cfg=dict(modes=[rng.choice(MODES)], wseed=rng.randrange(10**9), extra=rng.choice([0.0, 0.05, 0.3])),
                    sched=dict(seed=rng.randrange(10**9), bias=rng.choice([0.0, 0.5])))

    def prepare(self, rng, g):
        pass

    def cancel_spec(self, rng):
        r = rng.random()
        if r < 0.1:
            return ["raise", rng.choice([1, 2, 3, 5, 8]), rng.randrange(len(ERRORS))]
        if r < 0.14:
            return ["fraise", rng.choice([1, 2, 3, 6, 12]), rng.randrange(len(ERRORS))]
        if r < 0.24:
            return ["cancel", rng.choice([1, 2, 3, 5, 9, 20])]
        return None

    def run(self, case, ctx):
        w = self.world(ctx, case["cfg"]["wseed"], clocks=1, modes=case["cfg"]["modes"])
        s = Session(case, ctx, case["cfg"]["extra"])
        self.begin(w)
        ops = case["ops"]
        i = 0
        n = 0
        while i < len(ops):
            op = ops[i]
            if op[1] in self.kinds:
                group = [op]
                while i + 1 < len(ops) and ops[i + 1][1] in self.kinds and ops[i + 1][2] == op[2]:
                    i += 1
                    group.append(ops[i])
                jobs = [j for j in (self.job(w, o) for o in group) if j]
                if jobs:
                    n += len(jobs)
                    for j in jobs:
                        ctx.op(j.op[1])
                    if len(jobs) == 1 and getattr(jobs[0], "plain", False):
                        res = [s.run_plain(jobs[0].call, jobs[0].ambient)]
                    else:
                        res = s.run([(j.coro, j.cancel) for j in jobs])
                    for j, r in zip(jobs, res):
                        if r[0] == "err" and isinstance(r[1], Injected):
                            ctx.fault("failing_callback")
                        if r[0] == "err" and isinstance(r[1], RecursionError):
                            raise Violation(f"{show(j.op)}: recursion limit reached")
                        j.judge(r)
                    ctx.state([(show(j.op), r[0], str(j.result)[:2000]) for j, r in zip(jobs, res)])
            else:
                w.do(op)
            i += 1
        ctx.nontrivial = n > 1


class Job:
    def __init__(self, w, op, fault):
        self.w, self.op = w, op
        self.fault = Fault(fault)
        self.cancel = fault[1] if fault and fault[0] == "cancel" else None
        self.fspec = fault
        self.result = None


# -- P11 ------------------------------------------------------------------------------------

# the reader on whose behalf a task runs: traversal objects may serve several at once
READER = contextvars.ContextVar("reader")


class TravJob(Job):
    """[id, "trav", group, slot, start, algo, depth, pred, ignore_root, visitor kind, fault]; a slot is a traversal object."""

    def __init__(self, w, op, slots):
        super().__init__(w, op, op[10])
        self.calls = []
        self.bodies = []
        _, _, _, slot, self.start, algo, depth, ps, ign, vk, fault = op
        self.p = pred(w, ps)
        if slot not in slots:
            from rei.foundations import hierarchical_traversal_strategies as h
            def visitor(x):
                return READER.get().visit(x, vk)

            def filt(x):
                return READER.get().filter(x)
            end = [ign] if ign or len(op[0]) % 2 else []        # the start is visited unless told otherwise
            if algo == "bfs":
                t = h.BreadthFirstHierarchicalTraversal(visitor, filt, *end)
            elif algo == "dfs":
                t = h.DepthFirstHierarchicalTraversal(visitor, filt, *end)
            elif algo == "dlb":
                t = h.DepthLimitedBreadthVisitChildren(visitor, filt, depth, *end)
            else:
                t = h.DepthLimitedDepthVisitChildren(visitor, filt, depth, *end)
            slots[slot] = (t, [algo, depth if algo in ("dlb", "dld") else math.inf, ign, vk])
        self.t, self.conf = slots[slot]

    def visit(self, x, vk):
        self.calls.append(self.w.name_of(x))
        if self.fspec and self.fspec[0] == "raise":
            self.fault.hit()
        vk = self.conf[3]
        if vk == "async":
            return self.body(x)
        if vk == "future":
            return asyncio.ensure_future(self.body(x))
        return ("visited", self.w.name_of(x))

    async def body(self, x):
        await asyncio.sleep(0)
        self.bodies.append(self.w.name_of(x))
        return ("visited", self.w.name_of(x))

    def filter(self, x):
        if self.fspec and self.fspec[0] == "fraise":
            self.fault.hit()
        i = self.w.name_of(x)
        need(i in self.w.m, "{}: the traversal came across {}, which is not in the graph", show(self.op), i)
        return answer(self.op[0], self.p(i))

    async def coro(self):
        READER.set(self)
        futs = await self.t.execute(self.w.obj[self.start])
        self.values = [await f for f in futs]
        return futs

    def judge(self, r):
        w = self.w
        algo, depth, ign, vk = self.conf
        want = reference(w, self.start, algo, depth, self.p, ign)
        self.result = self.calls
        if r[0] == "ok":
            need(not self.fault.fired, "{}: a callback failed but the traversal reported success", show(self.op))
            need(self.calls == want, "{} ({}, depth {}): visited {} instead of {}", show(self.op), algo, depth, short(self.calls), short(want))
            need(self.values == [("visited", i) for i in want], "{}: the results of the visits are {}", show(self.op), short(self.values))
            if vk != "sync":
                need(sorted(self.bodies) == sorted(want), "{}: visitor coroutines ran for {} instead of {}", show(self.op), short(self.bodies), short(want))
        else:
            if r[0] == "err":
                need(self.fault.fired and isinstance(r[1], Injected), "{} failed: {}: {}", show(self.op), type(r[1]).__name__, r[1])
            need(self.calls == want[:len(self.calls)], "{} ({}) visited {} before it was aborted, expected {}", show(self.op), algo,
                 short(self.calls), short(want))


class Printed:
    """Standard output: what each task prints, lines may be refused (full disk, closed pipe)."""
    current = contextvars.ContextVar("printer", default=None)

    def write(self, s):
        j = self.current.get()
        if j is not None:
            if j.fspec and j.fspec[0] == "raise":
                j.fault.hit()
            j.text += s
        return len(s)

    def flush(self):
        pass


class PrintJob(Job):
    """[id, "plist", group, start, fault]: the listing of a hierarchy"""

    def __init__(self, w, op):
        super().__init__(w, op, op[4])
        self.start = op[3]
        self.text = ""
        self.want = [i for i in reference(w, self.start, "bfs", math.inf, lambda i: True, False) if w.m[i].kind in ("node", "edge", "rel")]

    async def coro(self):
        from rei.foundations.hierarchical_traversal_strategies import print_graph_hierarchy
        import sys
        if not isinstance(sys.stdout, Printed):
            sys.stdout = Printed()      # the runner puts the old one back
        Printed.current.set(self)
        try:
            await print_graph_hierarchy(self.w.obj[self.start])
        finally:
            Printed.current.set(None)

    def judge(self, r):
        if r[0] == "err":
            need(self.fault.fired and isinstance(r[1], Injected), "{} failed: {}: {}", show(self.op), type(r[1]).__name__, r[1])
            self.result = "failed"
            return
        w = self.w
        lines = self.text.splitlines()
        self.result = len(lines)
        if r[0] == "cancelled":
            return
        need(not self.fault.fired, "{}: a line could not be written but the listing succeeded", show(self.op))
        need(len(lines) == len(self.want), "{}: {} lines for {} elements", show(self.op), len(lines), len(self.want))
        for l, i in zip(lines, self.want):
            m = w.m[i]
            word = {"node": "node", "edge": "edge", "rel": "relation"}[m.kind]
            need(l.startswith(word) and w.obj[i].qualified_name in l, "{}: the line for {} is {!r}", show(self.op), i, short(l))
            if m.kind == "rel":
                arrow = {"OUTWARDS": "->", "INWARDS": "<-", "BIDIRECTIONAL": "--"}[m.dir]
                need(f" {arrow} {w.m[m.ep].name}" in l, "{}: the line for {} ({} to {}) is {!r}", show(self.op), i, m.dir, m.ep, short(l))


class P11(Readers):
    pid = "P11"
    kinds = ("trav", "plist")
    rule = ("a run is a random history with 3-20 traversals (all four strategies, random filters, limits, visitor kinds; traversal "
            "objects re-used) run alone or up to three at once under a seeded scheduler, some aborted by a failing visitor or "
            "filter or cancelled; non-trivial: at least two traversals ran")

    def prepare(self, rng, g):
        self.slots = [dict(algo=rng.choice(ALGOS), depth=rng.choice([0, 1, 1, 2, 3, 5, 50]), ign=rng.random() < 0.3,
                           vk=rng.choice(["sync", "sync", "async", "async", "future"])) for _ in range(rng.randint(1, 4))]
        self.n = 0

    def reader_op(self, rng, g, grp):
        start = g.pick("node", "node", "edge", "item")
        if start is None:
            return
        if rng.random() < 0.1:
            if rng.random() < 0.3:
                start = g.pick("edge") or start
            c = self.cancel_spec(rng)
            g.emit(g.nid(), "plist", grp, start, None if c and c[0] == "fraise" else c)
            return
        if rng.random() < 0.6:
            slot = rng.randrange(len(self.slots))
            if rng.random() < 0.5 and any(o[1] == "trav" and o[2] == grp and o[3] == slot for o in g.ops):
                return
            c = self.slots[slot]
        else:
            self.n += 1
            slot = f"n{self.n}"
            c = dict(algo=rng.choice(ALGOS), depth=rng.choice([0, 1, 1, 2, 3, 5, 50]), ign=rng.random() < 0.3, vk=rng.choice(["sync", "sync", "async", "async", "future"]))
        g.emit(g.nid(), "trav", grp, slot, start, c["algo"], c["depth"], gen_pred(rng, g.names), c["ign"], c["vk"], self.cancel_spec(rng))

    def begin(self, w):
        w.slots = {}

    def job(self, w, op):
        if op[1] == "plist":
            return PrintJob(w, op) if op[3] in w.m else None
        return TravJob(w, op, w.slots) if op[4] in w.m else None


# -- P12 ------------------------------------------------------------------------------------

class SearchJob(Job):
    """[id, "search", group, slot, start, both, target spec, fault]; fault "elem" lets fragile elements fail"""

    def __init__(self, w, op, slots):
        super().__init__(w, op, op[7])
        _, _, _, slot, self.start, both, target, fault = op
        from rei.foundations.query.search_elements import QuerySearchElement, QuerySearchSubElement
        if slot not in slots:
            slots[slot] = (QuerySearchElement() if both else QuerySearchSubElement(), both, [None])
        self.q, self.both, last = slots[slot]
        if target[0] == "now":
            self.name = w.path(target[1]) if target[1] in w.m else "gone"
        elif target[0] == "same":      # what the object searched for last
            self.name = last[0] or "nothing"
        else:
            self.name = target[1]
        last[0] = self.name
        self.arm = fault is not None and fault[0] == "elem"

    async def coro(self):
        self.q.query_def = self.name
        F = self.w.fragile()
        F.armed.set(elem_error(self.fspec) if self.arm else False)
        self.leak = self.w.leak.search(self)        # searches do not suspend while the queue is shared
        try:
            await self.q.execute(self.w.obj[self.start])
        finally:
            F.armed.set(False)
        return list(self.q.query_result)

    def judge(self, r):
        w = self.w
        if r[0] == "cancelled":
            return
        if r[0] == "err" and isinstance(r[1], Discard):
            raise r[1]
        if r[0] == "err" and self.arm and isinstance(r[1], Injected):
            self.result = "failed"
            return
        need(r[0] == "ok", "{} for {!r} failed: {}: {}", show(self.op), short(self.name), type(r[1]).__name__, r[1])
        scope = w.chain(self.start)[-1] if self.both else self.start
        want = set(w.named(scope, self.name))
        got = [w.name_of(x) for x in r[1]]
        self.result = got
        if (len(got) == 1 and got[0] in want) if want else not got:
            return
        if got == self.leak:        # known finding: explored what an earlier search left in the shared queue
            w.ctx.note["known_finding_shared_queue"] = w.ctx.note.get("known_finding_shared_queue", 0) + 1
            return
        raise Violation(f"{show(self.op)} ({'anywhere' if self.both else 'below the start'}) for {short(self.name)!r} found {got} "
                        f"instead of {sorted(want)}")


class Leak:
    """The recorded defect of the searches (see known_findings.jsonl), exactly: all search objects share one
    queue, and what a search that ended early left in it is explored first by the next one."""

    def __init__(self, w):
        self.w = w
        self.left = []

    def search(self, job):
        w, paths, seen, steps = self.w, {}, set(), 0

        def path(i):
            st = []
            while i is not None and i not in paths:
                st.append(i)
                i = w.m[i].parent
            p = paths.get(i)
            for x in reversed(st):
                p = w.m[x].name if p is None else p + "/" + w.m[x].name
                paths[x] = p
            return p
        q = collections.deque(self.left)
        q.append(job.start)
        out = []
        while q:
            x = q.popleft()
            steps += 1
            if steps > 20000:       # the leftover multiplies from search to search
                raise Discard("the leftover of the recorded finding is too large")
            seen.add(x)
            if path(x) == job.name:
                out = [x]
                break
            if job.arm and isinstance(w.obj[x], w.fragile()):
                out = "failed"
                break
            q.extend(k for k in w.m[x].kids if not job.both or k not in seen)
            p = w.m[x].parent
            if job.both and p is not None and p not in seen:
                q.append(p)
        self.left = list(q)
        return out


class P12(Readers):
    pid = "P12"
    kinds = ("search",)
    weights = dict(Readers.weights, twin=0.5, readd=3)
    reader_rate = 0.5
    rule = ("a run is a random history with 3-25 searches below a start or anywhere in its hierarchy, search objects re-used with "
            "the same and other names and starts while elements move, vanish and are replaced, some searches cancelled; "
            "non-trivial: at least two searches ran")

    def prepare(self, rng, g):
        fragile_nodes(rng, g)
        self.slots = [rng.random() < 0.5 for _ in range(rng.randint(1, 3))]
        self.n = 0

    def reader_op(self, rng, g, grp):
        start = g.pick("node", "node", "edge", "item")
        if start is None:
            return
        slot = rng.randrange(len(self.slots))
        both = self.slots[slot]
        if rng.random() < 0.15:
            self.n += 1
            slot, both = f"n{self.n}", rng.random() < 0.5
        if any(o[1] == "search" and o[2] == grp and o[3] == slot for o in g.ops):
            return
        r = rng.random()
        if r < 0.55:
            t = ["now", g.pick("node", "edge", "item", "value", "sem", "rel")]
            if t[1] is None:
                return
            if rng.random() < 0.4:
                # somewhere around the target
                start = t[1] if t[1] in g.ids["node"] + g.ids["edge"] + g.ids["item"] else start
        elif r < 0.9:
            t = ["same"]
        else:
            t = ["lit", rng.choice(["", "no such", "a/a", "/".join(rng.choice(g.names) for _ in range(rng.randint(1, 4)))])]
        c = self.cancel_spec(rng)
        g.emit(g.nid(), "search", grp, slot, start, both, t, c if c and c[0] == "cancel" else ["elem", rng.randrange(len(ERRORS))] if c else None)

    def begin(self, w):
        w.slots = {}
        w.leak = Leak(w)

    def job(self, w, op):
        return SearchJob(w, op, w.slots) if op[4] in w.m else None


# -- P13 ------------------------------------------------------------------------------------

TRAVERSED = ("node", "edge", "rel", "sem")      # what a query looks at besides its traversal condition


class Engine:
    def __init__(self, real):
        self.real = real
        self.first = {}         # queries in the order their names were first added
        self.last = {}          # ... last added; where a replaced query stands is left open


class QWorld(RWorld):
    """World with query engines. Engines and queries are not part of the graph."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.engines, self.queries = {}, {}
        from rei.query import query_engine
        self.qe = query_engine

    # [id, "engine"]
    def pre_engine(self, op):
        return "ok"

    def op_engine(self, op, expect):
        self.engines[op[0]] = Engine(self.qe.HypergraphQueryEngine("engine", b"00", "engine/engine", self.clocks[0]))

    # [id, "query", context, predicate, traversal condition]
    def pre_query(self, op):
        return "ok" if op[2] in self.m and self.m[op[2]].kind in CONTAINERS + ("rel", "sem") else "skip"

    def op_query(self, op, expect):
        id, _, start, ps, ts = op
        p, t = pred(self, ps), pred(self, ts)
        hold = {"predicate": None, "statement": None}

        def call(which, f, x):
            if hold[which] is not None:
                hold[which].hit()
            i = self.name_of(x)
            need(i in self.m, "{}: the query came across {}, which is not in the graph", show(op), i)
            return answer(op[0], f(i))
        q = self.qe.HierarchicalPrepositionQuery(self.obj[start], lambda x: call("predicate", p, x), lambda x: call("statement", t, x))
        self.queries[id] = (q, start, p, t, hold)

    def answer(self, qid):
        _, start, p, t, _ = self.queries[qid]
        ok = lambda i: self.m[i].kind in TRAVERSED and t(i)
        return [i for i in reference(self, start, "bfs", math.inf, ok, False) if p(i)]

    # [id, "addq", engine, name, query]
    def pre_addq(self, op):
        return "ok" if op[2] in self.engines and op[4] in self.queries else "skip"

    def op_addq(self, op, expect):
        e = self.engines[op[2]]
        e.real.add_query(op[3], self.queries[op[4]][0])
        e.first[op[3]] = op[4]
        e.last.pop(op[3], None)
        e.last[op[3]] = op[4]

    # [id, "clearq", engine]
    def pre_clearq(self, op):
        return "ok" if op[2] in self.engines else "skip"

    def op_clearq(self, op, expect):
        e = self.engines[op[2]]
        e.real.clear()
        e.first, e.last = {}, {}


class QueryJob(Job):
    """[id, "exec", group, engine, mode, fault]"""

    def __init__(self, w, op):
        super().__init__(w, op, op[5])
        self.e = w.engines[op[3]]
        self.plain = op[4].startswith("sync")
        self.ambient = op[4].partition(":")[2] or "fresh"
        self.names = list(self.e.first.values())
        self.wants = [[i for q in l.values() for i in w.answer(q)] for l in (self.e.first, self.e.last)]

    def arm(self, on):
        for q in self.names:
            h = self.w.queries[q][4]
            h["predicate"] = self.fault if on and self.fspec and self.fspec[0] == "raise" else None
            h["statement"] = self.fault if on and self.fspec and self.fspec[0] == "fraise" else None
        if self.fspec and self.fspec[0] == "elem":
            self.w.fragile().armed.set(elem_error(self.fspec) if on else False)

    async def coro(self):
        self.arm(True)
        try:
            if self.op[4] == "parts":       # the steps of one query by hand
                out = []
                for q in self.names:
                    q = self.w.queries[q][0]
                    for c in await q.prefilter():
                        await c
                    out += await q.get_list_results()
                return out
            if self.op[4] == "phases" and len(set(self.names)) == len(self.names):    # the steps of the engine by hand
                for c in self.e.real.prefilter_queries():
                    for t in await c:
                        await t
                out = []
                for c in await self.e.real.task_result_queries_lists():
                    out += await c
                return out
            return await self.e.real.execute()
        finally:
            self.arm(False)

    def call(self):
        self.arm(True)
        try:
            return self.e.real.execute_all_queries()
        finally:
            self.arm(False)

    def judge(self, r):
        if r[0] == "cancelled":
            return
        elem = self.fspec is not None and self.fspec[0] == "elem"
        if r[0] == "err":
            need(isinstance(r[1], Injected) and (self.fault.fired or elem), "{} failed: {}: {}", show(self.op), type(r[1]).__name__, r[1])
            self.result = "failed"
            return
        need(not self.fault.fired, "{}: a predicate or condition failed but the execution reported {}", show(self.op),
             [self.w.name_of(x) for x in r[1]][:8] if r[1] is not None else None)
        got = [self.w.name_of(x) for x in r[1]]
        self.result = got
        need(got in self.wants, "{} of {} queries returned {} instead of {}", show(self.op), len(self.names), short(got), short(self.wants[0]))


class P13(Readers):
    pid = "P13"
    kinds = ("exec",)
    world = QWorld
    rule = ("a run is a random history with query engines whose queries are added, replaced, shared and cleared, executed 3-20 times "
            "synchronously, inside a running loop and step by step, up to three engines at once, some with a failing predicate, "
            "condition or element, or cancelled; non-trivial: at least two executions ran")

    def prepare(self, rng, g):
        fragile_nodes(rng, g)
        self.engines = [g.emit(g.nid(), "engine") for _ in range(rng.randint(1, 3))]
        self.queries = []
        for e in self.engines:
            for n in range(rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.9 else rng.choice([6, 12, 25])):
                self.addq(rng, g, e, f"q{n}")

    def addq(self, rng, g, e, name):
        if not self.queries or rng.random() < 0.85:
            start = g.pick("node", "node", "node", "edge", "item", "sem")
            if start is None:
                return
            if rng.random() < 0.5:
                start = g.ids["node"][0] if g.ids["node"] else start
            self.queries.append((g.emit(g.nid(), "query", start, gen_pred(rng, g.names), gen_pred(rng, g.names) if rng.random() < 0.5 else ["all"]), e))
            q = self.queries[-1]
        else:
            own = [q for q in self.queries if q[1] == e]
            if not own:
                return
            q = rng.choice(own)
        g.emit(g.nid(), "addq", e, name, q[0])

    def reader_op(self, rng, g, grp):
        r = rng.random()
        e = rng.choice(self.engines)
        if any(o[1] == "exec" and o[2] == grp for o in g.ops):
            r = 1       # nothing between the members of a group
        if r < 0.15:
            self.addq(rng, g, e, f"q{rng.randrange(4)}")
            return
        if r < 0.18:
            g.emit(g.nid(), "clearq", e)
            return
        mode = rng.choice(["sync", "async", "async", "parts", "phases"])
        if mode == "sync":
            mode = rng.choice(["sync", "sync:none", "sync:closed", "sync:thread"])
        for o in g.ops[-4:]:
            if o[1] == "exec" and o[2] == grp and (o[3] == e or o[4].startswith("sync") or mode.startswith("sync")):
                return
        c = self.cancel_spec(rng)
        if rng.random() < 0.05:
            c = ["elem", rng.randrange(len(ERRORS))]
        if mode.startswith("sync") and c and c[0] == "cancel":
            c = None
        g.emit(g.nid(), "exec", grp, e, mode, c)

    def begin(self, w):
        pass

    def job(self, w, op):
        return QueryJob(w, op) if op[3] in w.engines else None
