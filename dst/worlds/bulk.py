"""World A, asynchronous part: concurrent bulk additions and removals (P06)."""
import asyncio
import inspect

from ..base import Chooser, need
from ..simclock import MODES
from ..simloop import loops
from ..world import CONCEPTUAL, CONTAINERS, HistGen, World, show


class Bulk:
    """One bulk call while it is under way."""

    def __init__(self, op, members):
        self.op, self.members = op, members
        self.could_fail = [False] * len(members)
        self.done = False
        self.cancelled = False


class Model:
    """Forest state as seen from outside, cheap to copy and compare."""

    def __init__(self, w):
        self.w = w
        self.parent = {i: e.parent for i, e in w.m.items()}
        self.kids = {i: tuple(e.kids) for i, e in w.m.items()}
        self.cid = {i: e.cid if e.cid is not None else 0 for i, e in w.m.items()}
        self.hist = {i: e.hist for i, e in w.m.items()}

    def copy(self):
        c = object.__new__(Model)
        c.w = self.w
        c.parent, c.kids, c.cid, c.hist = dict(self.parent), dict(self.kids), dict(self.cid), dict(self.hist)
        return c

    def key(self):
        return (tuple(sorted((i, p or "") for i, p in self.parent.items())), tuple(sorted(self.kids.items())),
                tuple(sorted((i, c) for i, c in self.cid.items() if self.parent[i] is not None)))

    def ancestors(self, id):
        while id is not None:
            yield id
            id = self.parent[id]

    def add(self, child, cont):
        """False: refused"""
        if child is None or child in self.ancestors(cont):
            return False
        u = self.w.m[child].uuid
        if any(self.w.m[k].uuid == u for k in self.kids[cont]):
            return False
        self.detach(child)
        self.parent[child] = cont
        self.cid[child] = self.hist[cont]
        self.hist[cont] += 1
        self.kids[cont] += (child,)
        return True

    def detach(self, child):
        p = self.parent[child]
        if p is not None:
            self.kids[p] = tuple(k for k in self.kids[p] if k != child)
            self.parent[child] = None

    def remove(self, cont, name, uuid):
        m = self.w.m
        if name:
            v = [k for k in self.kids[cont] if m[k].name == name and (uuid is None or m[k].uuid == uuid)]
        else:
            v = [k for k in self.kids[cont] if uuid is not None and m[k].uuid == uuid]
        for k in v:
            self.detach(k)
        return bool(v)

    def can(self, call, i):
        """would the operation be accepted"""
        kind, cont = call.op[3], call.op[4]
        x = call.members[i]
        m = self.w.m
        if kind == "add":
            if x[0] is None or x[0] in self.ancestors(cont):
                return False
            u = m[x[0]].uuid
            return not any(m[k].uuid == u for k in self.kids[cont])
        name, uuid = x
        return any((not name or m[k].name == name) and (uuid is None or m[k].uuid == uuid) for k in self.kids[cont]) if name or uuid is not None else False

    def apply(self, call, i):
        kind, cont = call.op[3], call.op[4]
        x = call.members[i]
        return self.add(x[0], cont) if kind == "add" else self.remove(cont, x[0], x[1])


class P06:
    pid = "P06"
    quick_runs = 15000
    shrink_lists = ("ops",)
    real = ["rei.foundations.conceptual_item (bulk and single operations)", "rei.hypergraph.base_elements", "asyncio tasks, futures, gather"]
    stubs = ["event loop (seeded scheduler, virtual time)", "clock (simulated)"]
    assumptions = ["bulk calls of one graph run on one event loop"]
    state_measure = "digest of the forest after each scheduler step"
    rule = ("a run is a random forest, then 1-5 tasks issuing bulk (and single) additions and removals on shared containers "
            "under a seeded scheduler with failing members and cancelled callers; after every scheduler step the state must "
            "be explained by whole single operations of calls under way; non-trivial: two or more bulk calls overlapped or "
            "a member failed or a caller was cancelled")

    def wide(self, rng):
        """long calls: a container gets or loses many elements at once"""
        g = HistGen(rng, dict(new=8, add=1), clocks=1, kinds={"node": 1}, names=["a", "b", "c"])
        g.generate(rng.randint(3, 8))
        cont = g.new("node") if not g.ids["node"] else rng.choice(g.ids["node"])
        old = [g.new("node", parent=None) for _ in range(rng.randint(30, 90))]
        ops = g.ops
        mem = [[i] for i in old]
        for _ in range(rng.randint(0, 3)):
            mem.insert(rng.choice([0, 1, rng.randrange(len(mem))]), [rng.choice(g.ids["node"] + [None])])
        ops.append(["b0", "bulk", 0, "add", cont, mem, rng.randrange(1, 60) if rng.random() < 0.1 else None, rng.choice(["list", "tuple", "gen"]), False, 0])
        if rng.random() < 0.6:
            out = [[rng.choice(["u", "nu", "u", "nu", "mis", "ghost"]), i] for i in rng.sample(old, rng.randint(10, len(old)))]
            for _ in range(rng.randint(0, 2)):
                out.insert(rng.choice([0, rng.randrange(len(out))]), [rng.choice(["ghost", "none"]), old[0]])
            ops.append(["b1", "bulk", rng.choice([0, 0, 0, 1]), "rm", cont, out, None, rng.choice(["list", "tuple", "gen"]), False, rng.randrange(2)])
        return dict(ops=ops, cfg=dict(modes=[rng.choice(MODES)], wseed=rng.randrange(10**9)), sched=dict(seed=rng.randrange(10**9)))

    def gen(self, rng, index, tier):
        if index % 60 == 11:
            return self.wide(rng)
        g = HistGen(rng, dict(new=8, chain=0.5, add=1, twin=1), clocks=1, kinds={"node": 5, "item": 4, "edge": 2, "value": 1},
                    names=rng.choice([["a", "b"], ["a", "b", "c", "node"], ["x.y", "a"]]))
        g.generate(rng.randint(5, 18))
        els = g.ids
        conts = els["node"] + els["item"] + els["edge"]
        allels = conts + els["value"]
        hot = rng.sample(conts, min(len(conts), rng.randint(1, 3)))
        ops = g.ops
        tasks = rng.choice([1, 2, 2, 3, 3, 4, 5])
        pool = rng.sample(allels, min(len(allels), rng.randint(2, 10)))
        for n in range(rng.randint(1, 2 * tasks + 1)):
            t = rng.randrange(tasks)
            kind = rng.choice(["add", "add", "rm"])
            cont = rng.choice(hot) if rng.random() < 0.85 else rng.choice(conts)
            k = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
            mem = []
            for _ in range(k):
                if kind == "add":
                    mem.append([rng.choice(pool) if rng.random() < 0.9 else rng.choice(allels + [None])])
                else:
                    mem.append([rng.choice(["u", "u", "nu", "nu", "n", "mis", "ghost", "none"]), rng.choice(pool) if rng.random() < 0.7 else rng.choice(allels)])
            single = k == 1 and rng.random() < 0.25
            cancel = rng.randrange(1, 12) if rng.random() < 0.2 else None
            ops.append([f"b{n}", "bulk", t, kind, cont, mem, cancel, rng.choice(["list", "tuple", "gen"]), single, rng.randrange(3)])
        return dict(ops=ops, cfg=dict(modes=[rng.choice(MODES)], wseed=rng.randrange(10**9)), sched=dict(seed=rng.randrange(10**9)))

    def run(self, case, ctx):
        w = World(ctx, case["cfg"]["wseed"], clocks=1, modes=case["cfg"]["modes"])
        w.run([o for o in case["ops"] if o[1] != "bulk"])
        bulk = [list(o) for o in case["ops"] if o[1] == "bulk" and o[4] in w.m and w.m[o[4]].kind in CONTAINERS]
        for o in bulk:
            o[5] = [m for m in o[5] if m[-1] is None or (m[-1] in w.m and w.m[m[-1]].kind not in ("rel", "port"))]
        chooser = Chooser(case.get("sched"))
        ctx.trace = chooser.trace
        st = State(w, ctx)
        with loops(chooser, max_steps=5000) as L:
            def on_step(loop, h):
                st.observe(f"before scheduler step {loop.steps}")
                st.cancels(loop)
            L.on_step = on_step
            L.run(self.main(w, st, bulk))
            ctx.steps += L.steps
            st.observe("at the end")
        st.end()
        ctx.nontrivial = st.overlap or st.failed or st.cancelled > 0

    async def main(self, w, st, bulk):
        by = {}
        for o in bulk:
            by.setdefault(o[2], []).append(o)
        tasks = {t: asyncio.ensure_future(self.task(w, st, t, ops)) for t, ops in by.items()}
        st.tasks = tasks
        res = await asyncio.gather(*tasks.values(), return_exceptions=True)
        for r in res:
            if isinstance(r, BaseException) and not isinstance(r, asyncio.CancelledError):
                raise r
        # operations a cancelled call left behind come to their end
        for _ in range(5):
            await asyncio.sleep(0)

    async def task(self, w, st, t, ops):
        for o in ops:
            for _ in range(o[9]):
                await asyncio.sleep(0)
            await self.call(w, st, o)

    async def call(self, w, st, o):
        _, _, t, kind, cont, mem, cancel, form, single, _ = o
        obj = w.obj[cont]
        if kind == "add":
            members = [(m[0],) for m in mem]
            args = [w.obj[m[0]] if m[0] is not None else None for m in mem]
        else:
            members = [criterion(w, m, cont) for m in mem]
            args = [tuple(x) for x in members]
        c = Bulk(o, members)
        st.start(c)
        w.ctx.op("bulk_" + kind if not single else "single_" + kind)
        failure = None
        try:
            if single:
                if kind == "add":
                    obj.add_element(args[0])
                else:
                    for _ in obj.remove_element(*args[0]):
                        pass
            else:
                a = args if form == "list" else tuple(args) if form == "tuple" else (x for x in args)
                r = await (obj.add_elements(a) if kind == "add" else obj.remove_elements(a))
                if inspect.isawaitable(r):
                    r = await r
        except asyncio.CancelledError:
            c.cancelled = True
            st.finish(c, None)
            raise
        except Exception as e:
            failure = e
        st.finish(c, failure)


def criterion(w, m, cont):
    how, t = m
    e = w.m[t]
    if how == "u":
        return ("", e.uuid)
    if how == "nu":
        return (e.name, e.uuid)
    if how == "n":
        return (e.name, None)
    if how == "mis":
        return (e.name + "?", e.uuid)
    if how == "ghost":
        return ("", b"no such identifier")
    return ("", None)


class State:

    def __init__(self, w, ctx):
        self.w, self.ctx = w, ctx
        self.model = Model(w)
        self.calls = []
        self.hyp = {frozenset()}        # possible sets of (call, member) operations applied so far
        self.overlap = self.failed = False
        self.cancelled = 0
        self.tasks = {}

    def real_key(self):
        w = self.w
        parent, kids, cid = [], [], []
        for i, o in w.obj.items():
            p = w.name_of(o.parent)
            parent.append((i, p or ""))
            kids.append((i, tuple(w.name_of(k) for k in w.kids_real(i))))
            if p is not None:
                cid.append((i, o.cid))
            if w.m[i].kind in CONCEPTUAL:
                need(o.cnt_subelements == len(kids[-1][1]), "{} reports {} sub-elements and holds {}", i, o.cnt_subelements, len(kids[-1][1]))
        return (tuple(sorted(parent)), tuple(sorted(kids)), tuple(sorted(cid)))

    def live(self):
        return [c for c in self.calls if not c.done or c.cancelled]

    def start(self, c):
        self.observe(f"before call {c.op[0]} starts")
        if any(not x.done for x in self.calls):
            self.overlap = True
        self.calls.append(c)
        self.mark_failable(self.model)

    def mark_failable(self, model):
        for c in self.live():
            for i in range(len(c.members)):
                if not c.could_fail[i] and not model.can(c, i):
                    c.could_fail[i] = True

    def cancels(self, loop):
        for c in self.calls:
            if not c.done and c.op[6] is not None and loop.steps >= c.op[6] and not getattr(c, "hit", False):
                c.hit = True
                t = self.tasks.get(c.op[2])
                if t is not None and not t.done():
                    self.cancelled += 1
                    self.ctx.fault("cancelled_caller")
                    t.cancel()

    def observe(self, when):
        real = self.real_key()
        if real == self.model.key():
            return
        # explain the change by whole operations of the calls under way (breadth first, fewest first)
        ops = [(c, i) for c in self.live() for i in range(len(c.members))]
        front = [(self.model, ())]
        seen = {self.model.key()}
        sols = []
        budget = 20000
        while front and not sols:
            nxt = []
            for m, seq in front:
                for c, i in ops:
                    budget -= 1
                    tag = (c.op[0], i)
                    if tag in seq:
                        continue
                    n = m.copy()
                    if not n.apply(c, i):
                        continue
                    k = n.key()
                    if k == real:
                        sols.append((n, seq + (tag,)))
                    elif k not in seen or budget > 0:
                        nxt.append((n, seq + (tag,)))
                if budget < 0:
                    break
            front = nxt if budget > 0 else []
        if not sols and budget <= 0:
            sols = self.direct(real, ops)
        sols = self.absorbed(sols, ops, real)
        need(sols, "{}: the state is not the outcome of whole operations of the calls under way: {}", when, self.describe(real))
        hyp = set()
        for h in self.hyp:
            for _, seq in sols:
                if not h & set(seq):
                    hyp.add(h | frozenset(seq))
        need(hyp, "{}: an operation took effect a second time: {}", when, self.describe(real))
        self.hyp = hyp
        for k in range(len(sols[0][1])):        # what could be refused on the way there
            m = self.model.copy()
            for tag in sols[0][1][:k + 1]:
                c = next(x for x in self.calls if x.op[0] == tag[0])
                m.apply(c, tag[1])
            self.mark_failable(m)
        self.model = sols[0][0]
        self.ctx.state(self.model.key())

    def absorbed(self, sols, ops, real):
        """several removals may have taken place at once, one by name taking what another one left of that name"""
        if not any(c.op[3] == "rm" for c, i in ops if any((c.op[0], i) in seq for _, seq in sols)):
            return sols
        by = {(c.op[0], i): (c, i) for c, i in ops}
        out, front = list(sols), [seq for _, seq in sols]
        for _ in range(3):
            nxt = []
            for seq in front[:50]:
                conts = {by[t][0].op[4] for t in seq if by[t][0].op[3] == "rm"}
                for c, i in ops:
                    tag = (c.op[0], i)
                    if tag in seq or c.op[3] != "rm" or c.op[4] not in conts:
                        continue
                    m = self.model.copy()
                    if all(m.apply(*by[t]) for t in (tag,) + seq) and m.key() == real:
                        nxt.append((tag,) + seq)
                        out.append((m, (tag,) + seq))
            front = nxt
        return out

    def direct(self, real, ops):
        """long calls: of the pending operations those whose effect shows, one after the other in the order that shows"""
        parent, cid = dict(real[0]), dict(real[2])
        tried = [(c, i) for c, i in ops if not all((c.op[0], i) in h for h in self.hyp)]
        m, seq = self.model.copy(), []
        for c, i in tried:
            if c.op[3] == "rm" and m.can(c, i):
                n = m.copy()
                n.apply(c, i)
                if all(parent.get(k) != c.op[4] for k in m.kids[c.op[4]] if k not in n.kids[c.op[4]]):
                    m = n
                    seq.append((c.op[0], i))
        adds = [(cid.get(c.members[i][0], 0), n, c, i) for n, (c, i) in enumerate(tried)
                if c.op[3] == "add" and c.members[i][0] is not None and parent.get(c.members[i][0]) == c.op[4]]
        for _, _, c, i in sorted(adds, key=lambda a: a[:2]):
            if m.can(c, i):
                m.apply(c, i)
                seq.append((c.op[0], i))
        if m.key() != real:
            return []
        # members that ask for the same may stand for each other
        alike = {}
        for c, i in tried:
            alike.setdefault((c.op[3], c.op[4], c.members[i]), []).append((c.op[0], i))
        tags = {t: v for v in alike.values() for t in v}
        sols = [()]
        for t in seq:
            if len(sols) > 200:
                tags = {}
            sols = [x + (y,) for x in sols for y in tags.get(t, [t]) if y not in x]
        return [(m, x) for x in sols]

    def describe(self, real):
        want = self.model.key()
        d = []
        for a, b in ((dict(want[1]), dict(real[1])), (dict(want[0]), dict(real[0])), (dict(want[2]), dict(real[2]))):
            for k in b:
                if a.get(k) != b[k]:
                    d.append(f"{k}: {a.get(k)} -> {b[k]}")
        return "; ".join(d)[:300]

    def finish(self, c, failure):
        self.observe(f"when call {c.op[0]} ends")
        self.mark_failable(self.model)
        c.done = True
        name = f"{'single' if c.op[8] else 'bulk'} {c.op[3]} {c.op[0]} on {c.op[4]}"
        if c.cancelled:
            return
        n = len(c.members)
        ok = set()
        for h in self.hyp:
            missing = [i for i in range(n) if (c.op[0], i) not in h]
            if failure is None and missing:
                continue
            if failure is not None and not missing:
                continue
            if all(c.could_fail[i] for i in missing):
                ok.add(h)
        if failure is not None:
            self.failed = True
            self.ctx.fault("failing_member")
            # the error of a member, none of the machinery that carries it
            odd = c.op[3] == "add" and any(m[0] is None for m in c.op[5])
            need(type(failure).__module__.split(".")[0] == "rei" or isinstance(failure, (KeyError, AttributeError, TypeError) if odd else KeyError),
                 "{} reported {}: {}, which no member fails with", name, type(failure).__name__, failure)
        if not ok:
            h = min(self.hyp, key=sorted)
            missing = [c.op[5][i] for i in range(n) if (c.op[0], i) not in h]
            must = [c.op[5][i] for i in range(n) if (c.op[0], i) not in h and not c.could_fail[i]]
            if failure is None:
                need(False, "{} reported success, yet {} was not applied", name, missing)
            elif must:
                need(False, "{} ended ({}: {}) without applying {}, which could have been at any time", name,
                     type(failure).__name__, failure, must)
            need(False, "{} reported a failure ({}: {}) although every member was applied", name, type(failure).__name__, failure)
        self.hyp = ok

    def end(self):
        for c in self.calls:
            need(c.done, "call {} never ended", c.op[0])
        # what the operations leave is a hierarchy like any other: names, depths and lookups are those of the places
        w, m = self.w, self.model
        for i, o in w.obj.items():
            up = list(m.ancestors(i))
            qn = "/".join(w.m[x].name for x in reversed(up))
            need(o.qualified_name == qn, "at the end {} is called {!r} instead of {!r}", i, o.qualified_name, qn)
            need(o.depth == len(up) - 1, "at the end the depth of {} is {} instead of {}", i, o.depth, len(up) - 1)
            if w.m[i].kind in CONTAINERS and hasattr(o, "get_element_by_id_name"):
                for name in {w.m[k].name for k in m.kids[i]} | {w.m[k].name for c in self.calls if c.op[4] == i for k in w.m if (k,) in c.members}:
                    got = [w.name_of(x) for x in o.get_element_by_id_name(name)] if "/" not in name else None
                    want = [k for k in m.kids[i] if w.m[k].name == name]
                    need(got is None or got == want, "at the end looking up {!r} in {} gives {} instead of {}", name, i, got, want)
