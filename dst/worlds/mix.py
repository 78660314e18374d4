"""World E: mixtures of readers on one graph, concurrently and alone (P14)."""
from ..base import ERRORS, Injected, Violation, need, rng_of
from ..world import DIRS, show
from .hier import short
from .matrix import FactJob, FWorld, HTravJob, IndexJob, TensorJob, ref_chain, check_maps
from .readers import elem_error, ALGOS, Job, Leak, QWorld, QueryJob, Readers, SearchJob, Session, TravJob, fragile_nodes, gen_pred


class PWorld(QWorld, FWorld):

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.leak = Leak(self)


class CooJob(Job):
    """[id, "coo", group, slot, context, form, fault]"""

    def __init__(self, w, op):
        super().__init__(w, op, op[6])
        self.start, self.form = op[4], op[5]
        from rei.hypergraph.encoding import graph_tensor_icon as g, graph_tensor_icon_cbor as c
        ctx = w.obj[self.start]
        self.x = g.CoordinateObjectTransformer(ctx) if self.form == "coo" else c.GraphTensorCbor("icon", w.clocks[0], ctx)

    async def coro(self):
        x, ctx = self.x, self.w.obj[self.start]
        if self.fspec and self.fspec[0] == "elem":
            self.w.fragile().armed.set(elem_error(self.fspec))
        try:
            if self.form == "coo":
                await x.reset(ctx)
                await x.execute()
                return [x.node_index_list(), x.edge_index_list(), list(x.msg_relation_index_list()), x.msg_value_nodes(),
                        [list(m) for m in x.msg_tensor_value_updates()], x.msg_value_node_update()]
            await x.update_context(ctx)
            await x.update_coo()
            return [x.full_msg(), x.msg_value_update()]
        finally:
            self.w.fragile().armed.set(False)


def outcome(j, r):
    """What a reader returned, as data."""
    w = j.w
    if r[0] != "ok":
        return [r[0], type(r[1]).__name__] if len(r) > 1 else [r[0]]
    if isinstance(j, TravJob):
        return [list(j.calls), sorted(j.bodies)]
    if isinstance(j, QueryJob):
        return [w.name_of(x) for x in r[1]]
    if isinstance(j, FactJob):
        return [r[1], len(j.mapargs)]
    if isinstance(j, IndexJob):
        def get(f, x):
            try:
                return f(x)
            except Exception as e:
                return type(e).__name__
        h = j.h
        return [h.cnt_node, h.cnt_edges, [[get(f, o.uuid) for f in (h.node, h.edge, h.val)] for o in w.obj.values()]]
    if isinstance(j, TensorJob):
        return [m.tolist() for m in (r[1].W, r[1].Io, r[1].Ii)]
    if isinstance(j, HTravJob):
        return [[str(a), str(b), str(e), float(v)] for a, b, e, v, _ in j.out]
    return r[1]


class P14(Readers):
    pid = "P14"
    kinds = ("trav", "search", "exec", "fact", "index", "tensor", "htrav", "coo")
    world = PWorld
    weights = dict(new=6, add=3, rm=2, chain=0.4, fan=0.4, connect=9, rmrel=1, readd=0.5, newrel=1)
    quick_runs = 5000
    real = Readers.real + ["rei.hypergraph.factorization_operations", "rei.hypergraph.homomorphism_functions", "rei.tensor",
                           "rei.hypergraph.encoding", "numpy", "cbor2"]
    rule = ("a run is a graph with history and groups of 2-6 readers of any kind, each run alone, then all of them concurrently with "
            "seeded scheduling, extra suspension points, failing callbacks and elements and cancellations, then alone again; "
            "results are compared and the whole graph is compared before and after; non-trivial: at least one group of two ran")

    def gen(self, rng, index, tier):
        c = super().gen(rng, index, tier)
        c["cfg"]["extra"] = rng.choice([0.0, 0.05, 0.15, 0.4])
        return c

    reader_rate = 0.12

    def prepare(self, rng, g):
        fragile_nodes(rng, g)
        if rng.random() < 0.3:
            ref_chain(rng, g, rng.choice([2, 3, 5, 9]))
        # a context whose edges stay inside, for tensors and encodings
        self.ctx = g.new("node", None, "ctor")
        ns = [g.new("node", self.ctx, "ctor") for _ in range(rng.randint(2, 4))]
        vs = [g.new("value", self.ctx, "ctor") for _ in range(rng.randint(0, 2))]
        nums = g.emit(g.nid(), "new", "value", "w", self.ctx, "ctor", 0, [1.0, 2.5])
        es = [g.new("edge", self.ctx, "ctor") for _ in range(rng.randint(1, 3))]
        for e in es:
            for n in rng.sample(ns, rng.randint(1, len(ns))):
                g.ids["rel"].append("r" + g.emit(g.nid(), "connect", e, n, rng.choice(DIRS), nums if rng.random() < 0.3 else None, None))
        self.engines = [g.emit(g.nid(), "engine") for _ in range(2)]
        for e in self.engines:
            for n in range(rng.randint(1, 3)):
                q = g.emit(g.nid(), "query", rng.choice([g.ids["node"][0], g.pick("node")]), gen_pred(rng, g.names),
                           gen_pred(rng, g.names) if rng.random() < 0.4 else ["all"])
                g.emit(g.nid(), "addq", e, f"q{n}", q)

    def reader_op(self, rng, g, grp):
        if g.ops[-1][1] in self.kinds and g.ops[-1][2] == grp:
            return
        same = rng.random() < 0.6
        start = g.pick("node", "node", "edge")
        for _ in range(rng.choice([2, 2, 3, 4, 6])):
            k = rng.choice(self.kinds)
            if not same:
                start = g.pick("node", "node", "edge")
            r = rng.random()
            c = None
            if r < 0.12:
                c = ["cancel", rng.choice([1, 2, 3, 5, 8, 12, 20, 40])]
            elif r < 0.2:
                c = ["elem", rng.randrange(len(ERRORS))]
            elif r < 0.28 and k in ("trav", "exec", "fact", "htrav"):
                c = [rng.choice(["raise", "fraise"]) if k in ("trav", "exec") else "raise", rng.choice([1, 2, 3, 5]), rng.randrange(len(ERRORS))]
            id = g.nid()
            if k == "trav":
                g.emit(id, k, grp, id, start, rng.choice(ALGOS), rng.choice([1, 2, 3, 50]), gen_pred(rng, g.names), rng.random() < 0.3,
                       rng.choice(["sync", "async"]), c if not c or c[0] != "elem" else None)
            elif k == "search":
                t = g.pick("node", "edge", "item", "value")
                g.emit(id, k, grp, id, start, rng.random() < 0.5, ["now", t], c)
            elif k == "exec":
                e = rng.choice(self.engines)
                if not any(o[1] == "exec" and o[2] == grp and o[3] == e for o in g.ops[-8:]):
                    g.emit(id, k, grp, e, "async", c)
            elif k == "fact":
                form = rng.choice(["full", "edges", "rels"])
                pool = (g.ids["node"] + g.ids["edge"] + g.ids["rel"])[:50]
                g.emit(id, k, grp, id, form, start if form == "full" else rng.sample(pool, rng.randint(0, len(pool))), rng.random() < 0.4,
                       rng.random() < 0.4, c)
            elif k == "index":
                g.emit(id, k, grp, id, start, rng.choice([1, 1, 2, None]), rng.random() < 0.5, c)
            elif k == "tensor":
                g.emit(id, k, grp, id, self.ctx if rng.random() < 0.7 else start, rng.choice(["tr", "tr", "rep"]), c)
            elif k == "htrav":
                g.emit(id, k, grp, id, start, rng.choice([1, 2, 3, None]), c)
            else:
                g.emit(id, k, grp, id, self.ctx if rng.random() < 0.7 else start, rng.choice(["coo", "cbor"]), c)

    def make(self, w, op, tag):
        """a reader of its own, with fresh objects"""
        op = list(op)
        k = op[1]
        if k == "exec":
            return QueryJob(w, op) if op[3] in w.engines else None
        if k in ("trav", "htrav") and sum(map(ord, str(op[3]))) % 2:       # one object for all readers of this kind
            op[3] = f"{op[5:7] + op[8:10] if k == 'trav' else op[5]}{tag}"
        else:
            op[3] = f"{op[3]}{tag}"
        if k == "fact":
            return FactJob(w, op) if op[4] != "full" or op[5] in w.m else None
        if op[4] not in w.m:
            return None
        kind = w.m[op[4]].kind
        if k == "trav":
            return TravJob(w, op, w.slots)
        if k == "search":
            return SearchJob(w, op, w.slots)
        if k == "index":
            return IndexJob(w, op)
        if k == "tensor":
            return TensorJob(w, op) if kind == "node" else None
        if k == "htrav":
            return HTravJob(w, op) if kind in ("node", "edge") else None
        return CooJob(w, op) if kind == "node" else None

    def begin(self, w):
        self.groups = 0

    def group(self, w, s, ops):
        ctx = w.ctx
        before = w.snapshot(timestamps=True)
        strip = lambda op: op[:-1] + [None]
        alone = []
        for op in ops:
            j = self.make(w, strip(op), "a")
            r = s.run([(j.coro, None)])[0] if j else None
            alone.append(self.seen(j, r) if j else None)
        jobs = [(op, self.make(w, op, "c"), a) for op, a in zip(ops, alone)]
        jobs = [x for x in jobs if x[1] is not None]
        if len(jobs) < 1:
            return
        for op, j, _ in jobs:
            ctx.op(op[1])
        res = s.run([(j.coro, j.cancel) for _, j, _ in jobs])
        for (op, j, a), r in zip(jobs, res):
            if r[0] == "cancelled":
                continue
            if r[0] == "err" and isinstance(r[1], Injected):
                ctx.fault("failing_callback")
                need(op[-1] is not None and op[-1][0] != "cancel", "{} failed with the fault of another reader: {}", show(op), r[1])
                continue
            if r[0] == "ok" and j.fault.fired:
                raise Violation(f"{show(op)}: a callback failed but the reader succeeded")
            got = self.seen(j, r)
            need(got == a, "{} next to {} returns {} instead of {} when run alone", show(op), [show(o) for o, x, _ in jobs if x is not j],
                 short(got), short(a))
        after = w.snapshot(timestamps=True)
        for i in before:
            need(before[i] == after[i], "readers {} changed {}: {} became {}", [show(o) for o in ops], i, before[i], after[i])
        for op, a in zip(ops, alone):
            j = self.make(w, strip(op), "b")
            if j:
                got = self.seen(j, s.run([(j.coro, None)])[0])
                need(got == a, "{} run alone after the readers {} returns {} instead of {}", show(op), [show(o) for o in ops if o is not op],
                     short(got), short(a))
        if len(jobs) > 1:
            self.groups += 1
        ctx.state([[show(o), str(a)[:3000]] for o, _, a in jobs])

    def seen(self, j, r):
        if isinstance(j, SearchJob):        # judged by the definition: see the known finding of P12
            j.judge(r)
            return None
        return outcome(j, r)

    def run(self, case, ctx):
        w = self.world(ctx, case["cfg"]["wseed"], clocks=1, modes=case["cfg"]["modes"])
        s = Session(case, ctx, case["cfg"]["extra"])
        self.begin(w)
        ops = case["ops"]
        i = 0
        while i < len(ops):
            op = ops[i]
            if op[1] in self.kinds:
                group = [op]
                while i + 1 < len(ops) and ops[i + 1][1] in self.kinds and ops[i + 1][2] == op[2]:
                    i += 1
                    group.append(ops[i])
                self.group(w, s, group)
            else:
                w.do(op)
            i += 1
        ctx.nontrivial = self.groups > 0
