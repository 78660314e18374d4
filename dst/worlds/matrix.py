"""World D: factorizations, index maps and tensors of graphs under mutation (P16-P18)."""
import math

from ..base import ERRORS, Injected, need, rng_of
from ..world import CONTAINERS, DIRS, show
from .hier import short
from .readers import READER, elem_error, Job, Readers, RWorld, fragile_nodes

IN, OUT = ("INWARDS", "BIDIRECTIONAL"), ("OUTWARDS", "BIDIRECTIONAL")


def rels(w, e):
    return [k for k in w.m[e].kids if w.m[k].kind == "rel"]


def incoming(w, e):
    return [r for r in rels(w, e) if w.m[r].dir in IN]


def outgoing(w, e):
    return [r for r in rels(w, e) if w.m[r].dir in OUT]


def ep(w, r):
    return w.m[r].ep


def kids_of(w, x, kind):
    return [k for k in w.m[x].kids if w.m[k].kind == kind]


class MWorld(RWorld):

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.slots = {}

    def slot(self, name, make, expect=None):
        if name not in self.slots:
            self.slots[name] = [make(), expect]
        return self.slots[name]


def image(i):
    """what the mapping gives for the i-th entry: anything may come out, nothing included"""
    return {0: None, 3: 0, 5: ""}.get(i % 7, ("mapped", i))


def same_entries(a, b):
    """equal as multisets of lists"""
    k = lambda l: sorted(map(repr, l))
    return k(a) == k(b)


def shape(e):
    """the parts of an entry, by identity"""
    return [shape(x) if isinstance(x, (list, tuple)) else id(x) for x in e]


# -- P16 ------------------------------------------------------------------------------------

class FactJob(Job):
    """[id, "fact", group, slot, form, what, self loops, mapped, fault]; form full: what is a start; edges/rels: a selection"""

    def __init__(self, w, op):
        super().__init__(w, op, op[8])
        _, _, _, slot, self.form, what, self.loops, self.mapped, fault = op
        from rei.hypergraph import factorization_operations as f
        opt = [self.loops] if self.loops or len(op[0]) % 2 else []
        make = {"full": lambda: f.Factorization2Operation(), "edges": lambda: f.Factorization2SubsetOperation(*opt),
                "rels": lambda: f.RelationFactorization2SubsetOperation(*opt)}[self.form]
        self.f = f
        self.op_obj = w.slot((self.form, self.loops, slot), make)[0]
        if self.form == "full":
            self.start = w.obj[what]
            self.want = self.full(what)
        else:
            sel, seen = [], set()
            for i in what:
                if i in w.m and i not in seen and (w.m[i].kind != "rel" or w.m[i].parent is not None):
                    seen.add(i)
                    sel.append(i)
            self.start = [w.obj[i] for i in sel]
            self.want = self.subset(sel)

    def full(self, start):
        w, out, q, seen = self.w, [], [start], {start}
        for x in q:
            k = w.m[x].kind
            nxt = kids_of(w, x, "edge") if k == "node" else [ep(w, r) for r in outgoing(w, x)] if k == "edge" else []
            if k == "edge":
                o = outgoing(w, x)
                out += [[i, o] for i in incoming(w, x)]
            for y in nxt:
                if y not in seen:
                    seen.add(y)
                    q.append(y)
        return out

    def subset(self, sel):
        w = self.w
        nodes = {i for i in sel if w.m[i].kind == "node"}
        if self.form == "edges":
            per = [([r for r in incoming(w, e) if ep(w, r) in nodes], [r for r in outgoing(w, e) if ep(w, r) in nodes])
                   for e in sel if w.m[e].kind == "edge"]
        else:
            rs = [r for r in sel if w.m[r].kind == "rel"]
            es = dict.fromkeys(w.m[r].parent for r in rs)
            per = [([r for r in rs if w.m[r].parent == e and w.m[r].dir in IN], [r for r in rs if w.m[r].parent == e and w.m[r].dir in OUT])
                   for e in es]
        return [[a, b] for i, o in per for a in i for b in o if self.loops or ep(w, a) != ep(w, b)]

    def entry(self, e):
        n = self.w.name_of
        return [n(e[0]), [n(x) for x in e[1]]] if self.form == "full" else [n(x) for x in e]

    async def coro(self):
        if self.fspec and self.fspec[0] == "elem":
            self.w.fragile().armed.set(elem_error(self.fspec))
        try:
            r = await self.op_obj.execute(self.start)
        finally:
            self.w.fragile().armed.set(False)
        self.mapargs = []
        if self.mapped:
            def f(e):
                if self.fspec and self.fspec[0] == "raise":
                    self.fault.hit()
                self.mapargs.append(e)
                return image(len(self.mapargs))
            self.images = list(await self.f.MapFactorizationToFactorGraph(f).execute(r))
        self.raw = r
        return [self.entry(e) for e in r]

    def keep(self):
        """results handed out earlier must not change"""
        w = self.w
        held = w.__dict__.setdefault("facts", [])
        for op, raw, then in held:
            need([shape(x) for x in raw] == then, "{}: changed what {} gave", show(self.op), show(op))
        if len(held) < 12:
            held.append((self.op, self.raw, [shape(x) for x in self.raw]))

    def judge(self, r):
        if r[0] == "cancelled":
            return
        if r[0] == "err":
            need(isinstance(r[1], Injected), "{} failed: {}: {}", show(self.op), type(r[1]).__name__, r[1])
            self.result = "failed"
            return
        need(not self.fault.fired, "{}: the mapping function failed but the mapping succeeded", show(self.op))
        self.result = r[1]
        need(same_entries(r[1], self.want), "{} gives {} instead of {}", show(self.op), short(r[1]), short(self.want))
        self.keep()
        if self.mapped:
            need(len(self.mapargs) == len(self.raw) and all(a is b for a, b in zip(self.mapargs, self.raw)),
                 "{}: the mapping was applied to {} entries of {}, or out of order", show(self.op), len(self.mapargs), len(self.raw))
            need(self.images == [image(i + 1) for i in range(len(self.raw))], "{}: mapping results are {}", show(self.op), short(self.images))


def ref_chain(rng, g, n):
    """a long chain of nodes, each holding an edge that leads to the next; sometimes closed to a ring"""
    id = g.nid()
    g.emit(id, "refs", n, g.pick("node"), rng.random() < 0.5)
    g.ids["node"] += [f"{id}.n0", f"{id}.n{n // 2}"]
    g.ids["edge"] += [f"{id}.e0", f"{id}.e{n - 1}"]


class FWorld(MWorld):

    # [id, "refs", n, parent, ring]
    def pre_refs(self, op):
        return "ok" if self.ex(op[3]) and (op[3] is None or self.m[op[3]].kind == "node") else "skip"

    def op_refs(self, op, expect):
        id, _, n, parent, ring = op
        D = "OUTWARDS"
        for i in range(n):
            self.do([f"{id}.n{i}", "new", "node", f"n{i}", parent, "ctor", 0, None])
        for i in range(n):
            self.do([f"{id}.e{i}", "new", "edge", f"e{i}", f"{id}.n{i}", "ctor", 0, None])
            self.do([f"{id}.i{i}", "connect", f"{id}.e{i}", f"{id}.n{i}", "INWARDS", None, None])
            if i + 1 < n or ring:
                self.do([f"{id}.x{i}", "connect", f"{id}.e{i}", f"{id}.n{(i + 1) % n}", D, None, None])


class Graphs(Readers):
    """Histories rich in edges."""
    real = ["rei.hypergraph.factorization_operations", "rei.hypergraph.homomorphism_functions", "rei.tensor", "rei.foundations",
            "rei.hypergraph", "rei.hypergraph.norm", "numpy", "asyncio tasks and futures"]
    weights = dict(new=5, add=3, rm=3, dereg=0.5, chain=0.5, fan=0.4, connect=14, rmrel=2, disc=0.4, rmport=0.3, addrel=0.6, readd=0.6, newrel=3)
    world = FWorld


class P16(Graphs):
    pid = "P16"
    weights = dict(Graphs.weights, twin=1.5)
    kinds = ("fact",)
    rule = ("a run is a random history of graphs with directed, bidirectional and cyclic references, with 3-20 factorizations in "
            "between (three forms, random starts and selections, with and without the mapping step; operation objects re-used), up "
            "to three at once, some with failing elements or mapping functions or cancelled; non-trivial: at least two ran")

    def prepare(self, rng, g):
        g.twin_edges = True
        fragile_nodes(rng, g)
        if rng.random() < 0.03:
            ref_chain(rng, g, rng.choice([300, 700]))
        elif rng.random() < 0.2:
            ref_chain(rng, g, rng.choice([2, 3, 5, 9]))

    def reader_op(self, rng, g, grp):
        form = rng.choice(["full", "edges", "rels"])
        slot = rng.randrange(2) if rng.random() < 0.7 else g.nid()
        loops = rng.random() < 0.4 and form != "full"
        if any(o[1] == "fact" and o[2] == grp and (o[3], o[4]) == (slot, form) for o in g.ops):
            return
        if form == "full":
            what = g.pick("node", "node", "edge")
        else:
            pool = g.ids["node"] + g.ids["edge"] + (g.ids["rel"] if form == "rels" else [])
            pool = pool[:60]
            what = rng.sample(pool, rng.randint(0, len(pool)))
            if rng.random() < 0.3:
                what = list(pool)
        c = self.cancel_spec(rng)
        if c and c[0] == "fraise":
            c = ["elem", rng.randrange(len(ERRORS))]
        if what is not None:
            g.emit(g.nid(), "fact", grp, slot, form, what, loops, rng.random() < 0.4, c)

    def begin(self, w):
        pass

    def job(self, w, op):
        if op[4] == "full" and op[5] not in w.m:
            return None
        return FactJob(w, op)


# -- P17 ------------------------------------------------------------------------------------

KINDS = ("node", "edge", "value")


class IndexJob(Job):
    """[id, "index", group, slot, start, depth, ignore root, fault]; a slot keeps its depth and flag"""

    def __init__(self, w, op):
        super().__init__(w, op, op[7])
        _, _, _, slot, self.start, depth, ign, fault = op
        from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
        self.cls = IndexHomomorphismGraphTensor
        depth = math.inf if depth is None else depth
        self.slot = w.slot(slot, lambda: (IndexHomomorphismGraphTensor(*([] if (ign, depth) == (False, 1) else [ign] if depth == 1 else [ign, depth])), depth, ign))
        self.h, depth, ign = self.slot[0]
        scope = [] if ign else [self.start]
        level, d = [self.start], 0
        while level and d < depth:
            level = [k for x in level for k in w.m[x].kids]
            scope += level
            d += 1
        self.want = {k: [i for i in scope if w.m[i].kind == k] for k in KINDS}

    async def coro(self):
        self.slot[1] = None     # aborted computations leave the maps undefined
        if self.fspec and self.fspec[0] == "elem":
            self.w.fragile().armed.set(elem_error(self.fspec))
        try:
            await self.h.execute(self.w.obj[self.start])
        finally:
            self.w.fragile().armed.set(False)

    def judge(self, r):
        if r[0] == "cancelled":
            return
        if r[0] == "err":
            need(isinstance(r[1], Injected), "{} failed: {}: {}", show(self.op), type(r[1]).__name__, r[1])
            self.result = "failed"
            return
        w = self.w
        ids = {k: [w.obj[i].uuid for i in self.want[k]] for k in KINDS}
        self.slot[1] = ids
        self.result = self.want
        others = [w.obj[i].uuid for i in list(w.m)[:40]]
        for name, (obj, exp) in list(w.slots.items()):
            if exp is not None:
                check_maps(obj[0], exp, others, f"{show(self.op)}: maps of slot {name}")
        rng = rng_of(self.op[0])
        if rng.random() < 0.5:      # rebuilt from its pairs, on top of something else
            p = {k: [(u, i) for i, u in enumerate(ids[k])] for k in KINDS}
            for k in KINDS:
                rng.shuffle(p[k])
            h2 = self.cls(rng.random() < 0.5, rng.choice([1, 2, math.inf]))
            if rng.random() < 0.5:
                h2.reset_from_bijection([(b"x", 0), (b"y", 1)], [(b"z", 0)], [(b"v", 0)])
            h2.reset_from_bijection(p["node"], p["edge"], p["value"])
            check_maps(h2, ids, others + [b"x", b"z", b"v"], f"{show(self.op)}: maps rebuilt from pairs")
            if rng.random() < 0.5:      # goes on where the pairs end
                from rei.hypergraph.value_node import ValueNode
                c = w.clocks[0]
                more = dict(node=w.be.HypergraphNode("more", b"n+", "q/more", c), edge=w.be.HypergraphEdge("more", b"e+", "q/more", c),
                            value=ValueNode(b"v+", "more", "q/more", [1.0]))
                for k, f in (("node", h2.add_node_homology), ("edge", h2.add_edge_homology), ("value", h2.add_value_homology)):
                    f(more[k])
                check_maps(h2, {k: ids[k] + [more[k].uuid] for k in KINDS}, others, f"{show(self.op)}: maps rebuilt from pairs and extended")


def lookup(f, x):
    try:
        return f(x)
    except Exception as e:
        return e


def check_maps(h, ids, others, what):
    for k, there, back in (("node", h.node, h.dim), ("edge", h.edge, h.depth), ("value", h.val, h.ival)):
        want = ids[k]
        step = max(1, len(want) // 200)
        for i in range(0, len(want), step):
            a, b = lookup(there, want[i]), lookup(back, i)
            need(a == i, "{}: the index of {} {} is {!r} instead of {}", what, k, i, a, i)
            need(b == want[i], "{}: the inverse lookup of {} {} gives {!r}", what, k, i, b)
        s = set(want)
        for u in others:
            if u not in s:
                need(isinstance(lookup(there, u), Exception), "{}: an element out of scope has {} index {}", what, k, lookup(there, u))
        for i in (-1, len(want), len(want) + 1):
            need(isinstance(lookup(back, i), Exception), "{}: {} index {} leads to {!r}", what, k, i, lookup(back, i))
    need(h.cnt_node == len(ids["node"]) and h.cnt_edges == len(ids["edge"]), "{}: {} nodes and {} edges counted instead of {} and {}",
         what, h.cnt_node, h.cnt_edges, len(ids["node"]), len(ids["edge"]))


class P17(Graphs):
    pid = "P17"
    kinds = ("index",)
    weights = dict(new=10, add=6, rm=6, dereg=0.5, chain=0.8, fan=0.6, connect=3, rmrel=1, readd=2)
    rule = ("a run is a random history with 3-20 index computations (random starts, depths and root handling, computation objects "
            "re-used) between changes, up to three at once, some with failing elements or cancelled; all maps computed so far are "
            "looked at after each; non-trivial: at least two computations ran")

    def prepare(self, rng, g):
        fragile_nodes(rng, g)
        self.slots = [(rng.choice([0, 1, 1, 1, 2, 3, None]), rng.random() < 0.5) for _ in range(rng.randint(1, 3))]

    def reader_op(self, rng, g, grp):
        start = g.pick("node", "node", "node", "edge", "item")
        if rng.random() < 0.5 and g.ids["node"]:
            start = g.ids["node"][0]
        slot = rng.randrange(len(self.slots))
        if start is None or any(o[1] == "index" and o[2] == grp and o[3] == slot for o in g.ops):
            return
        c = self.cancel_spec(rng)
        if c and c[0] != "cancel":
            c = ["elem", rng.randrange(len(ERRORS))]
        g.emit(g.nid(), "index", grp, slot, start, *self.slots[slot], c)

    def begin(self, w):
        pass

    def job(self, w, op):
        return IndexJob(w, op) if op[4] in w.m else None


# -- P18 ------------------------------------------------------------------------------------

def weight_of(w, r):
    """None where it is not judged"""
    v = w.m[r].weight
    if v is None:
        return 1.0
    if unfit(w, r):
        return None
    if not any(w.m[v].vals):
        return 0.0
    s = float(sum(w.m[v].vals))
    # what is left of parts that cancel out depends on the order in which they are added
    return s if abs(s) > 1e-6 * sum(abs(x) for x in w.m[v].vals) else None


def unfit(w, r):
    """a weight that can not be added up"""
    v = w.m[r].weight
    return v is not None and not all(isinstance(x, (int, float)) for x in w.m[v].vals)


class TensorJob(Job):
    """[id, "tensor", group, slot, start, mode, fault]; mode "tr": a transformer, "rep": a representation filled by hand"""

    def __init__(self, w, op):
        super().__init__(w, op, op[6])
        _, _, _, slot, self.start, self.mode, fault = op
        from rei.tensor import tensor_representation as t
        self.t = t
        self.slot = w.slot((self.mode, slot), t.NumpyHypergraphTensorTransformer if self.mode == "tr" else t.NumpyTensorRepresentation)
        self.nodes = kids_of(w, self.start, "node")
        self.edges = kids_of(w, self.start, "edge")
        self.ok = w.m[self.start].kind == "node" and all(ep(w, r) in self.nodes for e in self.edges for r in rels(w, e))
        at = {n: i for i, n in enumerate(self.nodes)}
        self.W, self.doubt = {}, set()
        if self.ok:
            for k, e in enumerate(self.edges):
                for a in incoming(w, e):
                    for b in outgoing(w, e):
                        if ep(w, a) != ep(w, b):
                            vs = {weight_of(w, a), weight_of(w, b)}
                            key = (k, at[ep(w, a)], at[ep(w, b)])
                            if None in vs:
                                self.doubt.add(key)
                            else:
                                self.W.setdefault(key, set()).update(vs)

        for key in self.doubt:
            self.W.pop(key, None)
        self.unfit = any(unfit(w, r) for e in self.edges for r in rels(w, e))
        # entries of which the weights add up to nothing
        self.nil = {k for k, vs in self.W.items() if 0.0 in vs}

    async def coro(self):
        w, t = self.w, self.t
        if self.fspec and self.fspec[0] == "elem":
            w.fragile().armed.set(elem_error(self.fspec))
        try:
            if self.mode == "tr":
                await self.slot[0].execute(w.obj[self.start])
                return self.slot[0].tensor_representation
            import queue
            h = t.IndexHomomorphismGraphTensor(True)
            await h.execute(w.obj[self.start])
            rep = self.slot[0]
            rep.synchronize_structure_dimensions(h)
            q = queue.Queue()
            await t.HypergraphTraversal(lambda x: q.put(x), lambda x: True, t.SumNorm(), h, 1).execute(w.obj[self.start])
            await rep.fill_weights(q, [])
            return rep
        finally:
            w.fragile().armed.set(False)

    def judge(self, r):
        if r[0] == "cancelled":
            return
        if r[0] == "err":
            need(isinstance(r[1], Injected) or self.unfit, "{} failed: {}: {}", show(self.op), type(r[1]).__name__, r[1])
            self.result = "failed"
            return
        rep = r[1]
        W, Io, Ii = rep.W, rep.Io, rep.Ii
        E, N = len(self.edges), len(self.nodes)
        need(W.shape == (E, N, N) and Io.shape == (E, N) and Ii.shape == (E, N), "{}: shapes {} {} {} for {} edges and {} nodes",
             show(self.op), W.shape, Io.shape, Ii.shape, E, N)
        got = {tuple(int(x) for x in i): float(W[tuple(i)]) for i in __import__("numpy").argwhere(W)}
        self.result = sorted(got.items())
        for k, v in got.items():
            need(k in self.W or k in self.doubt, "{}: entry {} is {} but no relations of that edge pair these nodes", show(self.op), k, v)
        for k, vs in self.W.items():
            need(k in got or k in self.nil, "{}: entry {} is zero instead of {}", show(self.op), k, vs)
            need(any(math.isclose(got.get(k, 0.0), v, rel_tol=1e-9) for v in vs), "{}: entry {} is {} instead of {}", show(self.op), k, got.get(k, 0.0), vs)
        for name, M, col in (("outgoing", Io, 1), ("incoming", Ii, 2)):
            want = {(k[0], k[col]) for k in self.W if k not in self.nil}
            maybe = {(k[0], k[col]) for k in self.doubt | {k for k in self.nil if len(self.W[k]) > 1}}
            have = {tuple(int(x) for x in i) for i in __import__("numpy").argwhere(M)}
            need(want <= have <= want | maybe, "{}: {} incidence is non-zero at {} instead of {}", show(self.op), name, sorted(have), sorted(want))
        self.keep(rep, got)

    def keep(self, rep, got):
        """representations taken from transformers earlier, this one included, must not change"""
        w = self.w
        held = w.__dict__.setdefault("tensors", [])
        for op, old, entries in held:
            need({tuple(int(x) for x in i): float(old.W[tuple(i)]) for i in __import__("numpy").argwhere(old.W)} == entries,
                 "{}: changed the tensor that {} gave", show(self.op), show(op))
        if self.mode == "tr":
            held.append((self.op, rep, got))
            del held[:-8]


class HTravJob(Job):
    """[id, "htrav", group, slot, start, depth, fault]: the traversal that emits weighted (from, to, edge) pairs"""

    def __init__(self, w, op):
        super().__init__(w, op, op[6])
        _, _, _, slot, self.start, depth, fault = op
        from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
        from rei.hypergraph.norm.norm_functions import SumNorm

        def make():
            return HypergraphTraversal(lambda x: READER.get().seen(x), lambda x: True, SumNorm(), None, d), d
        d = math.inf if depth is None else depth
        self.t, self.depth = w.slot(("htrav", slot), make)[0]
        self.out = []
        self.want, self.doubt = self.expect()
        self.unfit = any(unfit(self.w, r) for r in self.w.m if self.w.m[r].kind == "rel")

    def expect(self):
        w, want, doubt = self.w, {}, set()
        q, seen = [(self.start, 0)], {self.start}
        for x, d in q:
            k = w.m[x].kind
            nxt = []
            if k == "node":
                nxt = [(e, d) for e in kids_of(w, x, "edge")]
            elif k == "edge":
                for a in incoming(w, x):
                    for b in outgoing(w, x):
                        if ep(w, a) != ep(w, b):
                            key = (ep(w, a), ep(w, b), x)
                            vs = {weight_of(w, a), weight_of(w, b)}
                            if None in vs or 0.0 in vs:
                                doubt.add(key)
                            else:
                                want.setdefault(key, set()).update(vs)
                if d + 1 < self.depth:
                    nxt = [(ep(w, r), d + 1) for r in rels(w, x)]
            for y in nxt:
                if y[0] not in seen:
                    seen.add(y[0])
                    q.append(y)
        return {k: v for k, v in want.items() if k not in doubt}, doubt

    def seen(self, x):
        if self.fspec and self.fspec[0] == "raise":
            self.fault.hit()
        self.out += x

    async def coro(self):
        READER.set(self)
        if self.fspec and self.fspec[0] == "elem":
            self.w.fragile().armed.set(elem_error(self.fspec))
        try:
            await self.t.execute(self.w.obj[self.start])
        finally:
            self.w.fragile().armed.set(False)

    def judge(self, r):
        if r[0] == "cancelled":
            return
        if r[0] == "err":
            need(isinstance(r[1], Injected) or self.unfit, "{} failed: {}: {}", show(self.op), type(r[1]).__name__, r[1])
            self.result = "failed"
            return
        need(not self.fault.fired, "{}: a visitor failed but the traversal succeeded", show(self.op))
        w = self.w
        by = {w.obj[i].uuid: i for i in w.m}
        got = {}
        for a, b, e, v, _ in self.out:
            got.setdefault((by.get(a), by.get(b), by.get(e)), []).append(float(v))
        self.result = sorted(map(str, got.items()))
        need(set(self.want) <= set(got) <= set(self.want) | self.doubt, "{}: emitted pairs {} instead of {}", show(self.op),
             short(sorted(map(str, set(got) - set(self.want) - self.doubt))), short(sorted(map(str, set(self.want) - set(got)))))
        for k, vs in self.want.items():
            need(all(any(math.isclose(x, v, rel_tol=1e-9) for v in vs) for x in got[k]), "{}: {} has weights {} instead of {}", show(self.op), k, got[k], vs)


class P18(Graphs):
    pid = "P18"
    kinds = ("tensor", "htrav")
    rule = ("a run is a random history of contexts with directed, bidirectional and weighted edges of any arity and 3-20 tensor "
            "computations and weighted traversals in between (transformers and representations re-used for the same and other "
            "contexts), up to three at once, some with failing elements or cancelled; non-trivial: at least two ran")
    state_measure = "digest of the tensor entries computed"
    large = (35, 70, 140)   # nodes of a large context
    numbers = [1.0, 2.0, 0.5, -1.0, 3, 0.1, 16777217.0, 1e-12, 1e12, -0.3, 123456789]

    def gen(self, rng, index, tier):
        from ..simclock import MODES
        from ..world import HistGen
        g = HistGen(rng, {}, names=["a", "b", "c"])
        ctxs = []
        parent = None
        for _ in range(rng.randint(1, 3)):
            parent = g.new("node", parent if rng.random() < 0.5 else None, "ctor")
            ctxs.append(dict(id=parent, nodes=[], edges=[], rels=[]))
        vals = []
        for _ in range(rng.randint(1, 4)):
            id = g.nid()
            g.emit(id, "new", "value", "w", None, "ctor", 0, [rng.choice(self.numbers) for _ in range(rng.randint(1, 3))])
            vals.append(id)
        n = rng.randint(15, 40) if tier == "quick" or index % 3 else rng.randint(40, 120)
        grp = 0
        slots = [(rng.choice(["tr", "tr", "rep"]), s) for s in range(rng.randint(1, 3))]

        def node(c):
            id = g.nid()
            g.emit(id, "new", "node", rng.choice(g.names), c["id"], "fragile" if rng.random() < 0.1 else "ctor", 0, None)
            c["nodes"].append(id)

        def edge(c):
            id = g.nid()
            g.emit(id, "new", "edge", rng.choice(g.names), c["id"] if rng.random() >= deep or not c["nodes"] else rng.choice(c["nodes"]), "ctor", 0, None)
            c["edges"].append(id)
            for p in rng.sample(c["nodes"], min(len(c["nodes"]), rng.choice([0, 1, 2, 2, 2, 3, 4]))):
                connect(c, id, p)

        def connect(c, e, p):
            w = rng.choice(vals) if rng.random() < wt else None
            if rng.random() < 0.12:
                id = g.emit(g.nid(), "newrel", e, p, rng.choice(DIRS), w)
            else:
                id = g.emit(g.nid(), "connect", e, p, rng.choice(DIRS), w, None)
            c["rels"].append("r" + id)
        wt = rng.choice([0, 0.3, 0.8])
        deep = rng.choice([0.05, 0.05, 0.05, 0.6])
        for c in ctxs:
            for _ in range(rng.randint(1, 5)):
                node(c)
        if index % 40 == 23:        # a large one
            c = ctxs[0]
            for _ in range(rng.choice(self.large)):
                node(c)
            for _ in range(rng.choice([3, 10, 40])):
                edge(c)
            for _ in range(rng.choice([5, 40, 150])):
                connect(c, rng.choice(c["edges"][:rng.choice([1, 3, 50])]), rng.choice(c["nodes"]))
            n += len(g.ops)
        while len(g.ops) < n:
            c = rng.choice(ctxs)
            r = rng.random()
            if r < 0.25:
                grp += 1
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    c = rng.choice(ctxs)
                    f = rng.choice([None] * 12 + [["cancel", rng.choice([1, 2, 3, 5, 9])], ["elem", rng.randrange(len(ERRORS))], ["raise", rng.choice([1, 2, 3]), rng.randrange(len(ERRORS))]])
                    if rng.random() < (0.7 if deep < 0.5 else 0.2):
                        mode, s = rng.choice(slots)
                        if not any(o[1] == "tensor" and o[2] == grp and o[3] == s for o in g.ops):
                            g.emit(g.nid(), "tensor", grp, s, c["id"], mode, f)
                    else:
                        g.emit(g.nid(), "htrav", grp, g.nid(), rng.choice([c["id"]] + c["nodes"] + c["edges"]), rng.choice([1, 1, 2, 3, None]), f)
            elif r < 0.35:
                node(c)
            elif r < 0.6:
                edge(c)
            elif r < 0.75 and c["edges"] and c["nodes"]:
                connect(c, rng.choice(c["edges"]), rng.choice(c["nodes"]) if rng.random() < 0.97 else rng.choice(rng.choice(ctxs)["nodes"] or c["nodes"]))
            elif r < 0.82 and c["rels"]:
                g.emit(g.nid(), "rm", rng.choice(["u", "nu"]), c["rels"].pop(rng.randrange(len(c["rels"]))), None, None)
            elif r < 0.86 and c["edges"]:
                g.emit(g.nid(), "rm", "u", c["edges"].pop(rng.randrange(len(c["edges"]))), None, None)
            elif r < 0.90 and len(ctxs) > 1 and c["edges"]:
                e = c["edges"][rng.randrange(len(c["edges"]))]
                g.emit(g.nid(), "add", e, c["id"], "add")
            elif r < 0.95:
                v = rng.choice(vals)
                if rng.random() < 0.5:
                    g.emit(g.nid(), "setval", v, 0, rng.choice(self.numbers))
                else:
                    g.emit(g.nid(), "setvals", v, [rng.choice(self.numbers) for _ in range(rng.randint(1, 3))])
            elif r < 0.965 and wt:
                # a weight that does not add up, one that adds up to nothing
                v = rng.choice(vals)
                g.emit(g.nid(), "setvals", v, rng.choice([["x"], [1.0, None], ["1.0", 2.0], [], [0.0], [0, 0.0]]))
                for _ in range(rng.choice([1, 1, 2])):
                    grp += 1
                    mode, s = rng.choice(slots)
                    g.emit(g.nid(), "tensor", grp, s, rng.choice(ctxs)["id"], mode, None)
                if rng.random() < 0.9:
                    g.emit(g.nid(), "setvals", v, [rng.choice(self.numbers) for _ in range(rng.randint(1, 3))])
        for c in ctxs:
            grp += 1
            mode, s = rng.choice(slots)
            g.emit(g.nid(), "tensor", grp, s, c["id"], mode, None)
        return dict(ops=g.ops, cfg=dict(modes=[rng.choice(MODES)], wseed=rng.randrange(10**9), extra=rng.choice([0.0, 0.05, 0.3])),
                    sched=dict(seed=rng.randrange(10**9), bias=rng.choice([0.0, 0.5])))

    def begin(self, w):
        pass

    def job(self, w, op):
        if op[4] not in w.m:
            return None
        if op[1] == "htrav":
            return HTravJob(w, op) if w.m[op[4]].kind in ("node", "edge") else None
        j = TensorJob(w, op)
        return j if j.ok else None


# -- P19 ------------------------------------------------------------------------------------

def formulas(W, Io, Ii):
    """the quantities by their definitions, entry by entry; None where a definition does not apply"""
    import numpy as np
    E, N = Io.shape
    deg = [(sum(Io[e, n] for e in range(E)) + sum(Ii[e, n] for e in range(E))) /
           (2.0 if all(Io[e, n] == Ii[e, n] for e in range(E)) else 1.0) for n in range(N)]
    out = dict(deg=np.array(deg), D=np.array([[deg[i] if i == j else 0.0 for j in range(N)] for i in range(N)]).reshape(N, N),
               total_deg=sum(deg))
    Wsum = np.zeros((N, N))
    for e in range(E):
        Wsum = Wsum + W[e]
    out["Lp"] = out["D"] - Wsum
    if E >= 1:
        DD = np.zeros((E, N, N))
        for e in range(E):
            for n in range(N):
                col, row = sum(W[e, i, n] for i in range(N)), sum(W[e, n, i] for i in range(N))
                # sums in another order may differ in the last bit: leave such a case open
                if col != row and abs(col - row) < 1e-9 * max(1.0, abs(col)):
                    return None
                DD[e, n, n] = col / (2.0 if col == row else 1.0)
        out["DD"] = DD
        out["L"] = DD - W
    if E >= 2 and all(x > -0.999 for x in deg):
        Ln = np.array([[[out["L"][e, i, j] / (E - 1) / math.sqrt(deg[j] + 1) for j in range(N)] for i in range(N)] for e in range(E)]).reshape(E, N, N)
        out["Lnorm"] = Ln
        ev = np.array([[-x * math.log2(x) if x > 0 else 0.0 for x in (Ln[e, n, n] for n in range(N))] for e in range(E)]).reshape(E, N)
        out["entropy_vector"] = ev
        out["entropy"] = float(sum(x for row in ev for x in row))
    if N and abs(out["total_deg"]) > 1e-9:
        M = out["Lp"] / out["total_deg"]
        lam, V = np.linalg.eig(M)
        # of a matrix without a good base of eigenvectors they are only defined up to noise
        if np.linalg.cond(V) < 1e4:
            pv = sorted(-a * math.log2(a) if a > 0 else 0.0 for a in np.abs(lam))
            out["entropy_projected_vector"] = np.array(pv)
            out["entropy_projected"] = float(sum(pv))
    return out


QUANTITIES = ("deg", "D", "total_deg", "DD", "L", "Lp", "Lnorm", "entropy_vector", "entropy", "entropy_projected_vector", "entropy_projected")


def derived(rep, order, what):
    """reads every quantity that is defined, in the given order, and compares it with its definition on the tensors of this moment"""
    import numpy as np
    W, Io, Ii = (np.array(x) for x in (rep.W, rep.Io, rep.Ii))
    with np.errstate(all="ignore"):
        want = formulas(W, Io, Ii)
        if want is None:
            return None
        got = {}
        for q in order:
            if q not in want:
                continue
            try:
                x = getattr(rep, q)
                x = x() if callable(x) else x
            except Exception as e:
                need(False, "{}: {} fails: {}: {}", what, q, type(e).__name__, e)
            got[q] = x
            if q == "entropy_projected_vector":
                x = np.array(sorted(x))
            w = np.asarray(want[q], dtype=float)
            x = np.asarray(x)
            need(x.shape == w.shape, "{}: {} has the shape {} instead of {}", what, q, x.shape, w.shape)
            tol = 1e-6 if "proj" in q else 1e-9
            need(np.allclose(np.asarray(x, dtype=float), w, rtol=1e-9, atol=tol, equal_nan=True), "{}: {} is {} instead of {}", what, q,
                 np.asarray(x, dtype=float).tolist(), w.tolist())
            need(all(np.array_equal(a, b) for a, b in ((W, rep.W), (Io, rep.Io), (Ii, rep.Ii))), "{}: reading {} changed the tensors", what, q)
    return got


class DerivedJob(TensorJob):

    def __init__(self, w, op):
        super().__init__(w, op)
        self.rng = rng_of("derived", *op[:6])

    def judge(self, r):
        w = self.w
        rep = self.slot[0] if self.mode == "rep" else self.slot[0].tensor_representation
        seen = getattr(w, "reps", None)
        if seen is None:
            seen = w.reps = []
        if rep is not None and rep.W is not None and not any(x is rep for x in seen):
            seen.append(rep)
        self.result = "failed"
        if r[0] == "ok":
            # the tensors themselves are P18's concern
            self.result = [sorted(map(str, rep.W.tolist()))]
        for i, x in enumerate(seen):
            if x is rep or self.rng.random() < 0.4:
                what = f"{show(self.op)}{'' if r[0] == 'ok' else ' (aborted)'}, representation {i}"
                for _ in range(2):
                    order = list(QUANTITIES)
                    self.rng.shuffle(order)
                    derived(x, order, what)
                E, N = x.Io.shape
                if E and N and self.rng.random() < 0.5:
                    # entries set by hand count as well
                    e, a, b = self.rng.randrange(E), self.rng.randrange(N), self.rng.randrange(N)
                    x.fill_tensors(e, a, b, self.rng.choice([1.0, 2.0, 0.5, 3.0]), None)
                    w.ctx.op("entry")
                    derived(x, list(QUANTITIES), what + ", after one more entry")


class P19(P18):
    large = (12, 24, 40)
    pid = "P19"
    numbers = [1.0, 2.0, 0.5, -1.0, 3, 1.5, 0.25, 1.0 + 2**-20]     # the last is near another, but not the same
    rule = ("a run is a random history of contexts with tensor computations in between (transformers and representations re-used, up to three "
            "at once, some failing or cancelled); after each, the derived quantities of its representation and of earlier ones are read in "
            "drawn orders, also after single entries are set; non-trivial: at least two computations")
    assumptions = ["per-edge Laplacians need an edge, normalised ones two edges and degrees above -1, projected entropies a total degree other than 0",
                   "projected entropies are compared where the matrix has a well-conditioned base of eigenvectors"]

    def job(self, w, op):
        if op[4] not in w.m or op[1] == "htrav":
            return None
        j = DerivedJob(w, op)
        return j if j.ok else None
