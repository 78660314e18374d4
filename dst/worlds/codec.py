"""World F: snapshots (P20) and value updates (P21) between encoders and replicas over a faulty channel."""
import math

from ..base import Injected, Violation, need, rng_of
from ..simclock import MODES, make_clock
from ..world import DIRS, HistGen, show
from .hier import short
from .matrix import ep, incoming, kids_of, outgoing, rels
from .readers import Readers, RWorld, Session, reference

VALS = [0.0, 1.0, 2.5, -3, 7, "t", "ñ", True, None, [1, 2], 1e300, -89.4, b"\x00\xff"]


class Expect:
    """What a snapshot of a context must restore, from the model at the time of encoding."""

    def __init__(self, w, c):
        self.root = (w.m[c].uuid, w.m[c].name)
        k = {kind: [i for i in kids_of(w, c, kind)] for kind in ("node", "edge", "value")}
        pair = lambda i: (w.m[i].uuid, w.m[i].name)
        self.nodes, self.edges = [pair(i) for i in k["node"]], [pair(i) for i in k["edge"]]
        self.values = [(*pair(i), list(w.m[i].vals)) for i in k["value"]]
        self.rels = {w.m[e].uuid: [(*pair(r), w.m[r].dir, w.m[ep(w, r)].uuid) for r in rels(w, e)] for e in k["edge"]}
        self.origin = {w.m[i].uuid: w.path(i) for i in [c] + k["node"] + k["edge"] + k["value"] + [r for e in k["edge"] for r in rels(w, e)]}
        self.ports = {}
        for i in [c] + k["node"]:
            self.ports[w.m[i].uuid] = sorted((*pair(p), w.m[w.m[p].target].uuid) for p in w.m[i].kids
                                             if w.m[p].kind == "port" and w.m[w.m[p].target].parent in k["edge"])
        order = reference(w, c, "bfs", math.inf, lambda i: True, False)
        self.index = {kind: {w.m[i].uuid: n for n, i in enumerate(x for x in order if w.m[x].kind == kind)} for kind in ("node", "edge", "value")}
        self.value_ids = k["value"]
        self.root_is_top = w.m[c].parent is None

    def order(self):
        """values in the order of their indices"""
        return sorted(self.values, key=lambda v: self.index["value"][v[0]])


def encodable(w, c):
    """Relations of the context lead to the context itself or its direct sub-nodes; deeper ones stay inside."""
    if c not in w.m or w.m[c].kind != "node":
        return False
    own = {c, *kids_of(w, c, "node")}
    if not all(ep(w, r) in own for e in kids_of(w, c, "edge") for r in rels(w, e)):
        return False
    sub = w.subtree(c)
    inside = {i for i in sub if w.m[i].kind == "node"}
    if not all(ep(w, r) in inside for e in sub if w.m[e].kind == "edge" for r in rels(w, e)):
        return False
    ids = [w.m[i].uuid for i in sub]
    return len(ids) == len(set(ids))


def entries(w, c):
    """(edge, from, to) of everything reachable from the context, as identifiers"""
    out, q, seen = set(), [c], {c}
    for x in q:
        if w.m[x].kind == "node":
            nxt = kids_of(w, x, "edge")
        else:
            for a in incoming(w, x):
                for b in outgoing(w, x):
                    if ep(w, a) != ep(w, b):
                        out.add((w.m[x].uuid, w.m[ep(w, a)].uuid, w.m[ep(w, b)].uuid))
            nxt = [ep(w, r) for r in rels(w, x)]
        for y in nxt:
            if y not in seen:
                seen.add(y)
                q.append(y)
    return out


def fingerprint(root):
    """A decoded graph as data, through its public accessors."""
    kids = lambda o: list(o.get_subelements(lambda x: True))
    out, st = [], [root]
    while st:
        o = st.pop()
        d = [type(o).__name__, o.uuid, o.id_name, o.qualified_name, o.depth, [k.uuid for k in kids(o)]]
        if hasattr(o, "timestamp"):
            d.append(o.timestamp)
        if hasattr(o, "get_values"):
            d.append([repr(x) for x in o.get_values()] + [o.dim])
        if hasattr(o, "direction"):
            d += [o.endpoint.uuid, o.direction.name]
        elif hasattr(o, "endpoint"):
            d.append(o.endpoint.uuid)
        out.append(d)
        st += kids(o)
    return out


def structure(root):
    """... without the contents of the values"""
    return [d[:-1] if d[0] == "ValueNode" else d for d in fingerprint(root)]


def contents(root):
    return {v.uuid: list(v.get_values()) for v in root.sub_values}


def judge_graph(w, what, x, root, h):
    """A freshly decoded graph is the graph described by the snapshot."""
    sub = lambda o: list(o.get_subelements(lambda y: True))
    need(root is not None and (root.uuid, root.id_name) == x.root, "{}: the root is {} instead of {}", what, getattr(root, "id_name", None), x.root[1])
    need(root not in w.byobj and root.parent is None, "{}: the restored context is part of another graph", what)
    nodes, edges, values = list(root.sub_nodes), list(root.sub_edges), list(root.sub_values)
    pair = lambda o: (o.uuid, o.id_name)
    for name, got, want in (("nodes", nodes, x.nodes), ("edges", edges, x.edges)):
        need([pair(o) for o in got] == want, "{}: {} {} instead of {}", what, name, short([o.id_name for o in got]), short([n for _, n in want]))
    got = [(*pair(v), v.get_values()) for v in values]
    need(repr(got) == repr(x.values), "{}: values {} instead of {}", what, short([g[1:] for g in got]), short([v[1:] for v in x.values]))
    for v in values:
        need(v.dim == len(v.get_values()) and [repr(a) for a in v] == [repr(a) for a in v.get_values()], "{}: value {} shows its contents in two ways",
             what, v.id_name)
    for o in [root, *nodes, *edges, *values, *(r for e in edges for r in e.sub_relations)]:
        want = x.origin.get(o.uuid, o.progenitor_qualified_name)
        need(o.progenitor_qualified_name == want, "{}: {} comes from {!r} but says {!r}", what, o.id_name, want, o.progenitor_qualified_name)
    by = {o.uuid: o for o in [root, *nodes]}
    for e in edges:
        rs = list(e.sub_relations)
        got = [(*pair(r), r.direction.name, r.endpoint.uuid) for r in rs]
        need(got == x.rels[e.uuid], "{}: relations of {} are {} instead of {}", what, e.id_name, short([g[1:3] for g in got]),
             short([g[1:3] for g in x.rels[e.uuid]]))
        need(len(sub(e)) == len(rs), "{}: {} holds more than its relations", what, e.id_name)
        for r in rs:
            need(r.endpoint is by[r.endpoint.uuid], "{}: a relation of {} leads outside the restored graph", what, e.id_name)
            need(r.parent is e, "{}: a relation does not know its edge", what)
        inw = [r.uuid for r in rs if r.direction.name != "OUTWARDS"]
        outw = [r.uuid for r in rs if r.direction.name != "INWARDS"]
        need([r.uuid for r in e.get_incoming_relations()] == inw and [r.uuid for r in e.get_outgoing_relations()] == outw,
             "{}: incoming and outgoing relations of {} do not follow the directions", what, e.id_name)
    for o in [root, *nodes]:
        got = sorted((*pair(p), p.endpoint.uuid) for p in o.sub_ports)
        need(got == x.ports[o.uuid], "{}: ports of {} are {} instead of {}", what, o.id_name, short([g[1] for g in got]), short([g[1] for g in x.ports[o.uuid]]))
        n = len(got) + (len(nodes) + len(edges) + len(values) if o is root else 0)
        need(len(sub(o)) == n and o.cnt_subelements == n, "{}: {} holds {} elements instead of {}", what, o.id_name, len(sub(o)), n)
    if x.root_is_top:
        for o in nodes + edges + values:
            need(o.qualified_name == x.root[1] + "/" + o.id_name, "{}: qualified name {!r}", what, o.qualified_name)
    need(h.cnt_node == len(nodes) + 1 and h.cnt_edges == len(edges), "{}: index maps count {} nodes and {} edges", what, h.cnt_node, h.cnt_edges)
    for name, fwd, back, kind, os in (("node", h.node, h.dim, "node", [root, *nodes]), ("edge", h.edge, h.depth, "edge", edges),
                                      ("value", h.val, h.ival, "value", values)):
        for o in os:
            i = x.index[kind][o.uuid]
            need(fwd(o.uuid) == i and back(i) == o.uuid, "{}: {} {} has index {} instead of {}", what, name, o.id_name, fwd(o.uuid), i)


def damaged(msg, d):
    """["trunc", k] ["flip", [(pos, bit)...]] ["junk", seed] ["swap", k] ["empty"]"""
    if d is None:
        return msg
    if d[0] == "trunc":
        return msg[:d[1] % max(1, len(msg))]
    if d[0] == "flip":
        b = bytearray(msg)
        for p, bit in d[1]:
            b[p % len(b)] ^= 1 << bit
        return bytes(b)
    if d[0] == "junk":
        r = rng_of("junk", d[1])
        return bytes(r.randrange(256) for _ in range(r.randrange(1, 40)))
    if d[0] == "cut":           # a lost block in the middle
        a = d[1] % max(1, len(msg))
        return msg[:a] + msg[a + d[2]:]
    raise KeyError(d[0])


def gen_damage(rng):
    k = rng.choice(["trunc", "trunc", "flip", "flip", "junk", "cut"])
    if k == "trunc":
        return ["trunc", rng.choice([0, 1, rng.randrange(5000), rng.randrange(5000), -1 - rng.randrange(10)]) % 100000]
    if k == "flip":
        return ["flip", [[rng.randrange(5000), rng.randrange(8)] for _ in range(rng.choice([1, 1, 2, 3]))]]
    if k == "junk":
        return ["junk", rng.randrange(10**6)]
    return ["cut", rng.randrange(5000), rng.choice([1, 2, 8, 40])]


class CWorld(RWorld):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        from rei.hypergraph.encoding import graph_tensor_icon as gi, graph_tensor_icon_cbor as gc
        self.gi, self.gc = gi, gc


def history(rng, g, ctxs, values=True):
    """one change of one of the contexts"""
    c = rng.choice(ctxs)
    r = rng.random()
    if r < 0.2:
        id = g.nid()
        g.emit(id, "new", "node", rng.choice(g.names), c["id"], "ctor", 0, None)
        c["nodes"].append(id)
    elif r < 0.4:
        id = g.nid()
        g.emit(id, "new", "edge", rng.choice(g.names), c["id"], "ctor", 0, None)
        c["edges"].append(id)
        pool = c["nodes"] + [c["id"]]
        for p in rng.sample(pool, min(len(pool), rng.choice([0, 1, 2, 2, 3, 4]))):
            c["rels"].append("r" + g.emit(g.nid(), "connect", id, p, rng.choice(DIRS), None, None))
    elif r < 0.55 and c["edges"] and c["nodes"]:
        c["rels"].append("r" + g.emit(g.nid(), "connect", rng.choice(c["edges"]), rng.choice(c["nodes"]), rng.choice(DIRS),
                                      weight(rng, g, c) if rng.random() < 0.2 else None, None))
    elif r < 0.58 and c["edges"] and c["nodes"] and not c.get("plain"):
        # relations made by themselves: several may join an edge and a node, also under one name
        e, p, n = rng.choice(c["edges"]), rng.choice(c["nodes"] + [c["id"]]), rng.choice(["r", "s"])
        for _ in range(rng.choice([1, 2, 2, 3])):
            c["rels"].append("r" + g.emit(g.nid(), "newrel", e, p, rng.choice(DIRS), weight(rng, g, c) if rng.random() < 0.2 else None, n if rng.random() < 0.8 else "t"))
    elif r < 0.62 and c["rels"]:
        g.emit(g.nid(), "rm", rng.choice(["u", "nu"]), c["rels"].pop(rng.randrange(len(c["rels"]))), None, None)
    elif r < 0.66 and c["edges"]:
        g.emit(g.nid(), "rm", "u", c["edges"].pop(rng.randrange(len(c["edges"]))), None, None)
    elif r < 0.70 and c["nodes"] and rng.random() < (0.8 if c.get("deep") else 0.6):
        # something below a node, and things that are no part of a snapshot
        id = g.nid()
        k = rng.choice(["node", "node", "edge", "value", "item", "sem"])
        deep = c.setdefault("deep", [])
        if rng.random() < 0.08 and not c.get("plain"):
            return ladder(rng, g, c, deep)
        g.emit(id, "new", k, rng.choice(g.names), rng.choice(c["nodes"] + ([c["id"]] if k in ("item", "sem") else deep)), "ctor", 0,
               [1.0] if k == "value" else None)
        if k == "node":
            deep.append(id)
        elif k == "edge" and not c.get("plain"):
            # leads anywhere inside; the traversal gets there where an edge of the context leads to its node
            if rng.random() < 0.7:
                g.ops[-1][4] = rng.choice(c["nodes"])
            pool = c["nodes"] + deep * 2 + [c["id"]]
            for p in rng.sample(sorted(set(pool)), min(len(set(pool)), rng.choice([1, 2, 2, 3]))):
                g.emit(g.nid(), "connect", id, p, rng.choice(DIRS), weight(rng, g, c) if rng.random() < 0.2 else None, None)
    elif r < 0.74 and len(ctxs) > 1 and c["nodes"]:
        d = rng.choice(ctxs)
        g.emit(g.nid(), "add", rng.choice(c["nodes"] + c["edges"] + (c["vals"] if values else [])), d["id"], "add")
    elif r < 0.84 and values:
        new_value(rng, g, c)
    elif r < 0.87 and values and c["vals"]:
        g.emit(g.nid(), "rm", "u", c["vals"].pop(rng.randrange(len(c["vals"]))), None, None)
    else:
        write(rng, g, c)


def ladder(rng, g, c, deep):
    """nodes nested in one another, each holding an edge that leads to the next one"""
    at = rng.choice(c["nodes"])
    e = g.emit(g.nid(), "new", "edge", rng.choice(g.names), c["id"], "ctor", 0, None)
    c["edges"].append(e)
    c["rels"].append("r" + g.emit(g.nid(), "connect", e, at, rng.choice(DIRS), None, None))
    for _ in range(rng.choice([2, 3, 5, 8, 12])):
        n = g.emit(g.nid(), "new", "node", rng.choice(g.names), at, "ctor", 0, None)
        e = g.emit(g.nid(), "new", "edge", rng.choice(g.names), at, "ctor", 0, None)
        g.emit(g.nid(), "connect", e, n, rng.choice(DIRS), None, None)
        if rng.random() < 0.6:
            g.emit(g.nid(), "connect", e, rng.choice([at, c["id"]]), rng.choice(DIRS), None, None)
        deep.append(n)
        at = n


def bulk(rng, g, c):
    """very many nodes, values, edges or relations of one context"""
    k, n = rng.choice(["nodes", "vals", "edges", "rels"]), rng.choice([70, 140, 300])
    if k == "nodes":
        id = g.emit(g.nid(), "fan", n, c["id"], 0, rng.choice([1, 7, n]))
        c["nodes"] += [id] + [f"{id}.{i}" for i in range(1, n)]
    elif k == "vals":
        for _ in range(n):
            new_value(rng, g, c)
    else:
        for _ in range(n if k == "edges" else 1):
            id = g.emit(g.nid(), "new", "edge", rng.choice(g.names), c["id"], "ctor", 0, None)
            c["edges"].append(id)
        if k == "rels":
            id = g.emit(g.nid(), "star", n, id, c["id"], 0)
            c["nodes"] += [f"{id}.{i}" for i in range(n)]
            c["rels"] += [f"r{id}.{i}" for i in range(n)]


def weight(rng, g, c):
    if not c.get("w"):
        c["w"] = g.emit(g.nid(), "new", "value", "w", None, "ctor", 0, [1.0, 2.5])
    return c["w"]


def new_value(rng, g, c):
    id = g.nid()
    g.emit(id, "new", "value", rng.choice(g.names), c["id"], "ctor", 0, [rng.choice(VALS) for _ in range(rng.randrange(4))])
    c["vals"].append(id)


def write(rng, g, c):
    if c["vals"]:
        v = rng.choice(c["vals"])
        if rng.random() < 0.5:
            g.emit(g.nid(), "setval", v, rng.randrange(3), rng.choice(VALS))
        else:
            g.emit(g.nid(), "setvals", v, [rng.choice(VALS) for _ in range(rng.randrange(4))])


def contexts(rng, g, n):
    out, parent = [], None
    for _ in range(n):
        id = g.nid()
        g.emit(id, "new", "node", rng.choice(g.names), parent if rng.random() < 0.5 else None, "ctor", 0, None)
        parent = id
        out.append(dict(id=id, nodes=[], edges=[], rels=[], vals=[]))
    return out


VALS[:] = [v for v in VALS if not isinstance(v, bytes)]     # cases are JSON


class Sender:
    """[.., "enc", slot, context, n, ...]: one encoding object"""

    def __init__(self, w, c):
        self.real = w.gc.GraphTensorCbor("icon", w.clocks[0], w.obj[c])


class P20(Readers):
    pid = "P20"
    quick_runs = 2400
    real = ["rei.hypergraph.encoding", "rei.hypergraph", "rei.foundations", "cbor2", "asyncio tasks"]
    stubs = ["event loop (seeded scheduler, virtual time)", "message channel (in process, with damage)", "clock (simulated)"]
    assumptions = ["relations of the encoded context lead to the context or its direct sub-nodes",
                   "damage that leaves a loadable message may be accepted or refused"]
    rule = ("a run is a random history of up to three contexts (also nested) with encodings by re-used encoders in between, decoded in "
            "any order, repeatedly and damaged, by re-used receivers, with changes to sender and decoded graphs in between; all graphs "
            "decoded before and the sender's graph are compared after each step; non-trivial: at least two snapshots were decoded")
    state_measure = "digest of the decoded graphs"

    def gen(self, rng, index, tier):
        g = HistGen(rng, {}, names=rng.choice([["a", "b"], ["a", "b", "c", "node"], ["x.y", "ñ", "a b", "0", "a/b"]]))
        ctxs = contexts(rng, g, rng.randint(1, 3))
        for _ in range(rng.randint(3, 12)):
            history(rng, g, ctxs)
        n = rng.randint(20, 50) if tier == "quick" or index % 3 else rng.randint(50, 150)
        slots = [f"s{i}" for i in range(rng.randint(1, 2))]
        recv = slots + ["r1"] if rng.random() < 0.7 else ["r1", "r2"]
        msgs, ups, decs = [], [], []
        if index % 200 == 67:   # very many of one kind
            bulk(rng, g, ctxs[0])
            n += len(g.ops)
        elif index % 40 == 7:   # large snapshots
            c = ctxs[0]
            for _ in range(rng.choice([100, 300])):
                history(rng, g, [c])
            n += len(g.ops)
        grp = 0
        while len(g.ops) < n:
            r = rng.random()
            if r < 0.5:
                history(rng, g, ctxs)
            elif r < 0.7 or not msgs:
                grp += 1
                used = set()
                for _ in range(rng.choice([1, 1, 2])):
                    s = rng.choice(slots)
                    if s not in used:
                        used.add(s)
                        msgs.append(g.emit(g.nid(), "enc", grp, s, rng.choice(ctxs)["id"], rng.choice([0, 1, 1, 1, 2])))
            elif r < 0.9:
                m = msgs[-1] if rng.random() < 0.6 else rng.choice(msgs)
                decs.append(g.emit(g.nid(), "dec", rng.choice(recv), m, gen_damage(rng) if rng.random() < 0.3 else None))
            elif r < 0.93:
                s, c = rng.choice(slots), rng.choice(ctxs)["id"]
                g.emit(g.nid(), "spoil", s, c, rng.randrange(5))
                if rng.random() < 0.7:
                    grp += 1
                    msgs.append(g.emit(g.nid(), "enc", grp, s, rng.choice([c, rng.choice(ctxs)["id"]]), rng.choice([0, 1, 1])))
            elif r < 0.97 and decs:
                g.emit(g.nid(), "touch", rng.choice(decs), rng.randrange(4), rng.randrange(10**6))
            elif msgs:
                g.emit(g.nid(), "upd", rng.choice(recv), rng.choice(msgs), rng.randrange(1000), rng.random() < 0.2)
        for m in msgs[-2:]:
            g.emit(g.nid(), "dec", rng.choice(recv), m, None)
        return dict(ops=g.ops, cfg=dict(modes=[rng.choice(MODES)], wseed=rng.randrange(10**9), extra=rng.choice([0.0, 0.05, 0.3])),
                    sched=dict(seed=rng.randrange(10**9), bias=rng.choice([0.0, 0.5])))

    def run(self, case, ctx):
        w = CWorld(ctx, case["cfg"]["wseed"], clocks=1, modes=case["cfg"]["modes"])
        s = Session(case, ctx, case["cfg"]["extra"])
        self.senders, self.msgs, self.graphs, self.now, self.coos = {}, {}, {}, {}, {}
        ops = case["ops"]
        i = n = 0
        while i < len(ops):
            op = ops[i]
            if op[1] == "enc":
                group = [op]
                while i + 1 < len(ops) and ops[i + 1][1] == "enc" and ops[i + 1][2] == op[2]:
                    i += 1
                    group.append(ops[i])
                self.encode(w, s, group)
            elif op[1] == "dec":
                n += self.decode(w, op)
            elif op[1] == "spoil":
                self.spoil(w, s, op)
            elif op[1] == "touch":
                self.touch(w, op)
            elif op[1] == "upd":
                self.update(w, op)
            else:
                w.do(op)
            i += 1
        ctx.nontrivial = n > 1

    def codec(self, w, slot, c=None):
        if slot not in self.senders:
            self.senders[slot] = w.gc.GraphTensorCbor("icon", w.clocks[0], w.obj[c] if c else None)
        return self.senders[slot]

    def lists(self, w, slot, c):
        """an object for coordinate lists only, used again and again as well"""
        if slot not in self.coos:
            self.coos[slot] = w.gi.CoordinateObjectTransformer(w.obj[c])
        return self.coos[slot]

    def spoil(self, w, s, op):
        """[id, "spoil", slot, context, which]: an encoding under way fails at a weight that can not be added up, which is then repaired"""
        _, _, slot, c, k = op
        if not encodable(w, c):
            return
        vs = sorted({w.m[r].weight for i in w.subtree(c) if w.m[i].kind == "edge" for r in rels(w, i)} - {None})
        if not vs:
            return
        v = w.obj[vs[k % len(vs)]]
        then = v.get_values()
        v.update_values(["x", None])

        async def coro():
            ctx = w.obj[c]
            for x, f, g in ((self.codec(w, slot, c), "update_context", "update_coo"), (self.lists(w, slot, c), "reset", "execute")):
                await getattr(x, f)(ctx)
                try:
                    await getattr(x, g)()
                except Exception:
                    w.ctx.fault("failing_weight")
        r = s.run([(coro, None)])[0]
        need(r[0] == "ok", "{} failed: {}: {}", show(op), type(r[1]).__name__, r[1])
        w.ctx.op("spoil")
        v.update_values(then)

    def encode(self, w, s, group):
        group = [op for op in group if encodable(w, op[4])]
        if not group:
            return
        before = w.snapshot(timestamps=True)

        def job(op):
            async def coro():
                x = self.codec(w, op[3], op[4])
                await x.update_context(w.obj[op[4]])
                for _ in range(op[5]):
                    await x.update_coo()
                t = self.lists(w, op[3], op[4])
                await t.reset(w.obj[op[4]])
                for _ in range(op[5]):
                    await t.execute()
                return x.full_msg(), t.msg_tensor_value_updates()
            return coro
        for op, r in zip(group, s.run([(job(op), None) for op in group])):
            w.ctx.op("enc")
            need(r[0] == "ok", "{} failed: {}: {}", show(op), type(r[1]).__name__, r[1])
            x = Expect(w, op[4])
            msg, coo = r[1]
            self.msgs[op[0]] = (bytes(msg), x)
            if op[5]:
                self.judge_coo(w, op, x, coo)
        after = w.snapshot(timestamps=True)
        for i in before:
            need(before[i] == after[i], "encoding changed {}: {} became {}", i, before[i], after[i])

    def judge_coo(self, w, op, x, coo):
        n, e = ({i: u for u, i in x.index[k].items()} for k in ("node", "edge"))
        vals, out, inc = [list(l) for l in coo]
        want = entries(w, op[4])
        got = {(e.get(v[0]), n.get(v[1]), n.get(v[2])) for v in vals if v[3] != 0.0}
        weights = {w.m[r].weight for i in w.subtree(op[4]) if w.m[i].kind == "edge" for r in rels(w, i)}
        if weights <= {None}:
            need(got == want, "{}: coordinate list has {} entries, {} of them wrong, {} missing", show(op), len(got), len(got - want), len(want - got))
            need(all(v[3] == 1.0 for v in vals), "{}: entries without a weight are not 1", show(op))
        else:
            need(got <= want, "{}: coordinate list has {} wrong entries", show(op), len(got - want))
        for name, l, col in (("outgoing", out, 1), ("incoming", inc, 2)):
            g = {(e.get(v[0]), n.get(v[1])) for v in l}
            need(g == {(e.get(v[0]), n.get(v[col])) for v in vals}, "{}: {} incidence list does not match the entries", show(op), name)
        # an edge may join two nodes by several relations: a pair then has as many entries
        tri = [(w.m[i].uuid, w.m[ep(w, a)].uuid, w.m[ep(w, b)].uuid) for i in w.m if w.m[i].kind == "edge" for a in incoming(w, i) for b in outgoing(w, i)]
        need(len(vals) <= 2 * sum(t in want for t in tri) and len(out) == len(vals) == len(inc), "{}: coordinate list has {} entries for {} pairs", show(op), len(vals), len(want))

    def others(self):
        return {i: fingerprint(g[0]) for i, g in self.graphs.items()}

    def decode(self, w, op):
        id, _, slot, mid, dmg = op
        if mid not in self.msgs:
            return 0
        w.ctx.op("dec")
        msg, x = self.msgs[mid]
        m = damaged(msg, dmg)
        bad = m != msg
        if bad:
            w.ctx.fault("damaged_snapshot_" + dmg[0])
        before, graphs = w.snapshot(timestamps=True), self.others()
        c = self.codec(w, slot)
        try:
            root, h = c.create_graph(m)
            err = None
        except (Violation, RecursionError):
            raise
        except Exception as e:
            err = e
        what = show(op[:4])
        if not bad:
            need(err is None, "{} failed: {}: {}", what, type(err).__name__, err)
            judge_graph(w, what, x, root, h)
            for i, (o, oh, _) in self.graphs.items():
                need(o is not root and oh is not h, "{}: returned the graph decoded by {}", what, i)
            self.graphs[id] = (root, h, x)
            self.now[slot] = id
        elif err is None:
            need(dmg[0] != "trunc", "{}: a snapshot cut after {} of {} bytes was accepted", what, len(m), len(msg))
            self.now[slot] = None       # damaged but loadable: nothing is claimed about what it became
        after = w.snapshot(timestamps=True)
        for i in before:
            need(before[i] == after[i], "{} changed the sender's graph at {}: {} became {}", what, i, before[i], after[i])
        for i, f in self.others().items():
            need(i not in graphs or f == graphs[i], "{} changed the graph decoded by {}", what, i)
        w.ctx.state([self.others()])
        return 1

    def touch(self, w, op):
        """the owner of a decoded graph changes it"""
        _, _, did, how, seed = op
        if did not in self.graphs:
            return
        root = self.graphs[did][0]
        before, graphs = w.snapshot(timestamps=True), self.others()
        r = rng_of("touch", seed)
        w.ctx.op("touch")
        vs, es = list(root.sub_values), list(root.sub_edges)
        if how == 0 and vs:
            r.choice(vs).update_values([r.random()])
        elif how == 1 and es:
            list(root.remove_element(uuid=r.choice(es).uuid))
        elif how == 2 and vs:
            list(root.remove_element(uuid=r.choice(vs).uuid))
        elif how == 3 and vs and r.choice(vs).dim:
            v = next(v for v in vs if v.dim)
            v.update_value(0, r.random())
        after = w.snapshot(timestamps=True)
        for i in before:
            need(before[i] == after[i], "changing a decoded graph changed the sender's graph at {}", i)
        for i, f in self.others().items():
            need(i == did or f == graphs[i], "changing the graph decoded by {} changed the one decoded by {}", did, i)

    def update(self, w, op):
        """what the receiver has now, shown by an update of all values of the graph it decoded last"""
        import cbor2
        id, _, slot, mid, seed, bad = op
        if mid not in self.msgs or self.now.get(slot) is None:
            return
        cur = self.now[slot]
        root, h, x = self.graphs[cur]
        if set(contents(root)) != {v[0] for v in x.values}:
            return      # its owner changed it
        w.ctx.op("upd")
        graphs = self.others()
        r = rng_of("upd", seed)
        new = {v[0]: [r.randrange(100), "u"] for v in x.values}
        self.senders[slot].from_msg_update_values(cbor2.dumps([(x.index["value"][u], c) for u, c in new.items()]))
        need(contents(root) == new, "{}: an update did not reach the graph decoded last ({})", show(op), cur)
        for i, f in self.others().items():
            need(i == cur or f == graphs[i], "{}: an update of the graph decoded by {} changed the one decoded by {}", show(op), cur, i)


# -- P21 ------------------------------------------------------------------------------------

def same(a, b):
    return repr(sorted(a.items())) == repr(sorted(b.items()))


class Replica:
    def __init__(self):
        self.codec = self.root = self.x = self.vals = self.shape = None
        self.known = False


class P21(P20):
    pid = "P21"
    quick_runs = 7000
    real = ["rei.hypergraph.encoding", "rei.hypergraph.value_node", "rei.hypergraph", "cbor2"]
    stubs = ["network (seeded loss, duplication, reordering, delay, damage, partitions)", "durable storage of snapshots (with torn writes)",
             "event loop (seeded scheduler, virtual time)", "clock (simulated)"]
    assumptions = ["values are added to the sender's context but not removed or moved while replicas follow it: updates address values by index",
                   "damage that leaves a loadable message may be accepted or refused"]
    rule = ("a run is a sender with 1-8 values and 1-3 replicas over a channel whose losses, duplicates, delays, partitions and damage were "
            "drawn on a simulated time line, with writes, structural changes, new values with new snapshots, receiver crashes and "
            "restarts from current, old and torn snapshots, sender restarts, and a fault-free end; all replicas are compared after "
            "every step; non-trivial: at least two updates were accepted")
    state_measure = "digest of the contents of all replicas"

    def gen(self, rng, index, tier):
        import heapq
        g = HistGen(rng, {}, names=rng.choice([["a", "b"], ["x.y", "ñ", "v", "0", "a/v"]]))
        ctxs = contexts(rng, g, rng.randint(1, 2))
        c = ctxs[-1]
        for _ in range(rng.randint(1, 8) if index % 50 != 17 else rng.choice([30, 70, 150])):
            new_value(rng, g, c)
        for _ in range(rng.randint(0, 6)):
            history(rng, g, [c], values=False)
        n = rng.randint(20, 60) if tier == "quick" or index % 3 else rng.randint(60, 250)
        p = dict(loss=rng.choice([0, 0.1, 0.4]), dup=rng.choice([0, 0.1, 0.4]), dmg=rng.choice([0, 0.1, 0.3]),
                 slow=rng.choice([0.001, 0.05, 2.0]), crash=rng.choice([0, 0.03, 0.1]))
        reps = [f"r{i}" for i in range(rng.randint(1, 3))]
        up = {r: 0.0 for r in reps}     # partitioned until
        ev = []                         # deliveries under way
        t, k, faults = 0.0, 0, []
        pubs = [g.emit(g.nid(), "pub", c["id"], t)]
        for r in reps:
            g.emit(g.nid(), "boot", r, pubs[0], None, rng.random() < 0.5, t)
        count = dict(loss=0, dup=0, reorder=0, partition=0, delay=0)
        last = {r: 0 for r in reps}
        while len(g.ops) < n or ev:
            t += rng.expovariate(20)
            while ev and ev[0][0] <= t:
                at, _, r, m, d, seq = heapq.heappop(ev)
                if at < up[r]:
                    count["partition"] += 1
                    continue
                count["reorder"] += seq < last[r]
                last[r] = max(last[r], seq)
                g.emit(g.nid(), "dlv", r, m, d, round(at, 6))
            if len(g.ops) >= n:
                continue
            x = rng.random()
            if x < 0.35:
                write(rng, g, c)
            elif x < 0.75:
                m = g.emit(g.nid(), "send", c["id"], round(t, 6))
                for r in reps:
                    if rng.random() < p["loss"]:
                        count["loss"] += 1
                        continue
                    copies = 1 + (rng.random() < p["dup"]) * rng.randint(1, 2)
                    count["dup"] += copies - 1
                    for _ in range(copies):
                        k += 1
                        lag = rng.expovariate(1 / p["slow"])
                        count["delay"] += lag > 0.1
                        heapq.heappush(ev, (t + lag, k, r, m, gen_damage(rng) if rng.random() < p["dmg"] else None, int(m[1:])))
            elif x < 0.75 + p["crash"]:
                r = rng.choice(reps)
                g.emit(g.nid(), "boot", r, rng.choice(pubs[-1:] * 3 + pubs), gen_damage(rng) if rng.random() < 0.2 else None, rng.random() < 0.7, round(t, 6))
            elif x < 0.86:
                history(rng, g, [c], values=False)
            elif x < 0.89:
                new_value(rng, g, c)
                pubs.append(g.emit(g.nid(), "pub", c["id"], round(t, 6)))
                for r in reps:
                    if rng.random() < 0.6:
                        g.emit(g.nid(), "boot", r, pubs[-1], None, rng.random() < 0.3, round(t, 6))
            elif x < 0.93:
                pubs.append(g.emit(g.nid(), "pub", c["id"], round(t, 6)))
            elif x < 0.95:
                g.emit(g.nid(), "restart", c["id"], round(t, 6))
            else:
                r = rng.choice(reps)
                up[r] = max(up[r], t + rng.expovariate(1))
        # faults stop: one update to each
        pubs.append(g.emit(g.nid(), "pub", c["id"], round(t, 6)))
        write(rng, g, c)
        m = g.emit(g.nid(), "send", c["id"], round(t, 6))
        for r in reps:
            g.emit(g.nid(), "final", r, m, pubs[-1], round(t, 6))
        return dict(ops=g.ops, cfg=dict(modes=[rng.choice(MODES)], wseed=rng.randrange(10**9), extra=rng.choice([0.0, 0.05]), net=count, end=round(t, 6)),
                    sched=dict(seed=rng.randrange(10**9), bias=rng.choice([0.0, 0.5])))

    def run(self, case, ctx):
        w = CWorld(ctx, case["cfg"]["wseed"], clocks=1, modes=case["cfg"]["modes"])
        self.s = Session(case, ctx, case["cfg"]["extra"])
        self.w, self.sender, self.msgs, self.snaps, self.reps, self.accepted = w, None, {}, {}, {}, 0
        self.indexed = None
        ctx.simtime = case["cfg"].get("end", 0.0)
        for k, v in case["cfg"].get("net", {}).items():
            if v:
                ctx.fault("net_" + k, v)
        for op in case["ops"]:
            f = getattr(self, "do_" + op[1], None)
            if f is None:
                w.do(op)
                continue
            before = w.snapshot(timestamps=True)
            f(op)
            ctx.op(op[1])
            after = w.snapshot(timestamps=True)
            for i in before:
                need(before[i] == after[i], "{} changed the sender's graph at {}: {} became {}", show(op), i, before[i], after[i])
            self.compare(op)
        ctx.nontrivial = self.accepted > 1

    # -- sender
    def refresh(self, c):
        w = self.w
        if self.sender is None:
            self.sender = w.gc.GraphTensorCbor("icon", w.clocks[0], w.obj[c])

        async def coro():
            await self.sender.update_context(w.obj[c])
            await self.sender.update_coo()
        r = self.s.run([(coro, None)])[0]
        need(r[0] == "ok", "the sender cannot encode: {}", r[-1])
        self.indexed = Expect(w, c)

    def do_pub(self, op):
        if not encodable(self.w, op[2]):
            return
        self.refresh(op[2])
        self.snaps[op[0]] = (bytes(self.sender.full_msg()), self.indexed)

    def do_restart(self, op):
        if self.sender is not None and encodable(self.w, op[2]):
            self.sender = None
            self.w.ctx.fault("sender_restart")
            self.refresh(op[2])

    def do_send(self, op):
        if self.sender is None or self.indexed.value_ids != kids_of(self.w, op[2], "value"):
            return
        try:
            m = bytes(self.sender.msg_value_update())
        except Exception as e:
            raise Violation(f"{show(op)}: no update can be made: {type(e).__name__}: {e}")
        w = self.w
        self.msgs[op[0]] = (m, {w.m[i].uuid: list(w.m[i].vals) for i in self.indexed.value_ids})

    # -- receivers
    def do_boot(self, op):
        _, _, r, sid, dmg, fresh, t = op
        if sid not in self.snaps:
            return
        w = self.w
        msg, x = self.snaps[sid]
        rep = self.reps.setdefault(r, Replica())
        m = damaged(msg, dmg)
        if fresh or rep.codec is None:
            if rep.codec is not None:
                w.ctx.fault("receiver_crash")
            c = w.gc.GraphTensorCbor("icon", w.clocks[0], None)
        else:
            c = rep.codec
        try:
            root, h = c.create_graph(m)
        except RecursionError:
            raise
        except Exception as e:
            need(m != msg, "{}: an intact snapshot is refused: {}: {}", show(op), type(e).__name__, e)
            w.ctx.fault("torn_snapshot")
            if fresh:
                self.reps[r] = Replica()        # crashed, nothing to start from
            return
        if m != msg:
            need(dmg[0] != "trunc", "{}: a snapshot cut after {} of {} bytes is accepted", show(op), len(m), len(msg))
            self.reps[r] = Replica()
            return
        judge_graph(w, show(op), x, root, h)
        rep = self.reps[r] = Replica()
        rep.codec, rep.root, rep.x, rep.known = c, root, x, True
        rep.vals = {v[0]: v[2] for v in x.values}
        rep.shape = structure(root)

    def do_dlv(self, op):
        _, _, r, mid, dmg, t = op
        rep = self.reps.get(r)
        if mid not in self.msgs or rep is None or rep.codec is None:
            return
        self.deliver(op, rep, mid, dmg)

    def deliver(self, op, rep, mid, dmg):
        import cbor2
        w = self.w
        msg, vals = self.msgs[mid]
        m = damaged(msg, dmg)
        try:
            rep.codec.from_msg_update_values(m)
            err = None
        except RecursionError:
            raise
        except Exception as e:
            err = e
        if m == msg:
            if set(vals) <= set(rep.vals):
                need(err is None, "{}: an intact update is refused: {}: {}", show(op), type(err).__name__, err)
            if err is None:
                rep.vals = {**rep.vals, **{u: v for u, v in vals.items() if u in rep.vals}}
                if set(vals) >= set(rep.vals):
                    rep.known = True
                self.accepted += 1
            else:
                w.ctx.fault("newer_update_refused")
            return
        w.ctx.fault("damaged_update_" + dmg[0])
        if err is not None:
            return
        need(dmg[0] != "trunc", "{}: an update cut after {} of {} bytes is accepted", show(op), len(m), len(msg))
        by = {i: u for u, i in rep.x.index["value"].items() if u in rep.vals}
        f = cbor2.loads(m)
        if isinstance(f, list) and all(isinstance(v, list) and len(v) == 2 and type(v[0]) is int and v[0] in by and isinstance(v[1], list) for v in f) \
                and len({v[0] for v in f}) == len(f):
            rep.vals = {**rep.vals, **{by[i]: v for i, v in f}}     # another update, by accident
        else:
            rep.known = False

    def do_final(self, op):
        _, _, r, mid, sid, t = op
        rep = self.reps.get(r)
        if mid not in self.msgs or sid not in self.snaps:
            return
        if rep is None or rep.codec is None or set(rep.vals) != set(self.msgs[mid][1]):
            self.do_boot([op[0], "boot", r, sid, None, True, t])
            rep = self.reps[r]
        self.deliver(op, rep, mid, None)
        w = self.w
        now = {w.m[i].uuid: list(w.m[i].vals) for i in self.indexed.value_ids}
        if now == self.msgs[mid][1]:
            need(same(contents(rep.root), now), "{}: faults have stopped but the replica shows {} instead of {}", show(op),
                 short(list(contents(rep.root).values())), short(list(now.values())))

    def compare(self, op):
        for r, rep in self.reps.items():
            if rep.codec is None:
                continue
            need(structure(rep.root) == rep.shape, "{}: something else than values of {} changed", show(op), r)
            if rep.known:
                got = contents(rep.root)
                need(same(got, rep.vals), "{}: {} shows {} instead of {}", show(op), r, short(list(got.values())), short(list(rep.vals.values())))
        self.w.ctx.state([[r, rep.known and [repr(v) for v in rep.vals.values()]] for r, rep in self.reps.items()])
