"""World G: value nodes and semantic values with callers that keep and change what they passed in or got (P22)."""
from ..base import Injected, Violation, injected, need, rng_of
from ..simclock import MODES
from ..world import DIRS, HistGen, M, World, show, uid_of
from .hier import short

POOL = [0.0, 1.0, 2.5, -3, 0, 1, "t", "", "ñ", True, False, None, [1, 2], 1e300]
NAMES = ["name", "axis", "type", "values", "x", " x", "Name", ""]
CLS = ["CognitiveEntity", "KinematicLink", "KinematicJoint", "InertiaElement", "VisualMaterial", "RigidTransformation", "KinematicGraphDefinition"]
GEOMS = ["CylinderGeometry", "PolyhedronGeometry", "EllipsoidGeometry", "MeshGeometry"]


def r(x):
    return [repr(i) for i in x]


class VWorld(World):

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.lists, self.dicts, self.copies = {}, {}, {}

    def src(self, spec):
        """-> (what is passed, its contents) or None"""
        k, x = spec
        if k == "list":
            return (self.lists[x], list(self.lists[x])) if x in self.lists else None
        if k == "tuple":
            return (tuple(self.lists[x]), list(self.lists[x])) if x in self.lists else None
        if k == "copy":
            return (self.copies[x][0], list(self.copies[x][0])) if x in self.copies else None
        if k == "val":
            return (self.obj[x].val, list(self.m[x].vals)) if x in self.m else None
        if k == "node":
            return ([v for v in self.obj[x]], list(self.m[x].vals)) if x in self.m else None
        if k == "none":
            return None, []
        if k == "lit":
            return list(x), list(x)
        if k == "fail":
            class Failing(list):
                def __iter__(self):
                    yield from list.__iter__(self)
                    raise injected("the list ends with an error", sum(repr(x).encode()))
            return Failing(x), list(x)
        raise KeyError(k)

    # what callers own
    def pre_list(self, op):
        return "ok"

    def op_list(self, op, expect):
        self.lists[op[0]] = list(op[2])

    def pre_dict(self, op):
        return "ok"

    def op_dict(self, op, expect):
        self.dicts[op[0]] = dict(op[2])

    # [id, "mut", list or copy, how, x]
    def pre_mut(self, op):
        return "ok" if op[2] in self.lists or op[2] in self.copies else "skip"

    def op_mut(self, op, expect):
        l = self.lists[op[2]] if op[2] in self.lists else self.copies[op[2]][0]
        how, x = op[3], op[4]
        if how == "append":
            l.append(x)
        elif how == "clear":
            l.clear()
        elif how == "set" and l:
            l[0] = x
        elif how == "pop" and l:
            l.pop()
        elif how == "reverse":
            l.reverse()
        if op[2] in self.copies:
            self.copies[op[2]] = (l, list(l))

    def pre_mutd(self, op):
        return "ok" if op[2] in self.dicts else "skip"

    def op_mutd(self, op, expect):
        d = self.dicts[op[2]]
        if op[4] is None:
            d.pop(op[3], None)
        else:
            d[op[3]] = op[4]

    # [id, "mkv", name, parent, via, source]
    def pre_mkv(self, op):
        if not self.ex(op[3]) or (op[5][0] not in ("lit", "none", "fail") and self.src(op[5]) is None):
            return "skip"
        return "either" if op[5][0] == "fail" else "ok"

    def op_mkv(self, op, expect):
        id, _, name, parent, via, spec = op
        given, vals = self.src(spec)
        P = self.obj.get(parent)
        if via == "fac":
            o = self.factory(0).create_value(P, name, given)
        elif via == "kw":
            o = self.vn.ValueNode(uid_of(id), name, "q/" + name, values=given)
        else:
            o = self.vn.ValueNode(uid_of(id), name, "q/" + name, given)
        m = M(id, "value", name, o.uuid)
        m.vals = vals
        self.register(id, o, m)
        if P is not None:
            if via != "fac":
                P.add_element(o)
            self.attach(id, parent)

    # [id, "wr", value, how, i, x]
    def pre_wr(self, op):
        if op[2] not in self.m:
            return "skip"
        n = len(self.m[op[2]].vals)
        return "ok" if -n <= op[4] < n else "refuse"

    def op_wr(self, op, expect):
        v = self.obj[op[2]]
        if op[3] == "item":
            v[op[4]] = op[5]
        else:
            v.update_value(op[4], op[5])
        self.m[op[2]].vals[op[4]] = op[5]

    # [id, "rep", value, source]
    def pre_rep(self, op):
        if op[2] not in self.m or op[3][0] == "none" or (op[3][0] != "fail" and self.src(op[3]) is None):
            return "skip"
        return "either" if op[3][0] == "fail" else "ok"

    def op_rep(self, op, expect):
        given, vals = self.src(op[3])
        self.obj[op[2]].update_values(given)
        self.m[op[2]].vals = vals

    # [id, "copy", value]: the caller keeps the list it got
    def pre_copy(self, op):
        return "ok" if op[2] in self.m else "skip"

    def op_copy(self, op, expect):
        l = self.obj[op[2]].get_values()
        self.copies[op[0]] = (l, list(l))

    # [id, "zip", value]: two iterations at once, and one left half way
    def pre_zip(self, op):
        return "ok" if op[2] in self.m else "skip"

    def op_zip(self, op, expect):
        v, vals = self.obj[op[2]], self.m[op[2]].vals
        it = iter(v)
        for _ in range(len(vals) // 2):
            next(it)
        got = [(a, b) for a in v for b in v]
        need(r(got) == r([(a, b) for a in vals for b in vals]), "{}: nested iteration over {} gives {}", show(op), short(vals), short(got))
        rest = list(it)
        need(r(rest) == r(vals[len(vals) // 2:]), "{}: an iteration continues with {} instead of {}", show(op), short(rest), short(vals[len(vals) // 2:]))

    # [id, "use", value, how]: readers of the value
    def pre_use(self, op):
        return "ok" if op[2] in self.m and (op[3] == "sort" or all(type(x) in (int, float) for x in self.m[op[2]].vals)) else "skip"

    def op_use(self, op, expect):
        from rei.hypergraph.norm import norm_functions as nf
        v = self.obj[op[2]]
        if op[3] == "sum":
            nf.SumNorm().norm(v.val)
        elif op[3] == "prod":
            nf.ProdNorm().norm(v.val)
        else:
            sorted(v.get_values(), key=repr)

    # [id, "mks", parent, class, dict, via]
    def pre_mks(self, op):
        return "ok" if self.ex(op[2]) and op[4] in self.dicts and (op[5] != "fac" or op[2] is not None and self.dicts[op[4]]) else "skip"

    def op_mks(self, op, expect):
        id, _, parent, cls, d, via = op[:6]
        extra = list(op[6]) if len(op) > 6 and op[6] is not None else None
        given = self.dicts[d]
        if via == "fac":
            from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory as F
            name = {"KinematicGraphDefinition": "kinematic_graph", "VisualMaterial": "material"}.get(cls, cls)
            o = F("sem", self.clocks[0]).generate_semantic_element(name, f"s{id}", self.obj[parent], given, *([extra] if len(op) > 6 else []))
            need(type(o).__name__ == cls, "{}: made a {}", show(op), type(o).__name__)
        else:
            c = getattr(self.ce, cls)
            o = c(uid_of(id), f"s{id}", "q/s", self.obj.get(parent), given)
            if parent is not None:
                self.obj[parent].add_element(o)
        m = M(id, "sem", f"s{id}", o.uuid)
        m.cls, m.attrs = cls, dict(given)
        if extra is not None and via == "fac":
            m.attrs["values"] = list(op[6])
        self.register(id, o, m)
        if parent is not None:
            self.attach(id, parent)

    # [id, "attr", sem, name, value] / [id, "unattr", sem, name] / [id, "setup", sem, name]
    def pre_attr(self, op):
        return "ok" if op[2] in self.m else "skip"
    pre_unattr = pre_attr

    def pre_setup(self, op):
        return "ok" if op[2] in self.m and self.m[op[2]].cls == "CognitiveEntity" else "skip"

    def op_attr(self, op, expect):
        self.obj[op[2]].add_named_attribute(op[3], op[4])
        self.m[op[2]].attrs[op[3]] = op[4]

    def op_unattr(self, op, expect):
        self.obj[op[2]].remove_named_attribute(op[3])
        self.m[op[2]].attrs.pop(op[3], None)

    def op_setup(self, op, expect):
        self.obj[op[2]].setup(op[3])
        self.m[op[2]].attrs["name"] = op[3]

    def check(self, op):
        for i, m in self.m.items():
            o = self.obj[i]
            if m.kind == "value":
                try:
                    n = o.dim
                    seen = dict(get_values=o.get_values(), iteration=list(o), indexing=[o[k] for k in range(n)],
                                get_value=[o.get_value(k) for k in range(n)], val=list(o.val))
                except Exception as e:
                    raise Violation(f"after {show(op)}: {i} cannot be read: {type(e).__name__}: {e}")
                if n == len(m.vals):
                    if n:
                        back = [o[k - n] for k in range(n)], [o.get_value(k - n) for k in range(n)]
                        need(r(list(back)) == r([m.vals, m.vals]), "after {}: {} read from its end shows {} instead of {}", show(op), i, short(back), short(m.vals))
                    for acc in (o.__getitem__, o.get_value):
                        for k in (n, n + 3, -n - 1):
                            try:
                                got = acc(k)
                            except Exception:
                                continue
                            need(False, "after {}: {} of {} gives {!r} for {}, but there are only {}", show(op), acc.__name__, i, got, k, n)
                need(n == len(m.vals), "after {}: {} has dimension {} instead of {}", show(op), i, n, len(m.vals))
                for k, got in seen.items():
                    need(r(got) == r(m.vals), "after {}: {} of {} shows {} instead of {}", show(op), k, i, short(got), short(m.vals))
            elif m.kind == "sem":
                for a in NAMES + ["no such attribute"]:
                    try:
                        got = o[a]
                    except Exception as e:
                        raise Violation(f"after {show(op)}: attribute {a} of {i} cannot be read: {type(e).__name__}")
                    need(repr(got) == repr(m.attrs.get(a)), "after {}: attribute {} of {} is {!r} instead of {!r}", show(op), a, i, got, m.attrs.get(a))
            elif m.kind == "rel":
                need(o.weight is self.obj.get(m.weight), "after {}: {} has another weight", show(op), i)
                if m.weight is not None:
                    need(r(o.weight.val) == r(self.m[m.weight].vals), "after {}: {} shows {} instead of {}", show(op), i,
                         short(list(o.weight.val)), short(self.m[m.weight].vals))
        for i, (l, c) in self.copies.items():
            need(r(l) == r(c), "after {}: the list handed out by {} changed from {} to {}", show(op), i, short(c), short(l))


class P22:
    pid = "P22"
    quick_runs = 15000
    real = ["rei.hypergraph.value_node", "rei.hypergraph.base_elements", "rei.foundations.conceptual_item", "rei.factories",
            "rei.format.semantics", "rei.hypergraph.norm"]
    stubs = ["clock (simulated)", "callers (keep and change every list and dictionary they passed or got)"]
    assumptions = ["the list returned by `val` is not changed by its holder", "writers take turns at operations (the library has no locks)"]
    rule = ("a run is a random interleaving of writers, readers and callers on up to a dozen value nodes and semantic values: single and "
            "whole writes, wrong indices, lists that fail while being read, shared and re-used lists and dictionaries, moves, weights of "
            "relations; every accessor of every node is compared after each operation; non-trivial: at least two writes were accepted")
    state_measure = "digest of all contents after each operation"

    def gen(self, rng, index, tier):
        g = HistGen(rng, {}, names=["a", "b", "c"])
        n = rng.randint(15, 60) if tier == "quick" or index % 3 else rng.randint(60, 250)
        nodes = [g.new("node", None, "ctor") for _ in range(rng.randint(1, 3))]
        edges = [g.new("edge", rng.choice(nodes), "ctor") for _ in range(rng.randint(0, 2))]
        lists, dicts, vals, sems, copies, rels = [], [], [], [], [], []
        some = lambda: [rng.choice(POOL) for _ in range(rng.choice([0, 1, 2, 3, 3, 5]) if rng.random() < 0.98 else rng.choice([17, 40, 130, 300]))]

        def source():
            k = rng.choice(["list", "list", "list", "tuple", "copy", "val", "node", "none", "lit", "fail"])
            if k in ("list", "tuple") and lists:
                return [k, rng.choice(lists)]
            if k == "copy" and copies:
                return [k, rng.choice(copies)]
            if k in ("val", "node") and vals:
                return [k, rng.choice(vals)]
            if k == "fail":
                return [k, some()]
            return ["none", None] if k == "none" else ["lit", some()]
        while len(g.ops) < n:
            x = rng.random()
            id = g.nid()
            if x < 0.07:
                lists.append(g.emit(id, "list", some()))
            elif x < 0.15 and lists + copies:
                g.emit(id, "mut", rng.choice(lists + copies), rng.choice(["append", "clear", "set", "pop", "reverse"]), rng.choice(POOL))
            elif x < 0.25 or not vals:
                g.emit(id, "mkv", rng.choice(g.names) + id, rng.choice(nodes + [None]), rng.choice(["ctor", "kw", "fac"]), source())
                vals.append(id)
            elif x < 0.42:
                g.emit(id, "wr", rng.choice(vals), rng.choice(["item", "upd"]), rng.choice([0, 0, 1, 2, 3, 7, -1, -2, 20, 120]), rng.choice(POOL))
            elif x < 0.57:
                g.emit(id, "rep", rng.choice(vals), source())
            elif x < 0.63:
                copies.append(g.emit(id, "copy", rng.choice(vals)))
            elif x < 0.67:
                g.emit(id, rng.choice(["zip", "zip", "use"]), rng.choice(vals), rng.choice(["sum", "prod", "sort"]))
            elif x < 0.70:
                dicts.append(g.emit(id, "dict", {k: rng.choice(POOL) for k in rng.sample(NAMES, rng.randint(0, 4))}))
            elif x < 0.73 and dicts:
                g.emit(id, "mutd", rng.choice(dicts), rng.choice(NAMES), rng.choice(POOL))
            elif x < 0.78 and dicts:
                if rng.random() < 0.3:
                    sems.append(g.emit(id, "mks", rng.choice(nodes), rng.choice(GEOMS), rng.choice(dicts), "fac", rng.choice([None, [], [1.0], [0.5, 2, 3]])))
                else:
                    sems.append(g.emit(id, "mks", rng.choice(nodes + [None]), rng.choice(CLS), rng.choice(dicts), rng.choice(["ctor", "fac"])))
            elif x < 0.88 and sems:
                k = rng.choice(["attr", "attr", "unattr", "setup"])
                g.emit(id, k, rng.choice(sems), rng.choice(NAMES), *([rng.choice(POOL)] if k == "attr" else []))
            elif x < 0.92 and edges and vals:
                rels.append("r" + g.emit(id, "connect", rng.choice(edges), rng.choice(nodes), rng.choice(DIRS), rng.choice(vals), None))
            elif x < 0.96:
                g.emit(id, "add", rng.choice(vals), rng.choice(nodes + edges), "add")
            elif x < 0.98:
                g.emit(id, "rm", "u", rng.choice(vals), None, None)
            elif sems:
                g.emit(id, "add", rng.choice(sems), rng.choice(nodes + sems), "add")
        return dict(ops=g.ops, cfg=dict(modes=[rng.choice(MODES)], wseed=rng.randrange(10**9)))

    def run(self, case, ctx):
        w = VWorld(ctx, case["cfg"]["wseed"], clocks=1, modes=case["cfg"]["modes"])
        n = 0
        for op in case["ops"]:
            w.do(op)
            w.check(op)
            n += op[1] in ("wr", "rep", "attr")
            ctx.state([[m.vals, m.attrs] for m in w.m.values()])
        ctx.nontrivial = n > 1
