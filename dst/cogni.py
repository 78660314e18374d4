"""Descriptions: a model of what is declared, its text, and what the hypergraph and the exported document must be."""
import math

from .base import need

FLOATS = ["0.0", "1.0", "0.5", "-0.25", "0.085", "2.5", "-1.75", "0.02", "10.0", "3.14", "0.123456789", "-1234.56789"]
SIZES = ["0.1", "0.5", "1.0", "2.5", "0.085", "3.0", "0.02", "7.25", "0.00123456789", "12345.678901"]
ANGLES = ["0.0", "90.0", "-90.0", "45.0", "1.57", "-0.3", "180.0", "33.3333333", "720.0", "-450.0"]
MATERIALS = ["red", "black", "white", "wood", "darkGrey", "flat_black", "blue_2_x", "BLACK"]
GEOMS = ["cylinder", "polyhedron", "ellipsoid"]
SENSORS = ["imu", "encoder", "force", "gnss", "visual", "laserarray"]
JOINTS = ["fix", "rev", "tr"]


class Item:
    def __init__(self, op, parent):
        self.kind, self.id, self.name, self.parent = op[0], op[1], op[3], parent
        self.op, self.kids = op, []

    @property
    def path(self):
        return (self.parent.path if self.parent else []) + [self.name]

    def of(self, *kinds):
        return [k for k in self.kids if k.kind in kinds]

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


HOLDS = {"E": "PKAJ", "K": "LKJ", "L": "VC", "A": "ASTRK"}


class Desc:
    """Declarations [kind, id, parent, name, ...]:
    E; P value; K; L root pose mass; V material geom; C geom; J relations; A; S type params; T params; R (port)
    geom: [type, values, name] or ["ref", target, extra levels]; relation: [type, direction, target, transformation, axis]
    transformation: [translation, rotation or None, 'd' | 'r' | ''].
    Declarations whose parent or targets are missing are left out, so any sub-list is a description."""

    def __init__(self, ops, export=False):
        """export: joints to nested graphs that have no base link are left out as well"""
        self.items = {}
        self.root = None
        for op in ops:
            kind, id, parent = op[0], op[1], op[2]
            if kind == "E":
                if self.root is None:
                    self.root = self.items[id] = Item(op, None)
                continue
            p = self.items.get(parent)
            if p is None or kind not in HOLDS.get(p.kind, ""):
                continue
            if kind in "VC" and p.op[6] is None:
                continue
            it = Item(op, p)
            if kind in "VC":
                g = op[-1]
                if g[0] == "ref" and not self.usable(it, g[1]):
                    continue
            if kind == "J":
                it.rels = [r for r in op[4] if r[2] == "world" or r[2] in self.items and self.way(it, r[2]) and
                           not (export and self.items[r[2]].kind == "K" and not self.base(self.items[r[2]]))]
                if not it.rels:
                    continue
            p.kids.append(it)
            self.items[id] = it

    @staticmethod
    def base(g):
        """links of a graph that are no child of its joints"""
        child = {r[2] for j in g.of("J") for r in j.rels if r[1] in ("->", "--")}
        return [l for l in g.of("L") if l.id not in child]

    def way(self, j, t):
        """names that lead from the container of a joint to the target, if it lies below"""
        t = self.items[t]
        n = len(j.parent.path)
        return t.path[n:] if t is not j.parent and t.path[:n] == j.parent.path else None

    def usable(self, part, target):
        t = self.items.get(target)
        return t is not None and t.kind in "VC" and t.name is not None and len(t.path) == len(part.path)

    def all(self, *kinds):
        return [i for i in (self.root.walk() if self.root else []) if i.kind in kinds]

    # values

    def num(self, tok):
        if tok.startswith("{"):
            p = self.items.get(tok[1:-1])
            return float(p.op[4]) if p is not None else 1.0
        return float(tok)

    def nums(self, toks):
        return [self.num(t) for t in toks]

    def rad(self, tr):
        if tr[1] is None:
            return [0.0, 0.0, 0.0]
        v = self.nums(tr[1])
        return [x * math.pi / 180 for x in v] if tr[2] == "d" else v

    def shape(self, part):
        """(type, numbers) of a visual or collision, following references"""
        g = part.op[-1]
        while g[0] == "ref":
            g = self.items[g[1]].op[-1]
        return g[0], self.nums(g[1])

    # text

    def referred(self):
        """ids of what is referred to by name"""
        out = set()

        def vec(v):
            out.update(t[1:-1] for t in v or [] if t.startswith("{"))
        for it in self.all("J", "L", "V", "C"):
            if it.kind == "J":
                for t, d, r, tr, ax in it.rels:
                    x = self.items.get(r)
                    while x is not None and x is not it.parent:     # the target, and what leads to it
                        out.add(x.id)
                        x = x.parent
                    vec(ax)
                    for v in (tr or [])[:2]:
                        vec(v)
            elif it.kind == "L":
                for v in (it.op[5] or [])[:2]:
                    vec(v)
                if it.op[6] is not None:
                    vec(it.op[7] if it.op[7:] else None)
            elif it.op[-1][0] == "ref":
                out.add(it.op[-1][1])
            else:
                vec(it.op[-1][1])
        return sorted(i for i in out if i in self.items)

    def text(self, rng, moved=None):
        """moved: what is declared under another name than the references use"""
        def dn(it):
            return it.name + "_moved" if it.id == moved else it.name

        def sep():
            return rng.choice([" ", " ", " ", ", ", ",", "\n"])

        def ws():
            r = rng.random()
            return " " if r < 0.7 else "\n" if r < 0.9 else " // note { [ }\n" if r < 0.95 else " /* joint x: { */ "

        def tok(t):
            if t.startswith("{"):
                p = self.items.get(t[1:-1])
                return "{" + p.name + "}" if p is not None else "1.0"
            return t

        def vec(v):
            return "[" + "".join((sep() if i else "") + tok(t) for i, t in enumerate(v)) + "]"

        def field(v):
            # a single parameter may stand for the whole vector
            if len(v) == 1 and v[0].startswith("{") and tok(v[0]).startswith("{") and rng.random() < 0.5:
                return tok(v[0])
            return vec(v)

        def trans(t):
            if t[1] is None:
                return "[" + vec(t[0]) + "]"
            return "[" + vec(t[0]) + rng.choice(["", " ", ","]) + t[2] + vec(t[1]) + "]"

        def geom(it):
            g = it.op[-1]
            if g[0] == "ref":
                a, b = it.path, self.items[g[1]].path
                n = len(a)
                common = next((i for i in range(n) if a[i] != b[i]), n)
                d = min(n - 1, n - min(common, n - 1) + g[2])
                return "{" + "{" + "/".join(b[n - d:]) + "}" + "}"
            return "{" + ws() + g[0] + " " + (g[2] + " " if g[2] else "") + field(g[1]) + "}"

        def params(ps):
            return "".join("\n " + p for p in ps)

        def body(it):
            out, block = [], []
            for k in it.kids:
                if k.kind == "P":
                    block.append(f"{dn(k)} = {k.op[4]}")
                    continue
                if block:
                    out.append("parameters {" + ws() + "\n".join(block) + "}")
                    block = []
                out.append(render(k))
            if block:
                out.append("parameters {" + ws() + "\n".join(block) + "}")
            return "{" + ws() + ws().join(out) + ws() + "}"

        def ref(j, t):
            return "{world}" if t == "world" else "{" + "/".join(self.way(j, t)) + "}"

        def render(it):
            o = it.op
            if it.kind == "E":
                return "entity " + dn(it) + ws() + body(it)
            if it.kind == "K":
                return "kinematic " + dn(it) + ws() + body(it)
            if it.kind == "A":
                return "ambient " + it.name + ws() + body(it)
            if it.kind == "L":
                s = ("root " if o[4] else "") + "link " + dn(it)
                if o[5]:
                    s += " @ " + trans(o[5])
                if o[6] is not None:
                    s += ws() + "{" + ws() + "inertia {mass " + o[6] + (" inertia " + field(o[7]) if o[7:] and o[7] else "") + "}" + ws() + ws().join(render(k) for k in it.kids) + "}"
                return s
            if it.kind == "V":
                return "visual" + (" " + dn(it) if it.name else "") + (f" (material {o[4]})" if o[4] else "") + " " + geom(it)
            if it.kind == "C":
                return "collision" + (" " + dn(it) if it.name else "") + " " + geom(it)
            if it.kind == "J":
                s = "joint " + it.name + ":"
                for t, d, r, tr, ax in it.rels:
                    s += f" {t} {d} " + ref(it, r)
                    if tr:
                        s += " " + trans(tr)
                    if ax:
                        s += " | " + vec(ax)
                return s
            if it.kind == "S":
                return f"sensor {it.name} {o[4]} " + "{" + params(o[5]) + "}"
            if it.kind == "T":
                return f"actuator {it.name} " + "{" + params(o[4]) + "}"
            if it.kind == "R":
                return f'port {it.name} : "/{it.name}" ("std_msgs/Float") ' + "{}"
            raise AssertionError(it.kind)
        return render(self.root) + "\n"


# ---------------------------------------------------------------- generation

class Gen:
    """Declarations of one description, in the order of the text."""

    def __init__(self, rng, tag, full, names=None, entity="robot"):
        """full: everything that can be read; otherwise what can be exported"""
        self.rng, self.tag, self.full = rng, tag, full
        self.ops, self.n = [], 0
        self.params = []
        self.parts = []         # named visuals and collisions: id, depth
        self.pool = names or ["base", "arm", "wheel", "tire", "ball", "link_01", "link_02", "body", "tip", "x", "seg7", "leg",
                              "world_1", "worldly", "underworld", "World"]
        self.entity = entity
        self.inside = {}        # graph -> what can be reached in it

    def id(self):
        self.n += 1
        return f"{self.tag}{self.n}"

    def emit(self, *op):
        self.ops.append(list(op))
        return op[1]

    def val(self, pool=FLOATS):
        if self.params and self.rng.random() < 0.15:
            return "{" + self.rng.choice(self.params) + "}"
        return self.rng.choice(pool)

    def vec(self, n=3, pool=FLOATS):
        return [self.val(pool) for _ in range(n)]

    def trans(self):
        r = self.rng
        n = r.choice([1, 2, 4, 5]) if self.full and r.random() < 0.06 else 3
        return [self.vec(n), None if r.random() < 0.35 else self.vec(3, ANGLES), r.choice(["d", "d", "r", ""])]

    def name(self, used):
        r = self.rng
        for _ in range(20):
            n = r.choice(self.pool)
            if r.random() < 0.2:
                n += "_" + str(r.randrange(1, 30))
            if n not in used:
                break
        else:
            n = f"n{len(used)}_{self.n}"
        used.add(n)
        return n

    def generate(self):
        r = self.rng
        e = self.emit("E", self.id(), None, self.entity)
        used = {"parameters"}
        pn = set()
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            p = self.id()
            n = self.name(pn).upper()
            if pn and r.random() < 0.3:         # names that are part of one another
                o = r.choice(sorted(pn)).upper()
                n = r.choice([o + "_" + n, n + "_" + o, o + "2", "N" + o])
            if pn and r.random() < 0.15:        # or differ in case only
                n = r.choice(sorted(pn)).swapcase()
            if n not in pn and n != "world":
                pn.add(n)
                self.emit("P", p, e, n, r.choice(SIZES + ["-5", "4", "12"]))
                self.params.append(p)
        tops = []
        for _ in range(r.choice([1, 1, 1, 2])):
            g = self.graph(e, used, 2, r.choice([0, 1, 1, 2, 2, 3]))[0]
            tops.append(g)
            if r.random() < (0.25 if self.full else 0.05):
                self.ambient(e, used, 2, 1)
        if r.random() < (0.3 if self.full else 0.05):
            self.ambient(e, used, 2, 2)
        if self.full and r.random() < 0.25:         # joints of the entity itself
            for _ in range(r.choice([1, 1, 2])):
                a, b = ([r.choice([g, *self.inside[g]])] for g in (r.choice(tops), r.choice(tops)))
                if a != b:
                    self.joint(e, used, a if r.random() < 0.8 else ["world"], b)
        return self.ops

    def graph(self, parent, used, depth, nest):
        """a kinematic graph; returns (id, ids of its links)"""
        r = self.rng
        n = self.name(used)
        g = self.emit("K", self.id(), parent, n)
        inner = set()
        subs = []
        if nest:
            for _ in range(r.choice([0, 1, 1, 2])):
                subs.append(self.graph(g, inner, depth + 1, nest - 1)[0])
        links = []
        k = r.choice([1, 2, 3, 3, 4, 5]) if depth > 2 or r.random() > 0.02 else r.choice([15, 24, 40])
        for i in range(k):
            ln = n if i == 0 and r.random() < 0.06 and n not in inner else None
            if ln:
                inner.add(ln)
            links.append(self.link(g, ln or self.name(inner), depth + 1))
        jn = inner          # names are unique in a container
        order = list(links)
        if r.random() < 0.3:
            r.shuffle(order)
        joints = []
        for i in range(1, len(order)):
            if r.random() < 0.85:
                joints.append(([order[r.randrange(i)]], [order[i]]))
        for _ in range(r.choice([0, 0, 0, 0, 1]) if len(joints) < 12 else r.choice([0, 1, 9])):      # several children of one joint
            if len(joints) > 1:
                p, c = joints.pop()
                joints[-1] = (joints[-1][0], joints[-1][1] + c)
        if r.random() < 0.3 and not (depth > 2 and not self.full):
            joints.append((["world"], [order[0]]))
        if len(order) > 2 and r.random() < 0.15 and depth == 2:     # a loop
            joints.append(([order[-1]], [order[0]]))
        if r.random() < 0.1 and len(order) > 2:
            joints.append((order[:2], [order[2]]))
        if r.random() < 0.06 and len(order) > 1 and (depth == 2 or self.full):
            joints.append((r.choice([["world", order[0]], [order[0], "world"]]), [order[1]]))
        for s in subs:
            for _ in range(r.choice([0, 1, 1, 2])):
                joints.append(([r.choice(links)], [s]))
            if self.full and r.random() < 0.2:      # by its path: a link inside a graph that lies inside
                joints.append(([r.choice(links)], [r.choice(self.inside[s])]) if r.random() < 0.7 else ([r.choice(self.inside[s])], [r.choice(links)]))
        r.shuffle(joints)
        for ps, cs in joints:
            self.joint(g, jn, ps, cs)
        self.inside[g] = links + [x for s in subs for x in self.inside[s] + [s]]
        return g, links

    def joint(self, g, used, parents, children):
        r = self.rng
        n = self.name(used) if r.random() < 0.3 else f"j{r.choice(['', '_'])}{len(used)}"
        used.add(n)
        rels = [[r.choice(JOINTS), "<-", p, self.trans() if r.random() < 0.05 else None, None] for p in parents]
        for c in children:
            d = "--" if self.full and r.random() < 0.1 else "->"
            rels.append([r.choice(JOINTS), d, c, self.trans() if r.random() < 0.7 else None,
                         self.vec(r.choice([1, 2, 4, 6]) if self.full and r.random() < 0.08 else 3) if r.random() < 0.6 else None])
        if self.full and r.random() < 0.1:
            r.shuffle(rels)
        self.emit("J", self.id(), g, n, rels)

    def link(self, g, name, depth):
        r = self.rng
        l = self.id()
        mass = r.choice(SIZES) if r.random() < 0.9 else None
        iner = self.vec(r.choice([1, 3, 6, 6])) if r.random() < 0.06 else None
        self.emit("L", l, g, name, r.random() < 0.3, self.trans() if r.random() < 0.5 else None, mass, iner)
        if mass is None:
            return l
        used, bare = set(), set()
        for _ in range(r.choice([0, 1, 2, 2, 3, 4]) if r.random() > 0.01 else r.choice([9, 15])):
            k = r.choice("VC")
            nm = None
            if r.random() < 0.3 and k not in bare:
                bare.add(k)
            else:
                nm = self.name(used)
            same = [p for p, d in self.parts if d == depth + 1]
            i = self.id()
            if same and r.random() < 0.4:
                geom = ["ref", r.choice(same), r.choice([0, 0, 0, 1])]
            else:
                t = r.choice(GEOMS + (["mesh"] if self.full and r.random() < 0.3 else []))
                cnt = {"cylinder": 2, "polyhedron": r.choice([1, 3, 3]), "ellipsoid": r.choice([1, 3]), "mesh": r.choice([1, 3, 3, 4, 6])}[t]
                geom = [t, self.vec(cnt, SIZES), r.choice([None, None, "shape"])]
                if any(v.startswith("{") and float(self.param(v)) <= 0 for v in geom[1]):
                    geom[1] = [r.choice(SIZES) for _ in geom[1]]
            if k == "V":
                self.emit("V", i, l, nm, r.choice(MATERIALS + [None, None]), geom)
            else:
                self.emit("C", i, l, nm, geom)
            if nm:
                self.parts.append((i, depth + 1))
        return l

    def param(self, tok):
        return next(o[4] for o in self.ops if o[1] == tok[1:-1])

    def ambient(self, parent, used, depth, nest):
        r = self.rng
        a = self.emit("A", self.id(), parent, self.name(used))
        inner = set()
        ps = ["double power = 40.0", "int width = 12", "int offset = -3", 'string format = "RGB"', "vec gain = [1.0, 2.0]"]
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            k = r.choice("SSTTRAK")
            if k == "S":
                self.emit("S", self.id(), a, self.name(inner), r.choice(SENSORS), r.sample(ps, r.choice([0, 1, 2])))
            elif k == "T":
                self.emit("T", self.id(), a, self.name(inner), r.sample(ps, r.choice([0, 1, 2])))
            elif k == "R":
                self.emit("R", self.id(), a, self.name(inner))
            elif nest:
                if k == "A":
                    self.ambient(a, inner, depth + 1, nest - 1)
                elif self.full:
                    self.graph(a, inner, depth + 1, 0)


# ---------------------------------------------------------------- the hypergraph it must become

def close(a, b):
    a, b = [float(x) for x in a], [float(x) for x in b]
    return len(a) == len(b) and all(math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-12) for x, y in zip(a, b))


def subtree(el):
    out, seen, todo = [], set(), [el]
    while todo:
        e = todo.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        out.append(e)
        todo.extend(e.get_subelements(lambda x: True))
    return out


class GraphOracle:

    def __init__(self, desc, root, what):
        from rei.format.semantics import CognitiveEntity as S
        from rei.hypergraph import base_elements as B
        from rei.hypergraph.common_definitions import EnumRelationDirection as D
        self.S, self.B = S, B
        self.dir = {"<-": D.INWARDS, "->": D.OUTWARDS, "--": D.BIDIRECTIONAL}
        self.d, self.root, self.what = desc, root, what
        self.obj = {}

    def need(self, cond, msg, *a):
        need(cond, "{}: {}", self.what, msg.format(*a))

    def sem(self, el, cls):
        """values of the kind that belong to the element itself or to its parts"""
        return [x for x in subtree(el) if isinstance(x, cls)]

    def direct(self, el, cls):
        return list(el.get_subelements(lambda x: isinstance(x, cls)))

    def check(self):
        d, root = self.d, self.root
        self.need(root is not None, "no entity came out")
        self.node(d.root, root)
        for j in d.all("J"):
            self.joint(j)
        for p in d.all("V", "C"):
            self.geometry(p)
        S, B = self.S, self.B
        everything = subtree(root)
        links, joints, parts = d.all("L"), d.all("J"), d.all("V", "C")
        own = [p for p in parts if p.op[-1][0] != "ref"]
        want = dict(CognitiveEntity=1, KinematicGraphDefinition=len(d.all("K")), KinematicLink=len(links),
                    KinematicJoint=sum(len(j.rels) for j in joints), VisualMaterial=len(d.all("V")), InertiaElement=sum(l.op[6] is not None for l in links),
                    GeometryNode=len(own),
                    RigidTransformation=sum(l.op[5] is not None for l in links) + sum(r[3] is not None for j in joints for r in j.rels))
        for k, n in want.items():
            got = sum(isinstance(x, getattr(S, k)) for x in everything)
            self.need(got == n, "{} {} instead of {}", got, k, n)
        nodes = sum(isinstance(x, B.HypergraphNode) for x in everything)
        n = len(d.all("E", "K", "L", "V", "C", "A", "S", "T")) + len(parts)
        self.need(nodes == n, "{} nodes instead of {}", nodes, n)
        edges = [x for x in everything if isinstance(x, B.HypergraphEdge)]
        n = len(joints) + len(parts) - len(own)
        self.need(len(edges) == n, "{} edges instead of {}", len(edges), n)

    def node(self, it, el):
        S, B = self.S, self.B
        self.obj[it.id] = el
        self.need(isinstance(el, B.HypergraphNode), "{} is no node", it.name)
        if it.name is not None:
            self.need(el.id_name == it.name, "{} is called {}", it.name, el.id_name)
            if None not in it.path:
                self.need(el.qualified_name == "/".join(it.path), "{} has the qualified name {}", "/".join(it.path), el.qualified_name)
        kind = {"E": S.CognitiveEntity, "K": S.KinematicGraphDefinition, "L": S.KinematicLink}.get(it.kind)
        if kind:
            sv = self.direct(el, kind)
            self.need(len(sv) == 1, "{} holds {} {}", it.name, len(sv), kind.__name__)
            self.need(sv[0]["name"] == it.name, "the {} of {} is named {}", kind.__name__, it.name, sv[0]["name"])
        if it.kind == "L":
            self.link(it, el)
        named = [k for k in it.kids if k.kind in "KLVCAST" and k.name is not None]
        bare = [k for k in it.kids if k.kind in "VC" and k.name is None]
        left = self.direct(el, B.HypergraphNode)
        for k in named:
            m = [x for x in left if x.id_name == k.name]
            self.need(len(m) == 1, "{} elements for {} declared in {}", len(m), k.name, it.name)
            left.remove(m[0])
            self.node(k, m[0])
        for k in bare:
            m = [x for x in left if bool(self.direct(x, S.VisualMaterial)) == (k.kind == "V")]
            self.need(len(m) == 1, "{} elements for the unnamed {} declared in {}", len(m), "visual" if k.kind == "V" else "collision", it.name)
            left.remove(m[0])
            self.node(k, m[0])
        self.need(not left or it.kind in "VC", "{} holds {}, which nothing declares", it.name, [x.id_name for x in left])
        if it.kind == "V":
            mat = self.sem(el, S.VisualMaterial)
            self.need(len(mat) == 1, "{} materials for {}", len(mat), it.path)
            self.need(mat[0]["material_name"] == (it.op[4] or "white"), "material {} for {}, declared {}", mat[0]["material_name"], it.path, it.op[4])

    def rigid(self, holder, tr, who):
        ts = self.direct(holder, self.S.RigidTransformation)
        self.need(len(ts) == (1 if tr else 0), "{} transformations for {}", len(ts), who)
        if tr:
            t = ts[0]
            self.need(close(t["translation"], self.d.nums(tr[0])), "translation {} for {}, declared {}", t["translation"], who, tr[0])
            rot = [float(x) for x in t["rotation"]]
            if t["rotation_type"] == "deg":
                rot = [x * math.pi / 180 for x in rot]
            self.need(close(rot, self.d.rad(tr)), "rotation {} {} for {}, declared {} {}", t["rotation"], t["rotation_type"], who, tr[2], tr[1])

    def link(self, it, el):
        S = self.S
        self.rigid(self.direct(el, S.KinematicLink)[0], it.op[5], it.path)
        iner = self.direct(el, S.InertiaElement)
        self.need(len(iner) == (it.op[6] is not None), "{} inertia elements for {}", len(iner), it.path)
        if iner:
            self.need(float(iner[0]["mass"]) == float(it.op[6]), "mass {} for {}, declared {}", iner[0]["mass"], it.path, it.op[6])

    def joint(self, it):
        S, B = self.S, self.B
        el = self.obj[it.parent.id]
        es = [e for e in self.direct(el, B.HypergraphEdge) if e.id_name == it.name]
        self.need(len(es) == 1, "{} edges for joint {}", len(es), it.path)
        self.obj[it.id] = es[0]
        rels = list(es[0].sub_relations)
        self.need(len(rels) == len(it.rels), "{} relations for joint {} instead of {}", len(rels), it.path, len(it.rels))
        for rel, (t, d, ref, tr, ax) in zip(rels, it.rels):
            who = f"joint {it.path} at {ref if ref == 'world' else self.d.items[ref].name}"
            if ref == "world":
                self.need(rel.endpoint.id_name == "world" and rel.endpoint.parent is None, "{} ends at {}", who, rel.endpoint.qualified_name)
            else:
                self.need(rel.endpoint is self.obj[ref], "{} ends at {} ({})", who, rel.endpoint.qualified_name, type(rel.endpoint).__name__)
            self.need(rel.direction == self.dir[d], "{}: {} instead of {}", who, rel.direction, d)
            sv = self.direct(rel, S.KinematicJoint)
            self.need(len(sv) == 1 and sv[0].parent is rel, "{} has {} joint values", who, len(sv))
            self.need(rel.semantic_value_node is sv[0], "{}: the relation refers to another value", who)
            sv = sv[0]
            self.need(sv["joint_type"] == t, "{}: type {} instead of {}", who, sv["joint_type"], t)
            if ax:
                self.need(sv["axis"] is not None and close(sv["axis"], self.d.nums(ax)), "{}: axis {}, declared {}", who, sv["axis"], ax)
            else:
                self.need(sv["axis"] is None, "{}: axis {}, none declared", who, sv["axis"])
            self.rigid(sv, tr, who)
            if tr:
                self.need(rel.weight is not None and len(rel.weight) == 2 and close(rel.weight[0], self.d.nums(tr[0])) and
                          close(rel.weight[1], self.d.rad(tr)), "{}: the relation carries {}", who, rel.weight)
            else:
                self.need(rel.weight is None, "{}: the relation carries {}", who, rel.weight)

    def geometry(self, it):
        S, B = self.S, self.B
        el = self.obj[it.id]
        inner = self.direct(el, B.HypergraphNode)
        self.need(len(inner) == 1, "{} holds {} geometries", it.path, len(inner))
        g = inner[0]
        geo = self.direct(g, S.GeometryNode)
        if it.op[-1][0] == "ref":
            self.need(not geo, "{} has a geometry of its own", it.path)
            es = {id(p.endpoint.parent): p.endpoint.parent for p in g.sub_ports}
            self.need(len(es) == 1, "the reference of {} became {} edges", it.path, len(es))
            e = list(es.values())[0]
            out = [r.endpoint for r in e.get_outgoing_relations()]
            inc = [r.endpoint for r in e.get_incoming_relations()]
            want = self.obj[it.op[-1][1]]
            self.need(len(out) == 1 and out[0] is want, "{} refers to {} instead of {}", it.path, [x.qualified_name for x in out], want.qualified_name)
            self.need(len(inc) == 1 and inc[0] is g, "the reference of {} belongs to {}", it.path, [x.qualified_name for x in inc])
        else:
            t, v, _ = it.op[-1]
            self.need(len(geo) == 1, "{} geometry values for {}", len(geo), it.path)
            self.need(type(geo[0]).__name__.lower() == t + "geometry", "{} for {}, declared {}", type(geo[0]).__name__, it.path, t)
            self.need(geo[0]["values"] is not None and close(geo[0]["values"], self.d.nums(v)), "{} {} for {}, declared {}", t, geo[0]["values"], it.path, v)


def fingerprint(root, depth=0):
    """everything a description decides about a graph, as plain data"""
    from rei.hypergraph.base_elements import HypergraphPort, HypergraphRelation
    from rei.hypergraph.value_node import SemanticValueNode, ValueNode
    d = [type(root).__name__]
    if isinstance(root, HypergraphRelation):
        d += [root.endpoint.qualified_name, str(root.direction), str(root.weight)]
    elif isinstance(root, HypergraphPort):
        d.append(root.id_name.split(".")[0])
    else:
        d.append(root.id_name)      # names of relations hold a clock reading, and so do the paths below them
    if isinstance(root, SemanticValueNode):
        d += [[k, str(root[k])] for k in ("name", "joint_type", "axis", "mass", "material_name", "values", "translation", "rotation", "rotation_type")]
    if isinstance(root, ValueNode):
        d += [str(root.get_values())]
    d.append([fingerprint(x, depth + 1) for x in root.get_subelements(lambda x: True)])
    return d


# ---------------------------------------------------------------- the document it must be exported to

class DocOracle:

    def __init__(self, desc, what, changes=()):
        self.d, self.what = desc, what
        self.over = {}
        for c in changes:
            self.over[tuple(c[:2])] = c[2]

    def need(self, cond, msg, *a):
        need(cond, "{}: {}", self.what, msg.format(*a))

    # -- what the description asks for

    def links_of(self, g):
        return g.of("L")

    def roots(self, g):
        return self.d.base(g)

    def jtype(self, j, i):
        t = self.over.get((f"{j.id}.{i}", "joint_type"), j.rels[i][0])
        return {"fix": "fixed", "rev": "revolute", "tr": "prismatic"}[t]

    def expect(self, canon):
        """({link name: spec}, [joint spec]); canon: names of the document's joints, graph id -> link chosen for it"""
        links, joints = {}, []
        for g in self.d.root.of("K"):
            self.instance(g, "", links, joints, canon, None)
        return links, joints

    def instance(self, g, prefix, links, joints, canon, base):
        pre = lambda s: prefix + "." + s if prefix else s
        for l in g.of("L"):
            frames = []
            loose = False
            for j in g.of("J"):
                inc = [r for r in j.rels if r[1] in ("<-", "--") and r[2] != "world"]
                if any(r[1] == "--" and r[2] == l.id for r in j.rels):
                    loose = True
                if inc and any(r[1] == "->" and r[2] == l.id for r in j.rels):
                    frames.append(pre(f"{j.name}.{l.name}"))
            if not frames and base is not None:
                if l is base and (len(g.of("L")) == 1 or any(r[1] == "<-" and r[2] == l.id for j in g.of("J") for r in j.rels)):
                    frames = [pre("connect." + l.name)]
                else:
                    loose = True        # one more root of a nested graph: nothing says where it is
            links.setdefault(pre(l.name), []).append((l, frames, loose))
        for j in g.of("J"):
            for a, p in enumerate(j.rels):
                if p[1] not in ("<-", "--"):
                    continue
                for b, c in enumerate(j.rels):
                    if c[1] not in ("->", "--") or c[2] == p[2]:
                        continue
                    pn = "world" if p[2] == "world" else self.d.items[p[2]].name
                    spec = dict(parent=pre(pn), type=self.jtype(j, b), axis=self.over.get((f"{j.id}.{b}", "axis")) or
                                (self.d.nums(c[4]) if c[4] else [0.0, 0.0, 1.0]), pose=c[3])
                    t = self.d.items.get(c[2])
                    if t is not None and t.kind == "K":
                        root = self.pick(t, pre(j.name), canon)
                        spec.update(name=pre(f"{j.name}.connect.{root.name}"), child=pre(f"{j.name}.{root.name}"))
                        joints.append(spec)
                        self.instance(t, pre(j.name), links, joints, canon, root)
                    else:
                        cn = "world" if c[2] == "world" else t.name
                        spec.update(name=pre(f"{j.name}.{cn}"), child=pre(cn))
                        joints.append(spec)

    def pick(self, g, name, canon):
        """which base link the document connects for this instance of a nested graph: any of them, but always the same"""
        rs = self.roots(g)
        m = [l for l in rs if f"{name}.connect.{l.name}" in canon["names"]]
        m = m[0] if m else canon.get(g.id, rs[0])
        self.need(canon.setdefault(g.id, m) is m, "one instance of {} is connected at {} and another at {}", g.path, canon[g.id].name, m.name)
        return m

    # -- what the document says

    def floats(self, el, path, n, who):
        x = el.find(path) if path else el
        self.need(x is not None and x.text, "{} is missing for {}", path, who)
        try:
            v = [float(s) for s in x.text.split()]
        except ValueError:
            self.need(False, "{} of {} is {!r}", path, who, x.text)
        self.need(n is None or len(v) == n, "{} of {} is {!r}", path, who, x.text)
        return v

    def check(self, model):
        d = self.d
        self.need(model.tag == "model" and model.get("name") == d.root.name, "the model is <{} name={}>", model.tag, model.get("name"))
        kinds = [x.tag for x in model]
        self.need(set(kinds) <= {"link", "joint"}, "the model holds {}", sorted(set(kinds)))
        joints = model.findall("joint")
        links, want = self.expect({"names": {j.get("name") for j in joints}})
        got = {}
        for l in model.findall("link"):
            got.setdefault(l.get("name"), []).append(l)
        for n in links:
            self.need(len(got.get(n, [])) == len(links[n]), "{} links called {} instead of {}", len(got.get(n, [])), n, len(links[n]))
        for n in got:
            self.need(n in links, "link {} is not declared", n)
        for n, specs in links.items():
            if len(specs) == 1:
                self.link(n, got[n][0], *specs[0])
        key = lambda s: (s["name"], s["parent"], s["child"])
        gj = [dict(name=j.get("name"), parent=j.findtext("parent"), child=j.findtext("child"), el=j) for j in joints]
        names = sorted(map(lambda s: [str(x) for x in key(s)], gj))
        wn = sorted(map(lambda s: [str(x) for x in key(s)], want))
        self.need(names == wn, "joints (name, parent, child): {} missing, {} not declared", [x for x in wn if x not in names] or "none",
                  [x for x in names if x not in wn] or ("some twice" if len(names) != len(wn) else "none"))
        for g in gj:
            specs = [s for s in want if key(s) == key(g)]
            if len(specs) == 1:
                self.joint(g["el"], specs[0])

    def pose(self, el, tr, who, over=None):
        ps = el.findall("pose")
        if tr is None:
            self.need(all(close(self.floats(p, None, 6, who), [0.0] * 6) for p in ps), "{} has the pose {}", who, [p.text for p in ps])
            return ps[0] if ps else None
        self.need(len(ps) == 1, "{} poses for {}", len(ps), who)
        want = (over or self.d.nums(tr[0])) + self.d.rad(tr)
        v = self.floats(ps[0], None, 6, who)
        self.need(close(v, want), "pose {} for {} instead of {}", v, who, want)
        return ps[0]

    def link(self, name, el, it, frames, loose):
        p = self.pose(el, it.op[5], f"link {name}", self.over.get((it.id, "translation")))
        if p is not None and not loose:
            rel = p.get("relative_to")
            self.need(rel in frames if frames else rel is None, "the pose of link {} is relative to {} instead of {}", name, rel, frames or None)
        parts = it.of("V", "C")
        for tag, kind in (("visual", "V"), ("collision", "C")):
            els, want = el.findall(tag), [x for x in parts if x.kind == kind]
            self.need(len(els) == len(want), "{} {} elements in link {} instead of {}", len(els), tag, name, len(want))
            names = [x.get("name") for x in els]
            for e, w in zip(els, want):
                who = f"{tag} {w.name} of link {name}"
                pre = name[:-len(it.name)]
                self.need(e.get("name") is not None and e.get("name").startswith(pre) and not e.get("name")[len(pre):].startswith("."),
                          "{} is called {}", who, e.get("name"))
                if w.name is not None:
                    self.need(e.get("name").split(".")[-1].endswith(w.name), "{} is called {}", who, e.get("name"))
                self.shape(e, w, who)
                if kind == "V":
                    m = e.findall("material")
                    self.need(len(m) == 1, "{} materials for {}", len(m), who)
                    t = m[0].findtext("script/name")
                    c = self.over.get((w.id, "material_name")) or w.op[4] or "white"
                    self.need(m[0].findtext("script/uri") == "file://media/materials/scripts/gazebo.material", "the material of {} is in {}", who,
                              m[0].findtext("script/uri"))
                    self.need(t == "Gazebo/" + c.capitalize(), "material {} for {}, declared {}", t, who, c)
                else:
                    self.need(not e.findall("material"), "{} has a material", who)
        self.inertia(name, el, it, parts)
        self.need(set(x.tag for x in el) <= {"pose", "visual", "collision", "inertial"}, "link {} holds {}", name, sorted({x.tag for x in el}))

    def dims(self, part):
        g, owner = part.op[-1], part
        while g[0] == "ref":
            owner = self.d.items[g[1]]
            g = owner.op[-1]
        return g[0], self.over.get((owner.id, "values")) or self.d.nums(g[1])

    def shape(self, el, part, who):
        gs = el.findall("geometry")
        self.need(len(gs) == 1, "{} geometries for {}", len(gs), who)
        t, v = self.dims(part)
        kids = list(gs[0])
        self.need(len(kids) == 1, "{} shapes for {}", len(kids), who)
        k = kids[0]
        if t == "cylinder":
            self.need(k.tag == "cylinder", "{} is a {}", who, k.tag)
            got = self.floats(k, "radius", 1, who) + self.floats(k, "length", 1, who)
        elif t == "polyhedron":
            self.need(k.tag == "box", "{} is a {}", who, k.tag)
            got = self.floats(k, "size", 3, who)
            v = v * 3 if len(v) == 1 else v
        elif len(v) == 1:
            self.need(k.tag == "sphere", "{} is a {}", who, k.tag)
            got = self.floats(k, "radius", 1, who)
        else:
            self.need(k.tag == "ellipsoid", "{} is a {}", who, k.tag)
            got = self.floats(k, "radii", 3, who)
        self.need(close(got, v), "{} {} for {}, declared {}", k.tag, got, who, v)

    def inertia(self, name, el, it, parts):
        ins = el.findall("inertial")
        mass = it.op[6]
        self.need(len(ins) == (mass is not None), "{} inertial elements in link {}", len(ins), name)
        if mass is None:
            return
        m = float(self.over.get((it.id, "mass"), mass))
        got = self.floats(ins[0], "mass", 1, f"link {name}")
        self.need(close(got, [m]), "mass {} of link {}, declared {}", got, name, m)
        i = ins[0].findall("inertia")
        self.need(len(i) == 1, "{} inertia elements in link {}", len(i), name)
        v = [self.floats(i[0], x, 1, f"link {name}")[0] for x in ("ixx", "iyy", "izz", "ixy", "ixz", "iyz")]
        if not parts:
            return
        t, s = self.dims(parts[0])
        if t == "cylinder":
            r, l = s
            a = m * (3 * r * r + l * l) / 12
            want = [a, a, m * r * r / 2]
        elif t == "polyhedron":
            x, y, z = s * 3 if len(s) == 1 else s
            want = [m * (y * y + z * z) / 12, m * (x * x + z * z) / 12, m * (x * x + y * y) / 12]
        else:
            a, b, c = s * 3 if len(s) == 1 else s
            want = [m * (b * b + c * c) / 5, m * (a * a + c * c) / 5, m * (a * a + b * b) / 5]
        self.need(close(v, want + [0.0] * 3), "inertia {} of link {} for a {} {} of mass {} instead of {}", v, name, t, s, m, want)

    def joint(self, el, spec):
        who = f"joint {spec['name']}"
        self.need(el.get("type") == spec["type"], "{} is {} instead of {}", who, el.get("type"), spec["type"])
        self.need(close(self.floats(el, "axis/xyz", 3, who), spec["axis"]), "{} has the axis {} instead of {}", who, el.findtext("axis/xyz"), spec["axis"])
        p = self.pose(el, spec["pose"], who)
        if p is not None and spec["pose"] is not None:
            self.need(p.get("relative_to") == spec["parent"], "the pose of {} is relative to {} instead of {}", who, p.get("relative_to"), spec["parent"])
        self.need(len(el.findall("parent")) == 1 and len(el.findall("child")) == 1 and len(el.findall("axis")) == 1 and
                  {x.tag for x in el} <= {"parent", "child", "axis", "pose"}, "{} holds {}", who, [x.tag for x in el])
