"""World B: identifiers, incidence and the factory connectors (P08-P10)."""
import atexit
import itertools
import json
import os
import subprocess
import sys

from .. import repo
from ..base import Injected, Machinery, Violation, injected, need
from ..simclock import MODES, make_clock
from ..world import CONTAINERS, DIRS, HistGen, M, World, show, uid_of
from .hier import Hier, Probe, REAL, STUBS, diff

# -- P09 ------------------------------------------------------------------------------------


INCIDENCE = {"BIDIRECTIONAL": [1.0, 1.0], "INWARDS": [1.0, 0.0], "OUTWARDS": [0.0, 1.0]}


def check_incidence(w, when, ids=None):
    nm = w.name_of
    for i in (ids if ids is not None else list(w.m)):
        e = w.m[i]
        if e.kind == "edge":
            o = w.obj[i]
            want = [k for k in e.kids if w.m[k].kind == "rel"]
            got = [nm(r) for r in o.sub_relations]
            need(got == want, "{}: {} lists the relations {} instead of {}", when, i, got, want)
            need([nm(x) for x in o.induced_subset] == [w.m[k].ep for k in want], "{}: endpoints of {} are {} instead of {}",
                 when, i, [nm(x) for x in o.induced_subset], [w.m[k].ep for k in want])
            for acc, ok in ((o.get_incoming_relations, ("INWARDS", "BIDIRECTIONAL")), (o.get_outgoing_relations, ("OUTWARDS", "BIDIRECTIONAL"))):
                got = [nm(r) for r in acc()]
                ww = [k for k in want if w.m[k].dir in ok]
                need(got == ww, "{}: {} of {} gives {} instead of {}", when, acc.__name__, i, got, ww)
        if e.kind in ("edge", "node"):
            o = w.obj[i]
            got = sorted((str(nm(p)), str(nm(p.endpoint))) for p in o.sub_ports)
            want = sorted((k, w.m[k].target) for k in e.kids if w.m[k].kind == "port")
            need(got == want, "{}: {} has the ports (port, relation) {} instead of {}", when, i, got, want)
        if e.kind == "rel":
            o = w.obj[i]
            for _ in range(2):      # the second time after a holder has changed what it was handed
                v = o.relation_incidence_value
                need([float(x) for x in v] == INCIDENCE[e.dir], "{}: incidence values of {} ({}) are {}", when, i, e.dir, list(v))
                v[:] = 7.0
            need(nm(o.endpoint) == e.ep and o.direction.name == e.dir, "{}: {} leads {} to {} instead of {} to {}", when, i,
                 o.direction.name, nm(o.endpoint), e.dir, e.ep)
            need(nm(o.weight) == e.weight, "{}: weight of {} is {} instead of {}", when, i, nm(o.weight), e.weight)
            need(nm(o.semantic_value_node) == e.sem, "{}: semantic value of {} is {}", when, i, nm(o.semantic_value_node))


class _P09(Probe):
    def after(self, w, op, expect):
        if len(w.m) <= 150:
            check_incidence(w, show(op))
        else:
            near = set(w.affected)
            for i in list(near):
                near.update(x for x in (w.m[i].parent, w.m[i].ep, w.m[i].target) if x)
            check_incidence(w, show(op), list(near)[:80])
        w.ctx.state([(i, list(e.kids), e.parent) for i, e in w.m.items() if e.kind in ("edge", "rel", "port")])

    def mid(self, w, op):
        near = set(w.affected)
        for i in list(near):
            near.update(x for x in (w.m[i].parent, w.m[i].ep, w.m[i].target) if x)
        check_incidence(w, show(op) + " half way", list(near)[:40])

    def end(self, w):
        check_incidence(w, "at the end")


class P09(Hier):
    pid = "P09"
    probe = _P09
    quick_runs = 15000
    weights = dict(new=8, connect=16, disc=4, rmrel=5, rmport=3, addrel=5, rm=5, add=6, dereg=2, readd=2, twin=1, resume=1, clk=0.5, self=0.3, newrel=3, bad=0.5)
    state_measure = "digest of edges, relations and ports after an operation"
    rule = ("a run is a random history of connecting, disconnecting, removing, re-adding and moving relations, edges and "
            "endpoints (refusals and stalled clocks included) beside an incidence model, every edge, relation and endpoint "
            "compared after each operation; non-trivial: a connection was made and later a relation, port, edge or endpoint "
            "was removed or moved")

    def run(self, case, ctx):
        super().run(case, ctx)
        ctx.nontrivial = ctx.ops["connect"] > 0 and any(ctx.ops[k] for k in ("disc", "rmport", "rm", "addrel", "add", "dereg"))

    def gen(self, rng, index, tier):
        c = super().gen(rng, index, tier)
        return c


# -- P10 ------------------------------------------------------------------------------------

class Requests(World):
    """World with factory connectors. [id, "fconn", kind, container, name, eps, dirs, vals, sems, fault]"""

    def new_obj(self, op, kind, name, uuid, clock, parent, via, extra):
        if kind == "node" and via == "faulty":
            return self.faulty()(name, uuid, f"q/{name}", self.clocks[clock], self.obj.get(parent))
        return super().new_obj(op, kind, name, uuid, clock, parent, via, extra)

    def faulty(self):
        """A node whose storage of ports can be made to fail: the fault a full or broken endpoint would show."""
        if not hasattr(self, "_faulty"):
            class Faulty(self.be.HypergraphNode):
                armed = False

                def add_element(self, element):
                    if type(self).armed and not self.__dict__.get("_quiet"):
                        raise injected("endpoint refuses", sum(repr(element.id_name).encode()))
                    super().add_element(element)
            self._faulty = Faulty
        return self._faulty

    # [id, "fano", name]: the sample graph
    def pre_fano(self, op):
        return "ok"

    def op_fano(self, op, expect):
        fano(self, op)

    def request(self, op):
        id, _, kind, cont, name, eps, dirs, vals, sems, fault = op
        if cont is None or not self.ex(cont) or self.m[cont].kind not in CONTAINERS or self.m[cont].clock is None:
            return None
        eps = [e for e in eps if e is None or e in self.m]
        if any(e is not None and self.m[e].kind in ("rel", "port") for e in eps):
            return None
        if cont in [e for e in eps if e and isinstance(self.obj[e], self.faulty())]:
            return None
        return eps

    def usable(self, op, eps):
        id, _, kind, cont, name, _, dirs, vals, sems, fault = op
        seen = set()
        for e in eps:
            if e is None or self.m[e].kind not in ("node", "edge") or self.m[e].uuid in seen:
                return False
            seen.add(self.m[e].uuid)
            if fault == "endpoint" and isinstance(self.obj[e], self.faulty()):
                return False
        return True

    def nvals(self, op, eps):
        vals = op[7]
        if vals is None:
            return None
        v = [x if x in self.m and self.m[x].kind == "value" else None for x in vals[:len(eps)]]
        v += [None] * (len(eps) - len(v))
        if op[9] == "short":
            v = v[:-1]
        if op[9] == "long":
            v = v + [None]
        return v

    def pre_fconn(self, op):
        eps = self.request(op)
        if eps is None:
            return "skip"
        if op[9] == "short" and not eps:
            return "skip"
        if op[2] != "tuple" and op[9] in ("short", "long") and op[7] is not None and op[2] != "dir":
            return "refuse"
        if not self.usable(op, eps) or (op[9] == "badsem" and op[2] == "tuple" and eps):
            return "refuse"
        if op[4].startswith("=") and self.modes - {"tick", "unit", "jump"}:
            return "either"
        return "ok"

    def op_fconn(self, op, expect):
        id, _, kind, cont, name, _, dirs, vals, sems, fault = op
        eps = self.request(op)
        D = self.cd.EnumRelationDirection
        C = self.obj[cont]
        f = self.factory(0)
        O = [self.obj[e] if e is not None else None for e in eps]
        nv = self.nvals(op, eps)
        V = [self.obj[v] if v is not None else None for v in nv] if nv is not None else None
        S = [s if s is not None and s in self.m and self.m[s].kind == "sem" and self.m[s].parent is None else None
             for s in (sems + [None] * len(eps))[:len(eps)]]
        S = [s if s is None or S.index(s) == i else None for i, s in enumerate(S)]
        bad = dirs[-1] % len(eps) if fault == "badsem" and eps else None
        cut = dirs[-1] % (len(eps) + 1)
        nm = name[1:] if name.startswith("=") else f"{name}_{id}"
        if kind == "nodes":
            want = [(e, DIRS[dirs[0]], v, None) for e, v in zip(eps, nv or [None] * len(eps))]
        elif kind == "two":
            want = [(e, DIRS[dirs[0] if i < cut else dirs[1]], v, None) for i, (e, v) in enumerate(zip(eps, nv or [None] * len(eps)))]
        elif kind == "dir":
            want = [(e, "INWARDS" if i < cut else "OUTWARDS", None, None) for i, e in enumerate(eps)]
        else:
            nvv = (nv or []) + [None] * (len(eps) + 1)
            want = [(e, DIRS[dirs[i % len(dirs)] % 3], nvv[i], S[i]) for i, e in enumerate(eps)]
        self.faulty().armed = fault == "endpoint"
        if fault:
            self.ctx.fault("request_" + fault)
        try:
            if kind == "nodes":
                he = f.connect_nodes(C, nm, O, D[DIRS[dirs[0]]], V) if dirs[0] != 2 or V is not None else f.connect_nodes(C, nm, O)
            elif kind == "two":
                he = f.connect_2factor_edges(C, nm, O[:cut], O[cut:], (D[DIRS[dirs[0]]], D[DIRS[dirs[1]]]), V)
            elif kind == "dir":
                he = f.connect_dir_edges(C, nm, O[:cut], O[cut:])
            else:
                he = f.connect_tuple_nodes(C, nm, [(o, D[d], self.obj[v] if v else None,
                                                    "no semantic value" if i == bad else self.obj[s] if s else None)
                                                   for i, (o, (_, d, v, s)) in enumerate(zip(O, want))])
        finally:
            self.faulty().armed = False
        if expect == "refuse":
            return
        need(isinstance(he, self.be.HypergraphEdge) and he.id_name == nm, "{}: no edge named {} was returned", show(op), nm)
        need(he.parent is C, "{}: the edge is not in its container", show(op))
        new = [x for x in self.obj[cont].get_subelements(lambda x: True) if x not in self.byobj]
        new_edges = [x for x in new if not isinstance(x, self.be.HypergraphPort)]
        need(new_edges == [he], "{}: the container gained {} elements instead of one edge", show(op), len(new_edges))
        rels = list(he.sub_relations)
        got = [(self.name_of(r.endpoint), r.direction.name, self.name_of(r.weight), self.name_of(r.semantic_value_node)) for r in rels]
        need(got == want, "{}: relations are {} instead of {}", show(op), got, want)
        self.register(id, he, M(id, "edge", nm, he.uuid, self.m[cont].clock))
        self.attach(id, cont)
        for n, (r, (e, d, v, s)) in enumerate(zip(rels, want)):
            rid = f"r{id}.{n}"
            rm = M(rid, "rel", r.id_name, r.uuid)
            rm.ep, rm.dir, rm.weight, rm.sem = e, d, v, s
            rm.cls = id
            self.register(rid, r, rm)
            self.attach(rid, id)
            ports = [x for x in self.obj[e].sub_ports if x.endpoint is r]
            need(len(ports) == 1, "{}: endpoint {} has {} ports for its relation", show(op), e, len(ports))
            pid = f"p{id}.{n}"
            pm = M(pid, "port", ports[0].id_name, ports[0].uuid)
            pm.target = rid
            self.register(pid, ports[0], pm)
            self.attach(pid, e)
            if s is not None:
                need(r.semantic_value_node.parent is r, "{}: the semantic value is not held by its relation", show(op))
                self.attach(s, rid)


def strip(snap, w):
    """What a connector may touch and what must stay: semantic values are handed over with the request."""
    out = {}
    for i, s in snap.items():
        if w.m[i].kind == "sem":
            s = {k: v for k, v in s.items() if k not in ("parent", "qn", "depth", "cid")}
        out[i] = s
    return out


class _P10(Probe):
    def before(self, w, op, expect):
        self.n = len(w.m)
        self.snap = strip(w.snapshot(), w) if op[1] == "fconn" else None

    def after(self, w, op, expect):
        if op[1] != "fconn":
            return
        if expect == "refuse":
            d = diff(self.snap, strip(w.snapshot(), w))
            need(d is None, "{} was refused, yet {}", show(op), d)
        else:
            eps = {w.m[k].ep for k in w.m[op[0]].kids}
            cont = op[3]
            now = strip(w.snapshot(), w)
            old = {k: v for k, v in self.snap.items() if k not in eps and k != cont}
            d = diff(old, {k: now[k] for k in old})
            need(d is None, "{}: {}", show(op), d)
            check_incidence(w, show(op), [op[0]] + list(w.m[op[0]].kids) + sorted(eps))
        w.digest_state()

    def end(self, w):
        check_incidence(w, "at the end")


def fano(w, op):
    """The sample graph: seven points, seven lines, any two points on exactly one line."""
    from rei.hypergraph.sample_graphs.fano_graph import create_fano_graph
    _, root, nodes, edges = create_fano_graph(op[2], w.clocks[0])
    need(len(set(map(id, nodes))) == 7 and len(set(map(id, edges))) == 7, "{}: {} points and {} lines", show(op), len(nodes), len(edges))
    need(all(x.parent is root for x in nodes + edges) and root.cnt_subelements == 14 and root.parent is None and root.id_name == op[2],
         "{}: points and lines are not all in the context", show(op))
    pairs = {}
    for e in edges:
        eps = [r.endpoint for r in e.sub_relations]
        need(len(eps) == 3 and all(any(x is n for n in nodes) for x in eps), "{}: line {} leads to {}", show(op), e.id_name, [x.id_name for x in eps])
        need(all(r.direction == w.cd.EnumRelationDirection.BIDIRECTIONAL for r in e.sub_relations), "{}: line {} is directed", show(op), e.id_name)
        for a, b in itertools.combinations(sorted(x.id_name for x in eps), 2):
            pairs[a, b] = pairs.get((a, b), 0) + 1
    need(len(pairs) == 21 and set(pairs.values()) == {1}, "{}: pairs of points and their lines: {}", show(op), pairs)
    for n in nodes:
        need(len(list(n.sub_ports)) == 3, "{}: point {} has {} ports", show(op), n.id_name, len(list(n.sub_ports)))


class P10(Hier):
    pid = "P10"
    probe = _P10
    quick_runs = 15000
    clocks = 1
    stubs = STUBS + ["endpoints whose port storage fails (subclass of the real node)"]
    rule = ("a run is a random graph and history with 2-10 connector requests: all four connectors, any endpoints, directions, "
            "weights and semantic values, and a fault per refused request (wrong number of values, unusable or repeated endpoint "
            "at a chosen position, endpoint that fails while being connected); non-trivial: at least one request was made")

    def gen(self, rng, index, tier):
        g = HistGen(rng, dict(new=8, connect=2, rmrel=1, add=2, rm=1, chain=0.2, dereg=0.3, clk=0.5), clocks=1,
                    kinds={"node": 7, "edge": 2, "item": 1, "value": 3, "sem": 2},
                    names=rng.choice([["a"], ["a", "b"], ["a", "b", "c", "x.y"]]))
        g.generate(rng.randint(5, 12))
        for _ in range(rng.randrange(3)):
            id = g.nid()
            g.emit(id, "new", "node", rng.choice(g.names), g.pick("node"), "faulty", 0, None)
            g.ids["node"].append(id)
        many = index % 60 == 7
        if many:
            g.g_wide(rng)
            g.ids["node"] += [x for o in g.ops if o[1] == "fan" for i in range(1, o[2]) for x in [f"{o[0]}.{i}"] if x not in g.ids["node"]]
        faulty = [o[0] for o in g.ops if o[1] == "new" and o[5] == "faulty"]
        for n in range(rng.randint(2, 10 if tier == "quick" else 25)):
            for _ in range(rng.choice([0, 0, 1, 2])):
                g.step()
            k = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6]) if not many or rng.random() < 0.5 else rng.choice([12, 17, 33, 65, 130])
            pool = g.ids["node"] + g.ids["edge"]
            eps = rng.sample(pool, min(k, len(pool)))
            fault = rng.choices([None, "short", "long", "dup", "none", "alien", "endpoint", "badsem"], [8, 1, 1, 1, 1, 1, 1.5, 0.7])[0]
            at = rng.randint(0, len(eps))
            if fault == "dup" and eps:
                eps.insert(at, rng.choice(eps))
            if fault == "none":
                eps.insert(at, None)
            if fault == "alien":
                a = g.pick("value", "sem")
                if a:
                    eps.insert(at, a)
            if fault == "endpoint" and faulty:
                f = rng.choice(faulty)
                if f not in eps:
                    eps.insert(at, f)
            kind = rng.choice(["nodes", "two", "dir", "tuple"]) if fault != "badsem" else "tuple"
            vals = [g.pick("value") if rng.random() < 0.8 else None for _ in eps] if rng.random() < 0.6 or fault in ("short", "long") else None
            sems = [g.pick("sem") if rng.random() < 0.4 else None for _ in eps]
            if rng.random() < 0.03:
                g.emit(g.nid(), "fano", rng.choice(g.names))
            id = g.nid()
            dirs = [rng.randrange(3), rng.randrange(3), rng.randrange(8)]
            cont, name = g.pick("node", "node", "edge"), rng.choice(g.names)
            if rng.random() < 0.25:
                # the name of an earlier request, often in its container too
                old = [o for o in g.ops if o[1] == "fconn"]
                o = rng.choice(old) if old else None
                name = "=" + (o[4].lstrip("=") if o else name)
                cont = o[3] if o and rng.random() < 0.8 else cont
            g.emit(id, "fconn", kind, cont, name, eps, dirs, vals, sems, fault)
            g.ids["edge"].append(id)
            g.ids["rel"] += [f"r{id}.{i}" for i in range(len(eps))]
        return dict(ops=g.ops, cfg=dict(modes=[rng.choice(MODES)], wseed=rng.randrange(10**9)))

    def run(self, case, ctx):
        w = Requests(ctx, case["cfg"]["wseed"], clocks=1, modes=case["cfg"]["modes"], probe=self.probe())
        w.run(case["ops"])
        w.probe.end(w)
        ctx.nontrivial = ctx.ops["fconn"] > 0


# -- P08 ------------------------------------------------------------------------------------

SEM_TYPES = ["cognitive_entity", "kinematic_graph", "kinematic_link", "kinematic_joint", "cylinder_geometry",
             "polyhedron_geometry", "ellipsoid_geometry", "material", "rigid_transformation", "inertia_element"]


class _FakeTime:
    """time.time_ns / time.time of the process, for LocalClock."""

    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        import time
        self.t, self.old = time, (time.time_ns, time.time)
        time.time_ns = self.clock.get_time_ns
        time.time = self.clock.get_time_sec
        return self

    def __exit__(self, *a):
        self.t.time_ns, self.t.time = self.old
        return False


def p08_execute(case):
    """Runs the program on the real factories; returns plain records."""
    from rei.factories.foundation_factory import HypergraphFactory
    from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory
    from rei.foundations.clock import DummyClock, LocalClock
    from rei.foundations.common_errors import ErrorDuplicateElement
    from rei.hypergraph.common_definitions import EnumRelationDirection
    from rei.hypergraph.value_node import SemanticValueNode
    cfg = case["cfg"]
    sims = [make_clock(f"{cfg['wseed']}/{i}", m if m not in ("local", "dummy") else "tick",
                       cfg.get("start", 1_700_000_000_000_000_000)) for i, m in enumerate(cfg["clocks"])]
    loc = next((s for s, m in zip(sims, cfg["clocks"]) if m == "local"), sims[0])
    recs = []
    with _FakeTime(loc):
        probe = LocalClock()
        local_ok = probe.get_time_ns() == loc.now
        clocks = [LocalClock() if m == "local" and local_ok else DummyClock() if m == "dummy" else s for s, m in zip(sims, cfg["clocks"])]
        facs = [(HypergraphFactory if kind == "graph" else CognitiveEntitySemanticFactory)(name, clocks[c])
                for name, kind, c in cfg["facs"]]
        obj = {}

        def path(o):
            out = []
            while o is not None:
                out.append(o.id_name)
                o = o.parent
            return "/".join(reversed(out))

        for op in case["ops"]:
            id, k = op[:2]
            for s in sims:
                s.readings = []
            if k == "mk":
                _, _, f, kind, name, parent = op
                if parent is not None and parent not in obj:
                    continue
                fname, fkind, c = cfg["facs"][f]
                P = obj.get(parent)
                if (P is None and kind not in ("node", "value")) or (fkind == "sem") != (kind in SEM_TYPES):
                    continue
                if isinstance(P, SemanticValueNode) != (kind in SEM_TYPES and isinstance(P, SemanticValueNode)):
                    continue
                rec = dict(id=id, kind=kind, fac=f, fname=fname, path=path(P) if P is not None else None, name=name)
                try:
                    fac = facs[f]
                    if kind == "node":
                        o = fac.generate_node(name, P)
                    elif kind == "edge":
                        o = fac.create_hyperedge(P, name)
                    elif kind == "cedge":
                        o = fac.connect_nodes(P, name, [])
                    elif kind == "value":
                        o = fac.create_value(P, name, [1.0])
                    else:
                        o = fac.generate_semantic_element(kind, name, P, {"name": name})
                    obj[id] = o
                    rec["uuid"] = o.uuid.hex()
                except Exception as e:
                    rec["error"] = type(e).__name__
                # readings of the factory's clock; a DummyClock always reads 0
                rec["readings"] = [0] if isinstance(clocks[c], DummyClock) else list(loc.readings if isinstance(clocks[c], LocalClock) else sims[c].readings)
                recs.append(rec)
            elif k == "mv":
                if op[2] in obj and op[3] in obj and hasattr(obj[op[3]], "clock"):
                    try:
                        obj[op[3]].add_element(obj[op[2]])
                    except Exception:
                        pass
            elif k == "clk":
                sims[op[2] % len(sims)].mode = op[3]
            elif k == "conn":
                e, n, d = op[2:]
                if e in obj and n in obj and hasattr(obj[e], "unary_connect") and hasattr(obj[n], "connect") and e != n:
                    us = [o.uuid for o in obj.values()]
                    if us.count(obj[e].uuid) > 1 or us.count(obj[n].uuid) > 1:
                        continue
                    rec = dict(id=id, kind="conn", e=e, n=n)
                    before = set(map(_ident, obj[e].sub_relations))
                    try:
                        obj[e].unary_connect(obj[n], None, EnumRelationDirection[d])
                        new = [r for r in obj[e].sub_relations if _ident(r) not in before]
                        rec["rels"] = [r.uuid.hex() for r in new]
                        rec["ports"] = [p.uuid.hex() for p in obj[n].sub_ports if p.endpoint in new]
                    except Exception as ex:
                        rec["error"] = type(ex).__name__
                    recs.append(rec)
    for s in sims:
        s.readings = []
    return recs, sum(abs(s.now - 1_700_000_000_000_000_000) for s in sims) / 1e9


def _ident(o):
    return o.__hash__()


def p08_helper():
    repo.setup()
    out = sys.stdout
    for line in sys.stdin:
        repo.fresh()
        with repo.quiet():
            r = p08_execute(json.loads(line))
        out.write(json.dumps(r[0]) + "\n")
        out.flush()


_HELPER = {}


def other_process(case):
    pid = os.getpid()
    h = _HELPER.get(pid)
    if h is None or h.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED="4242", PYTHONPATH=repo.VERIF)
        h = subprocess.Popen([sys.executable, "-B", "-c", "from dst.worlds.incidence import p08_helper; p08_helper()"],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=repo.VERIF)
        _HELPER[pid] = h
        atexit.register(_end, h)
    h.stdin.write(json.dumps(case) + "\n")
    h.stdin.flush()
    line = h.stdout.readline()
    if not line:
        raise Machinery("helper process ended")
    return json.loads(line)


def _end(h):
    try:
        h.stdin.close()
        h.wait(2)
    except Exception:
        h.kill()


class P08:
    pid = "P08"
    quick_runs = 7000
    real = ["rei.factories", "rei.format.semantics.cognitive_entity_semantic_factory", "rei.foundations.identification",
            "rei.hypergraph.base_elements (relations, ports)", "rei.foundations.clock (DummyClock, LocalClock)"]
    stubs = ["clock (simulated); time.time_ns and time.time behind LocalClock"]
    assumptions = ["names are free of the path separator '/'"]
    state_measure = "digest of (path, name, identifier) records"
    rule = ("a run is a random program of factory calls (nodes, edges, values, semantic elements, connections) over 1-4 factories, "
            "moves and clock faults in between, executed twice in process and once in another process with another hash seed; "
            "non-trivial: at least two elements were created by one factory")

    def gen(self, rng, index, tier):
        nclk = rng.randint(1, 2)
        clocks = [rng.choice(MODES + ["stall", "stall", "local", "dummy"]) for _ in range(nclk)]
        facs = [[rng.choice(["f", "g"]), "graph", rng.randrange(nclk)]] + [[rng.choice(["f", "g", "fac.1"]), rng.choice(["graph", "sem", "sem"]), rng.randrange(nclk)]
                                                                            for _ in range(rng.randrange(4))]
        names = rng.choice([["a"], ["a", "b"], ["a", "a.1", "a.17", "b"], ["x", "xx", "x.x", "ñ"], ["n1", "n1.0", "n", "1.0", "n1.1700000000000000000"],
                            ["\u00f1", "\u00e9", "n", "\u65e5", "\u672c"], ["\u00e9", "e\u0301", "e", "\u00c9"], ["a", "A", "a ", " a", ""],
                            ["k" * 300 + "1", "k" * 300 + "2"], ["1", "01", "1.0", "+1"], ["a\x00", "a", "a\n", "a\t"], ["\u0131", "i", "I", "\u0130"], ["n", "n1", "n11", "n12", "n1112"]])
        start = rng.randrange(3) if rng.random() < 0.3 else None       # clocks that count from the start of the system
        if start is not None and rng.random() < 0.5:
            names = ["n", "n1", "n11", "n2", "n12"]
        ops, ids = [], []
        els = {"node": [], "edge": [], "sem": []}

        def pk(*ks):
            pool = [x for k in ks for x in els[k]]
            return rng.choice(pool) if pool else None
        for n in range(rng.randint(4, 40)):
            id = f"o{n}"
            r = rng.random()
            if r < 0.6 or n < 2:
                f = rng.randrange(len(facs))
                if facs[f][1] == "graph":
                    kind = rng.choice(["node", "node", "node", "edge", "cedge", "value"])
                    parent = pk("node", "edge") if rng.random() < 0.8 else None
                else:
                    kind, parent = rng.choice(SEM_TYPES), pk("node", "edge", "sem")
                ops.append([id, "mk", f, kind, rng.choice(names), parent])
                k = {"cedge": "edge"}.get(kind, kind if kind in els else "sem")
                if kind != "value":
                    els[k].append(id)
                ids.append(id)
            elif r < 0.8:
                e, p = pk("edge"), pk("node", "edge")
                if e and p:
                    ops.append([id, "conn", e, p, rng.choice(DIRS)])
            elif r < 0.9 and ids:
                ops.append([id, "mv", rng.choice(ids), pk("node", "edge") or ids[0]])
            else:
                ops.append([id, "clk", rng.randrange(nclk), rng.choice(MODES + ["stall"])])
        cfg = dict(clocks=clocks, facs=facs, wseed=rng.randrange(10**9))
        if start is not None:
            cfg["start"] = start
            if rng.random() < 0.7:
                cfg["clocks"] = [rng.choice(["unit", "unit", c]) for c in clocks]
        return dict(ops=ops, cfg=cfg)

    def run(self, case, ctx):
        a, t = p08_execute(case)
        ctx.simtime += t
        b, _ = p08_execute(case)
        c = other_process(case)
        for r in a:
            ctx.op("create_" + r["kind"] if r["kind"] != "conn" else "connect")
        for o in case["ops"]:
            if o[1] == "clk":
                ctx.fault("clock_" + o[3])
        for m in case["cfg"]["clocks"]:
            ctx.fault("clock_" + m)
        for what, x in (("fresh factories", b), ("another process", c)):
            need(len(x) == len(a), "the same program made {} elements, with {} it made {}", len(a), what, len(x))
            for r, s in zip(json.loads(json.dumps(a)), x):
                need(r == s, "the same factory name, path, name and clock reading give another identifier with {}: {} and {}", what, r, s)
        made = {}
        for r in a:
            if r["kind"] == "conn":
                continue
            key = (r["fname"], r["path"], r["name"])
            rd = set(r["readings"])
            if "error" in r:
                ctx.fault("refused_duplicate")
                twin = [s for s in made.get(key, []) if set(s["readings"]) & rd]
                need(twin and r["error"] == "ErrorDuplicateElement",
                     "creating {} {!r} in {} failed ({}) although no element has the same path, name and reading", r["kind"], r["name"], r["path"], r["error"])
                continue
            made.setdefault(key, []).append(r)
        by = {}
        for key, rs in made.items():
            for r in rs:
                other = by.setdefault((r["fac"], r["uuid"]), r)
                if other is not r:
                    same = (other["path"], other["name"]) == (r["path"], r["name"]) and set(other["readings"]) & set(r["readings"])
                    need(same, "one factory gave the same identifier to {} {!r} in {} and {} {!r} in {} (readings {} and {})",
                         other["kind"], other["name"], other["path"], r["kind"], r["name"], r["path"], other["readings"][:2], r["readings"][:2])
        els = {r["uuid"] for rs in made.values() for r in rs}
        seen = {}
        pairs = set()
        for r in a:
            if r["kind"] != "conn":
                continue
            again = (r["e"], r["n"]) in pairs
            if "error" in r:
                need(again, "connecting {} to {} failed: {}", r["e"], r["n"], r["error"])
                continue
            pairs.add((r["e"], r["n"]))
            need(len(r["rels"]) == 1 and len(r["ports"]) == 1, "connecting {} to {} made {} relations and {} ports", r["e"], r["n"], len(r["rels"]), len(r["ports"]))
            for what, u in (("relation", r["rels"][0]), ("port", r["ports"][0])):
                need(u not in els, "{} of {} to {} has the identifier of another element", what, r["e"], r["n"])
                need(u not in seen, "{} of {} to {} has the identifier of the {}", what, r["e"], r["n"], seen.get(u))
                seen[u] = f"{what} of {r['e']} to {r['n']}"
        ctx.state([(r.get("path"), r.get("name"), r.get("uuid")) for r in a])
        ctx.nontrivial = sum(len(x) for x in made.values()) > 1
