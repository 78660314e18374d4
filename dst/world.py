"""The hypergraph under test next to a small reference model (an ordered forest with relations).

A history is a list of operations [opid, kind, ...]. Operations name elements by the id of the
operation that created them, so dropping one operation keeps the meaning of the others; an
operation whose operands do not exist is skipped. The model predicts acceptance or refusal."""
import hashlib

from .base import Discard, Injected, Violation, need, rng_of
from .simclock import MODES, make_clock

CONTAINERS = ("node", "edge", "item")
CONCEPTUAL = ("node", "edge", "item")
NAMES = ["a", "b", "c", "node", "x.y", "wheel_1", "ñ", "a b"]
BAD = "!bad"
DIRS = ("INWARDS", "OUTWARDS", "BIDIRECTIONAL")


class M:
    __slots__ = ("id", "kind", "name", "uuid", "clock", "parent", "kids", "hist", "cid", "ep", "dir", "weight", "sem",
                 "target", "vals", "attrs", "cls", "direct", "origin")

    def __init__(self, id, kind, name, uuid, clock=None):
        self.id, self.kind, self.name, self.uuid, self.clock = id, kind, name, uuid, clock
        self.parent = None
        self.kids = {}
        self.hist = 0
        self.cid = None
        self.ep = self.dir = self.weight = self.sem = self.target = self.vals = self.attrs = self.cls = None
        self.direct = False


def uid_of(s):
    return hashlib.sha3_224(("dst/" + s).encode()).digest()


class World:

    anywhere = False    # elements of any kind are put into relations, ports and values, too

    def __init__(self, ctx, seed, clocks=1, modes=("tick",), probe=None):
        self.ctx = ctx
        self.obj = {}
        self.m = {}
        self.byobj = {}
        self.probe = probe
        self.clocks = [make_clock(f"{seed}/{i}", modes[i % len(modes)]) for i in range(clocks)]
        self.modes = {c.mode for c in self.clocks}
        self.fac = {}
        self.gens = {}
        self.events = []
        self.affected = set()
        from rei.hypergraph import base_elements as be, value_node as vn, common_definitions as cd
        from rei.foundations import conceptual_item as ci
        from rei.factories import foundation_factory as ff
        from rei.format.semantics import CognitiveEntity as ce
        self.be, self.vn, self.cd, self.ci, self.ff, self.ce = be, vn, cd, ci, ff, ce

    # ------------------------------------------------------------ model helpers
    def chain(self, id):
        """id and its ancestors"""
        out = []
        while id is not None:
            out.append(id)
            id = self.m[id].parent
        return out

    def path(self, id):
        return "/".join(self.m[x].name for x in reversed(self.chain(id)))

    def depth(self, id):
        return len(self.chain(id)) - 1

    def subtree(self, id):
        out, st = [], [id]
        while st:
            x = st.pop()
            out.append(x)
            st.extend(self.m[x].kids)
        return out

    def roots(self):
        return [i for i, e in self.m.items() if e.parent is None]

    def has_uuid(self, cont, uuid):
        return any(self.m[k].uuid == uuid for k in self.m[cont].kids)

    def attach(self, id, cont):
        e, c = self.m[id], self.m[cont]
        if e.parent is not None:
            self.detach(id)
        e.parent = cont
        e.cid = c.hist
        c.hist += 1
        c.kids[id] = None
        self.affected.update(self.subtree(id))

    def detach(self, id):
        e = self.m[id]
        p = e.parent
        del self.m[p].kids[id]
        e.parent = None
        self.affected.update(self.subtree(id))
        if e.kind == "rel" and self.m[p].kind == "edge":
            self.drop_port(id)

    def drop_port(self, rel):
        r = self.m[rel]
        for k in list(self.m[r.ep].kids):
            if self.m[k].kind == "port" and self.m[k].target == rel:
                self.detach(k)

    def register(self, id, obj, m):
        self.obj[id] = obj
        self.m[id] = m
        m.origin = obj.progenitor_qualified_name
        self.byobj[obj] = id   # identity hash: elements define no __eq__
        self.affected.add(id)

    def id_of(self, obj):
        return self.byobj.get(obj)

    # ------------------------------------------------------------ creating elements
    def new_obj(self, op, kind, name, uuid, clock, parent, via, extra):
        ck = self.clocks[clock] if clock is not None else None
        par = self.obj[parent] if parent is not None else None
        be = self.be
        if kind == "item":
            return self.ci.ConceptualItem(name, uuid, f"q/{name}", ck, par)
        if kind == "node":
            if via == "fac":
                return self.factory(clock).generate_node(name, par)
            return be.HypergraphNode(name, uuid, f"q/{name}", ck, par)
        if kind == "edge":
            if via == "fac" and par is not None:
                return self.factory(clock).create_hyperedge(par, name)
            return be.HypergraphEdge(name, uuid, f"q/{name}", ck, par)
        if kind == "value":
            if via == "fac":
                return self.factory(clock).create_value(par, name, extra)
            v = self.vn.ValueNode(uuid, name, f"q/{name}", extra)
            if par is not None:
                par.add_element(v)
            return v
        if kind == "sem":
            cls = getattr(self.ce, extra or "CognitiveEntity")
            v = cls(uuid, name, f"q/{name}", par, {"name": name})
            if par is not None:
                par.add_element(v)
            return v
        raise KeyError(kind)

    def factory(self, clock):
        if clock not in self.fac:
            self.fac[clock] = self.ff.HypergraphFactory("fac", self.clocks[clock])
        return self.fac[clock]

    # ------------------------------------------------------------ operations
    def run(self, ops):
        for op in ops:
            self.do(op)

    def do(self, op):
        self.affected = set()
        for c in self.clocks:
            c.readings = []
        f = getattr(self, "op_" + op[1])
        expect = self.predict(op)
        if expect == "skip":
            return
        self.ctx.op(op[1])
        if expect == "refuse":
            self.ctx.fault("refused_" + op[1])
        if self.probe is not None:
            self.probe.before(self, op, expect)
        try:
            f(op, expect)
            raised = None
        except (Violation, Discard):
            raise
        except Exception as e:
            raised = e
        if expect == "either":
            # identifiers made of clock readings may collide under this clock: refused as a whole, or done
            expect = "ok" if raised is None else "refuse"
        if expect == "ok" and raised is not None:
            raise Violation(f"{show(op)} failed: {type(raised).__name__}: {raised}")
        if expect == "refuse" and raised is None:
            raise Violation(f"{show(op)} must be refused but was accepted")
        self.events.append((op[1], expect))
        if self.probe is not None:
            self.probe.after(self, op, expect)

    # prediction is kept apart from execution: what the model says must happen
    def predict(self, op):
        return getattr(self, "pre_" + op[1])(op)

    def ex(self, *ids):
        return all(i is None or i in self.m for i in ids)

    # new elements: [id, "new", kind, name, parent, via, clock, extra]
    def pre_new(self, op):
        id, _, kind, name, parent, via, clock, extra = op
        if not self.ex(parent):
            return "skip"
        if parent is not None and self.m[parent].kind not in CONTAINERS:
            if not (kind == "sem" and self.m[parent].kind in ("sem", "rel", "value")):
                return "skip"
        if clock is None and kind in CONCEPTUAL:
            return "refuse"
        return "ok"

    def op_new(self, op, expect):
        id, _, kind, name, parent, via, clock, extra = op
        uuid = uid_of(id)
        if expect == "ok":
            # model first: uuid is filled in from the object (factories choose their own)
            o = self.new_obj(op, kind, name, uuid, clock, parent, via, extra)
            if via != "fac":
                need(o.uuid == uuid, "{}: identifier given at creation is not kept", show(op))
            m = M(id, kind, name, o.uuid, clock if kind in CONCEPTUAL else None)
            if kind == "edge" and via == "fac" and parent is not None:
                m.clock = self.m[parent].clock     # factories give an edge its container's clock
            m.vals = list(extra) if kind == "value" and extra is not None else ([] if kind == "value" else None)
            m.cls = extra if kind == "sem" else None
            self.register(id, o, m)
            if parent is not None:
                self.attach(id, parent)
        else:
            self.new_obj(op, kind, name, uuid, clock, parent, via, extra)

    # several nodes at once: [id, "newlist", names, parent, clock]
    def pre_newlist(self, op):
        return "ok" if self.ex(op[3]) and (op[3] is None or self.m[op[3]].kind in CONTAINERS) else "skip"

    def op_newlist(self, op, expect):
        id, _, names, parent, clock = op
        got = self.factory(clock).generate_list_nodes(list(names), self.obj.get(parent))
        need(len(got) == len(names), "{}: {} nodes for {} names", show(op), len(got), len(names))
        for i, (n, o) in enumerate(zip(names, got)):
            self.register(f"{id}.{i}", o, M(f"{id}.{i}", "node", n, o.uuid, clock))
            if parent is not None:
                self.attach(f"{id}.{i}", parent)

    # a second element with the same identifier: [id, "twin", of, clock]
    def pre_twin(self, op):
        return "ok" if op[2] in self.m and self.m[op[2]].kind in CONCEPTUAL else "skip"

    def op_twin(self, op, expect):
        id, _, of, clock = op[:4]
        kind = op[4] if len(op) > 4 else "node"
        t = self.m[of]
        cls = self.be.HypergraphEdge if kind == "edge" else self.be.HypergraphNode
        o = cls(t.name, t.uuid, "q/" + t.name, self.clocks[clock or 0])
        self.register(id, o, M(id, kind, t.name, t.uuid, clock or 0))

    # a long chain of nested nodes: [id, "chain", n, parent, clock]
    def pre_chain(self, op):
        return "ok" if self.ex(op[3]) and (op[3] is None or self.m[op[3]].kind in CONTAINERS) else "skip"

    def op_chain(self, op, expect):
        id, _, n, parent, clock = op
        prev = parent
        for i in range(n):
            nid = f"{id}.{i}" if i else id
            nm = "d" if i % 3 else "dd"
            o = self.be.HypergraphNode(nm, uid_of(nid), "q/" + nm, self.clocks[clock])
            self.register(nid, o, M(nid, "node", nm, o.uuid, clock))
            if prev is not None:
                self.obj[prev].add_element(o)
                self.attach(nid, prev)
            prev = nid

    # a wide family: [id, "fan", n, parent, clock, number of names]
    def pre_fan(self, op):
        return self.pre_chain(op)

    def op_fan(self, op, expect):
        id, _, n, parent, clock = op[:5]
        names = op[5] if len(op) > 5 else 7
        for i in range(n):
            nid = f"{id}.{i}" if i else id
            nm = f"f{i % names}"
            o = self.be.HypergraphNode(nm, uid_of(nid), "q/" + nm, self.clocks[clock],
                                       self.obj[parent] if parent is not None else None)
            self.register(nid, o, M(nid, "node", nm, o.uuid, clock))
            if parent is not None:
                self.attach(nid, parent)

    # an edge with many relations: [id, "star", n, edge, container of the new endpoints, clock]
    def pre_star(self, op):
        _, _, n, e, parent, clock = op
        if not self.ex(e, parent) or e is None or self.m[e].kind != "edge" or self.m[e].clock is None:
            return "skip"
        return "ok" if parent is None or self.m[parent].kind in CONTAINERS else "skip"

    def op_star(self, op, expect):
        id, _, n, e, parent, clock = op
        for i in range(n):
            nid, nm, d = f"{id}.{i}", f"s{i % 5}", DIRS[i % 3]
            o = self.be.HypergraphNode(nm, uid_of(nid), "q/" + nm, self.clocks[clock], self.obj.get(parent))
            self.register(nid, o, M(nid, "node", nm, o.uuid, clock))
            if parent is not None:
                self.attach(nid, parent)
            self.obj[e].unary_connect(o, None, self.cd.EnumRelationDirection[d])
            self.adopt_relation(op, nid, e, nid, d, None, None)

    def can_hold(self, child, cont):
        c, k = self.m[cont], self.m[child]
        if k.kind == "rel":
            return self.anywhere and c.kind not in ("edge", "port")     # into edges: addrel
        if k.kind == "port":
            return False
        if c.kind in CONTAINERS or self.anywhere:
            return True
        return k.kind == "sem" and c.kind in ("sem", "rel", "value")

    # [id, "add", child, container, how]
    def pre_add(self, op):
        _, _, child, cont, how = op
        if child is None or cont is None or not self.ex(child, cont) or not self.can_hold(child, cont):
            return "skip"
        if how == "register" and self.m[child].kind not in ("node", "edge"):
            return "skip"
        if self.m[cont].kind == "rel" and self.shadowed(cont, child):
            return "skip"
        if child in self.chain(cont) or self.has_uuid(cont, self.m[child].uuid):
            return "refuse"
        return "ok"

    def shadowed(self, rel, ep):
        """the element has a port for a successor of the relation: one made by the same edge for the same endpoint"""
        return any(self.m[k].kind == "port" and self.m[k].target != rel and self.m[self.m[k].target].uuid == self.m[rel].uuid
                   for k in self.m[ep].kids) or any(
            x.kind == "rel" and i != rel and x.uuid == self.m[rel].uuid and x.parent is not None for i, x in self.m.items())

    def foreign_port(self, child, rel):
        return next((k for k in self.m[child].kids if self.m[k].kind == "port" and self.m[k].target == rel), None)

    def op_add(self, op, expect):
        _, _, child, cont, how = op
        if how == "register":
            self.obj[child].register(self.obj[cont])
        else:
            self.obj[cont].add_element(self.obj[child])
        if expect == "ok":
            self.attach(child, cont)
            if self.m[cont].kind == "rel" and self.m[child].kind in ("node", "edge") and self.foreign_port(child, cont) is None:
                # what is put below a relation gets a port to it
                self.adopt_port(op, op[0], cont, child)

    # [id, "dereg", el]
    def pre_dereg(self, op):
        return "ok" if op[2] in self.m and self.m[op[2]].kind in ("node", "edge") else "skip"

    def op_dereg(self, op, expect):
        self.obj[op[2]].deregister()
        if self.m[op[2]].parent is not None:
            self.detach(op[2])

    # [id, "rm", how, target, container|None, k]: k elements consumed (None = all)
    def rm_args(self, op):
        _, _, how, target, cont, k = op
        if not self.ex(target, cont):
            return None
        t = self.m[target]
        c = t.parent if cont is None else cont
        if c is None or self.m[c].kind not in CONTAINERS + ("rel", "sem") and not self.anywhere:
            return None
        kids = [self.m[x] for x in self.m[c].kids]
        here = next((x for x in kids if x.uuid == t.uuid), None)
        named = [x for x in kids if x.name == t.name]
        if how == "u":
            return c, ("", t.uuid), [here.id] if here else None
        if how == "nu":
            return c, (t.name, t.uuid), [here.id] if here and here.name == t.name else None
        if how == "n":
            return c, (t.name, None), [x.id for x in named] or None
        if how == "mis":       # the identifier of one element with the name of another
            other = next((x.name for x in kids if x.name != t.name and x is not here), "no such name")
            return c, (other, t.uuid), None
        if how == "none":
            return c, ("", None), None
        if how == "ghost":     # neither name nor identifier known
            return c, ("no such name", None), None
        if how == "ghostu":
            return c, ("", b"no such identifier"), None
        return None

    def pre_rm(self, op):
        a = self.rm_args(op)
        if a is None:
            return "skip"
        c, args, victims = a
        if victims is None:
            return "refuse"
        return "ok"

    def op_rm(self, op, expect):
        c, args, victims = self.rm_args(op)
        k = op[5]
        g = self.obj[c].remove_element(*args) if args[1] is not None else self.obj[c].remove_element(args[0])
        if expect == "refuse":
            for _ in g:
                pass
            return
        got = []
        n = len(victims) if k is None else min(k, len(victims))
        for v in victims[:n]:
            e = next(g, None)
            need(e is not None, "{}: removal ended after {} of {} elements", show(op), len(got), len(victims))
            got.append(self.id_of(e))
            self.detach(v)
            if self.probe is not None and n > 1:
                self.probe.mid(self, op)
        need(got == victims[:n], "{}: removed {} instead of {}", show(op), got, victims[:n])
        if k is None:
            need(next(g, None) is None, "{}: removal yields more than the matching elements", show(op))
        else:
            # what happens to the rest of a half-consumed removal is left open, but it must be
            # consistent: an element is either still in place or fully removed
            for v in victims[n:]:
                if self.obj[v].parent is None:
                    self.detach(v)
            self.gens[op[0]] = (g, victims[n:], c) if n else (g, None, list(op))
            if n < len(victims):
                self.ctx.fault("abandoned_removal")

    # [id, "resume", opid]: continue a removal left half way, after other things happened
    def pre_resume(self, op):
        if op[2] not in self.gens:
            return "skip"
        g, rest, c = self.gens[op[2]]
        if rest is None:            # nothing was consumed yet: the removal happens now
            self.gens.pop(op[2])
        return "ok" if rest is not None else "skip"

    def op_resume(self, op, expect):
        g, rest, c = self.gens.pop(op[2])
        rest = [v for v in rest if self.m[v].parent == c]
        got = [self.id_of(e) for e in g]
        for v in rest:
            self.detach(v)
        need(sorted(map(str, got)) == sorted(rest), "{}: resumed removal removed {} instead of {}", show(op), got, rest)

    # [id, "drop", opid]: the consumer goes away
    def pre_drop(self, op):
        return "ok" if op[2] in self.gens else "skip"

    def op_drop(self, op, expect):
        g, rest, c = self.gens.pop(op[2])
        g.close()

    # [id, "connect", edge, endpoint, dir, weight, sem]
    def pre_connect(self, op):
        _, _, e, ep, d, w, s = op
        bad, s = s == BAD, None if s == BAD else s
        if not self.ex(e, ep, w, s) or self.m[e].kind != "edge" or e == ep and not self.anywhere:
            return "skip"
        nothing = self.m[ep].kind not in ("node", "edge")       # nothing that relations could end at
        if self.m[ep].kind not in ("node", "edge", "value", "item", "sem", "rel"):
            return "skip"
        if w is not None and self.m[w].kind != "value":
            return "skip"
        if s is not None and self.m[s].kind != "sem":
            return "skip"
        same = [k for k in self.m[e].kids if self.m[k].kind == "rel" and self.m[self.m[k].ep].uuid == self.m[ep].uuid]
        if any(x.kind == "rel" and x.cls != e and not x.direct and self.m[x.cls].uuid == self.m[e].uuid and self.m[x.ep].uuid == self.m[ep].uuid for x in self.m.values()):
            return "skip"       # another edge with this identifier has made a relation for this endpoint
        if any(x.kind == "rel" and x.cls == e and not x.direct and x.parent != e and self.m[x.ep].uuid == self.m[ep].uuid
               and (x.parent is not None or self.port_of(i) or self.foreign_port(ep, i)) for i, x in self.m.items()):
            return "skip"       # a relation made by this edge for this endpoint, which has gone to another edge
        if same:        # whether a relation made by other means stands in the way is left open
            return "skip" if all(self.m[k].direct or self.m[k].cls != e for k in same) else "refuse"
        if self.m[e].clock is None:
            return "skip"
        if s is not None and s in self.chain(e):
            return "refuse"
        return "refuse" if bad or nothing else "ok"

    def op_connect(self, op, expect):
        id, _, e, ep, d, w, s = op
        E, P = self.obj[e], self.obj[ep]
        E.unary_connect(P, self.obj.get(w), self.cd.EnumRelationDirection[d], "no semantic value" if s == BAD else self.obj.get(s))
        if expect == "ok":
            self.adopt_relation(op, id, e, ep, d, w, s)

    # [id, "newrel", edge, endpoint, direction, weight, name]: a relation made by itself and then added to the edge;
    # unlike connect this allows several relations of an edge to one endpoint
    def pre_newrel(self, op):
        e, ep, w = op[2], op[3], op[5]
        if not self.ex(e, ep, w) or self.m[e].kind != "edge" or self.m[ep].kind not in ("node", "edge") or e == ep and not self.anywhere:
            return "skip"
        return "skip" if w is not None and self.m[w].kind != "value" else "ok"

    def op_newrel(self, op, expect):
        id, _, e, ep, d, w = op[:6]
        name = op[6] if len(op) > 6 else "rel" + id
        r = self.be.HypergraphRelation(b"newrel" + id.encode(), name, "q/" + name, self.obj[ep], self.obj.get(w),
                                       direction=self.cd.EnumRelationDirection[d])
        self.obj[e].add_element(r)
        self.adopt_relation(op, id, e, ep, d, w, None)
        self.m["r" + id].direct = True

    def adopt_relation(self, op, id, e, ep, d, w, s):
        E, P = self.obj[e], self.obj[ep]
        new = [x for x in E.get_subelements(lambda x: True) if x not in self.byobj]
        rels = [x for x in new if not (e == ep and isinstance(x, self.be.HypergraphPort))]
        need(len(rels) == 1 and isinstance(rels[0], self.be.HypergraphRelation),
             "{}: the edge gained {} elements instead of one relation", show(op), len(rels))
        r = rels[0]
        rm = M("r" + id, "rel", r.id_name, r.uuid)
        rm.ep, rm.dir, rm.weight, rm.sem = ep, d, w, s
        rm.cls = e          # the edge it belongs to
        self.register("r" + id, r, rm)
        if new[0] is not r:     # an edge connected to itself may get its port before its relation
            self.adopt_port(op, id, "r" + id, None, r)
        self.attach("r" + id, e)
        if new[0] is r:
            self.adopt_port(op, id, "r" + id)
        if s is not None:
            self.attach(s, "r" + id)

    def adopt_port(self, op, id, rid, ep=None, but=None):
        ep = ep or self.m[rid].ep
        ports = [x for x in self.obj[ep].get_subelements(lambda x: True) if x not in self.byobj and x is not but]
        need(len(ports) == 1 and isinstance(ports[0], self.be.HypergraphPort),
             "{}: the endpoint gained {} elements instead of one port", show(op), len(ports))
        p = ports[0]
        pm = M("p" + id, "port", p.id_name, p.uuid)
        pm.target = rid
        self.register("p" + id, p, pm)
        self.attach("p" + id, ep)

    # [id, "disc", rel]: disconnect the relation's port at its endpoint
    def pre_disc(self, op):
        if op[2] not in self.m or self.m[op[2]].kind != "rel":
            return "skip"
        return "ok" if self.port_of(op[2]) else "skip"

    def port_of(self, rel):
        return next((k for k in self.m[self.m[rel].ep].kids if self.m[k].kind == "port" and self.m[k].target == rel), None)

    def op_disc(self, op, expect):
        rel = op[2]
        self.obj[self.m[rel].ep].disconnect(self.obj[rel])
        self.detach(self.port_of(rel))

    # [id, "rmport", rel]: the endpoint drops the port through its container operations
    def pre_rmport(self, op):
        return self.pre_disc(op)

    def op_rmport(self, op, expect):
        p = self.port_of(op[2])
        o = self.obj[p]
        got = list(self.obj[self.m[p].parent].remove_element(uuid=o.uuid))
        need(len(got) == 1 and got[0] is o, "{}: removing a port removed {}", show(op), [self.name_of(x) for x in got])
        self.detach(p)

    # [id, "addrel", rel, edge]: put a removed relation back, or into another edge
    def pre_addrel(self, op):
        r = op[2]
        if not self.ex(r) or self.m[r].kind != "rel":
            return "skip"
        e = self.m[r].cls
        if len(op) > 3 and op[3] is not None:
            e = op[3]
            if not self.ex(e) or self.m[e].kind != "edge":
                return "skip"
        if len(op) > 3 and ((self.m[r].parent is None or self.m[self.m[r].parent].kind != "edge") and self.port_of(r) or self.shadowed(r, self.m[r].ep) and not self.has_uuid(e, self.m[r].uuid)):
            return "skip"       # its endpoint was put below it, or has been connected again
        return "refuse" if self.has_uuid(e, self.m[r].uuid) or r in self.chain(e) else "ok"

    def op_addrel(self, op, expect):
        id, r = op[0], op[2]
        e = op[3] if len(op) > 3 and op[3] is not None else self.m[r].cls
        self.obj[e].add_element(self.obj[r])
        if expect == "ok":
            self.attach(r, e)
            self.adopt_port(op, id, r)

    # [id, "setval", value, i, x] / [id, "setvals", value, list]
    def pre_setval(self, op):
        return "ok" if op[2] in self.m and self.m[op[2]].kind == "value" and op[3] < len(self.m[op[2]].vals) else "skip"

    def op_setval(self, op, expect):
        self.obj[op[2]].update_value(op[3], op[4])
        self.m[op[2]].vals[op[3]] = op[4]

    def pre_setvals(self, op):
        return "ok" if op[2] in self.m and self.m[op[2]].kind == "value" else "skip"

    def op_setvals(self, op, expect):
        self.obj[op[2]].update_values(list(op[3]))
        self.m[op[2]].vals = list(op[3])

    # [id, "clk", i, mode]
    def pre_clk(self, op):
        return "ok" if op[2] < len(self.clocks) else "skip"

    def op_clk(self, op, expect):
        self.clocks[op[2]].mode = op[3]
        self.modes.add(op[3])
        self.ctx.fault("clock_" + op[3])

    # [id, "setclock", element, clock]: an element gets another clock
    def pre_setclock(self, op):
        return "ok" if op[2] in self.m and self.m[op[2]].kind in CONCEPTUAL and op[3] < len(self.clocks) else "skip"

    def op_setclock(self, op, expect):
        self.obj[op[2]].clock = self.clocks[op[3]]
        self.m[op[2]].clock = op[3]

    # reads: [id, "read", el]
    def pre_read(self, op):
        return "ok" if op[2] in self.m else "skip"

    def op_read(self, op, expect):
        self.snapshot_of(op[2])

    # ------------------------------------------------------------ observation through public accessors
    def kids_real(self, id):
        return list(self.obj[id].get_subelements(lambda x: True))

    def name_of(self, o):
        if o is None:
            return None
        i = self.id_of(o)
        return i if i is not None else f"?{type(o).__name__}:{getattr(o, 'id_name', '')}"

    def snapshot_of(self, id, timestamps=False):
        o, k = self.obj[id], self.m[id].kind
        s = {"parent": self.name_of(o.parent), "kids": [self.name_of(x) for x in self.kids_real(id)],
             "name": o.id_name, "uuid": o.uuid, "qn": o.qualified_name, "depth": o.depth, "cid": o.cid}
        s["origin"] = o.progenitor_qualified_name
        if k in CONCEPTUAL:
            s["cnt"] = o.cnt_subelements
            if timestamps:
                s["ts"] = o.timestamp
            names = {self.m[x].name for x in self.m[id].kids} | {x.id_name for x in self.kids_real(id)}
            s["lookup"] = {n: [self.name_of(x) for x in o.get_element_by_id_name(n)] for n in sorted(names) if "/" not in n}
        if k in ("node", "edge"):
            s["ports"] = [(self.name_of(x), self.name_of(x.endpoint)) for x in o.sub_ports]
        if k == "edge":
            s["rels"] = [(self.name_of(r), self.name_of(r.endpoint), r.direction.name) for r in o.sub_relations]
            s["in"] = [self.name_of(r) for r in o.get_incoming_relations()]
            s["out"] = [self.name_of(r) for r in o.get_outgoing_relations()]
            s["subset"] = [self.name_of(x) for x in o.induced_subset]
        if k == "node":
            s["sub"] = [[self.name_of(x) for x in g] for g in (o.sub_nodes, o.sub_edges, o.sub_values)]
        if k == "value":
            s["vals"] = (list(o.get_values()), o.dim, [o[i] for i in range(o.dim)])
        if k == "rel":
            s["ep"], s["dir"], s["w"] = self.name_of(o.endpoint), o.direction.name, self.name_of(o.weight)
        return s

    def snapshot(self, timestamps=False):
        return {i: self.snapshot_of(i, timestamps) for i in self.m}

    def digest_state(self):
        self.ctx.state([(i, e.parent, list(e.kids), e.cid) for i, e in self.m.items()])


def show(op):
    return "operation " + " ".join(str(x) for x in op)


# ---------------------------------------------------------------------------- history generator

class HistGen:
    """Draws histories. `weights` maps operation kinds to relative frequencies."""

    def __init__(self, rng, weights, clocks=1, names=NAMES, kinds=None, clock_modes=MODES):
        self.rng, self.weights, self.clocks, self.names = rng, weights, clocks, names
        self.kinds = kinds or {"node": 6, "edge": 2, "item": 2, "value": 2, "sem": 2}
        self.clock_modes = clock_modes
        self.twin_edges = False     # whether edges may share an identifier
        self.n = 0
        self.ids = {k: [] for k in ("node", "edge", "item", "value", "sem", "rel")}
        self.rmops = []
        self.ops = []

    def nid(self):
        self.n += 1
        return f"o{self.n}"

    def pick(self, *kinds):
        pool = [x for k in kinds for x in self.ids[k]]
        if not pool:
            return None
        if self.rng.random() < 0.4:     # recent ones more often
            return pool[-1 - min(int(self.rng.expovariate(0.5)), len(pool) - 1)]
        return self.rng.choice(pool)

    def emit(self, *a):
        self.ops.append(list(a))
        return a[0]

    def clock(self):
        return self.rng.randrange(self.clocks)

    def new(self, kind=None, parent=0, via=None, name=None):
        r = self.rng
        kind = kind or r.choices(list(self.kinds), list(self.kinds.values()))[0]
        id = self.nid()
        if parent == 0:
            parent = self.pick("node", "edge", "item") if r.random() < 0.85 else None
            if kind == "sem" and r.random() < 0.4:
                parent = self.pick("sem") or parent
        via = via or r.choice(["ctor", "ctor", "ctor", "fac"])
        name = name or r.choice(self.names)
        extra = None
        if via == "fac" and kind in ("node", "edge", "value"):
            name = f"{name}_{id}"      # identifiers of factories: see P08
        else:
            via = "ctor"
        if kind == "value":
            extra = [r.choice([0.0, 1.0, 2.5, -3, "t", True, [1, 2]]) for _ in range(r.randrange(4))]
        if kind == "sem":
            extra = r.choice(["CognitiveEntity", "KinematicLink", "KinematicJoint", "InertiaElement", "VisualMaterial"])
        self.emit(id, "new", kind, name, parent, via, self.clock(), extra)
        self.ids[kind].append(id)
        return id

    def step(self):
        r = self.rng
        k = r.choices(list(self.weights), list(self.weights.values()))[0]
        getattr(self, "g_" + k)(r)

    def generate(self, n, start=4):
        for _ in range(start):
            self.new(kind=self.rng.choice(["node", "node", "edge", "item"]))
        while len(self.ops) < n:
            self.step()
        return self.ops

    def g_new(self, r):
        self.new()

    def g_noclock(self, r):
        self.emit(self.nid(), "new", r.choice(["node", "edge", "item"]), r.choice(self.names),
                  self.pick("node", "item"), "ctor", None, None)

    def g_twin(self, r):
        of = self.pick("node", "edge", "item")
        if of:
            id = self.nid()
            kind = "edge" if self.twin_edges and of in self.ids["edge"] else "node"
            self.emit(id, "twin", of, self.clock(), *(["edge"] if kind == "edge" else []))
            self.ids[kind].append(id)

    def g_newlist(self, r):
        id = self.nid()
        n = r.choice([0, 1, 2, 3, 5])
        self.emit(id, "newlist", [f"{r.choice(self.names)}_{id}.{i}" for i in range(n)], self.pick("node", "item") if r.random() < 0.8 else None, self.clock())
        self.ids["node"] += [f"{id}.{i}" for i in range(n)]

    def g_setclock(self, r):
        x = self.pick("node", "edge", "item")
        if x:
            self.emit(self.nid(), "setclock", x, self.clock())

    def g_chain(self, r):
        id = self.nid()
        n = r.choice([3, 5, 8, 20])
        self.emit(id, "chain", n, self.pick("node", "item"), self.clock())
        self.ids["node"] += [id] + [f"{id}.{i}" for i in range(1, n)]

    def g_deep(self, r):
        if getattr(self, "deep_done", False):
            return
        self.deep_done = True
        id = self.nid()
        n = r.choice([300, 1100])
        self.emit(id, "chain", n, self.pick("node"), self.clock())
        self.ids["node"] += [id, f"{id}.{n // 2}", f"{id}.{n - 1}"]

    def g_fan(self, r):
        id = self.nid()
        n = r.choice([4, 10, 30])
        self.emit(id, "fan", n, self.pick("node", "item"), self.clock())
        self.ids["node"] += [id] + [f"{id}.{i}" for i in range(1, n)]

    def g_wide(self, r):
        if getattr(self, "wide_done", False):
            return
        self.wide_done = True
        id = self.nid()
        n = r.choice([70, 135, 260, 270, 530])
        self.emit(id, "fan", n, self.pick("node", "item"), self.clock(), r.choice([1, 2, 7, n]))
        self.ids["node"] += [id] + [f"{id}.{i}" for i in range(1, n) if i % 50 == 1 or i > n - 4]

    def g_star(self, r):
        e = self.pick("edge")
        if getattr(self, "star_done", False) or not e:
            return
        self.star_done = True
        id = self.nid()
        n = r.choice([20, 40, 70, 135, 260])
        self.emit(id, "star", n, e, self.pick("node") if r.random() < 0.8 else None, self.clock())
        some = [i for i in range(n) if i % 40 == 0 or i > n - 3]
        self.ids["node"] += [f"{id}.{i}" for i in some]
        self.ids["rel"] += [f"r{id}.{i}" for i in some]

    def g_add(self, r):
        a = self.pick("node", "edge", "item", "value", "sem")
        b = self.pick("node", "edge", "item") if r.random() < 0.9 else self.pick("rel", "sem", "value")
        if a and b:
            self.emit(self.nid(), "add", a, b, r.choice(["add", "add", "register"]))

    def g_odd(self, r):
        """into, out of and between elements that are no usual containers"""
        a = self.pick("node", "edge", "item", "value", "sem", "rel")
        b = self.pick("rel", "rel", "sem", "value") if a not in self.ids["rel"] else self.pick("node", "item", "rel", "sem", "value")
        if b in self.ids["rel"] and r.random() < 0.3:
            b = "p" + b[1:]
        if a and b:
            self.emit(self.nid(), "add", a, b, r.choice(["add", "add", "add", "register"]))
            for _ in range(r.choice([0, 0, 1, 2])):
                k = r.choice(["rm", "back", "again", "endpoint"])
                if k == "rm":
                    self.emit(self.nid(), "rm", r.choice(["u", "nu", "n"]), a, None, None)
                elif k == "endpoint":
                    c = [o for o in self.ops if o[1] in ("connect", "newrel") and "r" + o[0] == b]
                    if c:
                        self.emit(self.nid(), "add", c[0][3], b, "add")
                else:
                    self.emit(self.nid(), "add", a, b if k == "again" else self.pick("node", "item"), "add")

    def g_self(self, r):
        a = self.pick("node", "edge", "item")
        if a:
            self.emit(self.nid(), "add", a, a, "add")

    def g_readd(self, r):
        """move back and forth"""
        a, b = self.pick("node", "edge", "item", "value"), self.pick("node", "item")
        if a and b:
            self.emit(self.nid(), "add", a, b, "add")
            self.emit(self.nid(), "add", a, b, "add")

    def g_dereg(self, r):
        a = self.pick("node", "edge")
        if a:
            self.emit(self.nid(), "dereg", a)

    def g_rm(self, r):
        t = self.pick("node", "edge", "item", "value", "sem", "rel")
        if not t:
            return
        how = r.choices(["u", "nu", "n", "mis", "none", "ghost", "ghostu"], [5, 4, 6, 2, 1, 1, 1])[0]
        cont = None if r.random() < 0.8 else self.pick("node", "edge", "item")
        k = None if r.random() < 0.6 else r.randrange(4)
        id = self.emit(self.nid(), "rm", how, t, cont, k)
        if k is not None:
            self.rmops.append(id)

    def g_resume(self, r):
        if self.rmops:
            i = self.rmops.pop(r.randrange(len(self.rmops)))
            self.emit(self.nid(), r.choice(["resume", "resume", "drop"]), i)

    def g_gap(self, r):
        """a removal by name left half way while its other victims move or disappear, and then continued"""
        home, name = self.pick("node", "item"), r.choice(self.names)
        if not home:
            return
        sibs = [self.new(r.choice(["node", "item", "edge"]), home, "ctor", name) for _ in range(r.randint(3, 5))]
        id = self.emit(self.nid(), "rm", "n", sibs[0], home, r.randint(1, 2))
        for v in r.sample(sibs, r.choice([1, 1, 2])):
            if r.random() < 0.5:
                self.emit(self.nid(), "rm", "u", v, None, None)
            else:
                to = self.pick("node", "item")
                self.emit(self.nid(), "add", v, to, "add")
                if r.random() < 0.3:
                    self.emit(self.nid(), "add", v, home, "add")
        if r.random() < 0.5:
            self.step()
        self.emit(self.nid(), r.choice(["resume", "resume", "resume", "drop"]), id)

    def g_connect(self, r):
        e, p = self.pick("edge"), self.pick("node") if r.random() < 0.9 else self.pick("edge")
        if r.random() < 0.02:
            p = e
        if e and p:
            id = self.emit(self.nid(), "connect", e, p, r.choice(DIRS), self.pick("value") if r.random() < 0.4 else None,
                           self.pick("sem") if r.random() < 0.25 else None)
            self.ids["rel"].append("r" + id)

    def g_bad(self, r):
        """a connection refused half way: its semantic value is none, or nothing can be connected there"""
        e, p = self.pick("edge"), self.pick("node", "edge")
        if r.random() < 0.3:
            p = self.pick("value", "item", "sem", "rel")
            if e and p:
                self.emit(self.nid(), "connect", e, p, r.choice(DIRS), self.pick("value") if r.random() < 0.4 else None,
                          self.pick("sem") if r.random() < 0.7 else None)
        elif e and p:
            self.emit(self.nid(), "connect", e, p, r.choice(DIRS), self.pick("value") if r.random() < 0.4 else None, BAD)

    def g_newrel(self, r):
        e, p = self.pick("edge"), self.pick("node") if r.random() < 0.9 else self.pick("edge")
        old = [o for o in self.ops if o[1] == "connect"]
        if old and r.random() < 0.7:
            e, p = r.choice(old)[2:4]
        if e and p:
            self.ids["rel"].append("r" + self.emit(self.nid(), "newrel", e, p, r.choice(DIRS), self.pick("value") if r.random() < 0.4 else None))

    def g_disc(self, r):
        x = self.pick("rel")
        if x:
            self.emit(self.nid(), "disc", x)

    def g_rmrel(self, r):
        x = self.pick("rel")
        if x:
            how = r.choice(["u", "nu", "n", "n"])
            k = None if how != "n" or r.random() < 0.4 else r.randrange(3)
            id = self.emit(self.nid(), "rm", how, x, None, k)
            if k is not None:
                self.rmops.append(id)

    def g_rmport(self, r):
        x = self.pick("rel")
        if x:
            self.emit(self.nid(), "rmport", x)

    def g_addrel(self, r):
        x = self.pick("rel")
        if x:
            if r.random() < 0.6:
                self.emit(self.nid(), "rm", "u", x, None, None)
            self.emit(self.nid(), "addrel", x, self.pick("edge") if r.random() < 0.4 else None)

    def g_clk(self, r):
        self.emit(self.nid(), "clk", self.clock(), r.choice(self.clock_modes))

    def g_read(self, r):
        x = self.pick("node", "edge", "item", "value")
        if x:
            self.emit(self.nid(), "read", x)

    def g_setval(self, r):
        x = self.pick("value")
        if x:
            self.emit(self.nid(), "setval", x, r.randrange(3), r.choice([1.5, -2.0, 0.25, 7]))

    def g_setvals(self, r):
        x = self.pick("value")
        if x:
            self.emit(self.nid(), "setvals", x, [r.choice([1.5, -2.0, 0.25, 7]) for _ in range(r.randrange(4))])
