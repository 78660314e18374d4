"""World A: histories of structural operations (P01-P05, P07)."""
from ..base import Violation, need
from ..simclock import MODES, local_clock, make_clock, system_time
from ..world import CONCEPTUAL, HistGen, World, show

REAL = ["rei.foundations.conceptual_item", "rei.hypergraph.base_elements", "rei.hypergraph.value_node",
        "rei.factories.foundation_factory", "rei.format.semantics.CognitiveEntity"]
STUBS = ["clock (simulated)"]


class Probe:
    def before(self, w, op, expect):
        pass

    def after(self, w, op, expect):
        pass

    def mid(self, w, op):
        pass


class Hier:
    quick_runs = 15000
    real, stubs = REAL, STUBS
    assumptions = ["elements are moved only through the library's operations, single-threaded between operations"]
    weights = dict(new=10, add=12, rm=10, dereg=2, chain=1, fan=1, connect=4, disc=1, rmrel=2, twin=1, self=1, readd=2,
                   resume=3, gap=0.4, clk=1, noclock=0.3, newlist=0.5, setclock=0.3, addrel=0.7, odd=1)
    clocks = 2
    length = (8, 60)
    rule = ("a run is a random history of structural operations on 1-200 elements of all kinds (refused operations, "
            "half-consumed removals, clock faults included) executed on the real classes beside a forest model; "
            "non-trivial: at least one element was moved or removed and the history is distinct")

    def gen(self, rng, index, tier):
        wt = dict(self.weights)
        # swarm: every run leaves out some kinds of operation
        for k in list(wt):
            if k not in ("new", "add") and rng.random() < 0.25:
                wt[k] = 0.0001
        if index % 100 == 7:
            wt["deep"] = 3
        if index % 100 == 57:
            wt["wide"] = wt["star"] = 4
        g = HistGen(rng, wt, clocks=self.clocks, kinds=None,
                    names=rng.choice([["a", "b"], ["a", "b", "c", "node"], ["x.y", "ñ", "a b", "node"]]))
        n = rng.randint(*self.length) if tier == "quick" or index % 3 else rng.randint(60, 200)
        return dict(ops=g.generate(n), cfg=dict(modes=[rng.choice(MODES) for _ in range(self.clocks)], wseed=rng.randrange(10**9)))

    def furnish(self, w):
        pass

    def run(self, case, ctx):
        probe = self.probe()
        w = World(ctx, case["cfg"]["wseed"], clocks=self.clocks, modes=case["cfg"]["modes"], probe=probe)
        w.case = case
        w.anywhere = True
        self.furnish(w)
        w.run(case["ops"])
        if hasattr(probe, "end"):
            probe.end(w)
        w.digest_state()
        ctx.simtime += sum(abs(c.now - 1_700_000_000_000_000_000) for c in w.clocks) / 1e9
        ctx.nontrivial = any(k in ("add", "rm", "dereg") and e == "ok" for k, e in w.events)


# -- P01 ------------------------------------------------------------------------------------

def check_forest(w, ids, when):
    for i in ids:
        e, o = w.m[i], w.obj[i]
        kids = w.kids_real(i)
        names = [w.name_of(k) for k in kids]
        need(len(set(map(id, kids))) == len(kids), "{}: {} lists a sub-element twice: {}", when, i, names)
        need(sorted(map(str, names)) == sorted(e.kids), "{}: {} holds {} instead of {}", when, i, names, sorted(e.kids))
        p = w.name_of(o.parent)
        need(p == e.parent, "{}: parent of {} is {} instead of {}", when, i, p, e.parent)
        if e.kind in CONCEPTUAL:
            need(o.cnt_subelements == len(kids), "{}: {} reports {} sub-elements, holds {}", when, i, o.cnt_subelements, len(kids))
        if e.kind == "node":
            by = {"sub_nodes": "node", "sub_edges": "edge", "sub_values": "value", "sub_ports": "port"}
            for acc, kind in by.items():
                got = [w.name_of(x) for x in getattr(o, acc)]
                want = [k for k in e.kids if w.m[k].kind == kind]
                need(sorted(map(str, got)) == sorted(want), "{}: {} of {} gives {} instead of {}", when, acc, i, got, want)
            for k in kids:
                need(o[k.uuid] is k, "{}: {}[identifier] is another element", when, i)
        if e.kind == "edge":
            got = [w.name_of(x) for x in o.sub_relations]
            want = [k for k in e.kids if w.m[k].kind == "rel"]
            need(sorted(map(str, got)) == sorted(want), "{}: relations of {} are {} instead of {}", when, i, got, want)
    # no element is its own ancestor
    ids = list(ids)
    for i in ids if len(ids) < 300 else ids[::25]:
        x, n = w.obj[i], 0
        while x is not None:
            x, n = x.parent, n + 1
            need(n <= len(w.m) + 1, "{}: {} is its own ancestor", when, i)


class _P01(Probe):
    def after(self, w, op, expect):
        if len(w.m) <= 250:
            check_forest(w, w.m, show(op))
        else:
            check_forest(w, list(w.affected)[:50], show(op))
        w.digest_state()

    def mid(self, w, op):
        check_forest(w, w.m, show(op) + " (half way)")

    def end(self, w):
        check_forest(w, w.m, "at the end")


class P01(Hier):
    pid = "P01"
    probe = _P01


# -- P02 ------------------------------------------------------------------------------------

def check_names(w, ids, when):
    for i in ids:
        o = w.obj[i]
        want = w.path(i)
        need(o.qualified_name == want, "{}: qualified name of {} is {!r} instead of {!r}", when, i, short(o.qualified_name), short(want))
        need(o.depth == w.depth(i), "{}: depth of {} is {} instead of {}", when, i, o.depth, w.depth(i))
        need(o.progenitor_qualified_name == w.m[i].origin, "{}: {} was created as {!r} but says {!r}", when, i, w.m[i].origin, o.progenitor_qualified_name)


def short(s):
    return s if len(str(s)) < 120 else str(s)[:50] + "..." + str(s)[-50:]


class _P02(Probe):
    def after(self, w, op, expect):
        ids = w.m if len(w.m) <= 120 else list(w.affected)[:40]
        check_names(w, ids, show(op))
        w.digest_state()

    def mid(self, w, op):
        if len(w.m) <= 120:
            check_names(w, w.m, show(op) + " (half way)")

    def end(self, w):
        ids = list(w.m)
        if len(ids) > 400:
            ids = ids[::max(1, len(ids) // 400)]
        check_names(w, ids, "at the end")


class P02(Hier):
    pid = "P02"
    probe = _P02
    weights = dict(Hier.weights, chain=4, twin=0.3, disc=0.5, resume=1)


# -- P03 ------------------------------------------------------------------------------------

def model_lookup(w, cont, tokens):
    cur = [cont]
    for t in tokens:
        cur = [k for c in cur for k in w.m[c].kids if w.m[k].name == t]
    return cur


def check_lookup(w, rng, when, ids, tries):
    for i in ids:
        o, e = w.obj[i], w.m[i]
        names = {w.m[k].name for k in e.kids if "/" not in w.m[k].name} | {"a", "missing"}
        if tries:
            # near misses
            names |= {rng.choice(["", n[:-1], n + "_", n.upper(), " " + n, n + ".0"]) for n in sorted(names)[:2]}
        for n in sorted(names):
            got = [w.name_of(x) for x in o.get_element_by_id_name(n)]
            want = [k for k in e.kids if w.m[k].name == n]
            need(got == want, "{}: looking up {!r} in {} gives {} instead of {}", when, n, i, got, want)
        for _ in range(tries):
            # a path: follow random children, sometimes astray
            toks, c = [], i
            for _ in range(rng.randrange(1, 5) if rng.random() < 0.95 else rng.randrange(5, 60)):
                kids = [k for k in w.m[c].kids if "/" not in w.m[k].name]
                if kids and rng.random() < 0.85:
                    c = rng.choice(kids)
                    toks.append(w.m[c].name)
                else:
                    toks.append(rng.choice(["a", "b", "node", "missing", ""]))
            if rng.random() < 0.08:
                toks.insert(rng.choice([0, len(toks)]), "")
            try:
                got = [w.name_of(x) for x in o.get_element_by_id_name("/".join(toks))]
            except Exception as x:
                raise Violation(f"{when}: looking up {'/'.join(toks)!r} in {i} raised {type(x).__name__}: {x}")
            want = model_lookup(w, i, toks)
            need(got == want, "{}: looking up {!r} in {} gives {} instead of {}", when, "/".join(toks), i, got, want)


class _P03(Probe):
    def before(self, w, op, expect):
        """answers of which only the first element is taken yet"""
        from ..base import rng_of
        rng = rng_of("open", op[0])
        self.open = []
        for i, e in list(w.m.items())[:150]:
            if e.kind in CONCEPTUAL and len(e.kids) > 1:
                names = [w.m[k].name for k in e.kids if "/" not in w.m[k].name]
                twice = sorted({n for n in names if names.count(n) > 1})
                if twice:
                    n = rng.choice(twice)
                    it = w.obj[i].get_element_by_id_name(n)
                    self.open.append((i, n, [k for k in e.kids if w.m[k].name == n], [w.name_of(next(it))], it))

    def after(self, w, op, expect):
        from ..base import rng_of
        for i, n, want, got, it in self.open:
            try:
                got += [w.name_of(x) for x in it]
            except Exception as x:
                raise Violation(f"{show(op)}: an answer for {n!r} in {i} under way before it fails: {type(x).__name__}: {x}")
            need(got == want, "{}: an answer for {!r} in {} under way before it is {} instead of {}", show(op), n, i, got, want)
        rng = rng_of(w.case["cfg"]["wseed"], op[0])
        conts = [i for i in w.m if w.m[i].kind in CONCEPTUAL]
        hot = [i for i in conts if i in w.affected or (w.affected & set(w.m[i].kids))][:8]
        some = rng.sample(conts, min(4, len(conts))) if conts else []
        check_lookup(w, rng, show(op), dict.fromkeys(hot + some), 3)
        w.digest_state()

    def mid(self, w, op):
        conts = [i for i in w.m if w.m[i].kind in CONCEPTUAL][:30]
        from ..base import rng_of
        check_lookup(w, rng_of(op[0]), show(op) + " (half way)", conts, 0)

    def end(self, w):
        from ..base import rng_of
        conts = [i for i in w.m if w.m[i].kind in CONCEPTUAL][:200]
        check_lookup(w, rng_of(w.case["cfg"]["wseed"], "end"), "at the end", conts, 2)


class P03(Hier):
    pid = "P03"
    probe = _P03


# -- P04 ------------------------------------------------------------------------------------

def diff(a, b):
    for i in b:
        if i not in a:
            return f"{i} appeared"
        for k in b[i]:
            if a[i].get(k) != b[i][k]:
                return f"{k} of {i} was {short(a[i].get(k))} and is now {short(b[i][k])}"
    for i in a:
        if i not in b:
            return f"{i} vanished"
    return None


class _P04(Probe):
    def before(self, w, op, expect):
        self.snap = w.snapshot() if expect == "refuse" else None

    def after(self, w, op, expect):
        if expect == "refuse":
            now = w.snapshot()
            d = diff(self.snap, now)
            need(d is None, "{} was refused, yet {}", show(op), d)
            w.digest_state()

    def end(self, w):
        # a refused operation must not have left a trap for later ones: the final state is the model's
        check_forest(w, w.m, "at the end")


class P04(Hier):
    pid = "P04"
    probe = _P04
    weights = dict(new=8, add=14, rm=14, dereg=1, chain=1, connect=5, twin=3, self=2, readd=4, resume=1, gap=0.5, bad=1, noclock=2, rmrel=1, addrel=0.7, odd=2)
    rule = ("a run is a random history rich in operations that must be refused (duplicates, twins of an identifier, self, "
            "ancestors, unknown or mismatching removal criteria, missing clock, endpoint connected twice); all observables "
            "are compared before and after each refusal; non-trivial: something was refused")

    def run(self, case, ctx):
        super().run(case, ctx)
        ctx.nontrivial = any(k.startswith("refused") for k in ctx.faults)


# -- P05 ------------------------------------------------------------------------------------

class _P05(Probe):
    def __init__(self):
        self.used = {}

    def after(self, w, op, expect):
        for i in list(w.affected)[:300]:
            e = w.m[i]
            if e.parent is not None:
                got = w.obj[i].cid
                need(got == e.cid, "{}: ordinal of {} in {} is {}, the container accepted {} attachments before",
                     show(op), i, e.parent, got, e.cid)
        w.digest_state()

    def end(self, w):
        for i, e in w.m.items():
            if e.parent is not None:
                need(w.obj[i].cid == e.cid, "at the end: ordinal of {} in {} is {} instead of {}", i, e.parent, w.obj[i].cid, e.cid)
            cids = [w.obj[k].cid for k in e.kids]
            need(len(set(cids)) == len(cids), "at the end: {} gave out an ordinal twice: {}", i, cids)


class P05(Hier):
    pid = "P05"
    probe = _P05
    weights = dict(Hier.weights, readd=5, twin=2, self=2, bad=1)


# -- P07 ------------------------------------------------------------------------------------

class _P07(Probe):
    def __init__(self):
        self.ts = {}

    def before(self, w, op, expect):
        pass

    def after(self, w, op, expect):
        moved = w.affected if expect == "ok" else set()
        for i, e in w.m.items():
            if e.kind not in CONCEPTUAL:
                continue
            t = w.obj[i].timestamp
            if i in moved:
                r = w.clocks[e.clock].readings
                need(t in r, "{}: {} changed its place but its timestamp {} is not a reading taken by its clock then ({})",
                     show(op), i, t, r[-3:])
            else:
                need(self.ts.get(i) == t, "{}: timestamp of {} changed from {} to {} though it did not change its place",
                     show(op), i, self.ts.get(i), t)
            self.ts[i] = t
        for i, e in w.m.items():
            if e.kind in CONCEPTUAL:
                need(w.clocks[e.clock] is w.obj[i].clock, "{}: {} reads another clock", show(op), i)
        w.digest_state()


class P07(Hier):
    pid = "P07"
    probe = _P07
    clocks = 3
    weights = dict(new=8, add=10, rm=8, dereg=3, chain=2, connect=2, disc=1, rmrel=1, twin=1, self=1, readd=2, resume=1,
                   clk=8, read=6, setval=2, setvals=1, newlist=0.5, setclock=3)
    rule = ("as P01, with three clocks that stall, tick coarsely, jump and run backwards at random points and reads in "
            "between; non-trivial: a clock fault was active while an element was moved or removed")

    def gen(self, rng, index, tier):
        c = super().gen(rng, index, tier)
        c["cfg"]["local"] = rng.choice([None, 0, 1])
        return c

    def furnish(self, w):
        if self.local is not None:
            w.clocks[self.local] = local_clock(self.sim)

    def run(self, case, ctx):
        # structure must not depend on the clocks: the same history on steady clocks is the model itself
        self.local = case["cfg"].get("local")
        with system_time(make_clock(case["cfg"]["wseed"], case["cfg"]["modes"][0])) as sim:
            self.sim = sim
            super().run(case, ctx)
