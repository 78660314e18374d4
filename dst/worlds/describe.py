"""World I: descriptions, the hypergraphs read from them, their export and the converter program (P23, P24, P25)."""
import asyncio
import sys

from .. import grammar, repo
from ..base import Chooser, Injected, Machinery, SimDeadlock, SimLivelock, Violation, digest, need, rng_of
from ..baton import Baton
from ..cogni import Desc, DocOracle, Gen, GraphOracle, fingerprint
from ..simclock import MODES, make_clock
from ..simloop import SimLoop, buggify_queues, loops

REAL = ["rei.format.mapping.cognilang_file_icon", "rei.format.semantics", "rei.factories", "rei.hypergraph", "the .g4 grammar files"]
STUBS = ["ANTLR runtime and generated parser (an interpreter of the repository's grammar)", "clock (simulated)"]


def descs_of(case, export=False):
    """the descriptions of a case, by number"""
    by = {}
    for k, op in case["ops"]:
        if op[0] in "EPKLVCJASTR":
            by.setdefault(k, []).append(op)
    return {k: d for k, d in ((k, Desc(ops, export)) for k, ops in by.items()) if d.root is not None}


def failing(clock, at):
    read = clock.get_time_ns
    left = [at]

    def get_time_ns():
        left[0] -= 1
        if left[0] < 0:
            raise Injected("clock failure")
        return read()
    clock.get_time_ns = get_time_ns
    return clock


class Reader:
    """parse and read with the real visitor"""

    def __init__(self, cfg_seed):
        self.L, self.P, self.V = grammar.install()
        self.seed = cfg_seed

    def tree(self, text):
        import antlr4
        return self.P(antlr4.CommonTokenStream(self.L(antlr4.InputStream(text)))).rootnode()

    def visitor(self, clock, name="cogni_lang_file"):
        from rei.format.mapping.cognilang_file_icon import CognilangParserFileIcon
        return CognilangParserFileIcon(name, clock)


def guarded(f, what):
    try:
        return f()
    except (Violation, SimLivelock, SimDeadlock, Injected):
        raise
    except RecursionError:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(f"{what} fails: {type(e).__name__}: {e} ({tb.filename.split('/')[-1]}:{tb.name})")


class P23:
    pid = "P23"
    quick_runs = 2400
    real, stubs = REAL, STUBS + ["thread scheduler (control passes at seeded source lines of the library)"]
    assumptions = ["names are unique among the elements declared in one container", "references and parameters are declared before they are used",
                   "joints refer to elements of their own graph", "parameters of sensors and actuators, ports and ambience edges are outside the claim"]
    rule = ("a run is 1-3 generated descriptions, read one after another by one visitor or by several, some readings aborted by a failing clock, or "
            "at the same time by threads that switch at drawn source lines, under stalled, coarse, jumping and backward clocks; each "
            "graph is compared with the description, and once more at the end; non-trivial: at least two readings or a joint")
    state_measure = "digest of the graph read"

    def gen(self, rng, index, tier):
        n = rng.choice([1, 1, 2, 2, 3])
        ops = []
        same = rng.random() < 0.4
        for k in range(n):
            names = ["base", "arm", "x"] if rng.random() < 0.2 else None
            g = Gen(rng, "d", True, names, "robot" if same else f"robot_{k}")
            ops += [[k, op] for op in g.generate()]
        mode = rng.choice(["seq", "seq", "reuse", "reuse", "thread"])
        order = list(range(n))
        for _ in range(rng.choice([0, 1, 2])):
            order.append(rng.randrange(n))
        rng.shuffle(order)
        reads = [[k, rng.choice(MODES), rng.randrange(10**6), rng.randrange(10**6), rng.choice([3, 10, 30, 80, 200]) if rng.random() < 0.12 else None,
                  rng.randrange(10**6) if rng.random() < 0.25 else None] for k in order]
        return dict(ops=ops, reads=reads, cfg=dict(mode=mode, wseed=rng.randrange(10**9)), sched=dict(seed=rng.randrange(10**9), bias=0.0))

    shrink_lists = ("ops", "reads")

    def run(self, case, ctx):
        ds = descs_of(case)
        mode = case["cfg"]["mode"]
        rd = Reader(case["cfg"]["wseed"])
        jobs = []
        for i, (k, cm, cseed, tseed, fail, bad) in enumerate(case["reads"]):
            if k in ds:
                at = ds[k].referred() if bad is not None and mode != "thread" else []
                bad = ds[k].text(rng_of("text", tseed), at[bad % len(at)]) if at else None
                jobs.append((i, ds[k], ds[k].text(rng_of("text", tseed)), cm, cseed, fail, bad))
        done = []       # (what, desc, root, fingerprint)
        if mode == "thread":
            self.threads(case, ctx, rd, jobs, done)
        else:
            shared = None
            for i, d, text, cm, cseed, fail, bad in jobs:
                clock = make_clock(cseed, cm)
                if mode == "reuse":
                    if shared is None:
                        shared = rd.visitor(clock), clock
                    v, clock = shared
                    clock.mode = cm
                else:
                    v = rd.visitor(clock, f"icon_{i % 2}")
                what = f"reading {i} ({mode}, clock {cm})"
                if fail is not None and mode == "reuse":
                    self.abort(rd, v, clock, text, fail, ctx, what)
                tree = guarded(lambda: rd.tree(text), what + ": the text is refused:")
                ctx.op("read")
                ctx.fault("clock_" + cm)
                guarded(lambda: v.visit(tree), what)
                self.judge(what, d, v.root_entity, done, ctx)
                if bad is not None:
                    self.dangling(rd, v, bad, ctx, what)
        for what, d, root, fp in done:
            need(fingerprint(root) == fp, "{}: the graph changed through later readings", what)
        ctx.nontrivial = len(done) > 1 or any(d.all("J") for _, d, _, _ in done)

    def judge(self, what, d, root, done, ctx):
        need(all(root is not r for _, _, r, _ in done), "{}: the entity of an earlier reading came out", what)
        guarded(lambda: GraphOracle(d, root, what).check(), what + ": comparing")
        fp = fingerprint(root)
        for w2, d2, _, f2 in done:
            if d2 is d:
                need(f2 == fp, "{} and {} give different graphs for one description", what, w2)
        done.append((what, d, root, fp))
        ctx.state(fp)

    def dangling(self, rd, v, text, ctx, what):
        """the same description with one declaration renamed and the references to it left: it refers to nothing"""
        tree = guarded(lambda: rd.tree(text), what)
        try:
            v.visit(tree)
        except (Violation, SimLivelock, SimDeadlock, Machinery, RecursionError):
            raise
        except Exception:
            ctx.fault("dangling_reference")
            return
        raise Violation(f"{what}: read again with a declaration renamed, a reference to what is not declared is accepted")

    def abort(self, rd, v, clock, text, fail, ctx, what):
        tree = guarded(lambda: rd.tree(text), what)
        read = clock.get_time_ns
        failing(clock, fail)
        try:
            v.visit(tree)
        except Injected:
            ctx.fault("clock_failure")
        except Exception as e:
            raise Violation(f"{what}: a clock failure came out as {type(e).__name__}")
        finally:
            clock.get_time_ns = read

    def threads(self, case, ctx, rd, jobs, done):
        groups = [jobs[i::3] for i in range(min(3, len(jobs)))]
        out = [[] for _ in groups]
        for i, d, text, cm, cseed, fail, bad in jobs:
            guarded(lambda: rd.tree(text), "the text is refused:")
        import rei.format.mapping.cognilang_file_icon      # no imports in threads

        def body(n):
            for i, d, text, cm, cseed, fail, bad in groups[n]:
                v = rd.visitor(make_clock(cseed, cm))
                what = f"reading {i} (in a thread, clock {cm})"
                guarded(lambda: v.visit(rd.tree(text)), what)
                out[n].append((what, d, v.root_entity))
        if not groups:
            return
        chooser = Chooser(case.get("sched"))
        ctx.trace = chooser.trace
        b = Baton(chooser, limit=1500)
        errs = b.run([lambda n=n: body(n) for n in range(len(groups))])
        ctx.fault("thread_switch", b.switches)
        ctx.steps += b.lines
        for e in errs:
            if e is not None:
                raise e
        for o in out:
            for what, d, root in o:
                ctx.op("read")
                self.judge(what, d, root, done, ctx)


# -- P24 ------------------------------------------------------------------------------------

def seeded_sets(seed):
    """Sets made by the exporter iterate and pop in an order drawn from the seed: any order is legal for a set."""
    rng = rng_of("sets", seed)

    class SimSet(set):
        def __iter__(self):
            xs = list(set.__iter__(self))
            rng.shuffle(xs)
            return iter(xs)

        def pop(self):
            for x in self:
                self.discard(x)
                return x
            raise KeyError("pop from an empty set")

    def wrap(name):
        f = getattr(set, name)

        def g(self, *a):
            r = f(self, *a)
            return SimSet(r) if isinstance(r, set) else r
        return g
    for n in ("difference", "union", "intersection", "symmetric_difference", "copy", "__sub__", "__or__", "__and__", "__xor__", "__rsub__",
              "__ror__", "__rand__"):
        setattr(SimSet, n, wrap(n))
    for k, m in list(sys.modules.items()):
        if k.startswith(("rei.format", "apps.")) and getattr(m, "__file__", None):
            m.set = SimSet
    return SimSet


def selection(root, sub=True):
    """the queries of the conversion program"""
    from rei.format.semantics.CognitiveEntity import CognitiveEntity, KinematicJoint, KinematicLink
    from rei.foundations.clock import DummyClock
    from rei.hypergraph.base_elements import HypergraphNode
    from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine

    def shallow(x, d):
        return x.depth <= d if isinstance(x, HypergraphNode) else True
    e = HypergraphQueryEngine("engine", b"00", "engine/engine", DummyClock(), None)
    e.add_query("link_query", HierarchicalPrepositionQuery(root, lambda x: isinstance(x, KinematicLink), lambda x: shallow(x, 2)))
    e.add_query("joint_query", HierarchicalPrepositionQuery(root, lambda x: isinstance(x, KinematicJoint), lambda x: shallow(x, 1)))
    e.add_query("cognitive_query", HierarchicalPrepositionQuery(root, lambda x: isinstance(x, CognitiveEntity), lambda x: True))
    return e


class P24:
    pid = "P24"
    quick_runs = 1500
    real = REAL + ["rei.format.mapping.cognilang_sdf_icon", "rei.format.phys", "rei.query", "lxml"]
    stubs = STUBS + ["event loop (seeded scheduler)", "set ordering (seeded) and hash seed", "thread scheduler (seeded)"]
    assumptions = ["links and joints lie in kinematic graphs directly in the entity or in graphs nested in them that a joint instantiates; "
                   "nested graphs have a base link, are children of single-parent joints and are not tied to the world",
                   "vectors have the sizes of the shapes (cylinder radius and length, 1 or 3 sizes)", "mesh geometry is left out (no file is declared)",
                   "which of several base links of a nested graph is connected is open, but always the same"]
    rule = ("a run is 1-2 generated descriptions read by the real visitor and exported several times: one after another, concurrently as tasks "
            "or threads, with new or used exporters, after attribute changes, with additional edges on links, under seeded set ordering "
            "and in processes of other hash seeds; each document is compared with the description; non-trivial: a joint or two exports")
    state_measure = "digest of the exported document"
    shrink_lists = ("ops", "exports", "changes")

    def gen(self, rng, index, tier):
        n = rng.choice([1, 1, 2])
        ops = []
        for k in range(n):
            names = ["base", "arm", "x"] if rng.random() < 0.2 else None
            ops += [[k, op] for op in Gen(rng, "d", False, names, f"robot_{k}" if rng.random() < 0.5 else "robot").generate()]
        extra = []      # edges that mean nothing to the exporter
        changes = []
        for k in range(n):
            links = [op[1] for j, op in ops if j == k and op[0] == "L"]
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                extra.append([k, [rng.choice(links) for _ in range(rng.choice([1, 2]))], rng.choice(["first", "later"])])
            for _ in range(rng.choice([0, 0, 1, 3])):
                j, op = rng.choice([x for x in ops if x[0] == k])
                if op[0] == "L" and op[6] is not None:
                    changes.append([k, op[1], "mass", rng.choice(["4.5", "0.75"])])
                elif op[0] == "V":
                    changes.append([k, op[1], "material_name", rng.choice(["green", "blue"])])
                elif op[0] == "J":
                    b = rng.randrange(len(op[4]))
                    changes.append([k, f"{op[1]}.{b}", *rng.choice([["joint_type", rng.choice(["fix", "rev", "tr"])], ["axis", [0.0, 1.0, 0.5]]])])
                if op[0] in "VC" and op[-1][0] != "ref" and rng.random() < 0.5:
                    changes.append([k, op[1], "values", [round(rng.uniform(0.1, 4), 3) for _ in op[-1][1]]])
        exports = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            exports.append([rng.randrange(n), rng.choice(["new", "new", "used", "parts"])])
        if rng.random() < 0.5 and changes:
            exports.insert(rng.randrange(len(exports) + 1), ["change"])
        mode = rng.choice(["seq", "seq", "task", "task", "thread"])
        return dict(ops=ops, exports=exports, changes=changes, extra=extra,
                    cfg=dict(mode=mode, sets=rng.randrange(10**6), clock=[rng.choice(MODES) for _ in range(n)], wseed=rng.randrange(10**6),
                             yields=rng.choice([0.0, 0.2, 0.5]), hashseed=rng.randrange(1, 10**6) if rng.random() < 0.03 else None,
                             cancel=rng.choice([5, 20, 60, 150]) if rng.random() < 0.15 else None),
                    sched=dict(seed=rng.randrange(10**9), bias=rng.choice([0.0, 0.3])))

    def read(self, case, clocks=None):
        ds = descs_of(case, True)
        rd = Reader(0)
        roots = {}
        for k, d in ds.items():
            cm = (clocks or case["cfg"]["clock"])[k]
            v = rd.visitor(make_clock(case["cfg"]["wseed"] + k, cm))
            text = d.text(rng_of("text", case["cfg"]["wseed"], k))
            guarded(lambda: v.visit(rd.tree(text)), f"reading description {k}")
            roots[k] = v.root_entity
        self.found = {}
        for k, d in ds.items():
            self.found[k] = GraphOracle(d, roots[k], "finding")
            self.found[k].node(d.root, roots[k])
        return ds, roots

    def tie(self, case, ds, roots, when):
        """edges without a joint value, on links"""
        from rei.factories.foundation_factory import HypergraphFactory
        for n, (k, ls, w) in enumerate(case["extra"]):
            if w == when and k in ds and all(l in ds[k].items for l in ls):
                f = HypergraphFactory("other", make_clock(n, "tick"))
                at = [self.found[k].obj[l] for l in dict.fromkeys(ls)]
                f.connect_nodes(roots[k], f"note_{n}", at)

    def change(self, case, ds, roots, over):
        from rei.format.semantics import CognitiveEntity as S
        for k, i, attr, v in case["changes"]:
            d = ds.get(k)
            it = d and d.items.get(i.split(".")[0])
            if it is None or it.id not in {x.id for x in d.all("L", "V", "C", "J")}:
                continue
            o = self.found[k]
            if it.kind == "J":
                b = int(i.split(".")[1])
                e = next(x for x in o.obj[it.parent.id].sub_edges if x.id_name == it.name)
                rels = list(e.sub_relations)
                if b >= len(rels):
                    continue
                sv = rels[b].semantic_value_node
            elif attr == "mass":
                sv = o.direct(o.obj[it.id], S.InertiaElement)[0]
                v = float(v)
            else:
                sv = o.sem(o.obj[it.id], S.VisualMaterial if attr == "material_name" else S.GeometryNode)[0]
            sv.add_named_attribute(attr, list(v) if isinstance(v, list) else v)
            over[k] = [c for c in over[k] if c[:2] != [i, attr]] + [[i, attr, v]]

    def icon(self, used, how):
        from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon
        from rei.foundations.clock import DummyClock
        if how == "new" or not used:
            used.append(CognilangSdfIcon(DummyClock()))
        return used[-1]

    def doc(self, icon):
        from lxml import etree
        model = icon.root_xml[-1]
        return etree.tostring(model, pretty_print=True).decode()

    def whole(self, icon, n, what):
        from lxml import etree
        r = icon.root_xml
        need(r.tag == "sdf" and r.get("version") is not None, "{}: the document is <{} {}>", what, r.tag, dict(r.attrib))
        need(len(r) == n, "{}: {} models in the document instead of {}", what, len(r), n)
        etree.fromstring(etree.tostring(r))

    def run(self, case, ctx):
        import rei.format.mapping.cognilang_sdf_icon, rei.format.mapping.cognilang_sdf_icon as m      # noqa
        ds, roots = self.read(case)
        if not ds:
            return
        self.tie(case, ds, roots, "first")
        seeded_sets(case["cfg"]["sets"])
        over = {k: [] for k in ds}
        docs = {}
        mode = case["cfg"]["mode"]
        steps = [x for x in case["exports"] if x[0] == "change" or x[0] in ds]
        before = {k: fingerprint(r) for k, r in roots.items()}
        phase, count = [], 0
        for s in steps + [["end"]]:
            if s[0] not in ("change", "end"):
                phase.append(s)
                continue
            if phase:
                getattr(self, mode)(case, ctx, ds, roots, phase, over, docs)
                count += len(phase)
                phase = []
                for k in roots:
                    need(fingerprint(roots[k]) == before[k], "exporting changed the graph of description {}", k)
            if s[0] == "change":
                self.change(case, ds, roots, over)
                self.tie(case, ds, roots, "later")
                before = {k: fingerprint(r) for k, r in roots.items()}
                docs = {}
                ctx.op("change")
        self.again(case, ctx, ds, docs, over)
        ctx.nontrivial = count > 1 or any(d.all("J") for d in ds.values())

    def judge(self, what, k, ds, icon, over, docs, ctx, models=None):
        if models is not None:
            self.whole(icon, models, what)
        text = guarded(lambda: self.doc(icon), what)
        if (k, "judged") not in docs or docs[k] != text:
            need(k not in docs or docs[k] == text, "{}: another document than before: {}", what, differ(docs.get(k), text))
            guarded(lambda: DocOracle(ds[k], what, over[k]).check(icon.root_xml[-1]), what + ": comparing")
            docs[k] = text
            docs[(k, "judged")] = True
        ctx.op("export")
        ctx.state(text)

    def seq(self, case, ctx, ds, roots, phase, over, docs):
        used, models = [], {}
        for i, (k, how) in enumerate(phase):
            what = f"export {i} of description {k} ({how} exporter)"
            icon = self.icon(used, "new" if how == "parts" else how)
            models[id(icon)] = models.get(id(icon), 0) + 1
            with loops(Chooser(None)) as L, buggify_queues():
                def f():
                    res = selection(roots[k]).execute_all_queries()
                    for part in self.parts(case, i, res) if how == "parts" else [res]:
                        L.run(icon.encode(part))
                guarded(f, what)
            if how == "parts":      # the same model, its links and joints may be in another order
                self.judge(what, k, ds, icon, over, {}, ctx, 1)
            else:
                self.judge(what, k, ds, icon, over, docs, ctx, models[id(icon)])

    def parts(self, case, i, res):
        """the selected elements handed over in several calls: the entity, the joints and the links in pieces, in any order"""
        from rei.format.semantics import CognitiveEntity as S
        rng = rng_of("parts", case["cfg"]["wseed"], i)
        links = [x for x in res if isinstance(x, S.KinematicLink)]
        n = rng.randrange(len(links) + 1)
        out = [[x for x in res if isinstance(x, S.CognitiveEntity)], [x for x in res if isinstance(x, S.KinematicJoint)], links[:n], links[n:]]
        rng.shuffle(out)
        return [p for p in out if p]

    def task(self, case, ctx, ds, roots, phase, over, docs):
        chooser = Chooser(case.get("sched"))
        ctx.trace = chooser.trace
        out = []
        y = case["cfg"]["yields"]
        cancel = case["cfg"]["cancel"]

        async def one(i, k):
            icon = self.icon([], "new")
            res = await selection(roots[k]).execute()
            await asyncio.sleep(0)
            await icon.encode(res)
            out.append((i, k, icon))
        with loops(chooser) as L, buggify_queues(400000, chooser if y else None, y):
            async def main():
                ts = [asyncio.ensure_future(one(i, k)) for i, (k, _) in enumerate(phase)]
                if cancel and len(ts) > 1:
                    def on_step(loop, h):
                        if loop.steps == cancel and not ts[0].done():
                            ts[0].cancel()
                            ctx.fault("cancelled_export")
                    L.made[-1].on_step = on_step
                for r in await asyncio.gather(*ts, return_exceptions=True):
                    if isinstance(r, asyncio.CancelledError):
                        continue
                    if isinstance(r, BaseException):
                        raise r
            guarded(lambda: L.run(main()), f"{len(phase)} concurrent exports")
            ctx.steps += L.steps
        for i, k, icon in sorted(out, key=lambda x: x[0]):
            self.judge(f"export {i} of description {k} (task next to {len(phase) - 1})", k, ds, icon, over, docs, ctx, 1)

    def thread(self, case, ctx, ds, roots, phase, over, docs):
        chooser = Chooser(case.get("sched"))
        ctx.trace = chooser.trace
        out = []
        fifo = Chooser(None)
        made = []

        def body(i, k):
            icon = self.icon([], "new")

            def loop(coro):
                l = SimLoop(fifo, 300000)
                made.append(l)
                asyncio.set_event_loop(l)
                try:
                    return l.run_until_complete(coro)
                finally:
                    asyncio.set_event_loop(None)

            def f():
                loop(icon.encode(loop(selection(roots[k]).execute())))
            guarded(f, f"export {i} of description {k} (in a thread)")
            out.append((i, k, icon))
        b = Baton(chooser, limit=1500)
        with loops(fifo), buggify_queues(2000000):
            errs = b.run([lambda i=i, k=k: body(i, k) for i, (k, _) in enumerate(phase[:3])])
        for l in made:
            l.close()
        ctx.fault("thread_switch", b.switches)
        ctx.steps += b.lines
        for e in errs:
            if e is not None:
                raise e
        for i, k, icon in sorted(out, key=lambda x: x[0]):
            self.judge(f"export {i} of description {k} (thread next to {len(phase) - 1})", k, ds, icon, over, docs, ctx, 1)

    def again(self, case, ctx, ds, docs, over):
        """the same description read under another clock, exported under another ordering of sets, perhaps in another process"""
        if case["changes"] and any(s[0] == "change" for s in case["exports"]):
            return
        texts = {k: v for k, v in docs.items() if not isinstance(k, tuple)}
        if not texts:
            return
        other = export_all(case, self)
        for k, t in texts.items():
            need(other[k] == t, "description {}: read under other clocks and sets in another order, another document comes out: {}", k, differ(t, other[k]))
        hs = case["cfg"]["hashseed"]
        if hs is not None:
            import json
            import os
            import subprocess
            env = dict(os.environ, PYTHONHASHSEED=str(hs))
            p = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, sys.argv[1]); from dst.worlds.describe import child; child()",
                                repo.VERIF], input=json.dumps(case), capture_output=True, text=True, env=env)
            if p.returncode < 0:
                raise Machinery("helper process ended")
            need(p.returncode == 0, "with hash seed {} the export fails: {}", hs, p.stderr.strip().splitlines()[-1:])
            got = json.loads(p.stdout)
            ctx.fault("hash_seed")
            for k, t in texts.items():
                need(got[str(k)] == t, "description {}: with hash seed {} another document comes out: {}", k, hs, differ(t, got[str(k)]))


def export_all(case, check):
    ds, roots = check.read(case, [("unit" if c == "stall" else "stall") for c in case["cfg"]["clock"]])
    check.tie(case, ds, roots, "first")
    seeded_sets(case["cfg"]["sets"] + 1)
    out = {}
    for k in ds:
        icon = check.icon([], "new")
        with loops(Chooser(None)) as L, buggify_queues():
            def f():
                L.run(icon.encode(selection(roots[k]).execute_all_queries()))
            guarded(f, f"export of description {k}")
        out[k] = check.doc(icon)
    return out


def child():
    import json
    repo.setup()
    case = json.load(sys.stdin)
    with repo.quiet():
        out = export_all(case, P24())
    json.dump(out, sys.stdout)


def differ(a, b):
    a, b = (a or "").splitlines(), (b or "").splitlines()
    for x, y in zip(a, b):
        if x != y:
            return f"{y.strip()} instead of {x.strip()}"
    return f"{len(b)} lines instead of {len(a)}"
