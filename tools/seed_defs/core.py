from seedpre import *
SEEDS = [
    dict(id="P06-batches", property="P06",
         edits=[(CI, '''    async def add_elements(self, elements: typing.Iterable[typing.Any]) -> asyncio.Future:
        async def __add(element):
            self.add_element(element)
        return await self.__execute_operations([__add(x) for x in list(elements)])
''', '''    async def add_elements(self, elements: typing.Iterable[typing.Any], batch: int = 64) -> asyncio.Future:
        async def __add(element):
            self.add_element(element)
        elements = list(elements)
        # Large additions do not block the loop
        while True:
            future = await self.__execute_operations([__add(x) for x in elements[:batch]])
            elements = elements[batch:]
            if len(elements) == 0 or future.exception() is not None:
                return future
''')],
         needs="a bulk addition of more than one batch in which a member of the first batch is refused",
         breaks="members behind the batch of the refused one are not added", demo=PRE + '''
async def main():
    r = node("r")
    a = node("a", r)
    more = [node("m") for _ in range(100)]
    f = await r.add_elements([a] + more)
    check(raises(f.result), "the refused member is not reported")
    check(all(m.parent is r for m in more), "members that can be added are not")
asyncio.run(main())
'''),
    dict(id="P06-parent-stays", property="P06",
         edits=[(CI, '''                # Invalidate parent
                el.parent = None
                el._depth = 0
                self.__update_element(el)
                # Decrement element count
                self._cnt_subelements -= 1
                # Yield element
                yield el
            else:
                __tmp''', '''                el._depth = 0
                self.__update_element(el)
                # Decrement element count
                self._cnt_subelements -= 1
                # Yield element
                yield el
                # Invalidate parent
                if el.uuid not in self._sub_elements:
                    el.parent = None
            else:
                __tmp''')],
         needs="a removal by name and identifier, then a look at the name, depth or timestamps of the removed elements",
         breaks="the removed element keeps the qualified name it had below the container", demo=PRE + '''
async def main():
    r = node("r")
    a = node("a", r)
    f = await r.remove_elements([("a", a.uuid)])
    f.result()
    check(a.parent is None and a.qualified_name == "a", "the element removed in bulk is called " + a.qualified_name)
asyncio.run(main())
'''),
    dict(id="P08-ascii-names", property="P08",
         edits=[(IG, '.encode("utf-8"))', '.encode("ascii", "replace"))')],
         needs="two names of one length that differ in characters outside ASCII only, within one clock reading",
         breaks="different elements get one identifier", demo=PRE + '''
f = HypergraphFactory("f", Still())
r = f.generate_node("r")
check(f.generate_node("kar\\u00e1", None).uuid != f.generate_node("kar\\u00f6", None).uuid, "identifiers of differently named nodes coincide")
'''),
    dict(id="P08-parent-name-only", property="P08",
         edits=[(FF, "uid = self.unique_identifier.generate_uid('/'.join([parent.qualified_name, id_name]))",
                 "uid = self.unique_identifier.generate_uid('/'.join([parent.id_name, id_name]))")],
         needs="same-named nodes under same-named containers at different places within one clock reading",
         breaks="nodes with different container paths get one identifier", demo=PRE + '''
f = HypergraphFactory("f", Still())
r = f.generate_node("r")
a, b = f.generate_node("left", r), f.generate_node("right", r)
al, bl = f.generate_node("leg", a), f.generate_node("leg", b)
check(f.generate_node("foot", al).uuid != f.generate_node("foot", bl).uuid, "identifiers of nodes in different containers coincide")
'''),
    dict(id="P08-coarse-stamp", property="P08",
         edits=[(AF, 'return f"{name}.{self._clock.get_time_ns()}"', 'return f"{name}.{self._clock.get_time_sec():.6f}"')],
         needs="the same name and path created twice less than a microsecond apart",
         breaks="elements created at different clock readings get one identifier", demo=PRE + '''
f = HypergraphFactory("f", Clock([1_000_000_001 + 40 * i for i in range(99)]))
check(f.generate_node("a").uuid != f.generate_node("a").uuid, "identifiers at different clock readings coincide")
'''),
    dict(id="P09-unique-subset", property="P09",
         edits=[(BE, "yield from map(lambda x: x.endpoint, self.get_subelements(lambda x: isinstance(x, HypergraphRelation)))",
                 "yield from {x.endpoint.id_name: x.endpoint for x in self.get_subelements(lambda x: isinstance(x, HypergraphRelation))}.values()")],
         needs="an edge with same-named endpoints from different containers",
         breaks="the endpoint list of the edge misses endpoints", demo=PRE + '''
r = node("r")
a, b = node("leg", node("left", r)), node("leg", node("right", r))
e = edge("e", r)
e.unary_connect(a, None, D.INWARDS)
e.unary_connect(b, None, D.OUTWARDS)
check(list(e.induced_subset) == [x.endpoint for x in e.sub_relations] == [a, b], "endpoint list and relations disagree")
'''),
    dict(id="P09-eager-removal", property="P09",
         edits=[(BE, '''        _el = super().remove_element(id_name, uuid)
''', '''        _el = list(super().remove_element(id_name, uuid))
''')],
         needs="same-named relations (same-named endpoints at one clock reading) and a removal by name that is abandoned after the first",
         breaks="relations leave the edge while their ports stay on the endpoints", demo=PRE + '''
clock.get_time_ns = lambda: 5
r = node("r")
a, b = node("leg", node("left", r)), node("leg", node("right", r))
e = edge("e", r)
e.unary_connect(a, None, D.INWARDS)
e.unary_connect(b, None, D.OUTWARDS)
name = next(e.sub_relations).id_name
g = e.remove_element(name)
next(g)
g.close()
rels = list(e.sub_relations)
for n in (a, b):
    check([p.endpoint for p in n.sub_ports] == [x for x in rels if x.endpoint is n], "relations and ports disagree after an abandoned removal")
'''),
    dict(id="P09-self-loop-incoming", property="P09",
         edits=[(BE, '''            lambda x: x.direction == EnumRelationDirection.INWARDS or x.direction == EnumRelationDirection.BIDIRECTIONAL,
            self.sub_relations)
''', '''            lambda x: x.relation_incidence_value[0] > 0.0, self.get_subelements(
                lambda x: isinstance(x, HypergraphRelation) and (x.weight is None or any(x.weight))))
''')],
         needs="an inward relation whose weight currently has only zero values",
         breaks="the relation is no longer among the incoming ones", demo=PRE + '''
r = node("r")
a = node("a", r)
v = ValueNode(b"v", "v", "v", [1.0])
e = edge("e", r)
e.unary_connect(a, v, D.INWARDS)
v.update_value(0, 0.0)
check(list(e.get_incoming_relations()) == list(e.sub_relations), "an inward relation is not among the incoming ones")
'''),
    dict(id="P10-empty-values", property="P10",
         edits=[(FF, '''        if values is None:
            node_values = zip(nodes, len(nodes)*[None])
''', '''        if not values:
            node_values = zip(nodes, len(nodes)*[None])
''')],
         needs="connecting endpoints with an empty list of values",
         breaks="the request is carried out instead of being refused", demo=PRE + '''
f = HypergraphFactory("f", clock)
r = f.generate_node("r")
a = f.generate_node("a", r)
check(raises(f.connect_nodes, r, "e", [a], D.INWARDS, []), "values that do not match the endpoints are accepted")
check(not list(r.sub_edges) and not list(a.sub_ports), "something is left behind")
'''),
    dict(id="P10-second-slice", property="P10",
         edits=[(FF, "node_out_values = zip(out_dir_nodes, values[len(in_dir_nodes):])", "node_out_values = zip(out_dir_nodes, values[-len(out_dir_nodes):])"),
                (FF, "if len(values) != (len(out_dir_nodes)+len(in_dir_nodes)):", "if len(values) < (len(out_dir_nodes)+len(in_dir_nodes)):")],
         needs="more values than endpoints in a connector with two endpoint lists",
         breaks="the request is carried out with values dropped from the middle", demo=PRE + '''
f = HypergraphFactory("f", clock)
r = f.generate_node("r")
a, b = f.generate_node("a", r), f.generate_node("b", r)
vs = [f.create_value(None, "v%d" % i, [float(i)]) for i in range(3)]
check(raises(f.connect_2factor_edges, r, "e", [a], [b], (D.INWARDS, D.OUTWARDS), vs), "values that do not match the endpoints are accepted")
check(not list(r.sub_edges) and not list(a.sub_ports), "something is left behind")
'''),
    dict(id="P11-zero-limit", property="P11",
         edits=[(HT, '''        super().__init__(visitor_func, filter_func, ignore_root)
        self._max_depth = max_depth

    async def execute(self, start) -> list[asyncio.Future]:
        _fringe, _task_list = await self._setup_visit_algorithm(start)
        await self._fill_visit_fringe(start, _fringe, 0)
''', '''        super().__init__(visitor_func, filter_func, ignore_root)
        self._max_depth = max_depth or math.inf

    async def execute(self, start) -> list[asyncio.Future]:
        _fringe, _task_list = await self._setup_visit_algorithm(start)
        await self._fill_visit_fringe(start, _fringe, 0)
''')],
         needs="a breadth-first traversal limited to depth zero",
         breaks="elements below the limit are visited", demo=PRE + '''
from rei.foundations.hierarchical_traversal_strategies import DepthLimitedBreadthVisitChildren
r = node("r")
a = node("a", r)
seen = []
asyncio.run(DepthLimitedBreadthVisitChildren(lambda x: seen.append(x), lambda x: True, 0).execute(r))
check(seen == [r], "elements below the depth limit are visited")
'''),
    dict(id="P11-bounded-stack", property="P11",
         edits=[(HT, '''class DepthFirstHierarchicalTraversal(HierarchicalTraversal):

    async def execute(self, start) -> list[asyncio.Future]:
        _fringe, _task_list = await self._setup_visit_algorithm(start, asyncio.LifoQueue())
''', '''class DepthFirstHierarchicalTraversal(HierarchicalTraversal):

    async def execute(self, start) -> list[asyncio.Future]:
        _fringe, _task_list = await self._setup_visit_algorithm(start, asyncio.LifoQueue(maxsize=1024))
''')],
         needs="a depth-first traversal of a container with more than a thousand elements",
         breaks="the traversal never ends", demo=PRE + '''
from rei.foundations.hierarchical_traversal_strategies import DepthFirstHierarchicalTraversal
r = node("r")
for i in range(1100):
    node("n", r)
seen = []
async def main():
    try:
        await asyncio.wait_for(DepthFirstHierarchicalTraversal(lambda x: seen.append(x), lambda x: True).execute(r), 20)
    except asyncio.TimeoutError:
        pass
asyncio.run(main())
check(len(seen) == 1101, "the traversal does not visit every element")
'''),
    dict(id="P11-kept-stack", property="P11",
         edits=[(HT, '''class DepthLimitedDepthVisitChildren(HierarchicalTraversal):

    def __init__(self, visitor_func: typing.Callable[[typing.Any], typing.Any],
                 filter_func: typing.Callable[[typing.Any], bool], max_depth: int, ignore_root: bool = False) -> None:
        super().__init__(visitor_func, filter_func, ignore_root)
        self._max_depth = max_depth

    async def execute(self, start) -> list[asyncio.Future]:
        _fringe, _task_list = await self._setup_visit_algorithm(start, asyncio.LifoQueue())
''', '''class DepthLimitedDepthVisitChildren(HierarchicalTraversal):

    def __init__(self, visitor_func: typing.Callable[[typing.Any], typing.Any],
                 filter_func: typing.Callable[[typing.Any], bool], max_depth: int, ignore_root: bool = False) -> None:
        super().__init__(visitor_func, filter_func, ignore_root)
        self._max_depth = max_depth
        self._stack = asyncio.LifoQueue()

    async def execute(self, start) -> list[asyncio.Future]:
        _fringe, _task_list = await self._setup_visit_algorithm(start, self._stack)
''')],
         needs="a depth-limited depth-first traversal that is executed again after a visitor error ended an execution",
         breaks="elements of the aborted execution are visited", demo=PRE + '''
from rei.foundations.hierarchical_traversal_strategies import DepthLimitedDepthVisitChildren
r = node("r")
a, b, c = node("a", r), node("b", r), node("c", r)
seen, fail = [], [True]
def visit(x):
    if fail[0] and x is c:
        raise ValueError
    seen.append(x)
t = DepthLimitedDepthVisitChildren(visit, lambda x: True, 3)
raises(lambda: asyncio.run(t.execute(r)))
fail[0], seen[:] = False, []
asyncio.run(t.execute(r))
check(seen == [r, c, b, a], "a traversal after an aborted one visits " + str([x.id_name for x in seen]))
'''),
    dict(id="P12-reset-afterwards", property="P12",
         edits=[(SE, '''        self.visited_set = set()
        return await super().execute(start)
''', '''        _task_list = await super().execute(start)
        self.visited_set = set()
        return _task_list
''')],
         needs="re-using a search object after one of its searches was cancelled half way or failed",
         breaks="elements the aborted search had visited are not searched any more", demo=PRE + '''
from rei.foundations.query.search_elements import QuerySearchElement
r = node("r")
a = node("a", r)
b = node("b", a)
q = QuerySearchElement()
q.query_def = "r/a/b"
get = b.get_subelements
def fail(f):
    raise ValueError
a.get_subelements, keep = fail, a.get_subelements
raises(lambda: asyncio.run(q.execute(r)))
a.get_subelements = keep
asyncio.run(q.execute(r))
check(q.query_result == [b], "a search after an aborted one does not find the element")
'''),
    dict(id="P12-hit-kept", property="P12",
         edits=[(SE, '''        self._result = []
        __fringe''', '''        self._result = [x for x in self._result if x.qualified_name == self._query_def and x.parent is not None]
        if len(self._result) > 0:
            return []
        __fringe''')],
         needs="one search object used for the same name in another hierarchy",
         breaks="the result is an element of the earlier hierarchy", demo=PRE + '''
from rei.foundations.query.search_elements import QuerySearchSubElement
r, s = node("r"), node("r")
a, b = node("a", r), node("a", s)
q = QuerySearchSubElement()
q.query_def = "r/a"
asyncio.run(q.execute(r))
check(q.query_result == [a], "not found")
asyncio.run(q.execute(s))
check(q.query_result == [b], "the search answers for another start")
'''),
    dict(id="P13-first-query-stays", property="P13",
         edits=[(QE, "self.__queries[name] = query", "self.__queries.setdefault(name, query)")],
         needs="a query added under a name that is in use",
         breaks="the replaced query still contributes and the new one does not", demo=PRE + '''
from rei.query.query_engine import HierarchicalPrepositionQuery as Q, HypergraphQueryEngine
r = node("r")
a, b = node("a", r), node("b", r)
e = HypergraphQueryEngine("e", b"e", "e", clock)
e.add_query("q", Q(r, lambda x: x is a, lambda x: True))
e.add_query("q", Q(r, lambda x: x is b, lambda x: True))
check(asyncio.run(e.execute()) == [b], "a replaced query contributes")
'''),
    dict(id="P13-failing-predicate", property="P13",
         edits=[(QE, '''        if self.__preposition(x):
            await''', '''        try:
            matches = self.__preposition(x)
        except (AttributeError, KeyError, IndexError):
            # Elements without the attribute asked for do not match
            matches = False
        if matches:
            await''')],
         needs="a predicate that raises one of the common lookup errors",
         breaks="the element is dropped silently instead of the execution failing", demo=PRE + '''
from rei.query.query_engine import HierarchicalPrepositionQuery as Q, HypergraphQueryEngine
r = node("r")
a = node("a", r)
e = HypergraphQueryEngine("e", b"e", "e", clock)
e.add_query("q", Q(r, lambda x: {}["missing"], lambda x: True))
check(raises(lambda: asyncio.run(e.execute())), "a failing predicate is not reported")
'''),
    dict(id="P13-ambient-loop", property="P13",
         edits=[(QE, '''        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
''', '''        loop = asyncio.get_event_loop_policy().get_event_loop()
''')],
         needs="a synchronous execution after asyncio.run in the same thread, or in another thread",
         breaks="the execution fails", demo=PRE + '''
from rei.query.query_engine import HierarchicalPrepositionQuery as Q, HypergraphQueryEngine
r = node("r")
a = node("a", r)
e = HypergraphQueryEngine("e", b"e", "e", clock)
e.add_query("q", Q(r, lambda x: x is a, lambda x: True))
check(asyncio.run(e.execute()) == [a], "asynchronous execution")
check(not raises(e.execute_all_queries), "the synchronous execution fails after asyncio.run")
'''),
    dict(id="P14-shared-factor-fringe", property="P14",
         edits=[(FO, '''    async def execute(self, start) -> list[asyncio.Future]:
        self.__relation_list = []
        __fringe = asyncio.Queue()
''', '''    __pending = asyncio.Queue()

    async def execute(self, start) -> list[asyncio.Future]:
        self.__relation_list = []
        __fringe = self.__pending
''')],
         needs="a factorization next to one that was suspended, failed or cancelled half way",
         breaks="edges are missing from or added to the result", demo=PRE + '''
from rei.hypergraph.factorization_operations import Factorization2Operation as F
f = HypergraphFactory("f", clock)
r, s = f.generate_node("r"), f.generate_node("s")
a, b = f.generate_node("a", r), f.generate_node("b", r)
e = f.connect_dir_edges(r, "e", [a], [b])
f.connect_dir_edges(r, "e2", [a], [b])
class Bad(HypergraphNode):
    @property
    def sub_edges(self):
        yield from super().sub_edges
        raise ValueError
bad = Bad("bad", b"bad", "bad", clock)
f.connect_dir_edges(bad, "e3", [a], [b])
raises(lambda: asyncio.run(F().execute(bad)))
res = asyncio.run(F().execute(s))
check(res == [], "a factorization returns relations of a failed one")
'''),
    dict(id="P14-weights-in-place", property="P14",
         edits=[(GT, "w = np.multiply(np.array(_next.relation_incidence_value), norm_weight)",
                 "w = _next._relation_incidence_value\n                    np.multiply(w, norm_weight, out=w)")],
         needs="a weighted relation that is visited by two tensor computations",
         breaks="a computation changes what the relation shows, and the next one multiplies the weight again", demo=PRE + '''
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer as T
f = HypergraphFactory("f", clock)
r = f.generate_node("r")
a, b = f.generate_node("a", r), f.generate_node("b", r)
e = f.connect_nodes(r, "e", [a, b], D.BIDIRECTIONAL, [f.create_value(None, "v", [2.0]), f.create_value(None, "w", [3.0])])
before = [list(x.relation_incidence_value) for x in e.sub_relations]
t = T()
asyncio.run(t.execute(r))
w = t.tensor_representation.W.copy()
check(before == [list(x.relation_incidence_value) for x in e.sub_relations], "a tensor computation changes relations")
asyncio.run(t.execute(r))
check((w == t.tensor_representation.W).all(), "the second computation differs")
'''),
    dict(id="P15-text-on-class", property="P15",
         edits=[(IG, '''        s = hashlib.sha3_224()
        s.update(self._id_generation_function(self._context_name, arg).encode("utf-8"))
        return s.digest()''', '''        cls = type(self)
        cls._text = self._id_generation_function(self._context_name, arg).encode("utf-8")
        s = hashlib.sha3_224()
        s.update(cls._text)
        return s.digest()''')],
         needs="two threads that create elements of separate graphs, preempted between building and hashing the text",
         breaks="an element gets the identifier of an element of the other graph", demo=PRE + '''
import rei.foundations.identification.identity_generator as ig
real = ig.hashlib.sha3_224
f, g = HypergraphFactory("f", Still(1)), HypergraphFactory("g", Still(2))
want = f.generate_node("a").uuid
busy = []
class Hashlib:
    @staticmethod
    def sha3_224(*a):
        # another thread runs here
        if not busy:
            busy.append(1)
            g.generate_node("b")
        return real(*a)
ig.hashlib = Hashlib
check(f.generate_node("a").uuid == want, "work on another graph changes an identifier")
'''),
    dict(id="P15-context-on-class", property="P15",
         edits=[(CB, "        self._context = _root\n", "        GraphTensorCbor._context = _root\n"),
                (CB, "        self._context: HypergraphNode | None = None\n", ""),
                (CB, "class GraphTensorCbor(object):\n", "class GraphTensorCbor(object):\n\n    _context: HypergraphNode | None = None\n")],
         needs="two receivers that restored different graphs, the first then gets a value update",
         breaks="the update reaches the graph of the other receiver, or is refused", demo=PRE + '''
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor as G
def sender(n):
    f = HypergraphFactory("f" + n, clock)
    r = f.generate_node("r" + n)
    v = f.create_value(r, "v" + n, [1.0])
    s = G("s", clock, r)
    asyncio.run(s.update_context(r))
    asyncio.run(s.update_coo())
    return v, s
v1, s1 = sender("1")
v2, s2 = sender("2")
g1, g2 = G("g", clock, None), G("g", clock, None)
r1, _ = g1.create_graph(s1.full_msg())
r2, _ = g2.create_graph(s2.full_msg())
v1.update_value(0, 5.0)
check(not raises(g1.from_msg_update_values, s1.msg_value_update()), "an update is refused")
check([x.get_values() for x in r1.sub_values] == [[5.0]] and [x.get_values() for x in r2.sub_values] == [[1.0]], "the update reached another graph")
'''),
]
