from seedpre import *
import importlib.util, os
_sp = importlib.util.spec_from_file_location("derived", os.path.join(os.path.dirname(__file__), "derived.py"))
_dv = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(_dv)
CODEC, TENSOR = _dv.CODEC, _dv.TENSOR
FG = '''
f = HypergraphFactory("f", clock)
def rel(e, n, d, w=None):
    e.unary_connect(n, w, d)
'''
SEEDS = [
    dict(id="P03-lookup-under-way", property="P03",
         edits=[(CI, "                yield from list(self._index_elements_by_name[tokens[0]].values())\n", "                yield from self._index_elements_by_name[tokens[0]].values()\n")],
         needs="a same-named element attached or removed between two elements of the answer to one lookup",
         breaks="the lookup fails half way", demo=PRE + '''
r = node("r")
a, b = node("x", r), node("x", r)
it = r.get_element_by_id_name("x")
check(next(it) is a, "another element")
node("x", r)
try:
    rest = list(it)
except RuntimeError as e:
    rest = e
check(rest == [b], "the answer under way ends with " + repr(rest))
'''),
    dict(id="P18-entries-kept", property="P18",
         edits=[(TR, "        self.repr_depth = repr_depth\n", "        self.repr_depth = repr_depth\n        self._entries = queue.Queue()\n"),
                (TR, "        q = queue.Queue()\n        tr", "        q = self._entries\n        tr")],
         needs="a computation that fails at a weight that can not be summed, and another one by the same transformer",
         breaks="the entries of the failed computation appear in the next tensor", demo=PRE + TENSOR + '''
r = f.generate_node("r")
a, b, c = [f.generate_node(n, r) for n in "abc"]
w = f.create_value(r, "w", [None, "x"])
e = f.create_hyperedge(r, "e")
rel(e, a, D.INWARDS); rel(e, b, D.OUTWARDS); rel(e, c, D.OUTWARDS, w)
t = T()
check(raises(tensors, r, t), "the weight can be summed")
w.update_values([1.0])
list(e.remove_element(uuid=list(e.sub_relations)[1].uuid))
check((tensors(r, t).W != 0).sum() == 1, "entries of the failed computation remain")
'''),
    dict(id="P20-entries-kept", property="P20",
         edits=[(GI, "        self._msg_incidence_in = []\n        q = queue.Queue()\n", "        self._msg_incidence_in = []\n        q = self._entries\n"),
                (GI, "        self._msg_relations = []\n\n    async def setup", "        self._msg_relations = []\n        self._entries = queue.Queue()\n\n    async def setup")],
         needs="an encoding that fails at a weight that can not be summed, and another one by the same encoder",
         breaks="coordinate lists hold entries of the failed encoding", demo=PRE + CODEC + '''
r = f.generate_node("r")
a, b, c = [f.generate_node(n, r) for n in "abc"]
w = f.create_value(r, "w", [None, "x"])
e = f.create_hyperedge(r, "e")
rel(e, a, D.INWARDS); rel(e, b, D.OUTWARDS); rel(e, c, D.OUTWARDS, w)
from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer as C
c0 = C(r)
async def go():
    await c0.reset(r)
    try:
        await c0.execute(r)
        check(False, "the weight can be summed")
    except TypeError:
        pass
    w.update_values([1.0])
    list(e.remove_element(uuid=list(e.sub_relations)[1].uuid))
    await c0.execute(r)
asyncio.run(go())
c1 = C(r)
async def fresh():
    await c1.reset(r)
    await c1.execute(r)
asyncio.run(fresh())
check(c0._msg_value_tensor == c1._msg_value_tensor, "entries of the failed encoding remain")
'''),
    dict(id="P19-nearly-equal", property="P19",
         edits=[(TR, "np.all(self.Io == self.Ii, axis=0)", "np.all(np.isclose(self.Io, self.Ii), axis=0)")],
         needs="a node whose incoming and outgoing weights differ by less than a hundred thousandth",
         breaks="its degree is halved as if both were the same", demo=PRE + TENSOR + '''
r = f.generate_node("r")
a, b = [f.generate_node(n, r) for n in "ab"]
e = f.create_hyperedge(r, "e")
rel(e, a, D.BIDIRECTIONAL); rel(e, b, D.BIDIRECTIONAL)
t = tensors(r)
t.fill_tensors(0, 0, 1, 1.0 + 2.0 ** -20, None)
full = np.sum(t.Io, axis=0) + np.sum(t.Ii, axis=0)
want = full / (np.all(t.Io == t.Ii, axis=0) + 1)
check((t.deg == want).all() and (t.Io != t.Ii).any(), str(t.deg))
'''),
    dict(id="P13-true-only", property="P13",
         edits=[(QE, "        if self.__preposition(x):\n", "        if self.__preposition(x) is True:\n")],
         needs="a predicate that answers with an object that counts as true (a list, a number)",
         breaks="matching elements are left out", demo=PRE + FG + '''
from rei.query.query_engine import HierarchicalPrepositionQuery as Q, HypergraphQueryEngine as E
r = f.generate_node("r")
a = f.generate_node("a", r); b = f.generate_node("b", a)
eng = E("engine", b"00", "engine/engine", clock, None)
eng.add_query("q", Q(r, lambda x: [y for y in x.get_subelements(lambda z: isinstance(z, HypergraphNode))], lambda x: True))
check(asyncio.run(eng.execute()) == [r, a], "nodes with sub-nodes are not found")
'''),
    dict(id="P10-one-list-only", property="P10",
         edits=[(FF, """        return self.connect_2factor_edges(container, edge_name, in_dir_nodes, out_dir_nodes,
                                          (EnumRelationDirection.INWARDS, EnumRelationDirection.OUTWARDS))
""", """        directions = (EnumRelationDirection.INWARDS, EnumRelationDirection.OUTWARDS)
        if not out_dir_nodes:
            # Only one list
            return self.connect_nodes(container, edge_name, in_dir_nodes)
        return self.connect_2factor_edges(container, edge_name, in_dir_nodes, out_dir_nodes, directions)
""")],
         needs="a directed connection whose list of outward endpoints is empty",
         breaks="the inward endpoints are connected in both directions", demo=PRE + FG + '''
r = f.generate_node("r")
a, b = f.generate_node("a", r), f.generate_node("b", r)
e = f.connect_dir_edges(r, "e", [a, b], [])
check([x.direction for x in e.sub_relations] == [D.INWARDS] * 2, "directions " + str([x.direction for x in e.sub_relations]))
'''),
    dict(id="P23-three-numbers", property="P23",
         edits=[(FI, "                values = list(self.__extract_vector_field_values(geom_ctx.field_float_vector()))\n",
                 "                # Vectors have up to three components\n                values = list(self.__extract_vector_field_values(geom_ctx.field_float_vector()))[:3]\n")],
         needs="a vector field of more than three numbers",
         breaks="the numbers after the third are lost", demo=LANG + '''
r = read("entity bot { kinematic g { link a { inertia {mass 1.0} visual { mesh [1.0 2.0 3.0 4.0] } } } }")
def below(x):
    yield x
    for y in x.get_subelements(lambda _: True):
        yield from below(y)
got = [list(x["values"]) for x in below(r) if isinstance(x, MeshGeometry)]
check(got == [[1.0, 2.0, 3.0, 4.0]], "the geometry has the values " + str(got))
'''),
    dict(id="P24-any-parent", property="P24",
         edits=[(KI, '''                incom = list(filter(lambda _r: _r.endpoint.id_name != "world", e.get_incoming_relations()))
                if len(incom) > 0:''', '''                incom = [_r.endpoint.id_name for _r in e.get_incoming_relations()]
                if len(incom) > 0 and "world" not in incom:''')],
         needs="a joint with two parents, one of them the world",
         breaks="the link is placed at the model origin instead of relative to its joint", demo=SDF + '''
root = read("entity bot { kinematic g { link world { inertia {mass 1.0} } " + link("a") + link("b") +
            "joint j: rev <- {world} rev <- {a} rev -> {b} } }")
x = export(root)
p = [l.find("pose") for l in x.iter("link") if l.get("name") == "b"]
check(p and p[0] is not None and p[0].get("relative_to"), "the link is not placed relative to its joint")
'''),
    dict(id="P20-message-kept", property="P20",
         edits=[(CB, "    def full_msg(self):\n", "    def full_msg(self):\n        key = (self._coo_tr._context.uuid, self._coo_tr._context.cnt_subelements)\n        if self._full[0] == key:\n            return self._full[1]\n"),
                (CB, "        return cbor2.dumps(frag)", "        self._full = key, cbor2.dumps(frag)\n        return self._full[1]"),
                (CB, "        self.__icon_name = icon_name\n        # Store", "        self.__icon_name = icon_name\n        self._full = None, None\n        # Store")],
         needs="an encoder used again after a change that leaves the number of sub-elements as it was",
         breaks="the message is that of the earlier state", demo=PRE + CODEC + '''
r = f.generate_node("r")
v = f.create_value(r, "v", [1])
enc = GraphTensorCbor("icon", clock, r)
encode(r, enc)
v.update_values([2])
got, _ = GraphTensorCbor("other", clock, None).create_graph(encode(r, enc))
check(values(got) == [("v", [2])], "restored " + str(values(got)))
'''),
    dict(id="P22-index-outside", property="P22",
         edits=[(VN, "    def get_value(self, i):\n        return self._values[i]", "    def get_value(self, i):\n        return self._values[i] if 0 <= i < self.dim else None")],
         needs="an index that counts from the end, or lies outside the contents",
         breaks="the last value reads as none, and an index outside is answered", demo=PRE + FG + '''
v = f.create_value(f.generate_node("r"), "v", [1, 2])
check(v.get_value(-1) == v[-1] == 2, "get_value(-1) is " + str(v.get_value(-1)))
check(raises(v.get_value, 2), "an index outside is answered")
'''),
]
