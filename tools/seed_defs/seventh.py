from seedpre import *
import importlib.util, os
_sp = importlib.util.spec_from_file_location("derived", os.path.join(os.path.dirname(__file__), "derived.py"))
_dv = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(_dv)
CODEC, TENSOR = _dv.CODEC, _dv.TENSOR
SF = "rei/format/semantics/cognitive_entity_semantic_factory.py"
FG = '''
f = HypergraphFactory("f", clock)
def rel(e, n, d, w=None):
    e.unary_connect(n, w, d)
'''
SEEDS = [
    dict(id="P18-representation-kept", property="P18",
         edits=[(TR, "        self._tensor_representation = NumpyTensorRepresentation()\n        self._tensor_representation.sync", "        if self._tensor_representation is None:\n            self._tensor_representation = NumpyTensorRepresentation()\n        self._tensor_representation.sync")],
         needs="a result kept while the transformer that gave it computes for another graph",
         breaks="the result taken before changes into that of the later computation", demo=PRE + TENSOR + '''
def graph(n):
    r = f.generate_node("r")
    ns = [f.generate_node("n%d" % i, r) for i in range(n)]
    e = f.create_hyperedge(r, "e")
    rel(e, ns[0], D.INWARDS); rel(e, ns[-1], D.OUTWARDS)
    return r
t = T()
first = tensors(graph(2), t)
shape = first.W.shape
second = tensors(graph(5), t)
check(first.W.shape == shape and second.W.shape != shape, "the result kept now has the shape %s" % (first.W.shape,))
'''),
    dict(id="P20-two-levels", property="P20",
         edits=[(GI, "IndexHomomorphismGraphTensor(False, depth=math.inf)", "IndexHomomorphismGraphTensor(False, depth=2)")],
         needs="an edge that leads to a node more than two levels below the context",
         breaks="the encoding fails", demo=PRE + CODEC + '''
r = f.generate_node("r")
at = r
for n in "abcd":
    at = f.generate_node(n, at)
x, y = f.generate_node("x", r), f.generate_node("y", at)
e = f.create_hyperedge(r, "e")
rel(e, x, D.INWARDS); rel(e, y, D.OUTWARDS)
from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer as C
t = C(r)
async def go():
    await t.reset(r)
    await t.execute(r)
    return t.msg_tensor_value_updates()[0]
try:
    got = asyncio.run(go())
except Exception as err:
    got = err
check(isinstance(got, list) and len(got) > 0, "entries " + repr(got))
'''),
    dict(id="P20-slashed-names", property="P20",
         edits=[(GI, "        return el.uuid, el.id_name, self._index_homomorphism.edge(el.uuid), el.parent.uuid, el.qualified_name.encode('utf-8')", "        return el.uuid, el.qualified_name.split('/')[-1], self._index_homomorphism.edge(el.uuid), el.parent.uuid, el.qualified_name.encode('utf-8')")],
         needs="an edge whose name has a slash in it, or whose place of origin is elsewhere",
         breaks="the edge is restored with another name", demo=PRE + CODEC + '''
r = f.generate_node("r")
a = f.generate_node("a", r)
e = f.create_hyperedge(r, "in/out")
rel(e, a, D.INWARDS)
got, _ = GraphTensorCbor("other", clock, None).create_graph(encode(r, GraphTensorCbor("icon", clock, r)))
names = [x.id_name for x in got.get_subelements(lambda x: isinstance(x, HypergraphEdge))]
check(names == ["in/out"], "restored edges " + str(names))
'''),
    dict(id="P16-nothing-mapped", property="P16",
         edits=[(FO, "        return map(lambda x: self.__mapping_function(x), start)", "        return filter(lambda y: y is not None, map(lambda x: self.__mapping_function(x), start))")],
         needs="a mapping function that gives nothing for an entry",
         breaks="the entry has no image, and later images move up", demo=PRE + '''
from rei.hypergraph.factorization_operations import MapFactorizationToFactorGraph
m = MapFactorizationToFactorGraph(lambda x: None if x == 2 else x * 10)
got = list(asyncio.run(m.execute([1, 2, 3])))
check(got == [10, None, 30], "images " + str(got))
'''),
    dict(id="P24-mass-short", property="P24",
         edits=[(IN, "            el_mass.text = str(m)", "            el_mass.text = f'{m:.6g}'")],
         needs="a mass of more than six digits",
         breaks="the mass written is a rounded one", demo=SDF + '''
root = read("entity bot { kinematic g { link a { inertia { mass 1234567.25 } } } }")
x = export(root)
m = [float(y.text) for y in x.iter("mass")]
check(m == [1234567.25], "masses " + str(m))
'''),
    dict(id="P22-values-emptied", property="P22",
         edits=[(SF, "            if values is not None:\n", "            if values is not None and len(values) > 0:\n")],
         needs="a geometry created by the factory with values that are there, but empty",
         breaks="reading the attribute gives nothing instead of the empty values written", demo=PRE + '''
from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory as F
r = HypergraphFactory("f", clock).generate_node("r")
g = F("sem", clock).generate_semantic_element("MeshGeometry", "g", r, {"a": 1}, [])
check(g["values"] == [], "the values written read " + repr(g["values"]))
'''),
]
SEEDS += [
    dict(id="P23-world-names", property="P23",
         edits=[(FI, '            if reference_name == "world":', '            if reference_name.startswith("world"):')],
         needs="a link whose name begins like the fixed world",
         breaks="its joints end at the world", demo=LANG + '''
root = read("entity bot { kinematic g { " + link("world_1") + link("a") + "joint j: rev <- {world_1} rev -> {a} } }")
e = of(at(root, "g"), HypergraphEdge)[0]
ends = [x.endpoint for x in e.sub_relations]
check(ends == [at(root, "g/world_1"), at(root, "g/a")], "the joint ends at " + str([x.id_name for x in ends]))
'''),
    dict(id="P24-world-names", property="P24",
         edits=[(KI, '_r.endpoint.id_name != "world", e', 'not _r.endpoint.id_name.startswith("world"), e')],
         needs="a parent link whose name begins like the fixed world",
         breaks="its child is placed at the model origin", demo=SDF + '''
root = read("entity bot { kinematic g { " + link("world_1") + link("a") + "joint j: rev <- {world_1} rev -> {a} } }")
p = [l.find("pose") for l in export(root).iter("link") if l.get("name") == "a"]
check(p and p[0] is not None and p[0].get("relative_to"), "the link is not placed relative to its joint")
'''),
    dict(id="P23-parameter-case", property="P23",
         edits=[(FI, "lambda x: isinstance(x, ValueNode) and x.id_name == __ref_name))", "lambda x: isinstance(x, ValueNode) and x.id_name.lower() == __ref_name.lower()))")],
         needs="two parameters whose names differ in case only",
         breaks="a reference gives the value of the other one", demo=LANG + '''
r = read("entity bot { parameters { size = 7 SIZE = 2 } kinematic g { link a @ [[{SIZE} 0.0 0.0]] { inertia {mass 1.0} } } }")
sv = of(at(r, "g/a"), KinematicLink)[0]
check(sv["rigidtransformation"][1][0] == 2.0, "the parameter is " + str(sv["rigidtransformation"][1]))
'''),
]
