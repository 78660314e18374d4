from seedpre import *
import importlib.util, os
_sp = importlib.util.spec_from_file_location("convert", os.path.join(os.path.dirname(__file__), "convert.py"))
_cv = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(_cv)
CONV, OPEN1 = _cv.APP, _cv.OPEN1
FG = '''
f = HypergraphFactory("f", clock)
def rel(e, n, d, w=None):
    e.unary_connect(n, w, d)
'''
SEEDS = [
    dict(id="P25-native-write", property="P25",
         edits=[(AP, '''    with open(os.path.join(args.output, root_item.id_name+".sdf"), 'w') as f:
''' + OPEN1, '''    etree.ElementTree(sdf_icon.root_xml).write(os.path.join(args.output, root_item.id_name+".sdf"), pretty_print=True)
''')],
         needs="a disk that gets full (or a limit of the file size) at the end of the document, where the native writer loses the error",
         breaks="success is reported although the document is not complete", demo=CONV + '''
os.symlink("/dev/full", os.path.join(d, "bot.sdf"))
check(raises(convert, SRC, d), "success is reported on a full disk")
'''),
    dict(id="P01-deregister-by-name", property="P01",
         edits=[(BE, "            for el in self.parent.remove_element(uuid=self.uuid):\n", "            for el in self.parent.remove_element(id_name=self.id_name):\n")],
         needs="an element with a same-named sibling is deregistered",
         breaks="the sibling leaves the container, too", demo=PRE + '''
r = node("r")
a, b = node("x", r), node("x", r)
a.deregister()
check(b.parent is r and r.cnt_subelements == 1, "the sibling was lost")
'''),
    dict(id="P03-stripped-path", property="P03",
         edits=[(CI, "        tokens = id_name.split('/')\n", "        tokens = id_name.strip('/').split('/')\n")],
         needs="a path that begins or ends with a slash",
         breaks="a path that matches nothing yields an element", demo=PRE + '''
r = node("r")
a = node("a", r)
check(list(r.get_element_by_id_name("a/")) == [], "something below a was asked for")
check(list(r.get_element_by_id_name("/a")) == [], "something below an element without name was asked for")
'''),
    dict(id="P04-attached-first", property="P04",
         edits=[(CI, """        # Timestamp
        self._update_timestamp()
        # Setup parent
        if parent is not None:
            parent.add_element(self)
""", """        # Setup parent
        if parent is not None:
            parent.add_element(self)
        else:
            # Timestamp
            self._update_timestamp()
""")],
         needs="an element without a clock created in a container",
         breaks="the refused element stays in the container", demo=PRE + '''
r = node("r")
check(raises(HypergraphNode, "a", b"a", "a", None, r), "not refused")
check(r.cnt_subelements == 0 and list(r.get_subelements(lambda x: True)) == [] and list(r.get_element_by_id_name("a")) == [], "something was left behind")
'''),
    dict(id="P07-zero-reading", property="P07",
         edits=[(CI, "            self._timestamp = self._clock.get_time_ns()\n",
                 "            self._timestamp = self._clock.get_time_ns() or getattr(self, '_timestamp', 0)\n")],
         needs="an element that is moved while its clock reads zero",
         breaks="the timestamp is older than the move", demo=PRE + '''
r = node("r")
a = node("a")
a.clock = Still(0)
r.add_element(a)
check(a.timestamp == 0, "timestamp %r" % a.timestamp)
'''),
    dict(id="P08-no-separator", property="P08",
         edits=[(AF, 'return f"{name}.{self._clock.get_time_ns()}"', 'return f"{name}{self._clock.get_time_ns()}"')],
         needs="names that end in digits next to names that do not, under readings of different length",
         breaks="two elements get one identifier", demo=PRE + '''
class Two(Still):
    pass
c = Still(11)
f = HypergraphFactory("f", c)
a = f.generate_node("a")
c.t = 1
b = f.generate_node("a1")
check(a.uuid != b.uuid, "one identifier for two elements")
'''),
    dict(id="P11-refused-start", property="P11",
         edits=[(HT, "        if current_depth < self._max_depth:\n", "        if current_depth < self._max_depth and self._filter_func(current_node):\n")],
         needs="a start that the filter refuses, with sub-elements that it accepts",
         breaks="nothing below the start is visited", demo=PRE + '''
from rei.foundations.hierarchical_traversal_strategies import BreadthFirstHierarchicalTraversal
r = node("r")
a = node("a", r)
seen = []
asyncio.run(BreadthFirstHierarchicalTraversal(lambda x: seen.append(x), lambda x: x is not r).execute(r))
check(seen == [a], "visited %r" % [x.id_name for x in seen])
'''),
    dict(id="P12-bare-name", property="P12",
         edits=[(SE, """            __next: HypergraphElement = await fringe.get()
            if __next.qualified_name == self._query_def:
                self._result.append(__next)
                return
            for n in __next.get_subelements(lambda x: True):
                await fringe.put(n)
""", """            __next: HypergraphElement = await fringe.get()
            if self._query_def in (__next.qualified_name, __next.id_name):
                self._result.append(__next)
                return
            for n in __next.get_subelements(lambda x: True):
                await fringe.put(n)
""")],
         needs="a search for the bare name of an element that is not a root",
         breaks="an element is found although it has another qualified name", demo=PRE + '''
from rei.foundations.query.search_elements import QuerySearchSubElement
r = node("r")
a = node("a", r)
q = QuerySearchSubElement()
q.query_def = "a"
asyncio.run(q.execute(r))
check(q.query_result == [], "found %r" % [x.qualified_name for x in q.query_result])
'''),
    dict(id="P16-pairs-by-edge-name", property="P16",
         edits=[(FO, """            __rel: HypergraphRelation
            if __rel.direction == EnumRelationDirection.INWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
                if __rel.parent not in self.incoming_relations:
                    self.incoming_relations[__rel.parent] = []
                self.incoming_relations[__rel.parent].append(__rel)
            if __rel.direction == EnumRelationDirection.OUTWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
                if __rel.parent not in self.outgoing_relations:
                    self.outgoing_relations[__rel.parent] = []
                self.outgoing_relations[__rel.parent].append(__rel)
""", """            __edge = __rel.parent.qualified_name
            if __rel.direction in (EnumRelationDirection.INWARDS, EnumRelationDirection.BIDIRECTIONAL):
                self.incoming_relations.setdefault(__edge, []).append(__rel)
            if __rel.direction in (EnumRelationDirection.OUTWARDS, EnumRelationDirection.BIDIRECTIONAL):
                self.outgoing_relations.setdefault(__edge, []).append(__rel)
""")],
         needs="selected relations of two edges with one name in one container",
         breaks="relations of different edges are paired", demo=PRE + FG + '''
from rei.hypergraph.factorization_operations import RelationFactorization2SubsetOperation
r = f.generate_node("r")
a, b = f.generate_node("a", r), f.generate_node("b", r)
e, g = f.create_hyperedge(r, "e"), f.create_hyperedge(r, "e")
rel(e, a, D.INWARDS)
rel(g, b, D.OUTWARDS)
got = asyncio.run(RelationFactorization2SubsetOperation().execute([*e.sub_relations, *g.sub_relations]))
check(got == [], "relations of two edges are paired")
'''),
    dict(id="P19-symmetric-eigenvalues", property="P19",
         edits=[(TR, "        v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])\n", "        v = np.abs(np.linalg.eigvalsh(self.Lp/self.total_deg))\n")],
         needs="a graph with directed relations, whose projected Laplacian is not symmetric",
         breaks="the projected entropy is that of another matrix", demo=PRE + FG + '''
import numpy as np
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer
r = f.generate_node("r")
a, b, c = (f.generate_node(x, r) for x in "abc")
e, g = f.create_hyperedge(r, "e"), f.create_hyperedge(r, "g")
rel(e, a, D.INWARDS)
rel(e, b, D.OUTWARDS)
for x in (a, b, c):
    rel(g, x, D.BIDIRECTIONAL)
t = NumpyHypergraphTensorTransformer()
asyncio.run(t.execute(r))
x = t.tensor_representation
v = np.abs(np.linalg.eigvals((np.diag(x.deg) - x.W.sum(axis=0))/x.deg.sum()))
want = sum(-y*math.log2(y) for y in v if y > 1e-12)
check(abs(x.entropy_projected() - want) < 1e-6, "%r instead of %r" % (x.entropy_projected(), want))
'''),
    dict(id="P20-empty-edge", property="P20",
         edits=[(GI, "        return [self.__msg_edge_tuple(i) for i in list(self._context.sub_edges)]\n",
                 "        return [self.__msg_edge_tuple(i) for i in list(self._context.sub_edges) if i.cnt_subelements > 0]\n")],
         needs="an edge that has (or has left) no relations",
         breaks="the edge is not restored", demo=PRE + FG + '''
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
r = f.generate_node("r")
e = f.create_hyperedge(r, "e")
enc = GraphTensorCbor("icon", clock, r)
async def go():
    await enc.update_context(r)
    await enc.update_coo()
    return enc.full_msg()
root, _ = GraphTensorCbor("icon", clock, None).create_graph(asyncio.run(go()))
check([x.uuid for x in root.sub_edges] == [e.uuid], "the edge is missing")
'''),
    dict(id="P22-none-ignored", property="P22",
         edits=[(VN, "        self.__attribute_dictionary[name] = arg\n", """        if arg is not None:
            self.__attribute_dictionary[name] = arg
""")],
         needs="an attribute that is overwritten with None",
         breaks="the old value is read", demo=PRE + '''
s = SemanticValueNode(b"s", "s", "s", None, {"a": 1})
s.add_named_attribute("a", None)
check(s["a"] is None, "reads %r" % s["a"])
'''),
    dict(id="P23-material-remembered", property="P23",
         edits=[(FI, "        mat_name = 'white'\n", "        mat_name = getattr(self, '_last_material', 'white')\n"),
                (FI, "                mat_name = ctx.material_name.text\n", "                mat_name = self._last_material = ctx.material_name.text\n")],
         needs="a visual without material after one with a material, also of a description read before",
         breaks="a material is taken over that was not declared", demo=LANG + '''
v = CognilangParserFileIcon("icon", clock)
one = read("entity one { kinematic g { %s } }" % link("a", "visual (material red) {cylinder [0.5 2.0]}"), v)
two = read("entity two { kinematic g { %s } }" % link("b", "visual {cylinder [0.5 2.0]}"), v)
from rei.format.phys.solid_geometry_context import *
got = []
def walk(e):
    for x in e.get_subelements(lambda x: True):
        if isinstance(x, SemanticValueNode) and "material_name" in str(x.__dict__):
            got.append(x["material_name"])
        elif hasattr(x, "get_subelements"):
            walk(x)
walk(two)
check(got == ["white"], "materials %r" % got)
'''),
    dict(id="P24-first-model", property="P24",
         edits=[(SD, "                self.current_model = model_el\n", """                if self.current_model is None:
                    self.current_model = model_el
""")],
         needs="an exporter that is used for a second entity",
         breaks="the links and joints of the second entity are in the model of the first", demo=SDF + '''
one = read("entity one { kinematic g { " + link("a") + " } }")
two = read("entity two { kinematic g { " + link("b") + " } }")
icon = CognilangSdfIcon(clock)
export(one, icon)
x = export(two, icon)
got = [(m.get("name"), [l.get("name") for l in m.findall("link")]) for m in x.findall("model")]
check(got == [("one", ["a"]), ("two", ["b"])], str(got))
'''),
]
