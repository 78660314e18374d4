from seedpre import *
FG = '''
f = HypergraphFactory("f", clock)
def rel(e, n, d, w=None):
    e.unary_connect(n, w, d)
'''
SEEDS = [
    dict(id="P01-same-path-parent", property="P01",
         edits=[(CI, '''            if element.parent is not None:
                for e in element.parent''', '''            if element.parent is not None and element.parent.qualified_name != self.qualified_name:
                for e in element.parent''')],
         needs="an element moved between two containers that have the same qualified name",
         breaks="the element stays in the container it was moved from", demo=PRE + '''
r, s = node("r"), node("r")
a = node("a", r)
s.add_element(a)
check(a.parent is s and list(s.get_subelements(lambda x: True)) == [a], "not moved")
check(list(r.get_subelements(lambda x: True)) == [] and r.cnt_subelements == 0, "still in the container it was moved from")
'''),
    dict(id="P07-clock-spreads", property="P07",
         edits=[(CI, '''    def clock(self, arg: MetaClock):
        self._clock = arg
''', '''    def clock(self, arg: MetaClock):
        for e in [self, *self.get_subelements(lambda x: isinstance(x, ConceptualItem))]:
            e._clock = arg
''')],
         needs="a clock given to a container whose sub-elements have clocks of their own",
         breaks="the sub-elements are stamped with another element's clock", demo=PRE + '''
r = node("r")
a = node("a", r)
r.clock = Still(5)
s = node("s")
before = clock.last
s.add_element(a)
check(a.timestamp > before, "the element is stamped by another clock: %r" % a.timestamp)
'''),
    dict(id="P08-path-tail", property="P08",
         edits=[(FF, "'/'.join([parent.qualified_name, id_name])", "'/'.join([*parent.qualified_name.split('/')[-2:], id_name])")],
         needs="equally named elements in two branches that only differ above the grandparent, created at one reading of the clock",
         breaks="two elements get one identifier", demo=PRE + '''
f = HypergraphFactory("f", Still(3))
def branch(n):
    x = f.generate_node(n)
    for m in ("a", "b"):
        x = f.generate_node(m, x)
    return f.generate_node("c", x)
check(branch("left").uuid != branch("right").uuid, "one identifier for two elements")
'''),
    dict(id="P12-name-walk", property="P12",
         edits=[(SE, """            for n in __next.get_subelements(lambda x: True):
                await fringe.put(n)
                fringe.task_done()
""", """            # Only elements on the way have what is searched below them
            for n in __next.get_subelements(lambda x: x.id_name in self._query_def.split('/')):
                await fringe.put(n)
                fringe.task_done()
""")],
         needs="an element on the way whose own name contains a slash (as unnamed collisions have)",
         breaks="the element is not found although it is below the start", demo=PRE + '''
from rei.foundations.query.search_elements import QuerySearchSubElement
r = node("r")
a = node("g/coll", r)
b = node("b", a)
q = QuerySearchSubElement()
q.query_def = b.qualified_name
asyncio.run(q.execute(r))
check(q.query_result == [b], "an element below the start is not found")
'''),
    dict(id="P16-loops-by-name", property="P16",
         edits=[(FO, """                    if (o_e.endpoint is not i_e.endpoint) or self.self_loop:
                        self.__relation_list.append([i_e, o_e])
""", """                    if o_e.endpoint.id_name == i_e.endpoint.id_name and not self.self_loop:
                        continue
                    self.__relation_list.append([i_e, o_e])
""")],
         needs="selected relations of one edge to two different nodes with one name",
         breaks="the pair is taken for a self loop and left out", demo=PRE + FG + '''
from rei.hypergraph.factorization_operations import RelationFactorization2SubsetOperation as F
r = f.generate_node("r")
a, b = f.generate_node("a", r), f.generate_node("b", r)
x, y = f.generate_node("x", a), f.generate_node("x", b)
e = f.create_hyperedge(r, "e")
rel(e, x, D.INWARDS); rel(e, y, D.OUTWARDS)
got = asyncio.run(F().execute([x, y, *e.sub_relations]))
check([(p.endpoint, q.endpoint) for p, q in got] == [(x, y)], "a pair of equally named nodes is missing")
'''),
    dict(id="P18-larger-kept", property="P18",
         edits=[(TR, "        self._incidence_matrix_out[i_e, i_n1] = i_w\n", "        self._incidence_matrix_out[i_e, i_n1] = max(i_w, self._incidence_matrix_out[i_e, i_n1])\n")],
         needs="an outgoing relation with a negative weight",
         breaks="the outgoing incidence of the node is zero although it takes part in an entry", demo=PRE + FG + '''
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer as T
r = f.generate_node("r")
a, b = f.generate_node("a", r), f.generate_node("b", r)
w = f.create_value(r, "w", [-2.0])
e = f.create_hyperedge(r, "e")
rel(e, a, D.INWARDS, w); rel(e, b, D.OUTWARDS, w)
t = T()
asyncio.run(t.execute(r))
t = t.tensor_representation
check((t.W != 0).sum() == 1 and t.Io.any() and t.Ii.any(), "incidence of a negative weight")
'''),
    dict(id="P19-total-of-one-side", property="P19",
         edits=[(TR, "        return np.sum(self.degree_matrix())\n", "        return np.sum(self.Io)\n")],
         needs="the total degree of a representation",
         breaks="the total degree is not the sum of the degrees", demo=PRE + FG + '''
import numpy as np
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer as T
r = f.generate_node("r")
a, b, c = (f.generate_node(n, r) for n in "abc")
for n in range(2):
    e = f.create_hyperedge(r, f"e{n}")
    rel(e, a, D.INWARDS); rel(e, b, D.OUTWARDS); rel(e, c, [D.INWARDS, D.OUTWARDS][n])
t = T()
asyncio.run(t.execute(r))
t = t.tensor_representation
check(abs(t.total_deg - np.sum(t.D)) < 1e-9, "total degree")
'''),
    dict(id="P20-endpoints-once", property="P20",
         edits=[(GI, "            for rel in el:\n", "            for rel in {x.endpoint.uuid: x for x in el}.values():\n")],
         needs="an edge with two relations to one node (one incoming, one outgoing)",
         breaks="the replica lacks the second relation", demo=PRE + FG + '''
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
r = f.generate_node("r")
a = f.generate_node("a", r)
e = f.create_hyperedge(r, "e")
for i, d in enumerate((D.INWARDS, D.OUTWARDS)):
    e.add_element(HypergraphRelation(b"r%d" % i, f"r{i}", "r", a, None, parent=e, direction=d))
enc = GraphTensorCbor("icon", clock, r)
async def go():
    await enc.update_context(r)
    await enc.update_coo()
    return enc.full_msg()
root, _ = GraphTensorCbor("icon", clock, None).create_graph(asyncio.run(go()))
got = [x.direction for x in next(root.sub_edges).sub_relations]
check(got == [D.INWARDS, D.OUTWARDS], "relations of the replica: %r" % got)
'''),
    dict(id="P24-axis-of-the-parent", property="P24",
         edits=[(KI, """    if jrel['axis'] is not None:
        __axis = jrel['axis']
""", """    for __r in (j0, j1):
        for __x in __r.get_subelements(lambda x: isinstance(x, KinematicJoint)):
            if __x['axis'] is not None:
                __axis = __x['axis']
""")],
         needs="a joint whose relation to the parent has an axis and whose relation to the child has none",
         breaks="the joint turns about an axis that was not declared for it", demo=SDF + '''
root = read("entity bot { kinematic g { " + link("a") + link("b") + link("c") +
            "joint j: rev <- {a} | [1.0 0.0 0.0] rev -> {b} rev -> {c} | [0.0 1.0 0.0] } }")
got = {x.findtext("child"): x.findtext("axis/xyz") for x in export(root).iter("joint")}
check(got == {"b": "0.0 0.0 1.0", "c": "0.0 1.0 0.0"}, str(got))
'''),
    dict(id="P25-script-optional", property="P25",
         edits=[(AP, """    with open(os.path.join(args.output, root_item.id_name+".load.sh"), 'w') as f:
        f.write(f"ros2 run gazebo_ros spawn_entity.py -entity {root_item.id_name} -file {root_item.id_name}.sdf")""",
"""    try:
        with open(os.path.join(args.output, root_item.id_name+".load.sh"), 'w') as f:
            f.write(f"ros2 run gazebo_ros spawn_entity.py -entity {root_item.id_name} -file {root_item.id_name}.sdf")
    except PermissionError:
        print("the load script is protected, it is kept")""")],
         needs="a load script that may not be written",
         breaks="success is reported although the script was not written", demo=LANG + '''
import builtins, shutil, tempfile, atexit
import apps.simulation.convert_cognilang_sdf as app
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d, True)
src = os.path.join(d, "in.cogni")
open(src, "w").write("entity bot { kinematic g { link a { inertia {mass 1.0} } } }")
real = builtins.open
def guarded(p, *a, **k):
    if str(p).endswith(".load.sh"):
        raise PermissionError(13, "Permission denied")
    return real(p, *a, **k)
sys.argv = ["convert", "--input", src, "--output", d]
builtins.open = guarded
try:
    bad = raises(app.main)
finally:
    builtins.open = real
check(bad, "success is reported although the script could not be written")
'''),
]
