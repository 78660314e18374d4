from seedpre import *
FG = '''
f = HypergraphFactory("f", clock)
def rel(e, n, d, w=None):
    e.unary_connect(n, w, d)
'''
CODEC = FG + '''
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
def encode(ctx, enc=None):
    enc = enc or GraphTensorCbor("icon", clock, ctx)
    async def go():
        await enc.update_context(ctx)
        await enc.update_coo()
        return enc.full_msg()
    return asyncio.run(go())
def values(root):
    return [(v.id_name, list(v.get_values())) for v in root.get_subelements(lambda x: isinstance(x, ValueNode))]
'''
TENSOR = FG + '''
import numpy as np
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer as T
def tensors(ctx, t=None):
    t = t or T()
    asyncio.run(t.execute(ctx))
    return t.tensor_representation
'''
SEEDS = [
    # ---- P16
    dict(id="P16-identity-of-relations", property="P16",
         edits=[(FO, """                for e1 in o_e:
                    if (e.endpoint is not e1.endpoint) or self.self_loop:
                        self.__relation_list.append([e, e1])
""", """                for e1 in filter(lambda x: x is not e or self.self_loop, o_e):
                    self.__relation_list.append([e, e1])
""")],
         needs="an edge with an incoming and a separate outgoing relation to one node, factorized over selected edges without self loops",
         breaks="pairs on one endpoint are given although self loops are not requested", demo=PRE + FG + '''
from rei.hypergraph.factorization_operations import Factorization2SubsetOperation as F
r = f.generate_node("r")
a, b = f.generate_node("a", r), f.generate_node("b", r)
e = f.create_hyperedge(r, "e")
rel(e, b, D.OUTWARDS)
for i, d in enumerate((D.INWARDS, D.OUTWARDS)):
    e.add_element(HypergraphRelation(b"r%d" % i, f"r{i}", "r", a, None, parent=e, direction=d))
got = [(x[0].endpoint.id_name, x[1].endpoint.id_name) for x in asyncio.run(F().execute([a, b, e]))]
check(got == [("a", "b")], str(got))
'''),
    dict(id="P16-relations-kept", property="P16",
         edits=[(FO, '''        super().__init__()
        self.nodes = None
        self.self_loop = self_loop

    async def execute(self, start) -> list[asyncio.Future]:
        self.__relation_list = []
        self.nodes = [x for x in filter(lambda x: isinstance(x, HypergraphNode), start)]
        self.incoming_relations = {}
        self.outgoing_relations = {}
''', '''        super().__init__()
        self.nodes = None
        self.self_loop = self_loop
        self.incoming_relations = {}
        self.outgoing_relations = {}

    async def execute(self, start) -> list[asyncio.Future]:
        self.__relation_list = []
        self.nodes = [x for x in filter(lambda x: isinstance(x, HypergraphNode), start)]
''')],
         needs="one factorization object used for two selections",
         breaks="relations of the first selection are paired again in the second", demo=PRE + FG + '''
from rei.hypergraph.factorization_operations import RelationFactorization2SubsetOperation as F
r = f.generate_node("r")
a, b, c = [f.generate_node(n, r) for n in "abc"]
e = f.create_hyperedge(r, "e")
rel(e, a, D.INWARDS); rel(e, b, D.OUTWARDS); rel(e, c, D.OUTWARDS)
rs = list(e.sub_relations)
op = F()
asyncio.run(op.execute(rs[:2]))
got = asyncio.run(op.execute([rs[0], rs[2]]))
check(got == [[rs[0], rs[2]]], "relations outside the selection are paired")
'''),
    dict(id="P16-bidirectional-not-followed", property="P16",
         edits=[(FO, '''                    for i in o_e:
                        await fringe.put(i.endpoint)''', '''                    for i in (x for x in o_e if x.direction is EnumRelationDirection.OUTWARDS):
                        await fringe.put(i.endpoint)''')],
         needs="edges that can only be reached through a bidirectional relation",
         breaks="reachable edges are missing from the factorization", demo=PRE + FG + '''
from rei.hypergraph.factorization_operations import Factorization2Operation as F
r = f.generate_node("r")
a, b, c = [f.generate_node(n, r) for n in "abc"]
e = f.create_hyperedge(r, "e")
rel(e, a, D.INWARDS); rel(e, b, D.BIDIRECTIONAL)
e2 = f.create_hyperedge(b, "e2")
rel(e2, b, D.INWARDS); rel(e2, c, D.OUTWARDS)
got = {x[0].parent.id_name for x in asyncio.run(F().execute(r))}
check(got == {"e", "e2"}, str(got))
'''),
    # ---- P17
    dict(id="P17-value-lookup-kept", property="P17",
         edits=[(HO, '''        self.__hom_depth_edge: dict[int, bytes] = {}
        self.__hom_i_values: dict[int, bytes] = {}

    async def execute''', '''        self.__hom_depth_edge: dict[int, bytes] = {}

    async def execute''')],
         needs="a recomputation on the same object after values were removed, then a look at an index beyond the current ones",
         breaks="an index that is not in use leads to a value that is gone", demo=PRE + FG + '''
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor as H
r = f.generate_node("r")
f.create_value(r, "v", [1]); f.create_value(r, "w", [2])
h = H(True)
asyncio.run(h.execute(r))
for _ in r.remove_element("w"): pass
asyncio.run(h.execute(r))
check(raises(h.ival, 1), "a removed value still has an index")
'''),
    dict(id="P17-pairs-renumbered", property="P17",
         edits=[(HO, '''        for v, i in values:
            self.__hom_values[v] = i''', '''        for i, (v, _) in enumerate(values):
            self.__hom_values[v] = i''')],
         needs="stored pairs that are not in the order of their indices",
         breaks="a computation rebuilt from its pairs has other value indices", demo=PRE + FG + '''
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor as H
h = H(True)
h.reset_from_bijection([], [], [(b"b", 1), (b"a", 0)])
check(h.val(b"b") == 1 and h.ival(0) == b"a", "rebuilt indices differ")
'''),
    # ---- P18
    dict(id="P18-positive-weights-only", property="P18",
         edits=[(GT, "        if weight[0] != 0.0:", "        if weight[0] > 0.0:"), (GT, "        if weight[1] != 0.0:", "        if weight[1] > 0.0:")],
         needs="relations whose weight is negative",
         breaks="entries of negative weight are missing from the tensors", demo=PRE + TENSOR + '''
r = f.generate_node("r")
a, b = f.generate_node("a", r), f.generate_node("b", r)
w = f.create_value(r, "w", [-2.0])
e = f.create_hyperedge(r, "e")
rel(e, a, D.INWARDS, w); rel(e, b, D.OUTWARDS, w)
t = tensors(r)
check((t.W == -2.0).sum() == 1 and t.Io.any() and t.Ii.any(), "no entry for a negative weight")
'''),
    dict(id="P18-rounded-weight", property="P18",
         edits=[(NF, "        return np.sum(np.array(arg))", "        return np.sum(np.array(arg, dtype=np.float32))")],
         needs="weights beyond single precision (large counts, or small parts next to large ones)",
         breaks="the tensor holds another number than the relation's weight", demo=PRE + TENSOR + '''
r = f.generate_node("r")
a, b = f.generate_node("a", r), f.generate_node("b", r)
w = f.create_value(r, "w", [16777217.0])
e = f.create_hyperedge(r, "e")
rel(e, a, D.INWARDS, w); rel(e, b, D.OUTWARDS, w)
check(16777217.0 in tensors(r).W, "the weight is not in the tensor")
'''),
    dict(id="P18-representation-reused", property="P18",
         edits=[(TR, '''        self._tensor_representation = NumpyTensorRepresentation()
        self._tensor_representation.synchronize_structure_dimensions(homomorphism)
''', '''        if self._tensor_representation is None or self._tensor_representation.W.shape[0] != homomorphism.cnt_edges \\
                or self._tensor_representation.W.shape[1] != homomorphism.cnt_node:
            self._tensor_representation = NumpyTensorRepresentation()
            self._tensor_representation.synchronize_structure_dimensions(homomorphism)
''')],
         needs="two computations by one transformer for graphs (or states of a graph) with equally many nodes and edges",
         breaks="entries of the earlier graph remain", demo=PRE + TENSOR + '''
def graph(swap):
    r = f.generate_node("r")
    a, b = f.generate_node("a", r), f.generate_node("b", r)
    e = f.create_hyperedge(r, "e")
    rel(e, b if swap else a, D.INWARDS); rel(e, a if swap else b, D.OUTWARDS)
    return r
t = T()
tensors(graph(False), t)
check((tensors(graph(True), t).W != 0).sum() == 1, "entries of another graph remain")
'''),
    # ---- P19
    dict(id="P19-compare-sums", property="P19",
         edits=[(TR, "coeff = 1.0/(np.all(self.Io == self.Ii, axis=0) + 1)", "coeff = 1.0/((np.sum(self.Io, axis=0) == np.sum(self.Ii, axis=0)) + 1)")],
         needs="a node that is incoming in one edge and outgoing in another with equal sums",
         breaks="its degree is halved as if it took part in both directions everywhere", demo=PRE + TENSOR + '''
r = f.generate_node("r")
a, b, c = [f.generate_node(n, r) for n in "abc"]
for x, y in ((a, b), (b, c)):
    e = f.create_hyperedge(r, "e" + x.id_name)
    rel(e, x, D.INWARDS); rel(e, y, D.OUTWARDS)
t = tensors(r)
check(t.deg.tolist() == [1.0, 2.0, 1.0], str(t.deg.tolist()))
'''),
    dict(id="P19-cached-degrees", property="P19",
         edits=[(AR, '''    @property
    def deg(self):''', '''    @functools.cached_property
    def deg(self):'''), (AR, "import abc\n\n", "import abc\nimport functools\n\n")],
         needs="the degree read, then single entries set or the representation synchronised with another graph, then read again",
         breaks="the degree does not belong to the tensors held", demo=PRE + TENSOR + '''
r = f.generate_node("r")
a, b = [f.generate_node(n, r) for n in "ab"]
e = f.create_hyperedge(r, "e")
rel(e, a, D.INWARDS); rel(e, b, D.OUTWARDS)
t = tensors(r)
first = t.deg.tolist()
t.fill_tensors(0, 1, 0, 5.0, None)
check(t.deg.tolist() == t.degree_matrix().tolist() == np.diag(t.D).tolist(), "the degree vector is out of date")
'''),
    dict(id="P19-own-matrix", property="P19",
         edits=[(TR, "        return self.DD - self.W\n", '''        lap = self.DD
        if not lap.any():
            # Nothing to subtract from
            lap = self.W
        else:
            lap -= self.W
        return lap
''')],
         needs="a weight tensor without row sums (weights that cancel out), its Laplacian used or changed",
         breaks="the Laplacian has the wrong sign and shares its storage with the weights", demo=PRE + TENSOR + '''
r = f.generate_node("r")
a, b, c = [f.generate_node(n, r) for n in "abc"]
e = f.create_hyperedge(r, "e")
rel(e, a, D.INWARDS); rel(e, b, D.OUTWARDS, f.create_value(r, "w", [1.0])); rel(e, c, D.OUTWARDS, f.create_value(r, "v", [-1.0]))
t = tensors(r)
t._weight_tensor[:] = 0
t._weight_tensor[0, 0, 1] = 1.0
t._weight_tensor[0, 2, 1] = -1.0
check((t.L == t.DD - t.W).all(), "the Laplacian does not follow its formula")
'''),
    # ---- P20
    dict(id="P20-index-kept", property="P20",
         edits=[(GI, '''        self._index_homomorphism = IndexHomomorphismGraphTensor(False, depth=math.inf)
        return await''', '''        if self._index_homomorphism is not None and self._index_homomorphism.cnt_node == 1 + sum(
                1 for _ in context.sub_nodes) and all(raisefree(self._index_homomorphism, x) for x in context.sub_nodes):
            # Nodes are the same as before
            return []
        self._index_homomorphism = IndexHomomorphismGraphTensor(ignore_root=False, depth=math.inf)
        return await'''), (GI, '''class CoordinateObjectTransformer(GraphMonad):
''', '''def raisefree(index: IndexHomomorphismGraphTensor, el) -> bool:
    try:
        return index.node(el.uuid) >= 0
    except KeyError:
        return False


class CoordinateObjectTransformer(GraphMonad):
''')],
         needs="an encoder used again after only edges or values changed, or nodes changed their order",
         breaks="the snapshot is encoded with an index map of the earlier graph, or fails", demo=PRE + CODEC + '''
r = f.generate_node("r")
a, b = f.generate_node("a", r), f.generate_node("b", r)
enc = GraphTensorCbor("icon", clock, r)
encode(r, enc)
r.remove_element("a", a.uuid).__next__()
r.add_element(a)
root, h = GraphTensorCbor("icon", clock, None).create_graph(encode(r, enc))
check(h.node(b.uuid) == 1 and h.node(a.uuid) == 2, "indices of an earlier order")
'''),
    dict(id="P20-decode-once", property="P20",
         edits=[(CB, '''        frag = cbor2.loads(msg)
        # Get messages''', '''        if msg == self._last_msg:
            return self._context, self._homomorphism
        self._last_msg = msg
        frag = cbor2.loads(msg)
        # Get messages'''), (CB, "        self._context: HypergraphNode | None = None\n", "        self._last_msg, self._context = None, None\n")],
         needs="one snapshot decoded twice by one object, with a change of the first graph or an update in between",
         breaks="the second decoding gives the graph decoded before, with its changes", demo=PRE + CODEC + '''
r = f.generate_node("r")
f.create_value(r, "v", [1])
m = encode(r)
d = GraphTensorCbor("icon", clock, None)
one, _ = d.create_graph(m)
next(one.get_subelements(lambda x: isinstance(x, ValueNode))).update_values([9])
two, _ = d.create_graph(m)
check(one is not two and values(two) == [("v", [1])], "decoding again gives the changed graph: " + str(values(two)))
'''),
    dict(id="P20-nodes-by-name", property="P20",
         edits=[(GI, "for i in list(self._context.sub_nodes)])", "for i in sorted(self._context.sub_nodes, key=lambda n: n.id_name)])")],
         needs="sub-nodes attached in another order than that of their names",
         breaks="the replica has its nodes in another order", demo=PRE + CODEC + '''
r = f.generate_node("r")
for n in ("b", "a"):
    f.generate_node(n, r)
root, _ = GraphTensorCbor("icon", clock, None).create_graph(encode(r))
check([n.id_name for n in root.sub_nodes] == ["b", "a"], "order of the sub-nodes")
'''),
    # ---- P21
    dict(id="P21-changed-values-only", property="P21",
         edits=[(GI, '''        return [(self._index_homomorphism.val(v.uuid), v.get_values()) for v in self._context.sub_values]
''', '''        update = []
        for v in self._context.sub_values:
            if self._sent.get(v.uuid) != v.get_values():
                self._sent[v.uuid] = v.get_values()
                update.append((self._index_homomorphism.val(v.uuid), v.get_values()))
        return update
'''), (GI, '''        self._msg_relations = []

    async def setup''', '''        self._msg_relations = []
        # Values sent in the last update
        self._sent = {}

    async def setup''')],
         needs="an update that is lost (or a receiver restarted from an older snapshot) before the next one",
         breaks="the replica misses changes after an update has been delivered", demo=PRE + CODEC + '''
r = f.generate_node("r")
v, w = f.create_value(r, "v", [1]), f.create_value(r, "w", [1])
s, d = GraphTensorCbor("icon", clock, r), GraphTensorCbor("icon", clock, None)
root, _ = d.create_graph(encode(r, s))
v.update_values([2])
s.msg_value_update()          # lost
w.update_values([3])
d.from_msg_update_values(s.msg_value_update())
check(values(root) == values(r), str(values(root)))
'''),
    dict(id="P21-duplicate-ignored", property="P21",
         edits=[(CB, '''        frag = cbor2.loads(msg)
        # Resolve''', '''        # Duplicates of the last update change nothing
        if msg == self._last_update:
            return
        frag = cbor2.loads(msg)
        self._last_update = msg
        # Resolve'''), (CB, "        self._context: HypergraphNode | None = None\n", "        self._last_update, self._context = None, None\n")],
         needs="the same update delivered before and after the receiver is restored from a snapshot",
         breaks="the restored replica does not take the update", demo=PRE + CODEC + '''
r = f.generate_node("r")
v = f.create_value(r, "v", [1])
s, d = GraphTensorCbor("icon", clock, r), GraphTensorCbor("icon", clock, None)
snap = encode(r, s)
d.create_graph(snap)
v.update_values([2])
u = s.msg_value_update()
d.from_msg_update_values(u)
root, _ = d.create_graph(snap)
d.from_msg_update_values(u)
check(values(root) == [("v", [2])], str(values(root)))
'''),
    # ---- P22
    dict(id="P22-attributes-aliased", property="P22",
         edits=[(VN, "self.__attribute_dictionary = {x: attr[x] for x in attr}", "self.__attribute_dictionary = attr if type(attr) is dict else dict(attr)")],
         needs="a dictionary that the caller goes on using, or that two elements are made from",
         breaks="attributes change from outside and between elements", demo=PRE + '''
d = {"a": 1}
x = SemanticValueNode(b"x", "x", "x", None, d)
y = SemanticValueNode(b"y", "y", "y", None, d)
x.add_named_attribute("b", 2)
check(y["b"] is None and d == {"a": 1}, "attributes are shared")
'''),
    dict(id="P22-falsy-attributes", property="P22",
         edits=[(VN, '''        if item not in self.__attribute_dictionary:
            return None
        return self.__attribute_dictionary[item]''', '''        return self.__attribute_dictionary.get(item) or None''')],
         needs="an attribute whose value is 0, False, an empty string or an empty list",
         breaks="it reads back as nothing", demo=PRE + '''
x = SemanticValueNode(b"x", "x", "x", None, {"mass": 0.0})
check(x["mass"] == 0.0 and x["mass"] is not None, "an attribute of zero is lost")
'''),
    dict(id="P22-one-cursor", property="P22",
         edits=[(VN, '''        return (self[i] for i in range(self.dim))
''', '''        self._recent_element = 0
        return self

    def __next__(self):
        if self._recent_element >= self.dim:
            raise StopIteration
        self._recent_element += 1
        return self[self._recent_element - 1]
''')],
         needs="two iterations of one value at the same time",
         breaks="they share their position and skip contents", demo=PRE + '''
v = ValueNode(b"v", "v", "v", [1, 2])
check([(a, b) for a in v for b in v] == [(1, 1), (1, 2), (2, 1), (2, 2)], "nested iteration")
'''),
    dict(id="P22-storage-handed-out", property="P22",
         edits=[(VN, "        return [v for v in self._values]", "        return self._values")],
         needs="a caller that changes the list it asked for",
         breaks="the value node changes", demo=PRE + '''
v = ValueNode(b"v", "v", "v", [1, 2])
v.get_values().append(3)
check(v.get_values() == [1, 2] and v.dim == 2, "the copy writes through")
'''),
    dict(id="P22-caller-list-kept", property="P22",
         edits=[(VN, "            self._values = [x for x in values]\n", "            self._values = values if isinstance(values, list) else list(values)\n")],
         needs="a list the caller goes on changing after the value was made from it",
         breaks="the value node changes with the list", demo=PRE + '''
l = [1, 2]
v = ValueNode(b"v", "v", "v", l)
l[0] = 5
check(v.get_values() == [1, 2], "the value shares the caller's list")
'''),
    # ---- P23
    dict(id="P23-parameter-prefix", property="P23",
         edits=[(FI, "isinstance(x, ValueNode) and x.id_name == __ref_name))", "isinstance(x, ValueNode) and x.id_name.startswith(__ref_name)))")],
         needs="a parameter whose name begins with that of one declared later",
         breaks="a reference takes the value of the longer named parameter", demo=LANG + '''
r = read("entity bot { parameters { SIZEX = 7 SIZE = 2 } kinematic g { link a @ [[{SIZE} 0.0 0.0]] { inertia {mass 1.0} } } }")
sv = of(at(r, "g/a"), KinematicLink)[0]
check(sv["rigidtransformation"][1][0] == 2.0, "the parameter is " + str(sv["rigidtransformation"][1]))
'''),
    dict(id="P23-parameters-remembered", property="P23",
         edits=[(FI, '''                p = next(self.__parameters.get_subelements(
                    lambda x: isinstance(x, ValueNode) and x.id_name == __ref_name))
                for _p''', '''                p = self.__parameter_cache.get(__ref_name)
                if p is None:
                    p = next(self.__parameters.get_subelements(
                        lambda x: isinstance(x, ValueNode) and x.id_name == __ref_name))
                    self.__parameter_cache[__ref_name] = p
                for _p'''), (FI, '''        self.__icon_name = icon_name
''', '''        self.__icon_name = icon_name
        self.__parameter_cache = {}
''')],
         needs="two descriptions read one after another whose parameters have the same name",
         breaks="the second description gets the values of the first", demo=LANG + '''
t = "entity bot { parameters { SIZE = %d } kinematic g { link a @ [[{SIZE} 0.0 0.0]] { inertia {mass 1.0} } } }"
v = CognilangParserFileIcon("icon", clock)
read(t % 2, v)
r = read(t % 3, v)
sv = of(at(r, "g/a"), KinematicLink)[0]
check(sv["rigidtransformation"][1][0] == 3.0, "the parameter is " + str(sv["rigidtransformation"][1]))
'''),
    dict(id="P23-joint-rotation", property="P23",
         edits=[(FI, "_rotation = [float(x)*math.pi/180.0 for x in _rotation]", "_rotation = [round(float(x)*math.pi/180.0, 3) for x in _rotation]")],
         needs="a joint with a rotation in degrees whose value is read from the relation",
         breaks="the angle differs from the declared one", demo=LANG + '''
r = read("entity bot { kinematic g { link a { inertia {mass 1.0} } link b { inertia {mass 1.0} } joint j: fix <- {a} rev -> {b} [[1.0 0.0 0.0] d [90.0 0.0 0.0]] } }")
e = at(r, "g/j")
w = [x.weight for x in e.sub_relations if x.weight is not None][0]
check(abs(w[1][0] - math.pi / 2) < 1e-9, str(w))
'''),
    # ---- P24
    dict(id="P24-prefix-dropped", property="P24",
         edits=[(SD, '''join_w_prefix_separator([j1.parent.id_name, "connect", __canonical_link.id_name], '.', prefix),''',
                 '''join_w_prefix_separator([j1.parent.id_name, "connect", __canonical_link.id_name], '.'),''')],
         needs="a graph instantiated inside a graph that is itself instantiated",
         breaks="the joint's name lacks the prefix its link refers to", demo=SDF + '''
r = read("entity bot { kinematic g { kinematic h { kinematic k { %s } %s joint i: fix <- {m} fix -> {k} } %s joint j: fix <- {a} fix -> {h} } }"
         % (link("n"), link("m"), link("a")))
x = export(r)
names = {e.attrib["name"] for e in x.iter() if e.tag in ("link", "joint")}
for p in x.iter("pose"):
    check(p.attrib.get("relative_to", "j.i.connect.n") in names | {"j.i.connect.n"}, p.attrib.get("relative_to"))
check("j.i.connect.n" in names, str(names))
'''),
    dict(id="P24-queries-left", property="P24",
         edits=[(SD, '''        self.__sub_engine.clear()
        prefix_t1''', '''        prefix_t1''')],
         needs="two joints that instantiate nested graphs",
         breaks="links of the first are written again with the second", demo=SDF + '''
r = read("entity bot { kinematic g { kinematic h { %s } kinematic k { %s } %s joint j: fix <- {a} fix -> {h} joint i: fix <- {a} fix -> {k} } }"
         % (link("m"), link("n"), link("a")))
x = export(r)
names = sorted(e.attrib["name"] for e in x.iter("link"))
check(names == ["a", "i.n", "j.m"], str(names))
'''),
    dict(id="P24-cylinder-inertia-order", property="P24",
         edits=[(IN, "    ixy = 1.0/12.0*mass*(3*r*r+ l*l)", "    ixy = 1.0/12.0*mass*(3*r*r + l*r)")],
         needs="a link with a cylinder whose radius and length differ",
         breaks="the inertia is not that of the declared cylinder", demo=SDF + '''
r = read("entity bot { kinematic g { %s } }" % link("a", "collision {cylinder [0.5 2.0]}"))
x = export(r)
check(abs(float(x.find(".//ixx").text) - 1.0/12.0*2.0*(3*0.25 + 4.0)) < 1e-9, x.find(".//ixx").text)
'''),
    dict(id="P24-material-title", property="P24",
         edits=[(SG, 'material["material_name"].capitalize()', 'material["material_name"].title()')],
         needs="a material whose name has several words (an underscore or a digit inside)",
         breaks="the material named in the document does not exist", demo=SDF + '''
r = read("entity bot { kinematic g { %s } }" % link("a", "visual (material flat_black) {cylinder [0.5 2.0]}"))
check(export(r).find(".//script/name").text == "Gazebo/Flat_black", export(r).find(".//script/name").text)
'''),
]
