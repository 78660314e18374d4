"""Shared text of the demonstrations."""
CI = "rei/foundations/conceptual_item.py"; BE = "rei/hypergraph/base_elements.py"; VN = "rei/hypergraph/value_node.py"
AF = "rei/factories/abstract_factory.py"; FF = "rei/factories/foundation_factory.py"
IG = "rei/foundations/identification/identity_generator.py"; HT = "rei/foundations/hierarchical_traversal_strategies.py"
GT = "rei/foundations/hypergraph_traversal_strategies.py"; SE = "rei/foundations/query/search_elements.py"
QE = "rei/query/query_engine.py"; FO = "rei/hypergraph/factorization_operations.py"; HO = "rei/hypergraph/homomorphism_functions.py"
TR = "rei/tensor/tensor_representation.py"; AR = "rei/hypergraph/representation/abstract_representations.py"
GI = "rei/hypergraph/encoding/graph_tensor_icon.py"; CB = "rei/hypergraph/encoding/graph_tensor_icon_cbor.py"
FI = "rei/format/mapping/cognilang_file_icon.py"; SD = "rei/format/mapping/cognilang_sdf_icon.py"
KI = "rei/format/phys/kinematics/kinematic_semantic_context.py"; SG = "rei/format/phys/solid_geometry_context.py"
IN = "rei/format/phys/inertia_context.py"; AP = "apps/simulation/convert_cognilang_sdf.py"
NF = "rei/hypergraph/norm/norm_functions.py"
PRE = '''
import asyncio, itertools, math, sys
from rei.foundations.clock import MetaClock
from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation, HypergraphPort
from rei.hypergraph.value_node import ValueNode, SemanticValueNode
from rei.hypergraph.common_definitions import EnumRelationDirection as D
from rei.foundations.conceptual_item import ConceptualItem
from rei.factories.foundation_factory import HypergraphFactory

class Clock(MetaClock):
    def __init__(self, readings=None):
        self.r = iter(readings) if readings else itertools.count(10)
        self.last = None
    def get_time_ns(self):
        self.last = next(self.r)
        return self.last
    def get_time_sec(self):
        return self.get_time_ns() / 1e9

class Still(MetaClock):
    def __init__(self, t=7):
        self.t = t
    def get_time_ns(self):
        return self.t
    def get_time_sec(self):
        return self.t / 1e9

clock = Clock()
def node(name, parent=None, uuid=None):
    return HypergraphNode(name, uuid or (name + str(next(node.n))).encode(), name, clock, parent)
def edge(name, parent=None, uuid=None):
    return HypergraphEdge(name, uuid or (name + str(next(node.n))).encode(), name, clock, parent)
node.n = itertools.count()
def check(c, msg):
    if not c:
        print("property violated:", msg)
        sys.exit(1)
def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
'''
# descriptions: the parser is not in the repository, grammar.py beside the demonstration interprets its .g4 files
LANG = PRE + '''
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import grammar
L, P, V = grammar.install()
from antlr4 import InputStream, CommonTokenStream
from rei.format.mapping.cognilang_file_icon import CognilangParserFileIcon
from rei.format.semantics.CognitiveEntity import *
def tree(text):
    return P(CommonTokenStream(L(InputStream(text)))).rootnode()
def read(text, v=None):
    v = v or CognilangParserFileIcon("icon", clock)
    v.visit(tree(text))
    return v.root_entity
def of(el, kind):
    return [x for x in el.get_subelements(lambda x: isinstance(x, kind))]
def at(el, path):
    for name in path.split("/"):
        el = [x for x in el.get_subelements(lambda x: isinstance(x, (HypergraphNode, HypergraphEdge))) if x.id_name == name][0]
    return el
def link(name, *parts, at=""):
    return "link %s %s { inertia { mass 2.0 } %s }" % (name, at, " ".join(parts))
'''
SDF = LANG + '''
from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon
from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine
def export(root, icon=None):
    def stmt(d):
        return lambda e: e.depth <= d if isinstance(e, HypergraphNode) else True
    eng = HypergraphQueryEngine("engine", b"00", "engine/engine", clock, None)
    eng.add_query("l", HierarchicalPrepositionQuery(root, lambda x: isinstance(x, KinematicLink), stmt(2)))
    eng.add_query("j", HierarchicalPrepositionQuery(root, lambda x: isinstance(x, KinematicJoint), stmt(1)))
    eng.add_query("c", HierarchicalPrepositionQuery(root, lambda x: isinstance(x, CognitiveEntity), lambda x: True))
    icon = icon or CognilangSdfIcon(clock)
    async def go():
        await icon.encode(await eng.execute())
    asyncio.run(go())
    return icon.root_xml
'''
