From a2545957b0449fc831de02e7ae59a7ab78187cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 01/55] fix: traversals no longer need asyncio.coroutine
 (removed in Python 3.11)

---
 framework_python/rei/foundations/graph_monad.py       | 11 +++++++++++
 .../foundations/hierarchical_traversal_strategies.py  |  8 ++++----
 .../foundations/hypergraph_traversal_strategies.py    |  6 +++---
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/framework_python/rei/foundations/graph_monad.py b/framework_python/rei/foundations/graph_monad.py
index df3bc20..5845976 100644
--- a/framework_python/rei/foundations/graph_monad.py
+++ b/framework_python/rei/foundations/graph_monad.py
@@ -5,6 +5,17 @@ import typing
 from abc import ABC
 
 
+def visit_future(result: typing.Any) -> asyncio.Future:
+    """
+    Wrap the result of a visitor call as a future (a coroutine result gets scheduled)
+    """
+    if asyncio.iscoroutine(result) or asyncio.isfuture(result):
+        return asyncio.ensure_future(result)
+    future = asyncio.get_running_loop().create_future()
+    future.set_result(result)
+    return future
+
+
 class GraphMonad(metaclass=abc.ABCMeta):
 
     def __init__(self) -> None:
diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 3d70877..c180758 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -5,7 +5,7 @@ import typing
 import copy
 from abc import ABC
 
-from rei.foundations.graph_monad import GraphVisitor
+from rei.foundations.graph_monad import GraphVisitor, visit_future
 from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
 from rei.hypergraph.common_definitions import EnumRelationDirection
 
@@ -26,7 +26,7 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
-            _task_list.append(asyncio.coroutine(self._visitor_func(start)))
+            _task_list.append(visit_future(self._visitor_func(start)))
         return _fringe, _task_list
 
     async def _fill_visit_fringe(self, current_node, _fringe: asyncio.Queue, current_depth: int = 0):
@@ -39,8 +39,8 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         if not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
-            # Add coroutine (TODO: seek for another solution to create coroutines)
-            _task_list.append(asyncio.coroutine(self._visitor_func(_next)))
+            # Add the result of the visit as a future
+            _task_list.append(visit_future(self._visitor_func(_next)))
             await self._traverse(_fringe, _task_list)
 
 
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 07f1851..5b42164 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -5,7 +5,7 @@ import typing
 
 import numpy as np
 
-from rei.foundations.graph_monad import GraphVisitor
+from rei.foundations.graph_monad import GraphVisitor, visit_future
 from rei.hypergraph.base_elements import HypergraphElement, HypergraphNode, HypergraphEdge, HypergraphRelation
 from rei.hypergraph.common_definitions import EnumRelationDirection
 from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
@@ -47,13 +47,13 @@ class HypergraphTraversal(GraphVisitor):
 
     def __fill_relations(self, weight, endpoint_id, edge_id, norm_weight, el, task_list: list):
         if weight[0] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(visit_future(
                 self._visitor_func([(endpoint_id, x, edge_id, weight[0], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
                                                     self.get_node_identification(el))])))
 
         if weight[1] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(visit_future(
                 self._visitor_func([(x, endpoint_id, edge_id, weight[1], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
                                                     self.get_node_identification(el))])))
-- 
2.43.0


From 986e2b611ce8924aa247cfc08a385400aad34da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 02/55] fix: use float instead of the removed np.float alias

---
 framework_python/rei/tensor/tensor_representation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index 0de4167..c9f91ce 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -71,9 +71,9 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
             if self._incidence_matrix_in is not None:
                 del self._incidence_matrix_in
             ho = self._current_homomorphism
-            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
+            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=float)
+            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
+            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
 
     def fill_tensors(self, i_e, i_n0, i_n1, i_w, val):
         self._weight_tensor[i_e, i_n1, i_n0] = i_w
-- 
2.43.0


From e6c45ae00d24dfb723050968d5608bbdacc286b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 03/55] fix: query engine awaits its coroutines in order,
 starts each execution clean and reports failures

---
 framework_python/rei/query/query_engine.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/query/query_engine.py b/framework_python/rei/query/query_engine.py
index ab51e61..1b38ff3 100644
--- a/framework_python/rei/query/query_engine.py
+++ b/framework_python/rei/query/query_engine.py
@@ -27,6 +27,9 @@ class HierarchicalPrepositionQuery(GraphMonad):
                                                                             HypergraphEdge | SemanticValueNode) and traversal_statement(x))
 
     async def prefilter(self):
+        # Drop whatever an earlier (possibly failed) execution left behind
+        self.__prefilter = []
+        self.__result = asyncio.Queue()
         await self.__bfs.execute(self.__start)
         return self.__prefilter
 
@@ -76,7 +79,9 @@ class HypergraphQueryEngine(HypergraphNode):
         prefilter = self.prefilter_queries()
         for i in prefilter:
             __tasks.extend(await i)
-        await asyncio.wait(__tasks)
+        # Keep the order of visits and let failures surface
+        for t in __tasks:
+            await t
         res = []
         __task_list = await self.task_result_queries_lists()
         for t in __task_list:
@@ -89,7 +94,9 @@ class HypergraphQueryEngine(HypergraphNode):
         tasks = []
         for i in self.prefilter_queries():
             tasks.extend(loop.run_until_complete(i))
-        loop.run_until_complete(asyncio.wait(tasks))
+        # Keep the order of visits and let failures surface
+        for t in tasks:
+            loop.run_until_complete(t)
         results = []
         for i in self.__queries.values():
             results.extend(loop.run_until_complete(i.get_list_results()))
-- 
2.43.0


From aa99f900549f86de271c9055bde6efedee7d3560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 04/55] fix: refuse to add an ancestor below its own descendant

---
 framework_python/rei/foundations/conceptual_item.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index fe2d838..235a4a6 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -84,9 +84,12 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         yield from filter(filterfunc, self._sub_elements.values())
 
     def add_element(self, element):
-        # Forbid hierarchy recursion
-        if element is self:
-            raise ErrorRecursiveHierarchy
+        # Forbid hierarchy recursion (the element itself or any of its ancestors)
+        __ancestor = self
+        while __ancestor is not None:
+            if element is __ancestor:
+                raise ErrorRecursiveHierarchy
+            __ancestor = __ancestor.parent
         # Add as unique element
         if element.uuid not in self._sub_elements:
             self._sub_elements[element.uuid] = element
-- 
2.43.0


From 14ce3f1bfd34cd337f47ccc0d63de7bdbb9264e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 05/55] fix: removal checks name and identifier first and keeps
 the name index in step

---
 framework_python/rei/foundations/conceptual_item.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 235a4a6..e422ed1 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -119,8 +119,9 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         if len(id_name) > 0:
             if uuid is not None:
-                el = self._sub_elements.pop(uuid)
-                self._index_elements_by_name[id_name].pop(uuid)
+                # The index tells whether name and identifier belong together
+                el = self._index_elements_by_name[id_name].pop(uuid)
+                self._sub_elements.pop(uuid)
                 # Invalidate parent
                 el.parent = None
                 el.update()
@@ -130,10 +131,14 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 yield el
             else:
                 __tmp = [x for x in self._index_elements_by_name[id_name].values()]
-                # Reset indices
-                self._index_elements_by_name[id_name] = {}
+                if len(__tmp) == 0:
+                    raise KeyError(id_name)
                 for v in __tmp:
+                    # The element may be gone if the removal was suspended
+                    if self._sub_elements.get(v.uuid) is not v:
+                        continue
                     el = self._sub_elements.pop(v.uuid)
+                    self._index_elements_by_name[id_name].pop(v.uuid)
                     # Invalidate each element parent
                     el.parent = None
                     # Update timestamp etc.
-- 
2.43.0


From 9ff198d3b60ca41c7ae9c519ad188e52be3a9917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 06/55] fix: names and depths of a whole subtree follow when it
 is moved or removed, at any depth

---
 .../rei/foundations/conceptual_item.py         | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index e422ed1..f5dab1a 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -61,9 +61,11 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         self._parent = arg
 
     def update_qualified_name(self):
-        yield self._id_name
-        if self._parent is not None:
-            yield from self._parent.update_qualified_name()
+        # Walk upwards without recursion, hierarchies may be deep
+        __element = self
+        while __element is not None:
+            yield __element._id_name
+            __element = __element._parent
 
     def update(self):
         self._qualified_name = '/'.join(list(self.update_qualified_name())[::-1])
@@ -124,7 +126,8 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 self._sub_elements.pop(uuid)
                 # Invalidate parent
                 el.parent = None
-                el.update()
+                el._depth = 0
+                self.__update_element(el)
                 # Decrement element count
                 self._cnt_subelements -= 1
                 # Yield element
@@ -141,8 +144,9 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                     self._index_elements_by_name[id_name].pop(v.uuid)
                     # Invalidate each element parent
                     el.parent = None
+                    el._depth = 0
                     # Update timestamp etc.
-                    el.update()
+                    self.__update_element(el)
                     # Decrement by each element
                     self._cnt_subelements -= 1
                     # Yield element
@@ -153,8 +157,9 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 self._index_elements_by_name[el.id_name].pop(uuid)
                 # Invalidate element parent
                 el.parent = None
+                el._depth = 0
                 # Update tiemstamp etc.
-                el.update()
+                self.__update_element(el)
                 # Decrement element
                 self._cnt_subelements -= 1
                 # Yield element
@@ -170,6 +175,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
             __next: HierarchicalElement = __fringe.get()
             __next.update()
             for e in __next.get_subelements(lambda x: True):
+                e._depth = __next._depth + 1
                 __fringe.put(e)
 
 
-- 
2.43.0


From 53c7533319ee8852fdec80f76a4595d406f6e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 07/55] fix: path lookup yields nothing for unknown names and
 passes through every kind of element

---
 framework_python/rei/foundations/conceptual_item.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index f5dab1a..c8ff25e 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -239,9 +239,11 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
             else:
                 yield from []
         else:
-            # Iterate all possible named elements
-            for v in self._index_elements_by_name[tokens[0]].values():
-                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
+            # Resolve the path level by level
+            __level = [self]
+            for token in tokens:
+                __level = [v for el in __level for v in el._index_elements_by_name.get(token, {}).values()]
+            yield from __level
 
     def update(self):
         self._update_timestamp()
-- 
2.43.0


From 907e2b06a41958acff62048616fe40a2e5f01c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 08/55] fix: disconnect really removes the port

---
 framework_python/rei/hypergraph/base_elements.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 9b3614b..91e5164 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -50,8 +50,15 @@ class HypergraphElement(ConceptualItem):
         self.add_element(p)
 
     def disconnect(self, el: HierarchicalElement):
-        p = self._ports.pop(el.uuid)
-        self.remove_element(id_name=p.id_name, uuid=p.uuid)
+        p = self._ports[el.uuid]
+        for _ in self.remove_element(id_name=p.id_name, uuid=p.uuid):
+            pass
+
+    def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
+        for el in super().remove_element(id_name, uuid):
+            if isinstance(el, HypergraphPort):
+                self._ports.pop(el.endpoint.uuid, None)
+            yield el
 
     @property
     def sub_ports(self):
-- 
2.43.0


From ae730990a5914dfdeb14d31bb1cfe17c1376ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 09/55] fix: elements of edges and relations can be removed

---
 framework_python/rei/hypergraph/base_elements.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 91e5164..73db313 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -122,11 +122,6 @@ class HypergraphRelation(HierarchicalElement):
             # Set port
             element.connect(self)
 
-    def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
-        el = self._sub_elements.pop(self.endpoint.uuid)
-        self._endpoint = None
-        yield el
-
 
 class HypergraphEdge(HypergraphElement):
     """
@@ -154,12 +149,13 @@ class HypergraphEdge(HypergraphElement):
         super().add_element(element)
         match element:
             case HypergraphRelation():
-                self._sub_relations[element.cid] = element
+                self._sub_relations[element.uuid] = element
 
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         _el = super().remove_element(id_name, uuid)
         for v in _el:
-            yield from self._sub_relations.pop(v.cid)
+            self._sub_relations.pop(v.uuid, None)
+            yield v
 
     @property
     def sub_relations(self):
-- 
2.43.0


From 277d986199333aa78255c3b19ee2105bd7317c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 10/55] fix: relations and ports stay in step when a relation
 is refused, added or removed

---
 framework_python/rei/hypergraph/base_elements.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 73db313..2e85467 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -2,6 +2,7 @@ import typing
 
 from rei.foundations.abstract_items import IdentifiableItem
 from rei.foundations.clock import MetaClock
+from rei.foundations.common_errors import ErrorDuplicateElement
 from rei.foundations.conceptual_item import ConceptualItem, HierarchicalElement
 from rei.foundations.identification.identity_generator import Sha3UniqueIdentifierGenerator
 from rei.hypergraph.common_definitions import EnumRelationDirection
@@ -140,6 +141,8 @@ class HypergraphEdge(HypergraphElement):
         rel = HypergraphRelation(self._id_generation.generate_uid(endpoint), id_name,
                                  '/'.join([self.id_name, id_name]), endpoint, weight, direction=direction,
                                  semantic_value_node=semantic_value_node)
+        if rel.uuid in self._sub_elements:
+            raise ErrorDuplicateElement
         endpoint.connect(rel)
         if semantic_value_node is not None:
             rel.add_element(semantic_value_node)
@@ -150,11 +153,15 @@ class HypergraphEdge(HypergraphElement):
         match element:
             case HypergraphRelation():
                 self._sub_relations[element.uuid] = element
+                # The endpoint has a port for each attached relation
+                if element.uuid not in element.endpoint._ports:
+                    element.endpoint.connect(element)
 
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         _el = super().remove_element(id_name, uuid)
         for v in _el:
-            self._sub_relations.pop(v.uuid, None)
+            if self._sub_relations.pop(v.uuid, None) is not None and v.uuid in v.endpoint._ports:
+                v.endpoint.disconnect(v)
             yield v
 
     @property
-- 
2.43.0


From 943f96e45c9196989b617dbc4009988649c13d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 11/55] fix: relations and ports between same-named elements
 get distinct identifiers

---
 framework_python/rei/hypergraph/base_elements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 2e85467..858578c 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -35,13 +35,15 @@ class HypergraphElement(ConceptualItem):
     def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                  parent: HierarchicalElement = None):
         super().__init__(id_name, uuid, qualified_name, clock, parent)
-        self._id_generation = Sha3UniqueIdentifierGenerator(id_name, HypergraphElement.identification_generation)
+        # Names may coincide, identifiers do not
+        self._id_generation = Sha3UniqueIdentifierGenerator(
+            f"{id_name}/{uuid.hex()}", HypergraphElement.identification_generation)
         # Ports to deduce associated relations
         self._ports: dict[bytes, HypergraphPort] = {}
 
     @staticmethod
     def identification_generation(x: str, y: IdentifiableItem):
-        return f"{x}/{y.id_name}"
+        return f"{x}/{y.id_name}/{y.uuid.hex()}"
 
     def connect(self, el: HierarchicalElement):
         port_name = '.'.join([self.id_name, "port", el.id_name])
-- 
2.43.0


From 9439d64206b6d8887356fdc01e227f9967b52679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 12/55] fix: identifiers of edges, values and semantic elements
 depend on their container

---
 framework_python/rei/factories/foundation_factory.py  | 11 ++++++-----
 .../semantics/cognitive_entity_semantic_factory.py    |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 0f34937..824b007 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -29,7 +29,7 @@ class HypergraphFactory(AbstractElementFactory):
     #
 
     def create_hyperedge(self, parent: HypergraphNode, edge_name: str):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid('/'.join([parent.qualified_name, edge_name]))
         he = HypergraphEdge(edge_name, uuid,
                             self.get_stamped_qualified_name(edge_name, parent),
                             parent.clock, parent)
@@ -38,7 +38,7 @@ class HypergraphFactory(AbstractElementFactory):
     def connect_nodes(self, container: HypergraphNode, edge_name: str, nodes: list[HypergraphNode],
                       direction: EnumRelationDirection = EnumRelationDirection.BIDIRECTIONAL,
                       values: list[ValueNode] | None = None):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid('/'.join([container.qualified_name, edge_name]))
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_values = zip(nodes, len(nodes)*[None])
@@ -54,7 +54,7 @@ class HypergraphFactory(AbstractElementFactory):
             self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
             out_dir_nodes: list[HypergraphNode], direction: tuple[EnumRelationDirection, EnumRelationDirection],
             values: list[ValueNode] | None = None):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid('/'.join([container.qualified_name, edge_name]))
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_in_values = zip(in_dir_nodes, (len(in_dir_nodes))*[None])
@@ -85,7 +85,7 @@ class HypergraphFactory(AbstractElementFactory):
         :param nodes: endpoint, direction, value node, semantiv calue node
         :return:
         """
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid('/'.join([container.qualified_name, edge_name]))
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n, dir, v, sv in nodes:
             he.unary_connect(n, v, dir, sv)
@@ -96,11 +96,12 @@ class HypergraphFactory(AbstractElementFactory):
         return he
 
     def create_value(self, parent: HypergraphNode | None, value_name: str, values: list[typing.Any] = None):
-        uuid: bytes = self.unique_identifier.generate_uid(value_name)
         if parent is not None:
+            uuid: bytes = self.unique_identifier.generate_uid('/'.join([parent.qualified_name, value_name]))
             val = ValueNode(uuid, value_name, self.get_stamped_qualified_name(value_name, parent), values)
             parent.add_element(val)
         else:
+            uuid: bytes = self.unique_identifier.generate_uid(value_name)
             val = ValueNode(uuid, value_name, '/'.join([value_name])+f".{self._clock.get_time_ns()}", values)
         return val
 
diff --git a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
index b6bb936..63227bc 100644
--- a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
+++ b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
@@ -21,7 +21,7 @@ class CognitiveEntitySemanticFactory(AbstractElementFactory):
         if len(attr) == 0:
             raise ErrorInsufficientValues
         element_type = ''.join(raw_element_type.lower().strip().split('_'))
-        uuid = self.unique_identifier.generate_uid(id_name)
+        uuid = self.unique_identifier.generate_uid('/'.join([parent.qualified_name, id_name]))
         el = None
         match element_type:
             case 'cognitiveentity':
-- 
2.43.0


From b2de2c42254d04b30598a356d0a74e99bebaa607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 13/55] fix: connect_2factor_edges uses the second direction
 for the second group

---
 framework_python/rei/factories/foundation_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 824b007..f566b1d 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -67,7 +67,7 @@ class HypergraphFactory(AbstractElementFactory):
         for n,v in node_in_values:
             he.unary_connect(n, v, direction[0])
         for n,v in node_out_values:
-            he.unary_connect(n, v, direction[0])
+            he.unary_connect(n, v, direction[1])
         return he
 
     def connect_dir_edges(self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
-- 
2.43.0


From 9e634b1893426ee14a59b9c4fbc5fcf92c31d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 14/55] fix: stamped qualified name is a string

---
 framework_python/rei/factories/abstract_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/factories/abstract_factory.py b/framework_python/rei/factories/abstract_factory.py
index 84bade4..f1b668a 100644
--- a/framework_python/rei/factories/abstract_factory.py
+++ b/framework_python/rei/factories/abstract_factory.py
@@ -20,4 +20,4 @@ class AbstractElementFactory():
         return f"{name}.{self._clock.get_time_ns()}"
 
     def get_stamped_qualified_name(self, id_name: str, parent: HierarchicalElement):
-        return '/'.join([parent.qualified_name, id_name]) + f".{self._clock.get_time_ns()}",
+        return '/'.join([parent.qualified_name, id_name]) + f".{self._clock.get_time_ns()}"
-- 
2.43.0


From 08f55ae917a69643377e7a4f6c7facb6f2c8e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 15/55] fix: replacing the values of a value node updates its
 dimension and copies the list

---
 framework_python/rei/hypergraph/value_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/value_node.py b/framework_python/rei/hypergraph/value_node.py
index a6d68cd..f18afe5 100644
--- a/framework_python/rei/hypergraph/value_node.py
+++ b/framework_python/rei/hypergraph/value_node.py
@@ -26,7 +26,8 @@ class ValueNode(HierarchicalElement):
         self._values[i] = arg
 
     def update_values(self, arg):
-        self._values = arg
+        self._values = [x for x in arg]
+        self.dim = len(self._values)
 
     def __getitem__(self, i, /):
         return self._values[i]
-- 
2.43.0


From 72270343de85ac2a3272c188629df07e11bbc72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 16/55] fix: bulk additions and removals apply every member and
 report failures

---
 .../rei/foundations/conceptual_item.py        | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index c8ff25e..d9ffb8f 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -224,10 +224,27 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
 
 
     async def add_elements(self, elements: typing.Iterable[typing.Any]) -> asyncio.Future:
-        return asyncio.gather(self.add_element(x) for x in elements)
+        async def __add(element):
+            self.add_element(element)
+        return await self.__execute_operations([__add(x) for x in list(elements)])
 
     async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:
-        return asyncio.gather(*[self.remove_element(e[0], e[1]) for e in elements])
+        async def __remove(id_name, uuid):
+            return list(self.remove_element(id_name, uuid))
+        return await self.__execute_operations([__remove(e[0], e[1]) for e in list(elements)])
+
+    async def __execute_operations(self, operations: list[typing.Coroutine]) -> asyncio.Future:
+        """
+        Execute every operation, the returned future holds their results or the first failure
+        """
+        results = await asyncio.gather(*operations, return_exceptions=True)
+        future = asyncio.get_running_loop().create_future()
+        failures = [r for r in results if isinstance(r, BaseException)]
+        if len(failures) > 0:
+            future.set_exception(failures[0])
+        else:
+            future.set_result(results)
+        return future
 
     def get_element_by_id_name(self, id_name: str) -> typing.Generator:
         tokens = id_name.split('/')
-- 
2.43.0


From 650708886916ba740b4bf8094062cc053f8b0fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 17/55] fix: refused connect requests leave nothing behind

---
 .../rei/factories/foundation_factory.py       | 43 ++++++++++---------
 .../rei/hypergraph/base_elements.py           | 12 ++++--
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index f566b1d..6b5139f 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -35,27 +35,38 @@ class HypergraphFactory(AbstractElementFactory):
                             parent.clock, parent)
         return he
 
+    def _connect_edge(self, container: HypergraphNode, edge_name: str, connections):
+        """
+        Create an edge with the requested relations: endpoint, direction, value node, semantic value node
+        """
+        he = self.create_hyperedge(container, edge_name)
+        try:
+            for n, direction, v, sv in connections:
+                he.unary_connect(n, v, direction, sv)
+        except Exception:
+            # A refused request leaves nothing behind
+            for rel in list(he.sub_relations):
+                for _ in he.remove_element(uuid=rel.uuid):
+                    pass
+            he.deregister()
+            raise
+        return he
+
     def connect_nodes(self, container: HypergraphNode, edge_name: str, nodes: list[HypergraphNode],
                       direction: EnumRelationDirection = EnumRelationDirection.BIDIRECTIONAL,
                       values: list[ValueNode] | None = None):
-        uuid: bytes = self.unique_identifier.generate_uid('/'.join([container.qualified_name, edge_name]))
-        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_values = zip(nodes, len(nodes)*[None])
         else:
             if len(values) != len(nodes):
                 raise ErrorInsufficientValues
             node_values = zip(nodes, values)
-        for n,v in node_values:
-            he.unary_connect(n, v, direction)
-        return he
+        return self._connect_edge(container, edge_name, [(n, direction, v, None) for n,v in node_values])
 
     def connect_2factor_edges(
             self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
             out_dir_nodes: list[HypergraphNode], direction: tuple[EnumRelationDirection, EnumRelationDirection],
             values: list[ValueNode] | None = None):
-        uuid: bytes = self.unique_identifier.generate_uid('/'.join([container.qualified_name, edge_name]))
-        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_in_values = zip(in_dir_nodes, (len(in_dir_nodes))*[None])
             node_out_values = zip(out_dir_nodes, (len(out_dir_nodes))*[None])
@@ -64,11 +75,9 @@ class HypergraphFactory(AbstractElementFactory):
                 raise ErrorInsufficientValues
             node_in_values = zip(in_dir_nodes, values[:len(in_dir_nodes)])
             node_out_values = zip(out_dir_nodes, values[len(in_dir_nodes):])
-        for n,v in node_in_values:
-            he.unary_connect(n, v, direction[0])
-        for n,v in node_out_values:
-            he.unary_connect(n, v, direction[1])
-        return he
+        return self._connect_edge(container, edge_name,
+                                  [(n, direction[0], v, None) for n,v in node_in_values] +
+                                  [(n, direction[1], v, None) for n,v in node_out_values])
 
     def connect_dir_edges(self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
                           out_dir_nodes: list[HypergraphNode]):
@@ -85,15 +94,7 @@ class HypergraphFactory(AbstractElementFactory):
         :param nodes: endpoint, direction, value node, semantiv calue node
         :return:
         """
-        uuid: bytes = self.unique_identifier.generate_uid('/'.join([container.qualified_name, edge_name]))
-        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
-        for n, dir, v, sv in nodes:
-            he.unary_connect(n, v, dir, sv)
-            """
-            if sv.parent is not he:
-                he.add_element(sv)
-            """
-        return he
+        return self._connect_edge(container, edge_name, nodes)
 
     def create_value(self, parent: HypergraphNode | None, value_name: str, values: list[typing.Any] = None):
         if parent is not None:
diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 858578c..533d5b5 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -49,8 +49,8 @@ class HypergraphElement(ConceptualItem):
         port_name = '.'.join([self.id_name, "port", el.id_name])
         p = HypergraphPort(self._id_generation.generate_uid(el), port_name,
                            port_name, el, self)
-        self._ports[el.uuid] = p
         self.add_element(p)
+        self._ports[el.uuid] = p
 
     def disconnect(self, el: HierarchicalElement):
         p = self._ports[el.uuid]
@@ -146,9 +146,13 @@ class HypergraphEdge(HypergraphElement):
         if rel.uuid in self._sub_elements:
             raise ErrorDuplicateElement
         endpoint.connect(rel)
-        if semantic_value_node is not None:
-            rel.add_element(semantic_value_node)
-        self.add_element(rel)
+        try:
+            if semantic_value_node is not None:
+                rel.add_element(semantic_value_node)
+            self.add_element(rel)
+        except Exception:
+            endpoint.disconnect(rel)
+            raise
 
     def add_element(self, element: HierarchicalElement):
         super().add_element(element)
-- 
2.43.0


From fce6b67bf7a4e06cf3dbcd084f0a616f4ea60720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 18/55] fix: traversals have their own fringe and do not
 recurse per element

---
 .../foundations/hierarchical_traversal_strategies.py   | 10 ++++------
 .../rei/foundations/hypergraph_traversal_strategies.py |  6 +++---
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index c180758..fb911b7 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -2,7 +2,6 @@ import asyncio
 import math
 
 import typing
-import copy
 from abc import ABC
 
 from rei.foundations.graph_monad import GraphVisitor, visit_future
@@ -19,10 +18,10 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         self._ignore_root = ignore_root
 
     async def _setup_visit_algorithm(self, start: typing.Any,
-                                     fringe: asyncio.Queue = asyncio.Queue()) \
+                                     fringe: asyncio.Queue | None = None) \
             -> tuple[asyncio.Queue | asyncio.LifoQueue, list]:
-        # Fringe setup
-        _fringe = copy.copy(fringe)
+        # Fringe setup (each execution has its own)
+        _fringe = fringe if fringe is not None else asyncio.Queue()
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
@@ -36,12 +35,11 @@ class HierarchicalTraversal(GraphVisitor, ABC):
                 _fringe.task_done()
 
     async def _traverse(self, _fringe, _task_list: list):
-        if not _fringe.empty():
+        while not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
             # Add the result of the visit as a future
             _task_list.append(visit_future(self._visitor_func(_next)))
-            await self._traverse(_fringe, _task_list)
 
 
 class BreadthFirstHierarchicalTraversal(HierarchicalTraversal):
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 5b42164..f4437c4 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -1,5 +1,4 @@
 import asyncio
-import copy
 import math
 import typing
 
@@ -100,8 +99,9 @@ class HypergraphTraversal(GraphVisitor):
                         _fringe.task_done()
             await self._traverse(_fringe, _task_list)
 
-    async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue = asyncio.Queue()):
-        _fringe = copy.copy(fringe)
+    async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue | None = None):
+        # Each execution has its own fringe
+        _fringe = fringe if fringe is not None else asyncio.Queue()
         await _fringe.put((start, 0))
         _fringe.task_done()
         # Task list
-- 
2.43.0


From b1dabf4fd90deb2e5d2c18a5650bccc6cd52a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 19/55] fix: searches look at the current graph and do not
 recurse per element

---
 .../rei/foundations/query/search_elements.py  | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 6b07a85..963145d 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -13,7 +13,6 @@ class GraphQuery(GraphMonad, ABC):
         super().__init__()
         self._query_def = ""
         self._result = []
-        self._element_cache = {}
 
     def _setup_query(self, fringe: asyncio.Queue = asyncio.Queue()):
         _fringe = copy.copy(fringe)
@@ -37,10 +36,8 @@ class GraphQuery(GraphMonad, ABC):
         raise NotImplementedError
 
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
+        # Elements may have been moved or replaced since an earlier search
         self._result = []
-        if self.query_def in self._element_cache:
-            self._result = [self._element_cache[self.query_def]]
-            return []
         __fringe, _task_list = self._setup_query()
         await __fringe.put(start)
         __fringe.task_done()
@@ -54,16 +51,14 @@ class QuerySearchSubElement(GraphQuery):
         super().__init__()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             if __next.qualified_name == self._query_def:
-                self._element_cache[__next.qualified_name] = __next
                 self._result.append(__next)
                 return
             for n in __next.get_subelements(lambda x: True):
                 await fringe.put(n)
                 fringe.task_done()
-            await self._traverse(fringe)
 
 
 class QuerySearchElement(GraphQuery):
@@ -73,21 +68,19 @@ class QuerySearchElement(GraphQuery):
         self.visited_set = set()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
-            self.visited_set.add(__next.uuid)
+            self.visited_set.add(__next)
             if __next.qualified_name == self._query_def:
-                self._element_cache[__next.qualified_name] = __next
                 self._result.append(__next)
                 return
             for n in __next.get_subelements(lambda x: True):
-                if n.uuid not in self.visited_set:
+                if n not in self.visited_set:
                     await fringe.put(n)
                     fringe.task_done()
-            if __next.parent is not None:
+            if __next.parent is not None and __next.parent not in self.visited_set:
                 await fringe.put(__next.parent)
                 fringe.task_done()
-            await self._traverse(fringe)
 
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self.visited_set = set()
-- 
2.43.0


From 58b5cb94bae998a66a574a07fad21318e6ead633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 20/55] fix: a query listed under several names contributes in
 order

---
 framework_python/rei/query/query_engine.py | 27 ++++++----------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/framework_python/rei/query/query_engine.py b/framework_python/rei/query/query_engine.py
index 1b38ff3..98f4893 100644
--- a/framework_python/rei/query/query_engine.py
+++ b/framework_python/rei/query/query_engine.py
@@ -75,29 +75,16 @@ class HypergraphQueryEngine(HypergraphNode):
         return task_list
 
     async def execute(self):
-        __tasks = []
-        prefilter = self.prefilter_queries()
-        for i in prefilter:
-            __tasks.extend(await i)
-        # Keep the order of visits and let failures surface
-        for t in __tasks:
-            await t
         res = []
-        __task_list = await self.task_result_queries_lists()
-        for t in __task_list:
-            res.extend(await t)
+        # One query after the other: a query may be listed under several names
+        for e in list(self.__queries.values()):
+            # Keep the order of visits and let failures surface
+            for t in await e.prefilter():
+                await t
+            res.extend(await e.get_list_results())
         return res
 
     def execute_all_queries(self):
         loop = asyncio.new_event_loop()
         asyncio.set_event_loop(loop)
-        tasks = []
-        for i in self.prefilter_queries():
-            tasks.extend(loop.run_until_complete(i))
-        # Keep the order of visits and let failures surface
-        for t in tasks:
-            loop.run_until_complete(t)
-        results = []
-        for i in self.__queries.values():
-            results.extend(loop.run_until_complete(i.get_list_results()))
-        return results
\ No newline at end of file
+        return loop.run_until_complete(self.execute())
-- 
2.43.0


From 581bda427177c9d536a8411e3ff16ce6669a1a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 21/55] fix: factorization and hypergraph traversal end on
 cyclic references and do not recurse per element

---
 .../rei/foundations/hypergraph_traversal_strategies.py |  8 ++++++--
 .../rei/hypergraph/factorization_operations.py         | 10 ++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index f4437c4..2611b88 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -59,8 +59,13 @@ class HypergraphTraversal(GraphVisitor):
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-        if not _fringe.empty():
+        _visited = set()
+        while not _fringe.empty():
             _next, __current_depth = await _fringe.get()
+            # References may be cyclic
+            if _next in _visited:
+                continue
+            _visited.add(_next)
             match _next:
                 case HypergraphNode():
                     _next: HypergraphNode
@@ -97,7 +102,6 @@ class HypergraphTraversal(GraphVisitor):
                     if __current_depth + 1 < self.max_depth:
                         await _fringe.put((_next.endpoint, __current_depth + 1))
                         _fringe.task_done()
-            await self._traverse(_fringe, _task_list)
 
     async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue | None = None):
         # Each execution has its own fringe
diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 4a5bcd9..51e8b94 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -13,8 +13,13 @@ class Factorization2Operation(GraphMonad):
         self.__relation_list = []
 
     async def __traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        __visited = set()
+        while not fringe.empty():
             __next = await fringe.get()
+            # References may be cyclic
+            if __next in __visited:
+                continue
+            __visited.add(__next)
             match __next:
                 case HypergraphNode():
                     __next: HypergraphNode
@@ -30,9 +35,6 @@ class Factorization2Operation(GraphMonad):
                     for i in o_e:
                         await fringe.put(i.endpoint)
                         fringe.task_done()
-            await self.__traverse(fringe)
-        else:
-            return
 
     async def execute(self, start) -> list[asyncio.Future]:
         self.__relation_list = []
-- 
2.43.0


From f2b7876b4088b327385c3cb8b2c5e06f7659dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 22/55] fix: pairs of selected relations count bidirectional
 ones as both and allow edges without outgoing ones

---
 framework_python/rei/hypergraph/factorization_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 51e8b94..314e36a 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -85,14 +85,14 @@ class RelationFactorization2SubsetOperation(GraphMonad):
                 if __rel.parent.uuid not in self.incoming_relations:
                     self.incoming_relations[__rel.parent.uuid] = []
                 self.incoming_relations[__rel.parent.uuid].append(__rel)
-            elif __rel.direction == EnumRelationDirection.OUTWARDS:
+            if __rel.direction == EnumRelationDirection.OUTWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
                 if __rel.parent.uuid not in self.outgoing_relations:
                     self.outgoing_relations[__rel.parent.uuid] = []
                 self.outgoing_relations[__rel.parent.uuid].append(__rel)
         # Pair relations
         for k in self.incoming_relations:
             for i_e in self.incoming_relations[k]:
-                for o_e in self.outgoing_relations[k]:
+                for o_e in self.outgoing_relations.get(k, []):
                     if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
                         self.__relation_list.append([i_e, o_e])
         # Relation list
-- 
2.43.0


From b57d428613a09f3e3c8d3d7261af513a8802e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 23/55] fix: hypergraph traversal pairs incoming endpoints with
 outgoing ones only

---
 .../hypergraph_traversal_strategies.py           | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 2611b88..5a9afa2 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -22,10 +22,10 @@ class HypergraphTraversal(GraphVisitor):
         self._index_homomorphism = homomorphism
         self.max_depth = depth
 
-    def get_node_identification(self, el):
+    def get_node_identification(self, relations):
         if self._index_homomorphism is None:
-            return map(lambda x: x.uuid, el.parent.induced_subset)
-        return map(lambda x: self._index_homomorphism.node(x.uuid), el.parent.induced_subset)
+            return map(lambda x: x.endpoint.uuid, relations)
+        return map(lambda x: self._index_homomorphism.node(x.endpoint.uuid), relations)
 
     def get_edge_identification(self, el: HypergraphEdge):
         if self._index_homomorphism is None:
@@ -45,18 +45,18 @@ class HypergraphTraversal(GraphVisitor):
             _fringe.task_done()
 
     def __fill_relations(self, weight, endpoint_id, edge_id, norm_weight, el, task_list: list):
+        # An incoming endpoint pairs with the outgoing ones and vice versa
         if weight[0] != 0.0:
             task_list.append(visit_future(
                 self._visitor_func([(endpoint_id, x, edge_id, weight[0], norm_weight)
-                                    for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
+                                    for x in filter(lambda x: x != endpoint_id,
+                                                    self.get_node_identification(el.parent.get_outgoing_relations()))])))
 
         if weight[1] != 0.0:
             task_list.append(visit_future(
                 self._visitor_func([(x, endpoint_id, edge_id, weight[1], norm_weight)
-                                    for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
-
+                                    for x in filter(lambda x: x != endpoint_id,
+                                                    self.get_node_identification(el.parent.get_incoming_relations()))])))
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
         _visited = set()
-- 
2.43.0


From c272cea48c905cd548304ef4cf7505002562a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 24/55] fix: index computation covers elements nested below
 other kinds of elements

---
 .../rei/hypergraph/homomorphism_functions.py        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/hypergraph/homomorphism_functions.py b/framework_python/rei/hypergraph/homomorphism_functions.py
index 80a0200..bd2e95e 100644
--- a/framework_python/rei/hypergraph/homomorphism_functions.py
+++ b/framework_python/rei/hypergraph/homomorphism_functions.py
@@ -29,11 +29,11 @@ class IndexHomomorphismGraphTensor(GraphMonad):
         self._depth = depth
         # Traversals
         self.edges_bfs: HierarchicalTraversal = DepthLimitedBreadthVisitChildren(
-            self.add_edge_homology, lambda x: isinstance(x, HypergraphEdge), self._depth, ignore_root)
+            self.add_edge_homology, lambda x: True, self._depth, ignore_root)
         self.nodes_bfs: HierarchicalTraversal = DepthLimitedBreadthVisitChildren(
-            self.add_node_homology, lambda x: isinstance(x, HypergraphNode), self._depth, ignore_root)
+            self.add_node_homology, lambda x: True, self._depth, ignore_root)
         self.values_bfs: HierarchicalTraversal = DepthLimitedBreadthVisitChildren(
-            self.add_value_homology, lambda x: isinstance(x, ValueNode), self._depth, ignore_root)
+            self.add_value_homology, lambda x: True, self._depth, ignore_root)
 
     def reset_from_bijection(self, nodes, edges, values):
         self.reset_homology()
@@ -53,7 +53,10 @@ class IndexHomomorphismGraphTensor(GraphMonad):
             self.__hom_i_values[i] = v
             self._cnt_values += 1
 
+    # The traversals pass every element in scope: kinds may be nested in one another
     def add_edge_homology(self, arg: HypergraphEdge):
+        if not isinstance(arg, HypergraphEdge):
+            return
         # Edges homology
         i_current_edge = self._cnt_edges
         # Increment edge count
@@ -63,6 +66,8 @@ class IndexHomomorphismGraphTensor(GraphMonad):
         self.__hom_depth_edge[i_current_edge] = arg.uuid
 
     def add_node_homology(self, arg: HypergraphNode):
+        if not isinstance(arg, HypergraphNode):
+            return
         # Node homology
         i_current_node = self._cnt_node
         # Increment node count
@@ -72,6 +77,8 @@ class IndexHomomorphismGraphTensor(GraphMonad):
         self.__hom_dim_node[i_current_node] = arg.uuid
 
     def add_value_homology(self, arg: ValueNode):
+        if not isinstance(arg, ValueNode):
+            return
         # Value homology
         i_current_value = self._cnt_values
         # Increment value count
-- 
2.43.0


From ff98e2c6bb049e43a89b1ec45ed720124b0505b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 25/55] fix: a tensor representation re-used for a graph of the
 same size starts from zero

---
 .../rei/tensor/tensor_representation.py       | 23 ++++---------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index c9f91ce..babf826 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -55,25 +55,12 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
         return np.sum(self.entropy_projected_vector())
 
     def synchronize_structure_dimensions(self, homomorphism: IndexHomomorphismGraphTensor):
-        if self._current_homomorphism is not None:
-            current_cnt_nodes, current_cnt_edges = self._current_homomorphism.cnt_node, self._current_homomorphism.cnt_edges
-            del self._current_homomorphism
-        else:
-            current_cnt_nodes, current_cnt_edges = 0, 0
         self._current_homomorphism = copy.deepcopy(homomorphism)
-        # If cnt nodes or cnt edges differs, reclaim weight tensor
-        if homomorphism.cnt_node != current_cnt_nodes or homomorphism.cnt_edges != current_cnt_edges:
-            # Weight tensor
-            if self._weight_tensor is not None:
-                del self._weight_tensor
-            if self._incidence_matrix_out is not None:
-                del self._incidence_matrix_out
-            if self._incidence_matrix_in is not None:
-                del self._incidence_matrix_in
-            ho = self._current_homomorphism
-            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=float)
-            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
-            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
+        # Nothing is left over from an earlier graph, also not from one of the same size
+        ho = self._current_homomorphism
+        self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=float)
+        self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
+        self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
 
     def fill_tensors(self, i_e, i_n0, i_n1, i_w, val):
         self._weight_tensor[i_e, i_n1, i_n0] = i_w
-- 
2.43.0


From 7ee7838312a66b3175fdf0a9dc9bda41a1763175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 26/55] fix: encoding a graph again does not repeat relations
 and tensor entries

---
 .../rei/hypergraph/encoding/graph_tensor_icon.py             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index 8a05bfb..f180dd0 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -41,6 +41,10 @@ class CoordinateObjectTransformer(GraphMonad):
     async def execute(self, start: HypergraphNode | None = None) -> list[asyncio.Future]:
         if start is None:
             start = self._context
+        # Entries of an earlier execution do not remain
+        self._msg_value_tensor = []
+        self._msg_incidence_out = []
+        self._msg_incidence_in = []
         q = queue.Queue()
         tr = HypergraphTraversal(
             lambda x: q.put(x), lambda x: True, SumNorm(), self._index_homomorphism, self.repr_depth)
@@ -71,6 +75,7 @@ class CoordinateObjectTransformer(GraphMonad):
         return [self.__msg_edge_tuple(i) for i in list(self._context.sub_edges)]
 
     def msg_relation_index_list(self):
+        self._msg_relations = []
         for el in map(lambda x: list(x.sub_relations), self._context.sub_edges):
             for rel in el:
                 rel: HypergraphRelation
-- 
2.43.0


From a8e59d70bcd1cbcb5e8a257fdaa4de4a4bff8c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 27/55] fix: the coordinate transformer encodes the context it
 was reset to

---
 framework_python/rei/hypergraph/encoding/graph_tensor_icon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index f180dd0..5996f11 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -29,6 +29,7 @@ class CoordinateObjectTransformer(GraphMonad):
         self._index_homomorphism = IndexHomomorphismGraphTensor(True)
 
     async def reset(self, context: HypergraphNode):
+        self._context = context
         self._index_homomorphism = IndexHomomorphismGraphTensor(False, depth=math.inf)
         return await self._index_homomorphism.execute(context)
 
-- 
2.43.0


From f11138493cecac2188b58bb8d88ccc818bd0e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 28/55] fix: a snapshot of a context inside a larger graph can
 be decoded

---
 framework_python/rei/hypergraph/encoding/graph_tensor_icon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index 5996f11..df148b3 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -56,7 +56,8 @@ class CoordinateObjectTransformer(GraphMonad):
                 self.fill_tensors(i_e, i_n1, i_n0, i_w, val)
 
     def __msg_node_tuple(self, el: HypergraphNode):
-        if el.parent is None:
+        # The context is the root of the message, also when it is part of a larger graph
+        if el is self._context:
             return el.uuid, el.id_name, self._index_homomorphism.node(el.uuid), 0, el.qualified_name.encode('utf-8')
         return el.uuid, el.id_name, self._index_homomorphism.node(el.uuid), el.parent.uuid, el.qualified_name.encode('utf-8')
 
-- 
2.43.0


From 5a87c084c3afcf63dc811c3788a0b2da9a5d4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 29/55] fix: decoded relations keep their direction

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 13532c5..0375681 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -2,6 +2,7 @@
 from rei.factories.foundation_factory import HypergraphFactory
 from rei.foundations.clock import MetaClock
 from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
+from rei.hypergraph.common_definitions import EnumRelationDirection
 from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
 
 import cbor2
@@ -70,7 +71,8 @@ class GraphTensorCbor(object):
             edges.append((e[0], e[2]))
         # Relation
         for rel in frag[2]:
-            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]])
+            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]],
+                                     direction=EnumRelationDirection(rel[3]))
             _elements[rel[5]].add_element(_el)
         # Value nodes
         values = []
-- 
2.43.0


From a61e256436f33de1e4db59bee77b016fd2520181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 30/55] fix: a refused value update changes no value

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 0375681..72375b5 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -42,8 +42,10 @@ class GraphTensorCbor(object):
 
     def from_msg_update_values(self, msg: bytes):
         frag = cbor2.loads(msg)
-        for v in frag:
-            self._context[self._homomorphism.ival(v[0])].update_values(v[1])
+        # Resolve every target before the first change, the message is applied entirely or not at all
+        updates = [(self._context[self._homomorphism.ival(v[0])], list(v[1])) for v in frag]
+        for node, values in updates:
+            node.update_values(values)
 
     def create_graph(self, msg: bytes):
         frag = cbor2.loads(msg)
-- 
2.43.0


From 702e88963c53e0216fc4983914ede5e1a4b8f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 31/55] fix: every geometry reference gets its own edge

---
 .../rei/format/mapping/cognilang_file_icon.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 782b77c..9a38b4b 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -134,12 +134,12 @@ class CognilangParserFileIcon(CogniLangVisitor):
         parent_graph_name = '/'.join(list(self.__get_parent_name(ctx))[::-1][:-2])
         parent_graph: HypergraphNode = self._element_cache[parent_graph_name]
         _el_ref, _inferred_name = self.__search_for_reference(ref_func(ctx).ref_(), ctx)
-        if _inferred_name not in self._reference_cache:
-            ref_e = self.__factory.create_hyperedge(
-                parent_graph, f"ref_{container_node.id_name}_{str(ref_func(ctx).ref_().ID())}")
-            ref_e.unary_connect(_el_ref, None, EnumRelationDirection.OUTWARDS)
-            ref_e.unary_connect(container_node, None, EnumRelationDirection.INWARDS)
-            self._reference_cache[_inferred_name] = ref_e
+        # Any number of elements may refer to the same geometry
+        ref_e = self.__factory.create_hyperedge(
+            parent_graph, f"ref_{container_node.qualified_name}_{str(ref_func(ctx).ref_().ID())}")
+        ref_e.unary_connect(_el_ref, None, EnumRelationDirection.OUTWARDS)
+        ref_e.unary_connect(container_node, None, EnumRelationDirection.INWARDS)
+        self._reference_cache[container_node.qualified_name] = ref_e
 
     def __extract_vector_field_values(self, ctx: CogniLangParser.Field_float_vectorContext):
         yield from self.__extract_float_vector_values(ctx.float_vector())
-- 
2.43.0


From 5786ad2fcbbb7e4578ec54e7cc664512975e35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 32/55] fix: mesh geometries are semantic elements

---
 framework_python/rei/format/semantics/CognitiveEntity.py   | 6 ++++++
 .../format/semantics/cognitive_entity_semantic_factory.py  | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/format/semantics/CognitiveEntity.py b/framework_python/rei/format/semantics/CognitiveEntity.py
index fe6d824..ff6171e 100644
--- a/framework_python/rei/format/semantics/CognitiveEntity.py
+++ b/framework_python/rei/format/semantics/CognitiveEntity.py
@@ -82,6 +82,12 @@ class PolyhedronGeometry(GeometryNode):
     def __init__(self, uuid: bytes, id_name: str, progenitor_qualified_name: str, parent, attr: dict, values):
         super().__init__(uuid, id_name, progenitor_qualified_name, parent, attr, values)
 
+
+class MeshGeometry(GeometryNode):
+
+    def __init__(self, uuid: bytes, id_name: str, progenitor_qualified_name: str, parent, attr: dict, values):
+        super().__init__(uuid, id_name, progenitor_qualified_name, parent, attr, values)
+
 #
 # Material
 #
diff --git a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
index 63227bc..6b7d85e 100644
--- a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
+++ b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
@@ -2,8 +2,8 @@ import typing
 
 from rei.factories.abstract_factory import AbstractElementFactory, ErrorInsufficientValues
 from rei.format.semantics.CognitiveEntity import CognitiveEntity, KinematicGraphDefinition, KinematicLink, \
-    KinematicJoint, CylinderGeometry, PolyhedronGeometry, EllipsoidGeometry, VisualMaterial, RigidTransformation, \
-    InertiaElement
+    KinematicJoint, CylinderGeometry, PolyhedronGeometry, EllipsoidGeometry, MeshGeometry, VisualMaterial, \
+    RigidTransformation, InertiaElement
 from rei.foundations.clock import MetaClock
 
 
@@ -42,6 +42,9 @@ class CognitiveEntitySemanticFactory(AbstractElementFactory):
             case 'ellipsoidgeometry':
                 el = EllipsoidGeometry(uuid, id_name, self.get_stamped_qualified_name(id_name, parent),
                                          parent, attr, values)
+            case 'meshgeometry':
+                el = MeshGeometry(uuid, id_name, self.get_stamped_qualified_name(id_name, parent),
+                                    parent, attr, values)
             case 'material':
                 el = VisualMaterial(uuid, id_name, self.get_stamped_qualified_name(id_name, parent), parent, attr)
             case 'rigidtransformation':
-- 
2.43.0


From e2e753746022012c8cdf2345ddbdb3595e948ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 33/55] fix: an endpoint reference finds the element, not a
 value of that name

---
 framework_python/rei/format/mapping/cognilang_file_icon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 9a38b4b..43bf89c 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -64,7 +64,9 @@ class CognilangParserFileIcon(CogniLangVisitor):
             if reference_name == "world":
                 return self._element_cache["world"], reference_name
             else:
-                return list(parent.get_element_by_id_name(reference_name))[0], reference_name
+                # The semantic value of the parent may have the same name
+                return [x for x in parent.get_element_by_id_name(reference_name)
+                        if isinstance(x, HypergraphElement)][0], reference_name
 
     def __extract_joint_relation(self, ctx: CogniLangParser.Joint_relationContext, parent: HypergraphElement):
         __endpoint, reference_name = self.__lookup_reference(ctx, parent)
-- 
2.43.0


From eedf9632ac6e8b57701c945f2c4aeb9cd99330d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 34/55] fix: unsigned integers are integer tokens

---
 .../speclanguage/src/main/antlr4/HypergraphBasicElements.g4     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4 b/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4
index 9a9ac32..106509b 100644
--- a/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4
+++ b/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4
@@ -48,7 +48,7 @@ bi_dir  : BI_DIR;
 BI_DIR  : '--';
 
 
-DECIMALS: [0-9]+;
+fragment DECIMALS: [0-9]+;
 ID      : [a-zA-Z_/]+DECIMALS*ID*;
 INT     : [-]?DECIMALS+;
 FLOAT   : [-]?DECIMALS+('.'DECIMALS)+?;
-- 
2.43.0


From e64fa5988e731434eafda871ae9e63486e897895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 35/55] fix: a visitor keeps nothing of the description it read
 before

---
 .../rei/format/mapping/cognilang_file_icon.py            | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 43bf89c..b2d3c6f 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -20,12 +20,18 @@ class CognilangParserFileIcon(CogniLangVisitor):
 
     def __init__(self, icon_name: str, clock: MetaClock):
         super().__init__()
-        self._element_cache = {}
         self.__icon_name = icon_name
         self.__clock = clock
         self.__factory = HypergraphFactory(f"factory_{self.__icon_name}", self.__clock)
         self.__cognitive_element_factory = CognitiveEntitySemanticFactory(f"cogni_{self.__icon_name}", self.__clock)
+        self.__setup_description()
+
+    def __setup_description(self):
+        """
+        Nothing of a description read before is visible to the next one
+        """
         self.__root_entity = None
+        self._element_cache = {}
         # Handling special world node
         self._element_cache['world'] = self.__factory.generate_node("world", None)
         # Reference cache
@@ -243,6 +249,7 @@ class CognilangParserFileIcon(CogniLangVisitor):
     def visitRootnode(self, ctx: CogniLangParser.RootnodeContext):
         if self.__factory is None:
             raise ErrorParserNoFactorySet
+        self.__setup_description()
         return self.visitChildren(ctx)
 
     def visitEntity(self, ctx: CogniLangParser.EntityContext):
-- 
2.43.0


From 2e155ba4dfd8da9d8b65fe1c97348fb72e3599b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 36/55] fix: boxes have the inertia of a box

---
 framework_python/rei/format/phys/inertia_context.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index b0948c4..7a978d5 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -1,7 +1,8 @@
 
 from lxml import etree
 
-from rei.format.semantics.CognitiveEntity import InertiaElement, GeometryNode, CylinderGeometry, EllipsoidGeometry
+from rei.format.semantics.CognitiveEntity import InertiaElement, GeometryNode, CylinderGeometry, EllipsoidGeometry, \
+    PolyhedronGeometry
 from rei.hypergraph.base_elements import HypergraphNode
 
 
@@ -30,6 +31,9 @@ def encode_inertia_element(element):
                             inertia_values = calc_cylinder_inertia(m, __g)
                         case EllipsoidGeometry():
                             inertia_values = calc_ellipsoid_inertia(m, __g)
+                        case PolyhedronGeometry():
+                            if len(__g['values']) in (1, 3):
+                                inertia_values = calc_box_inertia(m, __g)
             # Add inertia matrix elements
             el_ixx = etree.Element("ixx")
             el_ixx.text = str(inertia_values[0])
@@ -69,3 +73,7 @@ def calc_ellipsoid_inertia(mass: float, geom: EllipsoidGeometry):
         return [ixyz, ixyz, ixyz, 0.0, 0.0, 0.0]
 
 
+def calc_box_inertia(mass: float, geom: PolyhedronGeometry):
+    # One size: cube
+    x, y, z = geom['values'] if len(geom['values']) == 3 else 3*list(geom['values'])
+    return [1.0/12.0*mass*(y*y + z*z), 1.0/12.0*mass*(x*x + z*z), 1.0/12.0*mass*(x*x + y*y), 0.0, 0.0, 0.0]
-- 
2.43.0


From 1d0da585007433062f0a2ca925196ecac78be9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 37/55] fix: links with several visuals keep all their
 materials

---
 framework_python/rei/format/phys/solid_geometry_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/solid_geometry_context.py b/framework_python/rei/format/phys/solid_geometry_context.py
index ae6dffb..1ca4625 100644
--- a/framework_python/rei/format/phys/solid_geometry_context.py
+++ b/framework_python/rei/format/phys/solid_geometry_context.py
@@ -105,7 +105,7 @@ def encode_geometry_element(cont_node, prefix=""):
         mat = [x for x in n.get_subelements(lambda x: isinstance(x, VisualMaterial))]
         if len(mat) != 0:
             __sem_visual.extend(geometries)
-            __sem_material = ({i: mat[0] for i in geometries})
+            __sem_material.update({i: mat[0] for i in geometries})
         else:
             __sem_collision.extend(geometries)
     # Visual geometry setup
-- 
2.43.0


From d396a8dea2fc816f56307d36a9e55b43bbbe355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 38/55] fix: ellipsoids with three radii have an inertia

---
 framework_python/rei/format/phys/inertia_context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index 7a978d5..3cca10a 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -71,6 +71,8 @@ def calc_ellipsoid_inertia(mass: float, geom: EllipsoidGeometry):
         r = geom['values'][0]
         ixyz = 2.0/5.0*mass*r*r
         return [ixyz, ixyz, ixyz, 0.0, 0.0, 0.0]
+    a, b, c = geom['values'][0], geom['values'][1], geom['values'][2]
+    return [1.0/5.0*mass*(b*b + c*c), 1.0/5.0*mass*(a*a + c*c), 1.0/5.0*mass*(a*a + b*b), 0.0, 0.0, 0.0]
 
 
 def calc_box_inertia(mass: float, geom: PolyhedronGeometry):
-- 
2.43.0


From 52dd815e60bd5d2654cce2f92743c0e39c8c8963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 39/55] fix: translational joints are exported as such

---
 .../rei/format/phys/kinematics/kinematic_semantic_context.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 6c06879..1cee0ef 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -108,6 +108,8 @@ def __encode_joint_type(joint_type: str):
             return "fixed"
         case "rev":
             return "revolute"
+        case "tr":
+            return "prismatic"
     return "fixed"
 
 
-- 
2.43.0


From b3f20e1c078d47ce743027bcea30839fc4ccba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 40/55] fix: the only link of an instantiated graph is placed
 by its connecting joint

---
 .../kinematics/kinematic_semantic_context.py  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 1cee0ef..55bf4fb 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -44,6 +44,20 @@ def get_parent_kinematic_graph(node: HypergraphNode):
     return None, None
 
 
+def __is_nested_kinematic_graph(graph: HypergraphNode):
+    if graph is None or graph.parent is None:
+        return False
+    _, con_kin_graph = get_parent_kinematic_graph(graph.parent)
+    return con_kin_graph is not None
+
+
+def __is_only_link(node: HypergraphNode, graph: HypergraphNode):
+    __links = graph.get_subelements(
+        lambda x: isinstance(x, HypergraphNode)
+        and len(list(x.get_subelements(lambda y: isinstance(y, KinematicLink)))) > 0)
+    return [x for x in __links] == [node]
+
+
 def __obtain_relative_frame_name(node: HypergraphNode):
     kin_graph, parent_kin_graph = get_parent_kinematic_graph(node)
     #print(parent_kin_graph.id_name)
@@ -63,9 +77,12 @@ def __obtain_relative_frame_name(node: HypergraphNode):
                     return relative_frame_name
             else:
                 # We are instantiating a reference
-                _, con_kin_graph = get_parent_kinematic_graph(parent_kin_graph.parent)
-                if con_kin_graph is not None:
+                if __is_nested_kinematic_graph(parent_kin_graph):
                     relative_frame_name = '.'.join(["connect", node.id_name])
+    # The only link of an instantiated graph needs no joint of its own
+    if relative_frame_name is None and __is_nested_kinematic_graph(parent_kin_graph) \
+            and __is_only_link(node, parent_kin_graph):
+        relative_frame_name = '.'.join(["connect", node.id_name])
     return relative_frame_name
 
 
-- 
2.43.0


From df7b1708aa8947178e1d410a58d390cfbb740708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 41/55] fix: the base link of an instantiated graph is always
 the same

---
 .../rei/format/mapping/cognilang_sdf_icon.py           | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_sdf_icon.py b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
index 9117718..386d877 100644
--- a/framework_python/rei/format/mapping/cognilang_sdf_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
@@ -57,7 +57,7 @@ class CognilangSdfIcon(CognitiveIcon):
     def __is_kinematic_graph(el: HypergraphNode):
         return len(list(el.get_subelements(lambda x: isinstance(x, KinematicGraphDefinition)))) > 0
 
-    async def get_canonical_link(self, graph: HypergraphNode) -> typing.Set:
+    async def get_canonical_link(self, graph: HypergraphNode) -> typing.List:
         __sub_engine = HypergraphQueryEngine("engine", b'00', "engine/engine", self.__sub_engine.clock, None)
         __sub_engine.clear()
         link_query = HierarchicalPrepositionQuery(
@@ -66,12 +66,14 @@ class CognilangSdfIcon(CognitiveIcon):
         __sub_engine.add_query(f'{graph.id_name}_link_query', link_query)
         __sub_engine.add_query(f'{graph.id_name}_joint_query', joint_query)
         res = await __sub_engine.execute()
-        links = set(filter(lambda x: isinstance(x, KinematicLink), res))
+        # Keep the order of declaration: with several candidates the choice has to be always the same
+        links = list(filter(lambda x: isinstance(x, KinematicLink), res))
         joints = filter(lambda x: isinstance(x, KinematicJoint), res)
         for j in joints:
             e: HypergraphEdge = j.parent.parent
             for x in e.get_outgoing_relations():
-                links = links.difference(set(x.endpoint.get_subelements(lambda x: isinstance(x, KinematicLink))))
+                children = list(x.endpoint.get_subelements(lambda x: isinstance(x, KinematicLink)))
+                links = [x for x in links if x not in children]
         return links
 
 
@@ -109,7 +111,7 @@ class CognilangSdfIcon(CognitiveIcon):
                 joint_el = joint_base_element(j0, j1, prefix)
                 self.__add_model_element(joint_el)
             else:
-                __canonical_link = (await self.get_canonical_link(j1.endpoint)).pop()
+                __canonical_link = (await self.get_canonical_link(j1.endpoint))[0]
                 #print(__canonical_link.id_name)
                 __joint = next(j1.get_subelements(lambda x: isinstance(x, KinematicJoint)))
                 joint_el = joint_base_element_endpoint(
-- 
2.43.0


From 1d1feb23c5fd2ab505be22bab888dee60424f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 42/55] fix: a nested graph does not take the elements of
 graphs nested in it

---
 .../rei/format/mapping/cognilang_sdf_icon.py     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_sdf_icon.py b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
index 386d877..0853a7f 100644
--- a/framework_python/rei/format/mapping/cognilang_sdf_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
@@ -57,12 +57,19 @@ class CognilangSdfIcon(CognitiveIcon):
     def __is_kinematic_graph(el: HypergraphNode):
         return len(list(el.get_subelements(lambda x: isinstance(x, KinematicGraphDefinition)))) > 0
 
+    @staticmethod
+    def __own_elements(graph: HypergraphNode):
+        # Graphs nested in a graph are exported where a joint instantiates them
+        return lambda x: x is graph or not (
+                isinstance(x, HypergraphNode) and CognilangSdfIcon.__is_kinematic_graph(x))
+
     async def get_canonical_link(self, graph: HypergraphNode) -> typing.List:
         __sub_engine = HypergraphQueryEngine("engine", b'00', "engine/engine", self.__sub_engine.clock, None)
         __sub_engine.clear()
+        own_elements = CognilangSdfIcon.__own_elements(graph)
         link_query = HierarchicalPrepositionQuery(
-            graph, lambda x: isinstance(x, KinematicLink), lambda x: True)
-        joint_query = HierarchicalPrepositionQuery(graph, lambda x: isinstance(x, KinematicJoint), lambda x: True)
+            graph, lambda x: isinstance(x, KinematicLink), own_elements)
+        joint_query = HierarchicalPrepositionQuery(graph, lambda x: isinstance(x, KinematicJoint), own_elements)
         __sub_engine.add_query(f'{graph.id_name}_link_query', link_query)
         __sub_engine.add_query(f'{graph.id_name}_joint_query', joint_query)
         res = await __sub_engine.execute()
@@ -80,10 +87,11 @@ class CognilangSdfIcon(CognitiveIcon):
     async def encode_sub_graph(self, joint, prefix):
         self.__sub_engine.clear()
         prefix_t1 = prefix + joint.parent.id_name
+        own_elements = CognilangSdfIcon.__own_elements(joint.endpoint)
         link_query = HierarchicalPrepositionQuery(
-            joint.endpoint, lambda x: isinstance(x, KinematicLink), lambda x: True)
+            joint.endpoint, lambda x: isinstance(x, KinematicLink), own_elements)
         joint_query = HierarchicalPrepositionQuery(
-            joint.endpoint, lambda x: isinstance(x, KinematicJoint), lambda x: True)
+            joint.endpoint, lambda x: isinstance(x, KinematicJoint), own_elements)
         self.__sub_engine.add_query(f'{joint.id_name}_link_query', link_query)
         self.__sub_engine.add_query(f'{joint.id_name}_joint_query', joint_query)
         res = await self.__sub_engine.execute()
-- 
2.43.0


From db20cd5cfb321ea9fcf97dd19282745f6ebb0dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 43/55] fix: prefixes of nested graphs are separated

---
 framework_python/rei/format/mapping/cognilang_sdf_icon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_sdf_icon.py b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
index 0853a7f..3a6857f 100644
--- a/framework_python/rei/format/mapping/cognilang_sdf_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
@@ -86,7 +86,7 @@ class CognilangSdfIcon(CognitiveIcon):
 
     async def encode_sub_graph(self, joint, prefix):
         self.__sub_engine.clear()
-        prefix_t1 = prefix + joint.parent.id_name
+        prefix_t1 = join_w_prefix_separator([joint.parent.id_name], '.', prefix)
         own_elements = CognilangSdfIcon.__own_elements(joint.endpoint)
         link_query = HierarchicalPrepositionQuery(
             joint.endpoint, lambda x: isinstance(x, KinematicLink), own_elements)
-- 
2.43.0


From 02b3217d58c5c86e5639e3861fdd0110b72018b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 44/55] fix: geometry references that lead to references are
 resolved

---
 .../rei/format/phys/solid_geometry_context.py | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/framework_python/rei/format/phys/solid_geometry_context.py b/framework_python/rei/format/phys/solid_geometry_context.py
index 1ca4625..2ca934c 100644
--- a/framework_python/rei/format/phys/solid_geometry_context.py
+++ b/framework_python/rei/format/phys/solid_geometry_context.py
@@ -41,23 +41,24 @@ def encode_typegeometry_element(e: GeometryNode) -> etree.Element:
     return el_geom
 
 
+def get_geometry_nodes(element, visited=()):
+    yield from element.get_subelements(lambda x: isinstance(x, GeometryNode))
+    # Check reference (it may lead to another reference)
+    for e in element.get_subelements(lambda x: isinstance(x, HypergraphPort)):
+        __ref_: HypergraphEdge = e.endpoint.parent
+        for x in __ref_.get_outgoing_relations():
+            for g in x.endpoint.get_subelements(lambda x: isinstance(x, HypergraphNode)):
+                if g is not element and g not in visited:
+                    yield from get_geometry_nodes(g, (*visited, element))
+
+
 def extract_geometry_element(element):
-    for e in element.get_subelements(lambda x: isinstance(x, GeometryNode)):
+    for e in get_geometry_nodes(element):
         el_top_geom = etree.Element("geometry")
         el_geom = encode_typegeometry_element(e)
         if el_geom is not None:
             el_top_geom.append(el_geom)
         yield el_top_geom
-    # Check reference
-    for e in element.get_subelements(lambda x: isinstance(x, HypergraphPort)):
-        __ref_: HypergraphEdge = e.endpoint.parent
-        for x in __ref_.get_outgoing_relations():
-            for g in x.endpoint.get_subelements(lambda x: isinstance(x, HypergraphNode)):
-                for __g in g.get_subelements(lambda x: isinstance(x, GeometryNode)):
-                    el_top_geom = etree.Element("geometry")
-                    el_geom = encode_typegeometry_element(__g)
-                    el_top_geom.append(el_geom)
-                    yield el_top_geom
 
 
 def encode_visual_elements(element: HypergraphElement, material: VisualMaterial, prefix=""):
-- 
2.43.0


From 7bd7c7cbfdc0172abea81465452db991172c7732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 45/55] fix: links shaped by a reference have the inertia of
 that shape

---
 framework_python/rei/format/phys/inertia_context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index 3cca10a..82b7c31 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -1,7 +1,8 @@
 
 from lxml import etree
 
-from rei.format.semantics.CognitiveEntity import InertiaElement, GeometryNode, CylinderGeometry, EllipsoidGeometry, \
+from rei.format.phys.solid_geometry_context import get_geometry_nodes
+from rei.format.semantics.CognitiveEntity import InertiaElement, CylinderGeometry, EllipsoidGeometry, \
     PolyhedronGeometry
 from rei.hypergraph.base_elements import HypergraphNode
 
@@ -11,7 +12,7 @@ def encode_inertia_element(element):
     __geom = []
     for _el in element.parent.get_subelements(lambda x: isinstance(x, HypergraphNode)):
         for _geom_node in _el.get_subelements(lambda x: isinstance(x, HypergraphNode)):
-            __geom = list(_geom_node.get_subelements(lambda x: isinstance(x, GeometryNode)))
+            __geom = list(get_geometry_nodes(_geom_node))
             break
         if len(__geom) > 0:
             break
-- 
2.43.0


From fa19fced919bcda8a468d2be30127e2d7c8b3bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 46/55] fix: the inertia of a cylinder takes its radius for the
 radius

---
 framework_python/rei/format/phys/inertia_context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index 82b7c31..f59eda8 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -61,8 +61,8 @@ def encode_inertia_element(element):
 
 
 def calc_cylinder_inertia(mass: float, geom: CylinderGeometry):
-    l = geom['values'][0]
-    r = geom['values'][1]
+    r = geom['values'][0]
+    l = geom['values'][1]
     ixy = 1.0/12.0*mass*(3*r*r+ l*l)
     izz = 0.5*mass*r*r
     return [ixy, ixy, izz, 0.0, 0.0, 0.0]
-- 
2.43.0


From 99288122512eede10261d20828e152fdc7213440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 47/55] fix: links tied by other edges than joints can be
 exported

---
 .../rei/format/phys/kinematics/kinematic_semantic_context.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 55bf4fb..237eb89 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -67,7 +67,7 @@ def __obtain_relative_frame_name(node: HypergraphNode):
         # Normal
         x: HypergraphPort
         __rel: HypergraphRelation = x.endpoint
-        sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)))
+        sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)), None)
         if sub_el is not None:
             if __rel.direction == EnumRelationDirection.OUTWARDS:
                 e: HypergraphEdge = x.endpoint.parent
-- 
2.43.0


From 4e717b40511be3efa9d025969fe1a80089f79b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 48/55] fix: eigenvalues of zero do not make the projected
 entropy undefined

---
 framework_python/rei/tensor/tensor_representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index babf826..c14a2de 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -49,7 +49,7 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
 
     def entropy_projected_vector(self):
         v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])
-        return -v*np.log2(v)
+        return -v*np.nan_to_num(np.log2(v), neginf=0, posinf=0)
 
     def entropy_projected(self):
         return np.sum(self.entropy_projected_vector())
-- 
2.43.0


From ed548a82b85d260bd0883d1a5f823e3ad62ab09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 49/55] fix: print the hierarchy of an edge that has no
 container

---
 .../rei/foundations/hierarchical_traversal_strategies.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index fb911b7..c5ae55f 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -112,7 +112,10 @@ def print_element(_el):
                 print(f"node {_el.qualified_name}: {_el.id_name} <- {_el.parent.id_name}")
         case HypergraphEdge():
             _el: HypergraphEdge
-            print(f"edge {_el.qualified_name}: {_el.id_name} {_el.cnt_subelements} <- {_el.parent.id_name}")
+            if _el.parent is None:
+                print(f"edge {_el.qualified_name}: {_el.id_name} {_el.cnt_subelements}")
+            else:
+                print(f"edge {_el.qualified_name}: {_el.id_name} {_el.cnt_subelements} <- {_el.parent.id_name}")
         case HypergraphRelation():
             _el: HypergraphRelation
             print(f"relation {_el.qualified_name}: {direction_to_text(_el.direction)} {_el.endpoint.id_name}:: {_el.weight}")
-- 
2.43.0


From ba835a9de584f0f4ac3e70f62b9ad503578315cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:51 +0000
Subject: [PATCH 50/55] fix: restore the origin of decoded values as text

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 72375b5..3d96555 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -79,7 +79,7 @@ class GraphTensorCbor(object):
         # Value nodes
         values = []
         for v in frag[3]:
-            _el = ValueNode(v[0], v[1], v[4], v[5])
+            _el = ValueNode(v[0], v[1], v[4].decode('utf-8'), v[5])
             values.append((v[0], v[2]))
             _elements[v[3]].add_element(_el)
         # Value tensor
-- 
2.43.0


From 0fdabcba953a5d0837767d1d7a5bbd1d70c26e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:07 +0000
Subject: [PATCH 51/55] fix: an element with a port to a relation can be put
 below it

---
 framework_python/rei/hypergraph/base_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 533d5b5..69b362b 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -121,7 +121,7 @@ class HypergraphRelation(HierarchicalElement):
 
     def add_element(self, element: HierarchicalElement) -> None:
         super().add_element(element)
-        if isinstance(element, HypergraphElement):
+        if isinstance(element, HypergraphElement) and self.uuid not in element._ports:
             # Set port
             element.connect(self)
 
-- 
2.43.0


From 2a4c802865f66553fdec55b03d44a508b750b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:07 +0000
Subject: [PATCH 52/55] fix: a semantic value that holds the edge is refused
 before anything changes

---
 framework_python/rei/hypergraph/base_elements.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 69b362b..327835f 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -2,7 +2,7 @@ import typing
 
 from rei.foundations.abstract_items import IdentifiableItem
 from rei.foundations.clock import MetaClock
-from rei.foundations.common_errors import ErrorDuplicateElement
+from rei.foundations.common_errors import ErrorDuplicateElement, ErrorRecursiveHierarchy
 from rei.foundations.conceptual_item import ConceptualItem, HierarchicalElement
 from rei.foundations.identification.identity_generator import Sha3UniqueIdentifierGenerator
 from rei.hypergraph.common_definitions import EnumRelationDirection
@@ -145,6 +145,12 @@ class HypergraphEdge(HypergraphElement):
                                  semantic_value_node=semantic_value_node)
         if rel.uuid in self._sub_elements:
             raise ErrorDuplicateElement
+        # The semantic value becomes part of this edge: it can not hold the edge
+        __ancestor = self
+        while __ancestor is not None and semantic_value_node is not None:
+            if __ancestor is semantic_value_node:
+                raise ErrorRecursiveHierarchy
+            __ancestor = __ancestor.parent
         endpoint.connect(rel)
         try:
             if semantic_value_node is not None:
-- 
2.43.0


From e3dedec64f057b90c0c821d8428abd26783aa079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:12 +0000
Subject: [PATCH 53/55] fix: a connection refused for its semantic value does
 not use up an ordinal

---
 framework_python/rei/hypergraph/base_elements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 327835f..3f4eb14 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -145,6 +145,8 @@ class HypergraphEdge(HypergraphElement):
                                  semantic_value_node=semantic_value_node)
         if rel.uuid in self._sub_elements:
             raise ErrorDuplicateElement
+        if not isinstance(semantic_value_node, HierarchicalElement | None):
+            raise TypeError("no element: " + repr(semantic_value_node))
         # The semantic value becomes part of this edge: it can not hold the edge
         __ancestor = self
         while __ancestor is not None and semantic_value_node is not None:
-- 
2.43.0


From 581f4579eeca8d136f5162bb63399f6f3b65e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:04 +0000
Subject: [PATCH 54/55] fix: relations of edges and endpoints that share an
 identifier are not paired with each other

---
 .../rei/hypergraph/factorization_operations.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 314e36a..82a2fff 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -61,7 +61,7 @@ class Factorization2SubsetOperation(GraphMonad):
             for e in i_e:
                 o_e = filter(lambda x: x.endpoint in self.nodes, __edge.get_outgoing_relations())
                 for e1 in o_e:
-                    if (e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop:
+                    if (e.endpoint is not e1.endpoint) or self.self_loop:
                         self.__relation_list.append([e, e1])
         return self.__relation_list
 
@@ -82,18 +82,18 @@ class RelationFactorization2SubsetOperation(GraphMonad):
         for __rel in filter(lambda x: isinstance(x, HypergraphRelation), start):
             __rel: HypergraphRelation
             if __rel.direction == EnumRelationDirection.INWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
-                if __rel.parent.uuid not in self.incoming_relations:
-                    self.incoming_relations[__rel.parent.uuid] = []
-                self.incoming_relations[__rel.parent.uuid].append(__rel)
+                if __rel.parent not in self.incoming_relations:
+                    self.incoming_relations[__rel.parent] = []
+                self.incoming_relations[__rel.parent].append(__rel)
             if __rel.direction == EnumRelationDirection.OUTWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
-                if __rel.parent.uuid not in self.outgoing_relations:
-                    self.outgoing_relations[__rel.parent.uuid] = []
-                self.outgoing_relations[__rel.parent.uuid].append(__rel)
+                if __rel.parent not in self.outgoing_relations:
+                    self.outgoing_relations[__rel.parent] = []
+                self.outgoing_relations[__rel.parent].append(__rel)
         # Pair relations
         for k in self.incoming_relations:
             for i_e in self.incoming_relations[k]:
                 for o_e in self.outgoing_relations.get(k, []):
-                    if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
+                    if (o_e.endpoint is not i_e.endpoint) or self.self_loop:
                         self.__relation_list.append([i_e, o_e])
         # Relation list
         return self.__relation_list
-- 
2.43.0


From 8f7730b0a39a2fd913f67b1db213aba6b26ef6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:05 +0000
Subject: [PATCH 55/55] fix: references to parameters are resolved wherever a
 vector is expected

---
 .../rei/format/mapping/cognilang_file_icon.py      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index b2d3c6f..44f4fcd 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -150,10 +150,17 @@ class CognilangParserFileIcon(CogniLangVisitor):
         self._reference_cache[container_node.qualified_name] = ref_e
 
     def __extract_vector_field_values(self, ctx: CogniLangParser.Field_float_vectorContext):
-        yield from self.__extract_float_vector_values(ctx.float_vector())
+        if ctx.float_vector() is not None:
+            yield from self.__extract_float_vector_values(ctx.float_vector())
+        else:
+            # The field itself refers to a parameter
+            yield from self.__extract_values([ctx])
 
     def __extract_float_vector_values(self, ctx: CogniLangParser.Float_vectorContext, parent=None):
-        for x in ctx.value():
+        yield from self.__extract_values(ctx.value())
+
+    def __extract_values(self, values):
+        for x in values:
             if x.ref_() is not None:
                 __ref_name = str(x.ref_().ID())
                 p = next(self.__parameters.get_subelements(
@@ -322,7 +329,8 @@ class CognilangParserFileIcon(CogniLangVisitor):
     def visitInertia_body(self, ctx: CogniLangParser.Inertia_bodyContext):
         parent_name = self.__generate_parent_name(ctx)
         if ctx.inertia_vector() is not None:
-            v = self.__extract_vector_field_values(ctx.inertia_vector().field_float_vector())
+            # The parameters it refers to have to exist
+            v = list(self.__extract_vector_field_values(ctx.inertia_vector().field_float_vector()))
             print(v)
         __inertia = self.__cognitive_element_factory.generate_semantic_element(
             'inertiaelement', f"inertia_{parent_name}", self._element_cache[parent_name],
-- 
2.43.0

