#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
R = "framework_python/rei/"
CI = R + "foundations/conceptual_item.py"; BE = R + "hypergraph/base_elements.py"; VN = R + "hypergraph/value_node.py"
AF = R + "factories/abstract_factory.py"; FF = R + "factories/foundation_factory.py"; IG = R + "foundations/identification/identity_generator.py"
HT = R + "foundations/hierarchical_traversal_strategies.py"; GT = R + "foundations/hypergraph_traversal_strategies.py"
SE = R + "foundations/query/search_elements.py"; QE = R + "query/query_engine.py"; FO = R + "hypergraph/factorization_operations.py"
HO = R + "hypergraph/homomorphism_functions.py"; TR = R + "tensor/tensor_representation.py"
GI = R + "hypergraph/encoding/graph_tensor_icon.py"; CB = R + "hypergraph/encoding/graph_tensor_icon_cbor.py"
FI = R + "format/mapping/cognilang_file_icon.py"; SD = R + "format/mapping/cognilang_sdf_icon.py"
KI = R + "format/phys/kinematics/kinematic_semantic_context.py"; SG = R + "format/phys/solid_geometry_context.py"; IN = R + "format/phys/inertia_context.py"
CF = R + "format/semantics/cognitive_entity_semantic_factory.py"; AP = "framework_python/apps/simulation/convert_cognilang_sdf.py"
CK = R + "foundations/clock.py"; NF = R + "hypergraph/norm/norm_functions.py"; GM = R + "foundations/graph_monad.py"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
H, S, F, I, C, X = "histories", "schedules", "fault_sequences", "inputs", "configurations", "crash_points"

p("P01", "Containment is always a forest with exact counts",
  "After any sequence of add, move, remove, register and deregister operations (including refused and half-consumed ones) every element has at most one container, and it is listed among a container's sub-elements exactly when that container is its parent, and then exactly once. No element is ever its own ancestor, no element is lost or duplicated, and the number of sub-elements a container reports equals the number it actually holds.",
  [H, F], "all operation histories over any number of elements of every kind, with operations refused, abandoned half way or failing at any point",
  "the tests build a handful of fixed trees and remove one or two elements once; none moves subtrees, re-adds, abandons a removal or interleaves bulk operations",
  [CI, BE], [("add_element/remove_element keep parent, listing, name index and count in step", CI), ("register/deregister, edge/relation overrides", BE)],
  [("sub-elements", "what a container holds", CI), ("parent", "the one container", CI)], ["parent", "get_subelements", "cnt_subelements", "sub_nodes/sub_edges/sub_values/sub_ports/sub_relations"])
p("P02", "Qualified name and depth always reflect the current position",
  "At every point of any history the qualified name of an element is the '/'-joined list of names from its root down to it, and its depth is the number of containers above it. This holds for the moved or removed element itself and for every element below it, at any nesting depth. The name an element was created under (its progenitor name) never changes.",
  [H], "all histories of attaching, moving and removing subtrees of any shape and depth",
  "the tests look at names after building a tree once; none looks at descendants after a subtree moved or was cut off",
  [CI, R + "foundations/abstract_items.py"], [("breadth-first refresh of a subtree after add", CI), ("refresh on removal", CI)],
  [("qualified name", "path of names", CI), ("depth", "number of containers above", CI)], ["qualified_name", "depth"])
p("P03", "Lookup by name or path agrees with the hierarchy",
  "Looking an element up by name in a container yields exactly the direct sub-elements with that name, in the order they were added, and a '/'-path yields exactly the elements reachable by following the names level by level. A name or path that matches nothing yields nothing, at any level and whatever kinds of element lie on the way. The answer to a lookup of a single name that has begun is what was there when its first element was taken, whatever changes while it is read.",
  [H, I], "all histories (adds, moves, removals of same-named elements) and all queried names and paths",
  "tests query a few existing names of one tree; none queries missing prefixes, homonyms, or after moves and removals",
  [CI], [("per-container name index kept in step with the sub-elements", CI), ("recursive path resolution", CI)], (), ["get_element_by_id_name"])
p("P04", "A refused structural operation changes nothing",
  "When adding an element is refused (already there, the element itself, or one of its own ancestors), or a removal is refused (unknown name or identifier, name and identifier that do not belong together, or no criterion), or an element cannot be created for want of a clock, or an edge cannot be connected (endpoint connected already, no proper semantic value), an error is raised and every observable of every element involved - membership, parent, counts, ordinals, names, depth, lookup results, relations and ports - is exactly what it was before.",
  [H, F, I], "all states reachable by any history, times all ways of being refused",
  "tests check that one duplicate raises; none compares the state before and after, and cycles deeper than self are not tried",
  [CI, BE], [("checks before any mutation", CI)], (), ["errors from add_element/remove_element/constructors", "all read accessors before/after"])
p("P05", "Ordinals inside a container are never reused",
  "Every element attached to a container gets an ordinal equal to the number of attachments that container accepted before, so ordinals strictly increase in attachment order and are never handed out twice, whatever was removed or moved away in between and however many attachments were refused.",
  [H, S], "all histories and interleavings of attachments, removals and moves on a container",
  "tests check ordinals 0..n of one insertion burst, never after removals, moves or refusals",
  [CI], [("historical attachment counter", CI)], [("ordinal", "cid of an element", CI)], ["cid"])
p("P06", "Concurrent bulk adds and removes equal some one-by-one order",
  "When several bulk additions and removals run concurrently on shared containers, under any scheduling, cancellation or failing member, the outcome is that of executing the individual operations one by one in some order that keeps each caller's completed calls ordered; every listed member that can be added or removed is, and nothing else changes. When the bulk call's awaited result reports success every member was applied, and a member that failed is reported by that result, with the error its own operation gives, instead of being silently dropped.",
  [S, F, H], "all interleavings of any number of bulk calls, with failing members (duplicates, absent elements) and cancelled callers",
  "the two tests issue one bulk call alone on an idle loop and look at a count",
  [CI], [("bulk operations built on the single-element ones, gathered in an event loop", CI)], (), ["add_elements", "remove_elements", "futures they return"])
p("P07", "Timestamps are clock readings of the last structural change",
  "An element that carries a timestamp always shows a reading its own clock gave during the latest operation that created it or changed its place in the hierarchy (its own attach, move or removal, or that of an element above it), and reads, traversals, queries and encodings never change it. A clock that stalls, runs coarsely, jumps or runs backwards never makes an operation on existing elements fail and never changes anything but timestamps and clock-derived names and identifiers. The local clock reads the machine's time, also when that is set back.",
  [F, H], "all clock behaviours (stall, coarse ticks, forward and backward jumps) times all histories",
  "tests use a constant clock or the real one; neither can produce stalls and jumps at chosen points",
  [CI, CK], [("timestamp refresh on structural change", CI), ("clock abstraction", CK)], [("timestamp", "last change", CI)], ["timestamp", "MetaClock.get_time_ns"])
p("P08", "Identifiers are reproducible and do not collide",
  "Two elements that one factory creates get different identifiers whenever they differ in container path, name or clock reading, and the same factory name, container path, name and clock reading give the same identifier in every process and factory instance. Relations and ports created by connecting get identifiers distinct from those of all other elements, so that connecting any distinct endpoints - also same-named ones, and also while the clock stands still - never fails or confuses two of them; only a relation that an edge makes again for an endpoint, after the first was taken away, has the identifier of its predecessor.",
  [I, F, H], "all names (free of the path separator), container paths and clock readings (including a clock that stands still), all processes",
  "tests compare one hash with a constant and a few siblings; same names under different containers within one clock tick are never tried",
  [AF, FF, IG, BE, CF], [("SHA3 over factory, path, name and clock", IG), ("identifier text built by the factories", AF), ("port/relation identifiers", BE)], (), ["uuid"])
p("P09", "Edges, relations, endpoints and ports always agree",
  "In every reachable state each relation held by an edge is mirrored by exactly one port on its endpoint and every port leads to such a relation, unless that port was explicitly disconnected; removing a relation removes its port, and disconnecting removes exactly that port and nothing else. An edge lists exactly its current relations in the order they were attached, its endpoint list is those relations' endpoints, and its incoming (outgoing) relations are exactly the inward (outward) and bidirectional ones. The incidence value of a relation follows its direction and cannot be altered through what was handed out.",
  [H], "all histories of connecting, disconnecting, removing relations, edges and endpoints, and moving edges between containers",
  "tests connect once and count; nothing is ever disconnected or removed",
  [BE], [("connect/disconnect of ports", BE), ("edge keeps its relations on add and remove", BE)], [("ports", "back references of an endpoint", BE), ("relations", "incidence of an edge", BE)],
  ["sub_relations", "induced_subset", "get_incoming_relations", "get_outgoing_relations", "sub_ports", "port.endpoint"])
p("P10", "Factory connectors attach exactly what was requested, or nothing",
  "Each factory connector creates one edge in the given container with exactly one relation per requested endpoint, in request order, carrying the requested direction, weight node and semantic value (the inward and the outward list each with its own direction and its own slice of the values). If the request is refused (values that do not match the endpoints, an unusable endpoint) no edge, relation or port is left behind in the container or on any endpoint. The sample Fano graph built with them has any two of its seven points on exactly one line.",
  [I, H, F], "all endpoint lists, directions, values and semantic values, all positions at which an endpoint is unusable, on graphs of any history",
  "tests use a few endpoint lists with fixed directions and never inspect what a refused call leaves behind",
  [FF, BE], [("connect_nodes, connect_2factor_edges, connect_dir_edges, connect_tuple_nodes, create_hyperedge, create_value", FF), ("unary_connect", BE)], (), ["relations of the returned edge", "container and endpoints after a refusal"])
p("P11", "Hierarchical traversal visits the right elements once and in order",
  "A breadth-first, depth-first or depth-limited traversal calls its visitor exactly once for the start (unless told to ignore it or the filter refuses it) and for each element reachable through filtered sub-elements within the depth limit, level by level in attachment order for breadth-first and in pre-order, latest-attached first, for depth-first, and for nothing else; awaiting the futures it returns gives the results of the visits in that order. This holds for hierarchies of any size and nesting, at every repetition, and whatever earlier or concurrent traversals did, including ones that were aborted by a visitor error or cancelled half way. The printed listing of a hierarchy has one line per node, edge and relation in breadth-first order, with its current qualified name and a relation's direction and endpoint.",
  [H, S, F, I], "all hierarchies, filters, limits and start elements, all interleavings with other traversals, all abort points",
  "every traversal test fails on the pinned interpreter, and they only cover a few shallow trees with one undisturbed traversal",
  [HT, GM], [("queue-driven traversal", HT)], (), ["sequence of visitor calls", "returned list"])
p("P12", "Searching by qualified name finds exactly what is there now",
  "A sub-element search returns the start or the element below it that currently has the requested qualified name, and a bidirectional search the element anywhere in the same hierarchy, as a one-element result; when none exists the result is empty. Repeating or re-using a search object after elements moved, were removed or replaced, from another start, or after an aborted search, gives the answer for the current state.",
  [H, S, F], "all histories of structural changes between searches, all start elements and names, all abort points",
  "the tests search a freshly built static tree; the one repetition test repeats it on the unchanged tree",
  [SE], [("queue-driven search with a result cache", SE)], [("cache", "last hits by name", SE)], ["query_result"])
p("P13", "The query engine returns exactly the matching elements",
  "Executing a query engine returns, query by query in the order the queries were added, exactly the elements reachable through traversable elements that satisfy that query's predicate, each once, in breadth-first order (a predicate holds when its answer counts as true), whether run synchronously or inside a running event loop, under any task scheduling. Re-executing gives the result for the current graph without leftovers, an engine with no queries or no matches returns an empty result, replaced or cleared queries do not contribute, and a predicate that raises makes the execution fail instead of silently dropping elements.",
  [S, H, F, I], "all graphs, predicates, traversal conditions, query sets, repetitions, task interleavings and failing predicates",
  "every query-engine test fails on the pinned interpreter, and they run one query once on one graph",
  [QE], [("prefilter traversal + result queue per query", QE), ("engine gathers all queries", QE)], (), ["execute", "execute_all_queries", "get_list_results"])
p("P14", "Concurrent readers disturb neither each other nor the graph",
  "Any number of traversals, searches, engine queries, factorizations and index, tensor or coordinate-list computations running concurrently on one graph, under any interleaving and with some of them cancelled or failing, each return what they return when run alone, also when several of them use one traversal object. None of them changes anything observable about the graph.",
  [S, F], "all interleavings, cancellation points and failing callbacks of any mix of readers",
  "tests run one reader at a time on an idle loop, so no interleaving is ever exercised",
  [HT, GT, SE, QE, FO, HO, TR, GI], [("per-run fringe queues and results", HT), ("same", GT), ("same", SE)], (), ["results of concurrent tasks", "snapshot of the graph before/after"])
p("P15", "Work on separate graphs is independent",
  "Building, changing, querying, encoding and converting graphs that share no element, from different threads or tasks in any interleaving, gives for each graph the same identifiers, structure and results as the same work done alone. No traversal, search, engine, transformer, encoder or converter instance carries state over into another instance, also after errors.",
  [S, F], "all preemption points of any number of threads and tasks on disjoint graphs, with failures inside some of them",
  "the tests are single-threaded and never compare a run next to another with the run alone",
  [HT, GT, SE, QE, CI, BE, FF, HO, CB, SD], [("no module-level or class-level mutable state", HT)], (), ["results per graph, alone against interleaved"])
p("P16", "Two-factorizations are exact and always terminate",
  "Factorizing a graph yields, for every edge reachable from the start (from a node the edges directly in it, from an edge the endpoints of its outgoing relations, which may be edges again), one entry per incoming relation with exactly the edge's outgoing relations. The subset forms yield exactly the (incoming, outgoing) relation pairs of one edge, either among the relations of the selected edges whose endpoints are selected, or among the selected relations (bidirectional relations counting as both), a pair on one endpoint only when self loops are requested. All forms terminate on every graph, including cyclic references and large ones, and the mapping step applies its function to each entry once, in order. Results handed out stay as they were whatever is factorized afterwards, and edges that share an identifier are told apart.",
  [I, H], "all directed, bidirectional, cyclic, nested and disconnected graphs, all selections, all sizes",
  "tests factorize three small acyclic graphs",
  [FO], [("fringe traversal, pairing per edge", FO)], (), ["execute of the three factorizations and the mapping"])
p("P17", "Graph-to-tensor indices are a current bijection",
  "After an index computation every node, edge and value in scope (sub-elements down to the requested depth, the start included unless ignored) has exactly one index, indices of each kind are consecutive from zero in breadth-first attachment order, and the inverse lookup returns the same element; looking up anything else fails. Recomputing after any change of the graph, on the same or another start, gives the indices of the current graph only, and a computation rebuilt from stored pairs is identical and, extended by further elements, goes on at the next index of each kind.",
  [H, I, S], "all graphs, depths, starts and change histories between computations",
  "tests index two fixed graphs once; the traversal beneath does not run on the pinned interpreter",
  [HO], [("three depth-limited traversals filling two-way maps, reset on execute", HO)], (), ["node/dim/edge/depth/val/ival", "cnt_node", "cnt_edges"])
p("P18", "Weight tensor and incidence matrices mirror the graph",
  "After a tensor computation the weight tensor has a non-zero entry for (edge, from, to) exactly when that edge has a relation letting `from` act as incoming and a different endpoint `to` act as outgoing, with the value given by the relation weights (sum norm) or 1 without a weight (a weight without values adds up to nothing and gives no entry), and the outgoing and incoming incidence matrices are non-zero exactly at the edge/node pairs that take part in such an entry. Recomputing after any graph change, on another graph or in reverse, gives the tensors of the current graph with nothing left over from before, also after a computation that failed at a weight that cannot be summed. Tensors taken from a transformer stay as they were when it computes again.",
  [I, H], "all directed, bidirectional and mixed edges of any arity, any weights, any change history between computations",
  "all tensor tests fail on the pinned interpreter and use a few binary or fully bidirectional graphs",
  [TR, GT, R + "hypergraph/representation/abstract_representations.py", NF], [("weighted traversal emitting (from,to,edge,weight)", GT), ("tensor filling", TR)], (), ["W", "Io", "Ii"])
p("P19", "Degree, Laplacian and entropy formulas are evaluated correctly",
  "At every moment the degree vector and matrix, the total degree, the per-edge and projected Laplacians, the normalised Laplacian and the entropies read from a tensor representation equal their formulas evaluated on the weight tensor and incidence matrices it holds at that moment, in whatever order and how often they are read, after recomputation for another graph, after an aborted computation and after single entries are set. Reading them changes neither the tensors nor each other, and they are finite wherever the formulas are defined (a zero eigenvalue or diagonal entry contributes nothing).",
  [H, I, F], "all histories of computations, aborted computations, single entries and readings, on all graphs", "the tests compare a few fresh graphs with constants",
  [TR], [("numpy formulas", TR)], (), ["deg", "D", "DD", "L", "Lp", "Lnorm", "total_deg", "entropy", "entropy_projected"])
p("P20", "A snapshot message restores the same graph",
  "Decoding a snapshot of a context whose edges stay among it and its direct sub-nodes yields a graph with the same context, direct sub-nodes, edges, relations and values: same identifiers, names, places of origin, order, endpoints, directions, ports and value contents, and index maps equal to the sender's for these elements. This holds for any such context (also one inside a larger graph), for any number of earlier encodings or decodings by the same objects and any changes in between, and decoding touches neither the sender's graph nor graphs decoded before. A truncated snapshot is refused, and a refused one alters nothing the receiver already has. The coordinate lists of an encoding name exactly the current (edge, from, to) entries of the graph, with nothing left from before, also after an encoding that failed.",
  [H, I, F], "all graphs, histories of re-encoding and re-decoding, and damaged messages",
  "the two tests encode one tree once and decode it once, and do not run on the pinned interpreter",
  [CB, GI], [("tuple lists per kind, cbor2", GI), ("create_graph", CB)], (), ["full_msg", "create_graph", "returned root and index maps"])
p("P21", "Replicated values converge despite message faults",
  "After any sequence of delivered, lost, duplicated, reordered, delayed or damaged value-update messages and restarts of the receiver from a snapshot, the replica's values are exactly those of the last update it accepted (or of its snapshot), for all values together, as long as the sender's context loses none of its values. An undamaged update is accepted, a truncated one is refused, and a message that is refused leaves every value as it was. Once faults stop one delivered update makes the replica equal to the sender; updates never change anything but values.",
  [F, S, X], "all sequences of message faults and receiver restarts, all value histories at the sender",
  "one test delivers two updates in order, in one process, and does not run on the pinned interpreter",
  [CB, GI, VN], [("full-state value updates addressed by index", GI), ("apply by index", CB)], (), ["msg_value_update", "from_msg_update_values", "values of the replica"])
p("P22", "Value nodes hold exactly what was last written",
  "A value node always reads back the last written contents through every accessor (single index, iteration, full list, dimension), for any sequence of single writes, whole-list replacements and semantic attribute changes, reading an attribute that is not set gives nothing rather than an error, and an index outside the contents is refused. A value node never shares storage with the caller's lists or with another node, lists handed out as copies do not write through, and a value used as a weight by relations shows every change through each relation.",
  [H, I, S], "all write histories, aliasing patterns and interleavings of writers",
  "tests write one or two entries once and read them back",
  [VN, BE], [("list storage, dimension, accessors", VN)], (), ["get_value", "get_values", "val", "dim", "iteration", "[]", "relation.weight"])
p("P23", "A CogniLang description becomes the complete hypergraph",
  "Reading a CogniLang description creates exactly one element for each declared entity, kinematic graph, link, joint, visual, collision, geometry, material, inertia, sensor, actuator and other entity part, placed under the element that declares it with the declared name, and each joint becomes an edge whose relations have the declared endpoints, directions, joint type, axis and transformation, with angles in radians where degrees are declared. Names that refer to parameters, links or geometries resolve to the declared definitions, wherever a number, vector, endpoint or shape is expected; a description in which such a name refers to something it does not declare is refused with an error, also when an earlier description declared it. The result does not depend on the clock or on other descriptions read before or concurrently, by the same or another visitor, and reading the same description twice gives equal graphs.",
  [I, S, F], "all descriptions of the grammar, all clock behaviours, interleaved conversions",
  "the tests of this path need a generated parser that is not in the repository, and use three example files",
  [FI, R + "format/mapping/cognilang_map_utility.py", CF, "framework/cognitive/speclanguage/src/main/antlr4"], [("parse-tree visitor building the hypergraph", FI)], (), ["root_entity of the visitor"])
p("P24", "SDF export contains exactly the kinematic model",
  "Exporting a cognitive entity (as the conversion program does) yields one link per kinematic link with its pose, geometry, material and inertia, one joint per (parent, child) pair of a joint edge with its type, axis, pose, parent and child names, and nothing else; nested kinematic graphs, at any depth, are instantiated with their dotted prefix for each joint that leads to them and connected at one of their base links, always the same. Geometry dimensions (also of shapes given by reference) and inertia values are those of the described shapes, exporting changes nothing in the graph, the elements give the same model whether handed to the exporter in one call or in parts, and the document is the same on every run, under every scheduling, clock and hash ordering, and independent of other exports before or concurrently.",
  [I, S, F], "all kinematic models, event-loop schedules, hash seeds and concurrent exports",
  "no test of this path can run here, and the existing ones print instead of checking",
  [SD, KI, SG, IN, QE, FO], [("queries select links/joints", QE), ("pairing of joint relations", FO), ("XML encoders", KI), ("geometry", SG), ("inertia", IN)], (), ["root_xml"])
p("P25", "The converter reports failure, and success means complete files",
  "When the conversion program ends normally, the model file and the load script exist in the output directory with exactly the complete document and command for the description that was read, whatever earlier invocations (also failed or killed ones) left there. When reading the input or creating, writing or closing an output fails at any point (missing file, full disk, short or failing write), or the description refers to something it does not declare, the program ends with an error instead of reporting success. When nothing fails, the conversion of a valid description ends normally, and no invocation changes its input or the files of other models.",
  [F, X, I], "all failure points of every file operation the program performs",
  "no test runs the program, and a real disk does not fail on demand",
  [AP], [("argument handling, query, export, file writing", AP)], (), ["exit of main()", "files written"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
