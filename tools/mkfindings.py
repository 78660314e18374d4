import json
what = ("all search objects share one queue (default argument of GraphQuery._setup_query): a search that stops at its hit or "
        "fails leaves unexplored elements in it, which the next search explores first and may return although they are outside its scope")
call = "rei.foundations.query.search_elements.GraphQuery._setup_query"
L = [dict(property="P12", status="open", what=what, call_site=call,
          identified_by="the result equals, element for element, what exploring that leftover queue gives (dst/worlds/readers.py, class Leak)",
          why_not_repaired="test.format.graph.test_hypergraph_basicqueries::test_retrieve_from_hierarchy_depth_bidirectional (one of the "
                           "stable tests) passes only because of the leftover: it searches below node2 for an element of node1")]
fixed = [
 ("P11","a254595","traversals wrapped visitors with asyncio.coroutine, which the interpreter no longer has: no traversal ran"),
 ("P13","a254595","same for the query engine: no query ran"),
 ("P18","986e2b6","np.float no longer exists: no tensor could be computed"),
 ("P13","e6c45ae","query results came in the order the tasks ended, cleared or failing queries still contributed or were dropped silently"),
 ("P01","aa99f90","an element could be added below itself (ancestor), giving a cycle"),
 ("P04","aa99f90","same: the refusal was missing for ancestors deeper than self"),
 ("P04","14ce3f1","removal by name and identifier that do not belong together removed an element and damaged the name index"),
 ("P01","14ce3f1","removal left the name index and the sub-elements out of step with same-named elements"),
 ("P02","9ff198d","qualified names and depths below a moved or removed element were not refreshed"),
 ("P03","53c7533","path lookup of missing or mixed-kind paths raised or gave wrong elements"),
 ("P09","907e2b0","disconnect did not remove the port"),
 ("P09","ae73099","elements of edges and relations could not be removed"),
 ("P09","277d986","relations removed from an edge stayed listed and kept their ports"),
 ("P10","277d986","an endpoint refused half way left relation and edge out of step"),
 ("P08","943f96e","relation and port identifiers collided for same-named endpoints"),
 ("P08","9439d64","identifiers did not depend on the container path: same-named elements in one tick collided"),
 ("P10","b2de2c4","connect_2factor_edges gave the outward endpoints the wrong direction and values"),
 ("P08","9e634b1","stamped qualified name was bytes, making identifiers and names inconsistent"),
 ("P22","08f55ae","update_values kept the caller's list and the old dimension"),
 ("P06","7227034","bulk calls dropped members silently and reported success"),
 ("P10","6507088","a refused connector request left its edge, relations or ports behind"),
 ("P11","fce6b67","all traversals of a kind shared one queue; recursion limit on long hierarchies"),
]
import subprocess


def commit(subject):
    h = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "-1", "--fixed-strings", "--grep=" + subject], capture_output=True, text=True).stdout.strip()
    assert h, subject
    return h


LATER = [
 ("P04", "an element with a port to a relation can be put below it", "putting an endpoint below its own relation was refused after it had been moved there"),
 ("P04", "a semantic value that holds the edge is refused before anything changes", "a refused connection had taken the semantic value out of its container and renamed what it holds"),
 ("P05", "a connection refused for its semantic value does not use up an ordinal", "the next attachment to the endpoint skipped an ordinal"),
 ("P12", "searches look at the current graph", "searches returned cached elements that had moved, vanished or been replaced; recursion limit on large graphs; same-identifier elements were skipped"),
 ("P13", "a query listed under several names contributes in order", "a query added under two names gave its results once or mixed with those of the others"),
 ("P16", "factorization and hypergraph traversal end on cyclic references", "no end on cyclic references, recursion limit on long chains"),
 ("P18", "factorization and hypergraph traversal end on cyclic references", "same for the traversal below the tensor computation"),
 ("P16", "pairs of selected relations count bidirectional ones as both", "bidirectional relations were left out of pairs, an edge without outgoing ones made the factorization fail"),
 ("P18", "hypergraph traversal pairs incoming endpoints with outgoing ones only", "entries for pairs of endpoints no relation pair stands for"),
 ("P17", "index computation covers elements nested below other kinds of elements", "nodes and edges below elements of another kind got no index"),
 ("P20", "encoding a graph again does not repeat relations", "relations and tensor entries of earlier encodings were repeated in later ones"),
 ("P20", "the coordinate transformer encodes the context it was reset to", "an encoder re-used for another context mixed both"),
 ("P20", "a snapshot of a context inside a larger graph can be decoded", "decoding failed on the unknown parent"),
 ("P20", "decoded relations keep their direction", "all relations became bidirectional"),
 ("P21", "a refused value update changes no value", "a message with a wrong entry changed the values before that entry"),
 ("P18", "a tensor representation re-used for a graph of the same size starts from zero", "entries of the earlier graph were left over"),
 ("P23", "every geometry reference gets its own edge", "two references in one part of the graph were refused as duplicates or merged"),
 ("P23", "mesh geometries are semantic elements", "descriptions with a mesh could not be read"),
 ("P23", "an endpoint reference finds the element, not a value of that name", "joints ended at a semantic value of the same name"),
 ("P23", "unsigned integers are integer tokens", "integers such as 12 were no integer for the grammar"),
 ("P23", "a visitor keeps nothing of the description it read before", "a second description read by one visitor saw parameters and joints of the first"),
 ("P24", "boxes have the inertia of a box", "boxes had a unit inertia"),
 ("P24", "links with several visuals keep all their materials", "the last visual's material was given to all"),
 ("P24", "ellipsoids with three radii have an inertia", "ellipsoids with three radii failed"),
 ("P24", "translational joints are exported as such", "tr joints were exported as fixed"),
 ("P24", "the only link of an instantiated graph is placed by its connecting joint", "such a link was placed at the model origin"),
 ("P24", "the base link of an instantiated graph is always the same", "the base link of a graph with several was popped from a set"),
 ("P24", "a nested graph does not take the elements of graphs nested in it", "elements of inner graphs were exported as if they were the outer graph's"),
 ("P24", "prefixes of nested graphs are separated", "two-level prefixes ran together"),
 ("P24", "geometry references that lead to references are resolved", "such geometries were left out"),
 ("P24", "links shaped by a reference have the inertia of that shape", "such links had a unit inertia"),
 ("P24", "the inertia of a cylinder takes its radius for the radius", "radius and length were exchanged"),
 ("P19", "eigenvalues of zero do not make the projected entropy undefined", "the projected entropy of a graph with an isolated node was nan"),
 ("P11", "print the hierarchy of an edge that has no container", "the listing of an edge taken out of its container failed"),
 ("P20", "restore the origin of decoded values as text", "the origin of a restored value was bytes where it is text everywhere else"),
 ("P16", "relations of edges and endpoints that share an identifier are not paired with each other", "the subset forms paired relations of different edges (or took different endpoints for one) when they shared an identifier"),
 ("P23", "references to parameters are resolved wherever a vector is expected", "a parameter in place of a vector could not be read; one that is not declared was accepted in the vector of an inertia"),
 ("P25", "references to parameters are resolved wherever a vector is expected", "same: success was reported for a description whose inertia refers to nothing"),
 ("P24", "links tied by other edges than joints can be exported", "the export failed with StopIteration"),
]
fixed += [(p, commit(s), w) for p, s, w in LATER]
L.append(dict(property="P14", status="open", what="searches run next to each other find what the shared queue leaks (the recorded defect of P12)",
              call_site=call, identified_by="as for P12"))
open('/verif/known_findings.jsonl','w').write("".join(json.dumps(x)+"\n" for x in L)+"".join(f"fixed: property={p} {c} {w}\n" for p,c,w in fixed))
