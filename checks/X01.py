"""X01: fusion-network extraction partitions the graph into legal resource states."""

import itertools
import math

import networkx as nx
from graphix.extraction import ResourceGraph, ResourceType, create_resource_graph, fusion_nodes, graph_to_fusion_network

from mc import enums

META = {
    "bounds": {
        "quick": "every labelled graph on <=5 nodes in 3 node and edge insertion orders, every labelled graph on 6 nodes, every graph on 7 nodes up to isomorphism under 6 relabellings; every pair of size limits from {2,3,4,5,none}; "
        "every ordered node list of <=4 nodes and root for the constructor; every pair of resource graphs on <=4 nodes for the shared nodes",
        "thorough": "every graph on 7 nodes up to isomorphism under 120 relabellings, every graph on 8 nodes up to isomorphism of maximum degree <=4 (networkx is not used as an oracle)",
    },
    "assumptions": ["a cluster of at most 3 qubits is both a star and a line, so that the larger limit applies to it", "limits below 2 must be refused since no cluster with an edge satisfies them"],
}
LIMITS = [2, 3, 4, 5, math.inf]


def graph(nodes, edges):
    g = nx.Graph()
    g.add_nodes_from(nodes)
    g.add_edges_from(edges)
    return g


def shape_ok(rg):
    """Star for GHZ, path for LINEAR."""
    n = rg.graph.number_of_nodes()
    deg = sorted(d for _, d in rg.graph.degree)
    m = rg.graph.number_of_edges()
    if rg.cltype is ResourceType.GHZ:
        return m == n - 1 and deg == [1] * (n - 1) + [n - 1] if n > 1 else m == 0
    if rg.cltype is ResourceType.LINEAR:
        if m != n - 1:
            return False
        if n == 1:
            return True
        # connected, two ends
        seen, todo = set(), [next(v for v, d in rg.graph.degree if d == 1)] if 1 in deg else []
        while todo:
            v = todo.pop()
            if v not in seen:
                seen.add(v)
                todo.extend(rg.graph.adj[v])
        return len(seen) == n and deg[-1] <= 2
    return False


def examine(R, nodes, edges, limits=tuple(itertools.product(LIMITS, repeat=2))):
    want = {frozenset(e) for e in edges}
    R.state()
    for ghz, lin in limits:
        R.trans()
        key = ["graph", list(nodes), [list(e) for e in edges], str(ghz), str(lin)]
        R.at(str(key))
        g = graph(nodes, edges)
        res = graph_to_fusion_network(g, ghz, lin) if (ghz, lin) != (math.inf, math.inf) else graph_to_fusion_network(g)
        if set(g.nodes) != set(nodes) or {frozenset(e) for e in g.edges} != want:
            R.bad(key, f"{key}: the graph is modified")
        got = [frozenset(e) for r in res for e in r.graph.edges]
        if len(got) != len(want) or set(got) != want:
            R.bad(key, f"{key}: edges of the resource states are {[list(r.graph.edges) for r in res]}")
            continue
        if {v for r in res for v in r.graph.nodes} != set(nodes):
            R.bad(key, f"{key}: nodes of the resource states are {[list(r.graph.nodes) for r in res]}")
        for r in res:
            n = r.graph.number_of_nodes()
            cap = max(ghz, lin) if n <= 3 else ghz if r.cltype is ResourceType.GHZ else lin
            if not shape_ok(r) or n > cap:
                R.bad(key, f"{key}: illegal {r.cltype} resource state {list(r.graph.nodes)} {list(r.graph.edges)}")
            if n == 1 and len(nodes) > 1 and any(next(iter(r.graph.nodes)) in e for e in want):
                R.bad(key, f"{key}: a node with edges is also a resource state on its own")
        for a, b in itertools.combinations(res, 2):
            if sorted(fusion_nodes(a, b)) != sorted(set(a.graph.nodes) & set(b.graph.nodes)):
                R.bad(key, f"{key}: links between {list(a.graph.nodes)} and {list(b.graph.nodes)} are {fusion_nodes(a, b)}")


def tasks(tier):
    th = tier == "thorough"
    for n in range(5):
        yield ["labelled", n, 0, 1]
    for k in range(4):
        yield ["labelled", 5, k, 4]
    for k in range(32):
        yield ["labelled", 6, k, 32]
    parts = 160 if th else 16
    for k in range(parts):
        yield ["iso", 7, k, parts, 120 if th else 6]
    if th:
        for k in range(64):
            yield ["degree", k]
    yield ["constructor"]
    yield ["links"]
    yield ["refuse"]


def perms(n, count):
    ps = list(itertools.permutations(range(n)))
    return [ps[(i * (len(ps) - 1)) // max(1, count - 1)] for i in range(count)]


def work(task, R):
    what = task[0]
    if what == "labelled":
        _, n, k, m = task
        for i, edges in enumerate(enums.all_graphs(n)):
            if i % m != k:
                continue
            examine(R, range(n), edges)
            if n <= 5:
                examine(R, list(reversed(range(n))), [e[::-1] for e in reversed(edges)])
                rot = [(v * 2 + 1) % n if n % 2 else (v + n // 2) % n for v in range(n)]
                examine(R, rot, edges[1::2] + edges[::2])
    elif what == "iso":
        _, n, k, m, count = task
        for i, edges in enumerate(enums.graph_orbits(6) if n == 6 else seven()):
            if i % m == k:
                for p in perms(n, count):
                    examine(R, range(n), [(p[a], p[b]) for a, b in edges])
    elif what == "degree":
        # Graphs on 8 nodes: one more node attached to each graph on 7 nodes
        for i, edges in enumerate(seven()):
            if i % 64 != task[1]:
                continue
            for nb in enums.subsets(range(7)):
                if len(nb) <= 4 and max((sum(v in e for e in edges) + (v in nb) for v in range(7)), default=0) <= 4:
                    examine(R, range(8), [*edges, *((7, v) for v in nb)], [(2, 2), (3, 2), (2, 3), (3, 3), (math.inf, math.inf), (4, 3)])
    elif what == "constructor":
        constructor(R)
    elif what == "links":
        links(R)
    else:
        for ghz, lin in itertools.product([-1, 0, 1, 2, 3, math.inf], repeat=2):
            if min(ghz, lin) >= 2:
                continue
            for edges in enums.all_graphs(4):
                if not edges:
                    continue
                R.state()
                try:
                    graph_to_fusion_network(graph(range(4), edges), ghz, lin)
                    if max(ghz, lin) < 2:
                        R.bad(["refuse", str(ghz), str(lin)], f"limits {ghz}, {lin} accepted")
                except ValueError:
                    pass
    R.trace()


def seven():
    """Graphs on 7 nodes covering every isomorphism class: a node attached to each class on 6 nodes in every way, up to a canonical degree key."""
    seen = set()
    for edges in enums.graph_orbits(6):
        for nb in enums.subsets(range(6)):
            e = [*edges, *((6, v) for v in nb)]
            adj = {v: {w for x in e for w in x if v in x and w != v} for v in range(7)}
            col = {v: (len(adj[v]),) for v in adj}
            for _ in range(3):
                col = {v: hash((col[v], tuple(sorted(col[w] for w in adj[v])))) for v in adj}
                col = {v: (c,) for v, c in col.items()}
            key = tuple(sorted(c[0] for c in col.values()))
            # same colours may hide different graphs: the number of triangles, 4-cycles and components refines the key
            tri = sum(len(adj[a] & adj[b]) for a, b in e)
            sq = sum(len(adj[a] & adj[b]) * (len(adj[a] & adj[b]) - 1) for a, b in itertools.combinations(range(7), 2))
            comps = nx.number_connected_components(graph(range(7), e))
            key = (key, tri, sq, comps)
            if key not in seen:
                seen.add(key)
                yield e


def constructor(R):
    for n in range(1, 5):
        for nodes in itertools.permutations([4, 7, 9, 11], n):
            for root in (None, *nodes):
                R.state()
                R.trans()
                r = create_resource_graph(list(nodes), root=root) if root is not None else create_resource_graph(list(nodes))
                want = {frozenset((root, v)) for v in nodes if v != root} if root is not None else {frozenset(e) for e in itertools.pairwise(nodes)}
                key = ["constructor", list(nodes), root]
                kind = ResourceType.LINEAR if root is None else ResourceType.GHZ
                if r.cltype is not kind or set(r.graph.nodes) != set(nodes) or {frozenset(e) for e in r.graph.edges} != want:
                    R.bad(key, f"{key} gives {r.cltype} {list(r.graph.edges)}")


def links(R):
    rgs = []
    for n in (1, 2, 3):
        for nodes in itertools.permutations(range(4), n):
            for root in (None, nodes[0]):
                rgs.append((nodes, root, create_resource_graph(list(nodes), root=root)))
    for (na, ra, a), (nb, rb, b) in itertools.product(rgs, repeat=2):
        R.state()
        R.trans(2)
        same = a.cltype is b.cltype and set(na) == set(nb) and {frozenset(e) for e in a.graph.edges} == {frozenset(e) for e in b.graph.edges}
        if (a == b) != same:
            R.bad(["equal", na, ra, nb, rb], f"{a} == {b} is {a == b}")
        # a resource state is not fused with itself
        want = [] if same else sorted(set(na) & set(nb))
        if sorted(fusion_nodes(a, b)) != want:
            R.bad(["links", na, ra, nb, rb], f"links of {na} and {nb} are {fusion_nodes(a, b)}")
    for bad in (None, graph([0], []), "x"):
        for args in ((rgs[0][2], bad), (bad, rgs[0][2])):
            try:
                fusion_nodes(*args)
                R.bad(["type", str(bad)], f"{bad!r} accepted as a resource graph")
            except TypeError:
                pass
    assert ResourceGraph is type(rgs[0][2])
