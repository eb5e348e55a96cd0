"""Open graphs described by JSON: [n, edges, inputs, outputs, {node: measurement code}]."""

from __future__ import annotations

import itertools

import networkx as nx
from graphix import OpenGraph

from . import enums, pat


def build(d):
    n, edges, inputs, outputs, meas = d
    g = nx.Graph()
    g.add_nodes_from(range(n))
    g.add_edges_from(tuple(e) for e in edges)
    return OpenGraph(g, list(inputs), list(outputs), {int(k): pat.meas(c) for k, c in meas.items()})


def show(d):
    n, edges, inputs, outputs, meas = d
    return f"n={n} E={[tuple(e) for e in edges]} I={list(inputs)} O={list(outputs)} M={ {int(k): v for k, v in meas.items()} }"


def shapes(n, connected=False, max_out=None, min_out=0, iso=True):
    """(edges, inputs, outputs) up to isomorphism."""
    for edges in enums.graph_orbits(n) if iso else enums.all_graphs(n):
        if connected and n > 1:
            g = nx.Graph(list(edges))
            if len(g) < n or not nx.is_connected(g):
                continue
        for i, o in enums.io_pairs(n, edges, max_out, min_out):
            yield [list(e) for e in edges], list(i), list(o)


def labelled(n, shape, labels, auts=False):
    """All labelings of the measured nodes of a shape."""
    edges, inputs, outputs = shape
    nodes = [v for v in range(n) if v not in outputs]
    for ms in itertools.product(labels, repeat=len(nodes)):
        yield [n, edges, inputs, outputs, {str(v): m for v, m in zip(nodes, ms, strict=True)}]


def wires(lens, cross, ports=("heads",)):
    """Larger open graphs: wires of the given lengths, joined by every set of at most ``cross`` edges between different wires.

    Yields (n, edges, inputs, outputs); the last node of each wire is an output, ``ports`` selects the inputs
    ("heads": all first nodes, "some": all but the first wire's, "none").
    """
    off = list(itertools.accumulate(lens, initial=0))
    n = off[-1]
    path = [[off[w] + i, off[w] + i + 1] for w in range(len(lens)) for i in range(lens[w] - 1)]
    heads = [off[w] for w in range(len(lens))]
    outs = [off[w + 1] - 1 for w in range(len(lens))]
    pairs = [[a, b] for w1, w2 in itertools.combinations(range(len(lens)), 2) for a in range(off[w1], off[w1 + 1]) for b in range(off[w2], off[w2 + 1])]
    for r in range(cross + 1):
        for ex in itertools.combinations(pairs, r):
            for p in ports:
                yield n, path + [list(e) for e in ex], {"heads": heads, "some": heads[1:], "none": []}[p], outs


def labellings(k, base, others, double=()):
    """Labels of k nodes: all ``base``, one other label on one node, one of ``double`` on two nodes, and alternating labels."""
    yield (base,) * k
    for v in range(k):
        for m in others:
            yield tuple(m if u == v else base for u in range(k))
    for a, b in itertools.combinations(range(k), 2):
        for m in double:
            yield tuple(m if u in (a, b) else base for u in range(k))
    for m in others:
        yield tuple((m, base)[u % 2] for u in range(k))
