"""Deterministic exhaustive enumerators."""

from __future__ import annotations

import itertools


def all_graphs(n):
    """All labelled simple graphs on range(n), as edge tuples."""
    pairs = list(itertools.combinations(range(n), 2))
    for mask in range(1 << len(pairs)):
        yield tuple(p for i, p in enumerate(pairs) if mask >> i & 1)


def graph_orbits(n):
    """One representative edge tuple for each isomorphism class (n <= 6)."""
    pairs = list(itertools.combinations(range(n), 2))
    pos = {p: i for i, p in enumerate(pairs)}
    perms = [
        [pos[tuple(sorted((pi[a], pi[b])))] for a, b in pairs] for pi in itertools.permutations(range(n))
    ]
    seen = bytearray(1 << len(pairs))
    for mask in range(1 << len(pairs)):
        if seen[mask]:
            continue
        bits = [i for i in range(len(pairs)) if mask >> i & 1]
        for pm in perms:
            m = 0
            for b in bits:
                m |= 1 << pm[b]
            seen[m] = 1
        yield tuple(pairs[i] for i in bits)


def automorphisms(n, edges):
    es = {frozenset(e) for e in edges}
    for pi in itertools.permutations(range(n)):
        if {frozenset((pi[a], pi[b])) for a, b in edges} == es:
            yield pi


def subsets(xs):
    xs = list(xs)
    for r in range(len(xs) + 1):
        yield from itertools.combinations(xs, r)


def io_pairs(n, edges, max_out=None, min_out=0):
    """All (inputs, outputs) pairs up to automorphism of the graph."""
    auts = list(automorphisms(n, edges))
    seen = set()
    for o in subsets(range(n)):
        if len(o) < min_out or (max_out is not None and len(o) > max_out):
            continue
        for i in subsets(range(n)):
            if len(i) > len(o):
                continue
            key = min((tuple(sorted(pi[x] for x in i)), tuple(sorted(pi[x] for x in o))) for pi in auts)
            if key in seen:
                continue
            seen.add(key)
            yield i, o
