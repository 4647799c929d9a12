"""Exhaustive families of influence-diagram structures (graphs with roles, no relationships)."""
import itertools

from mc.models import dags
from mc.ref import ancestors, dconnected, descendants, is_acyclic, topo  # noqa: F401

NAMES = [["A", "B", "C", "D", "E", "F", "G", "H"], ["z", "y", "x", "w", "v", "u", "t", "s"], ["n3", "n1", "n4", "n0", "n2", "n5", "n6", "n9"], ["mecx", "b_", "Q1", "long name", "k", "0", "Z", "x1"]]


def roles_of(n, alphabet):
    """role strings over e.g. 'c', 'd0', 'd1', 'u0', 'u1', up to renaming of the agents"""
    for r in itertools.product(alphabet, repeat=n):
        seen = []
        for x in r:
            if len(x) > 1 and x[1] not in seen:
                seen.append(x[1])
        if seen == sorted(seen) and (not seen or seen[0] == "0") and len(seen) <= 1 + max([int(s) for s in seen], default=0):
            if all(int(s) == i for i, s in enumerate(seen)):
                yield r


AGENTS = [[0, 1, 2], ["x", "y", "z"], [1, 0, "q"]]


def structure(kind, names, roles, edges, agents):
    """spec without relationships"""
    dec, util = {}, {}
    for n, r in zip(names, roles):
        if r[0] in "du":
            a = agents[int(r[1])]
            dec.setdefault(a, [])
            util.setdefault(a, [])
            (dec if r[0] == "d" else util)[a].append(n)
    if kind == "CID" and not dec:
        dec, util = {0: []}, {0: []}
    return dict(kind=kind, nodes=list(names), edges=[list(e) for e in edges], dec=[[a, ns] for a, ns in dec.items()], util=[[a, ns] for a, ns in util.items()], rel=[])


def family(n, alphabet, kinds, ok, every=1, names=None, shift=0):
    """all DAGs over n ordered nodes with all role assignments that satisfy ok(roles); every k-th one only if every=k"""
    i = shift
    for roles in (alphabet if n is None else roles_of(n, alphabet)):
        if not ok(roles):
            continue
        if n is None:  # the alphabet lists the role strings themselves
            roles = roles.split()
        for es in dags(list(range(len(roles)))):
            i += 1
            if every > 1 and (i * 2654435761 >> 8) % every:
                continue
            nm = (names or NAMES)[i % len(names or NAMES)][: len(roles)]
            agents = AGENTS[(i // 4) % 3] if kinds != ("CID",) else [0]
            edges = [[nm[u], nm[v]] for u, v in es]
            edges = edges if i % 2 else edges[::-1]
            if edges:  # any node can come first
                r = (i // 8) % len(edges)
                edges = edges[r:] + edges[:r]
            sp = structure(kinds[i % len(kinds)], nm, roles, edges, agents)
            if (i // 16) % 2:  # decisions and utilities are not declared in topological order
                sp["dec"] = [[a, ns[::-1]] for a, ns in sp["dec"]]
                sp["util"] = [[a, ns[::-1]] for a, ns in sp["util"]]
            if (i // 2) % 2:
                sp["nodes"] = sp["nodes"][::-1]
            yield sp


class G:
    """reference view of a structure"""

    def __init__(self, spec):
        self.nodes = list(spec["nodes"])
        self.edges = [tuple(e) for e in spec["edges"]]
        self.dec = {a: list(ns) for a, ns in spec["dec"]}
        self.util = {a: list(ns) for a, ns in spec["util"]}
        self.agent = {d: a for a, ns in self.dec.items() for d in ns}
        self.decs = [d for ns in self.dec.values() for d in ns]
        self.utils = [u for ns in self.util.values() for u in ns]

    def par(self, v, edges=None):
        return [u for u, w in (edges or self.edges) if w == v]

    def own_utils(self, d, edges=None):
        de = descendants(edges or self.edges, d)
        return [u for u in self.util[self.agent[d]] if u in de]

    def rreach(self, d, n, edges=None):
        edges = self.edges if edges is None else edges
        fam = [d] + [u for u, w in edges if w == d]
        return any(dconnected([*edges, ("^", n)], "^", u, fam) for u in self.own_utils(d, edges))

    def relevance(self, decs=None, edges=None):
        decs = self.decs if decs is None else decs
        return {(a, b) for a in decs for b in decs if a != b and self.rreach(a, b, edges)}

    def recall(self, agent=None, edges=None):
        return all(is_acyclic(self.dec[a], sorted(self.relevance(self.dec[a], edges))) for a in (self.dec if agent is None else [agent]))

    def requisite(self, d, n, edges=None):
        edges = self.edges if edges is None else edges
        fam = {d} | {u for u, w in edges if w == d}
        return any(dconnected(edges, n, u, fam - {n}) for u in self.own_utils(d, edges))

    def reduced(self, reverse=False):
        """remove nonrequisite observation edges, one at a time, until none is left"""
        edges = list(self.edges)
        again = True
        while again:
            again = False
            for e in (edges[::-1] if reverse else list(edges)):
                if e[1] in self.agent and not self.requisite(e[1], e[0], edges):
                    edges.remove(e)
                    again = True
        return edges


def sccs(nodes, edges):
    reach = {n: {n} | descendants(edges, n) for n in nodes}
    out = []
    for n in nodes:
        c = frozenset(m for m in nodes if m in reach[n] and n in reach[m])
        if c not in out:
            out.append(c)
    return out
