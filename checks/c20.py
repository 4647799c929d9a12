"""C20: reasoning patterns follow their graphical criteria at the greatest fixed point"""
import itertools

import mc.boot  # noqa: F401
from mc.build import edited, roles
from mc.ref import descendants, directed_paths, path_active, undirected_paths
from mc.structs import AGENTS, G, NAMES, structure
from pycid.analyze.reasoning_patterns import (
    direct_effect, get_reasoning_patterns, manipulation, revealing_or_denying, signaling,
)

ID = "C20"
META = dict(
    rule="a case is one graph with roles; the four criteria are evaluated for every decision and every subset of decisions as effective set and compared with the documented criterion, "
    "evaluated by enumerating all paths of the reference graph; the overall analysis is compared with the union of all sets of decisions that motivate themselves, found by enumeration of all sets",
    bounds={
        "quick": "all graphs with leaf utilities over {one chance node, two decisions, two utilities} and {three decisions, two utilities} in every order and ownership (3, 5 nodes); all graphs with at most "
        "6 edges over {2 chance nodes, 2 decisions, 2 utilities} and {chance node, 3 decisions, 2 utilities} in all / a third of the orders; in these six-node families also all graphs with at most 8 edges that contain the "
        "edges D_A -> D_B -> U_A between the first decisions of the two agents; all 1024 graphs of seven nodes (three chance nodes) in which signals can pass observed colliders, and 512 of eight nodes with several forks and a third decision",
        "thorough": "all graphs of the six-node families with at most 9 edges, all orders; 4096 graphs of seven nodes",
    },
    assumptions=["utilities have no children", "W of X and Y: the observations of Y that are not descendants of X"],
)
CHUNK = 32
MAXSETS = 3


def leaf_graphs(n, nu, kmax, must=()):
    """DAGs over positions 0..n-1 in topological order of which the last nu have no children"""
    pairs = [(u, v) for u in range(n - nu) for v in range(u + 1, n)]
    rest = [p for p in pairs if p not in must]
    for k in range(min(kmax, len(pairs)) - len(must) + 1):
        for es in itertools.combinations(rest, k):
            yield sorted([*must, *es])


def orders(roles_):
    seen = set()
    for p in itertools.permutations(roles_):
        if p not in seen:
            seen.add(p)
            yield p


def cases(tier):
    i = 0

    def emit(rs, es):
        nonlocal i
        i += 1
        nm = NAMES[i % 4][: len(rs)]
        sp = structure(["MACID", "MACIDBase"][i % 2], nm, rs, [(nm[u], nm[v]) for u, v in es], AGENTS[(i // 4) % 3])
        if (i // 2) % 2:
            sp["nodes"] = sp["nodes"][::-1]
        if (i // 4) % 2:
            sp["edges"] = sp["edges"][::-1]
        return sp

    for free, ut in ((("d0", "d1"), ("u0", "u1")), (("c", "d0"), ("u0",)), (("d0", "d0"), ("u0",)), (("c", "d0", "d1"), ("u0", "u1")), (("d0", "d1", "d0"), ("u0", "u1")), (("d0", "d1", "d2"), ("u0", "u1")), (("d0", "d1", "d2"), ("u0", "u2")),
                     (("d0", "d1", "c"), ("u0", "u0")), (("d0", "d1", "c"), ("u1", "u0")), (("c", "d0", "d0"), ("u0", "u0"))):
        for o in orders(free):
            for es in leaf_graphs(len(free) + len(ut), len(ut), 99):
                yield emit(o + ut, es)
    six = [(("c", "c", "d0", "d1"), ("u0", "u1")), (("c", "d0", "d1", "d0"), ("u0", "u1")), (("c", "d0", "d1", "d2"), ("u0", "u1"))]
    for k, (free, ut) in enumerate(six):
        for j, o in enumerate(orders(free)):
            a, b = o.index("d0"), o.index("d1")
            full = tier == "thorough"
            if full or k == 0 or j % 3 == 1:
                for es in leaf_graphs(6, 2, 9 if full else 6):
                    yield emit(o + ut, es)
            if not full and a < b:
                for es in leaf_graphs(6, 2, 8, ((a, b), (b, 4))):
                    if len(es) > 6:
                        yield emit(o + ut, es)
    # trails over colliders: X, Y, D_A, C, D_B, U_A, U_B
    nodes = ("c", "c", "d0", "c", "d1", "u0", "u1")
    must = [(2, 4), (4, 5)] + ([] if tier == "thorough" else [(0, 2), (1, 6)])
    free = [p for p in [(0, 2), (0, 3), (1, 3), (3, 4), (1, 6), (1, 4), (0, 6), (2, 3), (2, 6), (4, 6), (3, 6), (0, 5)] if p not in must]
    for k in range(len(free) + 1):
        for es in itertools.combinations(free, k):
            yield emit(nodes, sorted([*must, *es]))
    # several forks, and a decision that need not be effective: X, D_A, Y, C, D_C, D_B, U_A, U_B
    nodes = ("c", "d0", "c", "c", "d2", "d1", "u0", "u1")
    must = [(0, 1), (0, 3), (2, 3), (1, 5), (5, 6), (4, 5)]
    free = [(2, 7), (3, 4), (0, 6), (2, 6), (3, 5), (5, 7), (2, 1), (0, 7), (1, 4)]
    for k in range(len(free) + 1):
        for es in itertools.combinations(free, k):
            yield emit(nodes, sorted([*must, *es]))


class R:
    """reference criteria; all paths are found once per graph"""

    def __init__(self, g):
        self.g = g
        self.e = g.edges
        self.es = set(g.edges)
        self.decs = set(g.decs)
        self._dir, self._und = {}, {}
        self.desc = {n: descendants(self.e, n) for n in g.nodes}

    def dir(self, a, b):
        if (a, b) not in self._dir:
            self._dir[a, b] = directed_paths(self.e, a, b)
        return self._dir[a, b]

    def und(self, a, b):
        if (a, b) not in self._und:
            self._und[a, b] = undirected_paths(self.e, a, b)
        return self._und[a, b]

    def fork(self, p, i):
        return 0 < i < len(p) - 1 and (p[i], p[i - 1]) in self.es and (p[i], p[i + 1]) in self.es

    def effective(self, p, eff):
        return all(n not in self.decs or n in eff or self.fork(p, i) for i, n in enumerate(p) if i)

    def w(self, x, y):
        return {n for n in self.g.par(y) if n not in self.desc[x]}

    def partners(self, da, eff):
        ua = self.g.util[self.g.agent[da]]
        for db in self.g.decs:
            if db == da or db not in eff or not any(not (set(p[1:-1]) & self.decs) for p in self.dir(da, db)):
                continue
            for u in ua:
                if any(self.effective(p, eff) for p in self.dir(db, u)):
                    yield db, u

    def direct(self, da):
        return any(not (set(p[1:-1]) & self.decs) for u in self.g.util[self.g.agent[da]] for p in self.dir(da, u))

    def manip(self, da, eff):
        return any(db not in p and self.effective(p, eff) for db, _ in self.partners(da, eff) for ub in self.g.util[self.g.agent[db]] for p in self.dir(da, ub))

    def sig(self, da, eff):
        for db, ua in self.partners(da, eff):
            z = {db} | self.w(da, db)
            for ub in self.g.util[self.g.agent[db]]:
                for p in self.und(da, ub):
                    if (p[1], da) not in self.es or not path_active(self.e, p, z) or not self.effective(p, eff):
                        continue
                    c = next(n for i, n in enumerate(p) if self.fork(p, i))
                    z2 = {da} | self.w(c, da)
                    if any(path_active(self.e, q, z2) and self.effective(q, eff) for q in self.und(c, ua)):
                        return True
        return False

    def rev(self, da, eff):
        for db, _ in self.partners(da, eff):
            z = {db} | self.w(da, db)
            for ub in self.g.util[self.g.agent[db]]:
                for p in self.und(da, ub):
                    if (da, p[1]) in self.es and any((p[i - 1], p[i]) in self.es and (p[i + 1], p[i]) in self.es for i in range(1, len(p) - 1)):
                        if path_active(self.e, p, z) and self.effective(p, eff):
                            return True
        return False


def run_case(spec, rec):
    rec.state(spec)
    rec.trace()
    g = G(spec)
    m = edited(spec, get_reasoning_patterns)
    before = (list(m.nodes), list(m.edges), roles(m))
    r = R(g)
    pats = {}
    for d in g.decs:
        want = r.direct(d)
        got = direct_effect(m, d)
        rec.step()
        if bool(got) != want:
            rec.fail(f"direct_effect({d!r}) is {got}")
        if want:
            rec.hit("direct effect")
    sets = [set(s) for k in range(len(g.decs) + 1) for s in itertools.combinations(g.decs, k)]
    for eff in sets:
        mot = set()
        for d in g.decs:
            wants = dict(manip=r.manip(d, eff), sig=r.sig(d, eff), rev_den=r.rev(d, eff))
            for name, f in (("manip", manipulation), ("sig", signaling), ("rev_den", revealing_or_denying)):
                got = f(m, d, set(eff))
                rec.step()
                if bool(got) != wants[name]:
                    rec.fail(f"{f.__name__}({d!r}, {sorted(eff)}) is {got}, expected {wants[name]}")
                if wants[name]:
                    rec.hit(name)
            wants["dir_effect"] = r.direct(d)
            pats[d, frozenset(eff)] = wants
            if any(wants.values()):
                mot.add(d)
        eff |= set()
        pats[frozenset(eff)] = mot
    # the union of all self-motivating sets
    top = set()
    for eff in sets:
        if eff <= pats[frozenset(eff)]:
            top |= eff
    got = get_reasoning_patterns(m)
    rec.step()
    listed = [d for k in got for d in got[k]]
    if sorted(listed) != sorted(top):
        rec.fail(f"patterns {got}, expected motivated decisions {sorted(top)}")
    elif set(got) != {"dir_effect", "sig", "manip", "rev_den"}:
        rec.fail(f"patterns {got}")
    else:
        for k in got:
            for d in got[k]:
                if not pats[d, frozenset(top)][k]:
                    rec.fail(f"{d} is listed under {k}, which does not motivate it: {got}")
                rec.hit("listed: " + k)
    if top != set(g.decs) and top:
        rec.hit("some decisions not motivated")
    if pats[frozenset(g.decs)] != top:
        rec.hit("more than one round of elimination")
    for f in (manipulation, signaling, revealing_or_denying):
        try:
            f(m, g.decs[0], {"nowhere"})
            rec.fail(f"{f.__name__} accepts an unknown node in the effective set")
        except KeyError:
            pass
    if (list(m.nodes), list(m.edges), roles(m)) != before:
        rec.fail("the diagram was changed")


def finish(total, tier):
    from mc.harness import CheckError

    for k in ("direct effect", "manip", "sig", "rev_den", "listed: sig", "listed: manip", "listed: rev_den", "some decisions not motivated", "more than one round of elimination"):
        if total.hits.get(k, 0) < 20:
            raise CheckError("vacuous: " + k)
