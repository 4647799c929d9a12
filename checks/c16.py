"""C16: the requisite graph removes exactly the observations that cannot matter"""
import random

import mc.boot  # noqa: F401
from checks.c12 import UT, fill
from mc.build import build, edited, roles, snap_diff, snapshot
from mc.ref import Ref, max_eu
from mc.structs import G, family
from pycid.analyze.requisite_graph import requisite, requisite_graph, requisite_list

ID = "C16"
META = dict(
    rule="a case is one graph with roles; every observation of every decision (also of several agents) is compared with d-separation by moralisation, the requisite graph with "
    "the graph left after removing nonrequisite observation edges one by one in two different orders; where edges are removed, parameterised versions are solved by brute force and by the "
    "code with and without the removed edges",
    bounds={
        "quick": "all DAGs over 3 and 4 ordered nodes with all roles of one agent, and of two agents over 4 nodes for single observations; all DAGs over 5 ordered nodes for 8 role strings; "
        "values for all 4-node graphs with removed edges and every tenth 5-node one (by a fixed rule)",
        "thorough": "all DAGs over 5 ordered nodes with all roles of one agent that include a decision and a utility; 6 nodes for 2 role strings",
    },
    assumptions=["requisite graphs are compared for diagrams with sufficient recall"],
)
CHUNK = 16
FIVE = ["c d0 d0 u0 u0", "c c d0 d0 u0", "d0 c d0 u0 u0", "d0 d0 d0 u0 u0", "c d0 c d0 u0", "c d0 d0 d0 u0", "c d0 u0 d0 u0", "d0 c c d0 u0"]


def has(r):
    r = r.split() if isinstance(r, str) else r
    return any(x[0] == "d" for x in r) and any(x[0] == "u" for x in r)


def cases(tier):
    for n in (3, 4):
        yield from family(n, ["c", "d0", "u0"], ("CID",), has)
    yield from family(4, ["c", "d0", "u0", "d1", "u1"], ("MACID", "MACIDBase"), has)
    yield from family(None, FIVE, ("CID",), has)
    if tier == "thorough":
        yield from family(5, ["c", "d0", "u0"], ("CID",), has)
        yield from family(None, ["c c d0 c d0 u0", "d0 c d0 d0 u0 u0"], ("CID",), has)


def warm(m):
    for d in m.decisions:
        requisite_list(m, d)
    requisite_graph(m)


def run_case(spec, rec):
    rec.state(spec)
    rec.trace()
    g = G(spec)
    m = edited(spec, warm)
    for d in g.decs:
        want = []
        for n in g.nodes:
            rec.step()
            if n in g.par(d):
                w = g.requisite(d, n)
                if w:
                    want.append(n)
                if requisite(m, d, n) != w:
                    rec.fail(f"requisite({d!r}, {n!r}) is {not w}")
                rec.hit("requisite" if w else "not requisite")
            else:
                try:
                    requisite(m, d, n)
                    rec.fail(f"{n!r} is not observed by {d!r}, but requisite() answers")
                except KeyError:
                    pass
        got = requisite_list(m, d)
        if sorted(got) != sorted(want):
            rec.fail(f"requisite_list({d!r}) is {got}, expected {want}")
    if spec["kind"] != "CID" or not g.recall():
        return
    before = (list(m.nodes), list(m.edges), roles(m))
    r = requisite_graph(m)
    rec.step()
    red, red2 = g.reduced(), g.reduced(True)
    if set(red) != set(red2):
        rec.hit("order matters")
    if set(r.edges) not in (set(red), set(red2)):
        rec.fail(f"edges of the requisite graph: {sorted(r.edges)}, expected {sorted(red)}")
    if sorted(r.nodes) != sorted(m.nodes) or [sorted(map(str, x)) for x in roles(r)] != [sorted(map(str, x)) for x in roles(m)]:
        rec.fail(f"nodes or roles of the requisite graph differ: {list(r.nodes)}, {roles(r)}")
    if (list(m.nodes), list(m.edges), roles(m)) != before or r is m:
        rec.fail("the diagram was changed")
    removed = set(g.edges) - set(red)
    rec.hit(f"{len(removed)} edges removed")
    if removed and (len(g.nodes) < 5 or sum(map(len, map(str, g.edges))) % 10 == 0):
        values(spec, g, rec)


def values(spec, g, rec):
    """the optimum is the same with and without the removed observations"""
    from mc.ref import topo

    order = topo(g.nodes, g.edges)
    role = {n: "d" if n in g.decs else "u" if n in g.utils else "c" for n in g.nodes}
    us = [n for n in order if role[n] == "u"]
    clean = {n: f"v{i}" for i, n in enumerate(order)}  # names that can be arguments of functions
    nodes = [clean[n] for n in order]
    edges = [[clean[u], clean[v]] for u, v in g.edges]
    k = len(edges)
    rel = fill(nodes, edges, {clean[n]: x for n, x in role.items()}, {clean[n]: [[0, 1], ["b", "a"], [2, 1]][i % 3] for i, n in enumerate(order)},
               {clean[u]: UT[(k + i) % 2] for i, u in enumerate(us)}, "b", k % 4)
    full = dict(kind="CID", nodes=nodes, edges=edges, dec=[[0, [clean[d] for d in g.decs]]], util=[[0, [clean[u] for u in us]]], rel=rel)
    ref = Ref.from_spec(full)
    n = 1
    for d in full["dec"][0][1]:
        c = 1
        for p in ref.par[d]:
            c *= len(ref.dom[p])
        n *= len(ref.dom[d]) ** c
    if n > 4096:
        return
    best = max_eu(ref, full["dec"][0][1], full["util"][0][1])
    m = build(full)
    before = snapshot(m)
    r = requisite_graph(m)
    e = snap_diff(before, snapshot(m))
    if e:
        rec.fail(f"requisite_graph changed the diagram: {e}")
    kept = [list(x) for x in r.edges]
    best2 = max_eu(Ref.from_spec(dict(full, edges=kept)), full["dec"][0][1], full["util"][0][1])
    rec.step()
    if abs(best - best2) > 1e-9:
        rec.fail(f"optimal expected utility with all observations {best}, in the requisite graph {best2}")
    random.seed(1)
    r.impute_optimal_policy()
    x = r.expected_utility({})
    rec.step()
    if abs(x - best) > 1e-7:
        rec.fail(f"expected utility of the solved requisite graph {x}, optimum {best}")
    rec.hit("values compared")


def finish(total, tier):
    from mc.harness import CheckError

    if total.hits.get("values compared", 0) < 20 or total.hits.get("not requisite", 0) < 100:
        raise CheckError("vacuous")
