"""C15: strategic relevance, recall and subgame structure follow their definitions"""
import itertools

import mc.boot  # noqa: F401
from mc.build import edited, roles
from mc.ref import descendants, is_acyclic
from mc.structs import G, family, sccs
from pycid.core.relevance_graph import CondensedRelevanceGraph, RelevanceGraph

ID = "C15"
META = dict(
    rule="a case is one graph with roles; reachability of every node from every decision (and of sets of nodes from sets of decisions), relevance graphs of all sets of decisions, "
    "sufficient recall of every agent, components, their order, decision sets of all subgames and valid orders of all sets of nodes are compared with definitions evaluated by "
    "moralisation, brute-force closure and enumeration",
    bounds={
        "quick": "all DAGs over 3 ordered nodes with all roles of up to 3 agents; all DAGs over 4 ordered nodes with all roles of up to 2 agents that include a decision and a utility; "
        "all circular patterns of strategic relevance over 5 and 6 decisions of as many agents; all DAGs over 5 ordered nodes with roles d0 d1 d0 u0 u1 and c d0 d1 u0 u1; 3 classes, 4 naming schemes, 3 agent labelings",
        "thorough": "all DAGs over 5 nodes for 6 role strings, with at least 2 decisions and a utility of one agent, and with 3 decisions and 2 utilities of 2 agents",
    },
)
CHUNK = 16


FIVE = ["d0 d1 d0 u0 u1", "c d0 d1 u0 u1", "d0 d1 d2 u0 u1", "d0 c d0 d1 u0", "d0 u1 d1 u0 d1", "d0 d0 d0 u0 u0"]


def circles():
    """every agent has a decision and a utility; whose decisions influence whose utilities follows a circular pattern (closed or not)"""
    for n in (5, 6):
        for pattern in range(2 ** (n - 1)):
            for closed in (0, 1):
                steps = [k + 1 for k in range(n - 1) if pattern >> k & 1]
                ds, us = [f"D{(i * 2 + 3) % n if n % 2 else i}" for i in range(n)], [f"V{i}" for i in range(n)]
                edges = [[d, us[i]] for i, d in enumerate(ds)] + [[ds[(i + k) % n], us[i]] for i in range(n) for k in steps if closed or i + k < n]
                yield dict(kind="MACID", nodes=(ds + us)[:: 1 if pattern % 2 else -1], edges=edges, dec=[[i, [d]] for i, d in enumerate(ds)], util=[[i, [u]] for i, u in enumerate(us)], rel=[])


def cases(tier):
    yield from circles()
    yield from family(3, ["c", "d0", "u0", "d1", "u1", "d2"], ("MACID", "MACIDBase"), lambda r: True)
    yield from family(3, ["c", "d0", "u0"], ("CID",), lambda r: True)
    has = lambda r: any(x[0] == "d" for x in r) and any(x[0] == "u" for x in r)  # noqa: E731
    yield from family(4, ["c", "d0", "u0", "d1", "u1"], ("MACID", "MACIDBase"), has)
    yield from family(4, ["c", "d0", "u0"], ("CID",), has)
    yield from family(None, FIVE[:2] if tier == "quick" else FIVE, ("MACID",), has)
    if tier == "thorough":
        yield from family(5, ["c", "d0", "u0"], ("CID",), lambda r: has(r) and sum(x[0] == "d" for x in r) > 1)
        yield from family(5, ["d0", "u0", "d1", "u1"], ("MACIDBase", "MACID"), lambda r: has(r) and sum(x[0] == "d" for x in r) == 3)


def warm(m):
    for d in m.decisions:
        for n in m.nodes:
            m.is_r_reachable(d, n)
            if n in m.decisions:
                m.is_s_reachable(d, n)
    RelevanceGraph(m).get_sccs()
    for a in m.agents:
        m.sufficient_recall(a)
    m.sufficient_recall()
    if hasattr(m, "decs_in_each_maid_subgame"):
        CondensedRelevanceGraph(m)
        m.decs_in_each_maid_subgame()


def run_case(spec, rec):
    rec.state(spec)
    rec.trace()
    m = edited(spec, warm)
    g = G(spec)
    before = (list(m.nodes), list(m.edges), roles(m))
    reach = {(d, n): g.rreach(d, n) for d in g.decs for n in g.nodes}
    for (d, n), want in reach.items():
        rec.step()
        if m.is_r_reachable(d, n) != want:
            rec.fail(f"is_r_reachable({d!r}, {n!r}) is {not want}")
        if n in g.decs and m.is_s_reachable(d, n) != want:
            rec.fail(f"is_s_reachable({d!r}, {n!r}) is {not want}")
        rec.hit("reachable" if want else "not reachable")
    if len(g.decs) > 1:
        for j, ns in enumerate(itertools.combinations(g.nodes, 2)):
            rec.step()
            want = any(reach[d, n] for d in g.decs for n in ns)
            kinds = [list, tuple, set, iter, lambda x: dict.fromkeys(x).keys(), frozenset]
            if m.is_r_reachable(kinds[j % 6](g.decs), kinds[(j + len(g.edges)) % 6](ns)) != want:
                rec.fail(f"is_r_reachable({g.decs}, {ns}) is {not want}")
            if len(g.decs) > 2 and not any(n in g.agent for n in ns):
                continue
            ds = g.decs[j % 2 :: 2]
            if set(ns) <= set(g.decs) and m.is_s_reachable(kinds[j % 6](ds), kinds[(j + len(g.edges)) % 6](ns)) != any(reach[d, n] for d in ds for n in ns):
                rec.fail(f"is_s_reachable({ds}, {ns}) is wrong")
    rel = g.relevance()
    for k in range(len(g.decs) + 1):
        for ds in itertools.combinations(g.decs, k):
            rec.step()
            rg = RelevanceGraph(m, [list, iter, set, tuple][len(g.edges) % 4](ds))
            want = {(a, b) for a, b in rel if a in ds and b in ds}
            if set(rg.nodes) != set(ds) or set(rg.edges) != want:
                rec.fail(f"relevance graph of {ds}: {list(rg.nodes)}, {list(rg.edges)}, expected {want}")
            if rg.is_acyclic() != is_acyclic(ds, sorted(want)):
                rec.fail(f"is_acyclic of the relevance graph of {ds} is {rg.is_acyclic()}")
            if {frozenset(s) for s in rg.get_sccs()} != set(sccs(ds, want)) or len(rg.get_sccs()) != len(sccs(ds, want)):
                rec.fail(f"components of the relevance graph of {ds}: {rg.get_sccs()}")
    rg = RelevanceGraph(m)
    if set(rg.nodes) != set(g.decs) or set(rg.edges) != rel:
        rec.fail(f"relevance graph: {list(rg.nodes)}, {list(rg.edges)}, expected {rel}")
    for a in g.dec:
        rec.step()
        if m.sufficient_recall(a) != g.recall(a):
            rec.fail(f"sufficient_recall({a!r}) is {not g.recall(a)}")
    if m.sufficient_recall() != g.recall():
        rec.fail(f"sufficient_recall() is {not g.recall()}")
    rec.hit("sufficient recall" if g.recall() else "insufficient recall")
    try:
        m.sufficient_recall("nobody")
        rec.fail("sufficient_recall of an unknown agent is answered")
    except ValueError:
        pass
    if g.decs:
        comps = sccs(g.decs, rel)
        con = CondensedRelevanceGraph(m)
        rec.step()
        order = [frozenset(s) for s in con.get_scc_topological_ordering()]
        if sorted(map(sorted, order)) != sorted(map(sorted, comps)) or any(len(set(s)) != len(s) for s in con.get_scc_topological_ordering()):
            rec.fail(f"components {order}, expected {comps}")
        else:
            where = {d: i for i, s in enumerate(order) for d in s}
            if any(where[a] > where[b] for a, b in rel):
                rec.fail(f"order of the components {order} contradicts the relevance graph {rel}")
        ids = con.get_decisions_in_scc()
        if {frozenset(v) for v in ids.values()} != set(comps) or set(ids) != set(con.nodes):
            rec.fail(f"decisions in components: {ids}")
        else:
            inv = {d: i for i, v in ids.items() for d in v}
            if set(con.edges) != {(inv[a], inv[b]) for a, b in rel if inv[a] != inv[b]}:
                rec.fail(f"edges of the condensed relevance graph: {list(con.edges)}, components {ids}, relevance {rel}")
        rec.hit(f"{len(comps)} components of {len(g.decs)} decisions")
        if spec["kind"] == "MACID":
            want = []
            for k in range(1, len(comps) + 1):
                for cs in itertools.combinations(comps, k):
                    ds = frozenset().union(*cs)
                    if all(b in ds for a, b in rel if a in ds):
                        want.append(ds)
            rec.step()
            got = [frozenset(s) for s in m.decs_in_each_maid_subgame()]
            if sorted(map(sorted, got)) != sorted(map(sorted, want)):
                rec.fail(f"decisions in subgames: {got}, expected {want}")
    # valid orders
    for k in range(len(g.nodes) + 1):
        for ns in itertools.combinations(g.nodes, k):
            if len(g.nodes) > 8 and k > 2:
                continue
            rec.step()
            for arg in (list(ns), iter(ns[::-1])):
                order = m.get_valid_order(arg)
                if sorted(order) != sorted(ns):
                    rec.fail(f"get_valid_order({ns}) is {order}")
                elif any(order.index(b) < order.index(a) for a in ns for b in ns if b in descendants(g.edges, a)):
                    rec.fail(f"get_valid_order({ns}) is {order}, not topological")
    order = m.get_valid_order()
    if sorted(order) != sorted(g.decs) or any(order.index(b) < order.index(a) for a in order for b in order if b in descendants(g.edges, a)):
        rec.fail(f"get_valid_order() is {order}")
    try:
        m.get_valid_order([*g.nodes[:1], "nowhere"])
        rec.fail("get_valid_order accepts unknown nodes")
    except KeyError:
        pass
    if (list(m.nodes), list(m.edges), roles(m)) != before:
        rec.fail("the structure was changed")
