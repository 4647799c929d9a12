"""C03: queries answer with the exact conditional distribution of the model"""
import itertools

from mc import models
from mc.build import dist_diff, edited, factor_dist
from mc.ref import Ref

ID = "C03"
META = dict(
    rule="a case is one model (graph x parametrisation x relationship order x class x node naming); every query of one "
    "to four variables under every partial context is executed on the real model and compared with the brute-force "
    "joint; non-trivial cases execute at least one query with a positive-probability context",
    bounds={
        "quick": "all DAGs on 3 nodes x all assignments of 4 flavours; all DAGs on 4 nodes x 3 flavour patterns; all DAGs "
        "with 5 edges on 5 nodes (contexts of up to two variables) and directed versions of the cycle of 6 nodes (up to one) over unsorted and not zero-based numeric domains; graphs on 7 nodes with several cycles (contexts of up to 6); "
        "contexts: every partial assignment of the other variables; queries: every ordered pair, every variable, every set of three or four",
        "thorough": "all DAGs on 3 nodes x all assignments of 11 flavours; all DAGs on 4 nodes x 14 patterns x 2 namings; "
        "all DAGs on 5 nodes with two patterns, all cycles of 6 nodes",
    },
    assumptions=[
        "contexts of probability zero are outside of the property (the conditional distribution is undefined)",
        "probabilities are compared up to 1e-7",
        "queries over variables in different connected components are refused (ValueError) by design",
    ],
)
CHUNK = 8
KINDS = ["CBN", "CID", "MACID", "MACIDBase"]
PATTERNS4 = ["btzp", "szdb", "cpbt", "Zdsq", "nDbz", "pcts"]
PATTERNS4T = PATTERNS4 + ["zzss", "ddtb", "tpcZ", "Dsnb", "bbbb", "ttZd", "spdc", "qnzp"]
PATTERNS5 = ["ozono", "noozo", "zonoz", "onnoz"]
NAMES5 = [["A", "B", "C", "D", "E"], ["x2", "x0", "x1", "x4", "x3"], ["E", "D", "C", "B", "A"]]
AS = [list, tuple, iter, list, lambda q: dict.fromkeys(q).keys(), lambda q: (v for v in q)]  # ways of giving a query
NAMES4 = [["A", "B", "C", "D"], ["C", "A", "D", "B"]]


def roles(kind, nodes, i):
    """some nodes are decisions (with a policy) and utilities, to go through the influence-diagram classes"""
    if kind == "CBN":
        return [], []
    d, u = nodes[i % len(nodes)], nodes[(i + 1) % len(nodes)]
    if kind == "CID":
        return [[0, [d]]], [[0, [u]]]
    return [["x", [d]], ["y", []]], [["y", [u]], ["x", []]]


def make(nodes, edges, flavs, kind, back, i):
    spec_rel = models.parametrise(nodes, edges, dict(zip(nodes, flavs)))
    if back:
        spec_rel = models.backward(spec_rel, edges)
    dec, util = roles(kind, nodes, i)
    return dict(kind=kind, nodes=nodes, edges=edges, dec=dec, util=util, rel=spec_rel)


def cases(tier):
    i = 0
    flav3 = "zdsp" if tier == "quick" else "btpdDzZscnq"
    names = ["A", "B", "C"]
    for edges in models.dags(names):
        for flavs in itertools.product(flav3, repeat=3):
            i += 1
            yield make(names, edges, flavs, KINDS[(i // 2) % 4], i % 2, i)
    for edges0 in models.dags(["0", "1", "2", "3"]):
        for k, flavs in enumerate(PATTERNS4[:3] if tier == "quick" else PATTERNS4T):
            for names in [NAMES4[k % 2]] if tier == "quick" else NAMES4:
                edges = [[names[int(u)], names[int(v)]] for u, v in edges0]
                i += 1
                yield make(names, edges, flavs, KINDS[i % 4], (i // 2) % 2, i)
    # longer undirected cycles: all graphs with five edges over five nodes, and cycles of six nodes
    for edges0 in models.dags(["0", "1", "2", "3", "4"]):
        if len(edges0) == 5 or tier == "thorough":
            i += 1
            names = NAMES5[i % 3]
            yield make(names, [[names[int(u)], names[int(v)]] for u, v in edges0], PATTERNS5[i % 4], KINDS[i % 4], i % 2, i)
            if tier == "thorough":
                names = NAMES5[(i + 1) % 3]
                yield make(names, [[names[int(u)], names[int(v)]] for u, v in edges0], "btzds", KINDS[i % 4], i % 2, i)
    names = ["P", "Q", "R", "S", "T", "W"]
    for flip in itertools.product((0, 1), repeat=6):
        cyc = [(names[k], names[(k + 1) % 6]) for k in range(6)]
        edges = [list(e if f else e[::-1]) for e, f in zip(cyc, flip)]
        if flip[0] and len(set(flip)) > 1 and (tier == "thorough" or sum(flip) < 4):
            i += 1
            yield make(names, edges, "ozozoz", KINDS[i % 4], i % 2, i)
    # larger graphs with several undirected cycles (contexts of up to all other variables, several parents)
    names = ["G", "A", "F", "B", "E", "C", "D"]
    base = [(0, 1), (1, 2), (2, 3), (0, 4), (4, 5), (5, 6), (1, 5), (2, 6), (3, 6)]
    for k in range(6 if tier == "quick" else 18):
        i += 1
        perm = [(q * (1 + k % 6) + k) % 7 for q in range(7)]
        edges = [[names[perm[u]], names[perm[v]]] for z, (u, v) in enumerate(base) if (z + k) % 9 or k % 2]
        yield make(names, edges, ["bzobszo", "zbdbobt"][k % 2], KINDS[i % 4], i % 2, i)


def run_case(spec, rec):
    m = edited(spec, lambda m: [m.query([v], {}) for v in m.nodes])
    ref = Ref.from_spec(spec)
    rec.state(spec)
    rec.trace()
    nodes = spec["nodes"]
    wide = len(nodes) > 3
    # queries of several variables
    for k in (3, 4):
        if 3 <= len(nodes) <= 5 or k == 4:
            for j, q in enumerate(itertools.combinations(nodes, k)):
                q = list(q[j % k:] + q[: j % k])
                check(m, ref, q, {}, rec)
                for c in [n for n in nodes if n not in q][:1]:
                    check(m, ref, q, {c: ref.dom[c][j % len(ref.dom[c])]}, rec)
    if len(nodes) > 6:
        for j, v in enumerate(nodes):
            others = [n for n in nodes if n != v]
            for k in (0, 1, 2, 3, 4, 6):
                for z, cv in enumerate(itertools.combinations(others, k)):
                    check(m, ref, [v], {c: ref.dom[c][(j + z + y * (z % 3)) % len(ref.dom[c])] for y, c in enumerate(cv)}, rec)
        return
    for v in nodes:
        others = [n for n in nodes if n != v]
        for k in range(len(others) + 1 if len(nodes) < 5 else 3 if len(nodes) == 5 else 2):
            for cv in itertools.combinations(others, k):
                for vals in itertools.product(*[ref.dom[c] for c in cv]):
                    if wide and k >= 2 and vals[0] != ref.dom[cv[0]][0]:
                        continue
                    check(m, ref, [v], dict(zip(cv, vals)), rec)
        for w in others:
            rest = [n for n in others if n != w]
            if not wide or nodes.index(w) > nodes.index(v):
                for cv in [()] + [(c,) for c in rest]:
                    for vals in itertools.product(*[ref.dom[c] for c in cv]):
                        check(m, ref, [v, w], dict(zip(cv, vals)), rec)


def check(m, ref, q, ctx, rec):
    want = ref.query(q, ctx)
    if want is None:
        rec.hit("zero-probability context (skipped)")
        return
    rec.step()
    try:
        got = factor_dist(m.query(AS[(len(ctx) + 2 * ref.nodes.index(q[0])) % 6](q), ctx), q)
    except ValueError as e:
        if len(q) > 1 and not connected(ref, q):
            rec.hit("query across components refused")
            return
        rec.fail(f"query {q} | {ctx} refused: {e}")
        return
    e = dist_diff(got, want)
    if e:
        rec.fail(f"P({q} | {ctx}): {e}")
    if ctx:
        rec.hit("conditional query")
    if len(q) > 1:
        rec.hit("joint query")


def connected(ref, q):
    from mc.ref import components

    c = components(ref.nodes, ref.edges)
    return len({c[v] for v in q}) == 1
