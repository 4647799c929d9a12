"""C04: interventions replace mechanisms and nothing else"""
import itertools

import mc.boot  # noqa: F401
from checks.c03 import NAMES4, connected
from mc import models
from mc.build import build, dist_diff, factor_dist, table_diff
from mc.ref import Ref, close
from pycid import introduced_total_effect, total_effect

ID = "C04"
META = dict(
    rule="a case is one model; all single interventions and all pairs are applied (as argument of a query, and in "
    "place on copies, also one after the other and repeatedly), and every marginal and conditional answer and every "
    "table is compared with the truncated factorisation; effects are compared with differences of expectations",
    bounds={
        "quick": "all DAGs on 3 nodes x all assignments of 3 flavours, plus patterns with undecided decisions; all DAGs on "
        "4 nodes x 1 pattern; intervention sets of size 1, 2 and all; histories of up to 3 in-place interventions",
        "thorough": "all DAGs on 3 nodes x all assignments of 5 flavours; all DAGs on 4 nodes x 4 patterns",
    },
    assumptions=[
        "contexts of probability zero under the intervention are outside of the property",
        "queries over variables in different connected components may be refused",
    ],
)
CHUNK = 2
KINDS = ["CBN", "MACIDBase", "CID", "MACID"]


def make(nodes, edges, flavs, kind, back, i, undecided=None, deep=False):
    special = {undecided: ["dec", ["e", "c"]]} if undecided else None
    rel = models.parametrise(nodes, edges, dict(zip(nodes, flavs)), special=special)
    if back:
        rel = models.backward(rel, edges)
    d = undecided or nodes[i % len(nodes)]
    u = [n for n in nodes if n != d][i % (len(nodes) - 1)]
    if kind == "CBN":
        dec, util = [], []
    elif kind == "CID":
        dec, util = [[0, [d]]], [[0, [u]]]
    else:
        dec, util = [["x", [d]]], [["y", [u]]]
    return dict(t="model", kind=kind, nodes=nodes, edges=edges, dec=dec, util=util, rel=rel, undecided=undecided, deep=deep or i % 6 == 0)


def cases(tier):
    deep = tier == 'thorough'
    i = 0
    names = ["B", "A", "C"]
    for edges in models.dags(names):
        for flavs in itertools.product("zds" if tier == "quick" else "zdstp", repeat=3):
            i += 1
            yield make(names, edges, flavs, KINDS[i % 4], (i // 4) % 2, i, deep=deep)
        for u in names:
            for k, flavs in enumerate(["zsb", "tdz"]):
                yield make(names, edges, flavs, KINDS[1 + k], k, i, u, deep)
    for edges0 in models.dags(["0", "1", "2", "3"]):
        for k, flavs in enumerate(["btzs"] if tier == "quick" else ["btzs", "szdb", "Zdsq", "nDzp"]):
            nodes = NAMES4[(k + 1) % 2]
            edges = [[nodes[int(u)], nodes[int(v)]] for u, v in edges0]
            i += 1
            yield make(nodes, edges, flavs, KINDS[i % 4], i % 2, i, deep=deep)
    # effects, on numeric models
    for edges in models.dags(names):
        for flavs in [*itertools.product("bD", repeat=3), *map(tuple, ["tnb", "nDt"])] if tier == "quick" else itertools.product("btDnZs", repeat=3):
            i += 1
            yield dict(make(names, edges, flavs, "CID" if i % 2 else "CBN", 0, i), t="effects")
    for edges in models.dags(names):
        yield dict(t="outside", nodes=names, edges=edges)


def run_case(spec, rec):
    {"model": case_model, "effects": case_effects, "outside": case_outside}[spec["t"]](spec, rec)


def compare_tables(m, ref, what, rec):
    rec.step()
    if {tuple(e) for e in m.edges} != set(ref.edges):
        rec.fail(f"{what}: edges {sorted(m.edges)}, expected {sorted(ref.edges)}")
    for v in ref.nodes:
        e = table_diff(m, v, ref)
        if e:
            rec.fail(f"{what}: {e}")


def case_model(spec, rec):
    m = build(spec)
    ref = Ref.from_spec(spec)
    nodes = spec["nodes"]
    und = spec["undecided"]
    rec.state(spec)
    rec.trace()
    small = len(nodes) <= 3
    single = [{v: o} for v in nodes for o in ref.dom[v]]
    pairs = [{**a, **b} for a, b in itertools.combinations(single, 2) if set(a) != set(b)]
    if not small:
        pairs = [p for j, p in enumerate(pairs) if all(o == ref.dom[v][(j + 1) % 2] for v, o in p.items())]
    for jd, do in enumerate(single + pairs):
        r = ref.do(do)
        # in place, on a copy
        c = m.copy()
        c.intervene(do)
        compare_tables(c, r, f"intervene({do})", rec)
        if und and und not in do:
            continue  # queries may be refused (C08)
        for v in nodes:
            query(m, r, [v], {}, do, rec)
            if v not in do and (len(do) == 1 or spec["deep"]):
                for j, w in enumerate(nodes):
                    if w == v:
                        continue
                    for o in r.dom[w] if spec["deep"] else [r.dom[w][(j + jd) % len(r.dom[w])]]:
                        query(m, r, [v], {w: o}, do, rec)
        if len(do) == 1 and spec["deep"]:
            for v, w in itertools.combinations(nodes, 2):
                query(m, r, [w, v], {}, do, rec)
    # everything at once, and histories of interventions in place
    for pick in (0, -1):
        do = {v: ref.dom[v][pick] for v in nodes}
        c = m.copy()
        c.intervene(do)
        compare_tables(c, ref.do(do), f"intervene({do})", rec)
    for a, b in itertools.permutations(single, 2):
        if not small and (nodes.index(list(a)[0]) + nodes.index(list(b)[0])) % 2:
            continue
        c = m.copy()
        c.intervene(a)
        c.intervene(b)
        r = ref.do(a).do(b)
        compare_tables(c, r, f"intervene({a}); intervene({b})", rec)
        if small:
            c.intervene(a)
            compare_tables(c, r.do(a), f"intervene({a}); intervene({b}); intervene({a})", rec)
    compare_tables(m, ref, "the model itself after the queries", rec)


def query(m, r, q, ctx, do, rec):
    want = r.query(q, ctx)
    if want is None:
        rec.hit("zero-probability context (skipped)")
        return
    rec.step()
    try:
        got = factor_dist(m.query(q, ctx, do), q)
    except ValueError as e:
        if len(q) > 1 and not connected(r, q):
            rec.hit("query across components refused")
            return
        rec.fail(f"query {q} | {ctx}, do({do}) refused: {e}")
        return
    e = dist_diff(got, want)
    if e:
        rec.fail(f"P({q} | {ctx}, do({do})): {e}")
    rec.hit("interventional query")


def case_effects(spec, rec):
    m = build(spec)
    ref = Ref.from_spec(spec)
    nodes = spec["nodes"]
    rec.state(spec)
    rec.trace()
    te = {}
    for a in nodes:
        for x in nodes:
            for a0, a1 in list(itertools.permutations(ref.dom[a], 2))[:3]:
                want = ref.do({a: a1}).ev(x, {}) - ref.do({a: a0}).ev(x, {})
                te[a, x, a0, a1] = want
                rec.step()
                got = total_effect(m, a, x, a0, a1)
                if not close(got, want):
                    rec.fail(f"total_effect({a}, {x}, {a0}, {a1}) = {got}, expected {want}")
                if ref.dom[a][:2] == [0, 1] and (a0, a1) == (0, 1):
                    rec.step()
                    if not close(total_effect(m, a, x), want):
                        rec.fail(f"total_effect({a}, {x}) with default values, expected {want}")
    for a, d, y in itertools.permutations(nodes):
        for a0, a1 in list(itertools.permutations(ref.dom[a], 2))[:1]:
            td, ty = te[a, d, a0, a1], te[a, y, a0, a1]
            for adapt in (True, False):
                want = td - ty
                if adapt and ty < 0:
                    want = -td + ty
                rec.step()
                rec.hit("negative effect" if ty < 0 else "non-negative effect")
                got = introduced_total_effect(m, a, d, y, a0, a1, adapt_marginalized=adapt)
                if abs(ty) > 1e-9 and not close(got, want):
                    rec.fail(f"introduced_total_effect({a}, {d}, {y}, {a0}, {a1}, {adapt}) = {got}, expected {want}")
                if abs(ty) <= 1e-9 and not close(abs(got), abs(want)):
                    rec.fail(f"introduced_total_effect({a}, {d}, {y}, {a0}, {a1}, {adapt}) = {got}, expected {want}")


def case_outside(spec, rec):
    """interventions with values that the variable does not take otherwise"""
    nodes, edges = spec["nodes"], spec["edges"]
    rel = []
    for i, v in enumerate(nodes):
        par = [a for a, b in edges if b == v]
        if not par:
            rel.append([v, ["dict", [[0, 0.25], [1, 0.75]]]])
        else:
            rel.append([v, ["fun", f"lambda {', '.join(par)}: {{{' + '.join(par)}: 0.25, {' + '.join(par)} + {i + 1}: 0.75}}"]])
    full = dict(kind="CBN", nodes=nodes, edges=edges, rel=rel)
    m = build(full)
    rec.state(full)
    rec.trace()
    for v in nodes:
        for val in (50, -3):
            mut = dict(full, edges=[e for e in edges if e[1] != v], rel=[[w, ["dict", [[val, 1]]] if w == v else r] for w, r in rel])
            r = Ref.from_spec(mut)
            for w in nodes:
                query(m, r, [w], {}, {v: val}, rec)
