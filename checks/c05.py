"""C05: expected values and expected utilities"""
import itertools

import mc.boot  # noqa: F401
from mc import models
from mc.build import edited
from mc.ref import Ref, close, eu

ID = "C05"
META = dict(
    rule="a case is one model; expected values are requested for all lists of variables (all orders, also the empty list, "
    "repeated variables and tuples) under all contexts with at most one variable, selected contexts with two variables and "
    "all single interventions; expected utilities are requested for every agent under all assignments of utilities to agents; "
    "everything is compared with expectations computed from the joint distribution",
    bounds={
        "quick": "all DAGs on 3 nodes x 3 patterns of numeric domains (negative, fractional, unsorted); all assignments of 3 utilities "
        "to 3 agents on a decision with 4 graphs (connected and not), and of 3 utilities of the same or opposite value to 2 agents; diagrams with 6 utilities, contexts and interventions of up to 4 variables together",
        "thorough": "all DAGs on 3 nodes x 12 patterns, all DAGs on 4 nodes x 2 patterns; all assignments of 3 utilities "
        "to 3 agents on 16 graphs",
    },
    assumptions=["requests for a variable that is itself part of the context are refused by the inference library and outside of the property", "contexts of probability zero are outside of the property"],
)
CHUNK = 2
PAT3 = ["bDn", "Znt", "sbZ", "ncD", "tDZ", "nsb", "DZn", "qtc", "ccs", "Dbt", "nnn", "ZZb"]


def cases(tier):
    i = 0
    names = ["B", "A", "C"]
    for edges in models.dags(names):
        for flavs in PAT3[: 3 if tier == "quick" else 12]:
            i += 1
            kind = ["CBN", "MACIDBase", "CID", "MACID"][i % 4]
            if kind == "CBN":
                dec, util = [], []
            elif kind == "CID":
                dec, util = [[0, [names[i % 3]]]], [[0, [n for n in names if n != names[i % 3]]]]
            else:
                dec, util = [["x", [names[i % 3]]]], [["y", [n for n in names if n != names[i % 3]]]]
            yield dict(t="values", kind=kind, nodes=names, edges=edges, dec=dec, util=util,
                       rel=models.parametrise(names, edges, dict(zip(names, flavs))))
    if tier == "thorough":
        nodes = ["D", "B", "A", "C"]
        for edges in models.dags(nodes):
            for flavs in ["bDnZ", "nstb"]:
                yield dict(t="values", kind="MACIDBase", nodes=nodes, edges=edges, dec=[[0, ["B"]]], util=[[0, ["A", "C"]]],
                           rel=models.parametrise(nodes, edges, dict(zip(nodes, flavs))))
    # utilities
    nodes = ["D", "W", "V", "U"]
    graphs = [[], [["D", "U"], ["D", "V"]], [["D", "W"], ["W", "U"], ["D", "V"]], [["D", "U"], ["D", "V"], ["D", "W"], ["V", "W"]]]
    if tier == "thorough":
        pairs = [["D", "U"], ["D", "V"], ["D", "W"], ["V", "U"]]
        graphs = [[e for j, e in enumerate(pairs) if m >> j & 1] for m in range(16)]
    same = [["fun", "lambda **pv: sum(pv.values()) - 1"], ["fun", "lambda **pv: sum(pv.values()) - 1"], ["fun", "lambda **pv: 1 - sum(pv.values())"]]
    noise = [["dict", [[-1, 0.25], [4, 0.75]]], ["dict", [[4, 0.75], [-1, 0.25]]], ["dict", [[-4, 0.75], [1, 0.25]]]]
    for edges, rels in ((graphs[1] + [["D", "W"]], same), ([], noise)):  # utilities of the same and of opposite value
        for assign, shift in itertools.product(itertools.product([0, "z"], repeat=3), range(3)):
            util = {0: []}
            for u, a in zip(["W", "V", "U"], assign):
                util.setdefault(a, []).append(u)
            yield dict(t="utils", kind=["MACIDBase", "MACID"][shift % 2] if set(assign) != {0} else "CID", nodes=nodes, edges=edges, dec=[[0, ["D"]]], util=[[a, us] for a, us in util.items()],
                       rel=[["D", ["fun", "lambda: {1: 0.625, 0: 0.375}"]], *[[u, rels[(k + shift) % 3]] for k, u in enumerate(["U", "W", "V"])]])
    # many utilities, and requests with contexts and interventions of three and four variables
    for k in range(4 if tier == "quick" else 16):
        cs, us = ["C1", "D", "C3", "C2"], ["U3", "U1", "U6", "U2", "U5", "U4"]
        edges = [["C1", "D"], ["C2", "D"], *([["C3", "C2"]] if k % 2 else [["C1", "C3"]])]
        for j, u in enumerate(us):
            edges += [[c, u] for q, c in enumerate(cs) if (j + k + q) % 4 in ((0, 2) if j % 2 else (0, 1, 3))]
        nodes9 = cs + us if k % 3 else us[::-1] + cs[::-1]
        util = [["z", us[:1]], [0, us[1:]]] if k % 2 else [[0, us[:4]], ["z", us[4:]]]
        yield dict(t="many", kind=["MACID", "MACIDBase"][k // 2 % 2], nodes=nodes9, edges=edges, dec=[["z", ["D"]]], util=util,
                   rel=models.parametrise(nodes9, edges, {**dict(zip(cs, "bbzb")), **dict(zip(us, "ddDddD"))}, salt=k))
    for edges in graphs:
        for assign in itertools.product([0, 1, "z"], repeat=3):
            util = {}
            for u, a in zip(["W", "V", "U"], assign):
                util.setdefault(a, []).append(u)
            i += 1
            kinds = ["MACIDBase", "MACID"] + (["CID"] if set(assign) == {0} else [])
            for kind in kinds if tier == "thorough" or len(kinds) == 3 else [kinds[i % 2]]:
                yield dict(t="utils", kind=kind, nodes=nodes, edges=edges, dec=[[0, ["D"]]], util=[[a, us] for a, us in util.items()],
                           rel=models.parametrise(nodes, edges, dict(zip(nodes, "bnDt"))))


def warm(m):
    m.expected_value(list(m.nodes), {})
    for a in getattr(m, "agents", ()):
        m.expected_utility({}, agent=a)
    m.expected_utility({})


def run_case(spec, rec):
    {"values": case_values, "utils": case_utils, "many": case_many}[spec["t"]](spec, rec)


def case_values(spec, rec):
    m, ref = edited(spec, warm), Ref.from_spec(spec)
    nodes = spec["nodes"]
    rec.state(spec)
    rec.trace()

    def check(vs, ctx, do, arg=None):
        r = ref.do(do) if do else ref
        vs = [v for v in vs if v not in ctx]
        if r.prob(ctx) <= 1e-13:
            return
        want = [r.ev(v, ctx) for v in vs]
        got = m.expected_value(vs if arg is None else arg, ctx, intervention=do) if do is not None else m.expected_value(vs if arg is None else arg, ctx)
        rec.step()
        if len(got) != len(want) or not all(close(a, b) for a, b in zip(got, want)):
            rec.fail(f"expected_value({vs}, {ctx}, {do}) = {got}, expected {want}")
        rec.hit(f"{len(vs)} variables")

    for k in range(len(nodes) + 1):
        for vs in itertools.permutations(nodes, k):
            check(list(vs), {}, None)
    a, b = nodes[0], nodes[1]
    check([b, a, b], {}, None)
    check([a, b], {}, None, arg=(a, b))
    check([b, a], {}, {}, arg=iter([b, a]))
    single = [{v: o} for v in nodes for o in ref.dom[v]]
    for j, c in enumerate(single):
        vs = nodes if j % 2 else nodes[::-1]
        check(vs, c, None)
        check(vs, {}, c)
        check(vs[:2], single[(j + 2) % len(single)], c) if set(single[(j + 2) % len(single)]) != set(c) else None
    for c1, c2 in itertools.combinations(single, 2):
        if set(c1) != set(c2) and (sum(map(len, map(str, c1))) + ref.dom[list(c1)[0]].index(list(c1.values())[0]) + ref.dom[list(c2)[0]].index(list(c2.values())[0])) % 2:
            check([v for v in nodes if v not in c1 and v not in c2], {**c1, **c2}, None)


def case_utils(spec, rec):
    m, ref = edited(spec, warm), Ref.from_spec(spec)
    rec.state(spec)
    rec.trace()
    utils = dict((a, us) for a, us in spec["util"])
    for agent in [0, *[a for a in utils if a != 0]]:
        us = utils.get(agent, [])
        for ctx, do in [({}, None), ({"D": 1}, None), ({"D": 0}, {}), ({}, {"D": 0}), ({"V": -1}, None), ({"D": 1}, {"V": 4})]:
            if any(o not in ref.dom[v] for v, o in {**ctx, **(do or {})}.items()):
                continue
            r = ref.do(do) if do else ref
            if r.prob(ctx) <= 1e-13 or set(us) & set(ctx):
                continue
            want = eu(r, us, ctx)
            if agent == 0 and spec["kind"] == "CID":
                got = m.expected_utility(ctx) if do is None else m.expected_utility(ctx, intervention=do)
            else:
                got = m.expected_utility(ctx, agent=agent) if do is None else m.expected_utility(ctx, intervention=do, agent=agent)
            rec.step()
            rec.hit(f"{len(us)} utilities")
            if not close(got, want):
                rec.fail(f"expected_utility({ctx}, {do}, agent={agent!r}) = {got}, expected {want}")


def case_many(spec, rec):
    m, ref = edited(spec, warm), Ref.from_spec(spec)
    rec.state(spec)
    rec.trace()
    cs = [n for n in spec["nodes"] if n[0] != "U"]
    first = {c: ref.dom[c][0] for c in cs}
    last = {c: ref.dom[c][-1] for c in cs}
    for j, k in itertools.product(range(5), range(5)):
        for q, (cv, dv) in enumerate(itertools.product(itertools.combinations(cs, j), itertools.combinations(cs, k))):
            if set(cv) & set(dv) or (j + k == 4 and q % 2) or not j + k:
                continue
            ctx = {c: (first if (q + z) % 2 else last)[c] for z, c in enumerate(cv)}
            do = {c: (first if (q + z) % 3 else last)[c] for z, c in enumerate(dv)}
            r = ref.do(do) if do else ref
            if r.prob(ctx) <= 1e-13:
                continue
            for agent, us in spec["util"]:
                want = [r.ev(u, ctx) for u in us]
                rec.step(2)
                rec.hit(f"{len(us)} utilities")
                got = m.expected_value(us, ctx, do or None)
                if len(got) != len(want) or not all(close(a, b) for a, b in zip(got, want)):
                    rec.fail(f"expected_value({us}, {ctx}, {do}) = {got}, expected {want}")
                got = m.expected_utility(ctx, do or None, agent)
                if not close(got, sum(want)):
                    rec.fail(f"expected_utility({ctx}, {do}, {agent!r}) = {got}, expected {sum(want)}")
