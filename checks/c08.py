"""C08: a query is refused exactly when it depends on a policy that is not given"""
import itertools

import mc.boot  # noqa: F401
from checks.c03 import NAMES4, connected
from mc import models
from mc.build import dist_diff, edited, factor_dist
from mc.ref import Ref, contexts, dconnected, rules

ID = "C08"
META = dict(
    rule="a case is one diagram with some undecided and some decided decisions; all queries with all contexts and interventions "
    "on at most the given numbers of variables are posed; refusals are compared with d-connection (by moralisation) of the mechanisms "
    "of the undecided decisions, and answers with the answers under every pure policy of the undecided decisions",
    bounds={
        "quick": "all DAGs on 3 nodes x all nonempty sets of decisions x decided/undecided; all DAGs on 4 nodes x 1 role pattern; DAGs on 5 nodes with 4 decisions; "
        "contexts on up to 2 variables, interventions on up to 1 (2 on 3 nodes)",
        "thorough": "the same with all sets of up to 2 decisions on 4 nodes and interventions on up to 2 variables",
    },
    assumptions=["contexts of probability zero are outside of the property", "queries over variables in different connected components may be refused"],
)
CHUNK = 2


def make(nodes, edges, roles, kind, salt):
    """roles: {node: 'u'(ndecided) | 'd'(ecided)}"""
    flav = {}
    for i, n in enumerate(nodes):
        flav[n] = "btb"[(i + salt) % 3]
    special = {d: ["dec", [[1, 0], ["x", "a"]][salt % 2]] for d, r in roles.items() if r == "u"}
    rel = models.parametrise(nodes, edges, flav, special=special)
    decs = list(roles)
    if kind == "CID":
        dec, util = [[0, decs]], [[0, [n for n in nodes if n not in decs][:1]]]
    else:
        dec = [["x", decs[:1]], ["y", decs[1:]]]
        util = [["x", [n for n in nodes if n not in decs][:1]], ["y", []]]
    return dict(kind=kind, nodes=nodes, edges=edges, dec=dec, util=util, rel=rel, roles=roles)


def cases(tier):
    i = 0
    names = ["B", "A", "C"]
    for edges in models.dags(names):
        for pat in itertools.product("ud-", repeat=3):
            if "u" not in pat:
                continue
            i += 1
            yield dict(make(names, edges, {n: r for n, r in zip(names, pat) if r != "-"}, ["CID", "MACID", "MACIDBase"][i % 3], i), do=2)
    for edges0 in models.dags(["0", "1", "2", "3"]):
        i += 1
        nodes = NAMES4[i % len(NAMES4)]
        edges = [[nodes[int(u)], nodes[int(v)]] for u, v in edges0]
        sets = [s for k in (1, 2) for s in itertools.combinations(nodes, k)]
        for s in sets if tier == "thorough" else [sets[(i * 3) % len(sets)]]:
            roles = dict(zip(s, "uu" if i % 2 else "ud"))
            yield dict(make(nodes, edges, roles, ["CID", "MACID", "MACIDBase"][i % 3], i), do=2 if tier == "thorough" else 1)
    # several decisions
    nodes = ["C", "E", "A", "D", "B"]
    for edges0 in models.dags(["0", "1", "2", "3", "4"]):
        if not 4 <= len(edges0) <= 6 or max(sum(v == n for _, v in edges0) for n in "01234") > 3:
            continue
        i += 1
        if i % (12 if tier == "quick" else 3) == 0:
            j = i // 12
            roles = dict(zip(nodes[j % 5:] + nodes[:j % 5], ["uudu", "duud", "uuuu"][j % 3]))
            yield dict(make(nodes, [[nodes[int(u)], nodes[int(v)]] for u, v in edges0], roles, ["CID", "MACID", "MACIDBase"][j % 3], j), do=1, few=2)


def warm(m):
    for v in m.nodes:
        for do in ({}, {w: m.model.domain[w][0] for w in list(m.nodes)[:1] if w != v}):
            try:
                m.query([v], {}, do)
            except ValueError:
                pass


def few(ref, d):
    """two rules that differ in every context"""
    ctxs = contexts(ref, d)
    return [{c: {o: float(o == ref.dom[d][(k + j * (j % 3 > 0)) % 2]) for o in ref.dom[d]} for j, c in enumerate(ctxs)} for k in range(2)]


def run_case(spec, rec):
    m = edited(spec, warm)
    ref = Ref.from_spec(spec)
    nodes, edges = spec["nodes"], [tuple(e) for e in spec["edges"]]
    und = [d for d, r in spec["roles"].items() if r == "u"]
    rec.state(spec)
    rec.trace()
    profiles = []
    for prof in itertools.islice(itertools.product(*[list(itertools.islice(rules(ref.dom[d], contexts(ref, d)), 6)) if "few" not in spec else few(ref, d) for d in und]), 0, None):
        r = ref
        for d, rule in zip(und, prof):
            r = r.with_rule(d, rule)
        profiles.append(r)
    pick = {v: [ref.dom[v][0], ref.dom[v][-1]] for v in nodes}
    dos = [{}] + [{v: pick[v][j % 2]} for j, v in enumerate(nodes)]
    if spec["do"] > 1:
        dos += [{v: pick[v][0], w: pick[w][1]} for v, w in itertools.combinations(nodes, 2)]
    for do in dos:
        g = [e for e in edges if e[1] not in do] + [("m " + v, v) for v in nodes]
        under = [ref.do(do)] + [p.do(do) for p in profiles]
        for k in range(3):
            for cv in itertools.combinations([n for n in nodes if n not in do], k):
                ctx = {v: pick[v][(j + len(do)) % 2] for j, v in enumerate(cv)}
                obs = set(ctx) | set(do)
                qs = [[n] for n in nodes if n not in ctx]
                if not do and k < 2 and len(qs) > 1:
                    qs.append([qs[0][0], qs[-1][0]])
                for q in qs:
                    depends = any(dconnected(g, "m " + d, x, obs) for d in und for x in q)
                    answers = [r.query(q, ctx) for r in under]
                    if answers[0] is None:
                        rec.hit("zero-probability context (skipped)")
                        continue
                    rec.step()
                    try:
                        got = factor_dist(m.query(q, ctx, do) if do else m.query(q, ctx), q)
                    except ValueError as e:
                        if depends:
                            rec.hit("refused")
                        elif len(q) > 1 and not connected(under[0], q):
                            rec.hit("query across components refused")
                        else:
                            rec.fail(f"query {q} | {ctx}, do({do}) does not depend on {und}, but is refused: {e}")
                        continue
                    if depends:
                        rec.fail(f"query {q} | {ctx}, do({do}) depends on the policies of {und}, but is answered")
                        continue
                    rec.hit("answered without policy")
                    for a in answers:
                        e = dist_diff(got, a) if a is not None else None
                        if e:
                            rec.fail(f"query {q} | {ctx}, do({do}) is answered, but depends on the policy: {e}")
                            break
    # expectations and utilities are refused under the same conditions
    num = [n for n in nodes if all(isinstance(o, (int, float)) for o in ref.dom[n])]
    for do in dos[:3]:
        g = [e for e in edges if e[1] not in do] + [("m " + v, v) for v in nodes]
        vs = num[::-1]
        depends = any(dconnected(g, "m " + d, x, set(do)) for d in und for x in vs)
        expect_refusal(lambda: m.expected_value(vs, {}, do), depends, f"expected_value({vs}, do({do}))", rec)
        for a, us in spec["util"]:
            if set(us) <= set(num):
                depends = any(dconnected(g, "m " + d, x, set(do)) for d in und for x in us)
                expect_refusal(lambda: m.expected_utility({}, do, agent=a), depends, f"expected_utility(do({do}), {a})", rec)


def expect_refusal(f, depends, what, rec):
    rec.step()
    try:
        f()
    except ValueError as e:
        if not depends:
            rec.fail(f"{what} does not depend on an undecided decision, but is refused: {e}")
        return
    if depends:
        rec.fail(f"{what} depends on an undecided decision, but is answered")
