"""C13: solving a single-agent diagram yields an optimal policy"""
import itertools
import random

import mc.boot  # noqa: F401
from checks.c12 import UT, fill, graphs
from mc.build import build, cpd_table, edited, snap_diff, snapshot
from mc.ref import Ref, contexts, dconnected, descendants, eu, fun, is_acyclic, max_eu, rules

ID = "C13"
META = dict(
    rule="a case is one parameterised single-agent diagram with a history of policies imputed before (none, uniform, a pure rule, an optimal policy computed before, a "
    "stochastic function); solve, impute_optimal_policy and impute_optimal_decision (in every order of decisions) are executed; the tables of the resulting rules are read back "
    "and evaluated by brute force against the maximum over all joint policies, and context by context",
    bounds={
        "quick": "all graphs over the skeletons {C,D,U}, {C,D,E,U}, {D,C,E,U}, {D,E,U,V}, {C,B,D,U} (utilities may not have children) with 4 utility patterns, 3 kinds of chance nodes; "
        "a third of the four-node ones; five-node structures with and without recall; 4 decisions with five observations and utilities, 4 diagrams with five decisions; joint policies up to 1024",
        "thorough": "all of them, all histories of previous policies, all graphs over {C,D,E,U,V} and {D,C,E,B,U} with at most 7 edges",
    },
)
CHUNK = 2
FAMS = [["C", "D", "U"], ["C", "D", "E", "U"], ["D", "C", "E", "U"], ["D", "E", "U", "V"], ["C", "B", "D", "U"]]
DOMS = [{"D": [0, 1], "E": [1, 0], "F": [0, 1]}, {"D": ["n", "m"], "E": [2, 7], "F": ["q", "p"]}, {"D": [0, 1, 2], "E": [0, 1], "F": [1, 3]}]


def make(names, edges, i):
    roles = {n: "d" if n in "DEF" else "u" if n in "UV" else "c" for n in names}
    decs = [n for n in names if roles[n] == "d"]
    ut = {"U": UT[i % 4], "V": UT[(i + 1) % 4]}
    rel = fill(names, edges, roles, DOMS[i % 3], ut, "bdnz"[(i // 2) % 4], i % 4)
    return dict(kind="CID", nodes=names if i % 2 else names[::-1], edges=edges if (i // 2) % 2 else edges[::-1], dec=[[0, decs if i % 3 else decs[::-1]]],
                util=[[0, [n for n in names if roles[n] == "u"]]], rel=rel, prev=i % 5)


FIVE = [
    (["D", "E", "F", "U", "V"], [["D", "E"], ["E", "F"], ["D", "F"], ["D", "U"], ["E", "U"], ["F", "V"]]),
    (["C", "D", "B", "E", "U"], [["C", "D"], ["C", "B"], ["D", "B"], ["B", "E"], ["D", "U"], ["E", "U"]]),
    (["C", "D", "B", "E", "U"], [["C", "D"], ["C", "E"], ["D", "E"], ["B", "E"], ["C", "U"], ["B", "U"], ["D", "U"], ["E", "U"]]),
    (["C", "D", "E", "U", "V"], [["C", "D"], ["D", "E"], ["C", "V"], ["D", "U"], ["E", "V"]]),
    (["C", "D", "E", "U", "V"], [["C", "E"], ["D", "E"], ["C", "V"], ["D", "U"], ["E", "V"], ["D", "V"]]),
    (["C", "D", "E", "U", "V"], [["C", "D"], ["C", "U"], ["D", "E"], ["E", "U"], ["D", "V"]]),
    (["C", "A", "B", "D", "U"], [["C", "A"], ["C", "B"], ["A", "D"], ["B", "D"], ["C", "U"], ["D", "U"]]),
    (["C", "D", "B", "E", "U"], [["C", "D"], ["D", "B"], ["B", "E"], ["D", "E"], ["C", "E"], ["C", "U"], ["E", "U"]]),
    (["D", "E", "F", "U"], [["D", "U"], ["E", "U"], ["F", "U"]]),
    (["D", "E", "F", "U"], [["D", "E"], ["E", "F"], ["D", "U"], ["E", "U"], ["F", "U"]]),
    (["C", "D", "E", "F", "U"], [["C", "D"], ["D", "E"], ["E", "F"], ["C", "F"], ["F", "U"], ["C", "U"]]),
    (["B", "C", "D", "E", "U"], [["B", "D"], ["C", "E"], ["D", "E"], ["B", "U"], ["C", "U"], ["D", "U"], ["E", "U"]]),
]


def wide(i):
    """one decision with five observations and five utilities, or five decisions with an observation and a utility each"""
    obs, utils = [["O", "P", "Q", "R", "S"], ["observation number %d of the agent" % k for k in range(5)]][i // 2 % 2], ["U", "V", "W", "X", "Y"]
    if i % 2:
        utils = utils[::-1]
    decs = ["D"] if i < 4 else ["D1", "D2", "D3", "D4", "D5"]
    edges, rel = [], []
    for k, (o, u) in enumerate(zip(obs, utils)):
        d = decs[k % len(decs)]
        edges += [[o, d], [o, u], [d, u]]
        dom = [[0, 1], [1, -1], [2, 0], [0, 3], [1, 0]][(k + i) % 5] if k or i % 2 else [0, 1, 2]
        rel.append([o, ["dict", [[x, (j + 1) / (3 if len(dom) == 2 else 6)] for j, x in enumerate(dom)]]])
        w = [1, -2, 4, -0.5, 0.25][(k + i) % 5]
        body = f"{w} * (v['{o}'] - 0.4) * (v['{d}'] - 0.7)" if (k + i) % 3 else f"{w} * (v['{o}'] * 3 == v['{d}'] * v['{o}']) - v['{d}']"
        rel.append([u, ["fun", f"lambda **v: {body}"]])
    rel += [[d, ["dec", [[0, 1], [2, 1, 0], [3, 1]][(k + i) % 3]]] for k, d in enumerate(decs)]
    return dict(t="wide", kind="CID", nodes=(obs + decs + utils)[:: 1 if i % 3 else -1], edges=edges if i % 2 else edges[::-1], dec=[[0, decs]], util=[[0, utils]], rel=rel[::-1] if i % 4 > 1 else rel)


def run_wide(spec, rec):
    """the expectation of each utility given the observations and decisions that it depends on adds up; decisions are independent of each other"""
    rec.state(spec)
    rec.trace()
    decs, utils = spec["dec"][0][1], spec["util"][0][1]
    rels = dict(map(tuple, spec["rel"]))
    dom = {d: rels[d][1] for d in decs}
    dist = {o: dict(map(tuple, x[1])) for o, x in rels.items() if x[0] == "dict"}
    f = {u: fun(rels[u][1]) for u in utils}
    par = {v: [a for a, b in spec["edges"] if b == v] for v in spec["nodes"]}
    m = build(spec)
    for how in range(3 if len(decs) > 1 else 1):
        if how == 1:
            m.impute_random_policy()
        if how == 2:
            m.impute_optimal_policy()
        for what, sol in (("solve", m.solve()), ("impute_optimal_policy", None)) if how != 1 else (("solve", m.solve()),):
            c = m.copy()
            if sol is None:
                c.impute_optimal_policy()
            else:
                c.add_cpds(*sol.values())
            best = 0
            for d in decs:
                obs = [o for o in par[d]]
                tab = cpd_table(c, d)
                if tab[0] != dom[d]:
                    rec.fail(f"{what}: domain of {d} became {tab[0]}")
                    return
                for ctx in itertools.product(*[dist[o] for o in obs]):
                    a = dict(zip(obs, ctx))
                    by = {x: sum(f[u](**{v: {**a, d: x}[v] for v in par[u]}) for u in utils if d in par[u]) for x in dom[d]}
                    rule = tab[1][frozenset(a.items())]
                    rec.step()
                    if abs(sum(rule.values()) - 1) > 1e-9 or sum(q * by[x] for x, q in rule.items()) < max(by.values()) - 1e-7:
                        rec.fail(f"{what}: {d} chooses {rule} in {a}, values {by}")
                        return
                    q = 1
                    for o in obs:
                        q *= dist[o][a[o]]
                    best += q * max(by.values())
            x = c.expected_utility({})
            if abs(x - best) > 1e-7:
                rec.fail(f"{what}: expected utility {x}, optimum {best}")
    rec.hit("wide")


def cases(tier):
    for i in range(8):
        yield wide(i)
    i = 0
    for names in FAMS:
        roles = {n: "u" if n in "UV" else "d" for n in names}
        for edges in graphs(names, roles, lambda es: True):
            for k in range(4):
                i += 1
                if tier == "quick" and len(names) > 3 and (i * 5 + k) % 3:
                    continue
                yield make(names, edges, i if len(names) > 3 else i * 4 + k)
    for j, (names, edges) in enumerate(FIVE):
        for k in range(6 if tier == "quick" else 60):
            spec = make(names, edges, i + 7 * k + j)
            if npol(spec) <= (256 if tier == "quick" else 4096):
                yield spec
    if tier == "thorough":
        for names in (["C", "D", "E", "U", "V"], ["D", "C", "E", "B", "U"]):
            roles = {n: "u" if n in "UV" else "d" for n in names}
            for edges in graphs(names, roles, lambda es: 3 <= len(es) <= 7):
                i += 1
                spec = make(names, edges, i)
                if npol(spec) <= 1024:
                    yield spec


def npol(spec):
    ref = Ref.from_spec(spec)
    n = 1
    for d in spec["dec"][0][1]:
        n *= len(ref.dom[d]) ** len(contexts(ref, d))
    return n


def recall(spec):
    edges = [tuple(e) for e in spec["edges"]]
    decs, utils = spec["dec"][0][1], spec["util"][0][1]
    rg = []
    for d in decs:
        fam = [d] + [u for u, v in edges if v == d]
        desc = descendants(edges, d)
        for e in decs:
            if e != d and any(dconnected(edges + [("^", e)], "^", u, fam) for u in utils if u in desc):
                rg.append((d, e))
    return is_acyclic(decs, rg)


def rule_of(m, d, ref):
    """the rule of d in m as {context: {outcome: prob}} in the order of the parents in ref"""
    dom, tab = cpd_table(m, d)
    if dom != list(ref.dom[d]):
        raise AssertionError(f"domain of {d} became {dom}, was {ref.dom[d]}")
    return {c: tab[frozenset(zip(ref.par[d], c))] for c in contexts(ref, d)}


def previous(m, spec, how):
    decs = spec["dec"][0][1]
    random.seed(7)
    if how == 1:
        m.impute_random_policy()
    elif how == 2:
        for d in decs:
            m.add_cpds(list(m.pure_decision_rules(d))[-1])
    elif how == 3:
        m.impute_optimal_policy()
    elif how == 4:  # only some of the decisions
        for d in decs[:1]:
            m.impute_random_decision(d)


def warm(m):
    m.solve()
    m.impute_optimal_policy()
    m.expected_utility({})
    m.remove_all_decision_rules()


def run_case(spec, rec):
    if spec.get("t") == "wide":
        return run_wide(spec, rec)
    rec.state(spec)
    rec.trace()
    decs, utils = spec["dec"][0][1], spec["util"][0][1]
    ref = Ref.from_spec(spec)
    best = max_eu(ref, decs, utils)
    suff = recall(spec)
    rec.hit("sufficient recall" if suff else "insufficient recall")
    small = npol(spec) <= 16

    def judge(m, what):
        rules_ = {d: rule_of(m, d, ref) for d in decs}
        r = ref
        for d in decs:
            for c, dist in rules_[d].items():
                if abs(sum(dist.values()) - 1) > 1e-9 or min(dist.values()) < 0:
                    rec.fail(f"{what}: improper rule for {d}: {dist}")
            r = r.with_rule(d, rules_[d])
        got = eu(r, utils)
        if got < best - 1e-7:
            rec.fail(f"{what}: expected utility {got}, optimum {best}")
        elif suff:  # optimal in every context that is possible, with later decisions as chosen and earlier ones fully mixed
            order = [n for n in ref.order if n in decs]
            for k, d in enumerate(order):
                q = ref
                for later in order[k + 1:]:
                    q = q.with_rule(later, rules_[later])
                for c in contexts(ref, d):
                    ctx = dict(zip(ref.par[d], c))
                    if q.prob(ctx) < 1e-12:
                        continue
                    by = {o: eu_ctx(q, utils, {**ctx, d: o}) for o in ref.dom[d]}
                    mine = sum(p * by[o] for o, p in rules_[d][c].items())
                    if mine < max(by.values()) - 1e-7:
                        rec.fail(f"{what}: {d} gets {mine} in context {ctx}, {max(by.values())} would be possible")
        return rules_

    prevs = [spec["prev"]] if not small else sorted({0, spec["prev"], 3})
    for how in prevs:
        m = edited(spec, warm)
        previous(m, spec, how)
        before = snapshot(m)
        random.seed(3)
        sol = m.solve()
        rec.step()
        e = snap_diff(before, snapshot(m))
        if e:
            rec.fail(f"solve changed the model: {e}")
        if set(sol) != set(decs):
            rec.fail(f"solve returned rules for {list(sol)}")
        c = m.copy()
        c.add_cpds(*sol.values())
        judge(c, f"solve after policies {how}")
        # in place
        random.seed(5)
        m.impute_optimal_policy()
        rec.step()
        judge(m, f"impute_optimal_policy after policies {how}")
        after = snapshot(m)
        for k in ("nodes", "edges", "parents", "roles", "domains"):
            if before[k] != after[k]:
                rec.fail(f"impute_optimal_policy changed {k}: {before[k]} -> {after[k]}")
        for v in spec["nodes"]:
            if v not in decs and before["tables"][v] != after["tables"][v]:
                rec.fail(f"impute_optimal_policy changed the table of {v}")
        if utils:
            x = m.expected_utility({})
            rec.step()
            if abs(x - best) > 1e-7:
                rec.fail(f"expected utility after imputing the optimal policy: {x}, optimum {best}")
        rec.hit(f"previous policy {how}")

    # one decision, given all others (all others: a fixed mixed rule, a pure rule, or the imputed optimum of before)
    for k, d in enumerate(decs):
        m = edited(spec, warm)
        r = ref
        for j, o in enumerate(decs):
            if o != d:
                if (j + k + spec["prev"]) % 2:
                    m.impute_random_decision(o)
                else:
                    rs = list(m.pure_decision_rules(o))
                    m.add_cpds(rs[len(rs) // 2])
                r = r.with_rule(o, rule_of(m, o, ref))
        want = max(eu(r.with_rule(d, rule), utils) for rule in rules(ref.dom[d], contexts(ref, d)))
        before = snapshot(m)
        m.impute_optimal_decision(d)
        rec.step()
        mine = rule_of(m, d, ref)
        got = eu(r.with_rule(d, mine), utils)
        if got < want - 1e-7:
            rec.fail(f"impute_optimal_decision({d}): expected utility {got}, possible {want}")
        for o in spec["nodes"]:
            if o != d and before["tables"][o] != snapshot_table(m, o):
                rec.fail(f"impute_optimal_decision({d}) changed the table of {o}")
        for c in contexts(ref, d):
            ctx = dict(zip(ref.par[d], c))
            if r.prob(ctx) > 1e-12:
                by = {o: eu_ctx(r, utils, {**ctx, d: o}) for o in ref.dom[d]}
                if sum(p * by[o] for o, p in mine[c].items()) < max(by.values()) - 1e-7:
                    rec.fail(f"impute_optimal_decision({d}) is not optimal in {ctx}: {mine[c]}, values {by}")
    if decs and len(decs) > 1:  # one after the other, twice in alternating order: never gets worse
        m = build(spec)
        m.impute_random_policy()
        last = None
        for d in [*decs, *decs[::-1]][: 4 if small else 3]:
            m.impute_optimal_decision(d)
            rec.step()
            r = ref
            for o in decs:
                r = r.with_rule(o, rule_of(m, o, ref))
            x = eu(r, utils)
            want = max(eu(r.with_rule(d, rule), utils) for rule in rules(ref.dom[d], contexts(ref, d)))
            if x < want - 1e-7:
                rec.fail(f"impute_optimal_decision({d}) in the sequence: expected utility {x}, possible {want}")
            if last is not None and x < last - 1e-7:
                rec.fail(f"imputing an optimal decision for {d} decreased the expected utility from {last} to {x}")
            last = x


def snapshot_table(m, v):
    return snapshot(m)["tables"][v]


def eu_ctx(ref, utils, ctx):
    return sum(ref.ev(u, ctx) for u in utils)
