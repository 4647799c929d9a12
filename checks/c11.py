"""C11: pure decision rules and policies are enumerated completely, without repetition"""
import itertools

import mc.boot  # noqa: F401
from mc.build import cpd_table, edited

ID = "C11"
META = dict(
    rule="a case is one decision (or a list of decisions) with observations; all produced rules are read back as functions from the named "
    "outcomes of the observations and compared with the set of all functions; each is added to the model (also while the "
    "enumeration is running) and the resulting table is compared with the function; policies are compared with the product in the order of the decisions",
    bounds={
        "quick": "decisions with 0-3 observations, all combinations of 6 domains with up to 729 rules, observations given by dictionaries, functions, tables "
        "and other decisions; all lists of up to 3 of 3 decisions in all orders",
        "thorough": "up to 6561 rules, 8 domains",
    },
)
CHUNK = 1
DOMS = [[0, 1], [1, 0], ["b", "a"], [2, -1, 0.5], [0, 1, 2], [7], ["y", "x", "z"], [-3, 5]]


def make(pdoms, ddom, kinds, kind, order):
    names = ["P", "B", "Q"][: len(pdoms)]
    rel = []
    for n, d, k in zip(names, pdoms, kinds):
        if k == "dec":
            rel.append([n, ["dec", d]])
        elif k == "const":
            rel.append([n, ["const", [[o, 1 / len(d)] for o in d], d]])
        elif k == "tab":
            rel.append([n, ["tab", d, [], [[1 / len(d)] * len(d)], []]])
        else:
            rel.append([n, ["fun", "lambda: " + repr({o: 1 / len(d) for o in d})]])
    rel.append(["A", ["dec", ddom]])
    edges = [[n, "A"] for n in (names if order else names[::-1])]
    decs = ["A"] + [n for n, k in zip(names, kinds) if k == "dec"]
    nodes = ["A", *names] if order else [*names, "A"]
    return dict(t="rules", kind=kind, nodes=nodes, edges=edges, dec=[[0, decs]], util=[[0, []]], rel=rel)


def cases(tier):
    top, ndom = (729, 6) if tier == "quick" else (6561, 8)
    i = 0
    for k in range(4):
        for pd in itertools.product(range(ndom), repeat=k):
            if k == 3 and len(set(pd)) < 2 and tier == "quick":
                continue
            for dd in range(ndom):
                n = 1
                for p in pd:
                    n *= len(DOMS[p])
                if len(DOMS[dd]) ** n > top:
                    continue
                i += 1
                if tier == "quick" and k == 3 and i % 3:
                    continue
                kinds = [["const", "dec", "tab", "fun"][(i + j) % 4] for j in range(k)]
                pdoms = [DOMS[p] if kk != "fun" else sorted(DOMS[p]) for p, kk in zip(pd, kinds)]
                yield make(pdoms, DOMS[dd], kinds, ["CID", "MACID", "MACIDBase"][i % 3], i % 2)
    for ags in ([0, 0, 0], [0, 1, 1], ["x", 0, "y"]):
        for kind in ("CID", "MACID", "MACIDBase"):
            if kind == "CID" and ags != [0, 0, 0]:
                continue
            dec = {}
            for d, a in zip(["D", "C", "E"], ags):
                dec.setdefault(a, []).append(d)
            yield dict(t="policies", kind=kind, nodes=["E", "D", "C", "U"], edges=[["D", "C"], ["E", "U"], ["C", "U"]],
                       dec=[[a, ds] for a, ds in dec.items()], util=[[a, ["U"] if a == 0 else []] for a in dec],
                       rel=[["D", ["dec", [1, 0]]], ["C", ["dec", ["v", "u"]]], ["E", ["dec", [0, 4, 2]]], ["U", ["fun", "lambda E, C: E"]]])


def function(m, d):
    """the table of d as a function: ((context, outcome), ...); None if it is not deterministic"""
    dom, tab = cpd_table(m, d)
    out = []
    for c, dist in tab.items():
        best = [o for o, p in dist.items() if abs(p - 1) < 1e-12]
        if len(best) != 1 or any(abs(p) > 1e-12 for o, p in dist.items() if o not in best):
            return None, dom
        out.append((tuple(sorted(c, key=lambda x: x[0])), best[0]))
    return tuple(sorted(out, key=str)), dom


def all_functions(m, d, pdoms, ddom):
    names = sorted(pdoms)
    ctxs = [tuple(zip(names, c)) for c in itertools.product(*[pdoms[n] for n in names])]
    return {tuple(sorted(zip(ctxs, outs), key=str)) for outs in itertools.product(ddom, repeat=len(ctxs))}


def warm(m):
    for d in m.decisions:
        list(itertools.islice(m.pure_decision_rules(d), 200))
    list(itertools.islice(m.pure_policies(m.decisions), 50))


def run_case(spec, rec):
    rec.state(spec)
    rec.trace()
    if spec["t"] == "policies":
        return case_policies(spec, rec)
    m = edited(spec, warm, 2)
    parents = [u for u, v in spec["edges"]]
    pdoms = {p: list(m.model.domain[p]) for p in parents}
    ddom = list(m.model.domain["A"])
    want = all_functions(m, "A", pdoms, ddom)
    c = m.copy()
    got, rules = [], []
    for rule in m.pure_decision_rules("A"):
        rules.append(rule)
        c.add_cpds(rule)
        f, dom = function(c, "A")
        if f is None or dom != ddom:
            rec.fail(f"a rule is not a pure rule over {ddom}: {cpd_table(c, 'A')}")
            return
        got.append(f)
        rec.step()
    if len(got) != len(set(got)):
        rec.fail(f"{len(got) - len(set(got))} of {len(got)} rules are repeated")
    if set(got) != want:
        rec.fail(f"{len(want - set(got))} rules are missing, {len(set(got) - want)} are none")
    rec.hit(f"{len(parents)} observations")
    # adding each rule to the very model while the enumeration is running, and later in another order
    again = []
    for rule in m.pure_decision_rules("A"):
        m.add_cpds(rule)
        again.append(function(m, "A")[0])
        rec.step()
    if again != got:
        rec.fail("the rules are different when they are added to the model during the enumeration")
    for rule, f in list(zip(rules, got))[:: -max(1, len(rules) // 20)]:
        m.add_cpds(rule)
        rec.step()
        if function(m, "A")[0] != f:
            rec.fail("a rule behaves differently when it is added later")
        fn = {tuple(sorted(ctx, key=lambda x: x[0])): o for ctx, o in f}
        for ctx, o in fn.items():
            r = rule.stochastic_function(**dict(ctx)) if hasattr(rule, "stochastic_function") else {o: 1}
            if {k: v for k, v in r.items() if v} != {o: 1}:
                rec.fail(f"the function of the rule gives {r} in {ctx}, its table {o}")


def case_policies(spec, rec):
    m = edited(spec, warm, 2)
    par = {"D": {}, "C": {"D": [1, 0]}, "E": {}}
    dom = {"D": [1, 0], "C": ["v", "u"], "E": [0, 4, 2]}
    for k in range(4):
        for ds in itertools.permutations(["D", "C", "E"], k):
            want = set(itertools.product(*[all_functions(m, d, par[d], dom[d]) for d in ds]))
            methods = [("pure_policies", m.pure_policies)] + ([("joint_pure_policies", m.joint_pure_policies)] if spec["kind"] == "MACID" else [])
            for name, f in methods:
                got = []
                for policy in f(list(ds)):
                    rec.step()
                    if [c.variable for c in policy] != list(ds):
                        rec.fail(f"{name}({ds}) lists rules of {[c.variable for c in policy]}")
                        return
                    c = m.copy()
                    c.add_cpds(*policy)
                    got.append(tuple(function(c, d)[0] for d in ds))
                    if spec["kind"] == "MACID":
                        a = m.policy_profile_assignment(policy)
                        if set(a) != {"D", "C", "E"} or any(a[d] is not p for d, p in zip(ds, policy)) or any(a[d] is not None for d in a if d not in ds):
                            rec.fail(f"policy_profile_assignment of a policy of {ds}: {a}")
                if len(got) != len(set(got)) or set(got) != want:
                    rec.fail(f"{name}({ds}): {len(got)} policies, {len(set(got))} different, {len(want)} expected")
                rec.hit(f"policies of {len(ds)} decisions")
