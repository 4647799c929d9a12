"""C12: the optimal pure policies are exactly the maximisers of expected utility"""
import itertools

import mc.boot  # noqa: F401
from checks.c11 import function
from mc.build import edited, snap_diff, snapshot
from mc.models import parametrise
from mc.ref import Ref, contexts, dconnected, descendants, eu, rules

ID = "C12"
META = dict(
    rule="a case is one parameterised influence diagram, a list of decisions of one agent and rules for other decisions; the returned policies, read back as "
    "functions from named contexts to outcomes, are compared as a set with the brute-force maximisers over the product of all pure rules",
    bounds={
        "quick": "all graphs over chance/decision/utility skeletons with up to 5 nodes from two families (one or two optimised decisions; a third decision of the "
        "same or another agent that is given, or undecided and irrelevant; decisions of which both, one or none rely on an undecided one of another agent); all 0/1 utility tables over up to 4 contexts for the smallest graphs, generic, "
        "tie-producing and zero-sum-around-zero utilities for the others; up to 64 policies",
        "thorough": "up to 256 policies, all graphs of the families, 3-valued domains",
    },
    assumptions=["models whose best and second-best expected utilities differ by less than 1e-7 but are not equal in exact arithmetic are not generated"],
)
CHUNK = 2

UT = [  # utility tables: value of the j-th context
    lambda j, n: [3, -1, 4, 0, 2, 7, -5, 1][j % 8],
    lambda j, n: [0, 1, 1, 0][j % 4],
    lambda j, n: 2,
    lambda j, n: [0.3, -0.3, 0.1, -0.1][j % 4],
]


def util_rel(parents, dom, f):
    ctxs = list(itertools.product(*[dom[p] for p in parents]))
    tab = {c: f(j, len(ctxs)) for j, c in enumerate(ctxs)}
    args = ", ".join(parents)
    tup = "(" + args + ("," if len(parents) == 1 else "") + ")"
    return ["fun", f"lambda {args}: {tab!r}[{tup}]"] if parents else ["dict", [[tab[()], 1]]]


def fill(nodes, edges, roles, ddoms, ut, cf, salt=0, given=()):
    """relationships of all nodes in topological order; utilities by table generator, chance nodes generic"""
    from mc.models import rel_domain, rel_for
    from mc.ref import topo

    dom, rel = {}, []
    par = {n: [u for u, v in edges if v == n] for n in nodes}
    for v in topo(nodes, [tuple(e) for e in edges]):
        if roles[v] == "d":
            r = ["dec", ddoms[v]]
            dom[v] = list(ddoms[v])
            if v in given:
                rel.append([v, ["dec", ddoms[v]]])
                w = {c: {o: p for o, p in zip(ddoms[v], [0.25, 0.75, 0.0] if j % 2 else [0.6, 0.4, 0.0])} for j, c in enumerate(itertools.product(*[dom[p] for p in par[v]]))}
                args = ", ".join(par[v])
                tup = "(" + args + ("," if len(par[v]) == 1 else "") + ")"
                r = ["sf", f"lambda {args}: {w!r}[{tup}]", list(ddoms[v])]
                rel.pop()
        elif roles[v] == "u":
            r = util_rel(par[v], dom, ut[v] if isinstance(ut, dict) else ut)
            dom[v] = rel_domain(r, par[v], dom)
        else:
            r = rel_for(cf, nodes.index(v), v, par[v], dom, salt)
            dom[v] = rel_domain(r, par[v], dom)
        rel.append([v, r])
    return rel


def graphs(nodes, roles, keep):
    pairs = [(u, v) for i, u in enumerate(nodes) for v in nodes[i + 1:] if not (roles[u] == "u")]
    for k in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, k):
            if keep(es):
                yield [list(e) for e in es]


def cases(tier):
    top = 64 if tier == "quick" else 256
    out = []
    # (A) all 0/1/... utility tables on the smallest graphs
    for edges in ([["D", "U"]], [["C", "U"], ["D", "U"]], [["C", "D"], ["C", "U"], ["D", "U"]], [["C", "D"], ["D", "U"]],
                  [["D", "E"], ["D", "U"], ["E", "U"]], [["D", "U"], ["E", "U"]], [["D", "C"], ["C", "E"], ["E", "U"], ["D", "U"]]):
        nodes = sorted({n for e in edges for n in e}, key="CDEU".index)
        roles = {n: "d" if n in "DE" else "u" if n == "U" else "c" for n in nodes}
        npar = sum(v == "U" for u, v in edges)
        vals = [0, 1, -1] if npar < 2 else [0, 1]
        for k, tab in enumerate(itertools.product(vals, repeat=2 ** npar)):
            for cf in ("b", "z") if "C" in nodes else ("b",):
                if tier == "quick" and cf == "z" and k % 4:
                    continue
                rel = fill(nodes, edges, roles, {"D": [0, 1], "E": ["y", "x"]}, lambda j, n: tab[j], cf)
                yield dict(kind="CID" if k % 2 else "MACID", nodes=nodes[::-1] if k % 3 else nodes, edges=edges, dec=[[0, [n for n in nodes if roles[n] == "d"]]],
                           util=[[0, ["U"]]], rel=rel, opt=[n for n in nodes if roles[n] == "d"])
                if k % 3 == 1:  # utilities that are nearly the same (relative differences of about 1e-7)
                    rel = fill(nodes, edges, roles, {"D": [0, 1], "E": ["y", "x"]}, lambda j, n: 1000 + tab[j] * 0.0005, cf)
                    yield dict(kind="MACID" if k % 2 else "CID", nodes=nodes, edges=edges, dec=[[0, [n for n in nodes if roles[n] == "d"]]],
                               util=[[0, ["U"]]], rel=rel, opt=[n for n in nodes if roles[n] == "d"])
    # (B) one agent, all graphs over C, D, E, U (and V)
    i = 0
    for names in (["C", "D", "U"], ["C", "D", "E", "U"], ["D", "C", "E", "U"], ["D", "E", "U", "V"]):
        roles = {n: "d" if n in "DE" else "u" if n in "UV" else "c" for n in names}
        for edges in graphs(names, roles, lambda es: sum(v == "U" for u, v in es) > 0):
            for uk, u in enumerate(UT):
                i += 1
                if tier == "quick" and len(names) > 3 and (i * 7 + uk) % 3:
                    continue
                ut = {"U": u, "V": UT[(uk + 1) % 4]}
                rel = fill(names, edges, roles, {"D": [1, 0], "E": ["b", "a"] if i % 2 else [0, 1]}, ut, "bnz"[i % 3], i % 4)
                decs = [n for n in names if roles[n] == "d"]
                spec = dict(kind=["CID", "MACID", "MACIDBase"][i % 3], nodes=names if i % 2 else names[::-1], edges=edges, dec=[[0, decs]],
                            util=[[0, [n for n in names if roles[n] == "u"]]], rel=rel, opt=decs if i % 2 else decs[::-1])
                if policies(spec) <= top:
                    yield spec
                if len(decs) == 2 and i % 2:  # optimise one decision; the other one is given or undecided and irrelevant
                    for k, o in enumerate(decs):
                        given = [d for d in decs if d != o]
                        s2 = dict(spec, opt=[o], rel=fill(names, edges, roles, {"D": [1, 0], "E": [2, 5]}, ut, "b", i % 4, given if (i // 2) % 2 else ()), was=i % 3)
                        if policies(s2) <= top and (given_ok(s2)):
                            yield s2
    # (C) two agents: D (agent 0), F (agent 1), U (agent 0), V (agent 1); F given or irrelevant
    names = ["D", "F", "U", "V"]
    for names in (["D", "F", "U", "V"], ["F", "C", "D", "U", "V"]):
        roles = {n: "d" if n in "DF" else "u" if n in "UV" else "c" for n in names}
        for edges in graphs(names, roles, lambda es: sum(v == "U" for u, v in es) > 0 and sum(v == "V" for u, v in es) > 0 and len(es) >= len(names) - 2):
            i += 1
            if tier == "quick" and len(names) > 4 and i % 4:
                continue
            for opt, given in ((["D"], ["F"]), (["F"], ["D"]), (["D"], [])):
                spec = dict(kind=["MACID", "MACIDBase"][i % 2], nodes=names, edges=edges, dec=[["x", ["D"]], [1, ["F"]]], util=[["x", ["U"]], [1, ["V"]]],
                            rel=fill(names, edges, roles, {"D": ["l", "k"], "F": [0, 1, 2]}, {"U": UT[i % 4], "V": UT[(i // 4) % 4]}, "b", i % 4, given), opt=opt, was=i % 3)
                if policies(spec) <= top and given_ok(spec):
                    yield spec
    # (D) two decisions of an agent, of which both, one or none rely on a decision F of somebody else
    names = ["D", "E", "F", "U", "W"]
    roles = {n: "d" if n in "DEF" else "u" for n in names}
    for order in (["D", "F", "E", "U", "W"], ["F", "E", "D", "W", "U"]):
        for edges in graphs(order, roles, lambda es: ("D", "U") in es and ("E", "W") in es and len(es) < 6 + (tier == "thorough")):
            i += 1
            for opt in (["D", "E"], ["E", "D"], ["E"]) if tier == "thorough" else [[["D", "E"], ["E", "D"], ["E"]][i % 3]]:
                for given in ([], ["F"]) if tier == "thorough" else [[["F"], []][i % 5 > 0]]:
                    given = given + [d for d in "DE" if d not in opt]
                    spec = dict(kind=["MACID", "MACIDBase"][i % 2], nodes=order if i % 3 else order[::-1], edges=edges, dec=[["y", ["F"]], ["x", ["D", "E"]]], util=[["x", ["U", "W"]]],
                                rel=fill(order, edges, roles, {"D": [1, 0], "F": ["q", "p"], "E": [0, 1]}, {"U": UT[i % 2], "W": UT[(i // 2) % 2]}, "b", i % 4, given), opt=opt, was=i % 3)
                    if policies(spec) <= top:
                        yield spec


def policies(spec):
    ref = Ref.from_spec(spec)
    n = 1
    for d in spec["opt"]:
        n *= len(ref.dom[d]) ** len(contexts(ref, d))
    return n


def sreach(spec, d, node):
    """is node s-reachable from d?"""
    edges = [tuple(e) for e in spec["edges"]]
    agent = next(a for a, ds in spec["dec"] if d in ds)
    utils = dict((a, us) for a, us in spec["util"])[agent]
    fam = [d] + [u for u, v in edges if v == d]
    desc = descendants(edges, d)
    ext = edges + [("^", node)]
    return any(dconnected(ext, "^", u, fam) for u in utils if u in desc)


def given_ok(spec):
    """are all other decisions given, or irrelevant for the optimised ones?"""
    rel = dict((v, r) for v, r in spec["rel"])
    for a, ds in spec["dec"]:
        for d in ds:
            if d not in spec["opt"] and rel[d][0] == "dec" and any(sreach(spec, o, d) for o in spec["opt"]):
                return False
    return True


def run_case(spec, rec):
    rec.state(spec)
    rec.trace()
    opt = spec["opt"]
    agent = next(a for a, ds in spec["dec"] if opt[0] in ds)
    utils = dict((a, us) for a, us in spec["util"])[agent]
    m = edited(spec, lambda m: [m.optimal_pure_policies(list(opt)), m.expected_utility({}, agent=agent)])
    if spec.get("was") == 1:
        for d in opt:
            m.impute_random_decision(d)
    elif spec.get("was") == 2:
        for d in opt:
            m.add_cpds(next(iter(m.pure_decision_rules(d))))
    if not given_ok(spec):
        open_ = [d for a, ds in spec["dec"] for d in ds if d not in opt and dict(spec["rel"])[d][0] == "dec" and any(sreach(spec, o, d) for o in opt)]
        if not any(u in descendants([tuple(e) for e in spec["edges"]], d) for d in open_ for u in utils):
            return
        rec.step()
        try:
            m.optimal_pure_policies(list(opt))
            rec.fail(f"optimal policies of {opt} are reported, although they rely on {open_}, which have no rules")
        except ValueError:
            rec.hit("relies on an open decision: refused")
        return
    ref = Ref.from_spec(spec)
    best, want = -1e9, set()
    for prof in itertools.product(*[list(rules(ref.dom[d], contexts(ref, d))) for d in opt]):
        r = ref
        for d, rule in zip(opt, prof):
            r = r.with_rule(d, rule)
        x = eu(r, utils)
        key = tuple(
            tuple(sorted(((tuple(sorted(zip(ref.par[d], c), key=lambda y: y[0])), max(dist, key=dist.get)) for c, dist in rule.items()), key=str))
            for d, rule in sorted(zip(opt, prof), key=lambda y: y[0])
        )
        if x > best + 1e-9:
            best, want = x, {key}
        elif x > best - 1e-9:
            want.add(key)

    def read(policy):
        c = m.copy()
        c.add_cpds(*policy)
        if sorted(r.variable for r in policy) != sorted(opt):
            rec.fail(f"a policy of {opt} consists of rules of {[r.variable for r in policy]}")
        return tuple(function(c, d)[0] for d in sorted(opt))

    before = snapshot(m)
    ways = [("optimal_pure_policies", lambda: m.optimal_pure_policies(list(opt)))]
    if len(opt) == 1:
        ways.append(("optimal_pure_decision_rules", lambda: [(r,) for r in m.optimal_pure_decision_rules(opt[0])]))
    if spec["kind"] == "CID" and len(opt) == sum(len(ds) for a, ds in spec["dec"]):
        ways.append(("optimal_policies", m.optimal_policies))
    if policies(spec) > 16:
        ways = ways[-1:]
    for name, f in ways:
        policies_ = f()
        rec.step()
        got = [read(p) for p in policies_]
        if len(got) != len(set(got)):
            rec.fail(f"{name}({opt}) lists a policy twice")
        if set(got) != want:
            rec.fail(f"{name}({opt}): {len(set(got))} policies, expected {len(want)}; missing {sorted(want - set(got), key=str)[:2]}, not optimal {sorted(set(got) - want, key=str)[:2]}")
    rec.hit("unique optimum" if len(want) == 1 else "ties")
    rec.hit(f"{len(opt)} optimised, {sum(len(ds) for a, ds in spec['dec']) - len(opt)} other decisions")
    e = snap_diff(before, snapshot(m))
    if e:
        rec.fail(f"optimisation changed the model: {e}")
    if len(spec["dec"]) > 1:
        rec.step()
        try:
            m.optimal_pure_policies(["D", "F"])
            rec.fail("decisions of different agents are optimised jointly")
        except ValueError:
            pass


def finish(total, tier):
    if total.hits.get("ties", 0) < 20 or total.hits.get("unique optimum", 0) < 20:
        from mc.harness import CheckError

        raise CheckError("vacuous: too few ties or unique optima")
