"""C24: subgames preserve what matters for the decisions in them"""
import itertools

import mc.boot  # noqa: F401
from checks.c21 import SIX, graphs, make
from mc.build import cpd_table, edited, snap_diff, snapshot
from mc.ref import Ref, bounded_rules, contexts, descendants
from mc.structs import G, sccs
from pycid.core.cpd import StochasticFunctionCPD

ID = "C24"
META = dict(
    rule="a case is one parameterised diagram, optionally with rules given for some decisions; for every set of decisions closed under relevance the subgame is created, its structure is "
    "compared with the diagram, all its tables are read back, and for every pure joint policy of its decisions (or, if there are more than 64, every deviation from two of them; of decisions with more than 64 rules those that are constant except in one context) and every context of every decision the "
    "differences of the agent's expected utility between outcomes are compared by brute force",
    bounds={
        "quick": "all graphs over {D,U}, {C,D,U}, {C,D,E,U,V}, {D,E,F,U,V}, {C,B,D,U}, {D,C,E,U} (leaf utilities) with one variant and nine six-node structures with 14 variants, all graphs over {C,D,B,E,U} and {D,C,E,U,V} with at most 6 edges: rotating owners, domains, kinds of "
        "chance nodes, utilities, orders, given rules; at most 64 joint policies, otherwise deviations",
        "thorough": "four variants of each, 100 of the six-node structures, all graphs over the five-node skeletons",
    },
    assumptions=["utilities have no children", "contexts that have probability zero in the diagram or in the subgame are not judged"],
)
CHUNK = 2


def cases(tier):
    i = 0
    for names in (["D", "U"], ["C", "D", "U"], ["C", "B", "D", "U"], ["D", "C", "E", "U"], ["C", "D", "E", "U", "V"], ["D", "E", "F", "U", "V"]):
        for edges in graphs(names):
            for k in range(4 if tier == "thorough" or len(names) < 4 else 1):
                i += 1
                yield dict(make(names, edges, i), keep=i % 3)
    for j, (names, edges) in enumerate(SIX):
        for k in range(14 if tier == "quick" else 100):
            yield dict(make(names, edges, 11 * k + j), keep=k % 3)
    for names, top in ((["C", "D", "B", "E", "U"], 6), (["D", "C", "E", "U", "V"], 6)):
        for edges in graphs(names):
            if len(edges) <= (top if tier == "quick" else 10):
                i += 1
                yield dict(make(names, edges, i), keep=i % 3)


def closed_sets(g):
    rel = g.relevance()
    comps = sccs(g.decs, sorted(rel))
    for k in range(1, len(comps) + 1):
        for cs in itertools.combinations(comps, k):
            s = set().union(*cs)
            if all(b in s for a, b in rel if a in s):
                yield s


def read(m, rules_):
    """the reference model of all tables of m; decisions follow the given rules"""
    nodes = list(m.nodes)
    edges = list(m.edges)
    par = {n: list(m.get_parents(n)) for n in nodes}
    dom, cpt = {}, {}
    for n in nodes:
        dom[n], tab = cpd_table(m, n)
        cpt[n] = (par[n], tab)
    out = {}
    for n in nodes:
        out[n] = {c: cpt[n][1][frozenset(zip(par[n], c))] for c in itertools.product(*[dom[p] for p in par[n]])}
    return Ref(nodes, edges, dom, out, par)


def warm(m):
    for ds in m.decs_in_each_maid_subgame():
        m.create_subgame(ds)


def run_case(spec, rec):
    rec.state(spec)
    rec.trace()
    g = G(spec)
    spec = dict(spec, kind="MACID")
    m = edited(spec, warm)
    ref = Ref.from_spec(spec)
    given = set()
    base = ref
    for j, d in enumerate(g.decs):
        if spec["keep"] == 1 and j == 0 or spec["keep"] == 2:
            given.add(d)
            r = {c: {o: (1 + (q + z) % 3) for z, o in enumerate(ref.dom[d])} for q, c in enumerate(contexts(ref, d))}
            for dist in r.values():
                t = sum(dist.values())
                for o in dist:
                    dist[o] /= t
            ps = ref.par[d]
            m.add_cpds(StochasticFunctionCPD(d, (lambda r=r, ps=ps: lambda **pv: r[tuple(pv[p] for p in ps)])(), m, domain=list(ref.dom[d])))
        else:
            r = {c: {o: 1 / len(ref.dom[d]) for o in ref.dom[d]} for c in contexts(ref, d)}
        base = base.with_rule(d, r)
    before = snapshot(m)
    for active in closed_sets(g):
        for arg in [sorted(active), iter(sorted(active))] if len(active) < 2 else [tuple(sorted(active)), set(active)]:
            sg = m.create_subgame(arg)
            rec.step()
            judge(spec, rec, g, m, ref, base, active, sg)
        e = snap_diff(before, snapshot(m))
        if e:
            rec.fail(f"create_subgame({active}) changed the diagram: {e}")


def judge(spec, rec, g, m, ref, base, active, sg):
    what = f"subgame of {sorted(active)}"
    rec.hit("proper subgames" if active != set(g.decs) else "whole games")
    if set(sg.decisions) != active or {d: sg.decision_agent[d] for d in active} != {d: g.agent[d] for d in active}:
        rec.fail(f"{what}: decisions {dict(sg.decision_agent)}")
        return
    for d in active:
        if d not in sg.nodes:
            rec.fail(f"{what}: node {d} is missing")
            return
        if sorted(sg.get_parents(d)) != sorted(g.par(d)):
            rec.fail(f"{what}: observations of {d} are {sg.get_parents(d)}")
            return
        for v in [d, *g.par(d)]:
            if list(sg.model.domain[v]) != list(ref.dom[v]):
                rec.fail(f"{what}: domain of {v} is {sg.model.domain[v]}")
                return
        a = g.agent[d]
        for u in g.util[a]:
            if u in descendants(g.edges, d) and u not in sg.agent_utilities.get(a, []):
                rec.fail(f"{what}: utility {u} of agent {a} is missing: {sg.agent_utilities}")
                return
    for a, us in sg.agent_utilities.items():
        if not set(us) <= set(g.util.get(a, [])):
            rec.fail(f"{what}: utilities of agent {a} are {us}")
            return
    if any(e not in g.edges for e in sg.edges):
        rec.fail(f"{what}: new edges in {list(sg.edges)}")
        return
    sub = read(sg, {})
    for v in sub.nodes:
        if list(sub.dom[v]) != list(ref.dom[v]):
            rec.fail(f"{what}: domain of {v} is {sub.dom[v]}, was {ref.dom[v]}")
            return
        for c, dist in sub.cpt[v].items():
            if abs(sum(dist.values()) - 1) > 1e-9:
                rec.fail(f"{what}: P({v} | {c}) = {dist}")
                return
    acts = [d for d in g.decs if d in active]
    spaces = [bounded_rules(ref.dom[d], contexts(ref, d), 64) for d in acts]
    n = 1
    for s in spaces:
        n *= len(s)
    if n <= 64:
        profs = itertools.product(*spaces)
    else:
        profs = []
        for k, s in enumerate(spaces):
            for o in (0, -1):
                b = [x[o] for x in spaces]
                for rule in s:
                    profs.append((*b[:k], rule, *b[k + 1:]))
        rec.hit("deviations only")
    for prof in profs:
        for d in acts:
            # d itself is fully mixed, the others follow the profile
            full, part = base, sub
            for e, rule in zip(acts, prof):
                if e == d:
                    rule = {c: {o: 1 / len(ref.dom[e]) for o in ref.dom[e]} for c in contexts(ref, e)}
                full = full.with_rule(e, rule)
                part = part.with_rule(e, {c: rule[tuple(dict(zip(part.par[e], c))[p] for p in ref.par[e])] for c in contexts(part, e)})
            fu = g.util[g.agent[d]]
            pu = sg.agent_utilities.get(g.agent[d], [])
            vf, vp = values(full, d, fu), values(part, d, pu)
            for c in contexts(ref, d):
                k = frozenset(zip(ref.par[d], c))
                if k not in vf or k not in vp:
                    rec.hit("contexts of probability zero")
                    continue
                f, p = vf[k], vp[k]
                rec.step()
                o0 = ref.dom[d][0]
                for o in ref.dom[d][1:]:
                    if abs((f[o] - f[o0]) - (p[o] - p[o0])) > 1e-7 * max(1, abs(f[o] - f[o0])):
                        rec.fail(f"{what}: in context {dict(k)} the outcome {o} of {d} is better than {o0} by {p[o] - p[o0]}, in the diagram by {f[o] - f[o0]} (others play {prof})")
                        return
                    if abs(f[o] - f[o0]) > 1e-9:
                        rec.hit("differences")


def values(r, d, utils):
    """{context: {outcome of d: expected sum of utils}}"""
    acc = {}
    for a, p in r.joint():
        k = frozenset((q, a[q]) for q in r.par[d])
        t = acc.setdefault(k, {}).setdefault(a[d], [0.0, 0.0])
        t[0] += p
        t[1] += p * sum(a[u] for u in utils)
    return {k: {o: (v[1] / v[0]) for o, v in x.items()} for k, x in acc.items()}


def finish(total, tier):
    from mc.harness import CheckError

    for k in ("proper subgames", "whole games", "differences"):
        if total.hits.get(k, 0) < 50:
            raise CheckError("vacuous: " + k)
