"""C26: random influence diagrams satisfy the requested constraints"""
import mc.boot  # noqa: F401
import networkx as nx
from mc.build import cpd_table
from mc.choice import deviations, full
from mc.ref import descendants, is_acyclic
from mc.structs import G
from pycid import CID, MACID
from pycid.core.macid_base import MACIDBase
from pycid.random.random_cid import random_cid, random_cids
from pycid.random.random_macid import random_macid, random_macids
from pycid.random.random_macidbase import random_macidbase

ID = "C26"
META = dict(
    rule="a case is a set of parameters of one of the generators; it is run on every sequence of random draws up to a depth (later draws follow a fixed fair sequence), or on every sequence that differs from a fixed fair sequence "
    "at a bounded number of draws; every diagram is compared with the request: nodes, roles, leaves, paths, bounds, recall (by the reference implementation of relevance) and relationships; every run has to come to an end",
    bounds={
        "quick": "1 to 4 nodes, one and two agents, all distributions of at most 3 decisions and 2 utilities, with and without recall, densities 0.4 to 1, bounds 2 to 4, one attempt (all sequences of 7 draws) or up to 100 attempts; "
        "5 to 8 nodes with 1 deviation from several sequences; with relationships, and the functions that return lists",
        "thorough": "sequences of 9 draws, 2 deviations",
    },
    assumptions=["the standard generators random and numpy.random are the only sources of randomness"],
)
CHUNK = 1
TEAMS = [((1,), (1,)), ((2,), (1,)), ((1,), (2,)), ((2,), (2,)), ((3,), (1,)), ((0,), (1,)), ((1, 1), (1, 1)), ((2, 1), (1, 1)), ((1, 0), (1, 1)), ((2, 2), (1, 2)), ((1, 1, 1), (1, 1, 1)), ((0, 3), (1, 1)), ((1, 2), (2, 1))]


def cases(tier):
    more = tier == "thorough"
    i = 0
    for f in ("macid", "base", "cid"):  # a single node
        for util in ((1,), (0,)):
            for cpds in (False, True):
                for recall in (False, True):
                    yield dict(f=f, n=1, dec=(0,), util=util, recall=recall, dens=0.5, bound=2, tries=3, cpds=cpds, depth=5)
    for n in (2, 3, 4):
        for dec, util in TEAMS:
            if sum(dec) + sum(util) > n:
                continue
            for recall in (False, True):
                for dens in (0.4, 0.7, 1.0):
                    for bound in (2, 3):
                        for tries in (1, 30):
                            if tries == 30 and (bound == 3 or dens == 1.0):
                                continue
                            i += 1
                            yield dict(f=kind(i, dec), n=n, dec=dec, util=util, recall=recall, dens=dens, bound=bound, tries=tries, cpds=False, depth=(9 if more else 7) if n == 4 else 9)
    for n in (3, 4, 5, 6, 7, 8):
        for dec, util in TEAMS:
            if sum(dec) + sum(util) > n:
                continue
            for recall in (False, True):
                for dens in (0.4, 0.6, 0.8):
                    for bound in (2, 4):
                        for s in range(6 if more else 3 if recall and max(dec) > 1 else 1):
                            i += 1
                            yield dict(f=kind(i, dec), n=n, dec=dec, util=util, recall=recall, dens=dens, bound=bound, tries=[30, 20, 3][i % 3], cpds=n < 6 and i % 8 == 0, seed=i, dev=2 if more and n < 7 else 1)
    for f in ("cids", "macids"):
        for k in range(24):
            i += 1
            yield dict(f=f, n=(4 + k % 3, 5 + k % 3), dec=(1, 2 + k % 2), util=(1, 2), recall=bool(k % 2), dens=[0.4, 0.6][k % 2], count=[2, 1, 0][k % 3], cpds=k % 4 == 0, seed=i, dev=1)


def kind(i, dec):
    return ["macid", "base", "cid"][i % 3] if len(dec) == 1 else ["macid", "base"][i % 2]


def run_case(case, rec):
    f = case["f"]
    if f in ("cids", "macids"):
        fn = {"cids": random_cids, "macids": random_macids}[f]
        kw = dict(total_nodes_range=tuple(case["n"]), num_decs_range=tuple(case["dec"]), num_utils_range=tuple(case["util"]), add_cpds=case["cpds"], sufficient_recall=case["recall"], edge_density=case["dens"])
        kw["n_" + f] = case["count"]
    elif f == "cid":
        fn = random_cid
        kw = dict(number_of_nodes=case["n"], number_of_decisions=case["dec"][0], number_of_utilities=case["util"][0])
    else:
        fn = random_macid if f == "macid" else random_macidbase
        kw = dict(number_of_nodes=case["n"], agent_decisions_num=tuple(case["dec"]), agent_utilities_num=tuple(case["util"]))
    if f not in ("cids", "macids"):
        kw.update(add_cpds=case["cpds"], sufficient_recall=case["recall"], edge_density=case["dens"], max_in_degree=case["bound"], max_resampling_attempts=case["tries"])
    call = lambda: fn(**kw)
    limit = 20000 + 2000 * case.get("tries", 1000)
    if "depth" in case:
        runs = full(call, case["depth"], limit=limit)
    else:
        runs = deviations(call, case["seed"], case["dev"], window=25, limit=limit)
    seen = {}
    for trace, (k, res) in runs:
        rec.step()
        short = [c for _, c in trace[:40]]
        if k == "endless":
            rec.fail(f"{fn.__name__}({kw}) does not come to an end after the draws {short}")
            rec.stop = True
            return
        if k == "raise":
            if isinstance(res, ValueError):
                rec.hit("ValueError")
                continue
            rec.fail(f"{fn.__name__}({kw}) raises {res!r} after the draws {short}")
            return
        if f in ("cids", "macids"):
            if len(res) != case["count"]:
                rec.fail(f"{fn.__name__}({kw}) gives {len(res)} diagrams")
                return
            models = res
        else:
            models = [res]
        for m in models:
            key = (tuple(sorted(m.nodes)), tuple(sorted(m.edges)), repr(sorted((str(a), x) for a, x in m.agent_decisions.items())), repr(sorted((str(a), x) for a, x in m.agent_utilities.items())))
            if key not in seen:
                rec.state((f, case["n"], case["dec"], case["bound"] if "bound" in case else 0, key))
                rec.trace()
                seen[key] = judge(m, case)
                rec.hit("diagrams with recall" if case["recall"] else "diagrams")
            e = seen[key] or (relationships(m, case) if case["cpds"] or len(seen) < 3 else None)
            if e:
                rec.fail(f"{fn.__name__}({kw}) gives {sorted(m.edges)}, decisions {m.agent_decisions}, utilities {m.agent_utilities}: {e} (draws {short})")
                return
        if case["cpds"]:
            rec.hit("diagrams with relationships")


def judge(m, case):
    f = case["f"]
    want = {"cid": CID, "cids": CID, "macid": MACID, "macids": MACID, "base": MACIDBase}[f]
    if not isinstance(m, want):
        return f"a {type(m).__name__}"
    nodes, edges = list(m.nodes), list(m.edges)
    dec = {a: list(x) for a, x in m.agent_decisions.items()}
    util = {a: list(x) for a, x in m.agent_utilities.items()}
    if f in ("cids", "macids"):
        if not case["n"][0] <= len(nodes) <= case["n"][1]:
            return f"{len(nodes)} nodes"
        for what, x in (("dec", dec), ("util", util)):
            for a in x:
                if not case[what][0] <= len(x[a]) <= case[what][1]:
                    return f"{len(x[a])} {what} of agent {a}"
        recall = True
        bound = 4
    else:
        if len(nodes) != case["n"]:
            return f"{len(nodes)} nodes"
        for what, x in (("dec", dec), ("util", util)):
            if sorted(len(v) for v in x.values() if v) != sorted(k for k in case[what] if k):
                return f"numbers of {what} are {x}"
        a0 = sorted((len(dec.get(a, [])), len(util.get(a, []))) for a in set(dec) | set(util))
        if [p for p in a0 if p != (0, 0)] != sorted(p for p in zip(case["dec"], case["util"]) if p != (0, 0)):
            return f"agents have {a0} decisions and utilities"
        recall, bound = case["recall"], case["bound"]
    if not is_acyclic(nodes, edges):
        return "cyclic"
    roles = [d for x in dec.values() for d in x] + [u for x in util.values() for u in x]
    if len(set(roles)) != len(roles) or not set(roles) <= set(nodes):
        return "a node has two roles or does not exist"
    for n in nodes:
        if sum(v == n for _, v in edges) > bound:
            return f"{n} has more than {bound} parents"
    for a, us in util.items():
        for u in us:
            if any(x == u for x, _ in edges):
                return f"the utility {u} has children"
    for a, ds in dec.items():
        for d in ds:
            if not descendants(edges, d) & set(util.get(a, [])):
                return f"no path from {d} to a utility of agent {a}"
    if recall:
        g = G(dict(nodes=nodes, edges=edges, dec=[[a, dec.get(a, [])] for a in sorted(set(dec) | set(util), key=str)], util=[[a, util.get(a, [])] for a in sorted(set(dec) | set(util), key=str)]))
        if not g.recall():
            return "insufficient recall"


def relationships(m, case):
    if not case["cpds"]:
        if any(m.get_cpds(n) is not None for n in m.nodes):
            return "has relationships that were not requested"
        return None
    if not m.check_model():
        return "check_model fails"
    undecided = m.copy_without_cpds()
    del undecided
    for n in m.nodes:
        t = cpd_table(m, n)
        if t is None:
            return f"{n} has no relationship"
        dom, tab = t
        if len(dom) < 1 or list(m.model.domain[n]) != dom:
            return f"domain of {n} is {m.model.domain.get(n)}"
        for c, dist in tab.items():
            if abs(sum(dist.values()) - 1) > 1e-6 or min(dist.values()) < 0:
                return f"P({n} | {dict(c)}) = {dist}"
    for d in m.decisions:
        if type(m.get_cpds(d)).__name__ != "DecisionDomain":
            return f"the decision {d} is not undecided"
    return None


def finish(total, tier):
    from mc.harness import CheckError

    for k in ("diagrams", "diagrams with recall", "diagrams with relationships", "ValueError"):
        if total.hits.get(k, 0) < 1:
            raise CheckError("vacuous: " + k)
