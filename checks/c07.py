"""C07: copies are faithful and independent"""
import itertools
import random

import mc.boot  # noqa: F401
from mc import ref
from mc.build import add_rel, build, cpd_table, dist_diff, factor_dist
from mc.harness import CaseTimeout
from pycid.core.cpd import DecisionDomain

ID = "C07"
META = dict(
    rule="a model is copied (with and without relationships, and copies are copied) and all sequences of edits, each applied to the "
    "original or to the copy, are executed; after each sequence either side has to equal a model that was never copied and "
    "received only the edits of that side (structure, roles, domains, tables, decided or undecided, and answers)",
    bounds={
        "quick": "10 models (all classes; undecided, partly specified, intervened, imputed, agents with only decisions or only "
        "utilities), 10-20 edits each: all interleaved sequences of 2 edits, all sequences of 3 edits (without imputing optimal or expected values) on one side for every third first edit",
        "thorough": "the same models: all interleaved sequences of 3 edits (solving only in sequences of 2)",
    },
    assumptions=["nodes' order within the graph is not compared, the order of domains is"],
)
CHUNK = 1
SLOW = ("solve", "optimal", "condexp")

S = ["dict", [[0, 0.25], [1, 0.75]]]
T = ["const", [[2, 0.125], [0, 0.25], [1, 0.625]], [2, 0, 1]]
KW = ["fun", "lambda **pv: (sum(pv.values()) % 3 if pv else 1)"]
KP = ["fun", "lambda **pv: ({max(pv.values()): 0.75, 9: 0.25} if pv else {9: 0.5, 0: 0.5})"]


def spec(kind, dec, util, nodes, edges, rel, after=()):
    return dict(kind=kind, dec=dec, util=util, nodes=nodes, edges=edges, rel=rel, after=[list(a) for a in after])


MODELS = {
    "cbn": spec("CBN", [], [], ["C", "A", "B"], [["A", "B"], ["B", "C"], ["A", "C"]], [["C", KP], ["B", KW], ["A", T]]),
    "objects": spec("CBN", [], [], ["A", "B", "C", "I"], [["A", "B"], ["B", "C"]],
                    [["A", ["tab", ["z", "a"], [], [[0.25, 0.75]], []]], ["B", ["sf", "lambda A: {3: 0.5, -1: 0.5} if A == 'z' else {3: 1}", [3, -1]]],
                     ["C", ["tab", [5, 4], ["B"], [[0.25, 0.75], [0.5, 0.5]], [2]]]]),
    "partial": spec("CBN", [], [], ["A", "B", "C"], [["A", "B"], ["B", "C"]], [["C", KP], ["B", KW]]),
    "intervened": spec("CBN", [], [], ["A", "B", "C"], [["A", "B"], ["B", "C"]], [["A", T], ["B", KP], ["C", KW]], [["do", "B", 0]]),
    "cid": spec("CID", [[0, ["D", "E"]]], [[0, ["U"]]], ["A", "D", "E", "U"], [["A", "D"], ["D", "E"], ["E", "U"], ["A", "U"]],
                [["A", S], ["D", ["dec", [1, 0]]], ["U", KW], ["E", ["dec", [0, 2]]]]),
    "imputed": spec("CID", [[0, ["D", "E"]]], [[0, ["U"]]], ["A", "D", "E", "U"], [["A", "D"], ["D", "U"], ["E", "U"]],
                    [["A", S], ["D", ["dec", [1, 0]]], ["U", KW], ["E", ["dec", [0, 2]]]], [["impute", "D"], ["optimal", "E"]]),
    "game": spec("MACID", [["x", ["D"]], [2, ["E"]]], [["x", ["U"]], [2, ["V"]]], ["D", "E", "U", "V"],
                 [["D", "E"], ["E", "U"], ["D", "V"], ["E", "V"]], [["D", ["dec", [0, 1]]], ["E", ["fun", "lambda D: D + 1"]], ["U", KW], ["V", KP]]),
    "odd agents": spec("MACID", [["x", ["D"]], ["w", ["E"]], ["q", []]], [["y", ["U"]], ["r", []], ["z", ["V", "W"]]], ["W", "D", "E", "U", "V"],
                       [["D", "U"], ["E", "V"]], [["D", ["dec", [0, 1]]], ["U", KW], ["V", KP]]),
    "base": spec("MACIDBase", [[0, ["D"]]], [[1, ["U"]]], ["U", "D", "A"], [["A", "D"], ["D", "U"]],
                 [["A", S], ["D", ["ddom", [5, 3]]], ["U", KP]]),
    "roles": spec("MACIDBase", [[0, ["D"]]], [[0, ["U"]]], ["U", "D", "A"], [["A", "D"], ["D", "U"]],
                  [["A", S], ["D", ["dec", [5, 3]]], ["U", KP]], [["utility", "A", 1], ["chance", "U"], ["decision", "U", 1]]),
}


def edits(name):
    s = MODELS[name]
    n = s["nodes"]
    decs = [d for _, ds in s["dec"] for d in ds]
    edges = s["edges"]
    out = [["rel", edges[0][0], ["dict", [[1, 0.5], [4, 0.5]]]], ["rel", edges[-1][1], ["dict", [[7, 0.5], [2, 0.5]]]], ["rel", edges[0][1], KW],
           ["del", edges[0][0]], ["remove_edge", *edges[0]], ["add_edge", edges[-1][1], "N"], ["do", edges[0][1], 0], ["do", edges[-1][1], -1]]
    if s["kind"] == "CBN":
        return out + [["rel", n[-1], KP], ["remove_node", n[-1]], ["add_edge", n[0], n[-1]]]
    d = decs[0]
    out += [["rel", d, ["dec", [1, 3]]], ["impute", d], ["mixed"], ["undecide"], ["decision", s["util"][0][1][0], "new"],
            ["utility", d, 1], ["chance", d], ["chance", s["util"][-1][1][0]], ["condexp", d, s["util"][0][1][0]]]
    if name in ("cid", "imputed"):
        out += [["optimal", d], ["solve"]]
    return out


def apply(m, op):
    k, *a = op
    random.seed(1)  # optimal policies may be chosen at random
    if k == "rel":
        add_rel(m, a[0], a[1])
    elif k == "del":
        m.remove_cpds(a[0])
    elif k == "add_edge":
        m.add_edge(a[0], a[1])
    elif k == "remove_edge":
        m.remove_edge(a[0], a[1])
    elif k == "remove_node":
        m.remove_node(a[0])
    elif k == "do":
        m.intervene({a[0]: list(m.model.domain[a[0]])[a[1]]})
    elif k == "impute":
        m.impute_random_decision(a[0])
    elif k == "mixed":
        m.impute_fully_mixed_policy_profile()
    elif k == "undecide":
        m.remove_all_decision_rules()
    elif k == "optimal":
        m.impute_optimal_decision(a[0])
    elif k == "solve":
        m.impute_optimal_policy()
    elif k == "condexp":
        m.impute_conditional_expectation_decision(a[0], a[1])
    elif k == "decision":
        m.make_decision(a[0], a[1])
    elif k == "utility":
        m.make_utility(a[0], a[1])
    elif k == "chance":
        m.make_chance(a[0])
    else:
        raise ValueError(k)


def run(m, ops):
    """execute; operations that are refused count as executed (both sides have to refuse)"""
    log = []
    for op in ops:
        try:
            apply(m, op)
            log.append("ok")
        except CaseTimeout:
            raise
        except Exception as e:
            log.append(type(e).__name__)
            break  # nothing is claimed about a model after a refused edit
    return log


def view(m):
    """the model as its user sees it, independently of the order of nodes and edges"""
    out = {"class": type(m).__name__, "nodes": sorted(m.nodes), "edges": sorted(m.edges), "domains": {v: list(d) for v, d in sorted(m.model.domain.items())},
           "given": sorted(m.model.keys())}
    tabs = {}
    for v in sorted(m.nodes):
        cpd = m.get_cpds(v)
        if cpd is not None and any(len(cpd.state_names.get(x, ())) != c for x, c in zip(cpd.variables, cpd.cardinality)):
            tabs[v] = ("outdated", sorted(zip(cpd.variables, map(int, cpd.cardinality))))  # the edits made it inconsistent
            continue
        t = cpd_table(m, v)
        tabs[v] = None if t is None else (t[0], sorted((sorted(map(str, c)), [round(d[o], 9) for o in t[0]]) for c, d in t[1].items()))
    out["tables"] = tabs
    if hasattr(m, "agent_decisions"):
        agents = sorted(m.agents, key=str)
        out["roles"] = [(str(a), list(m.agent_decisions.get(a, [])), list(m.agent_utilities.get(a, []))) for a in agents]
        out["role of"] = (sorted(m.decision_agent.items(), key=str), sorted(m.utility_agent.items(), key=str), sorted(m.decisions), sorted(m.utilities))
        out["undecided"] = sorted(d for d in m.decisions if isinstance(m.get_cpds(d), DecisionDomain))
    return out


def diff(got, want):
    for k in want:
        if got[k] != want[k]:
            return f"{k}: got {got[k]}, expected {want[k]}"
    return None


def start(name):
    s = MODELS[name]
    m = build(s)
    for op in s["after"]:
        apply(m, op)
    return m


def cases(tier):
    for name in MODELS:
        yield dict(t="plain", model=name)
        for i, op in enumerate(edits(name)):
            for side in ("copy", "original"):
                if tier == "quick":
                    yield dict(t="inter", model=name, first=[side, op], depth=2)
                    if i % 3 == (side == "copy") and op[0] not in SLOW and name != "imputed":
                        yield dict(t="side", model=name, first=[side, op], depth=3)
                else:
                    yield dict(t="inter", model=name, first=[side, op], depth=2)
                    if op[0] not in SLOW:
                        yield dict(t="inter", model=name, first=[side, op], depth=3)


_twin = {}


def twin(name, ops):
    key = (name, str(ops))
    if key not in _twin:
        m = start(name)
        log = run(m, ops)
        _twin[key] = (log, view(m))
    return _twin[key]


def run_case(case, rec):
    name = case["model"]
    if case["t"] == "plain":
        return case_plain(name, rec)
    eds = edits(name)
    first = case["first"]
    sides = ["copy", "original"] if case["t"] == "inter" else [first[0]]
    steps = [[s, e] for s in sides for e in eds if case["depth"] == 2 or e[0] not in SLOW]
    for k in range(case["depth"]):
        for rest in itertools.product(steps, repeat=k):
            seq = [first, *rest]
            mine = {s: [e for x, e in seq if x == s] for s in ("copy", "original")}
            want = {s: twin(name, ops) for s, ops in mine.items()}
            if any("Error" in x or "Exception" in x or x != "ok" for s in want for x in want[s][0][:-1]):
                continue
            m = start(name)
            c = m.copy()
            objs = {"copy": c, "original": m}
            logs = {"copy": [], "original": []}
            for s, e in seq:
                logs[s] += run(objs[s], [e])
            rec.step(len(seq))
            rec.trace()
            for s in ("copy", "original"):
                log, v = want[s]
                if logs[s][: len(log)] != log:
                    rec.fail(f"{seq}: the {s} answered {logs[s]}, a model that was never copied {log}")
                    return
                if any(x != "ok" for x in log):
                    rec.hit("refused edit")
                    continue
                got = view(objs[s])
                rec.state((name, s, str(got)))
                e = diff(got, v)
                if e:
                    rec.fail(f"the {s} after {seq}: {e}")
                    return


def case_plain(name, rec):
    m = start(name)
    want = view(m)
    rec.state((name, str(want)))
    rec.trace()
    c = m.copy()
    for what, x in [("copy", c), ("copy of the copy", c.copy()), ("original", m)]:
        rec.step()
        e = diff(view(x), want)
        if e:
            rec.fail(f"{what}: {e}")
    e = m.copy_without_cpds()
    v = view(e)
    rec.step()
    if v["given"] or v["domains"] or any(v["tables"].values()):
        rec.fail(f"the copy without relationships has relationships: {v}")
    for k in ("class", "nodes", "edges", "roles", "role of"):
        if k in want and v[k] != want[k]:
            rec.fail(f"copy without relationships: {k}: {v[k]}, expected {want[k]}")
    # answers
    und = set(want.get("undecided", []))
    for q in m.nodes:
        try:
            a = factor_dist(m.query([q], {}), [q])
        except (ValueError, KeyError) as err:
            for x in (c,):
                try:
                    x.query([q], {})
                    rec.fail(f"query {q} is refused by the original ({err}) but not by the copy")
                except (ValueError, KeyError):
                    rec.hit("query refused by both")
            continue
        b = factor_dist(c.query([q], {}), [q])
        rec.step()
        d = dist_diff(b, a)
        if d:
            rec.fail(f"P({q}) of the copy: {d}")
    # giving the relationships to the bare copy makes it equal
    if not MODELS[name]["after"]:
        for n, r in MODELS[name]["rel"]:
            add_rel(e, n, r)
        rec.step()
        d = diff(view(e), want)
        if d:
            rec.fail(f"copy without relationships, after giving them: {d}")
    assert ref and und is not None
