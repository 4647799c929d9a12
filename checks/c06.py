"""C06: analysing a model never changes it"""
import contextlib
import io
import itertools
import os
import random
import tempfile

import numpy as np

import mc.boot  # noqa: F401
import networkx as nx
import pycid
from mc import models
from mc.build import build, snap_diff, snapshot
from mc.harness import CaseTimeout
from pycid import CondensedRelevanceGraph, MechanismGraph, RelevanceGraph
from pycid.core import get_paths as gp

ID = "C06"
META = dict(
    rule="all sequences of analysis operations up to the length are executed on the real model; after each operation the whole "
    "model and all arguments are compared with their state before, and each answer with the answer of the same operation "
    "on a fresh model (operations that refuse have to refuse again)",
    bounds={
        "quick": "all DAGs on two decisions, a chance node and a utility (plus a second utility), decided in 5 ways: one session with all operations, the cheap ones twice; 7 models (Bayesian network, single agent with/without recall, partly decided, several agents), 22-60 operations "
        "per model; per model one session with all operations in both orders (so that each ordered pair occurs), and one session for each operation: repeated, followed by all cheap operations, and once more",
        "thorough": "the same models and operations plus 2 larger ones, all ordered pairs with a fresh model per pair and all triples of the cheap operations",
    },
    assumptions=["the random generators are seeded in the same way before each operation"],
)
CHUNK = 1

S = ["dict", [[0, 0.25], [1, 0.75]]]
X = ["fun", "lambda S: {S: 0.8, 1 - S: 0.2}"]


def spec(kind, dec, util, nodes, edges, rel):
    return dict(kind=kind, dec=dec, util=util, nodes=nodes, edges=edges, rel=rel)


MODELS = {
    "cbn": spec("CBN", [], [], ["S", "X", "Y", "Q", "I"], [["S", "X"], ["X", "Y"], ["S", "Y"], ["Q", "I"]],
                [["S", S], ["X", X], ["Y", ["fun", "lambda S, X: {S + X: 0.5, 7: 0.5}"]], ["Q", ["const", [[2, 0.5], [1, 0.5]], [2, 1]]],
                 ["I", ["tab", [3, 1], ["Q"], [[0.25, 0.75], [1.0, 0.0]], [2]]]]),
    "cid": spec("CID", [[0, ["D", "E"]]], [[0, ["U", "V"]]], ["E", "D", "S", "X", "U", "V", "W"],
                [["S", "X"], ["X", "D"], ["X", "E"], ["S", "U"], ["D", "U"], ["E", "V"], ["S", "V"], ["W", "V"]],
                [["S", S], ["X", X], ["D", ["dec", [1, 0]]], ["E", ["dec", [0, 1]]], ["W", ["dict", [[0, 0.5], [1, 0.5]]]],
                 ["U", ["fun", "lambda S, D: 2 * S - D"]], ["V", ["fun", "lambda S, E, W: int(S == E) + W"]]]),
    "decided": spec("CID", [[0, ["D", "E"]]], [[0, ["U"]]], ["S", "D", "E", "U"], [["S", "D"], ["D", "E"], ["S", "E"], ["E", "U"], ["S", "U"], ["D", "U"]],
                    [["S", S], ["D", ["fun", "lambda S: S"]], ["E", ["sf", "lambda S, D: {S: 0.5, 1 - S: 0.5}", [1, 0]]],
                     ["U", ["fun", "lambda S, D, E: S + D - 2 * E"]]]),
    "norecall": spec("CID", [[0, ["D", "E"]]], [[0, ["U"]]], ["D", "E", "S", "U"], [["S", "D"], ["D", "U"], ["E", "U"], ["S", "U"]],
                     [["S", S], ["D", ["dec", [0, 1]]], ["E", ["dec", [0, 1]]], ["U", ["fun", "lambda S, D, E: int(D == E) + S * D"]]]),
    "game": spec("MACID", [["a", ["D"]], ["b", ["E"]]], [["a", ["U"]], ["b", ["V"]]], ["S", "D", "E", "U", "V"],
                 [["S", "D"], ["D", "E"], ["D", "U"], ["E", "U"], ["E", "V"], ["S", "V"]],
                 [["S", S], ["D", ["dec", [1, 0]]], ["E", ["dec", [0, 1]]], ["U", ["fun", "lambda D, E: E - D * 0.5"]],
                  ["V", ["fun", "lambda S, E: int(S == E)"]]]),
    "halfgame": spec("MACID", [[0, ["D"]], [1, ["E"]]], [[0, ["U"]], [1, ["V"]]], ["V", "U", "E", "D"],
                     [["D", "U"], ["E", "U"], ["D", "V"], ["E", "V"]],
                     [["D", ["dict", [[0, 0.5], [1, 0.5]]]], ["E", ["dec", [2, 0]]], ["U", ["fun", "lambda D, E: E * D"]],
                      ["V", ["fun", "lambda D, E: E - D"]]]),
    "base": spec("MACIDBase", [["a", ["D"]], [2, []]], [["a", ["U"]], [2, ["V"]]], ["D", "U", "V"], [["D", "U"], ["U", "V"]],
                 [["D", ["dec", [4, 1]]], ["U", ["fun", "lambda D: {D: 0.5, 0: 0.5}"]], ["V", ["fun", "lambda U: -U"]]]),
}
BIG = {
    "game3": spec("MACID", [[0, ["D"]], [1, ["E"]], [2, ["F"]]], [[0, ["U"]], [1, ["V"]], [2, ["W"]]], ["D", "E", "F", "U", "V", "W"],
                  [["D", "E"], ["D", "U"], ["E", "U"], ["E", "V"], ["F", "V"], ["F", "W"], ["D", "W"]],
                  [["D", ["dec", [0, 1]]], ["E", ["dec", [0, 1]]], ["F", ["dec", [1, 0]]], ["U", ["fun", "lambda D, E: D - E"]],
                   ["V", ["fun", "lambda E, F: E * F"]], ["W", ["fun", "lambda D, F: D + F"]]]),
    "multi": spec("MACID", [[0, ["D", "E"]], [1, ["F"]]], [[0, ["U"]], [1, ["W"]]], ["D", "E", "F", "U", "W"],
                  [["D", "F"], ["F", "E"], ["D", "E"], ["E", "U"], ["F", "U"], ["D", "W"], ["F", "W"]],
                  [["D", ["dec", [0, 1]]], ["F", ["dec", [0, 1]]], ["E", ["dec", [0, 1]]], ["U", ["fun", "lambda E, F: E + F - 2 * E * F"]],
                   ["W", ["fun", "lambda D, F: D * F"]]]),
}


def table(cpd):
    vs = list(cpd.variables)
    return (vs, np.round(cpd.values, 9).tolist(), [list(cpd.state_names[v]) for v in vs if v in cpd.state_names])


def norm(x):
    """a comparable form of an answer"""
    from pgmpy.factors.discrete import DiscreteFactor

    if isinstance(x, DiscreteFactor):
        return ("factor",) + table(x)
    if isinstance(x, nx.Graph):
        return ("graph", type(x).__name__, sorted(map(str, x.nodes)), sorted(map(str, x.edges))) + (
            (str(snapshot(x, False)),) if hasattr(x, "model") else ())
    if isinstance(x, float):
        return round(x, 9) + 0.0
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)) or type(x).__name__ == "dict_keys":
        return sorted(map(str, x))
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
        return [norm(v) for v in x]
    if hasattr(x, "write"):  # a game
        return x.write()
    return x


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def gambit_file(m):
    d = tempfile.mkdtemp(prefix="verif-c06-")
    p = os.path.join(d, "g.efg")
    try:
        quiet(pycid.macid_to_gambit_file, m, p)
        return open(p).read()
    finally:
        if os.path.exists(p):
            os.unlink(p)
        os.rmdir(d)


def family(tier):
    """all DAGs on two decisions, one chance node and a utility (without children), with a second utility of both decisions"""
    i = 0
    for order in (["X", "D", "E"], ["D", "X", "E"], ["D", "E", "X"]):
        names = order + ["U"]
        for edges in models.dags(names):
            for decided in ((i % 5,) if tier == "quick" else range(5)):
                for kind in ("MACID", "CID") if tier == "thorough" else ("MACID" if i % 3 else "CID",):
                    nodes = names + ["V"]
                    es = edges + [["D", "V"], ["E", "V"]]
                    fl = dict(X="b", D="bdbd"[decided % 4], E="bddb"[decided % 4], U="D", V="D")
                    special = {}
                    if decided in (0, 2):
                        special["E"] = ["dec", [1, 0]]
                    if decided in (0, 3):
                        special["D"] = ["dec", [0, 1]]
                    rel = models.parametrise(nodes, es, fl, i % 3, special)
                    one = kind == "CID"
                    yield spec(kind, [[0, ["D", "E"]]] if one else [[0, ["D"]], [1, ["E"]]], [[0, ["U", "V"]]] if one else [[0, ["UV"[i % 2]]], [1, ["VU"[i % 2]]]], nodes, es, rel)
            i += 1



def operations(name, s=None):
    """name -> function of the model and its (mutable) arguments; arguments are checked to stay the same"""
    s = s or {**MODELS, **BIG}[name]
    nodes, kind = s["nodes"], s["kind"]
    decs = [d for _, ds in s["dec"] for d in ds]
    utils = [u for _, us in s["util"] for u in us]
    last, first = nodes[-1], nodes[0]
    chance = [n for n in nodes if n not in decs and n not in utils]
    ops = {}

    def op(label, f, *args):
        ops[label] = (f, args)

    rels = dict((v, r) for v, r in s["rel"])
    root = chance[0] if chance else nodes[0]
    val = {"cbn": 0, "base": 4}.get(name, 0)
    if name == "base":
        root = "D"
    op("query", lambda m, q, c: m.query(q, c), [last], {})
    op("query ctx", lambda m, q, c: m.query(q, c), [n for n in nodes if n != root][:1], {root: val})
    op("query do", lambda m, q, c, i: m.query(q, c, i), [last], {}, {root: val})
    op("query ctx do", lambda m, q, c, i: m.query(q, c, i), [last], {root: val}, {n: v for n, v in [(decs[0], {"base": 4}.get(name, 0))]} if decs else {"X": 0})
    op("expected_value", lambda m, v, c: m.expected_value(v, c), [n for n in nodes if n != root][-2:], {root: val})
    op("expected_value do", lambda m, v, c, i: m.expected_value(v, c, i), [last, first], {}, {decs[0] if decs else "X": {"base": 1}.get(name, 0)})
    op("sample", lambda m: m.sample(seed=3))
    op("scm", lambda m: m.is_structural_causal_model())
    op("copy", lambda m: m.copy())
    op("copy_without_cpds", lambda m: m.copy_without_cpds())
    op("total_effect", lambda m: pycid.total_effect(m, root, last, val, {"base": 1}.get(name, 1)))
    op("introduced_total_effect", lambda m: pycid.introduced_total_effect(m, root, nodes[1], last, val, {"base": 1}.get(name, 1)))
    for a, b in [(first, last), (root, nodes[1])]:
        op(f"paths {a} {b}", lambda m, o, a=a, b=b: [list(gp.find_all_dir_paths(m, a, b)), sorted(gp.find_all_undir_paths(m, a, b)),
           gp.is_active_backdoor_trail(m, a, b, o), gp.is_active_indirect_frontdoor_trail(m, a, b, o) if a != b else None], {nodes[2]} - {a, b})
        op(f"active {a} {b}", lambda m, o, a=a, b=b: gp.find_active_path(m, a, b, o), set())
        op(f"motifs {a} {b}", lambda m, a=a, b=b: [(gp.get_motifs(m, p), gp.is_active_path(m, p, {nodes[2]})) for p in sorted(gp.find_all_undir_paths(m, a, b))])
    if kind == "CBN":
        return ops
    agents = [a for a, _ in s["dec"]]
    for a in agents:
        op(f"expected_utility {a}", lambda m, c, a=a: m.expected_utility(c, agent=a), {})
        op(f"expected_utility do {a}", lambda m, c, i, a=a: m.expected_utility(c, i, agent=a), {}, {d: {"base": 4}.get(name, 0) for d in decs})
        op(f"recall {a}", lambda m, a=a: m.sufficient_recall(a))
    op("recall", lambda m: m.sufficient_recall())
    op("orders", lambda m, ns: (m.get_valid_order(), m.get_valid_order(ns)), list(nodes[1:]))
    op("mechanism graph", lambda m: MechanismGraph(m))
    op("relevance", lambda m: (RelevanceGraph(m), RelevanceGraph(m).get_sccs(), CondensedRelevanceGraph(m).get_scc_topological_ordering()))
    op("relevance of", lambda m, ds: RelevanceGraph(m, ds), list(decs))
    op("reachable", lambda m, ds, ns: [m.is_r_reachable(ds, ns)] + [m.is_s_reachable(d, e) for d in ds for e in ds if d != e], list(decs), list(nodes))
    op("decision free", lambda m: gp.directed_decision_free_path(m, decs[0], utils[0]))
    for d in decs:
        op(f"rules {d}", lambda m, d=d: m.pure_decision_rules(d))
        op(f"optimal rules {d}", lambda m, d=d: m.optimal_pure_decision_rules(d))
        op(f"requisite {d}", lambda m, d=d: pycid.requisite_list(m, d))
    op("policies", lambda m, ds: m.pure_policies(ds), list(decs[:2]))
    op("optimal policies", lambda m, ds: m.optimal_pure_policies(ds), [d for a, ds in s["dec"][:1] for d in ds])
    op("requisite graph", lambda m: pycid.requisite_graph(m))
    op("efg", lambda m: pycid.macid_to_efg(m)[0])
    op("efg part", lambda m, ds, ags: pycid.macid_to_efg(m, ds, ags)[0], set(s["dec"][0][1]), [s["dec"][0][0]])
    op("gambit file", gambit_file)
    if kind == "CID":
        op("solve", lambda m: m.solve())
        op("optimal_policies", lambda m: m.optimal_policies())
        for d in decs:
            op(f"voi list {d}", lambda m, d=d: sorted(pycid.admits_voi_list(m, d)))
            op(f"ri list {d}", lambda m, d=d: sorted(pycid.admits_ri_list(m, d)))
            op(f"ici list {d}", lambda m, d=d: sorted(pycid.admits_ici_list(m, d)))
            op(f"indir voc list {d}", lambda m, d=d: sorted(pycid.admits_indir_voc_list(m, d)))
            op(f"quantitative voi {d}", lambda m, d=d: pycid.quantitative_voi(m, d, chance[0]))
        op("voc list", lambda m: sorted(pycid.admits_voc_list(m)))
        op("dir voc list", lambda m: sorted(pycid.admits_dir_voc_list(m)))
        op("quantitative voc", lambda m: pycid.quantitative_voc(m, chance[0]))
    if kind in ("MACID", "MACIDBase"):
        op("patterns", lambda m: pycid.get_reasoning_patterns(m))
        for d in decs:
            op(f"pattern {d}", lambda m, e, d=d: (pycid.direct_effect(m, d), pycid.manipulation(m, d, e), pycid.signaling(m, d, e),
                                                 pycid.revealing_or_denying(m, d, e)), set(decs))
    if kind == "MACID":
        op("get_ne", lambda m: m.get_ne())
        op("get_ne pure", lambda m: m.get_ne(solver="enumpure"))
        op("get_spe", lambda m: m.get_spe(solver="enumpure"))
        op("subgames", lambda m: m.decs_in_each_maid_subgame())
        op("create_subgame", lambda m, ds: m.create_subgame(ds), [decs[-1]])
        op("get_ne_in_sg", lambda m, ds: m.get_ne_in_sg(ds, solver="enumpure"), list(decs))
        op("joint policies", lambda m, ds: m.joint_pure_policies(ds), list(decs))
        op("assignment", lambda m: m.policy_profile_assignment([m.get_cpds(decs[0])]))
    return ops


EXPENSIVE = ("get_", "efg", "gambit", "quantitative", "solve", "optimal", "indir", "voc", "voi", "ri ")


def cases(tier):
    for s in family(tier):
        yield dict(t="family", model="family", spec=s)
    for name in MODELS if tier == "quick" else {**MODELS, **BIG}:
        ops = operations(name)
        yield dict(t="all", model=name, seq=[*ops, *reversed(ops)])
        for a in ops:
            if tier == "quick":
                yield dict(t="session", model=name, first=a)
            else:
                for b in ops:
                    yield dict(t="pair", model=name, seq=[a, b])
        if tier == "thorough":
            cheap = [a for a in ops if not a.startswith(EXPENSIVE)]
            for a, b in itertools.product(cheap[::2], cheap[1::2]):
                yield dict(t="triples", model=name, seq=[a, b])


_fresh = {}


def call(m, f, args):
    random.seed(5)
    np.random.seed(5)
    try:
        return ("ok", norm(f(m, *args)))
    except CaseTimeout:
        raise
    except Exception as e:  # refusing is an answer, too (which ones have to be refused is the matter of other properties)
        return ("refused", type(e).__name__)


def reference(name, label):
    if (name, label) not in _fresh:
        f, args = operations(name)[label]
        _fresh[name, label] = call(build({**MODELS, **BIG}[name]), f, args)
    return _fresh[name, label]


def run_family(s, rec):
    """every operation once, then the cheap ones again in the opposite order"""
    m = build(s)
    before = snapshot(m)
    rec.state(s)
    rec.trace()
    ops = operations("family", s)
    answers = {}
    for label in [*ops, *[x for x in reversed(ops) if not x.startswith(EXPENSIVE)]]:
        f, args = ops[label]
        frozen = repr([sorted(a, key=str) if isinstance(a, set) else a for a in args])
        got = repr(call(m, f, args))
        rec.step()
        rec.hit("family")
        if answers.setdefault(label, got) != got:
            rec.fail(f"{label} again: {got[:600]}\nbefore: {answers[label][:600]}")
            return
        if repr([sorted(a, key=str) if isinstance(a, set) else a for a in args]) != frozen:
            rec.fail(f"{label} modified its arguments: {frozen} -> {args}")
            return
        e = snap_diff(before, snapshot(m))
        if e:
            rec.fail(f"{label} changed the model: {e}")
            return


def run_case(case, rec):
    name = case["model"]
    if case["t"] == "family":
        return run_family(case["spec"], rec)
    ops = operations(name)
    m = build({**MODELS, **BIG}[name])
    before = snapshot(m)
    rec.state((name, str({k: v for k, v in before.items() if k != "relationships"})))
    rec.trace()
    if case["t"] == "session":
        # first, repeated; then every cheap operation; then first again
        rest = [b for b in ops if b != case["first"]]
        cheap = [b for b in rest if not b.startswith(EXPENSIVE)]
        seq = [case["first"], case["first"]] + cheap + [case["first"]]
    elif case["t"] in ("pair", "all"):
        seq = case["seq"]
    else:
        cheap = [a for a in ops if not a.startswith(EXPENSIVE)]
        seq = [x for c in cheap for x in (*case["seq"], c)]
    for i, label in enumerate(seq):
        f, args = operations(name)[label]
        frozen = repr([sorted(a, key=str) if isinstance(a, set) else a for a in args])
        got = call(m, f, args)
        want = reference(name, label)
        rec.step()
        rec.hit("refused" if got[0] == "refused" else "answered")
        if got[0] == "refused":
            rec.hit(f"{label} on {name} refused with {got[1]}")
        if repr(got) != repr(want):
            rec.fail(f"{label} after {seq[:i]}: {str(got)[:600]}\non a fresh model: {str(want)[:600]}")
            return
        if repr([sorted(a, key=str) if isinstance(a, set) else a for a in args]) != frozen:
            rec.fail(f"{label} modified its arguments: {frozen} -> {args}")
            return
        e = snap_diff(before, snapshot(m))
        if e:
            rec.fail(f"{label} after {seq[:i]} changed the model: {e}")
            return
