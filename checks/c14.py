"""C14: imputing and removing decision rules does what it says, after any history"""
import itertools
import random

import mc.boot  # noqa: F401
from mc.bfs import explore
from mc.build import build, table_diff
from mc.ref import Ref, contexts, descendants
from pycid.core.cpd import DecisionDomain

ID = "C14"
META = dict(
    rule="a case is one influence diagram and one first operation; a state is the sequence-independent content of the model (table of every variable and how each decision rule "
    "came about); all operation sequences up to the depth are executed on the real object and in every state all tables, domains, undecided decisions and answers are "
    "compared with the reference; chance variables change between imputations and imputed rules have to stay",
    bounds={
        "quick": "5 diagrams (classes CID, MACID, MACIDBase; 1-3 decisions), 12-24 operations (uniform, fully mixed, random policy, optimal decision and policy, pure rule, "
        "conditional expectation of every non-descendant, removal of all rules, change of chance and utility relationships), all sequences up to length 3",
        "thorough": "all sequences up to length 4",
    },
    assumptions=["conditional expectations are imputed where all contexts have positive probability and the other decisions are given"],
)
CHUNK = 1

CHANCE = {"C": [["dict", [[0, 0.25], [1, 0.75]]], ["dict", [[0, 0.9], [1, 0.1]]]],
          "H": [["dict", [[-1, 0.25], [3, 0.5], [7, 0.25]]], ["dict", [[-1, 0.125], [3, 0.125], [7, 0.75]]]]}

MODELS = [
    dict(kind="CID", nodes=["E", "C", "D", "U"], edges=[["C", "D"], ["D", "E"], ["C", "U"], ["D", "U"], ["E", "U"]], dec=[[0, ["E", "D"]]], util=[[0, ["U"]]],
         rel=[["C", CHANCE["C"][0]], ["D", ["dec", [1, 0]]], ["E", ["dec", ["b", "a"]]],
              ["U", ["fun", "lambda C, D, E: (C - 2 * D) * (2 if E == 'b' else 1 if E == 'a' else E)"]]],
         alt=[["C", CHANCE["C"][1]], ["U", ["fun", "lambda C, D, E: (3 * D - C) * (1 if E == 'b' else 4 if E == 'a' else E)"]]],
         cond=[["D", "C"], ["E", "C"], ["E", "D"]]),
    dict(kind="MACID", nodes=["H", "D", "X", "F", "U", "V"], edges=[["H", "X"], ["D", "F"], ["X", "F"], ["D", "U"], ["F", "U"], ["H", "V"], ["F", "V"]],
         dec=[["x", ["D"]], [1, ["F"]]], util=[["x", ["U"]], [1, ["V"]]],
         rel=[["F", ["dec", [0, 1]]], ["D", ["dec", [5, 2]]], ["V", ["fun", "lambda H, F: H * (F - 0.5)"]], ["U", ["fun", "lambda D, F: D * F - 2 * F"]],
              ["X", ["fun", "lambda H: {1: 0.25, 0: 0.75} if H > 0 else {1: 0.5, 0: 0.5}"]], ["H", CHANCE["H"][0]]],
         alt=[["H", CHANCE["H"][1]], ["X", ["fun", "lambda H: {0: 0.25, 1: 0.75} if H > 0 else {1: 0.5, 0: 0.5}"]]],
         cond=[["F", "H"], ["F", "X"], ["D", "H"]]),
    dict(kind="MACIDBase", nodes=["U", "W", "D", "E"], edges=[["W", "D"], ["W", "E"], ["D", "U"], ["E", "U"]], dec=[[0, ["D", "E"]]], util=[[0, ["U", "W"]]],
         rel=[["W", ["fun", "lambda: {2: 0.5, -2: 0.5}"]], ["D", ["dec", [0, 1, 2]]], ["E", ["ddom", ["k", "j"]]],
              ["U", ["fun", "lambda D, E: D * (1 if E == 'k' else -1 if E == 'j' else E)"]]],
         alt=[["W", ["dict", [[2, 0.125], [-2, 0.875]]]]], cond=[["D", "W"], ["E", "W"]]),
    dict(kind="CID", nodes=["H", "A", "B", "D", "U"], edges=[["H", "A"], ["H", "B"], ["B", "D"], ["A", "D"], ["H", "U"], ["D", "U"]], dec=[[0, ["D"]]], util=[[0, ["U"]]],
         rel=[["H", CHANCE["H"][0]], ["A", ["fun", "lambda H: {'q': 0.25, 'p': 0.75} if H > 3 else {'q': 0.5, 'p': 0.5}"]],
              ["B", ["tab", [1, 0], ["H"], [[0.5, 0.5], [0.25, 0.75], [0.125, 0.875]], [3]]], ["D", ["dec", [3, -1]]], ["U", ["fun", "lambda H, D: -(H - D) ** 2"]]],
         alt=[["H", CHANCE["H"][1]], ["A", ["fun", "lambda H: {'q': 0.75, 'p': 0.25} if H > -1 else {'q': 0.5, 'p': 0.5}"]]], cond=[["D", "H"], ["D", "B"]]),
    dict(kind="CID", nodes=["D", "E", "F", "U"], edges=[["D", "E"], ["E", "F"], ["D", "U"], ["F", "U"]], dec=[[0, ["D", "E", "F"]]], util=[[0, ["U"]]],
         rel=[["U", ["fun", "lambda D, F: (D - 1) * (1 if F == 'y' else 2 if F == 'x' else F)"]], ["D", ["dec", [0, 2]]], ["E", ["dec", [4, 1]]], ["F", ["dec", ["y", "x"]]]],
         alt=[], cond=[["E", "D"], ["F", "D"]]),
]


def decs_of(spec):
    return [d for a, ds in spec["dec"] for d in ds]


def ops_of(spec):
    ds = decs_of(spec)
    ops = [["rand", d] for d in ds] + [["mixed"], ["rmall"]] + [["opt", d] for d in ds] + [["pure", d, k] for d in ds for k in (1, -1)]
    ops += [["cond", d, y] for d, y in spec["cond"]]
    ops += [["alt", v, k] for v, _ in spec["alt"] for k in (0, 1)]
    if spec["kind"] == "CID":
        ops += [["randpol"]] + ([["optpol"]] if len(ds) < 3 else [])
    return ops


def cases(tier):
    for i, spec in enumerate(MODELS):
        for op in ops_of(spec):
            yield dict(model=i, depth=3 if tier == "quick" else 4, first=op)


class Both:
    """the real object and the reference side by side"""

    def __init__(self, spec, rec):
        self.spec = spec
        self.rec = rec
        self.m = build(spec)
        self.rel = {v: r for v, r in spec["rel"]}
        self.rule = {d: None for d in decs_of(spec)}  # (kind, domain, table)
        self.dom = {d: list(self.rel[d][1]) for d in decs_of(spec)}
        self.alt = {v: 0 for v, _ in spec["alt"]}
        self.err = None

    def ref(self):
        pol = {}
        for d, r in self.rule.items():
            pol[d] = ["dec", self.dom[d]] if r is None else ["cols", self.dom[d], r[1]]
        spec = dict(self.spec, rel=[[v, self.rel[v]] for v, _ in self.spec["rel"]])
        # a rule table may have to be extended to new contexts of parents: only uniform rules survive those
        for d, r in self.rule.items():
            if r is not None and r[0] == "rand":
                pol[d] = ["dec", self.dom[d]]
        return Ref.from_spec(spec, pol)

    def canon(self):
        return (sorted(self.alt.items()), sorted((d, self.dom[d], None if r is None else (r[0], sorted(r[1].items(), key=str) if r[0] != "rand" else 0)) for d, r in self.rule.items()))


def enabled_after(b, op, spec):
    """judged on the reference side"""
    kind = op[0]
    ds = decs_of(spec)
    if kind == "opt":
        return all(b.rule[d] is not None for d in ds if d != op[1])
    if kind == "cond":
        d, y = op[1:]
        if any(b.rule[o] is None for o in ds if o != d):
            return False
        edges = [tuple(e) for e in spec["edges"]]
        if any(b.rule[o] is not None and b.rule[o][0] != "rand" for u, o in edges if u == d and o in ds):
            return False
        r = b.ref()
        return all(r.prob(dict(zip(r.par[d], c))) > 1e-12 for c in contexts(r, d))
    if kind == "alt":
        return b.alt[op[1]] != op[2]
    return True


def run_case(case, rec):
    spec = MODELS[case["model"]]
    ds = decs_of(spec)
    alts = {v: r for v, r in spec["alt"]}
    orig = {v: r for v, r in spec["rel"]}

    def fresh():
        return Both(spec, rec)

    def read(b, d):
        from mc.build import cpd_table

        r = b.ref()
        dom, tab = cpd_table(b.m, d)
        if dom != b.dom[d]:
            b.err = f"the domain of {d} became {dom}, was {b.dom[d]}"
            return
        b.rule[d] = ("opt", {c: tab[frozenset(zip(r.par[d], c))] for c in contexts(r, d)})

    def judge_opt(b, d, before):
        """the rule read back has to be optimal given the other rules"""
        utils = next(us for a, us in spec["util"] if a == next(a for a, x in spec["dec"] if d in x))
        utils = [u for u in utils if u in descendants([tuple(e) for e in spec["edges"]], d)]
        for c in contexts(before, d):
            ctx = dict(zip(before.par[d], c))
            if before.prob(ctx) < 1e-12:
                continue
            q = before.with_rule(d, {x: {o: 1 / len(b.dom[d]) for o in b.dom[d]} for x in contexts(before, d)})
            by = {o: sum(q.ev(u, {**ctx, d: o}) for u in utils) for o in b.dom[d]}
            if sum(p * by[o] for o, p in b.rule[d][1][c].items()) < max(by.values()) - 1e-7:
                b.err = f"the rule imputed for {d} is not optimal in {ctx}: {b.rule[d][1][c]}, {by}"

    def apply(b, op):
        m, kind = b.m, op[0]
        random.seed(11)
        if kind == "rand":
            m.impute_random_decision(op[1])
            b.rule[op[1]] = ("rand", {})
        elif kind == "mixed":
            m.impute_fully_mixed_policy_profile()
            b.rule = {d: ("rand", {}) for d in ds}
        elif kind == "randpol":
            m.impute_random_policy()
            b.rule = {d: ("rand", {}) for d in ds}
        elif kind == "rmall":
            m.remove_all_decision_rules()
            b.rule = {d: None for d in ds}
        elif kind == "pure":
            rules = list(m.pure_decision_rules(op[1]))
            m.add_cpds(rules[min(op[2], len(rules) - 1)])
            read(b, op[1])
        elif kind == "opt":
            before = b.ref()
            m.impute_optimal_decision(op[1])
            read(b, op[1])
            if not b.err:
                judge_opt(b, op[1], before)
        elif kind == "optpol":
            m.impute_optimal_policy()
            for d in ds:
                read(b, d)
        elif kind == "cond":
            d, y = op[1:]
            r = b.ref()
            tab = {c: r.ev(y, dict(zip(r.par[d], c))) for c in contexts(r, d)}
            m.impute_conditional_expectation_decision(d, y)
            got = list(m.model.domain[d])
            want = sorted(tab.values())
            dedup = [x for i, x in enumerate(want) if i == 0 or x - want[i - 1] > 1e-9]
            # floating point: the real domain may list the same expectation several times
            if any(min(abs(g - w) for w in want) > 1e-7 for g in got) or any(min(abs(g - w) for g in got) > 1e-7 for w in want) or got != sorted(got):
                b.err = f"imputing the expectation of {y} for {d}: domain {got}, expectations {dedup}"
                return
            b.dom[d] = got
            from mc.build import cpd_table

            dom, t = cpd_table(m, d)
            rule = {}
            for c in contexts(r, d):
                dist = t[frozenset(zip(r.par[d], c))]
                e = sum(o * p for o, p in dist.items())
                if max(dist.values()) < 1 - 1e-9 or abs(e - tab[c]) > 1e-7:
                    b.err = f"imputing the expectation of {y} for {d}: {dist} in context {c}, expectation {tab[c]}"
                rule[c] = dist
            b.rule[d] = ("cond", rule)
        elif kind == "alt":
            from mc.build import add_rel

            v, k = op[1:]
            add_rel(m, v, (alts if k else orig)[v])
            b.rel[v] = (alts if k else orig)[v]
            b.alt[v] = k
        else:
            raise ValueError(kind)

    possible = {}

    def enabled(hist):
        return possible[str(hist)]

    def check(b, hist):
        possible[str(hist)] = [] if b.err else [op for op in ops_of(spec) if enabled_after(b, op, spec)]
        if b.err:
            rec.fail(f"after {list(hist)}: {b.err}")
            return
        r = b.ref()
        for v in spec["nodes"]:
            e = table_diff(b.m, v, r)
            if e:
                rec.fail(f"after {list(hist)}: {e}")
                return
        for d in ds:
            und = isinstance(b.m.get_cpds(d), DecisionDomain)
            if und != (b.rule[d] is None):
                rec.fail(f"after {list(hist)}: {d} is {'un' if und else ''}decided")
            if b.rule[d] is None:
                rec.step()
                try:
                    b.m.query([d], {})
                    rec.fail(f"after {list(hist)}: a query about the undecided {d} is answered")
                except ValueError:
                    pass
            rec.hit(f"rule {'none' if b.rule[d] is None else b.rule[d][0]}")
        if all(x is not None for x in b.rule.values()):
            for a, us in spec["util"]:
                x = b.m.expected_utility({}, agent=a)
                rec.step()
                w = sum(r.ev(u, {}) for u in us)
                if abs(x - w) > 1e-7:
                    rec.fail(f"after {list(hist)}: expected utility of {a} is {x}, expected {w}")

    b0 = fresh()
    first = tuple([case["first"]])
    if case["first"] == ops_of(spec)[0]:
        check(b0, ())
    # operations that are not enabled at first are reached after the policies are random
    if enabled_after(b0, case["first"], spec):
        explore(fresh, enabled, apply, lambda b: b.canon(), check, case["depth"], rec, prefix=first)
    else:
        explore(fresh, enabled, apply, lambda b: b.canon(), check, case["depth"], rec, prefix=(["mixed"], case["first"]))
