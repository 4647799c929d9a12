"""C02: relationships mean what they say, and improper ones are rejected"""
import itertools

import mc.boot  # noqa: F401
from mc import models
from mc.build import add_rel, build, cpd_table, empty, table_diff
from mc.ref import Ref, close, fun
from pgmpy.factors.discrete import TabularCPD
from pycid import CausalBayesianNetwork
from pycid.core.cpd import ConstantCPD, bernoulli, discrete_uniform, noisy_copy

ID = "C02"
META = dict(
    rule="a case is one model (all tables compared with the relationships evaluated in every parent context), one "
    "improper relationship that has to be rejected, or one helper distribution",
    bounds={
        "quick": "all DAGs on 3 nodes x all assignments of 9 flavours; one child with 0-2 parents of 8 flavours "
        "(3 parents of 4 flavours, 4 and 5 parents with up to 48 contexts) x 20 relationship forms; improper variants of each form in each context",
        "thorough": "11 flavours on 3 nodes; all DAGs on 4 nodes x all assignments of 4 flavours; 3 parents of 8 flavours",
    },
    assumptions=["probabilities are compared up to 1e-7", "sums within 1% of one are accepted by design, the improper ones tried are off by 5% or more"],
)
CHUNK = 32

DOMS = [[0, 1], [0, 1, 2], ["a", "b", "c"], [-1.5, 2], ["z", "a"], [2, 0, 1], [True, False], ["x"]]


def forms(parents, dom, salt):
    """relationship forms for a child Y with the given parents: (name, rel, class)"""
    ctxs = list(itertools.product(*[dom[p] for p in parents]))
    args = ", ".join(parents)
    tup = "(" + ", ".join(parents) + ("," if len(parents) == 1 else "") + ")"
    out = []

    def src(tab):
        return f"lambda {args}: {tab!r}[{tup}]"

    for D in ([0, 1], ["a", "b", "c"]):
        full = {c: dict(zip(D, models.weights(3 + salt, j, len(D)))) for j, c in enumerate(ctxs)}
        out.append(("full", ["fun", src(full)], "CBN"))
    D = [0, 1, 2, 3]
    # partial distributions: 1, 2 or 3 outcomes specified, also with None
    part = {c: {D[(j + k) % 4]: [0.1, 0.25, 0.3][k] for k in range(1 + j % 3)} for j, c in enumerate(ctxs)}
    if len(ctxs) > 1:  # (a single incomplete distribution has no other outcomes to spread the rest on)
        out.append(("partial", ["fun", src(part)], "CBN"))
    nones = {c: {0: 0.5, 1: None, 2: None if j % 2 else 0.125} for j, c in enumerate(ctxs)}
    out.append(("none", ["fun", src(nones)], "CBN"))
    out.append(("partial+domain", ["sf", src(part), [3, 1, 0, 2, 9]], "CBN"))
    # explicit zeros (as 0, 0.0 or False) are not the same as nothing, the rest is spread over the others
    zeros = {c: {D[j % 4]: 0, D[(j + 1) % 4]: 0.0 if j % 2 else 0.25} for j, c in enumerate(ctxs)}
    out.append(("zeros+domain", ["sf", src(zeros), [2, 0, 3, 1, 4]], "CBN"))
    if len(ctxs) > 1:
        out.append(("zeros", ["fun", src(zeros)], "CBN"))
    # specified mass sums to one up to rounding: nothing is left for the other outcomes
    eps = {c: {3: 0.33, 1: 0.56, 0: 0.11} if j % 2 else {0: 0.1, 1: 0.2, 3: 0.7} for j, c in enumerate(ctxs)}
    out.append(("full+domain", ["sf", src(eps), [0, 1, 3, 7, 8]], "CBN"))
    det = {c: ["n", "k", "m"][(2 * j + salt) % 3] for j, c in enumerate(ctxs)}
    out.append(("det", ["fun", src(det)], "CBN"))
    out.append(("det+domain", ["sf", src(det), ["m", "n", "k", "j"]], "CBN"))
    rare = {c: "y" if j + 1 < len(ctxs) else "w" for j, c in enumerate(ctxs)}  # an outcome that is possible in one context only
    out.append(("rare", ["fun", src(rare)], "CBN"))
    mixed = {c: (j % 2 if j % 3 else {0: 0.2, 1: 0.8}) for j, c in enumerate(ctxs)}
    out.append(("mixed", ["fun", src(mixed)], "CBN"))
    out.append(("dict", ["dict", [[2, 0.25], [0, 0.75]]], "CBN"))
    out.append(("dict1", ["dict", [["only", 1]]], "CBN"))
    out.append(("const", ["const", [[5, 0.25], [1, 0.75]], [5, 1]], "CBN"))
    out.append(("const-partial", ["const", [[5, 0.25]], [5, 1, 0]], "CBN"))
    out.append(("const-zero", ["const", [[5, 0], [0, 0.25]], [5, 1, 0, 2]], "CBN"))
    out.append(("const-empty", ["const", [], ["u", "t"]], "CBN"))
    for D in (["e", "c"], [2, 0, 1]):
        out.append(("dec", ["dec", D], "CID"))
        out.append(("ddom", ["ddom", D], "CID"))
    for perm in itertools.permutations(parents):
        D = ["z", "a", "m"]
        cols = []
        for c in itertools.product(*[dom[p] for p in perm]):
            a = dict(zip(perm, c))
            cols.append(models.weights(salt, ctxs.index(tuple(a[p] for p in parents)), 3))
        out.append(("tab", ["tab", D, list(perm), cols, [len(dom[p]) for p in perm]], "CBN"))
    return out


def parent_rel(i, D):
    return ["const", [[o, p] for o, p in zip(D, models.weights(i, 0, len(D)))], D]


def cases(tier):
    flav = "btpdzsc" + "nD" if tier == "quick" else "btpdDzZscnq"
    names = ["B", "C", "A"]
    i = 0
    for edges in models.dags(names):
        for fl in itertools.product(flav, repeat=3):
            i += 1
            yield dict(t="model", edges=edges, nodes=names, fl="".join(fl), back=i % 2)
    if tier == "thorough":
        n4 = ["B", "D", "C", "A"]
        for edges in models.dags(n4):
            for fl in itertools.product("bpzs", repeat=4):
                i += 1
                yield dict(t="model", edges=edges, nodes=n4, fl="".join(fl), back=i % 2)
    for k in range(4):
        doms = DOMS if k < 3 or tier == "thorough" else [[0, 1], ["z", "a"], [2, 0, 1], ["x"]]
        for ds in itertools.product(range(len(doms)), repeat=k):
            yield dict(t="child", doms=[doms[d] for d in ds], salt=sum(ds) % 3, late=(sum(ds) + k) % 2)
    wide = [[0, 1], ["z", "a"], [2, 0, 1], [True, False], ["x", "w"]]
    for k in (4, 5):
        for r in range(2 if tier == "quick" else k):
            doms = wide[5 - k:]
            yield dict(t="child", doms=doms[r:] + doms[:r], salt=r, late=r % 2)
    yield dict(t="bad", doms=wide[1:])
    for k in range(3):
        for ds in itertools.product([0, 1, 4], repeat=k):
            yield dict(t="bad", doms=[DOMS[d] for d in ds])
    for named in (["z", "a"], ["a", "z"]):
        yield dict(t="named", domain=["z", "a"], named=named)
    yield dict(t="helpers")


def run_case(case, rec):
    globals()["case_" + case["t"]](case, rec)


def case_model(case, rec):
    nodes, edges = case["nodes"], case["edges"]
    rel = models.parametrise(nodes, edges, dict(zip(nodes, case["fl"])))
    if case["back"]:
        rel = models.backward(rel, edges)
    spec = dict(kind="CBN", nodes=nodes, edges=edges, rel=rel)
    compare(spec, rec)


def compare(spec, rec):
    m = build(spec)
    ref = Ref.from_spec(spec)
    rec.state(spec)
    rec.trace()
    for v in spec["nodes"]:
        rec.step()
        e = table_diff(m, v, ref)
        if e:
            rec.fail(f"{e}  (relationship {dict((a, b) for a, b in spec['rel'])[v]})")
    scm = all(
        not ref.par[v] or all(close(p, 0, 1e-9) or close(p, 1, 1e-9) for d in ref.cpt[v].values() for p in d.values())
        for v in ref.nodes
    )
    rec.step()
    rec.hit("deterministic model" if scm else "stochastic model")
    if bool(m.is_structural_causal_model()) != scm:
        rec.fail(f"is_structural_causal_model: expected {scm}")


def case_child(case, rec):
    parents = [f"P{i}" for i in range(len(case["doms"]))]
    dom = dict(zip(parents, case["doms"]))
    prel = [[p, parent_rel(i, dom[p])] for i, p in enumerate(parents)]
    for name, rel, cls in forms(parents, dom, case["salt"]):
        rec.hit("form " + name)
        order = prel + [["Y", rel]]
        edges = [[p, "Y"] for p in parents]
        if case["late"] and not models.needs_ready(rel):
            order = [["Y", rel]] + prel
        spec = dict(kind=cls, nodes=parents + ["Y"], edges=edges, dec=[[0, ["Y"]]], util=[], rel=order)
        if cls == "CBN":
            spec = dict(spec, dec=[])
        compare(spec, rec)


def case_named(case, rec):
    """a table that names the outcomes of its parent, in its own order"""
    m = CausalBayesianNetwork([("P", "Y")])
    columns = {"z": [0.125, 0.875], "a": [0.5, 0.5]}
    m.model["P"] = ConstantCPD("P", {"z": 0.25, "a": 0.75}, m, domain=list(case["domain"]))
    rows = [[columns[o][i] for o in case["named"]] for i in range(2)]
    m.add_cpds(TabularCPD("Y", 2, rows, evidence=["P"], evidence_card=[2], state_names={"Y": [0, 1], "P": list(case["named"])}))
    rec.state(case)
    rec.trace()
    _, table = cpd_table(m, "Y")
    for o, col in columns.items():
        rec.step()
        got = table[frozenset({("P", o)})]
        if not (close(got[0], col[0]) and close(got[1], col[1])):
            by_index = columns[case["named"][case["domain"].index(o)]]
            key = f"domain {case['domain']} named {case['named']}: read by index" if [got[0], got[1]] == by_index else None
            rec.fail(key=key, msg=f"table naming the outcomes of its parent as {case['named']}, parent with domain {case['domain']}: P(Y | P={o}) = {got}, given {col}")
            return


def case_bad(case, rec):
    """exactly one context of the relationship is improper"""
    parents = [f"P{i}" for i in range(len(case["doms"]))]
    dom = dict(zip(parents, case["doms"]))
    ctxs = list(itertools.product(*case["doms"]))
    args = ", ".join(parents)
    tup = "(" + ", ".join(parents) + ("," if len(parents) == 1 else "") + ")"
    bad = {
        "negative": {0: -0.2, 1: 1.2, 2: 0.0},
        "negative2": {0: -0.25, 1: 0.5, 2: 0.75},
        "slightly negative": {0: -0.005, 1: 0.5, 2: 0.505},
        "slightly above one": {0: 1.005, 1: 0.0, 2: 0.0},
        "above one": {0: 1.3, 1: 0.0, 2: 0.0},
        "sum above one": {0: 0.6, 1: 0.3, 2: 0.2},
        "sum below one": {0: 0.6, 1: 0.2, 2: 0.1},
        "sum above one, partial": {0: 0.8, 1: 0.4},
    }
    outside = {"outside": {7: 0.5, 0: 0.25, 1: 0.25}, "outside det": 7}
    for j, c in enumerate(ctxs):
        for name, d in [*bad.items(), *outside.items()]:
            tab = {x: {0: 0.5, 1: 0.25, 2: 0.25} for x in ctxs}
            tab[c] = d
            src = f"lambda {args}: {tab!r}[{tup}]"
            rels = [["sf", src, [2, 0, 1]]]
            if name not in outside:
                if len(ctxs) > 1 or len(d) == 3:
                    rels.append(["fun", src])
                if not parents and len(d) == 3:
                    rels.append(["dict", [[k, v] for k, v in d.items()]])
                    rels.append(["const", [[k, v] for k, v in d.items()], [1, 0, 2]])
            for rel in rels:
                spec = dict(kind="CBN", nodes=parents + ["Y"], edges=[[p, "Y"] for p in parents], rel=[])
                m = empty(spec)
                for i, p in enumerate(parents):
                    add_rel(m, p, parent_rel(i, dom[p]))
                rec.state((case, c, name, rel))
                rec.step()
                rec.trace()
                rec.hit("improper: " + name)
                try:
                    add_rel(m, "Y", rel)
                except ValueError:
                    continue
                rec.fail(f"improper relationship accepted ({name} in context {c}): {rel}")


def case_helpers(case, rec):
    for p in [0, 0.1, 0.5, 0.75, 1]:
        rec.step()
        rec.state(("b", p))
        if not all(close(a, b) for a, b in zip([bernoulli(p)[0], bernoulli(p)[1]], [1 - p, p])) or len(bernoulli(p)) != 2:
            rec.fail(f"bernoulli({p}) = {bernoulli(p)}")
    for D in DOMS + [[1, 2, 3, 4, 5]]:
        rec.step()
        rec.state(("u", str(D)))
        u = discrete_uniform(D)
        if set(u) != set(D) or not all(close(x, 1 / len(D)) for x in u.values()):
            rec.fail(f"discrete_uniform({D}) = {u}")
    # noisy copies of a parent
    for D in [[0, 1], [0, 1, 2], ["z", "a", "m"]]:
        for prob in [0.9, 0.5, 0.25]:
            for declared in [None, D, D + ["w"] if isinstance(D[0], str) else D + [11]]:
                spec = dict(kind="CBN", nodes=["X", "Y"], edges=[["X", "Y"]], rel=[["X", parent_rel(1, D)]])
                m = build(spec)
                m.add_cpds(Y=lambda X: noisy_copy(X, prob, declared))
                full = sorted(declared or D)
                tab = {}
                for x in D:
                    tab[(x,)] = {o: (prob if o == x else (1 - prob) / (len(full) - 1)) for o in full}
                ref = Ref.from_spec(dict(spec, rel=spec["rel"] + [["Y", ["cols", full, tab]]]))
                rec.step()
                rec.state(("n", str(D), prob, str(declared)))
                e = table_diff(m, "Y", ref)
                if e:
                    rec.fail(f"noisy_copy({D}, {prob}, {declared}): {e}")
    rec.trace()
