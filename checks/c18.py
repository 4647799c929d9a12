"""C18: quantitative value of information and control are differences of optima"""
import itertools
import random

import mc.boot  # noqa: F401
from checks.c12 import UT, fill
from checks.c13 import previous
from mc.build import edited, snap_diff, snapshot
from mc.ref import Ref, contexts, descendants, max_eu
from mc.structs import G
from pycid.analyze.value_of_control import quantitative_voc
from pycid.analyze.value_of_information import quantitative_voi

ID = "C18"
META = dict(
    rule="a case is one parameterised single-agent diagram with a history of policies given before; the value of information of every node for every decision and the value of control of "
    "every node are compared with the difference of the maxima over all joint pure policies, found by brute force, of the original and of the modified reference model; the graphical "
    "criteria (reference versions) must admit every node with positive value",
    bounds={
        "quick": "all graphs over the skeletons {C,D,U}, {C,D,E,U}, {D,C,E,U}, {D,U,E,V}, {C,B,D,U}, {D,E,U,V} (utilities as parents included where the order allows) with rotating "
        "utility tables, domains, kinds of chance nodes and previous policies; five-node structures; models with up to 256 joint policies (64 where controlling the node breaks sufficient recall)",
        "thorough": "every utility table with every graph, all histories, five-node skeletons, up to 1024 (256) policies",
    },
    assumptions=["nodes whose modified model exceeds the bound on policies are skipped", "utilities take numbers"],
)
CHUNK = 2
FAMS = [["C", "D", "U"], ["D", "C", "U"], ["C", "D", "E", "U"], ["D", "C", "E", "U"], ["D", "U", "E", "V"], ["C", "B", "D", "U"], ["C", "D", "B", "U"], ["D", "E", "U", "V"]]
DOMS = [{"D": [0, 1], "E": [1, 0]}, {"D": ["n", "m"], "E": [2, 7]}, {"D": [0, 1, 2], "E": [0, 1]}, {"D": [0, 1], "E": ["x", "a"]}]


def make(names, edges, i):
    roles = {n: "d" if n in "DE" else "u" if n in "UV" else "c" for n in names}
    decs = [n for n in names if roles[n] == "d"]
    ut = {"U": UT[i % 4], "V": UT[(i + 1) % 4]}
    rel = fill(names, edges, roles, DOMS[(i // 3) % 4], ut, "bdnzsp"[(i // 2) % 6], i % 5)
    return dict(kind="CID", nodes=names if i % 2 else names[::-1], edges=edges if (i // 2) % 2 else edges[::-1], dec=[[0, decs if i % 3 else decs[::-1]]],
                util=[[0, [n for n in names if roles[n] == "u"]]], rel=rel, prev=i % 6)


FIVE = [
    (["C", "B", "D", "U", "V"], [["C", "B"], ["B", "D"], ["C", "U"], ["D", "U"], ["B", "V"]]),
    (["C", "D", "B", "E", "U"], [["C", "D"], ["C", "B"], ["D", "B"], ["B", "E"], ["D", "U"], ["E", "U"]]),
    (["C", "D", "E", "U", "V"], [["C", "D"], ["D", "E"], ["C", "V"], ["D", "U"], ["E", "V"]]),
    (["C", "A", "B", "D", "U"], [["C", "A"], ["A", "B"], ["B", "D"], ["C", "U"], ["D", "U"]]),
    (["A", "B", "D", "C", "U"], [["A", "D"], ["B", "U"], ["D", "C"], ["A", "C"], ["C", "U"]]),
    (["D", "B", "U", "E", "V"], [["D", "B"], ["B", "U"], ["U", "E"], ["E", "V"], ["B", "V"]]),
]


def graphs(names):
    pairs = [(u, v) for i, u in enumerate(names) for v in names[i + 1:]]
    for k in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, k):
            if any(v in "UV" for _, v in es):
                yield [list(e) for e in es]


def cases(tier):
    i = 0
    for names in FAMS:
        for edges in graphs(names):
            for k in range(4 if tier == "thorough" or len(names) == 3 else 1):
                i += 1
                yield make(names, edges, i + k)
    for j, (names, edges) in enumerate(FIVE):
        for k in range(12 if tier == "quick" else 60):
            yield make(names, edges, 7 * k + j)
    if tier == "thorough":
        for names in (["C", "D", "B", "E", "U"], ["C", "A", "B", "D", "U"]):
            for edges in graphs(names):
                if 4 <= len(edges) <= 6:
                    i += 1
                    yield make(names, edges, i)


def npol(ref, decs):
    n = 1
    for d in decs:
        n *= len(ref.dom[d]) ** len(contexts(ref, d))
        if n > 1 << 20:
            break
    return n


def tabular_rule(m, d):
    """any fixed rule, given as a function of the current observations"""
    dom = m.model.domain[d]
    m.add_cpds(**{d: lambda **pv: {o: 1 / len(dom) for o in dom}})


def warm(m):
    for d in m.decisions:
        for n in m.nodes:
            try:
                quantitative_voi(m, d, n)
            except ValueError:
                pass


def run_case(spec, rec):
    rec.state(spec)
    rec.trace()
    decs, utils = spec["dec"][0][1], spec["util"][0][1]
    ref = Ref.from_spec(spec)
    g = G(spec)
    top = TOP
    if npol(ref, decs) > top:
        rec.hit("skipped: too many policies")
        rec.step()
        return
    base = max_eu(ref, decs, utils)
    suff = g.recall()

    def fresh():
        m = edited(spec, warm)
        if spec["prev"] == 5:
            for d in decs:
                tabular_rule(m, d)
        else:
            previous(m, spec, spec["prev"])
        return m, snapshot(m)

    m, before = fresh()

    def unchanged(what):
        e = snap_diff(before, snapshot(m))
        if e:
            rec.fail(f"{what} changed the diagram: {e}")

    for d in decs:
        for x in g.nodes:
            if x == d or x in descendants(g.edges, d):
                rec.step()
                try:
                    quantitative_voi(m, d, x)
                    rec.fail(f"quantitative_voi({d!r}, {x!r}) of a descendant is not refused")
                except ValueError:
                    pass
                continue
            out = []
            for edges in ([*g.edges, (x, d)] if (x, d) not in g.edges else g.edges, [e for e in g.edges if e != (x, d)]):
                s = dict(spec, edges=[list(e) for e in edges])
                r = Ref.from_spec(s)
                if npol(r, decs) > top:
                    out = None
                    break
                out.append((max_eu(r, decs, utils), G(s)))
            if out is None:
                rec.hit("skipped: too many policies")
                continue
            (e1, g1), (e2, g2) = out
            random.seed(5)
            got = quantitative_voi(m, d, x)
            rec.step()
            if abs(got - (e1 - e2)) > 1e-7 * max(1, abs(e1), abs(e2)):
                rec.fail(f"quantitative_voi({d!r}, {x!r}) is {got}, expected {e1} - {e2} = {e1 - e2}")
            if e1 - e2 > 1e-9:
                rec.hit("positive value of information")
                if g1.recall() and (x, d) not in g1.reduced():
                    rec.fail(f"{x!r} has value of information {e1 - e2} for {d!r}, although the criterion does not admit it")
            else:
                rec.hit("no value of information")
            unchanged("quantitative_voi")
    for x in g.nodes:
        if x in decs:
            random.seed(5)
            got = quantitative_voc(m, x)
            rec.step()
            if abs(got) > 1e-7 * max(1, abs(base)):
                rec.fail(f"quantitative_voc({x!r}) of a decision is {got}")
            continue
        r = Ref(ref.nodes, ref.edges, ref.dom, ref.cpt, ref.par)
        if npol(r, [*decs, x]) > (top if G(dict(spec, dec=[[0, [*decs, x]]], util=[[0, [*(u for u in utils if u != x), *([x + "'"] if x in utils else [])]]],
                                                    edges=[*spec["edges"], *([[x, x + "'"]] if x in utils else [])])).recall() else top // 4):
            rec.hit("skipped: too many policies")
            continue
        best = max_eu(r, [*decs, x], utils)
        random.seed(5)
        got = quantitative_voc(m, x)
        rec.step()
        if abs(got - (best - base)) > 1e-7 * max(1, abs(best), abs(base)):
            rec.fail(f"quantitative_voc({x!r}) is {got}, expected {best} - {base} = {best - base}")
        if best - base > 1e-9:
            rec.hit("positive value of control" + (" of a utility" if x in utils else ""))
            if suff and not (x in utils or any(u in descendants(g.reduced(), x) for u in utils)):
                rec.fail(f"{x!r} has value of control {best - base}, although the criterion does not admit it")
        else:
            rec.hit("no value of control")
        unchanged("quantitative_voc")
    for f in (lambda: quantitative_voc(m, "nowhere"), lambda: quantitative_voi(m, decs[0], "nowhere")):
        try:
            f()
            rec.fail("unknown node is not refused")
        except KeyError:
            pass


TOP = 256


def prepare(tier):
    global TOP
    TOP = 256 if tier == "quick" else 1024


def finish(total, tier):
    from mc.harness import CheckError

    for k in ("positive value of information", "no value of information", "positive value of control", "positive value of control of a utility", "no value of control"):
        if total.hits.get(k, 0) < 20:
            raise CheckError("vacuous: " + k)
