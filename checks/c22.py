"""C22: reported Nash equilibria are equilibria, and no pure equilibrium is missed"""
import contextlib
import itertools
import os

import mc.boot  # noqa: F401
from checks.c12 import util_rel
from checks.c21 import OWN, SIX, graphs, make
from mc.build import cpd_table, edited, npolicies, snap_diff, snapshot
from mc.ref import Ref, contexts, rules
from mc.structs import G

ID = "C22"
META = dict(
    rule="a case is one parameterised game without given decision rules in which every agent has perfect recall; it is solved with every applicable solver, every reported profile is read back and the gain of every "
    "deviation of every agent to every pure policy is computed by brute force; all pure equilibria are enumerated and looked up among the reported profiles (up to contexts excluded by chance or the agent's own choices)",
    bounds={
        "quick": "all 0/1 payoff matrices of two binary decisions (simultaneous, sequential, with a shared or private signal) and of zero-sum games, 512 three-player games in a circle; all graphs over {D,U}, {C,D,U}, {C,B,D,U}, "
        "{D,C,E,U}, {C,D,E,U,V} and {D,E,F,U} with leaf utilities and nine larger structures, each with exactly representable numbers and with generic probabilities, rotating owners (one to three agents), domains, utilities and orders; "
        "at most 64 policies per agent and 128 profiles",
        "thorough": "all 0/1/2 payoffs of simultaneous games (6561), 4096 three-player games, four variants of each graph, at most 600 profiles",
    },
    assumptions=["equilibria that depend on ties are only required where all numbers are exactly representable (rounding breaks ties otherwise)", "the ipa solver of pygambit is not judged (it returns wrong profiles by itself)",
                 "contexts of probability zero are not judged"],
)
CHUNK = 2
TOP = {"quick": 128, "thorough": 600}
EXACT = "x"


def matrix(dd, ee, pay, names=("D", "E")):
    return ["fun", "lambda %s, %s: %r[(%s, %s)]" % (*names, {(x, y): v for (x, y), v in zip(itertools.product(dd, ee), pay)}, *names)]


def two(kind, pu, pv, j):
    """two binary decisions, utilities of both agents depend on both"""
    dd, ee = [[0, 1], ["n", "m"], [1, 0], [2, -1]][j % 4], [[1, 0], [0, 1], ["y", "x"], ["p", "q"]][(j // 4) % 4]
    edges = [["D", "U"], ["E", "U"], ["D", "V"], ["E", "V"]]
    nodes, rel = ["D", "E", "U", "V"], [["D", ["dec", dd]], ["E", ["dec", ee]]]
    if kind == "seq":
        edges.append(["D", "E"])
    elif kind in ("signal", "private"):
        nodes.insert(0, "C")
        rel.insert(0, ["C", ["dict", [[0, 0.5], [1, 0.5]]]])
        edges.append(["C", "D"])
        if kind == "signal":
            edges.append(["C", "E"])
        else:
            edges.append(["C", "V"])
    elif kind == "leak":  # E sees a noisy copy of D
        nodes.insert(1, "C")
        edges += [["D", "C"], ["C", "E"]]
        rel.insert(1, ["C", ["fun", "lambda D: {0: 0.75, 1: 0.25} if D == %r else {0: 0.25, 1: 0.75}" % (dd[0],)]])
    rel.append(["U", matrix(dd, ee, pu)])
    if kind == "private":
        rel.append(["V", ["fun", "lambda C, D, E: %r[(D, E)] * (1 - 2 * C)" % {k: v for k, v in zip(itertools.product(dd, ee), pv)}]])
    else:
        rel.append(["V", matrix(dd, ee, pv)])
    own = OWN[[0, 1, 4][j % 3]]
    if j % 2:
        edges, nodes = edges[::-1], nodes[::-1]
    return dict(kind="MACID", nodes=nodes, edges=edges, dec=[[own["D"], ["D"]], [own["E"], ["E"]]][:: -1 if (j // 2) % 2 else 1], util=[[own["U"], ["U"]], [own["V"], ["V"]]], rel=rel, given=[], prev=0, exact=True)


def circle(a, b, c, j):
    bits = lambda n: [(n >> k) & 1 for k in range(4)]
    doms = {"D": [0, 1], "E": [1, 0], "F": ["s", "r"]}
    rel = [[d, ["dec", x]] for d, x in doms.items()]
    for u, (x, y), n in (("U", "DE", a), ("V", "EF", b), ("W", "FD", c)):
        rel.append([u, matrix(doms[x], doms[y], bits(n), (x, y))])
    return dict(kind="MACID", nodes=list("DEFUVW"), edges=[["D", "U"], ["E", "U"], ["E", "V"], ["F", "V"], ["F", "W"], ["D", "W"]], dec=[[0, ["D"]], [1, ["E"]], [2, ["F"]]][:: -1 if j % 2 else 1],
                util=[[0, ["U"]], [1, ["V"]], [2, ["W"]]], rel=rel, given=[], prev=0, exact=True)


def exactly(spec, i):
    """the same game with uniform roots, parities and integer utilities"""
    roles = {n: "d" for _, ns in spec["dec"] for n in ns}
    roles.update({n: "u" for _, ns in spec["util"] for n in ns})
    from mc.ref import topo

    old = dict((n, r) for n, r in spec["rel"])
    dom, rel = {}, []
    for v in topo(spec["nodes"], [tuple(e) for e in spec["edges"]]):
        ps = [u for u, w in spec["edges"] if w == v]
        if roles.get(v) == "d":
            r = ["dec", old[v][1]]
        elif roles.get(v) == "u":
            tab = [[3, -1, 4, 0, 2, 7, -5, 1], [0, 1, 1, 0], [2, 2, 0, 1], [1, 0]][(i + (v == "V")) % 4]
            r = util_rel(ps, dom, lambda j, n: tab[j % len(tab)])
        elif ps:
            args = ", ".join(ps)
            r = ["fun", "lambda %s: [-2, 3][(%s) %% 2]" % (args, " + ".join("%r.index(%s)" % (list(dom[p]), p) for p in ps))]
        else:
            r = ["dict", [["k", 0.5], ["l", 0.5]]] if i % 2 else ["dict", [[0, 0.5], [1, 0.5]]]
        from mc.ref import Ref

        dom[v] = Ref.table(v, r, ps, dom)[0]
        rel.append([v, r])
    return dict(spec, rel=rel, exact=True)


def cases(tier):
    full = tier == "thorough"
    j = 0
    for kind in ("sim", "seq", "signal", "private", "leak"):
        vals = [0, 1, 2] if full and kind == "sim" else [0, 1]
        for p in itertools.product(vals, repeat=8):
            j += 1
            if kind in ("sim", "seq") or full or p[0] <= p[3] and p[4] == 1:  # the others: up to a quarter of the space
                yield dict(two(kind, p[:4], p[4:], j), solvers=["enumpure", "enummixed"] if kind != "sim" else [None, "enumpure", "lcp", "simpdiv", "gnm"][:: 1 if j % 2 else -1][:3])
    for p in itertools.product([0, 1, 3], repeat=4):
        for kind in ("sim", "seq"):
            j += 1
            yield dict(two(kind, p, [3 - x for x in p], j), solvers=["lp", "lcp"])
    for a in range(16):
        for b in range(16):
            for c in range(16) if full else (6, 9):
                j += 1
                yield dict(circle(a, b, c, j), solvers=[None, "enumpure"] if j % 3 else ["simpdiv", "gnm", "lp"])
    i = 0
    for spec in structures(tier):
        if not perfect_recall(G(spec)):
            continue
        i += 1
        n = len([a for a, ns in spec["dec"] if ns])
        rest = [None, "enummixed", "lcp"] if n == 2 else [None, "simpdiv"]
        for s in (exactly(spec, i), dict(spec, exact=False)):
            s = dict(s, kind="MACID", solvers=["enumpure", rest[i % len(rest)]] if i % 7 or n > 2 else ["simpdiv", "gnm"])
            if small(s, TOP[tier]):
                yield s


def structures(tier):
    i = 0
    for names in (["D", "U"], ["C", "D", "U"], ["C", "B", "D", "U"], ["D", "C", "E", "U"], ["C", "D", "E", "U", "V"], ["D", "E", "F", "U"]):
        for edges in graphs(names):
            for k in range(4 if tier == "thorough" or len(names) < 4 else 1):
                i += 1
                yield make(names, edges, i)
    for j, (names, edges) in enumerate(SIX):
        for k in range(14 if tier == "quick" else 100):
            yield make(names, edges, 11 * k + j)


def small(spec, top):
    g = G(spec)
    ref = Ref.from_spec(spec)
    n = 1
    for a, ds in g.dec.items():
        k = 1
        for d in ds:
            k *= len(ref.dom[d]) ** len(contexts(ref, d))
        if k > 64:
            return False
        n *= k
    return n <= top


def run_case(spec, rec):
    rec.state(spec)
    rec.trace()
    g, ref = G(spec), Ref.from_spec(spec)
    fl = Flat(g, ref)
    m = edited(spec, lambda m: npolicies(m) <= 256 and m.get_ne(solver="enumpure"), 8)
    m2 = m.copy()
    eqs = None
    before = snapshot(m)
    for solver in spec["solvers"]:
        with quiet():
            nes = m.get_ne() if solver is None else m.get_ne(solver=solver)
        rec.step()
        e = snap_diff(before, snapshot(m))
        if e:
            rec.fail(f"get_ne({solver}) changed the diagram: {e}")
        what = f"get_ne({solver})"
        seen = []
        for ne in nes:
            prof, e = profile(m2, ne, ref, fl.decs)
            if e:
                rec.fail(f"{what}: {e}")
                break
            seen.append(prof)
            gain, a, dev = fl.regret(prof)
            if gain > TOL.get(solver, 1e-6) * fl.scale():
                rec.fail(f"{what}: agent {a} gains {gain} by deviating from {prof} to {dev}")
                break
            rec.step()
        rec.hit(f"profiles of {solver}", len(seen))
        if solver in (None, "enumpure", "enummixed") or solver in ("lp", "lcp") and len(fl.agents) != 2:
            if eqs is None:
                eqs = list(pure_equilibria(fl))
            if not complete(spec, rec, fl, eqs, seen, what):
                return
            if solver == "enumpure" and any(not pure(p, fl) for p in seen):
                rec.fail(f"{what}: a profile is not pure")
            if not eqs and spec["exact"] and solver is not None:
                rec.hit("no pure equilibrium")
                if solver == "enumpure" and seen:
                    rec.fail(f"{what}: there is no pure equilibrium")
    rec.hit(f"{len(fl.agents)} agents")


TOL = {"simpdiv": 1e-3, "gnm": 1e-3, None: 1e-3}


def pure(prof, fl):
    return all(max(prof[d][c].values()) > 1 - 1e-9 for a in fl.agents for d, c in fl.relevant(prof, a))


def complete(spec, rec, fl, eqs, seen, what):
    tol = 1e-9 * fl.scale()
    for eq in eqs:
        if not spec["exact"] and not fl.strict(eq, 1e-7 * fl.scale()):
            rec.hit("equilibria with ties")
            continue
        rel = set().union(*[fl.relevant(eq, a) for a in fl.agents])
        if not any(all(abs(p[d][c][o] - eq[d][c][o]) < 1e-6 for d, c in rel for o in eq[d][c]) for p in seen):
            rec.fail(f"{what}: the pure equilibrium {eq} is missing among {len(seen)} profiles")
            return False
        rec.step()
        rec.hit("pure equilibria")
    return True


@contextlib.contextmanager
def quiet():
    """gambit prints from C"""
    old = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        os.dup2(old, 1)
        os.close(old)
        os.close(null)


# -- games ------------------------------------------------------------------------------------------


class Flat:
    """the strategic form of a diagram: every assignment with its probability apart from the decisions, payoffs and contexts"""

    def __init__(self, g, ref):
        self.g, self.ref = g, ref
        self.decs = list(g.decs)
        mixed = ref
        for d in self.decs:
            mixed = mixed.with_rule(d, {c: {o: 1.0 for o in ref.dom[d]} for c in contexts(ref, d)})
        self.rows = []
        for a, p in mixed.joint():
            self.rows.append((p, {x: sum(a[u] for u in us) for x, us in g.util.items()}, {d: (tuple(a[q] for q in ref.par[d]), a[d]) for d in self.decs}))
        self.agents = [a for a in g.dec if g.dec[a]]
        self.ctxs = {d: contexts(ref, d) for d in self.decs}

    def eu(self, prof, agent):
        t = 0.0
        for p, pay, at in self.rows:
            for d in self.decs:
                c, o = at[d]
                p *= prof[d][c].get(o, 0.0)
                if p == 0:
                    break
            else:
                t += p * pay[agent]
        return t

    def strategies(self, agent, decs=None):
        ds = [d for d in self.g.dec[agent] if decs is None or d in decs]
        for rs in itertools.product(*[list(rules(self.ref.dom[d], self.ctxs[d])) for d in ds]):
            yield dict(zip(ds, rs))

    def count(self, agent, decs=None):
        n = 1
        for d in self.g.dec[agent]:
            if decs is None or d in decs:
                n *= len(self.ref.dom[d]) ** len(self.ctxs[d])
        return n

    def regret(self, prof, decs=None):
        """(largest gain of an agent by changing its rules for decs, agent)"""
        best = (0.0, None, None)
        for a in self.agents:
            if decs is not None and not set(self.g.dec[a]) & set(decs):
                continue
            # payoff is linear in the rules of the agent: collect the weights first
            own = [d for d in self.g.dec[a] if decs is None or d in decs]
            acc = {}
            for p, pay, at in self.rows:
                for d in self.decs:
                    if d not in own:
                        p *= prof[d][at[d][0]].get(at[d][1], 0.0)
                if p and pay[a]:
                    k = tuple(at[d] for d in own)
                    acc[k] = acc.get(k, 0.0) + p * pay[a]

            def val(s):
                t = 0.0
                for k, w in acc.items():
                    for d, (c, o) in zip(own, k):
                        w *= s[d][c].get(o, 0.0)
                    t += w
                return t

            now = val(prof)
            for s in self.strategies(a, decs):
                gain = val(s) - now
                if gain > best[0]:
                    best = (gain, a, s)
        return best

    def strict(self, prof, margin):
        """does every deviation in a context that matters lose more than margin?"""
        for a in self.agents:
            rel = self.relevant(prof, a)
            now = self.eu(prof, a)
            for s in self.strategies(a):
                if any(s[d][c] != prof[d][c] for d, c in rel if d in s) and self.eu({**prof, **s}, a) > now - margin:
                    return False
        return True

    def relevant(self, prof, agent, decs=None):
        """contexts of the agent's decisions (in decs) that its own rules, chance and the decisions outside of decs do not exclude"""
        out = set()
        own = [d for d in self.g.dec[agent] if decs is None or d in decs]
        for p, _, at in self.rows:
            ok = p > 1e-13 and (decs is None or all(prof[e][at[e][0]].get(at[e][1], 0.0) > 0 for e in self.decs if e not in decs))
            for d in own:
                if not ok:
                    break
                # d is reached if the preceding own decisions are played
                if all(prof[e][at[e][0]].get(at[e][1], 0.0) > 0 for e in own if e in self.before(d)):
                    out.add((d, at[d][0]))
        return out

    def before(self, d):
        from mc.ref import ancestors

        return ancestors(self.g.edges, d)

    def scale(self):
        return max([1.0] + [abs(x) for _, pay, _ in self.rows for x in pay.values()])


def perfect_recall(g):
    """every agent observes its earlier decisions and what it observed then"""
    for a, ds in g.dec.items():
        for d, e in itertools.combinations(ds, 2):
            x, y = (d, e) if d in g.par(e) else (e, d)
            if x not in g.par(y) or not set(g.par(x)) <= set(g.par(y)):
                return False
    return True


def read_rule(m, d, ref):
    t = cpd_table(m, d)
    dom, tab = t
    if dom != list(ref.dom[d]) or any(frozenset(zip(ref.par[d], c)) not in tab for c in contexts(ref, d)):
        return None
    return {c: tab[frozenset(zip(ref.par[d], c))] for c in contexts(ref, d)}


def profile(m, cpds, ref, decs):
    """(profile of rules or None, error)"""
    if sorted(c.variable for c in cpds) != sorted(decs):
        return None, f"rules for {[c.variable for c in cpds]}, expected one for each of {decs}"
    m.add_cpds(*cpds)
    out = {}
    for d in decs:
        r = read_rule(m, d, ref)
        if r is None:
            return None, f"the rule of {d} does not fit the decision: {m.get_cpds(d)}"
        for c, dist in r.items():
            if abs(sum(dist.values()) - 1) > 1e-6 or min(dist.values()) < -1e-9:
                return None, f"the rule of {d} in context {c} is {dist}"
        out[d] = r
    return out, None


def pure_equilibria(fl):
    spaces = {a: list(fl.strategies(a)) for a in fl.agents}
    val = {}
    profs = list(itertools.product(*[range(len(spaces[a])) for a in fl.agents]))
    for pr in profs:
        prof = {}
        for a, k in zip(fl.agents, pr):
            prof.update(spaces[a][k])
        val[pr] = {a: fl.eu(prof, a) for a in fl.agents}
    tol = 1e-9 * fl.scale()
    for pr in profs:
        ok = True
        for j, a in enumerate(fl.agents):
            v = val[pr][a]
            if any(val[(*pr[:j], k, *pr[j + 1:])][a] > v + tol for k in range(len(spaces[a]))):
                ok = False
                break
        if ok:
            prof = {}
            for a, k in zip(fl.agents, pr):
                prof.update(spaces[a][k])
            yield prof


def finish(total, tier):
    from mc.harness import CheckError

    for k in ("pure equilibria", "no pure equilibrium", "1 agents", "2 agents", "3 agents", "profiles of lp", "profiles of lcp", "profiles of simpdiv", "profiles of None", "profiles of enummixed"):
        if total.hits.get(k, 0) < 5:
            raise CheckError("vacuous: " + k)
