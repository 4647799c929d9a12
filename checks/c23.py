"""C23: reported subgame perfect equilibria are equilibria in every subgame"""
import itertools

import mc.boot  # noqa: F401
from checks import c22
from checks.c21 import SIX, graphs, make
from checks.c22 import Flat, TOL, exactly, perfect_recall, profile, quiet, small, two
from checks.c24 import closed_sets
from mc.build import edited, npolicies, snap_diff, snapshot
from mc.ref import Ref, contexts
from mc.structs import G, sccs

ID = "C23"
META = dict(
    rule="a case is one parameterised game without given decision rules in which every agent has perfect recall; for every reported profile and every set of decisions closed under relevance the gain of every deviation of "
    "every agent to every pure policy within the set is computed by brute force, with the decisions outside at two fully mixed rules; all pure profiles without such gains are enumerated and looked up among the reported "
    "profiles (up to contexts excluded by chance or the agent's own choices in the same component); the equilibria of every single subgame are treated in the same way",
    bounds={
        "quick": "sequential games with all 0/1 payoffs, with perfect and noisy observation; all graphs over {D,U}, {C,D,U}, {C,B,D,U}, {D,C,E,U}, {D,E,F,U} and those over {C,D,E,U,V} and {D,E,F,U,V} with at most 6 edges (leaf utilities), and nine larger structures, "
        "with exactly representable numbers or generic probabilities, rotating owners (one to three agents), domains, utilities and orders; at most 64 policies per agent and 128 profiles",
        "thorough": "both kinds of numbers for all graphs, four variants of each, at most 256 profiles",
    },
    assumptions=c22.META["assumptions"],
)
CHUNK = 1


def cases(tier):
    full = tier == "thorough"
    j = 0
    for p in itertools.product([0, 1], repeat=8):
        for kind in ("seq", "leak"):
            j += 1
            if kind == "seq" or full or p[0] <= p[3] and p[4] == 1:
                yield dict(two(kind, p[:4], p[4:], j), solver=[None, "enumpure"][j % 2])
    i = 0
    for spec in structures(tier):
        if not perfect_recall(G(spec)):
            continue
        i += 1
        for k, s in enumerate((exactly(spec, i), dict(spec, exact=False))):
            if not full and i % 3 != 0 and k:
                continue
            s = dict(s, kind="MACID", solver=[None, "enumpure", "enumpure", "enumpure", "simpdiv"][(i // 2) % 5])
            if small(s, 256 if full else 128):
                yield s


def structures(tier):
    i = 0
    for names in (["D", "U"], ["C", "D", "U"], ["C", "B", "D", "U"], ["D", "C", "E", "U"], ["D", "E", "F", "U"], ["C", "D", "E", "U", "V"], ["D", "E", "F", "U", "V"]):
        for edges in graphs(names):
            if tier == "thorough" or len(names) < 5 or len(edges) <= 6:
                for k in range(4 if tier == "thorough" or len(names) < 4 else 1):
                    i += 1
                    yield make(names, edges, i)
    for j, (names, edges) in enumerate(SIX):
        for k in range(14 if tier == "quick" else 100):
            yield make(names, edges, 11 * k + j)


def mixes(ref, decs):
    out = []
    for k in range(2):
        m = {}
        for d in decs:
            m[d] = {}
            for q, c in enumerate(contexts(ref, d)):
                w = {o: (1 if k == 0 else 1 + (2 * q + z) % 3) for z, o in enumerate(ref.dom[d])}
                t = sum(w.values())
                m[d][c] = {o: x / t for o, x in w.items()}
        out.append(m)
    return out


def gains(fl, prof, subgames, outside):
    """the largest gain in any subgame: (gain, subgame, agent, deviation)"""
    best = (0.0, None, None, None)
    for s in subgames:
        for mix in outside[:1] if s == set(fl.decs) else outside:
            full = {d: prof[d] if d in s else mix[d] for d in fl.decs}
            gain, a, dev = fl.regret(full, s)
            if gain > best[0]:
                best = (gain, sorted(s), a, dev)
    return best


def pure_profiles(fl, decs):
    agents = [a for a in fl.agents if set(fl.g.dec[a]) & set(decs)]
    for combo in itertools.product(*[list(fl.strategies(a, decs)) for a in agents]):
        prof = {}
        for s in combo:
            prof.update(s)
        yield prof


def played(fl, prof, mix, s):
    """the rules while component s is considered: those of s and of the decisions that it relies on"""
    rel = fl.g.relevance()
    keep = set(s)
    while any(a in keep and b not in keep for a, b in rel):
        keep |= {b for a, b in rel if a in keep}
    return {d: prof[d] if d in keep and d in prof else mix[d] for d in fl.decs}


def strict(fl, prof, comps, mix, margin):
    """every deviation in a context that matters, in any component, loses more than margin"""
    for s in comps:
        full = played(fl, prof, mix, s)
        for a in fl.agents:
            if not set(fl.g.dec[a]) & set(s):
                continue
            rel = fl.relevant(full, a, s)
            now = fl.eu(full, a)
            for dev in fl.strategies(a, s):
                if any(dev[d][c] != prof[d][c] for d, c in rel if d in dev) and fl.eu({**full, **dev}, a) > now - margin:
                    return False
    return True


def run_case(spec, rec):
    rec.state(spec)
    rec.trace()
    g, ref = G(spec), Ref.from_spec(spec)
    fl = Flat(g, ref)
    exact = spec["exact"] and all(len(ref.dom[d]) in (2, 4) for d in fl.decs)
    m = edited(spec, lambda m: npolicies(m) <= 256 and m.get_spe(solver="enumpure"), 8)
    solver = spec["solver"]
    before = snapshot(m)
    subgames = list(closed_sets(g))
    comps = sccs(g.decs, sorted(g.relevance()))
    with quiet():
        spes = m.get_spe() if solver is None else m.get_spe(solver=solver)
    judge(spec, rec, g, ref, fl, exact, m.copy(), spes, fl.decs, subgames, comps, f"get_spe({solver})")
    if len(subgames) > 1:
        for s in subgames:
            if s != set(fl.decs):
                arg = sorted(s) if len(s) % 2 else set(s)
                with quiet():
                    nes = m.get_ne_in_sg(decisions_in_sg=arg) if solver is None else m.get_ne_in_sg(arg, solver)
                judge(spec, rec, g, ref, fl, exact, m.copy(), nes, sorted(s), [s], [s], f"get_ne_in_sg({sorted(s)}, {solver})")
        rec.hit("proper subgames")
    e = snap_diff(before, snapshot(m))
    if e:
        rec.fail(f"the diagram was changed: {e}")
    rec.hit(f"{len(comps)} components")
    rec.hit(f"{len(fl.agents)} agents")
    if any(len(c) > 1 for c in comps):
        rec.hit("components of several decisions")


def judge(spec, rec, g, ref, fl, exact, m2, profs, decs, subgames, comps, what):
    rec.step()
    outside = mixes(ref, fl.decs)
    tol = TOL.get(spec["solver"], 1e-6) * fl.scale()
    seen = []
    for cpds in profs:
        prof, e = profile(m2, cpds, ref, decs)
        if e:
            rec.fail(f"{what}: {e}")
            return
        seen.append(prof)
        gain, s, a, dev = gains(fl, prof, subgames, outside)
        if gain > tol:
            rec.fail(f"{what}: in the subgame of {s} agent {a} gains {gain} by deviating from {prof} to {dev}")
            return
        rec.step()
    rec.hit("profiles", len(seen))
    if spec["solver"] not in (None, "enumpure"):
        return
    for eq in pure_profiles(fl, decs):
        if gains(fl, eq, subgames, outside)[0] > 1e-9 * fl.scale():
            continue
        if not exact and not strict(fl, eq, comps, outside[0], 1e-7 * fl.scale()):
            rec.hit("equilibria with ties")
            continue
        rel = set().union(*[fl.relevant(played(fl, eq, outside[0], s), a, s) for s in comps for a in fl.agents if set(g.dec[a]) & set(s)])
        if not any(all(abs(p[d][c][o] - eq[d][c][o]) < 1e-6 for d, c in rel for o in eq[d][c]) for p in seen):
            rec.fail(f"{what}: the pure equilibrium {eq} is missing among {len(seen)} profiles")
            return
        rec.step()
        rec.hit("pure equilibria")


def finish(total, tier):
    from mc.harness import CheckError

    for k in ("pure equilibria", "profiles", "1 agents", "2 agents", "3 agents", "1 components", "2 components", "3 components", "components of several decisions", "proper subgames"):
        if total.hits.get(k, 0) < 5:
            raise CheckError("vacuous: " + k)
