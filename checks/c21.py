"""C21: exported extensive-form games are faithful to the diagram"""
import contextlib
import io
import itertools
import os
import tempfile

import mc.boot  # noqa: F401
import pygambit
from checks.c12 import UT, fill
from mc.build import cpd_table, edited, snap_diff, snapshot
from mc.ref import Ref, bounded_rules, contexts
from mc.structs import G
from pycid.export.gambit import behavior_to_cpd, macid_to_efg, macid_to_gambit_file

ID = "C21"
META = dict(
    rule="a case is one parameterised diagram, optionally with rules given for decisions that are not exported; the exported tree is walked completely: for some topological order of the "
    "decisions and observations every path must be an assignment, and leaf probabilities (under every pure joint policy, or, if there are more than 64, the deviations of every decision from two of them, of decisions with more than 64 rules those that are constant except in one context, and one mixed "
    "policy), payoffs, players, information sets and the translation of a behaviour profile back into rules are compared with the reference; the exported file is parsed and compared with the tree",
    bounds={
        "quick": "all graphs over {C,D,E,U,V} and {C,B,D,U} (leaf utilities), all over {D,C,E,U} , {D,B,E,U} with an unexported decision B, six-node structures with hidden common causes and three "
        "decisions; rotating owners (one to three agents), domains, chance nodes (generic, deterministic, partial, tables with unsorted domains), utility tables and orders",
        "thorough": "four variants of each, all graphs over {C,D,B,E,U} with at most 7 edges",
    },
    assumptions=["outcomes of a variable differ as strings", "probabilities and payoffs at leaves of probability zero are not judged"],
)
CHUNK = 2
DOMS = [{"D": [0, 1], "E": [1, 0], "F": [0, 1]}, {"D": ["n", "m"], "E": [2, 7], "F": ["q", "p"]}, {"D": [0, 1, 2], "E": ["z", "y"], "F": [3, 1]}, {"D": [1, -1], "E": ["b", "c", "a"], "F": [1, 0]}]
OWN = [  # owner of D, E, F, U, V
    dict(D=0, E=1, F=2, U=0, V=1), dict(D="x", E="y", F="x", U="x", V="y"), dict(D=1, E=1, F=0, U=1, V=0), dict(D=0, E=0, F=0, U=0, V=0), dict(D="b", E="a", F="c", U="a", V="b"),
]


def make(names, edges, i, given=()):
    roles = {n: "d" if n in "DEF" else "u" if n in "UV" else "c" for n in names}
    ut = {"U": UT[i % 4], "V": UT[(i + 1) % 4]}
    doms = DOMS[(i // 3) % 4]
    if len(names) > 5:
        doms = {k: v[:2] for k, v in doms.items()}
    rel = fill(names, edges, roles, doms, ut, "bdpnzDt"[(i // 2) % 7], i % 5, given)
    own = OWN[(i // 5) % 5]
    dec, util = {}, {}
    for n in names if i % 3 else names[::-1]:
        if roles[n] in "du":
            dec.setdefault(own[n], [])
            util.setdefault(own[n], [])
            (dec if roles[n] == "d" else util)[own[n]].append(n)
    kind = "CID" if set(dec) == {0} and i % 2 else ["MACID", "MACIDBase"][i % 2]
    return dict(kind=kind, nodes=names if i % 2 else names[::-1], edges=edges if (i // 2) % 2 else edges[::-1], dec=[[a, ns] for a, ns in dec.items()],
                util=[[a, ns] for a, ns in util.items()], rel=rel, given=list(given), prev=(i // 3) % 3)


def graphs(names):
    pairs = [(u, v) for i, u in enumerate(names) for v in names[i + 1:] if u not in "UV"]
    for k in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, k):
            yield [list(e) for e in es]


SIX = [
    (["A", "C", "D", "B", "E", "U"], [["A", "C"], ["A", "B"], ["C", "D"], ["B", "E"], ["D", "U"], ["E", "U"]]),
    (["A", "C", "D", "B", "E", "U"], [["A", "C"], ["A", "B"], ["C", "D"], ["D", "B"], ["B", "E"], ["A", "U"], ["E", "U"]]),
    (["A", "D", "C", "E", "U", "V"], [["A", "C"], ["D", "C"], ["C", "E"], ["A", "U"], ["E", "U"], ["E", "V"], ["D", "V"]]),
    (["D", "E", "F", "U", "V"], [["D", "E"], ["E", "F"], ["D", "F"], ["D", "U"], ["E", "U"], ["F", "V"]]),
    (["D", "E", "F", "U", "V"], [["D", "U"], ["E", "U"], ["F", "U"], ["F", "V"], ["D", "V"]]),
    (["C", "D", "E", "F", "U"], [["C", "D"], ["C", "E"], ["C", "F"], ["D", "U"], ["E", "U"], ["F", "U"]]),
    (["C", "D", "E", "F", "U", "V"], [["C", "D"], ["D", "E"], ["C", "F"], ["E", "F"], ["D", "U"], ["F", "U"], ["E", "V"]]),
    (["C", "B", "D", "E", "U", "V"], [["C", "D"], ["B", "D"], ["B", "E"], ["C", "E"], ["C", "U"], ["D", "U"], ["E", "V"], ["B", "V"]]),
    (["D", "C", "E", "B", "F", "U"], [["D", "C"], ["C", "E"], ["E", "B"], ["B", "F"], ["C", "F"], ["F", "U"], ["D", "U"]]),
]


def cases(tier):
    i = 0
    for names, given in ((["D", "U"], ()), (["C", "D", "U"], ()), (["C", "B", "D", "U"], ()), (["D", "C", "E", "U"], ()), (["C", "D", "E", "U", "V"], ()), (["D", "E", "F", "U"], ("E",)), (["D", "C", "E", "U"], ("D",))):
        for edges in graphs(names):
            for k in range(4 if tier == "thorough" or len(names) < 4 else 1):
                i += 1
                yield make(names, edges, i, given)
    for j, (names, edges) in enumerate(SIX):
        for k in range(14 if tier == "quick" else 100):
            yield make(names, edges, 11 * k + j)
    if tier == "thorough":
        for edges in graphs(["C", "D", "B", "E", "U"]):
            if len(edges) <= 7:
                i += 1
                yield make(["C", "D", "B", "E", "U"], edges, i)


def topo_orders(nodes, edges):
    nodes = list(nodes)
    from mc.ref import ancestors

    anc = {n: ancestors(edges, n) & set(nodes) for n in nodes}

    def rec(done):
        if len(done) == len(nodes):
            yield list(done)
            return
        for n in nodes:
            if n not in done and anc[n] <= set(done):
                yield from rec(done + [n])

    yield from rec([])


class Tree:
    """leaves as lists of (node, label of the action taken), read through the public interface of pygambit"""

    def __init__(self, game):
        self.game = game
        self.leaves = []
        self.isets = []  # representatives
        self.walk(game.root, [], [])

    def iset(self, node):
        for k, s in enumerate(self.isets):
            if s == node.infoset:
                return k
        self.isets.append(node.infoset)
        return len(self.isets) - 1

    def walk(self, node, path, probs):
        if node.is_terminal:
            pay = [0.0 if node.outcome is None else float(node.outcome[p]) for p in self.game.players]
            self.leaves.append((path, probs, pay))
            return
        inf = node.infoset
        acts = list(inf.actions)
        k = None if inf.is_chance else self.iset(node)
        kids = list(node.children)
        assert len(kids) == len(acts)
        for j, (a, c) in enumerate(zip(acts, kids)):
            step = (k, j, None if k is not None else float(a.prob), a.label)
            self.walk(c, path + [step], probs)


def owners(tree):
    out = []
    players = list(tree.game.players)
    for s in tree.isets:
        out.append([k for k, p in enumerate(players) if p == s.player][0])
    return out


def fits(tree, order, ref, exported, par):
    """the assignment of each leaf and {information set: (decision, observations)} if the tree is a tree over this order"""
    assign, where = [], {}
    seen = set()
    for path, _, _ in tree.leaves:
        if len(path) != len(order):
            return None, f"a leaf at depth {len(path)}, {len(order)} nodes expected"
        a = {}
        for n, (k, _, _, label) in zip(order, path):
            match = [o for o in ref.dom[n] if str(o) == label]
            if len(match) != 1:
                return None, f"action {label!r} is not an outcome of {n}"
            if (k is None) != (n not in exported):
                return None, f"{n} is a decision in the tree, but not in the diagram or vice versa"
            if k is not None:
                obs = (n, tuple(sorted((p, a[p]) for p in par[n])))
                if where.setdefault(k, obs) != obs:
                    return None, f"contexts {where[k]} and {obs} are in the same information set"
            a[n] = match[0]
        key = tuple(a[n] for n in order)
        if key in seen:
            return None, f"two leaves with the same outcomes {a}"
        seen.add(key)
        assign.append(a)
    if len(set(where.values())) < len(where):
        return None, f"some context is split into several information sets: {where}"
    n = 1
    for x in order:
        n *= len(ref.dom[x])
    if len(seen) != n:
        return None, f"{len(seen)} leaves, {n} combinations of outcomes"
    return (assign, where), None


def run_case(spec, rec):
    rec.state(spec)
    rec.trace()
    g = G(spec)
    m = edited(spec, macid_to_efg)
    ref = Ref.from_spec(spec)
    exported = [d for d in g.decs if d not in spec["given"]]
    par = {n: g.par(n) for n in g.nodes}
    edges = g.edges
    nodes = set(exported) | {p for d in exported for p in par[d]}
    if spec["prev"] == 1:  # rules given before do not matter
        m.add_cpds(*[list(m.pure_decision_rules(d))[-1] for d in exported])
    elif spec["prev"] == 2:
        for d in exported:
            m.impute_random_decision(d)
    before = snapshot(m)
    agents = list(g.dec)
    if spec["given"]:
        agents = [a for a in g.dec if any(g.agent[d] == a for d in exported)]
        game, mapping = macid_to_efg(m, set(exported), agents if len(exported) % 2 else iter(agents))
    else:
        game, mapping = macid_to_efg(m) if spec["prev"] else macid_to_efg(m, agents_in_sg=(a for a in agents))
    rec.step()
    e = snap_diff(before, snapshot(m))
    if e:
        rec.fail(f"the export changed the diagram: {e}")
    tree = Tree(game)
    if len(game.players) != len(agents):
        rec.fail(f"{len(game.players)} players, {len(agents)} agents")
        return
    err = None
    for order in itertools.chain([m.get_valid_order(nodes)], topo_orders(sorted(nodes), edges)):
        fit, e = fits(tree, order, ref, exported, par)
        err = err or e
        if fit:
            break
    else:
        rec.fail(f"the tree is not the game of the diagram: {err}")
        return
    assign, where = fit
    rec.step(len(assign))
    own = owners(tree)
    player = {}
    for k, (d, _) in where.items():
        a = g.agent[d]
        if player.setdefault(a, own[k]) != own[k]:
            rec.fail(f"decisions of agent {a} belong to different players")
    left = [k for k in range(len(agents)) if k not in player.values()]
    for a in agents:
        if a not in player:
            byname = [k for k in left if list(game.players)[k].label == str(a)]
            player[a] = (byname or left)[0]
            left.remove(player[a])
    if len(set(player.values())) != len(player):
        rec.fail(f"different agents are the same player: {player}")

    # payoffs under full mixing
    mixed = ref
    for d in exported:
        mixed = mixed.with_rule(d, {c: {o: 1 / len(ref.dom[d]) for o in ref.dom[d]} for c in contexts(ref, d)})
    for a_, (_, _, pay) in zip(assign, tree.leaves):
        if mixed.prob(a_) < 1e-12:
            rec.hit("leaves of probability zero")
            continue
        for a in agents:
            want = sum(mixed.ev(u, a_) for u in g.util[a])
            if abs(pay[player[a]] - want) > 1e-7 * max(1, abs(want)):
                rec.fail(f"payoff of agent {a} at {a_} is {pay[player[a]]}, expected {want}")
    # leaf probabilities under all policies
    spaces = [bounded_rules(ref.dom[d], contexts(ref, d), 64) for d in exported]
    n = 1
    for s in spaces:
        n *= len(s)
    if n <= 64:
        profs = list(itertools.product(*spaces))
    else:  # every rule of every decision against the first and the last rules of the others
        profs = []
        for k, s in enumerate(spaces):
            for o in (0, -1):
                base = [x[o] for x in spaces]
                for rule in s:
                    profs.append((*base[:k], rule, *base[k + 1:]))
        rec.hit("deviations only")
    mixrule = []
    for j, d in enumerate(exported):
        mixrule.append({c: {o: (1 + (3 * q + 2 * z + j) % 4) for z, o in enumerate(ref.dom[d])} for q, c in enumerate(contexts(ref, d))})
        for dist in mixrule[-1].values():
            t = sum(dist.values())
            for o in dist:
                dist[o] /= t
    profs.append(tuple(mixrule))
    for prof in profs:
        rule = dict(zip(exported, prof))
        r = ref
        for d in exported:
            r = r.with_rule(d, rule[d])
        want = {}
        for x, p in r.joint():
            key = tuple(x[v] for v in order)
            want[key] = want.get(key, 0.0) + p
        for a_, (path, _, _) in zip(assign, tree.leaves):
            p = 1.0
            for v, (k, _, pr, _) in zip(order, path):
                p *= pr if k is None else rule[v][tuple(a_[q] for q in ref.par[v])][a_[v]]
            if abs(p - want.get(tuple(a_[v] for v in order), 0.0)) > 1e-7:
                rec.fail(f"probability of {a_} is {p}, expected {want.get(tuple(a_[v] for v in order), 0.0)} under {rule}")
                return
        rec.step()

    # back translation
    prof = game.mixed_behavior_profile()
    at = {v: k for k, v in where.items()}
    for j, d in enumerate(exported):
        for c in contexts(ref, d):
            k = at[d, tuple(sorted(zip(ref.par[d], c)))]
            for act in tree.isets[k].actions:
                o = [o for o in ref.dom[d] if str(o) == act.label][0]
                prof[act] = mixrule[j][c][o]
    cpds = behavior_to_cpd(m, mapping, prof, set(exported)) if spec["given"] else behavior_to_cpd(m, mapping, prof)
    rec.step()
    if sorted(c.variable for c in cpds) != sorted(exported):
        rec.fail(f"rules for {[c.variable for c in cpds]}, expected {exported}")
        return
    m2 = m.copy()
    m2.add_cpds(*cpds)
    for model, what in ((m2, "a copy of the diagram"), (m, "the diagram")):
        model.add_cpds(*cpds)
        for j, d in enumerate(exported):
            dom, tab = cpd_table(model, d)
            if dom != list(ref.dom[d]):
                rec.fail(f"domain of {d} in {what} becomes {dom}")
                continue
            for c in contexts(ref, d):
                got, want = tab[frozenset(zip(ref.par[d], c))], mixrule[j][c]
                if any(abs(got[o] - want[o]) > 1e-9 for o in want):
                    rec.fail(f"rule of {d} in {what} in context {c} is {got}, the behaviour profile says {want}")
                rec.step()
    # and it gives the same expected utilities
    r = ref
    for d, rule in zip(exported, mixrule):
        r = r.with_rule(d, rule)
    for a in agents:
        if g.util[a]:
            want = sum(r.ev(u, {}) for u in g.util[a])
            if abs(float(prof.payoff(list(game.players)[player[a]])) - want) > 1e-7 * max(1, abs(want)):
                rec.fail(f"payoff of agent {a} in the game is {prof.payoff(list(game.players)[player[a]])}, expected utility {want}")
    # file
    if not spec["given"] and len(tree.leaves) <= 16:
        with tempfile.TemporaryDirectory() as td, contextlib.redirect_stdout(io.StringIO()):
            name = os.path.join(td, "g.efg")
            ok = macid_to_gambit_file(m, name)
            again = Tree(pygambit.Game.read_game(name))
        rec.step()
        if not ok:
            rec.fail("macid_to_gambit_file does not report success")
        same = len(again.leaves) == len(tree.leaves) and len(again.game.players) == len(game.players) and [p.label for p in again.game.players] == [p.label for p in game.players]
        if same:
            for (p1, _, y1), (p2, _, y2) in zip(tree.leaves, again.leaves):
                same &= len(p1) == len(p2) and all(a[0] == b[0] and a[3] == b[3] and (a[2] is None or abs(a[2] - b[2]) < 1e-9) for a, b in zip(p1, p2))
                same &= all(abs(a - b) < 1e-7 * max(1, abs(a)) for a, b in zip(y1, y2))
        if not same:
            rec.fail("the exported file describes another game")
        rec.hit("files")
    rec.hit(f"{len(agents)} agents")
    if len(nodes) > len(exported):
        rec.hit("chance nodes in the tree")


def finish(total, tier):
    from mc.harness import CheckError

    for k in ("files", "1 agents", "2 agents", "chance nodes in the tree", "leaves of probability zero"):
        if total.hits.get(k, 0) < 20:
            raise CheckError("vacuous: " + k)
