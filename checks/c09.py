"""C09: sampling draws from exactly the joint distribution of the model"""
import itertools
import random

import mc.boot  # noqa: F401
import numpy as np
from checks.c03 import KINDS, NAMES4, PATTERNS4, make
from mc import models
from mc.build import build, snap_diff, snapshot
from mc.ref import Ref

ID = "C09"
META = dict(
    rule="a case is one model; sample() is run once for every sequence of outcomes of its random draws (every draw branches over all alternatives of positive weight, validated like numpy does), the product of the weights of "
    "the draws is the probability of the returned sample, and the sums over all runs are compared with the joint distribution; all of this also after every intervention on one node; then seeded samples are compared with each other under different states of the global generator",
    bounds={
        "quick": "all DAGs on 3 nodes x all assignments of 6 flavours, on 1 and 2 nodes x 11 flavours, all DAGs on 4 nodes x 3 patterns; all classes, several orders and names; probabilities that sum to one only up to rounding",
        "thorough": "all DAGs on 3 nodes x all assignments of 8 flavours, all DAGs on 4 nodes x 6 patterns",
    },
    assumptions=["draws are made by numpy.random or random; probabilities are compared up to 1e-6"],
)
CHUNK = 4
THIRDS = [["dict", [["a", 1 / 3], ["b", 1 / 3], ["c", 1 / 3]]], ["dict", [[0, 0.1], [1, 0.2], [2, 0.7]]], ["dict", [[0, 0.3], [1, 0.6], [2, 0.1]]], ["dict", [[0, 1 / 7], [1, 2 / 7], [2, 4 / 7]]],
          ["dict", [[0, 1 - 1e-9], [1, 1e-9]]], ["dict", [[0, 0.0], [1, 1.0]]], ["dict", [[0, 0.5], [1, 0.5 + 1e-9], [2, 0.0]]], ["dict", [[True, 0.25], [False, 0.75]]], ["dict", [[2.5, 0.25], [-1, 0.75]]]]


def cases(tier):
    i = 0
    for k, rel in enumerate(THIRDS):
        for edges in ([], [["A", "B"]]):
            b = ["fun", "lambda A: {0: 0.1, 1: 0.2, 2: 0.7} if A == %r else {0: 1 / 3}" % (rel[1][0][0],)] if edges else ["dict", [["u", 0.1], ["v", 0.9]]]
            yield dict(kind="CBN", nodes=["A", "B"], edges=edges, dec=[], util=[], rel=[["A", rel], ["B", b]])
    for n in (1, 2):
        for edges in models.dags(["A", "B"][:n]):
            for flavs in itertools.product("btpdDzZscnqo", repeat=n):
                i += 1
                kind = KINDS[i % 4] if n > 1 else "CBN"
                yield make(["A", "B"][:n], edges, flavs, kind, i % 2, i)
    for edges in models.dags(["A", "B", "C"]):
        for flavs in itertools.product("zdspbn" if tier == "quick" else "btpdDzsn", repeat=3):
            i += 1
            yield make(["A", "B", "C"], edges, flavs, KINDS[(i // 2) % 4], i % 2, i)
    for edges0 in models.dags(["0", "1", "2", "3"]):
        for k, flavs in enumerate(PATTERNS4[:3] if tier == "quick" else PATTERNS4):
            names = NAMES4[(k + i) % 2]
            i += 1
            yield make(names, [[names[int(u)], names[int(v)]] for u, v in edges0], flavs, KINDS[i % 4], (i // 2) % 2, i)


class Tree:
    """weighted draws: replaces the functions that draw from a distribution"""

    def __init__(self):
        self.prefix, self.trace = [], []
        self.p = 1.0

    def restart(self):
        t = self.trace
        while t and t[-1][1] + 1 >= t[-1][0]:
            t.pop()
        if not t:
            return False
        self.prefix = [c for _, c in t[:-1]] + [t[-1][1] + 1]
        self.trace, self.p = [], 1.0
        return True

    def draw(self, n, w=None):
        w = [1 / n] * n if w is None else [float(x) for x in w]
        if len(w) != n:
            raise ValueError("'a' and 'p' must have same size")
        if min(w) < 0:
            raise ValueError("probabilities are not non-negative")
        items = [k for k, x in enumerate(w) if x > 0]
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((len(items), c))
        self.p *= w[items[c]] / sum(w)
        return items[c]

    def np_choice(self, a, size=None, replace=True, p=None, **kw):
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if p is not None and abs(sum(map(float, p)) - 1) > 1e-8:
            raise ValueError("probabilities do not sum to 1")
        if size is None:
            return items[self.draw(len(items), p)]
        out = [items[self.draw(len(items), p)] for _ in range(int(np.prod(size)))]
        return np.array(out).reshape(size)

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        if cum_weights is not None:
            weights = [b - a for a, b in zip([0, *cum_weights], cum_weights)]
        return [pop[self.draw(len(pop), None if weights is None else [x / sum(weights) for x in weights])] for _ in range(k)]

    def multinomial(self, n, pvals, size=None):
        out = np.zeros(len(pvals), dtype=int)
        for _ in range(n):
            out[self.draw(len(pvals), pvals)] += 1
        return out

    def __enter__(self):
        class Gen:
            choice, multinomial = self.np_choice, self.multinomial

        self.old = [(o, k, getattr(o, k)) for o, k in ((np.random, "choice"), (np.random, "multinomial"), (np.random, "default_rng"), (random, "choices"))]
        np.random.choice, np.random.multinomial, random.choices = self.np_choice, self.multinomial, self.choices
        np.random.default_rng = lambda *a, **k: Gen()

    def __exit__(self, *a):
        for o, k, v in self.old:
            setattr(o, k, v)


def own(x, domain):
    """the outcome of the domain that x is"""
    for o in domain:
        if o == x and isinstance(o, str) == isinstance(x, str):
            return o
    raise KeyError(x)


def check_joint(m, ref, rec):
    joint = {}
    for a, p in ref.joint():
        joint[tuple(a[n] for n in ref.nodes)] = p
    got, total, runs, draws = {}, 0.0, 0, 0
    tree = Tree()
    while True:
        with tree:
            s = m.sample()
        runs += 1
        draws += len(tree.trace)
        rec.step()
        if set(s) != set(ref.nodes) or len(s) != len(ref.nodes):
            rec.fail(f"the sample {s} is not an assignment to {ref.nodes}")
            return None
        try:
            key = tuple(own(s[n], ref.dom[n]) for n in ref.nodes)
        except (KeyError, ValueError, TypeError):
            rec.fail(f"the sample {s} has outcomes that are not in the domains {ref.dom}")
            return None
        if joint.get(key, 0.0) <= 1e-15:
            rec.fail(f"the sample {s} has probability zero in the model")
            return None
        got[key] = got.get(key, 0.0) + tree.p
        total += tree.p
        if not tree.restart():
            break
    if draws:
        rec.trace(runs)
        for k in set(joint) | set(got):
            if abs(got.get(k, 0.0) - joint.get(k, 0.0)) > 1e-6:
                rec.fail(f"{dict(zip(ref.nodes, k))} is drawn with probability {got.get(k, 0.0)}, but has probability {joint.get(k, 0.0)}")
                return None
        rec.hit("joint distributions")
    else:
        rec.hit("draws not recognised")  # another primitive draws: only seeded samples can be judged
    return joint


def run_case(spec, rec):
    rec.state(spec)
    m = build(spec)
    ref = Ref.from_spec(spec)
    before = snapshot(m)
    joint = check_joint(m, ref, rec)
    if joint is None:
        return
    # seeds
    for seed in (0, 1, 12345):
        outs = []
        for k in range(3):
            np.random.seed(k)
            random.seed(k)
            outs.append(m.sample(seed=seed) if k else m.sample(seed))
            rec.step()
        keys = [tuple(own(s[n], ref.dom[n]) for n in ref.nodes) for s in outs]
        if any(joint.get(k, 0.0) <= 1e-15 for k in keys):
            rec.fail(f"the sample with seed {seed} is {outs[0]}, which has probability zero")
            return
        if len(set(keys)) > 1:
            rec.fail(f"samples with seed {seed} differ: {outs}")
            return
    e = snap_diff(before, snapshot(m))
    if e:
        rec.fail(f"sampling changed the model: {e}")
        return
    # samples of the model after an intervention
    for node in ref.nodes:
        value = ref.dom[node][-1]
        m2 = build(spec)
        m2.intervene({node: value})
        rec.step()
        if check_joint(m2, ref.do({node: value}), rec) is None:
            return
        rec.hit("intervened models")


def finish(total, tier):
    from mc.harness import CheckError

    if total.hits.get("joint distributions", 0) + total.hits.get("draws not recognised", 0) < 50:
        raise CheckError("vacuous")
