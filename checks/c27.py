"""C27: random distributions are valid, reproducible and leave no trace"""
import itertools
import json
import os
import random
import subprocess
import sys

import mc.boot
import numpy as np
from mc.build import cpd_table
from mc.models import dags
from pycid import CausalBayesianNetwork, RandomCPD

ID = "C27"
META = dict(
    rule="grid: every domain, smoothness, seed and parent context of an alphabet is evaluated (repeatedly, in two orders, in a second object and in two other processes with other hash seeds); histories: every sequence of evaluations of three objects, "
    "draws from and reseedings of the global generators and constructions up to a length is executed and every draw compared with the generators of a run without evaluations; models: every graph over three nodes with random distributions is built and its tables compared with the distributions",
    bounds={
        "quick": "9 domains, 8 values of smoothness, 9 seeds, 59 contexts; histories of length 5 over 7 operations; all graphs over three nodes, 4 variants",
        "thorough": "smoothness down to 1e-12, 40 seeds; histories of length 6; all graphs over four nodes",
    },
    assumptions=["distinctness of the distributions of different contexts is only required for smoothness of at least 0.1 (smaller values give point masses)"],
)
CHUNK = 2
DOMAINS = [None, [0, 1], [1, 0], ["b", "a", "c"], [5], (2, -3, 4.5, 7), [True, False], [("a", 1), ("a", 2)], [-1, -2]]
SMOOTH = [1000, 10, 1.0, 0.1, 0.01, 0.001, 1e-5, 1e-9]
SEEDS = [0, 1, 2, 3, 17, 9999, 2**31 - 1, 2**31, 2**32 - 1]
VALUES = [0, 1, -2, 0.5, "a", "zz"]
MORE = [-1, -3, 2, 3, 1.5, ("a", 1), ("a", 2), (1, "a"), (), "", "1", None, (0, -1), (0, -2)]


def ctxs():
    yield {}
    for v in VALUES:
        yield dict(A=v)
    for v in MORE:
        yield dict(A=v)
        yield dict(A=0, B=v)
    for v, w in itertools.product(VALUES[:4], VALUES[2:]):
        yield dict(A=v, B=w)
    for v, w, x in itertools.product([0, 1], [0, 1], ["a", "b"]):
        yield dict(p=v, q=w, long_name=x)


def cases(tier):
    more = tier == "thorough"
    for d in range(len(DOMAINS)):
        for s in SMOOTH + ([1e-12, 100, 0.5, 2] if more else []):
            for seeds in ([SEEDS[:5], SEEDS[5:]] if not more else [SEEDS, list(range(100, 131))]):
                yield dict(kind="grid", domain=d, smoothness=s, seeds=seeds)
    for h in range(2):
        yield dict(kind="process", hashseed=[12, "random"][h])
    n = 7
    for a, b in itertools.product(range(n), repeat=2):
        yield dict(kind="history", start=[a, b], length=6 if more else 5)
    for i, edges in enumerate(dags(["A", "B", "C", "D"] if more else ["A", "B", "C"])):
        for v in range(4):
            yield dict(kind="model", n=4 if more else 3, edges=edges, var=v, seed=[0, 1, None, 123][(i + v) % 4])


def run_case(case, rec):
    globals()[case["kind"]](case, rec)


def state():
    s = np.random.get_state()
    return (s[0], s[1].tolist(), *s[2:]), random.getstate()


def bad(dist, domain):
    domain = list(domain) if domain else [0, 1]
    if list(dist) != domain and sorted(map(repr, dist)) != sorted(map(repr, domain)):
        return f"is a distribution over {list(dist)}, expected {domain}"
    if not all(p >= 0 for p in dist.values()) or not abs(sum(dist.values()) - 1) < 1e-9:
        return f"is not a distribution: {dist}"


def grid(case, rec):
    domain, smooth = DOMAINS[case["domain"]], case["smoothness"]
    for seed in case["seeds"]:
        what = f"RandomCPD({domain}, {smooth}, seed={seed})"
        np.random.seed(5)
        random.seed(5)
        np.random.normal(), random.gauss(0, 1)
        mk = (lambda: RandomCPD(domain, smooth, seed)) if domain is not None else (lambda: RandomCPD(smoothness=smooth, seed=seed))
        a = mk()
        b = mk()
        before = state()
        first = {}
        allc = list(ctxs())
        for k, c in enumerate(allc):
            d = dict(a(**c))
            first[k] = d
            e = bad(d, domain)
            if e:
                rec.fail(f"{what} for {c} {e}")
                return
            rec.state((str(domain), smooth, seed, k))
            rec.step()
        np.random.seed(99)  # the state of the generator does not matter either
        for k, c in reversed(list(enumerate(allc))):
            for x, obj in ((a, "the same object"), (b, "another object")):
                if dict(x(**c)) != first[k]:
                    rec.fail(f"{what} for {c}: {first[k]}, then {dict(x(**c))} from {obj}")
                    return
                rec.step()
            rev = dict(reversed(list(c.items())))
            if dict(a(**rev)) != first[k]:
                rec.fail(f"{what} depends on the order of the parents in {c}")
                return
        np.random.seed(5)
        random.seed(5)
        np.random.normal(), random.gauss(0, 1)
        for c in allc[:5]:
            a(**c)
        if state() != before:
            rec.fail(f"{what} changes the state of the global random generator")
            return
        if smooth >= 0.1 and len(first[0]) > 1:
            keys = [tuple(d.values()) for d in first.values()]
            if len(set(keys)) < len(keys):
                k = next(k for k in range(len(keys)) if keys[k] in keys[:k])
                rec.fail(f"{what} gives the same distribution for {allc[k]} and {allc[keys.index(keys[k])]}")
                return
            rec.hit("different contexts")
    rec.trace()


def table():
    out = []
    for d in DOMAINS[:5] + DOMAINS[7:]:
        for s in (1.0, 0.001):
            for seed in SEEDS[:6]:
                x = RandomCPD(d, s, seed)
                out.append([sorted((repr(k), float(p)) for k, p in x(**c).items()) for c in ctxs()])
    return out


def process(case, rec):
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]), PYTHONPATH=os.pathsep.join(sys.path))
    code = "import json, checks.c27 as c; print('TABLE' + json.dumps(c.table()))"
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env, capture_output=True, text=True, timeout=200)
    lines = [x for x in r.stdout.splitlines() if x.startswith("TABLE")]
    if not lines:
        from mc.harness import CheckError

        raise CheckError("subprocess: " + r.stderr[-500:])
    other, here = json.loads(lines[0][5:]), json.loads(json.dumps(table()))
    rec.step(len(here))
    rec.state(("process", case["hashseed"]))
    rec.trace()
    if other != here:
        rec.fail("distributions with the same seed differ between processes")
    rec.hit("processes")


def history(case, rec):
    """operations: 0-2 evaluations, 3 draw from numpy, 4 draw from random, 5 reseed both, 6 new object without seed"""
    for rest in itertools.product(range(7), repeat=case["length"] - 2):
        ops = case["start"] + list(rest)
        np.random.seed(11)
        random.seed(11)
        ref_np, ref = np.random.RandomState(11), random.Random(11)
        objs = [RandomCPD([0, 1, 2], 1.0, 0), RandomCPD(["x", "y"], 0.001, 4), RandomCPD(seed=2**31)]
        first = {}
        for i, op in enumerate(ops):
            if op < 3:
                c = [{}, dict(A="a"), dict(A=1, B=0)][(op + i) % 3]
                d = dict(objs[op](**c))
                if first.setdefault((op, str(c)), d) != d:
                    rec.fail(f"operations {ops}: the distribution of object {op} for {c} changes from {first[op, str(c)]} to {d}")
                    return
            elif op == 3:
                if np.random.normal() != ref_np.normal():  # generated in pairs, the second one is kept
                    rec.fail(f"operations {ops}: evaluations change the global generator of numpy")
                    return
            elif op == 4:
                if random.gauss(0, 1) != ref.gauss(0, 1):
                    rec.fail(f"operations {ops}: evaluations change the global generator of random")
                    return
            elif op == 5:
                np.random.seed(i)
                random.seed(i)
                ref_np, ref = np.random.RandomState(i), random.Random(i)
            else:
                x = RandomCPD()
                s = np.random.get_state()
                d = dict(x(A=i))
                e = bad(d, None)
                if e or dict(x(A=i)) != d:
                    rec.fail(f"operations {ops}: an object without seed {e or 'changes'}")
                    return
                ref_np.set_state(s)  # choosing a seed may use the global generators
                ref.setstate(random.getstate())
            rec.step()
        rec.state(tuple(ops))
        rec.trace()


def model(case, rec):
    names = ["A", "B", "C", "D"][: case["n"]]
    edges = [tuple(e) for e in case["edges"]]
    doms = [[None, [0, 1], ["b", "a"]], [["x", "y", "z"], None, [7, 2]], [[5], [1, 0], None], [None, None, [0.5, -1]]][case["var"]]
    objs = {n: RandomCPD(doms[i % 3], [1.0, 0.001, 50][(i + case["var"]) % 3], None if case["seed"] is None else case["seed"] + i) for i, n in enumerate(names)}
    m = CausalBayesianNetwork(edges)
    m.add_nodes_from(names)
    before = state()
    for n in names if case["var"] % 2 else names[::-1]:
        m.add_cpds(**{n: objs[n]})
    for k, x in enumerate((m, m.copy(), m)):
        for n in names:
            dom, tab = cpd_table(x, n)
            want = list(objs[n].domain) if hasattr(objs[n], "domain") else None
            declared = doms[names.index(n) % 3] or [0, 1]
            if dom != sorted(declared) and dom != list(declared):
                rec.fail(f"domain of {n} is {dom}, expected {want}")
                return
            for c, dist in tab.items():
                e = bad(dist, sorted(dist))
                d = dict(objs[n](**dict(c)))
                if e or any(abs(d[o] - p) > 1e-9 for o, p in dist.items()):
                    rec.fail(f"P({n} | {dict(c)}) in the model is {dist}, the distribution {d}")
                    return
                rec.step()
        if k == 1:
            m.query([names[-1]], {})
    if state() != before:
        rec.fail("building a model with random distributions changes the global random generator")
    rec.state((str(edges), case["var"]))
    rec.trace()
    rec.hit("models")


def finish(total, tier):
    from mc.harness import CheckError

    for k in ("models", "processes", "different contexts"):
        if total.hits.get(k, 0) < 1:
            raise CheckError("vacuous: " + k)
