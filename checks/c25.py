"""C25: random graphs satisfy the requested constraints, for every random outcome"""
import mc.boot  # noqa: F401
import networkx as nx
from mc.choice import deviations, full
from pycid import random_dag

ID = "C25"
META = dict(
    rule="a case is a number of nodes, a density and a bound on parents; random_dag is run on every sequence of random draws up to a depth (later draws follow a fixed fair sequence), or on every sequence that differs "
    "from a fixed fair sequence at a bounded number of draws; every resulting graph is checked, and every run has to come to an end within 20000 draws",
    bounds={
        "quick": "1 to 4 nodes, all numbers of edges (also densities beyond 1), bounds 1 to 5, all sequences of the first 9 (4 nodes) or 12 draws; 5 nodes, 4 and 5 edges; 1 deviation from one sequence for 5 to 8, 12 and 22 nodes; "
        "2 deviations for 5 and 6 nodes",
        "thorough": "all sequences of 11 draws for 4 and 12 for 5 nodes, 2 deviations from four sequences up to 12 nodes",
    },
    assumptions=["the standard generators random and numpy.random are the only sources of randomness"],
)
CHUNK = 1


def cases(tier):
    more = tier == "thorough"
    for n in range(1, 5):
        m = n * (n - 1) // 2
        for e in range(m + 2):
            for k in (1, 2, 3, 4, 5):
                dens = (e + 0.25) / m if m else 0.5 * e
                yield dict(kind="full", n=n, density=dens, bound=k, depth=(11 if more else 9) if n == 4 else 12, part=0, parts=1)
    for e, k in ((4, 4), (4, 1), (5, 2)) if not more else ((4, 4), (4, 1), (5, 2), (5, 1), (6, 2), (6, 4)):
        for p in range(8):
            yield dict(kind="full", n=5, density=(e + 0.25) / 10, bound=k, depth=12 if more else 9, part=p, parts=8)
    for n in (5, 6, 7, 8, 12, 22):
        for dens in (0.0, 0.2, 0.4, 0.7, 1.0):
            for k in (1, 2, 3, 4, n):
                for s in range(4 if more else 1):
                    yield dict(kind="dev", n=n, density=dens, bound=k, seed=100 * n + s, dev=2 if (n < 7 or more and n < 13) else 1, window=(20 if n < 7 else 40 if more else 30))


def run_case(case, rec):
    n, dens, bound = case["n"], case["density"], case["bound"]
    call = (lambda: random_dag(n, dens, bound)) if n % 2 else (lambda: random_dag(number_of_nodes=n, edge_density=dens, max_in_degree=bound))
    if case["kind"] == "full":
        runs = full(call, case["depth"], case["part"], case["parts"])
    else:
        runs = deviations(call, case["seed"], case["dev"], window=case["window"])
    room = sum(min(i, bound) for i in range(n))
    want = max(n - 1, min(int(dens * (n * (n - 1) / 2)), room))
    seen = {}
    for trace, (kind, dag) in runs:
        rec.step()
        if kind == "endless":
            rec.fail(f"random_dag({n}, {dens}, {bound}) does not come to an end after the draws {trace[:40]}")
            rec.stop = True
            return
        if kind == "raise":
            rec.fail(f"random_dag({n}, {dens}, {bound}) raises {dag!r} after the draws {trace[:40]}")
            return
        key = (tuple(sorted(dag.nodes)), tuple(sorted(dag.edges)))
        if key not in seen:
            seen[key] = judge(dag, n, bound, want)
            rec.state((n, dens, bound, key))
            rec.trace()
        if seen[key]:
            rec.fail(f"random_dag({n}, {dens}, {bound}) gives {key[1]}: {seen[key]} (draws {trace[:40]})")
            return
    rec.hit("graphs", len(seen))
    if want < int(dens * (n * (n - 1) / 2)):
        rec.hit("bound on parents limits the number of edges")
    if case["kind"] == "full" and n == 4 and bound > 3 and want == 6:
        rec.hit("complete graphs")


def judge(dag, n, bound, want):
    if dag.number_of_nodes() != n:
        return f"{dag.number_of_nodes()} nodes"
    if not nx.is_directed_acyclic_graph(nx.DiGraph(dag.edges)):
        return "cyclic"
    if n and not nx.is_weakly_connected(dag):
        return "not connected"
    if max(d for _, d in dag.in_degree()) > bound:
        return f"a node has {max(d for _, d in dag.in_degree())} parents"
    if dag.number_of_edges() != want:
        return f"{dag.number_of_edges()} edges, {want} requested and possible"


def finish(total, tier):
    from mc.harness import CheckError

    for k in ("graphs", "bound on parents limits the number of edges", "complete graphs"):
        if total.hits.get(k, 0) < 1:
            raise CheckError("vacuous: " + k)
