"""C19: path searches and path classifications are complete and correct"""
import itertools

import mc.boot  # noqa: F401
from mc.build import edited, empty
from mc.ref import dconnected, directed_paths, path_active, undirected_paths
from mc.structs import AGENTS, NAMES, structure
from mc.models import dags
from pycid.core.get_paths import (
    directed_decision_free_path, find_active_path, find_all_dir_paths, find_all_undir_paths, get_motif, get_motifs, is_active_backdoor_trail,
    is_active_indirect_frontdoor_trail, is_active_path,
)

ID = "C19"
META = dict(
    rule="a case is one graph with a set of decisions; all pairs of nodes (also equal ones) x all sets of observed nodes; path sets are compared with enumeration, existence of active paths "
    "with d-separation by moralisation, activity of every single path and motif with the textbook definition",
    bounds={
        "quick": "all DAGs over 2, 3 and 4 ordered nodes with all sets of decisions (observed sets for one of them), all DAGs over 5 ordered nodes with up to 6 edges and observed sets of up to 2 nodes",
        "thorough": "all DAGs over 5 ordered nodes, all observed sets",
    },
    assumptions=["activity of paths is judged for unobserved start and end nodes (an observed end node is refused by find_active_path)"],
)
CHUNK = 8


def cases(tier):
    i = 0
    for n in (2, 3, 4, 5):
        for es in dags(list(range(n))):
            if n == 5 and tier == "quick" and len(es) > 6:
                continue
            i += 1
            nm = NAMES[i % 4][:n]
            edges = [[nm[u], nm[v]] for u, v in es]
            yield dict(nodes=nm if i % 2 else nm[::-1], edges=edges if i % 3 else edges[::-1], max=n if n < 5 or tier == "thorough" else 2, i=i)


def trails(g_edges, a, b, obs, kind):
    for p in undirected_paths(g_edges, a, b):
        if len(p) < 2 or not path_active(g_edges, p, obs):
            continue
        forward = (p[0], p[1]) in g_edges
        if kind == "back" and not forward:
            return True
        if kind == "front" and forward and any((x, y) in g_edges and (z, y) in g_edges for x, y, z in zip(p, p[1:], p[2:])):
            return True
    return False


def motif(edges, p, i):
    if i == len(p) - 1:
        return "endpoint"
    out = (p[i], p[i + 1]) in edges  # towards the next node
    if i == 0:
        return "forward" if out else "backward"
    inn = (p[i - 1], p[i]) in edges
    return {(True, True): "forward", (False, False): "backward", (True, False): "collider", (False, True): "fork"}[inn, out]


def warm(m):
    for a in m.nodes:
        for b in m.nodes:
            list(find_all_dir_paths(m, a, b))
            for p in find_all_undir_paths(m, a, b):
                get_motifs(m, p)
                is_active_path(m, p)
            is_active_backdoor_trail(m, a, b)
            is_active_indirect_frontdoor_trail(m, a, b)


def run_case(case, rec):
    rec.state(case)
    rec.trace()
    nodes, edges = case["nodes"], [tuple(e) for e in case["edges"]]
    n = len(nodes)
    es = set(edges)
    ref = dict(kind=["CBN", "CID", "MACIDBase"][case["i"] % 3], nodes=nodes, edges=edges, dec=[], util=[], rel=[])
    m = edited(ref, warm)
    und = {}
    for a in nodes:
        for b in nodes:
            rec.step(2)
            und[a, b] = undirected_paths(edges, a, b)
            for name, f, want in (("directed", find_all_dir_paths, directed_paths(edges, a, b)), ("undirected", find_all_undir_paths, und[a, b])):
                got = [list(p) for p in f(m, a, b)]
                if sorted(got) != sorted(want):
                    rec.fail(f"{name} paths from {a} to {b}: {sorted(got)}, expected {sorted(want)}")
            for p in und[a, b]:
                rec.step()
                want = [motif(es, p, i) for i in range(len(p))]
                got = get_motifs(m, p)
                if list(got) != want:
                    rec.fail(f"motifs of {p}: {got}, expected {want}")
                for i in range(len(p)):
                    if get_motif(m, p, i) != want[i]:
                        rec.fail(f"motif of {p} at {i}: {get_motif(m, p, i)}, expected {want[i]}")
                    rec.hit(want[i])
    # activity
    for k in range(case["max"] + 1):
        for obs in itertools.combinations(nodes, k):
            o = set(obs)
            for a in nodes:
                if a not in o:
                    rec.step()
                    got = m.active_trail_nodes(a, obs)[a] if o or case["i"] % 2 else m.active_trail_nodes(a)[a]
                    if set(got) != {b for b in nodes if b not in o and dconnected(edges, a, b, o)}:
                        rec.fail(f"active_trail_nodes({a}, {obs}) are {got}")
                for b in nodes:
                    if a in o:
                        continue
                    rec.step()
                    want = b not in o and dconnected(edges, a, b, o)
                    try:
                        p = find_active_path(m, a, b, set(o)) if o or (case["i"] % 2) else find_active_path(m, a, b)
                    except ValueError:
                        if want:
                            rec.fail(f"no active path from {a} to {b} given {obs} is found, but they are d-connected")
                        p = None
                    if p is not None:
                        if not want:
                            rec.fail(f"{p} is reported as active given {obs}, but {a} and {b} are d-separated")
                        elif list(p) not in und[a, b] or not path_active(es, p, o):
                            rec.fail(f"{p} is not an active path from {a} to {b} given {obs}")
                    if b in o:
                        continue
                    rec.hit("d-connected" if want else "d-separated")
                    rec.step()
                    if ref["kind"] == "CBN":  # (forms that the underlying library knows)
                        forms = [list(obs), set(obs)] if k else [[]]
                    else:
                        forms = [list(obs), frozenset(obs), iter(obs)] if k else [[], set()]
                    given = forms[(case["i"] // 3 + nodes.index(a)) % len(forms)]
                    got = m.is_dconnected(a, b) if not k and nodes.index(b) % 2 else m.is_dconnected(a, b, obs[0] if k == 1 and nodes.index(b) % 2 else given)
                    if bool(got) != want:
                        rec.fail(f"is_dconnected({a}, {b}, {obs}) is {got}")
                    for p in und[a, b]:
                        w = path_active(es, p, o)
                        rec.step()
                        if is_active_path(m, p, set(o)) != w or (not o and is_active_path(m, p) != w):
                            rec.fail(f"is_active_path({p}, {obs}) is {not w}")
                    for name, f in (("back", is_active_backdoor_trail), ("front", is_active_indirect_frontdoor_trail)):
                        w = trails(es, a, b, o, name)
                        rec.step()
                        if bool(f(m, a, b, set(o))) != w or (not o and bool(f(m, a, b)) != w):
                            rec.fail(f"{f.__name__}({a}, {b}, {obs}) is {not w}")
                        rec.hit(f"{name} trail {w}")
    # decision-free paths
    if n <= 4 or case["i"] % 8 == 0:
        for roles in itertools.product(["c", "d0", "d1", "u0"] if n < 4 else ["c", "d0"], repeat=n):
            md = empty(structure("MACIDBase", nodes, roles, edges, AGENTS[case["i"] % 3]))
            decs = {x for x, r in zip(nodes, roles) if r[0] == "d"}
            for a in nodes:
                for b in nodes:
                    rec.step()
                    w = any(not set(p[1:-1]) & decs for p in directed_paths(edges, a, b))
                    if directed_decision_free_path(md, a, b) != w:
                        rec.fail(f"directed_decision_free_path({a}, {b}) with decisions {decs} is {not w}")
                    rec.hit(f"decision free {w}")
    # unknown nodes
    a = nodes[0]
    broken = [p[:i] + ["?"] + p[i + 1 :] for b in nodes[1:] for p in undirected_paths(edges, a, b)[:3] for i in range(len(p))]
    pair = [(f, x, y) for x, y in ((a, "?"), ("?", a), ("?", "?")) for f in (find_active_path, find_all_dir_paths, find_all_undir_paths, is_active_backdoor_trail, is_active_indirect_frontdoor_trail)]
    for what, f in (
        *((f"get_motif({p}, {i})", lambda p=p, i=i: get_motif(m, p, i)) for p in broken for i in range(len(p))),
        *((f"{f.__name__}({p})", lambda f=f, p=p: f(m, p)) for p in broken for f in (get_motifs, is_active_path)),
        *((f"{f.__name__}({x}, {y})", lambda f=f, x=x, y=y: list(r) if not isinstance(r := f(m, x, y), bool) else r) for f, x, y in pair),
        *((f"directed_decision_free_path({x}, {y})", lambda x=x, y=y: directed_decision_free_path(empty(dict(ref, kind="CID")), x, y)) for x, y in ((a, "?"), ("?", a), ("?", "?"))),
        ("find_active_path", lambda: find_active_path(m, a, "?")), ("find_active_path", lambda: find_active_path(m, "?", a)),
        ("find_active_path", lambda: find_active_path(m, a, nodes[1], {"?"})),
        ("find_all_dir_paths", lambda: list(find_all_dir_paths(m, a, "?"))), ("find_all_dir_paths", lambda: list(find_all_dir_paths(m, "?", a))),
        ("find_all_undir_paths", lambda: list(find_all_undir_paths(m, a, "?"))), ("find_all_undir_paths", lambda: list(find_all_undir_paths(m, "?", a))),
        ("is_active_path", lambda: is_active_path(m, [a, "?"])), ("is_active_path", lambda: is_active_path(m, [a], {"?"})),
        ("get_motif", lambda: get_motif(m, [a, "?"], 0)), ("get_motifs", lambda: get_motifs(m, ["?"])),
        ("is_active_backdoor_trail", lambda: is_active_backdoor_trail(m, a, "?")), ("is_active_backdoor_trail", lambda: is_active_backdoor_trail(m, a, nodes[1], {"?"})),
        ("is_active_indirect_frontdoor_trail", lambda: is_active_indirect_frontdoor_trail(m, "?", a)),
        ("is_active_indirect_frontdoor_trail", lambda: is_active_indirect_frontdoor_trail(m, a, nodes[1], {"?"})),
        ("directed_decision_free_path", lambda: directed_decision_free_path(empty(dict(ref, kind="CID")), a, "?")),
    ):
        rec.step()
        try:
            f()
            rec.fail(f"{what} accepts an unknown node")
        except KeyError:
            pass
