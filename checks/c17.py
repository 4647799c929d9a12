"""C17: incentive criteria agree with their graphical definitions"""
import mc.boot  # noqa: F401
from mc.build import edited, roles
from mc.ref import descendants, directed_paths, path_active, undirected_paths
from mc.structs import G, family
from pycid.analyze.instrumental_control_incentive import admits_ici, admits_ici_list
from pycid.analyze.response_incentive import admits_ri, admits_ri_list
from pycid.analyze.value_of_control import (
    admits_dir_voc, admits_dir_voc_list, admits_indir_voc, admits_indir_voc_list, admits_voc, admits_voc_list,
)
from pycid.analyze.value_of_information import admits_voi, admits_voi_list

ID = "C17"
META = dict(
    rule="a case is one graph with roles; every criterion is evaluated for every node (and every decision) and compared with its definition on the reference requisite graph, paths "
    "by enumeration and d-separation by moralisation; lists are compared with the nodes; refusals of unknown nodes, several agents and insufficient recall are exercised on every graph",
    bounds={
        "quick": "all DAGs over 3 and 4 ordered nodes with all roles of one agent that include a decision and a utility; all DAGs over 5 ordered nodes for 3 role strings; "
        "all 3-node graphs of two agents for the refusals",
        "thorough": "all DAGs over 5 ordered nodes with all such roles",
    },
    assumptions=[
        "value of information is judged where the diagram has sufficient recall with the added observation",
        "indirect value of control: where the observations in the original and in the requisite graph give different answers, both are accepted",
    ],
)
CHUNK = 16
FIVE = ["c c d0 c u0", "c d0 c d0 u0", "c d0 c u0 u0"]


def has(r):
    r = r.split() if isinstance(r, str) else r
    return any(x[0] == "d" for x in r) and any(x[0] == "u" for x in r)


def cases(tier):
    for n in (3, 4):
        yield from family(n, ["c", "d0", "u0"], ("CID",), has)
    yield from family(3, ["c", "d0", "u0", "d1", "u1"], ("MACID", "MACIDBase"), has)
    yield from family(None, FIVE, ("CID",), has)
    if tier == "thorough":
        yield from family(5, ["c", "d0", "u0"], ("CID",), has)


def reaches(edges, a, b):
    return a == b or b in descendants(edges, a)


def def_voi(g, d, n):
    """None if not judged"""
    if n == d or n in descendants(g.edges, d):
        return False
    g2 = G(dict(nodes=g.nodes, edges=g.edges if (n, d) in g.edges else [*g.edges, (n, d)], dec=list(g.dec.items()), util=list(g.util.items())))
    if not g2.recall():
        return None
    return (n, d) in g2.reduced()


def def_indir(g, red, d, n):
    if n in g.decs or not any(reaches(red, n, u) for u in g.utils):
        return [False]
    out = []
    for fam_edges in (g.edges, red):
        obs = ({d} | {u for u, v in fam_edges if v == d}) - {n}
        ans = False
        for u in g.utils:
            if not any(d in p for p in directed_paths(red, n, u)):
                continue
            for p in undirected_paths(red, n, u):
                if len(p) > 1 and (p[1], n) in set(red) and path_active(red, p, obs):
                    ans = True
        out.append(ans)
    return out


def refused(f, exc, rec, what):
    rec.step()
    try:
        f()
    except exc:
        return
    except Exception as e:
        rec.fail(f"{what}: {type(e).__name__} instead of {exc.__name__}")
        return
    rec.fail(f"{what} is not refused")


def warm(m):
    m.sufficient_recall()
    for d in m.decisions:
        for n in m.nodes:
            admits_ici(m, d, n)
    for d in m.decisions:
        for n in m.nodes:
            for f in (admits_voi, admits_ri, admits_indir_voc):
                try:
                    f(m, d, n)
                except ValueError:
                    pass
    for n in m.nodes:
        admits_voc(m, n)
        admits_dir_voc(m, n)


def run_case(spec, rec):
    rec.state(spec)
    rec.trace()
    g = G(spec)
    m = edited(spec, warm)
    before = (list(m.nodes), list(m.edges), roles(m))
    d0 = g.decs[0]
    two = len(g.dec) > 1
    one_arg = [admits_voc, admits_dir_voc]
    two_args = [admits_voi, admits_ri, admits_ici, admits_indir_voc]
    if two:
        for f in two_args:
            refused(lambda: f(m, d0, g.nodes[0]), ValueError, rec, f"{f.__name__} with two agents")
        for f in one_arg:
            refused(lambda: f(m, g.nodes[0]), ValueError, rec, f"{f.__name__} with two agents")
        return
    for f in two_args:
        refused(lambda: f(m, d0, "nowhere"), KeyError, rec, f"{f.__name__} of an unknown node")
        refused(lambda: f(m, "nowhere", g.nodes[0]), KeyError, rec, f"{f.__name__} for an unknown decision")
    for f in one_arg:
        refused(lambda: f(m, "nowhere"), KeyError, rec, f"{f.__name__} of an unknown node")

    # instrumental control incentives need no recall
    for d in g.decs:
        want = {n for u in g.utils for p in directed_paths(g.edges, d, u) for n in p}
        for n in g.nodes:
            rec.step()
            if admits_ici(m, d, n) != (n in want):
                rec.fail(f"admits_ici({d!r}, {n!r}) is {n not in want}")
        got = admits_ici_list(m, d)
        if sorted(got) != sorted(want):
            rec.fail(f"admits_ici_list({d!r}) is {got}, expected {sorted(want)}")
        rec.hit("ici", len(want))

    if not g.recall():
        rec.hit("insufficient recall")
        for n in g.nodes:
            for f in (admits_voi, admits_ri, admits_indir_voc):
                refused(lambda: f(m, d0, n), ValueError, rec, f"{f.__name__}({n!r}) without sufficient recall")
            for f in one_arg:
                refused(lambda: f(m, n), ValueError, rec, f"{f.__name__}({n!r}) without sufficient recall")
        return

    red = g.reduced()
    voc = {n for n in g.nodes if n not in g.decs and any(reaches(red, n, u) for u in g.utils)}
    dirv = {n for n in voc if any(not set(p) & set(g.decs) for u in g.utils for p in directed_paths(red, n, u))}
    for name, f, fl, want in (("admits_voc", admits_voc, admits_voc_list, voc), ("admits_dir_voc", admits_dir_voc, admits_dir_voc_list, dirv)):
        for n in g.nodes:
            rec.step()
            if f(m, n) != (n in want):
                rec.fail(f"{name}({n!r}) is {n not in want}")
        got = fl(m)
        if sorted(got) != sorted(want):
            rec.fail(f"{name}_list is {got}, expected {sorted(want)}")
        rec.hit(name, len(want))
    for d in g.decs:
        ri = {n for n in g.nodes if n != d and reaches(red, n, d)}
        voi = {n: def_voi(g, d, n) for n in g.nodes}
        ind = {n: def_indir(g, red, d, n) for n in g.nodes}
        for n in g.nodes:
            rec.step(3)
            if admits_ri(m, d, n) != (n in ri):
                rec.fail(f"admits_ri({d!r}, {n!r}) is {n not in ri}")
            got = None
            if voi[n] is not None:
                got = admits_voi(m, d, n)
                if got != voi[n]:
                    rec.fail(f"admits_voi({d!r}, {n!r}) is {got}")
            else:
                rec.hit("voi without recall after adding the observation")
            got = admits_indir_voc(m, d, n)
            if got not in ind[n]:
                rec.fail(f"admits_indir_voc({d!r}, {n!r}) is {got}")
            if len(set(ind[n])) > 1:
                rec.hit("indirect voc: ambiguous")
        got = admits_ri_list(m, d)
        if sorted(got) != sorted(ri):
            rec.fail(f"admits_ri_list({d!r}) is {got}, expected {sorted(ri)}")
        rec.hit("ri", len(ri))
        got = admits_indir_voc_list(m, d)
        if len(set(got)) != len(got) or any((n in got) not in ind[n] for n in g.nodes):
            rec.fail(f"admits_indir_voc_list({d!r}) is {got}, expected {ind}")
        rec.hit("indirect voc", len(got))
        if all(v is not None for v in voi.values()):
            got = admits_voi_list(m, d)
            if sorted(got) != sorted(n for n, v in voi.items() if v):
                rec.fail(f"admits_voi_list({d!r}) is {got}, expected {voi}")
            rec.hit("voi", len(got))
    if (list(m.nodes), list(m.edges), roles(m)) != before:
        rec.fail("the diagram was changed")


def finish(total, tier):
    from mc.harness import CheckError

    for k in ("ici", "admits_voc", "admits_dir_voc", "ri", "voi", "indirect voc"):
        if total.hits.get(k, 0) < 20:
            raise CheckError("vacuous: " + k)
