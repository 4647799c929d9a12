"""Build the real pycid objects from specs, and read tables back through the public API only."""
import hashlib
import itertools
import json

import mc.boot  # noqa: F401
import pycid
from pgmpy.factors.discrete import TabularCPD
from pycid import CID, MACID, CausalBayesianNetwork
from pycid.core.cpd import ConstantCPD, DecisionDomain, StochasticFunctionCPD
from pycid.core.macid_base import MACIDBase

from mc import ref
from mc.ref import topo


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def empty(spec):
    nodes, edges = spec["nodes"], [tuple(e) for e in spec["edges"]]
    dec = {a: list(ns) for a, ns in spec.get("dec", [])}
    util = {a: list(ns) for a, ns in spec.get("util", [])}
    kind = spec["kind"]
    if kind == "CBN":
        m = CausalBayesianNetwork(edges)
        m.add_nodes_from(nodes)
    elif kind == "CID":
        m = CID(edges, decisions=dec.get(0, []), utilities=util.get(0, []))
        m.add_nodes_from(nodes)
    else:
        cls = MACID if kind == "MACID" else MACIDBase
        m = cls(edges, agent_decisions=dec, agent_utilities=util)
        m.add_nodes_from(nodes)
    return m


def tabular(v, rel):
    _, domain, evidence, columns, card = rel
    rows = [[col[i] for col in columns] for i in range(len(domain))]
    return TabularCPD(v, len(domain), rows, evidence=evidence or None, evidence_card=card or None,
                      state_names={v: list(domain)})


def add_rel(m, v, rel):
    kind = rel[0]
    if kind == "dict":
        m.add_cpds(**{v: {o: p for o, p in rel[1]}})
    elif kind == "fun":
        m.add_cpds(**{v: rel[1] if callable(rel[1]) else ref.fun(rel[1])})
    elif kind == "dec":
        m.add_cpds(**{v: list(rel[1])})
    elif kind == "tab":
        m.add_cpds(tabular(v, rel))
    elif kind == "sf":
        f = rel[1] if callable(rel[1]) else ref.fun(rel[1])
        m.add_cpds(StochasticFunctionCPD(v, f, m, domain=list(rel[2]) if rel[2] else None))
    elif kind == "const":
        m.add_cpds(ConstantCPD(v, {o: p for o, p in rel[1]}, m, domain=list(rel[2]) if rel[2] else None))
    elif kind == "ddom":
        m.add_cpds(DecisionDomain(v, m, list(rel[1])))
    else:
        raise ValueError(kind)


def build(spec):
    m = empty(spec)
    for v, r in spec["rel"]:
        add_rel(m, v, r)
    return m


def cpd_table(m, v):
    """(domain, {parent name/outcome frozenset: {outcome: prob}}) of the CPD of v, by name; None if there is none"""
    cpd = m.get_cpds(v)
    if cpd is None:
        return None
    names = cpd.state_names
    variables = list(cpd.variables)
    out = {}
    for idx in itertools.product(*[range(c) for c in cpd.cardinality]):
        a = {var: names[var][i] for var, i in zip(variables, idx)}
        o = a.pop(v)
        out.setdefault(frozenset(a.items()), {})[o] = float(cpd.values[idx])
    return list(names[v]), out


def factor_dist(factor, variables):
    """{tuple of outcomes in the order of variables: prob}, normalised"""
    fv = list(factor.variables)
    out = {}
    total = 0.0
    for idx in itertools.product(*[range(c) for c in factor.cardinality]):
        a = {var: factor.state_names[var][i] for var, i in zip(fv, idx)}
        p = float(factor.values[idx])
        out[tuple(a[v] for v in variables)] = p
        total += p
    return {k: p / total for k, p in out.items()}


def dist_diff(got, want, tol=1e-7):
    """None if equal, else a description; want may omit zero outcomes"""
    for k, p in got.items():
        if not abs(p - want.get(k, 0.0)) <= tol:
            return f"{k}: got {p}, expected {want.get(k, 0.0)}"
    for k, p in want.items():
        if k not in got and p > tol:
            return f"{k}: missing, expected {p}"
    return None


def table_diff(m, v, refm, tol=1e-7):
    """compare the CPD of v with the reference table; None if equal"""
    t = cpd_table(m, v)
    if t is None:
        return f"{v} has no CPD"
    dom, tab = t
    if dom != list(refm.dom[v]):
        return f"domain of {v}: got {dom}, expected {refm.dom[v]}"
    if list(m.model.domain[v]) != list(refm.dom[v]):
        return f"registered domain of {v}: got {m.model.domain[v]}, expected {refm.dom[v]}"
    want = {frozenset(zip(refm.par[v], c)): d for c, d in refm.cpt[v].items()}
    if set(want) != set(tab):
        return f"contexts of {v}: got {sorted(map(sorted, tab), key=str)}, expected {sorted(map(sorted, want), key=str)}"
    for c, d in want.items():
        e = dist_diff(tab[c], d, tol)
        if e:
            return f"P({v} | {dict(c)}): {e}"
    return None


def roles(m):
    if not hasattr(m, "agent_decisions"):
        return ()
    return (
        {a: list(ns) for a, ns in m.agent_decisions.items()},
        {a: list(ns) for a, ns in m.agent_utilities.items()},
        dict(m.decision_agent),
        dict(m.utility_agent),
        list(m.decisions),
        list(m.utilities),
        list(m.agents),
    )


def snapshot(m, identities=True):
    """everything that makes up the model"""
    cpds = {}
    for v in m.nodes:
        t = cpd_table(m, v)
        if t is not None:
            t = (t[0], sorted((sorted(c, key=str), sorted(d.items(), key=str)) for c, d in t[1].items()), type(m.get_cpds(v)).__name__,
                 {k: list(x) for k, x in m.get_cpds(v).state_names.items()}, list(m.get_cpds(v).variables))
        cpds[v] = t
    return {
        "class": type(m).__name__,
        "nodes": list(m.nodes),
        "edges": list(m.edges),
        "parents": {v: list(m.get_parents(v)) for v in m.nodes},
        "roles": roles(m),
        "relationships": {v: (id(r) if identities else type(r).__name__) for v, r in m.model.items()},
        "values": {v: list(r) if isinstance(r, (list, tuple)) else dict(r) if isinstance(r, dict) else None for v, r in m.model.items()},
        "domains": {v: list(d) for v, d in m.model.domain.items()},
        "tables": cpds,
    }


def snap_diff(a, b):
    """None or a description of the first difference"""
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                for x in {*a[k], *b[k]}:
                    if a[k].get(x) != b[k].get(x):
                        return f"{k} of {x}: {a[k].get(x)} -> {b[k].get(x)}"
            return f"{k}: {a[k]} -> {b[k]}"
    return None


def npolicies(m):
    """the number of pure policy profiles"""
    n = 1
    for d in m.decisions:
        c = 1
        for p in m.get_parents(d):
            c *= len(m.model.domain[p])
        n *= len(m.model.domain[d]) ** min(c, 99)
    return n


def edited(spec, warm, every=4):
    """The object described by spec. One of `every` of them is not built directly: a slightly different diagram
    is built first, warm(object) asks the questions of the check about it (so that answers that are kept somewhere would be
    kept), and then it is edited (or copied and edited) into the diagram of spec."""
    nodes, edges = list(spec["nodes"]), [tuple(e) for e in spec["edges"]]
    k = h64((nodes, edges, spec.get("dec"), spec.get("util"), json.dumps(spec["rel"], default=lambda f: type(f).__name__)))
    if k % every or not nodes:
        return build(spec)
    k //= every
    rels = dict(spec["rel"])
    copy = k % 2
    k //= 2
    first = dict(spec)
    try:
        order = topo(nodes, edges)
    except ValueError:
        return build(spec)
    missing = extra = role = v = None
    free = [(a, b) for i, a in enumerate(order) for b in order[i + 1 :] if (a, b) not in edges]
    lists = [(kind, a, ns) for kind in ("dec", "util") for a, ns in [x for x in spec.get(kind, ()) if x[1]][-1:]]
    how = k % 6
    k //= 6
    if how == 4 and edges and free:  # moved edge: as many edges as before
        extra = free[k % len(free)]
        into = [e for e in edges if e[1] == extra[1]] or edges
        missing = into[k % len(into)]
        v = extra[1]
        first["edges"] = [extra if e == missing else e for e in edges]
    elif how == 5 and len(spec.get("util", ())) > 1 and lists and lists[-1][0] == "util":  # another agent's utility
        a, b = lists[-1], next(x for x in spec["util"] if x[0] != lists[-1][1])
        role, v = a, a[2][-1]
        first["util"] = [[x, [n for n in ns if n != v] + [v] * (x == b[0])] for x, ns in spec["util"]]
    elif how == 0 and edges:
        missing = edges[k % len(edges)]
        v = missing[1]
        first["edges"] = [e for e in edges if e != missing]
    elif how == 1 and free:
        extra = free[k % len(free)]
        v = extra[1]
        first["edges"] = edges + [extra]
    elif how == 2 and lists:
        role = lists[k % len(lists)]
        v = role[2][-1]
        first[role[0]] = [[a, [n for n in ns if n != v]] for a, ns in spec[role[0]]]
    elif rels:
        how = 3
        decs = [d for _, ds in spec.get("dec", ()) for d in ds]
        pick = nodes + 2 * [u for u, d in edges if d in decs]
        v = pick[k % len(pick)]
        k //= len(pick)
    else:
        return build(spec)
    try:
        m = empty(first)
        if rels:
            dom = dict(ref.Ref.from_spec(spec).dom)
            if how == 3 and not any(rels[c][0] == "tab" for u, c in edges if u == v and c in rels):
                dom[v] = [dom[v], dom[v][::-1], dom[v][:-1] or dom[v]][k % 3]  # another domain before
            for w, r in spec["rel"]:
                if w not in (v, missing and missing[1]):
                    add_rel(m, w, r)
                elif w in [d for _, ds in first.get("dec", ()) for d in ds]:
                    add_rel(m, w, ("dec", dom[w]))
                else:
                    add_rel(m, w, ("const", [(o, 1 / len(dom[w])) for o in dom[w]], dom[w]))
        m.add_nodes_from(nodes)
    except Exception:  # the detour is not possible
        return build(spec)
    try:
        warm(m)
    except Exception:  # not judged: it is not the diagram of the case
        pass
    if copy:
        m = m.copy()
    if extra:
        m.remove_edge(*extra)
    if missing:
        m.add_edge(*missing)
    if role:
        (m.make_decision if role[0] == "dec" else m.make_utility)(v, role[1])
    for w in {v, missing[1]} if missing else [v]:
        if w in rels:
            add_rel(m, w, rels[w])
    return m
