"""Deterministic families of small models (specs): graphs, roles and parametrisations."""
import itertools

from mc.ref import topo


def dags(names):
    """all DAGs in which names is a topological order, fewest edges first"""
    pairs = [(u, v) for i, u in enumerate(names) for v in names[i + 1 :]]
    for k in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, k):
            yield [list(e) for e in es]


def weights(i, j, n):
    """a generic distribution over n outcomes: node i, context number j"""
    w = [1 + ((i * 7 + j * 13 + k * k * 5 + j * k * 3 + i * k * 2) % 11) for k in range(n)]
    s = sum(w)
    return [round(x / s, 6) for x in w[:-1]] + [round(1 - sum(round(x / s, 6) for x in w[:-1]), 6)]


# flavour -> (kind, domain)
FLAV = {
    "b": ("full", [0, 1]),
    "t": ("full", [0, 1, 2]),
    "p": ("partial", ["a", "b", "c"]),
    "d": ("det", [0, 1]),
    "D": ("det", [-1, 0, 4]),
    "z": ("tab", ["z", "a"]),
    "Z": ("tab", [5, 2, 3]),
    "s": ("sf", [3, -1]),
    "c": ("const", [7, 2]),
    "n": ("full", [-1.5, 2]),
    "q": ("dict", [0, 1]),
    "o": ("tab", [1, 0]),
}


def rel_for(flav, i, v, parents, dom, salt=0):
    """a relationship of the given flavour for node number i; dom: domains of the parents"""
    kind, domain = FLAV[flav]
    domain = list(domain)
    ctxs = list(itertools.product(*[dom[p] for p in parents]))
    n = len(domain)
    args = ", ".join(parents)
    tup = "(" + ", ".join(parents) + ("," if len(parents) == 1 else "") + ")"
    if kind == "dict" or (kind in ("full",) and not parents):
        return ["dict", [[o, p] for o, p in zip(domain, weights(i + salt, 0, n))]]
    if kind == "const":
        return ["const", [[o, p] for o, p in zip(domain, weights(i + salt, 0, n))], domain]
    if kind == "full":
        tab = {c: dict(zip(domain, weights(i + salt, j, n))) for j, c in enumerate(ctxs)}
        return ["fun", f"lambda {args}: {tab!r}[{tup}]"]
    if kind == "partial":
        # context j specifies outcome j % n (all of them are specified somewhere), the rest is spread evenly;
        # the first context specifies every outcome, so that the domain is always complete
        tab = {}
        for j, c in enumerate(ctxs):
            w = weights(i + salt, j, n)
            tab[c] = dict(zip(domain, w)) if j == 0 else {domain[j % n]: w[0]}
        return ["fun", f"lambda {args}: {tab!r}[{tup}]" if parents else f"lambda: {tab[()]!r}"]
    if kind == "det":
        if not parents:
            return ["dict", [[o, p] for o, p in zip(domain, weights(i + salt, 0, n))]]
        tab = {c: domain[(j * (1 + salt) + sum(dom[p].index(x) for p, x in zip(parents, c)) + i) % n] for j, c in enumerate(ctxs)}
        return ["fun", f"lambda {args}: {tab!r}[{tup}]"]
    if kind == "tab":
        ev = list(reversed(parents))
        cols = []
        for c in itertools.product(*[dom[p] for p in ev]):
            a = dict(zip(ev, c))
            j = ctxs.index(tuple(a[p] for p in parents))
            cols.append(weights(i + salt, j, n))
        return ["tab", domain, ev, cols, [len(dom[p]) for p in ev]]
    if kind == "sf":
        tab = {c: dict(zip(domain, weights(i + salt, j, n))) for j, c in enumerate(ctxs)}
        return ["sf", f"lambda {args}: {tab!r}[{tup}]" if parents else f"lambda: {tab[()]!r}", domain]
    raise ValueError(kind)


def rel_domain(rel, parents, dom):
    from mc.ref import Ref

    return Ref.table("?", rel, parents, dom)[0]


def parametrise(nodes, edges, flavs, salt=0, special=None):
    """[[node, rel]] in topological order; special: {node: rel} given explicitly"""
    dom, rel = {}, []
    par = {n: [u for u, v in edges if v == n] for n in nodes}
    for v in topo(nodes, [tuple(e) for e in edges]):
        i = nodes.index(v)
        r = special[v] if special and v in special else rel_for(flavs[v], i, v, par[v], dom, salt)
        dom[v] = rel_domain(r, par[v], dom)
        rel.append([v, r])
    return rel


def needs_ready(rel):
    """is the relationship an object that can only be created once its parents are specified?"""
    return rel[0] in ("sf", "const", "ddom")


def backward(rel, edges):
    """children first, as far as the kinds of relationship allow it"""
    rels = dict((v, r) for v, r in rel)
    out = []

    def emit(v):
        if v in out:
            return
        if needs_ready(rels[v]):
            for u, w in edges:
                if w == v:
                    emit_all(u)
        out.append(v)

    def emit_all(v):  # v has to be ready: all of its ancestors too
        for u, w in edges:
            if w == v:
                emit_all(u)
        if v not in out:
            out.append(v)

    for v, _ in reversed(rel):
        emit(v)
    return [[v, rels[v]] for v in out]
