"""Boring reference semantics of (multi-agent) causal influence diagrams, by brute-force enumeration.

A *spec* is plain JSON-able data:

  {"kind": "CBN" | "CID" | "MACID" | "MACIDBase",
   "nodes": [...],                     insertion order
   "edges": [[u, v], ...],             insertion order
   "dec": [[agent, [node, ...]], ...], "util": [[agent, [node, ...]], ...],
   "rel": [[node, rel], ...]}          the order in which relationships are added

  rel = ["dict", [[outcome, prob], ...]]     dictionary
      | ["fun", "lambda A, B: ..."]          function of the parents, given as source
      | ["tab", domain, evidence, columns]   TabularCPD; columns indexed by the product of the evidence domains
      | ["dec", domain]                      decision domain (no policy)
      | ["sf", "lambda ...", domain|None]    StochasticFunctionCPD object
      | ["const", [[outcome, prob], ...], domain|None]  ConstantCPD object
      | ["ddom", domain]                     DecisionDomain object

Nothing in this file uses the code under test.
"""
import itertools
import math

TOL = 1e-7


def close(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def fun(src):
    """Evaluate the source of a relationship"""
    return eval(src, {})


def topo(nodes, edges):
    par = {n: [u for u, v in edges if v == n] for n in nodes}
    out, left = [], list(nodes)
    while left:
        for n in left:
            if all(p in out for p in par[n]):
                out.append(n)
                left.remove(n)
                break
        else:
            raise ValueError("cyclic")
    return out


def complete(dist, domain):
    """spread the available mass evenly on the unspecified outcomes"""
    dist = {k: v for k, v in dist.items() if v is not None}
    missing = [o for o in domain if o not in dist]
    mass = 1 - sum(dist.values())
    return {o: (dist[o] if o in dist else mass / len(missing)) for o in domain}


def as_dist(ret):
    return ret if isinstance(ret, dict) else {ret: 1}


class Ref:
    """nodes, parents, domains and conditional probability tables of a fully specified model"""

    def __init__(self, nodes, edges, dom, cpt, par=None):
        self.nodes = list(nodes)
        self.edges = [tuple(e) for e in edges]
        self.par = par if par is not None else {n: [u for u, v in self.edges if v == n] for n in self.nodes}
        self.order = topo(self.nodes, self.edges)
        self.dom = dom
        self.cpt = cpt  # cpt[v][tuple of parent outcomes in par[v] order] = {outcome: prob}

    # -- construction ---------------------------------------------------------------------------
    @classmethod
    def from_spec(cls, spec, policies=None):
        """policies: {decision: rel} replaces/gives decision rules (uniform if undecided)"""
        nodes = spec["nodes"]
        edges = [tuple(e) for e in spec["edges"]]
        rel = {n: r for n, r in spec["rel"]}
        if policies:
            rel.update(policies)
        par = {n: [u for u, v in edges if v == n] for n in nodes}
        dom, cpt = {}, {}
        for v in topo(nodes, edges):
            dom[v], cpt[v] = cls.table(v, rel[v], par[v], dom)
        return cls(nodes, edges, dom, cpt)

    @staticmethod
    def table(v, rel, parents, dom):
        ctxs = list(itertools.product(*[dom[p] for p in parents]))
        kind = rel[0]
        if kind in ("dict", "const"):
            dist = {o: p for o, p in rel[1]}
            domain = rel[2] if kind == "const" and rel[2] else sorted(dist)
            return list(domain), {c: complete(dist, domain) for c in ctxs}
        if kind in ("dec", "ddom"):
            domain = list(rel[1])
            return domain, {c: {o: 1 / len(domain) for o in domain} for c in ctxs}
        if kind in ("fun", "sf"):
            f = rel[1] if callable(rel[1]) else fun(rel[1])
            raw = {c: as_dist(f(**dict(zip(parents, c)))) for c in ctxs}
            domain = rel[2] if kind == "sf" and rel[2] else sorted(set().union(*[d.keys() for d in raw.values()]))
            return list(domain), {c: complete(raw[c], domain) for c in ctxs}
        if kind == "tab":
            _, domain, evidence, columns = rel[:4]
            cols = list(itertools.product(*[dom[p] for p in evidence]))
            assert len(cols) == len(columns)
            by = {}
            for c, col in zip(cols, columns):
                a = dict(zip(evidence, c))
                by[tuple(a[p] for p in parents)] = dict(zip(domain, col))
            return list(domain), by
        if kind == "cols":  # already a table
            return list(rel[1]), rel[2]
        raise ValueError(kind)

    def do(self, intervention):
        edges = [e for e in self.edges if e[1] not in intervention]
        par = {n: ([] if n in intervention else list(self.par[n])) for n in self.nodes}
        dom = dict(self.dom)
        cpt = dict(self.cpt)
        for v, o in intervention.items():
            if o not in dom[v]:
                raise KeyError(o)
            cpt[v] = {(): {x: (1.0 if x == o else 0.0) for x in dom[v]}}
        return Ref(self.nodes, edges, dom, cpt, par)

    def with_rule(self, d, rule):
        """rule: {parent context: {outcome: prob}}"""
        cpt = dict(self.cpt)
        cpt[d] = rule
        return Ref(self.nodes, self.edges, self.dom, cpt, self.par)

    # -- inference ------------------------------------------------------------------------------
    def joint(self, nodes=None):
        """list of (assignment dict, probability) with positive probability"""
        out = [({}, 1.0)]
        for v in self.order:
            nxt = []
            for a, p in out:
                d = self.cpt[v][tuple(a[q] for q in self.par[v])]
                for o, pr in d.items():
                    if pr > 0:
                        b = dict(a)
                        b[v] = o
                        nxt.append((b, p * pr))
            out = nxt
        return out

    def query(self, variables, ctx):
        """{tuple of outcomes: prob}, or None if the context has probability zero"""
        res, z = {}, 0.0
        for a, p in self.cached_joint():
            if all(a[k] == v for k, v in ctx.items()):
                z += p
                key = tuple(a[v] for v in variables)
                res[key] = res.get(key, 0.0) + p
        if z <= 1e-13:
            return None
        return {k: v / z for k, v in res.items()}

    def cached_joint(self):
        if not hasattr(self, "_joint"):
            self._joint = self.joint()
        return self._joint

    def ev(self, v, ctx):
        d = self.query([v], ctx)
        return None if d is None else sum(k[0] * p for k, p in d.items())

    def prob(self, ctx):
        return sum(p for a, p in self.cached_joint() if all(a[k] == v for k, v in ctx.items()))


# -- graphs ---------------------------------------------------------------------------------------


def descendants(edges, n):
    out, stack = set(), [n]
    while stack:
        x = stack.pop()
        for u, v in edges:
            if u == x and v not in out:
                out.add(v)
                stack.append(v)
    return out


def ancestors(edges, n):
    return descendants([(v, u) for u, v in edges], n)


def undirected_paths(edges, a, b):
    """all simple paths from a to b ignoring directions"""
    nb = {}
    for u, v in edges:
        nb.setdefault(u, set()).add(v)
        nb.setdefault(v, set()).add(u)
    out = []

    def rec(path):
        if path[-1] == b:
            out.append(list(path))
            return
        for x in sorted(nb.get(path[-1], ())):
            if x not in path:
                rec(path + [x])

    rec([a])
    return out


def directed_paths(edges, a, b):
    ch = {}
    for u, v in edges:
        ch.setdefault(u, set()).add(v)
    out = []

    def rec(path):
        if path[-1] == b:
            out.append(list(path))
            return
        for x in sorted(ch.get(path[-1], ())):
            if x not in path:
                rec(path + [x])

    rec([a])
    return out


def path_active(edges, path, observed):
    """Is this particular path active given observed? (textbook definition)"""
    es = set(map(tuple, edges))
    for x, y, z in zip(path, path[1:], path[2:]):
        if (x, y) in es and (z, y) in es:
            if not (({y} | descendants(es, y)) & set(observed)):
                return False
        elif y in observed:
            return False
    return True


def dconnected(edges, a, b, observed, nodes=None):
    """d-connection by moralisation of the ancestral graph (independent of path enumeration).
    a is connected to b given observed; endpoints in observed count as separated."""
    obs = set(observed)
    if a in obs or b in obs:
        return False
    if a == b:
        return True
    keep = {a, b} | obs
    for n in list(keep):
        keep |= ancestors(edges, n)
    und = {n: set() for n in keep}
    par = {n: [] for n in keep}
    for u, v in edges:
        if u in keep and v in keep:
            und[u].add(v)
            und[v].add(u)
            par[v].append(u)
    for n, ps in par.items():
        for x, y in itertools.combinations(ps, 2):
            und[x].add(y)
            und[y].add(x)
    seen, stack = {a}, [a]
    while stack:
        x = stack.pop()
        for y in und[x]:
            if y in obs or y in seen:
                continue
            if y == b:
                return True
            seen.add(y)
            stack.append(y)
    return False


def is_acyclic(nodes, edges):
    try:
        topo(list(nodes), list(edges))
        return True
    except ValueError:
        return False


def components(nodes, edges):
    comp = {n: n for n in nodes}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x

    for u, v in edges:
        comp[find(u)] = find(v)
    return {n: find(n) for n in nodes}


# -- influence diagrams -----------------------------------------------------------------------------


def rules(domain, ctxs):
    """all pure decision rules, as {context: {outcome: prob}}"""
    for outs in itertools.product(domain, repeat=len(ctxs)):
        yield {c: {o: (1.0 if o == x else 0.0) for o in domain} for c, x in zip(ctxs, outs)}


def bounded_rules(domain, ctxs, top):
    """all pure rules, or, if there are more than top, all that are constant except for at most one context"""
    if len(domain) ** len(ctxs) <= top:
        return list(rules(domain, ctxs))
    out = []
    for o in domain:
        base = {c: {x: (1.0 if x == o else 0.0) for x in domain} for c in ctxs}
        out.append(base)
        for c in ctxs:
            for o2 in domain:
                if o2 != o:
                    out.append({**base, c: {x: (1.0 if x == o2 else 0.0) for x in domain}})
    return out


def eu(ref, utils, ctx=None):
    return sum(ref.ev(u, ctx or {}) for u in utils)


def contexts(ref, d):
    return list(itertools.product(*[ref.dom[p] for p in ref.par[d]]))


def max_eu(ref, decisions, utils):
    """the maximal expected utility over all joint pure policies (brute force)"""
    best = -math.inf
    spaces = [list(rules(ref.dom[d], contexts(ref, d))) for d in decisions]
    for prof in itertools.product(*spaces):
        r = ref
        for d, rule in zip(decisions, prof):
            r = r.with_rule(d, rule)
        best = max(best, eu(r, utils))
    return best
