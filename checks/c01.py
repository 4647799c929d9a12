"""C01: parametrisation does not depend on the order or history of edits"""
import mc.boot  # noqa: F401
from mc import bfs
from mc.build import add_rel, dist_diff, empty, factor_dist, table_diff, tabular
from mc.ref import Ref, ancestors, fun, is_acyclic

ID = "C01"
META = dict(
    rule="all sequences of edits (adding/removing edges and nodes, giving/replacing/removing relationships, intervening) up to the depth "
    "are executed on the real model, merging states in which edges, relationships, tables, domains and their internal order "
    "agree; in every state each variable whose relationship and those of all ancestors are given is compared with a table computed "
    "afresh from the current graph and relationships, and fully specified models are queried",
    bounds={
        "quick": "12 universes (3-4 nodes, 9-18 operations each; CBN, CID, MACIDBase, MACID), empty or fully specified start, sequences of up to 4 operations "
        "(5 in the smaller ones)",
        "thorough": "the same universes, up to 5 operations (6 in the smaller ones)",
    },
    assumptions=[
        "relationships that depend on the parents (functions, tables) are given, or given again, after the last change of the incoming edges",
        "tables (TabularCPD) are not expected to follow changes of the size of parents' domains",
    ],
)
CHUNK = 1

SUM = ["kw", "lambda **pv: (sum(pv.values()) % 3 if pv else 1)"]
NOISY = ["kw", "lambda **pv: ({max(pv.values()): 0.75, 9: 0.25} if pv else {9: 0.5, 0: 0.5})"]
PART = ["kw", "lambda **pv: ({min(pv.values()): 0.5, 1: None, -2: None} if pv else {2: 0.5, 1: None, -2: None})"]
A1 = ["dict", [[0, 0.25], [1, 0.75]]]
A2 = ["dict", [[0, 0.375], [5, 0.625]]]
A3 = ["dict", [[1, 0.5], [0, 0.25], [2, 0.25]]]
AT = ["tab", [2, 0], [], [[0.125, 0.875]], []]
AF = ["kw", "lambda **pv: {1: 0.5, 4: 0.5}"]
CON = ["const", [[3, 0.25], [1, 0.75]], [3, 1]]
PK = ["pack", "lambda {args}: ({args}{comma})[0] + 1"]  # the value of the first parent plus one, named arguments


def named(rel, parents):
    """turn an alphabet entry into a spec relationship for the given parents"""
    if rel[0] == "kw":
        return ["fun", rel[1]]
    if rel[0] == "pack":
        if not parents:
            return None
        return ["fun", rel[1].format(args=", ".join(parents), comma="," if len(parents) == 1 else "")]
    return rel


# name -> (kind, dec, util, nodes, possible edges, alphabet, interventions, initial edges, initial relationships, depth offset)
UNIVERSES = {
    "chain": dict(kind="CBN", nodes=["C", "A", "B"], edges=[["A", "B"], ["B", "C"]], start=[["A", "B"], ["B", "C"]],
                  rels=dict(A=[A1, A2, A3], B=[SUM, NOISY], C=[NOISY, SUM]), do=[["A", -1], ["B", 0]], extra=0),
    "toggle": dict(kind="CBN", nodes=["A", "B", "C"], edges=[["A", "B"], ["A", "C"], ["B", "C"]], start=[["A", "B"]],
                   rels=dict(A=[A1, A3], B=[SUM, A2], C=[PART, A1]), do=[["B", 0]], extra=0),
    "nodes": dict(kind="CBN", nodes=["A", "C", "B"], edges=[["A", "B"], ["A", "C"], ["B", "C"]], start=[["A", "B"], ["B", "C"]],
                  rels=dict(A=[A1], B=[A2, SUM], C=[CON, A1, NOISY]), do=[], extra=0, remove=["A", "B", "C"]),
    "nodes with roles": dict(kind="MACID", dec=[["x", ["D"]]], util=[["y", ["U"]]], nodes=["A", "D", "U"], edges=[["A", "D"], ["A", "U"], ["D", "U"]],
                             start=[["A", "D"], ["A", "U"]], rels=dict(A=[A1], D=[["dec", [1, 0]], PK], U=[NOISY, A2]), do=[], extra=0, remove=["A"]),
    "objects": dict(kind="CBN", nodes=["A", "B", "C"], edges=[["A", "B"], ["B", "C"]], start=[["A", "B"], ["B", "C"]],
                    rels=dict(A=[A1, AT, AF], B=[CON, PK, A3], C=[PK]), do=[["B", -1]], extra=0),
    "diamond": dict(kind="CBN", nodes=["D", "C", "B", "A"], edges=[["A", "B"], ["A", "C"], ["B", "D"], ["C", "D"]],
                    start=[["A", "B"], ["A", "C"], ["B", "D"], ["C", "D"]],
                    rels=dict(A=[A1, A2], B=[SUM], C=[NOISY], D=[PART]), do=[["A", 0]], extra=0, static=True),
    "cid": dict(kind="CID", dec=[[0, ["D"]]], util=[[0, ["U"]]], nodes=["A", "D", "U"], edges=[["A", "D"], ["A", "U"], ["D", "U"]],
                start=[["A", "D"], ["D", "U"]], rels=dict(A=[A1, A3], D=[["dec", [1, 0]], ["dec", [0, 1, 2]], PK], U=[SUM, NOISY]),
                do=[["D", -1]], extra=0),
    "macid": dict(kind="MACID", dec=[["x", ["D"]], ["y", ["E"]]], util=[["x", ["U"]], ["y", []]], nodes=["D", "E", "U"],
                  edges=[["D", "E"], ["E", "U"]], start=[["D", "E"], ["E", "U"]],
                  rels=dict(D=[["dec", [0, 1]], ["dec", [4, 2]], A1], E=[["dec", [1, 0]], PK], U=[NOISY]), do=[["D", -1], ["E", 0]], extra=0),
    "base": dict(kind="MACIDBase", dec=[[0, ["E"]]], util=[[1, ["U"]]], nodes=["U", "E", "A"], edges=[["A", "E"], ["E", "U"]],
                 start=[], rels=dict(A=[A1, A2], E=[["dec", [1, 0]], ["ddom", [2, 1]], SUM], U=[SUM, A1]), do=[["E", 0]], extra=0),
    "cpd objects": dict(kind="MACIDBase", dec=[[0, ["B"]]], util=[[0, ["C"]]], nodes=["C", "B", "A"], edges=[["A", "B"], ["B", "C"]], start=[["A", "B"], ["B", "C"]],
                        rels=dict(A=[A1, A2, A3], B=[["sf", "lambda **pv: {sum(pv.values()): 0.5, 7: 0.5}", None], ["sf", "lambda **pv: {min(pv.values()) if pv else 2: 0.75}", [5, 2, 1, 0]], SUM],
                                  C=[["sf", "lambda **pv: max(pv.values()) if pv else {3: 0.5, -1: 0.5}", None], NOISY]), do=[["B", 0]], extra=0),
    "two parents": dict(kind="CBN", nodes=["B", "C", "A"], edges=[["A", "C"], ["B", "C"]], start=[["B", "C"], ["A", "C"]],
                        rels=dict(A=[A1, ["const", [[1, 0.5], [0, 0.5]], [1, 0]], A2], B=[["const", [[0, 0.75], [1, 0.25]], [1, 0]], A1],
                                  C=[["sf", "lambda A, B: {2 * A + B: 0.75, 20: 0.25}", None], ["pack", "lambda {args}: {{2 * A + B: 0.625, -1: 0.375}}"]]), do=[["A", 1]], extra=0, static=True),
    "same size": dict(kind="CBN", nodes=["A", "B", "C"], edges=[["A", "B"], ["B", "C"]], start=[["A", "B"], ["B", "C"]],
                      rels=dict(A=[A1, A2], B=[["tab", [7, 3], ["A"], [[0.25, 0.75], [0.5, 0.5]], [2]], PK],
                                C=[["tab", [1, 0], ["B"], [[0.125, 0.875], [0.625, 0.375]], [2]]]), do=[["A", -1]], extra=1, static=True),
}


def base_ops(u):
    ops = [["rel", v, i] for v in u["nodes"] for i in range(len(u["rels"].get(v, [])))]
    ops += [["del", v] for v in u["nodes"]]
    ops += [["do", v, k] for v, k in u["do"]]
    ops += [["node", v] for v in u.get("remove", [])]
    ops += [["all", i, order] for i, order in ((0, 1), (1, -1))]
    if not u.get("static"):
        ops += [["edge", e] for e in range(len(u["edges"]))]
        ops += [["edgerel", e, i] for e in range(len(u["edges"])) for i in range(len(u["rels"].get(u["edges"][e][1], [])))]
    return ops


def depends(rel):
    return rel[0] in ("fun", "tab", "sf")


class Abstract:
    """the abstract model: current edges and relationships; op() returns False if the operation is not in scope"""

    def __init__(self, u):
        self.u = u
        self.nodes = list(u["nodes"])
        self.edges = [list(e) for e in u["start"]]
        self.rel = {}

    def parents(self, v):
        return [a for a, b in self.edges if b == v]

    def given(self, v):
        """is everything given that is needed to compute v?"""
        return v in self.rel and all(self.given(p) for p in self.parents(v))

    def ref(self, v):
        keep = [n for n in self.u["nodes"] if n == v or n in ancestors(self.edges, v)]
        return Ref.from_spec(dict(nodes=keep, edges=[e for e in self.edges if e[0] in keep and e[1] in keep],
                                  rel=[[n, self.rel[n]] for n in keep]))

    def concretise(self, op):
        """the concrete effects of an operation: list of primitive steps, or None if it is not enabled"""
        u = self.u
        if op[0] == "rel" and op[1] not in self.nodes:
            return None
        if op[0] == "all":  # several relationships in one call
            rels = []
            for v in u["nodes"][:: op[2]]:
                if v in self.nodes and u["rels"].get(v):
                    r = named(u["rels"][v][op[1] % len(u["rels"][v])], self.parents(v))
                    if r is None or r[0] in ("const", "ddom", "sf") or (r[0] == "tab" and sorted(r[2]) != sorted(self.parents(v))):
                        return None
                    rels.append([v, r])
            return [["rels", rels]] if len(rels) > 1 else None
        if op[0] == "node":
            if op[1] not in self.nodes:
                return [["new", op[1]]]
            if any(a == op[1] and b in self.rel and depends(self.rel[b]) for a, b in self.edges):
                return None
            return [["gone", op[1]]]
        if op[0] == "rel":
            v = op[1]
            r = named(u["rels"][v][op[2]], self.parents(v))
            if r is None or (r[0] in ("const", "ddom", "sf") and not all(self.given(p) for p in self.parents(v))):
                return None
            if r[0] == "tab" and sorted(r[2]) != sorted(self.parents(v)):
                return None
            return [["rel", v, r]]
        if op[0] == "del":
            return [["del", op[1]]] if op[1] in self.rel else None
        if op[0] == "do":
            v = op[1]
            if not self.given(v):
                return None
            dom = self.ref(v).dom[v]
            return [["do", v, dom[op[2]], dom]]
        a, b = u["edges"][op[1]]
        add = [a, b] not in self.edges
        if op[0] == "edge":
            if b in self.rel and depends(self.rel[b]):
                return None
            if op[1] % 2 and not add:
                return [["rems", a, b]]
            return [["add" if add else "rem", a, b]]  # adding an edge also adds the nodes that do not exist
        if op[0] == "edgerel":
            new = self.parents(b) + [a] if add else [p for p in self.parents(b) if p != a]
            r = named(u["rels"][b][op[2]], new)
            if r is None or not depends(r) or (r[0] == "tab" and sorted(r[2]) != sorted(new)):
                return None
            if b not in self.rel or not depends(self.rel[b]):
                return None  # the same as two operations
            if r[0] == "sf" and not all(self.given(p) for p in new):
                return None
            if u.get("remove") and not {a, b} <= set(self.nodes):
                return None
            return [["add" if add else "rem", a, b], ["rel", b, r]]
        raise ValueError(op)

    def step(self, prim):
        if prim[0] == "rel":
            self.rel[prim[1]] = prim[2]
        elif prim[0] == "rels":
            self.rel.update({v: r for v, r in prim[1]})
        elif prim[0] == "del":
            del self.rel[prim[1]]
        elif prim[0] == "add":
            self.edges.append([prim[1], prim[2]])
            self.nodes += [v for v in prim[1:] if v not in self.nodes]
        elif prim[0] == "new":
            self.nodes.append(prim[1])
        elif prim[0] == "gone":
            self.nodes.remove(prim[1])
            self.edges = [e for e in self.edges if prim[1] not in e]
            self.rel.pop(prim[1], None)
        elif prim[0] in ("rem", "rems"):
            self.edges.remove([prim[1], prim[2]])
        elif prim[0] == "do":
            _, v, o, dom = prim
            self.edges = [e for e in self.edges if e[1] != v]
            self.rel[v] = ["const", [[x, 1.0 if x == o else 0.0] for x in dom], dom]

    def valid(self):
        """tables have to fit the sizes of the parents' domains, and the graph has to be acyclic"""
        if not is_acyclic(self.u["nodes"], self.edges):
            return False
        for v, r in self.rel.items():
            if r[0] == "tab" and r[2] and all(self.given(p) for p in self.parents(v)):
                for p, card in zip(r[2], r[4]):
                    if len(self.ref(p).dom[p]) != card:
                        return False
        return True


def run_abstract(u, hist):
    a = Abstract(u)
    prims = []
    for op in hist:
        c = a.concretise(op)
        if c is None:
            return None, None
        for p in c:
            a.step(p)
        if not a.valid():
            return None, None
        prims.append(c)
    return a, prims


def full_start(u):
    """operations that specify everything, in an awkward order (children first where possible)"""
    hist = []
    todo = list(u["nodes"])
    while todo:
        for v in todo:
            if v in u["rels"] and run_abstract(u, hist + [["rel", v, 0]])[0] is not None:
                hist.append(["rel", v, 0])
                todo.remove(v)
                break
        else:
            break
    return hist


def cases(tier):
    for name, u in UNIVERSES.items():
        depth = (4 if tier == "quick" else 5) + u["extra"]
        for pre in ([], full_start(u)):
            d = depth if not pre else depth - 1
            ops = base_ops(u)
            for op in ops:
                if run_abstract(u, pre + [op])[0] is not None:
                    yield dict(universe=name, prefix=pre + [op], depth=len(pre) + d)


def value(rel):
    return dict(map(tuple, rel[1])) if rel[0] == "dict" else list(rel[1]) if rel[0] == "dec" else fun(rel[1])


def execute(m, prim):
    if prim[0] == "rel":
        add_rel(m, prim[1], prim[2])
    elif prim[0] == "rels":
        tables = [tabular(v, r) for v, r in prim[1] if r[0] == "tab"]
        m.add_cpds(*tables, **{v: value(r) for v, r in prim[1] if r[0] != "tab"})
    elif prim[0] == "del":
        cpd = m.get_cpds(prim[1])
        m.remove_cpds(cpd if cpd is not None and len(m.edges) % 2 else prim[1])
    elif prim[0] == "add":
        m.add_edge(prim[1], prim[2])
    elif prim[0] == "rem":
        m.remove_edge(prim[1], prim[2])
    elif prim[0] == "rems":
        m.remove_edges_from([(prim[1], prim[2])])
    elif prim[0] == "new":
        m.add_node(prim[1])
    elif prim[0] == "gone":
        m.remove_node(prim[1])
    elif prim[0] == "do":
        m.intervene({prim[1]: prim[2]})


def canon(m):
    """everything later behaviour can depend on; the relationships are identified by what the reference knows about them"""
    cpds = [
        (c.variable, type(c).__name__, tuple(c.variables), c.values.tolist(), sorted((k, tuple(v)) for k, v in c.state_names.items()))
        for c in m.get_cpds()
    ]
    return (
        list(m.nodes), list(m.edges), [list(m.get_parents(v)) for v in m.nodes], list(m.model.keys()), sorted((k, list(v)) for k, v in m.model.domain.items()), sorted(cpds, key=str),
    )


def run_case(case, rec):
    u = UNIVERSES[case["universe"]]
    spec = dict(kind=u["kind"], nodes=u["nodes"], edges=u["start"], dec=u.get("dec", []), util=u.get("util", []), rel=[])
    prims = {}

    class Obj:
        def __init__(self):
            self.m = empty(spec)
            self.a = Abstract(u)

    def apply(obj, op):
        for p in obj.a.concretise(op):
            execute(obj.m, p)
            obj.a.step(p)

    def enabled(hist):
        return [op for op in base_ops(u) if run_abstract(u, list(hist) + [op])[0] is not None]

    def check(obj, hist):
        a, m = obj.a, obj.m
        if {tuple(e) for e in m.edges} != {tuple(e) for e in a.edges}:
            rec.fail(f"after {hist}: edges {sorted(m.edges)}, expected {sorted(map(tuple, a.edges))}")
            return
        full = len(a.nodes) == len(u["nodes"])
        if sorted(m.nodes) != sorted(a.nodes) or set(m.model) != set(a.rel):
            rec.fail(f"after {hist}: nodes {sorted(m.nodes)} with relationships for {sorted(m.model)}, expected {sorted(a.nodes)} and {sorted(a.rel)}")
            return
        if a.nodes and len(hist) == case["depth"] and u.get("remove"):
            c = m.copy()
            if set(c.nodes) != set(a.nodes) or any(table_diff(c, v, a.ref(v)) for v in a.nodes if a.given(v)):
                rec.fail(f"after {hist}: a copy differs")
                return
        for v in a.nodes:
            if not a.given(v):
                full = False
                continue
            rec.hit("tables compared")
            e = table_diff(m, v, a.ref(v))
            if e:
                rec.fail(f"after {[op for op in hist]}: {e}")
                return
        key = (sorted(map(tuple, a.edges)), sorted((v, str(r)) for v, r in a.rel.items()))
        if full and len(hist) == case["depth"] and str(key) not in prims and len(prims) < 1000:
            prims[str(key)] = 1
            ref = Ref.from_spec(dict(nodes=u["nodes"], edges=a.edges, rel=[[n, a.rel[n]] for n in u["nodes"]]))
            if u["kind"] != "CBN" and any(a.rel[d][0] in ("dec", "ddom") for d in m.decisions):
                rec.hit("undecided")
                return
            if h_mod(key) % 7 == 0:
                v = u["nodes"][-1]
                rec.hit("queries compared")
                for q in u["nodes"]:
                    e = dist_diff(factor_dist(m.query([q], {}), [q]), ref.query([q], {}))
                    if e:
                        rec.fail(f"after {hist}: P({q}): {e}")

    def canon_obj(obj):
        return canon(obj.m), sorted((v, str(r)) for v, r in obj.a.rel.items())

    bfs.explore(Obj, enabled, apply, canon_obj, check, case["depth"], rec, prefix=case["prefix"])


def h_mod(key):
    from mc.harness import h64

    return h64(key)
