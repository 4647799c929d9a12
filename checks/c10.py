"""C10: every node has exactly one role, whatever the history of role changes"""
import mc.boot  # noqa: F401
from mc import bfs
from mc.build import build, cpd_table
from pycid import CID, MACID
from pycid.core.macid_base import MACIDBase

ID = "C10"
META = dict(
    rule="all sequences of role changes (to decision or utility of each agent, to chance node), additions and removals of nodes and "
    "replacing the model by its copy are executed up to the depth, merging equal states; after each sequence all views of the roles "
    "are compared with the last requested role of each node, and the arguments of the constructor with their original value",
    bounds={
        "quick": "7 start models (MACIDBase, MACID, CID), 3-4 nodes, 2-3 agents, 17-30 operations, sequences of up to 4 operations",
        "thorough": "the same, up to 6 operations",
    },
    assumptions=["the order of nodes within an agent's list is not compared"],
)
CHUNK = 1

STARTS = {
    "base": dict(cls="MACIDBase", edges=[["A", "B"], ["B", "C"]], dec={0: ["A"], "x": []}, util={0: ["C"], "x": ["B"]}, agents=[0, "x"]),
    "empty": dict(cls="MACIDBase", edges=[["A", "B"]], dec={}, util={}, agents=[0, 1]),
    "macid": dict(cls="MACID", edges=[["A", "B"], ["A", "C"]], dec={"x": ["A"], "y": ["B"]}, util={"x": ["C"], "y": []}, agents=["x", "y"]),
    "only decisions": dict(cls="MACID", edges=[["A", "B"]], dec={"x": ["A", "B"]}, util={}, agents=["x", "y"]),
    "only utilities": dict(cls="MACIDBase", edges=[["A", "B"]], dec={}, util={1: ["A"], 2: ["B"]}, agents=[1, 2]),
    "cid": dict(cls="CID", edges=[["A", "B"], ["B", "C"]], dec={0: ["A"]}, util={0: ["C", "B"]}, agents=[0]),
    "cid two": dict(cls="CID", edges=[["A", "B"]], dec={0: []}, util={0: ["B"]}, agents=[0, 1]),
}


def cases(tier):
    for name in STARTS:
        for op in ops_for(name):
            yield dict(start=name, first=op, depth=4 if tier == "quick" else 6)


def ops_for(name):
    s = STARTS[name]
    nodes = sorted({x for e in s["edges"] for x in e})
    ops = [["dec", n, a] for n in nodes for a in s["agents"]] + [["util", n, a] for n in nodes for a in s["agents"]]
    ops += [["chance", n] for n in nodes] + [["add", "N"], ["dec", "N", s["agents"][-1]], ["util", "N", s["agents"][0]], ["chance", "N"]]
    ops += [["remove", nodes[0]], ["remove", "N"], ["copy"]]
    if 0 in s["agents"]:
        ops += [["dec0", nodes[0]], ["util0", nodes[-1]]]
    return ops


class Obj:
    def __init__(self, name):
        s = STARTS[name]
        self.dec = {a: list(n) for a, n in s["dec"].items()}
        self.util = {a: list(n) for a, n in s["util"].items()}
        self.args = (self.dec, self.util)
        self.orig = repr(self.args)
        edges = [tuple(e) for e in s["edges"]]
        if s["cls"] == "CID":
            self.m = CID(edges, decisions=self.dec[0], utilities=self.util[0])
        else:
            self.m = {"MACID": MACID, "MACIDBase": MACIDBase}[s["cls"]](edges, agent_decisions=self.dec, agent_utilities=self.util)
        self.m.add_cpds(A={0: 0.5, 3: 0.5})
        self.role = {n: ("chance", None) for e in edges for n in e}
        self.role.update({n: ("dec", a) for a, ns in s["dec"].items() for n in ns})
        self.role.update({n: ("util", a) for a, ns in s["util"].items() for n in ns})
        self.known = set(s["dec"]) | set(s["util"]) | set(s["agents"]) | {0}

    def apply(self, op):
        k, *a = op
        m = self.m
        if k in ("dec", "util", "chance", "dec0", "util0") and a[0] not in self.role:
            for f in [lambda: {"d": m.make_decision, "u": m.make_utility, "c": m.make_chance}[k[0]](a[0])]:
                try:
                    f()
                except KeyError:
                    continue
                raise AssertionError(f"{op}: a node that does not exist was accepted")
            return
        if k == "dec":
            m.make_decision(a[0], a[1])
            self.role[a[0]] = ("dec", a[1])
        elif k == "dec0":
            m.make_decision(a[0])
            self.role[a[0]] = ("dec", 0)
        elif k == "util":
            m.make_utility(a[0], agent=a[1])
            self.role[a[0]] = ("util", a[1])
        elif k == "util0":
            m.make_utility(a[0])
            self.role[a[0]] = ("util", 0)
        elif k == "chance":
            m.make_chance(a[0])
            self.role[a[0]] = ("chance", None)
        elif k == "add":
            m.add_node(a[0])
            self.role.setdefault(a[0], ("chance", None))
        elif k == "remove":
            if a[0] in self.role:
                m.remove_node(a[0])
                del self.role[a[0]]
        elif k == "copy":
            old, before = self.m, view(self.m)
            self.m = m.copy()
            assert view(old) == before, f"copying changed the roles: {before} -> {view(old)}"
            if type(self.m) is not type(old):
                raise AssertionError(f"the copy of a {type(old).__name__} is a {type(self.m).__name__}")


def view(m):
    return repr(({a: list(n) for a, n in m.agent_decisions.items()}, {a: list(n) for a, n in m.agent_utilities.items()},
                 list(m.decision_agent.items()), list(m.utility_agent.items()), list(m.nodes), list(m.agents)))


def check_roles(o, hist, rec):
    m = o.m
    bad = lambda what: rec.fail(f"after {list(hist)}: {what}\nroles requested: {o.role}\n{view(m)}")  # noqa: E731
    dec = {n: a for n, (r, a) in o.role.items() if r == "dec"}
    util = {n: a for n, (r, a) in o.role.items() if r == "util"}
    if dict(m.decision_agent) != dec:
        return bad("decision_agent")
    if dict(m.utility_agent) != util:
        return bad("utility_agent")
    if sorted(m.decisions) != sorted(dec) or sorted(m.utilities) != sorted(util):
        return bad("decisions or utilities")
    if sorted(m.nodes) != sorted(o.role):
        return bad("nodes")
    agents = set(m.agents)
    if len(list(m.agents)) != len(agents) or not {*dec.values(), *util.values()} <= agents or not agents <= o.known:
        return bad("agents")
    for views, want in ((m.agent_decisions, dec), (m.agent_utilities, util)):
        for a in agents:
            if a not in views:
                return bad(f"agent {a} has no entry")
        flat = [(n, a) for a, ns in views.items() for n in ns]
        if len(flat) != len(set(flat)) or dict(flat) != want or len(flat) != len(want):
            return bad("agent_decisions or agent_utilities")
    if repr(o.args) != o.orig:
        return bad(f"the arguments of the constructor were modified: {o.orig} -> {o.args!r}")
    if "A" in o.role and cpd_table(m, "A") is not None and cpd_table(m, "A")[0] != [0, 3]:
        return bad("the distribution of A changed")
    rec.hit("roles compared")


def run_case(case, rec):
    name = case["start"]
    bfs.explore(
        lambda: Obj(name),
        lambda hist: ops_for(name),
        lambda o, op: o.apply(op),
        lambda o: (name, view(o.m), sorted(o.role.items()), list(o.m.model)),
        lambda o, hist: check_roles(o, hist, rec),
        case["depth"], rec, prefix=[case["first"]],
    )
    assert build
