From fbf93d51a2bdfb38eb140e3d4b1bb2d20bfab675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 01/47] fix: query no longer deletes disconnected nodes from
 the queried model

---
 pycid/core/causal_bayesian_network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index fc623b5..34123ab 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -165,9 +165,11 @@ class CausalBayesianNetwork(BayesianNetwork):
             *[nx.node_connected_component(undirected, var) for var in query]
         )
         context = {k: v for k, v in context.items() if k in connected_nodes}
-        for node in list(cbn.nodes):
-            if node not in connected_nodes:
-                cbn.remove_node(node)
+        disconnected_nodes = [node for node in cbn.nodes if node not in connected_nodes]
+        if disconnected_nodes and cbn is self:
+            cbn = self.copy()  # never modify the model being queried
+        for node in disconnected_nodes:
+            cbn.remove_node(node)
         if not nx.is_connected(cbn.to_undirected()):
             raise ValueError(f"query {query} contains nodes in disconnected components")
 
-- 
2.43.0


From a3ed6f62fdb61ccd22b3b12840b658e154d03a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 02/47] fix: expected_value evaluates variables one by one, in
 the requested order

The values were returned in the order of the joint factor rather than the requested one,
no variables at all raised an error, and variables in different connected components
could not be evaluated together.
---
 pycid/core/causal_bayesian_network.py | 29 +++++++++++++--------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 34123ab..80cbc19 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -213,24 +213,23 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
-        factor = self.query(variables, context, intervention=intervention)
+        return [self._expected_value(variable, context, intervention) for variable in variables]
+
+    def _expected_value(
+        self, variable: str, context: Dict[str, Outcome], intervention: Optional[Dict[str, Outcome]] = None
+    ) -> float:
+        """Compute the expected value of a single real-valued variable"""
+        factor = self.query([variable], context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
-        ev = np.array([0.0 for _ in factor.variables])
-        for idx, prob in np.ndenumerate(factor.values):  # type: ignore
-            # idx contains the information about the value each variable takes
-            # we use state_names to convert index into the actual value of the variable
-            ev += prob * np.array(  # type: ignore
-                [factor.state_names[variable][idx[var_idx]] for var_idx, variable in enumerate(factor.variables)]
+        # we use state_names to convert index into the actual value of the variable
+        ev = sum(prob * factor.state_names[variable][idx] for idx, prob in enumerate(factor.values))
+        if np.isnan(ev):
+            raise RuntimeError(
+                f"query {variable} | {context} generated Nan from probs: {factor.values}, "
+                "consider imputing a random decision"
             )
-            if np.isnan(ev).any():
-                raise RuntimeError(
-                    "query {} | {} generated Nan from idx: {}, prob: {}, \
-                                consider imputing a random decision".format(
-                        variables, context, idx, prob
-                    )
-                )
-        return ev.tolist()  # type: ignore
+        return float(ev)
 
     def sample(self, seed: Optional[int] = None) -> Dict[str, Outcome]:
         """
-- 
2.43.0


From 2482e71bd727e2d580e8bb1852b51c88a57df418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 03/47] fix: intervening on a variable keeps the order of its
 domain

The domain was sorted by the intervention, which silently permuted the probabilities of children
whose tables were given for the original order.
---
 pycid/core/causal_bayesian_network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 80cbc19..b8f9652 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -189,12 +189,14 @@ class CausalBayesianNetwork(BayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
         for variable in intervention:
+            domain = list(self.model.domain[variable])
             del self.model[variable]
             for p in self.get_parents(variable):  # remove ingoing edges
                 self.remove_edge(p, variable)
-            new_dist = {outcome: 0 for outcome in self.model.domain[variable]}
+            new_dist = {outcome: 0 for outcome in domain}
             new_dist[intervention[variable]] = 1
-            self.model[variable] = new_dist
+            # keep the order of the domain, as the tables of the children may depend on it
+            self.model[variable] = ConstantCPD(variable, new_dist, self, domain=list(new_dist))
 
     def expected_value(
         self,
-- 
2.43.0


From 1baf59b0878e7a6348b6dc5ea0a1b716c2650d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 04/47] fix: removing a CPD also forgets its domain

A relationship added while a parent's CPD was removed crashed on the stale domain of the parent,
and children were not updated when the parent was added again.
---
 pycid/core/causal_bayesian_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index b8f9652..61918d6 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -37,6 +37,7 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         def __setitem__(self, variable: str, relationship: Relationship) -> None:
             # Update the keys
+            old_domain = self.domain.get(variable, None)
             if variable in self.keys():
                 self.__delitem__(variable)
             super().__setitem__(variable, relationship)
@@ -49,7 +50,6 @@ class CausalBayesianNetwork(BayesianNetwork):
 
             # add cpd to BayesianNetwork, and update domain dictionary
             BayesianNetwork.add_cpds(self.cbn, cpd)
-            old_domain = self.domain.get(variable, None)
             self.domain[variable] = cpd.state_names[variable]
 
             # if the domain has changed, update all descendants, and sync the state_names
@@ -62,6 +62,7 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         def __delitem__(self, variable: str) -> None:
             super().__delitem__(variable)
+            self.domain.pop(variable, None)
             try:
                 BayesianNetwork.remove_cpds(self.cbn, variable)
             except ValueError:
-- 
2.43.0


From 06661c33ebce7dd19701050b556232e955b5831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 05/47] fix: relationships that do not depend on parents follow
 changes of the parents

A distribution or decision domain was only re-initialized after adding or removing an edge if it was
already initialized, and not at all if it was given as a ConstantCPD or DecisionDomain.
---
 pycid/core/causal_bayesian_network.py | 14 ++++++++++----
 pycid/core/cpd.py                     | 12 ++++++++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 61918d6..16655ee 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import collections
-from typing import Any, Callable, Dict, Iterable, List, Mapping, Optional, Set, Tuple, Union
+from typing import Any, Callable, Dict, Iterable, List, Mapping, Optional, Sequence, Set, Tuple, Union
 
 import matplotlib.pyplot as plt
 import networkx as nx
@@ -68,13 +68,19 @@ class CausalBayesianNetwork(BayesianNetwork):
             except ValueError:
                 pass
 
+        def is_constant(self, variable: str) -> bool:
+            """Whether the relationship of variable is independent of its parents, whichever they are"""
+            return isinstance(self[variable], (ConstantCPD, Mapping, Sequence))
+
         def sync_state_names(self) -> None:
             """Inform each CPD about the domains of other variables"""
             for cpd in self.cbn.get_cpds():
                 cpd.store_state_names(None, None, dict(self.domain))
 
         def to_tabular_cpd(self, variable: str, relationship: Relationship) -> TabularCPD:
-            if isinstance(relationship, TabularCPD):
+            if isinstance(relationship, ConstantCPD):
+                return relationship.for_cbn(self.cbn)  # the parents may differ from when it was created
+            elif isinstance(relationship, TabularCPD):
                 return relationship
             elif isinstance(relationship, Callable):  # type: ignore
                 return StochasticFunctionCPD(variable, relationship, self.cbn)  # type: ignore
@@ -98,13 +104,13 @@ class CausalBayesianNetwork(BayesianNetwork):
     def remove_edge(self, u: str, v: str) -> None:
         """removes an edge u to v that exists from the CBN"""
         super().remove_edge(u, v)
-        if v in self.model and isinstance(self.get_cpds(v), ConstantCPD):
+        if v in self.model and self.model.is_constant(v):
             self.model[v] = self.model[v]
 
     def add_edge(self, u: str, v: str, **kwargs: Any) -> None:
         """adds an edge from u to v to the CBN"""
         super().add_edge(u, v, **kwargs)
-        if v in self.model and isinstance(self.get_cpds(v), ConstantCPD):
+        if v in self.model and self.model.is_constant(v):
             self.model[v] = self.model[v]
 
     def add_cpds(self, *cpds: TabularCPD, **relationships: Relationship) -> None:
diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 7c04a98..d7645cc 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -227,8 +227,16 @@ class ConstantCPD(StochasticFunctionCPD):
         domain: Optional[Sequence[Outcome]] = None,
         label: Optional[str] = None,
     ):
+        self.dictionary = dictionary
         super().__init__(variable, lambda **pv: dictionary, cbn, domain=domain, label=label or str(dictionary))
 
+    def for_cbn(self, cbn: CausalBayesianNetwork) -> ConstantCPD:
+        """The same distribution, given the current parents of the variable in cbn"""
+        return ConstantCPD(self.variable, self.dictionary, cbn, domain=list(self.domain), label=self.label)
+
+    def copy(self) -> ConstantCPD:
+        return self.for_cbn(self.cbn)
+
 
 class DecisionDomain(ConstantCPD):
     """DecisionDomain is used to specify the domain for a decision
@@ -249,8 +257,8 @@ class DecisionDomain(ConstantCPD):
         """
         super().__init__(variable, {}, cbn, domain, label=f"Dec({domain})")
 
-    def copy(self) -> DecisionDomain:
-        return DecisionDomain(str(self.variable), self.cbn, domain=list(self.domain))
+    def for_cbn(self, cbn: CausalBayesianNetwork) -> DecisionDomain:
+        return DecisionDomain(self.variable, cbn, domain=list(self.domain))
 
     def __repr__(self) -> str:
         return f"<DecisionDomain {self.variable}:{self.domain}>"
-- 
2.43.0


From 8a09d93b54f0081266f8341d97380da17c814118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 06/47] fix: mechanism graphs check the suffix of node names,
 not the prefix

---
 pycid/core/macid_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 94c97b1..57576ea 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -472,8 +472,8 @@ class MechanismGraph(MACIDBase):
         )
 
         for node in cid.nodes:
-            if node[:-3] == "mec":
-                raise ValueError("can't create a mechanism graph when node {node} already ends with mec")
+            if node[-3:] == "mec":
+                raise ValueError(f"can't create a mechanism graph when node {node} already ends with mec")
             self.add_node(node + "mec")
             self.add_edge(node + "mec", node)
         # TODO: adapt the parameterization from cid as well
-- 
2.43.0


From e0e19f963c23a4f7d34743f7be7a0ba02a2c8ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 07/47] fix: MACIDBase.query accepts contexts on variables
 given by a TabularCPD

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 57576ea..f7cea5e 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -158,7 +158,7 @@ class MACIDBase(CausalBayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
         for variable, outcome in context.items():
-            if outcome not in self.get_cpds(variable).domain:
+            if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
 
         intervention = intervention or {}
-- 
2.43.0


From bf6e4519256cfd6952776e2d975b0fa02a1d3ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 08/47] fix: changing the type of a node does not modify lists
 passed by the caller

---
 pycid/core/macid_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index f7cea5e..b583b91 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -86,8 +86,9 @@ class MACIDBase(CausalBayesianNetwork):
         """
         super().__init__(edges=edges, **kwargs)
 
-        self.agent_decisions = dict(agent_decisions) if agent_decisions else {}
-        self.agent_utilities = dict(agent_utilities) if agent_utilities else {}
+        # copy the lists, as they are modified when nodes change type
+        self.agent_decisions = {agent: list(nodes) for agent, nodes in (agent_decisions or {}).items()}
+        self.agent_utilities = {agent: list(nodes) for agent, nodes in (agent_utilities or {}).items()}
 
         self.decision_agent = {node: agent for agent, nodes in self.agent_decisions.items() for node in nodes}
         self.utility_agent = {node: agent for agent, nodes in self.agent_utilities.items() for node in nodes}
-- 
2.43.0


From ac92280367d75f61acfa3df8a0756bae130ec7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 09/47] fix: quantitative_voc does not modify the analyzed CID

---
 pycid/analyze/value_of_control.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index 1658630..7b81a9c 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -60,6 +60,7 @@ def quantitative_voc(cid: CID, node: str) -> float:
     if node not in cid.nodes:
         raise KeyError(f"{node} is not present in the cid")
 
+    cid = cid.copy()  # do not modify the CID being analyzed
     # optimal policy in the original CID.
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
-- 
2.43.0


From bda688b87fa4fa045fa1f75ca644166beae59ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 10/47] fix: agents with only decisions or only utilities are
 supported

Copies lost the decisions of agents without utilities, and agents without decisions
or utilities made copy, sufficient_recall and is_r_reachable raise a KeyError.
---
 pycid/core/macid_base.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index b583b91..db3d173 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -89,6 +89,8 @@ class MACIDBase(CausalBayesianNetwork):
         # copy the lists, as they are modified when nodes change type
         self.agent_decisions = {agent: list(nodes) for agent, nodes in (agent_decisions or {}).items()}
         self.agent_utilities = {agent: list(nodes) for agent, nodes in (agent_utilities or {}).items()}
+        for agent in [*self.agent_decisions, *self.agent_utilities]:
+            self._add_agent(agent)
 
         self.decision_agent = {node: agent for agent, nodes in self.agent_decisions.items() for node in nodes}
         self.utility_agent = {node: agent for agent, nodes in self.agent_utilities.items() for node in nodes}
@@ -108,24 +110,25 @@ class MACIDBase(CausalBayesianNetwork):
         """The set of all agents"""
         return self.agent_utilities.keys()
 
+    def _add_agent(self, agent: AgentLabel) -> None:
+        """Make sure an agent is known, also if it only has decisions or only has utilities"""
+        self.agent_decisions.setdefault(agent, [])
+        self.agent_utilities.setdefault(agent, [])
+
     def make_decision(self, node: str, agent: AgentLabel = 0) -> None:
         """ "Turn a chance or utility node into a decision node.
         - agent specifies which agent the decision node should belong to in a MACID.
         """
         self.make_chance(node)
-        if agent not in self.agent_decisions:
-            self.agent_decisions[agent] = [node]
-        else:
-            self.agent_decisions[agent].append(node)
+        self._add_agent(agent)
+        self.agent_decisions[agent].append(node)
         self.decision_agent[node] = agent
 
     def make_utility(self, node: str, agent: AgentLabel = 0) -> None:
         """ "Turn a chance or utility node into a decision node."""
         self.make_chance(node)
-        if agent not in self.agent_utilities:
-            self.agent_utilities[agent] = [node]
-        else:
-            self.agent_utilities[agent].append(node)
+        self._add_agent(agent)
+        self.agent_utilities[agent].append(node)
         self.utility_agent[node] = agent
 
     def make_chance(self, node: str) -> None:
-- 
2.43.0


From 8b9d757d8fd5ccdcfc32487a2f318a40e2ffee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 11/47] fix: chance nodes of exported games depend on all
 preceding nodes of the tree

The distribution of a chance node was computed from its parents only: a parent outside of the tree
raised a KeyError, and dependencies via nodes outside of the tree were lost.
---
 pycid/export/gambit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index ed81d65..d8e6f12 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -67,11 +67,11 @@ def macid_to_efg(
         for node_idx in itertools.product(*range_num_children[:i]):
             # get current node
             cur_node = _get_cur_node(game, node_idx)
-            parents = macid.get_parents(node)
-            parents_actions = {parent: node_idx_to_state[node_idx][parent] for parent in parents}
 
             # if the node is a decision, consider infosets
             if node in decisions_in_sg:
+                parents = macid.get_parents(node)
+                parents_actions = {parent: node_idx_to_state[node_idx][parent] for parent in parents}
                 # get agent and domain
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
@@ -95,8 +95,8 @@ def macid_to_efg(
                     state_info.update({node: action})
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
             else:
-                # otherwise is a chance node
-                factor = macid.query([node], context=parents_actions)
+                # otherwise is a chance node, which may depend on any of the preceding nodes via nodes not in the tree
+                factor = macid.query([node], context=node_idx_to_state[node_idx])
                 move = cur_node.append_move(game.players.chance, factor.cardinality)
                 # add state info
                 actions = macid.model.domain[node]
-- 
2.43.0


From f068c7ac05c033884889a87794c1eef0c7b93557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 12/47] fix: decisions of the same agent with the same
 observations get separate information sets

The information sets of exported games were shared by all decisions of an agent with the same parents.
---
 pycid/export/gambit.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index d8e6f12..ca393ec 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -18,7 +18,7 @@ def macid_to_efg(
     macid: MACIDBase,
     decisions_in_sg: Optional[Union[KeysView[str], Set[str]]] = None,
     agents_in_sg: Optional[Iterable[Hashable]] = None,
-) -> Tuple[pygambit.Game, Mapping[Tuple[Hashable, Tuple[Tuple[Any, Any], ...]], pygambit.Infoset]]:
+) -> Tuple[pygambit.Game, Mapping[Tuple[str, Tuple[Tuple[Any, Any], ...]], pygambit.Infoset]]:
     """
     Creates a pygambit EFG from a MACID:
     1) Finds the MACID nodes needed for the EFG (decision nodes and informational parents S = {D u Pa_D})
@@ -32,7 +32,7 @@ def macid_to_efg(
     - agents_in_sg: The agents to include in the EFG. If None, all agents are included.
     Returns:
     - game: The pygambit game object. This can be used for further manipulation of the game within pygambit.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     """
 
     # can use on a subgame if copying, else do the whole game
@@ -53,7 +53,7 @@ def macid_to_efg(
     agent_to_player = _add_players(game, agents_in_sg)
 
     # key is instantiation of parents, value is pygambit infoset
-    parents_to_infoset: Dict[Tuple[Hashable, Tuple[Tuple[Any, Any], ...]], pygambit.Infoset] = defaultdict(dict)
+    parents_to_infoset: Dict[Tuple[str, Tuple[Tuple[Any, Any], ...]], pygambit.Infoset] = defaultdict(dict)
     # nodes referenced in the game tree. Root has node_idx (0,), rest are (0, n, m, ...)
     # state is a dict of node_idx:state of partial instantiations of nodes
     node_idx_to_state: Dict[Tuple[int, ...], Dict[str, Any]] = defaultdict(dict)
@@ -76,7 +76,7 @@ def macid_to_efg(
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
                 actions = macid.model.domain[node]
-                parents_actions_tuple = (agent, tuple(parents_actions.items()))  # hashable
+                parents_actions_tuple = (node, tuple(parents_actions.items()))  # hashable
                 # check if this matches an existing infoset
                 if parents_actions_tuple in parents_to_infoset:
                     cur_infoset = parents_to_infoset[parents_actions_tuple]
@@ -175,14 +175,14 @@ def pygambit_ne_solver(
 
 def behavior_to_cpd(
     macid: MACIDBase,
-    parents_to_infoset: Mapping[Tuple[Hashable, Tuple[Tuple[str, Any], ...]], pygambit.Infoset],
+    parents_to_infoset: Mapping[Tuple[str, Tuple[Tuple[str, Any], ...]], pygambit.Infoset],
     behavior: pygambit.lib.libgambit.MixedStrategyProfile,
     decisions_in_sg: Optional[Union[KeysView[str], Set[str]]] = None,
 ) -> List[StochasticFunctionCPD]:
     """Convert a pygambit behavior strategy to list of CPDs for each decision node.
     Args:
     - macid: The MACID object relating to the behavior strategy.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     - behavior: The pygambit behavior strategy.
     - decisions_in_sg: The decisions in the subgame. If None, use all decisions in the MACID.
     Returns:
@@ -191,7 +191,7 @@ def behavior_to_cpd(
 
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (macid.decision_agent[node], tuple(pv.items()))
+        pv_tuple = (node, tuple(pv.items()))
         # get the infoset for the node
         infoset = parents_to_infoset[pv_tuple]
         # if the infoset does not exist, this is not a valid parent instantiation
-- 
2.43.0


From ac40a7532b1726979e5aac3c308b7e5a6c2adfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 13/47] fix: games with contexts of probability zero can be
 exported and solved

Their probabilities and payoffs are undefined, and gambit assigns no probabilities to decisions there.
---
 pycid/export/gambit.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index ca393ec..c2d3abe 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -6,6 +6,7 @@ from functools import partial, update_wrapper
 from typing import Any, Callable, Dict, Hashable, Iterable, KeysView, List, Mapping, Optional, Set, Tuple, Union
 from warnings import warn
 
+import numpy as np
 import pygambit
 
 from pycid.core.cpd import StochasticFunctionCPD
@@ -97,6 +98,8 @@ def macid_to_efg(
             else:
                 # otherwise is a chance node, which may depend on any of the preceding nodes via nodes not in the tree
                 factor = macid.query([node], context=node_idx_to_state[node_idx])
+                if np.isnan(factor.values).any():  # can't be reached, so any distribution will do
+                    factor.values = np.ones_like(factor.values) / len(factor.values)
                 move = cur_node.append_move(game.players.chance, factor.cardinality)
                 # add state info
                 actions = macid.model.domain[node]
@@ -200,6 +203,9 @@ def behavior_to_cpd(
             return {}
         # get the action probs for the infoset
         action_probs = {macid.model.domain[node][i]: float(prob) for i, prob in enumerate(behavior[infoset])}
+        # gambit assigns no probabilities in a decision context that can't occur, so any decision will do
+        if not any(action_probs.values()):
+            return {}
         return action_probs
 
     def _wrapped_partial(func: Callable, *args: str) -> Callable:
@@ -248,7 +254,10 @@ def _add_payoffs(
         # name outcome as a string of the node_idx
         payoff_tuple = game.outcomes.add(str(node_idx))
         for i, agent in enumerate(agents_in_sg):
-            payoff = macid.expected_utility(context=context, agent=agent)
+            try:
+                payoff = macid.expected_utility(context=context, agent=agent)
+            except RuntimeError:  # can't be reached, so any payoff will do
+                payoff = 0
             payoff_tuple[i] = pygambit.Decimal(payoff)
         cur_node.outcome = payoff_tuple
 
-- 
2.43.0


From 7aec8319af983ef2bcd29529849c1bcf7e10c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 14/47] fix: exported games do not depend on decision rules
 already imputed to the exported decisions

---
 pycid/export/gambit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index c2d3abe..31bb32d 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -42,6 +42,11 @@ def macid_to_efg(
     if agents_in_sg is None:
         agents_in_sg = macid.agents
 
+    # decision rules already imputed to the exported decisions must not make any of their outcomes impossible
+    macid = macid.copy()
+    for decision in decisions_in_sg:
+        macid.impute_random_decision(decision)
+
     # choose only relevant nodes
     game_tree_nodes = set(
         list(decisions_in_sg) + [parent for dec in decisions_in_sg for parent in macid.get_parents(dec)]
-- 
2.43.0


From ff3fa7e421eeae1ab6ff5cdff571b885e46bf985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 15/47] fix: subgames keep the domains of variables whose
 parents are marginalized out

The outcomes were sorted, which permuted the tables of other variables and the resulting equilibria,
and variables given by a TabularCPD raised an AttributeError.
---
 pycid/core/macid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index a20a4d9..a9b9e58 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, Iterable, List, Optional, Tuple
 import networkx as nx
 from pgmpy.factors.discrete import TabularCPD
 
-from pycid.core.cpd import DecisionDomain, StochasticFunctionCPD
+from pycid.core.cpd import ConstantCPD, DecisionDomain, StochasticFunctionCPD
 from pycid.core.macid_base import AgentLabel, MACIDBase
 from pycid.core.relevance_graph import CondensedRelevanceGraph
 from pycid.export.gambit import behavior_to_cpd, macid_to_efg, pygambit_ne_solver
@@ -107,7 +107,9 @@ class MACID(MACIDBase):
             cpd.marginalize(macid_copy.get_parents(node))
             marginalised_probs = cpd.get_values()
             unpack_probs = [item for sublist in marginalised_probs for item in sublist]
-            sg_macid.model[node] = dict(zip(cpd.domain, unpack_probs))
+            domain = macid_copy.model.domain[node]
+            # keep the order of the domain, as the tables of other nodes may depend on it
+            sg_macid.model[node] = ConstantCPD(node, dict(zip(domain, unpack_probs)), sg_macid, domain=list(domain))
 
         # copy over the cpds for everything else
         for node in set(sg_macid.nodes) - parents_for_marginalisation_of_original_cpd:
-- 
2.43.0


From d4441e73de71acfb8b362b652173b8cc8e1af2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 16/47] fix: removing a node also removes its role of decision
 or utility

Querying an influence diagram with disconnected components raised a KeyError, as the copy of the
model without the disconnected nodes still listed their decisions and utilities.
---
 pycid/core/macid_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index db3d173..0bfdfa8 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -142,6 +142,11 @@ class MACIDBase(CausalBayesianNetwork):
             agent = self.utility_agent.pop(node)
             self.agent_utilities[agent].remove(node)
 
+    def remove_node(self, node: str) -> None:
+        """Remove a node, which is then no longer a decision or utility of an agent either"""
+        self.make_chance(node)
+        super().remove_node(node)
+
     def add_cpds(self, *cpds: TabularCPD, **relationships: Union[Relationship, List[Outcome]]) -> None:
         super().add_cpds(*cpds, **relationships)
 
-- 
2.43.0


From 7acf64205e43290f6c3ae72a9c7bf5b7e59f0aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 17/47] fix: distributions that sum to one up to rounding are
 accepted for larger domains

The probability left for unspecified outcomes could be slightly negative.
---
 pycid/core/cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index d7645cc..f210180 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -96,7 +96,7 @@ class StochasticFunctionCPD(TabularCPD):
             """Complete a probability dictionary with probabilities for missing outcomes"""
             prob_dictionary = {key: value for key, value in prob_dictionary.items() if value is not None}
             missing_outcomes = set(self.domain) - set(prob_dictionary.keys())
-            missing_prob_mass = 1 - sum(prob_dictionary.values())  # type: ignore
+            missing_prob_mass = max(0, 1 - sum(prob_dictionary.values()))  # type: ignore
             for outcome in missing_outcomes:
                 prob_dictionary[outcome] = missing_prob_mass / len(missing_outcomes)
             return prob_dictionary
-- 
2.43.0


From 7be7d6136782bf54cfe8c7a57bfbc8a52b38938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 18/47] fix: copies of constant CPDs and decision domains keep
 the outcomes of the parents

---
 pycid/core/cpd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index f210180..72f1ff7 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -235,7 +235,9 @@ class ConstantCPD(StochasticFunctionCPD):
         return ConstantCPD(self.variable, self.dictionary, cbn, domain=list(self.domain), label=self.label)
 
     def copy(self) -> ConstantCPD:
-        return self.for_cbn(self.cbn)
+        new = self.for_cbn(self.cbn)
+        new.store_state_names(None, None, dict(self.state_names))  # also remember the outcomes of the parents
+        return new
 
 
 class DecisionDomain(ConstantCPD):
-- 
2.43.0


From 0c634ba11598b542f838aa21c9e921d914ddb059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 19/47] fix: copies of models don't share or reevaluate the CPD
 objects of the original

---
 pycid/core/causal_bayesian_network.py |  5 ++++-
 pycid/core/cpd.py                     | 20 ++++++++------------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 16655ee..775a074 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -258,7 +258,10 @@ class CausalBayesianNetwork(BayesianNetwork):
         """copy the MACIDBase object"""
         model_copy = self.copy_without_cpds()
         for v in self.model:
-            model_copy.model[v] = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            relationship = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            if isinstance(relationship, StochasticFunctionCPD):
+                relationship.cbn = model_copy
+            model_copy.model[v] = relationship
         return model_copy
 
     def _get_color(self, node: str) -> Union[np.ndarray, str]:
diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 72f1ff7..f5611c2 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import inspect
 import itertools
 from inspect import getsourcelines
@@ -185,13 +186,13 @@ class StochasticFunctionCPD(TabularCPD):
         )
 
     def copy(self) -> StochasticFunctionCPD:
-        return StochasticFunctionCPD(
-            str(self.variable),
-            self.func,
-            self.cbn,
-            domain=list(self.force_domain) if self.force_domain else None,
-            state_names=self.state_names,
-        )
+        """The same table, which doesn't depend on what happened to cbn since it was computed"""
+        new = copy.copy(self)
+        new.variables = list(self.variables)
+        new.cardinality = self.cardinality.copy()
+        new.values = self.values.copy()
+        new.store_state_names(None, None, dict(self.state_names))
+        return new
 
     def __repr__(self) -> str:
         dictionary: Dict[str, Union[Dict, Outcome]] = {}
@@ -234,11 +235,6 @@ class ConstantCPD(StochasticFunctionCPD):
         """The same distribution, given the current parents of the variable in cbn"""
         return ConstantCPD(self.variable, self.dictionary, cbn, domain=list(self.domain), label=self.label)
 
-    def copy(self) -> ConstantCPD:
-        new = self.for_cbn(self.cbn)
-        new.store_state_names(None, None, dict(self.state_names))  # also remember the outcomes of the parents
-        return new
-
 
 class DecisionDomain(ConstantCPD):
     """DecisionDomain is used to specify the domain for a decision
-- 
2.43.0


From 972b018ee5ed4f48978713db4bab30213cec4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 20/47] fix: diagrams with observations that cannot occur
 together can be solved

---
 pycid/core/macid_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 0bfdfa8..e1d2782 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -403,7 +403,10 @@ class MACIDBase(CausalBayesianNetwork):
             eu = {}
             for d in domain:
                 parent_values[decision] = d
-                eu[d] = sum(copy.expected_value(descendant_utility_nodes, parent_values))
+                try:
+                    eu[d] = sum(copy.expected_value(descendant_utility_nodes, parent_values))
+                except RuntimeError:  # no expectation in contexts of probability zero, where any outcome is optimal
+                    eu[d] = 0
             return max(eu, key=eu.get)  # type: ignore
 
         self.add_cpds(StochasticFunctionCPD(decision, opt_policy, self, domain=domain, label="opt"))
-- 
2.43.0


From 3b502dac29c6d3b2bb559803a12a75181ee83d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 21/47] fix: CPD objects given as relationships follow changes
 of the parents' domains

---
 pycid/core/causal_bayesian_network.py | 2 ++
 pycid/core/cpd.py                     | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 775a074..dc71088 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -80,6 +80,8 @@ class CausalBayesianNetwork(BayesianNetwork):
         def to_tabular_cpd(self, variable: str, relationship: Relationship) -> TabularCPD:
             if isinstance(relationship, ConstantCPD):
                 return relationship.for_cbn(self.cbn)  # the parents may differ from when it was created
+            elif isinstance(relationship, StochasticFunctionCPD) and not relationship.is_up_to_date(self.cbn):
+                return relationship.for_cbn(self.cbn)
             elif isinstance(relationship, TabularCPD):
                 return relationship
             elif isinstance(relationship, Callable):  # type: ignore
diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index f5611c2..ed22701 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -104,6 +104,7 @@ class StochasticFunctionCPD(TabularCPD):
 
         card = len(self.domain)
         evidence = cbn.get_parents(self.variable)
+        self.parent_domains = {p: list(cbn.model.domain[p]) for p in evidence}
         evidence_card = [cbn.get_cardinality(p) for p in evidence]
         probability_list = []
         for pv in self.parent_values():
@@ -185,6 +186,14 @@ class StochasticFunctionCPD(TabularCPD):
             set().union(*[self.stochastic_function(**x).keys() for x in self.parent_values()])  # type: ignore
         )
 
+    def is_up_to_date(self, cbn: CausalBayesianNetwork) -> bool:
+        """Whether the table was computed for the domains that the parents have in cbn, as far as these are known"""
+        return all(cbn.model.domain.get(p, domain) == domain for p, domain in self.parent_domains.items())
+
+    def for_cbn(self, cbn: CausalBayesianNetwork) -> StochasticFunctionCPD:
+        """The same relationship, given the current domains of the parents in cbn"""
+        return StochasticFunctionCPD(self.variable, self.func, cbn, domain=self.force_domain, label=self.label)
+
     def copy(self) -> StochasticFunctionCPD:
         """The same table, which doesn't depend on what happened to cbn since it was computed"""
         new = copy.copy(self)
-- 
2.43.0


From c95785b04b72d398b77cb34681b2666d9028faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 22/47] fix: motifs at the start of paths and trails from a
 node to itself

---
 pycid/core/get_paths.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pycid/core/get_paths.py b/pycid/core/get_paths.py
index 0ceda45..a1ab6d3 100644
--- a/pycid/core/get_paths.py
+++ b/pycid/core/get_paths.py
@@ -92,6 +92,9 @@ def get_motif(cbn: CausalBayesianNetwork, path: Sequence[str], idx: int) -> str:
     if len(path) == idx + 1:
         return "endpoint"
 
+    elif idx == 0:  # there is no previous node
+        return "forward" if cbn.has_edge(path[0], path[1]) else "backward"
+
     elif cbn.has_edge(path[idx - 1], path[idx]) and cbn.has_edge(path[idx], path[idx + 1]):
         return "forward"
 
@@ -115,16 +118,7 @@ def get_motifs(cbn: CausalBayesianNetwork, path: Sequence[str]) -> List[str]:
         if node not in cbn.nodes():
             raise KeyError(f"The node {node} is not in the (MA)CID")
 
-    shapes = []
-    for i in range(len(path)):
-        if i == 0:
-            if path[i] in cbn.get_parents(path[i + 1]):
-                shapes.append("forward")
-            else:
-                shapes.append("backward")
-        else:
-            shapes.append(get_motif(cbn, path, i))
-    return shapes
+    return [get_motif(cbn, path, i) for i in range(len(path))]
 
 
 def find_all_dir_paths(cbn: CausalBayesianNetwork, start_node: str, end_node: str) -> Iterator[List[str]]:
@@ -229,7 +223,7 @@ def is_active_indirect_frontdoor_trail(
             raise KeyError(f"The node {node} is not in the (MA)CID")
 
     for path in find_all_undir_paths(cbn, start_node, end_node):
-        is_frontdoor_path = path[0] in cbn.get_parents(path[1])
+        is_frontdoor_path = len(path) > 1 and path[0] in cbn.get_parents(path[1])
         not_blocked_by_observed = is_active_path(cbn, path, observed)
         contains_collider = "collider" in get_motifs(cbn, path)
         # default is False since if w = [], any unobserved collider blocks path
-- 
2.43.0


From b6f6dd9df48818bd0210873f26d44f684092e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 23/47] fix: quantitative_voc of a utility node keeps the
 utility

---
 pycid/analyze/value_of_control.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index 7b81a9c..38af682 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -64,6 +64,13 @@ def quantitative_voc(cid: CID, node: str) -> float:
     # optimal policy in the original CID.
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
+    if node in cid.utilities:  # keep its contribution to the expected utility when it becomes a decision
+        utility = node + "_utility"
+        while utility in cid.nodes:
+            utility += "_"
+        cid.add_edge(node, utility)
+        cid.make_utility(utility)
+        cid.add_cpds(**{utility: lambda **parent_values: parent_values[node]})
     cid.make_decision(node)
     # optimal policy in the modified CID where the agent can now decide the CPD for node.
     cid.impute_optimal_policy()
-- 
2.43.0


From a33d6a9b3ae06c5bc1a21cb0d1ad1aaa42d61911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 24/47] fix: fork nodes of effective paths need not be
 effective

---
 pycid/analyze/reasoning_patterns.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index d28cdfe..a7ed221 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -34,10 +34,16 @@ def _effective_undir_path_exists(mb: MACIDBase, start: str, finish: str, effecti
 
 
 def _path_is_effective(mb: MACIDBase, path: List[str], effective_set: Set[str]) -> bool:
-    """Check whether a path is effective."""
-    dec_nodes_in_path = set(mb.decisions).intersection(set(path[1:]))  # exclude first node of the path
+    """Check whether a path is effective.
+
+    All decision nodes, except possibly the first node of the path, and except fork nodes, must be effective.
+    """
     # all([]) evaluates to true => this covers case where path has no decision nodes
-    return all(dec_node in effective_set for dec_node in dec_nodes_in_path)
+    return all(
+        node in effective_set or get_motif(mb, path, idx) == "fork"
+        for idx, node in enumerate(path)
+        if idx > 0 and node in mb.decisions
+    )
 
 
 def _directed_effective_path_not_through_set_y(
-- 
2.43.0


From 95266047e3bb96df54b9981f0d7f42d1ef95e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 25/47] fix: signaling considers all effective backdoor paths

---
 pycid/analyze/reasoning_patterns.py | 33 ++++++++++++-----------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index a7ed221..f40b73b 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, List, Optional, Set, Union
+from typing import Any, Dict, Iterator, List, Optional, Set, Union
 
 import networkx as nx
 
@@ -58,19 +58,17 @@ def _directed_effective_path_not_through_set_y(
     )
 
 
-def _effective_backdoor_path_not_blocked_by_set_w(
+def _effective_backdoor_paths_not_blocked_by_set_w(
     mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
-) -> Optional[List[str]]:
+) -> Iterator[List[str]]:
     """
-    Returns the effective backdoor path not blocked if we condition on nodes in set w.
-    If no such path exists, this returns None.
+    Iterates over the effective backdoor paths not blocked if we condition on nodes in set w.
     """
     for path in find_all_undir_paths(mb, start, finish):
         is_backdoor_path = path[1] in mb.get_parents(path[0])
         not_blocked_by_w = is_active_path(mb, path, w)
         if is_backdoor_path and not_blocked_by_w and _path_is_effective(mb, path, effective_set):
-            return path
-    return None
+            yield path
 
 
 def _effective_undir_path_not_blocked_by_set_w(
@@ -173,21 +171,16 @@ def signaling(macid: MACID, decision: str, effective_set: Set[str]) -> bool:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
 
-                path = _effective_backdoor_path_not_blocked_by_set_w(macid, decision, u_b, effective_set, cond_nodes)
-                if not path:
-                    continue
-
-                if _get_key_node(macid, path):
+                for path in _effective_backdoor_paths_not_blocked_by_set_w(
+                    macid, decision, u_b, effective_set, cond_nodes
+                ):
                     key_node = _get_key_node(macid, path)
-                else:
-                    return False
+                    key_node_descendants = set(nx.descendants(macid, key_node))
+                    cond_nodes2 = {decision}
+                    cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
 
-                key_node_descendants = set(nx.descendants(macid, key_node))
-                cond_nodes2 = {decision}
-                cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
-
-                if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
-                    return True
+                    if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
+                        return True
     else:
         return False
 
-- 
2.43.0


From 33bfc52719f30d6098cf6ee6afce407b8d0e6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 26/47] fix: revealing and denying only uses effective
 front-door paths

---
 pycid/analyze/reasoning_patterns.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index f40b73b..861b5c7 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -7,7 +7,7 @@ from pycid.core.get_paths import (
     find_all_dir_paths,
     find_all_undir_paths,
     get_motif,
-    is_active_indirect_frontdoor_trail,
+    get_motifs,
     is_active_path,
 )
 from pycid.core.macid import MACID
@@ -86,6 +86,21 @@ def _effective_undir_path_not_blocked_by_set_w(
         return None
 
 
+def _effective_indirect_frontdoor_path_exists(
+    mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
+) -> bool:
+    """
+    Check whether an effective indirect frontdoor path exists that isn't blocked if we condition on nodes in set w.
+    """
+    return any(
+        path[0] in mb.get_parents(path[1])
+        and "collider" in get_motifs(mb, path)
+        and is_active_path(mb, path, w)
+        and _path_is_effective(mb, path, effective_set)
+        for path in find_all_undir_paths(mb, start, finish)
+    )
+
+
 def direct_effect(macid: MACID, decision: str) -> bool:
     """Check whether a decision in motivated by a direct effect reasoning pattern.
 
@@ -218,7 +233,7 @@ def revealing_or_denying(macid: MACID, decision: str, effective_set: Set[str]) -
             for u_b in agent_b_utils:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
-                if is_active_indirect_frontdoor_trail(macid, decision, u_b, cond_nodes):
+                if _effective_indirect_frontdoor_path_exists(macid, decision, u_b, effective_set, cond_nodes):
                     return True
     else:
         return False
-- 
2.43.0


From c127dbc3590adc11ed657bd589da0e7cdbf574f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 27/47] fix: rules from behaviour strategies do not depend on
 the order of parents

---
 pycid/export/gambit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 31bb32d..87f3f0e 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -82,7 +82,7 @@ def macid_to_efg(
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
                 actions = macid.model.domain[node]
-                parents_actions_tuple = (node, tuple(parents_actions.items()))  # hashable
+                parents_actions_tuple = (node, tuple(sorted(parents_actions.items())))  # hashable, for any order of parents
                 # check if this matches an existing infoset
                 if parents_actions_tuple in parents_to_infoset:
                     cur_infoset = parents_to_infoset[parents_actions_tuple]
@@ -199,7 +199,7 @@ def behavior_to_cpd(
 
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (node, tuple(pv.items()))
+        pv_tuple = (node, tuple(sorted(pv.items())))
         # get the infoset for the node
         infoset = parents_to_infoset[pv_tuple]
         # if the infoset does not exist, this is not a valid parent instantiation
-- 
2.43.0


From 1e0fa4d3c04156495df98e40ecbe9c128df5427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 28/47] fix: queries keep the outcomes of all variables apart
 in models with longer cycles

---
 pycid/core/causal_bayesian_network.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index dc71088..03968f4 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -174,18 +174,28 @@ class CausalBayesianNetwork(BayesianNetwork):
             *[nx.node_connected_component(undirected, var) for var in query]
         )
         context = {k: v for k, v in context.items() if k in connected_nodes}
-        disconnected_nodes = [node for node in cbn.nodes if node not in connected_nodes]
-        if disconnected_nodes and cbn is self:
-            cbn = self.copy()  # never modify the model being queried
-        for node in disconnected_nodes:
-            cbn.remove_node(node)
-        if not nx.is_connected(cbn.to_undirected()):
+        # pgmpy forgets the names of states in cliques without a CPD of their own, so it is only given state numbers
+        network = BayesianNetwork()
+        network.add_nodes_from(node for node in cbn.nodes if node in connected_nodes)
+        network.add_edges_from((u, v) for u, v in cbn.edges if v in connected_nodes)
+        if not nx.is_connected(network.to_undirected()):
             raise ValueError(f"query {query} contains nodes in disconnected components")
+        state_names: Dict[str, List[Outcome]] = {}
+        for cpd in cbn.get_cpds():
+            variable, *evidence = cpd.variables
+            if variable in connected_nodes:
+                state_names[variable] = list(cpd.state_names[variable])
+                network.add_cpds(
+                    TabularCPD(variable, cpd.cardinality[0], cpd.get_values(), evidence, cpd.cardinality[1:])
+                )
 
-        bp = BeliefPropagation(cbn)
+        bp = BeliefPropagation(network)
 
         with np.errstate(invalid="ignore"):  # Suppress numpy warnings for 0/0
-            factor = bp.query(query, context, show_progress=False)
+            factor = bp.query(
+                query, {var: state_names[var].index(context[var]) for var in context}, show_progress=False
+            )
+        factor.store_state_names(factor.variables, factor.cardinality, {v: state_names[v] for v in factor.variables})
         return factor
 
     def intervene(self, intervention: Dict[str, Outcome]) -> None:
-- 
2.43.0


From cb2d873d25a10576c92696990f4c506076ecf502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 29/47] fix: subgames contain decisions without edges

---
 pycid/core/macid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index a9b9e58..ee5f020 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -89,6 +89,7 @@ class MACID(MACIDBase):
                 sg_agents_utils[agent] = [node]
         # instantiate the skeleton of this MAID
         sg_macid = MACID(edges=edges_sg, agent_decisions=sg_agents_decs, agent_utilities=sg_agents_utils)
+        sg_macid.add_nodes_from(active_subgame_decs)  # also decisions without any edges in the subgame
 
         # random initialise decisions not already instantiated that aren't active in this subgame.
         # (this is to ensure that they are all "fully mixed - i.e., every action is chosen with positive probability")
-- 
2.43.0


From 90603dba8544fb28ea96b318ded3d317cc80dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 30/47] fix: equilibria of numerical solvers may contain
 rounding errors

---
 pycid/export/gambit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 87f3f0e..a701f48 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -207,7 +207,9 @@ def behavior_to_cpd(
         if not infoset:
             return {}
         # get the action probs for the infoset
-        action_probs = {macid.model.domain[node][i]: float(prob) for i, prob in enumerate(behavior[infoset])}
+        # numerical solvers may leave the range of probabilities by rounding errors
+        probs = [min(max(float(prob), 0.0), 1.0) for prob in behavior[infoset]]
+        action_probs = {macid.model.domain[node][i]: prob for i, prob in enumerate(probs)}
         # gambit assigns no probabilities in a decision context that can't occur, so any decision will do
         if not any(action_probs.values()):
             return {}
-- 
2.43.0


From 3cd08ba1fe0d078f9f15d0d5f426210b26db87f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 31/47] fix: equilibria of constant-sum games have proper rules
 in contexts that don't occur

---
 pycid/export/gambit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index a701f48..5bedad3 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -166,7 +166,8 @@ def pygambit_ne_solver(
     elif solver == "lcp":
         mixed_strategies = pygambit.nash.lcp_solve(game, rational=False)
     elif solver == "lp":
-        mixed_strategies = pygambit.nash.lp_solve(game, rational=False)
+        # the sequence form may leave improper probabilities in decision contexts that don't occur
+        mixed_strategies = pygambit.nash.lp_solve(game, rational=False, use_strategic=True)
     elif solver == "simpdiv":
         mixed_strategies = pygambit.nash.simpdiv_solve(game)
     elif solver == "ipa":
@@ -176,7 +177,7 @@ def pygambit_ne_solver(
     else:
         raise ValueError(f"Solver {solver} not recognised")
     # convert to behavior strategies
-    behavior_strategies = [x.as_behavior() if solver not in ["lp", "lcp"] else x for x in mixed_strategies]
+    behavior_strategies = [x.as_behavior() if solver != "lcp" else x for x in mixed_strategies]
 
     return behavior_strategies
 
-- 
2.43.0


From 45e385d1cd49123966c37c7aec257e94c5f5757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 32/47] fix: subgame perfect equilibria are optimal in all
 contexts of each subgame

---
 pycid/core/macid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index ee5f020..4af2035 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -164,12 +164,16 @@ class MACID(MACIDBase):
         """
         spes: List[List[StochasticFunctionCPD]] = [[]]
 
-        macid = self.copy()
+        con_rel = CondensedRelevanceGraph(self)
         # backwards induction over the sccs in the condensed relevance graph (handling tie-breaks)
-        for scc in reversed(CondensedRelevanceGraph(macid).get_scc_topological_ordering()):
+        for scc in reversed(con_rel.get_scc_topological_ordering()):
+            macid = self.copy()
+            # the rules of decisions that this scc does not rely on are left out, as they
+            # could make decision contexts impossible in which the scc must be optimal too
+            relied_on = nx.descendants(con_rel, con_rel.graph["mapping"][scc[0]])
             extended_spes = []
             for partial_profile in spes:
-                macid.add_cpds(*partial_profile)
+                macid.add_cpds(*[cpd for cpd in partial_profile if con_rel.graph["mapping"][cpd.variable] in relied_on])
                 ne_in_sg = macid.get_ne_in_sg(decisions_in_sg=scc, solver=solver)
                 for ne in ne_in_sg:
                     extended_spes.append(partial_profile + list(ne))
-- 
2.43.0


From 55517bc016f5ed911f7dd99b2fe052a679d52aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 33/47] fix: random graphs respect the bound on parents and are
 always completed

---
 pycid/random/random_dag.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycid/random/random_dag.py b/pycid/random/random_dag.py
index 9f41596..8a295e7 100644
--- a/pycid/random/random_dag.py
+++ b/pycid/random/random_dag.py
@@ -43,9 +43,10 @@ def random_dag(number_of_nodes: int = 5, edge_density: float = 0.4, max_in_degre
         unvisited.remove(node)
         visited.append(node)
 
-    # Then add edges until desired density is reached
+    # Then add edges until desired density is reached, or no more edges are possible
     maximum_number_of_edges = number_of_nodes * (number_of_nodes - 1) / 2
-    while dag.number_of_edges() < int(edge_density * maximum_number_of_edges):
-        add_random_edge(dag, node_names)
+    possible_number_of_edges = sum(min(i, max_in_degree) for i in range(number_of_nodes))
+    while dag.number_of_edges() < min(int(edge_density * maximum_number_of_edges), possible_number_of_edges):
+        add_random_edge(dag, node_names, max_in_degree)
 
     return dag
-- 
2.43.0


From 184478ef9f14b26b633d30ad8cb84cf1ab530b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 34/47] fix: random diagrams have sufficient recall if
 requested

---
 pycid/random/random_macidbase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/random/random_macidbase.py b/pycid/random/random_macidbase.py
index 113b29e..8384185 100644
--- a/pycid/random/random_macidbase.py
+++ b/pycid/random/random_macidbase.py
@@ -95,8 +95,9 @@ def random_macidbase(
 
             if sufficient_recall:
                 _add_sufficient_recalls(mb)
-                if not _check_max_in_degree(mb, max_in_degree):
-                    # adding edges for sufficient recall requirement violates max_in_degree: resample a new random DAG
+                if not mb.sufficient_recall() or not _check_max_in_degree(mb, max_in_degree):
+                    # edges added for one decision may undo the recall of another one, and adding edges
+                    # for sufficient recall requirement may violate max_in_degree: resample a new random DAG
                     continue
 
             if add_cpds:
-- 
2.43.0


From b2835bb1336b20c79f1ff0cb76b82a3b273064f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 35/47] fix: zero and large numbers are seeds of random CPDs

---
 pycid/random/random_cpd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index c270836..3101c1d 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -39,12 +39,12 @@ class RandomCPD:
 
         seed: Set the random seed
         """
-        self.seed = seed or np.random.randint(0, 10000)
+        self.seed = np.random.randint(0, 10000) if seed is None else seed
         self.smoothness = smoothness
         self.domain = domain or [0, 1]
 
     def __call__(self, **parent_values: Outcome) -> Mapping[Outcome, float]:
-        with temp_seed(self.seed + hash(frozenset(parent_values.items())) % 2**31 - 1):
+        with temp_seed((self.seed + hash(frozenset(parent_values.items()))) % 2**32):
             prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat  # type: ignore
         return {self.domain[i]: prob for i, prob in enumerate(prob_vec)}  # type: ignore
 
-- 
2.43.0


From 17ec51734e1ae4f9284322e6c38f7d33cbfc50b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 36/47] fix: random CPDs with small smoothness are
 distributions

---
 pycid/random/random_cpd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index 3101c1d..1781739 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -45,7 +45,9 @@ class RandomCPD:
 
     def __call__(self, **parent_values: Outcome) -> Mapping[Outcome, float]:
         with temp_seed((self.seed + hash(frozenset(parent_values.items()))) % 2**32):
-            prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat  # type: ignore
+            prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1)[0]  # type: ignore
+            if not abs(sum(prob_vec) - 1) < 1e-9:  # all draws underflowed, so all mass falls on a single outcome
+                prob_vec = np.eye(len(self.domain))[np.random.randint(len(self.domain))]
         return {self.domain[i]: prob for i, prob in enumerate(prob_vec)}  # type: ignore
 
     def __name__(self) -> str:
-- 
2.43.0


From 538d6de3b63e74a21a49b691b97578a0383eec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 37/47] fix: random CPDs with the same seed are the same in
 every process

---
 pycid/random/random_cpd.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index 1781739..8c01de8 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import zlib
 from typing import Iterator, Mapping, Optional, Sequence
 
 import numpy as np
@@ -18,6 +19,15 @@ def temp_seed(seed: int) -> Iterator[None]:
         np.random.set_state(state)
 
 
+def _stable_hash(parent_values: Mapping[str, Outcome]) -> int:
+    """hash that is the same in every process, unlike the hash of strings"""
+
+    def stable(value: Outcome) -> int:
+        return zlib.crc32(value.encode()) if isinstance(value, str) else hash(value)
+
+    return hash(frozenset((stable(parent), stable(value)) for parent, value in parent_values.items()))
+
+
 class RandomCPD:
     """
     Sample a random CPD, with outcomes in the given domain
@@ -44,7 +54,7 @@ class RandomCPD:
         self.domain = domain or [0, 1]
 
     def __call__(self, **parent_values: Outcome) -> Mapping[Outcome, float]:
-        with temp_seed((self.seed + hash(frozenset(parent_values.items()))) % 2**32):
+        with temp_seed((self.seed + _stable_hash(parent_values)) % 2**32):
             prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1)[0]  # type: ignore
             if not abs(sum(prob_vec) - 1) < 1e-9:  # all draws underflowed, so all mass falls on a single outcome
                 prob_vec = np.eye(len(self.domain))[np.random.randint(len(self.domain))]
-- 
2.43.0


From e751692757b26640bee8efcc428f12e08d08194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 38/47] fix: samples come from the joint distribution if
 parents have integer outcomes

The sampling of pgmpy takes indices of outcomes of parents for the outcomes themselves
if they are integers, e.g. for parents with domain -1, 0, 1. It also fails for
distributions that sum to one up to rounding and end with an outcome of probability zero.
---
 pycid/core/causal_bayesian_network.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 03968f4..f5e2f74 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -9,7 +9,6 @@ import numpy as np
 from pgmpy.factors.discrete import TabularCPD
 from pgmpy.inference.ExactInference import BeliefPropagation
 from pgmpy.models import BayesianNetwork
-from pgmpy.sampling import BayesianModelSampling
 
 from pycid.core.cpd import ConstantCPD, Outcome, ParentsNotReadyException, StochasticFunctionCPD
 
@@ -256,8 +255,18 @@ class CausalBayesianNetwork(BayesianNetwork):
         """
         Generates a sample from the joint distribution, and returns it as a dictionary {variable: outcome}
         """
-        sampled_df = BayesianModelSampling(self).forward_sample(size=1, seed=seed, show_progress=False)
-        return {var: sampled_df[var][0] for var in sampled_df.columns}
+        self.check_model()
+        if seed is not None:
+            np.random.seed(seed)
+        # The sampling of pgmpy confuses the indices of the parents' outcomes with outcomes that are integers
+        sample: Dict[str, Outcome] = {}
+        for variable in nx.topological_sort(self):
+            cpd = self.get_cpds(variable)
+            parent_indices = tuple(cpd.state_names[p].index(sample[p]) for p in cpd.variables[1:])
+            probabilities = cpd.values[(slice(None),) + parent_indices]
+            outcome_index = np.random.choice(len(probabilities), p=probabilities / probabilities.sum())
+            sample[variable] = cpd.state_names[variable][outcome_index]
+        return {variable: sample[variable] for variable in self.nodes}
 
     def copy_without_cpds(self) -> CausalBayesianNetwork:
         """copy the CausalBayesianNetwork object"""
-- 
2.43.0


From de616ba92c9bb5ace7f699b966a420d61ea1158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:21 +0000
Subject: [PATCH 39/47] fix: keep agents without decisions and utilities in
 copies

---
 pycid/core/cid.py        | 1 +
 pycid/core/macid.py      | 1 +
 pycid/core/macid_base.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/pycid/core/cid.py b/pycid/core/cid.py
index a909828..0dc1692 100644
--- a/pycid/core/cid.py
+++ b/pycid/core/cid.py
@@ -75,6 +75,7 @@ class CID(MACIDBase):
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
         for agent in self.agents:
+            new._add_agent(agent)
             for decision in self.agent_decisions[agent]:
                 new.make_decision(decision, agent)
             for utility in self.agent_utilities[agent]:
diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 4af2035..2540403 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -222,6 +222,7 @@ class MACID(MACIDBase):
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
         for agent in self.agents:
+            new._add_agent(agent)
             for decision in self.agent_decisions[agent]:
                 new.make_decision(decision, agent)
             for utility in self.agent_utilities[agent]:
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index e1d2782..6d221d4 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -439,6 +439,7 @@ class MACIDBase(CausalBayesianNetwork):
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
         for agent in self.agents:
+            new._add_agent(agent)
             for decision in self.agent_decisions[agent]:
                 new.make_decision(decision, agent)
             for utility in self.agent_utilities[agent]:
-- 
2.43.0


From 425cd8684d3a204301dca1b86bca385c0f43919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:06 +0000
Subject: [PATCH 40/47] fix: update constant relationships when several edges
 are removed at once

---
 pycid/core/causal_bayesian_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index f5e2f74..1f2fb43 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -108,6 +108,12 @@ class CausalBayesianNetwork(BayesianNetwork):
         if v in self.model and self.model.is_constant(v):
             self.model[v] = self.model[v]
 
+    def remove_edges_from(self, ebunch: Iterable[Tuple[str, str]]) -> None:
+        """removes those of the given edges that exist from the CBN"""
+        for edge in list(ebunch):
+            if self.has_edge(*edge[:2]):
+                self.remove_edge(*edge[:2])
+
     def add_edge(self, u: str, v: str, **kwargs: Any) -> None:
         """adds an edge from u to v to the CBN"""
         super().add_edge(u, v, **kwargs)
-- 
2.43.0


From 01563e2432c3443edb65c39728e3c61eede9515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 41/47] fix: forget waiting relationships of removed nodes

---
 pycid/core/causal_bayesian_network.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 1f2fb43..f8c26a1 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -120,6 +120,17 @@ class CausalBayesianNetwork(BayesianNetwork):
         if v in self.model and self.model.is_constant(v):
             self.model[v] = self.model[v]
 
+    def remove_node(self, node: str) -> None:
+        """removes a node with its relationship, also if that was still waiting for its parents"""
+        constant = [v for v in self.get_children(node) if v in self.model and self.model.is_constant(v)]
+        for child in constant:
+            if self.get_cpds(child):
+                super().remove_cpds(child)  # recomputed below
+        super().remove_node(node)
+        self.model.pop(node, None)
+        for child in constant:
+            self.model[child] = self.model[child]
+
     def add_cpds(self, *cpds: TabularCPD, **relationships: Relationship) -> None:
         """
         Add the given CPDs and initialize StochasticFunctionCPDs
-- 
2.43.0


From 276dab2f936669ee2529501398be1b4b1838aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:01 +0000
Subject: [PATCH 42/47] fix: draw random distributions for outcomes such as -1
 and -2, or tuples, separately and reproducibly

---
 pycid/random/random_cpd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index 8c01de8..214b744 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -23,7 +23,11 @@ def _stable_hash(parent_values: Mapping[str, Outcome]) -> int:
     """hash that is the same in every process, unlike the hash of strings"""
 
     def stable(value: Outcome) -> int:
-        return zlib.crc32(value.encode()) if isinstance(value, str) else hash(value)
+        if isinstance(value, tuple):
+            return hash(tuple(map(stable, value)))
+        if isinstance(value, str) or value == -1:  # the hash of -1 is that of -2
+            return zlib.crc32(f"value {value if isinstance(value, str) else -1}".encode())
+        return hash(value)
 
     return hash(frozenset((stable(parent), stable(value)) for parent, value in parent_values.items()))
 
-- 
2.43.0


From 83ff4a5fc466e2e7c1d6974d24171002e2bdcfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:12 +0000
Subject: [PATCH 43/47] fix: answer queries given as any iterable of variables

---
 pycid/core/causal_bayesian_network.py | 1 +
 pycid/core/macid_base.py              | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index f8c26a1..f6018d9 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -173,6 +173,7 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
+        query = list(query)
         for variable, outcome in context.items():
             if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 6d221d4..c36fa69 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -166,6 +166,7 @@ class MACIDBase(CausalBayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
+        query = list(query)  # iterated over several times
         for variable, outcome in context.items():
             if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
-- 
2.43.0


From 522ae6980fd39af00c355b4c5817222638603909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:26 +0000
Subject: [PATCH 44/47] fix: take any iterable of nodes in r-reachability,
 relevance graphs and subgames

---
 pycid/core/macid.py           | 1 +
 pycid/core/macid_base.py      | 6 +++---
 pycid/core/relevance_graph.py | 3 +--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 2540403..06e6899 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -63,6 +63,7 @@ class MACID(MACIDBase):
         Returns:
         - the subgame (MACID) object
         """
+        active_subgame_decs = list(active_subgame_decs)  # iterated over several times
         # find the nodes that are r-relevant for the active_subgame_decs
         r_nodes = [node for node in self.nodes if self.is_r_reachable(active_subgame_decs, node)]
         # adds the dection nodes to this set
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index c36fa69..0b31be4 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -239,7 +239,8 @@ class MACIDBase(CausalBayesianNetwork):
         D2′ to U given Pa(D)∪{D}, where a path is active in a MAID if it is active in the same graph, viewed as a BN.
 
         """
-        assert d2 in self.decisions
+        d2 = [d2] if isinstance(d2, str) else list(d2)
+        assert set(d2) <= set(self.decisions)
         return self.is_r_reachable(d1, d2)
 
     def is_r_reachable(self, decisions: Union[str, Iterable[str]], nodes: Union[str, Iterable[str]]) -> bool:
@@ -252,8 +253,7 @@ class MACIDBase(CausalBayesianNetwork):
         """
         if isinstance(decisions, str):
             decisions = [decisions]
-        if isinstance(nodes, str):
-            nodes = [nodes]
+        nodes = [nodes] if isinstance(nodes, str) else list(nodes)  # iterated over several times
         mg = MechanismGraph(self)
         for decision in decisions:
             for node in nodes:
diff --git a/pycid/core/relevance_graph.py b/pycid/core/relevance_graph.py
index cf83a94..e92506f 100644
--- a/pycid/core/relevance_graph.py
+++ b/pycid/core/relevance_graph.py
@@ -23,8 +23,7 @@ class RelevanceGraph(nx.DiGraph):
 
     def __init__(self, cid: MACIDBase, decisions: Optional[Iterable[str]] = None):
         super().__init__()
-        if decisions is None:
-            decisions = cid.decisions
+        decisions = list(cid.decisions if decisions is None else decisions)  # iterated over several times
         self.add_nodes_from(decisions)
         dec_pair_perms = list(itertools.permutations(decisions, 2))
         for dec_pair in dec_pair_perms:
-- 
2.43.0


From b6c9db6729e0b7580a1eabb1235c4e6199b96003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:55 +0000
Subject: [PATCH 45/47] fix: find active trails without observed nodes, or with
 a single one

---
 pycid/core/macid_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 0b31be4..244c9ca 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -432,7 +432,8 @@ class MACIDBase(CausalBayesianNetwork):
     def active_trail_nodes(
         self, variables: Union[str, List[str], Tuple[str, ...]], observed: Optional[Iterable[str]] = None, **kwargs: Any
     ) -> Dict[str, Set[str]]:
-        return super().active_trail_nodes(variables, list(observed), **kwargs)  # type: ignore
+        observed = [observed] if isinstance(observed, str) else list(observed or [])
+        return super().active_trail_nodes(variables, observed, **kwargs)  # type: ignore
 
     def copy_without_cpds(self) -> MACIDBase:
         """copy the MACIDBase object without its CPDs"""
-- 
2.43.0


From f2a77853edc99b974ece6d8b3c8f5aa048ac8467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:55 +0000
Subject: [PATCH 46/47] fix: export the payoffs of agents given as any iterable

---
 pycid/export/gambit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 5bedad3..f30c021 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -41,6 +41,7 @@ def macid_to_efg(
         decisions_in_sg = macid.decisions
     if agents_in_sg is None:
         agents_in_sg = macid.agents
+    agents_in_sg = list(agents_in_sg)  # iterated over several times
 
     # decision rules already imputed to the exported decisions must not make any of their outcomes impossible
     macid = macid.copy()
-- 
2.43.0


From 3c72ec31b949300fb0dce98a77cdd91b2ec07ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:04 +0000
Subject: [PATCH 47/47] fix: keep the node of random diagrams with a single
 node

---
 pycid/random/random_cid.py       | 2 ++
 pycid/random/random_macid.py     | 1 +
 pycid/random/random_macidbase.py | 1 +
 3 files changed, 4 insertions(+)

diff --git a/pycid/random/random_cid.py b/pycid/random/random_cid.py
index 35fd38a..075e3b3 100644
--- a/pycid/random/random_cid.py
+++ b/pycid/random/random_cid.py
@@ -63,6 +63,7 @@ def random_cid(
     )
 
     dag = DAG(mb.edges)
+    dag.add_nodes_from(mb.nodes)
     decision_nodes = mb.decisions
     utility_nodes = mb.utilities
 
@@ -73,6 +74,7 @@ def random_cid(
     dag = nx.relabel_nodes(dag, node_name_change_map)
 
     cid = CID(dag.edges, decisions=list(dec_name_change.values()), utilities=list(util_name_change.values()))
+    cid.add_nodes_from(dag.nodes)
 
     if add_cpds:
         add_random_cpds(cid)
diff --git a/pycid/random/random_macid.py b/pycid/random/random_macid.py
index 92f8867..bbcd83c 100644
--- a/pycid/random/random_macid.py
+++ b/pycid/random/random_macid.py
@@ -63,6 +63,7 @@ def random_macid(
         max_resampling_attempts=max_resampling_attempts,
     )
     macid = MACID(mb.edges, agent_decisions=mb.agent_decisions, agent_utilities=mb.agent_utilities)
+    macid.add_nodes_from(mb.nodes)
 
     if add_cpds:
         add_random_cpds(macid)
diff --git a/pycid/random/random_macidbase.py b/pycid/random/random_macidbase.py
index 8384185..3e68668 100644
--- a/pycid/random/random_macidbase.py
+++ b/pycid/random/random_macidbase.py
@@ -92,6 +92,7 @@ def random_macidbase(
 
             dag = nx.relabel_nodes(dag, node_name_change_map)
             mb = MACIDBase(dag.edges, agent_decisions=agent_decisions, agent_utilities=agent_utilities)
+            mb.add_nodes_from(dag.nodes)  # a single node has no edges
 
             if sufficient_recall:
                 _add_sufficient_recalls(mb)
-- 
2.43.0

