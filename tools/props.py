"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CBN = "pycid/core/causal_bayesian_network.py"
CPD = "pycid/core/cpd.py"
BASE = "pycid/core/macid_base.py"
CIDF = "pycid/core/cid.py"
MACIDF = "pycid/core/macid.py"
REL = "pycid/core/relevance_graph.py"
PATHS = "pycid/core/get_paths.py"
AN = "pycid/analyze/"
GAM = "pycid/export/gambit.py"
RND = "pycid/random/"

TECH_IN = "exhaustive bounded enumeration of models and operations on the real code against a brute-force reference model"
TECH_HIST = "breadth-first exploration of all edit histories of the real object up to a depth, with state deduplication, against a reference model"
TECH_RNG = "exhaustive exploration of the random generator's choice tree on the real code"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=TECH_IN, note="", claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=list(state), observe=list(observe), tech=tech, note=note, claimed=claimed, reason=reason))


prop("C01", "Parametrisation does not depend on the order or history of edits",
     "After any sequence of adding, replacing and removing edges, nodes, relationships (functions, distributions, tables, decision domains) and hard interventions, every variable whose relationship and those of all of its ancestors are given (functions and tables: since the last change of the variable's incoming edges) has exactly the domain and the conditional probability table of a model built afresh from the final graph and relationships, and so do all query answers. In particular relationships may be given in any order, before or after those of the parents, and later changes of a parent's domain propagate to everything computed from it.",
     ["histories"], "every sequence of edit operations, of any length, on any graph and with any kinds of relationships",
     "The tests build each model once, in one order, and at most replace one relationship; ordering and staleness bugs need particular multi-step histories.",
     [CBN, CPD, BASE], [("pending relationships, domain propagation and state-name syncing of the model registry", CBN + ": Model.__setitem__, __delitem__, sync_state_names"), ("re-initialisation on edge changes", CBN + ": add_edge, remove_edge"), ("waiting for parents", CPD + ": parent_values")],
     state=[("registry", "relationships, ready tables and domains of all variables", CBN + ": Model")],
     observe=["get_cpds", "model.domain", "query"], tech=TECH_HIST)

prop("C02", "Relationships mean what they say, and improper ones are rejected",
     "Once its parents are specified, a variable's conditional probabilities in every parent context are exactly those of the given function, dictionary, decision domain or table evaluated in that context, where probability mass not assigned is spread evenly over the outcomes left unspecified. Its outcomes are the declared domain in the declared order or else the sorted set of outcomes the relationship can produce. A relationship that leaves the declared domain or whose probabilities are negative, exceed one or do not sum to one is rejected, and a model counts as structural causal model exactly if every variable with parents is deterministic.",
     ["inputs"], "every graph, every kind of relationship, every combination of domains (including unsorted and non-numeric ones)",
     "Tests check a handful of two- or three-variable tables with binary sorted domains.",
     [CPD, CBN], [("table computation and completion of partial distributions", CPD + ": StochasticFunctionCPD.__init__"), ("possible values", CPD + ": possible_values, parent_values"), ("helper distributions", CPD + ": bernoulli, discrete_uniform, noisy_copy")],
     observe=["get_cpds(v).values and state_names", "model.domain", "is_structural_causal_model"])

prop("C03", "Queries answer with the exact conditional distribution of the model",
     "For every set of query variables and every context of positive probability, the (normalised) answer of a query equals the conditional distribution obtained by multiplying the conditional probability tables of the model and summing out everything else. This holds whatever the graph, including graphs with several connected components or isolated variables, the domains and their order, and the class of the model. The query variables may be given as any iterable. Contexts naming an outcome outside of a variable's domain are refused.",
     ["inputs"], "every model, every query set, every partial context",
     "Tests evaluate a few fixed queries of a few fixed models.",
     [CBN, BASE], [("restriction to connected components and exact inference", CBN + ": query"), ("policy check in front of it", BASE + ": query")],
     observe=["query"])

prop("C04", "Interventions replace mechanisms and nothing else",
     "A query or expectation under interventions equals that of the model in which each intervened variable loses its incoming edges and takes the given value with certainty, while all other mechanisms are unchanged; total and introduced total effects are the corresponding differences of expectations. Applying the same interventions in place to a copy gives the same answers, and passing interventions to a query leaves the model itself unchanged.",
     ["inputs", "histories"], "every model, every set of simultaneous or successive interventions on any variables (including decisions), every query and context",
     "Tests intervene on one variable of two small models with sorted binary domains.",
     [CBN, AN + "effects.py", BASE], [("in-place intervention", CBN + ": intervene"), ("copy before intervening", CBN + ": query"), ("effects", AN + "effects.py")],
     observe=["query(intervention=)", "intervene", "total_effect", "introduced_total_effect"])

prop("C05", "Expected values and expected utilities are correct",
     "Expected values are returned one per requested variable, in the requested order, each equal to the expectation of that variable given the context and interventions, and an agent's expected utility is the sum of the expectations of exactly the utility variables that belong to the agent. This holds for any number of variables that are not themselves part of the context, for negative and fractional outcomes, and when the variables lie in different connected components.",
     ["inputs"], "every model, every list of numeric variables, every agent, context and intervention",
     "Tests compute expected utilities of fixed examples with one or two utility nodes.",
     [CBN, BASE], [("expectations", CBN + ": expected_value"), ("utilities of an agent", BASE + ": expected_utility")],
     observe=["expected_value", "expected_utility"])

prop("C06", "Analysing a model never changes it",
     "No query, expectation, solution, equilibrium, incentive, effect, relevance, reasoning-pattern, path or export operation changes the graph, the roles of nodes, the relationships, the tables or the domains of the model (or the lists and dictionaries) it was given. Repeating any operation, or running any other analysis operations in between, gives the same answer again.",
     ["histories"], "every sequence of analysis operations on every model",
     "Tests call each analysis once on a fresh example and look at its result only.",
     [CBN, BASE, CIDF, MACIDF, AN + "value_of_control.py", AN + "value_of_information.py", AN + "requisite_graph.py", GAM],
     [("working on copies", "all analysis functions"), ("copy", CBN + ": copy")],
     observe=["nodes, edges, roles, get_cpds, model.domain, stored relationships before and after"], tech=TECH_HIST)

prop("C07", "Copies are faithful and independent",
     "A copy of a model has the same class, nodes, edges, agents' decisions and utilities, domains, tables and answers as the original, including undecided decisions, partially specified models and agents with only decisions or only utilities; a copy without relationships has the same structure and no relationships. After any sequence of edits of the copy (edges, relationships, roles, interventions, imputed policies) the original is unchanged, and vice versa, and edits have the same effect on a copy as on the original.",
     ["histories"], "every model, every sequence of edits applied to either side after copying",
     "Tests copy a couple of examples and compare a few attributes.",
     [CBN, BASE, CIDF, MACIDF, CPD], [("copying structure", "copy_without_cpds in " + CBN + ", " + BASE + ", " + CIDF + ", " + MACIDF), ("copying relationships", CBN + ": copy"), ("copy of objects", CPD + ": copy")],
     observe=["copy", "copy_without_cpds"], tech=TECH_HIST)

prop("C08", "A query is refused exactly when it depends on a policy that is not given",
     "In an influence diagram with undecided decisions, a query or expectation (with any context and interventions) is refused if the decision rule of some undecided decision can influence the answer, i.e. the decision's mechanism is d-connected to a query variable given the context and the interventions, and is answered otherwise. An answer given without a policy is the same for every policy of the undecided decisions.",
     ["inputs"], "every influence diagram, every subset of decisions without policy, every query, context and intervention",
     "Tests check two refused and a few answered queries of one example.",
     [BASE], [("mechanism graph and d-connection", BASE + ": MACIDBase.query, MechanismGraph")],
     observe=["query", "expected_value", "expected_utility"])

prop("C09", "Sampling draws from exactly the joint distribution of the model",
     "A sample assigns to every variable one of its own outcomes, every sample has positive probability, and the probability of drawing an assignment equals its probability in the model, also after interventions. Samples with the same seed are equal.",
     ["inputs"], "every model and every sequence of random draws",
     "Tests look at one seeded sample.",
     [CBN], [("forward sampling and mapping of states to outcomes", CBN + ": sample")],
     observe=["sample"], tech=TECH_RNG)

prop("C10", "Every node has exactly one role, whatever the history of role changes",
     "After any sequence of turning nodes into decisions, utilities or chance nodes, adding and removing nodes, and copying, each node is either a decision of exactly one agent, a utility of exactly one agent or a chance node, as last requested, and all views of the roles (per agent, per node, the sets of decisions, utilities and agents) agree. Lists and dictionaries passed in by the caller are never modified.",
     ["histories"], "every sequence of role changes, over any agents and nodes",
     "Tests perform two or three role changes on one example.",
     [BASE, CIDF, MACIDF], [("role bookkeeping", BASE + ": make_decision, make_utility, make_chance")],
     state=[("roles", "agent_decisions, agent_utilities, decision_agent, utility_agent", BASE)],
     observe=["decisions", "utilities", "agents", "agent_decisions", "agent_utilities", "decision_agent", "utility_agent"], tech=TECH_HIST)

prop("C11", "Pure decision rules and policies are enumerated completely, without repetition",
     "The pure decision rules of a decision are exactly the functions from the joint outcomes of its observations to its domain, each produced once, and pure (joint) policies are exactly the combinations of one rule per given decision, in the order of the given decisions. Each produced rule, when added to the model, makes the decision behave as that function.",
     ["inputs"], "every decision, with any number of observations with any domains",
     "Tests count the rules of decisions with binary observations.",
     [BASE, MACIDF], [("enumeration and indexing of contexts", BASE + ": pure_decision_rules, pure_policies"), ("joint policies", MACIDF + ": joint_pure_policies, policy_profile_assignment")],
     observe=["pure_decision_rules", "pure_policies", "joint_pure_policies", "policy_profile_assignment"])

prop("C12", "The optimal pure policies are exactly the maximisers of expected utility",
     "The optimal pure policies of a set of decisions of one agent are exactly those pure policies whose expected utility for the agent, with all given decision rules of other decisions kept, is maximal (up to the documented relative tolerance), each listed once, ties included. Requests over decisions of different agents, and requests whose answer depends on the rule of another decision that has none, are refused, and the result does not depend on rules that were given for the optimised decisions before.",
     ["inputs"], "every influence diagram, every agent and set of the agent's decisions, with any policies given for other decisions",
     "Tests check the number of optimal policies of a few fixed examples.",
     [BASE, CIDF], [("maximisation over policies", BASE + ": optimal_pure_policies, optimal_pure_decision_rules"), ("single agent", CIDF + ": optimal_policies")],
     observe=["optimal_pure_policies", "optimal_pure_decision_rules", "optimal_policies"])

prop("C13", "Solving a single-agent diagram yields an optimal policy",
     "Solving a causal influence diagram, or imputing an optimal policy, attains the maximal expected utility over all joint policies, whether or not the agent has sufficient recall and whatever policies were given before. With sufficient recall the chosen decision is moreover optimal in every decision context of positive probability, and imputing an optimal decision for one decision is optimal given all other decision rules.",
     ["inputs", "histories"], "every causal influence diagram, with several decisions, utilities and observations, with any policies imputed before",
     "Tests solve about five fixed examples.",
     [CIDF, BASE], [("backward induction", CIDF + ": impute_optimal_policy"), ("optimal rule in each context", BASE + ": impute_optimal_decision"), ("solve", CIDF + ": solve")],
     observe=["solve", "impute_optimal_policy", "impute_optimal_decision", "expected_utility"])

prop("C14", "Imputing and removing decision rules does what it says",
     "Imputing a random decision (or a random policy or fully mixed profile) makes the decision uniform over its domain in every context and keeps the domain, imputing a conditional expectation makes the decision equal the expectation of the target given its observations, and removing all decision rules makes every decision undecided again with its domain. These hold after any sequence of such imputations and leave all other variables as they were, and an imputed rule stays the same when other parts of the model change later.",
     ["histories"], "every sequence of imputations and removals on every influence diagram",
     "Tests impute once on fixed examples.",
     [BASE, CIDF], [("imputation", BASE + ": impute_random_decision, impute_fully_mixed_policy_profile, remove_all_decision_rules, impute_conditional_expectation_decision"), ("single agent", CIDF + ": impute_random_policy")],
     observe=["get_cpds", "query", "model.domain"], tech=TECH_HIST)

prop("C15", "Strategic relevance, recall and subgame structure follow their definitions",
     "A node is r-reachable (for decisions: s-reachable) from a decision exactly if a new parent of the node would be d-connected to a utility of the decision's agent descending from the decision, given the decision and its observations. The relevance graph has exactly these edges, an agent has sufficient recall exactly if the graph over its own decisions is acyclic, the condensed graph orders its strongly connected components topologically, and the decision sets of the subgames are exactly the unions of components closed under relevance. Valid orders are topological orders of exactly the requested nodes. Sets of decisions and nodes may be given as any iterable.",
     ["inputs"], "every graph with every assignment of decisions and utilities to agents",
     "Tests check these on fixed examples.",
     [BASE, REL, MACIDF], [("reachability", BASE + ": is_r_reachable, is_s_reachable, MechanismGraph"), ("recall", BASE + ": sufficient_recall"), ("graphs", REL), ("subgames", MACIDF + ": decs_in_each_maid_subgame"), ("orders", BASE + ": get_valid_order")],
     observe=["is_s_reachable", "is_r_reachable", "RelevanceGraph", "CondensedRelevanceGraph", "sufficient_recall", "decs_in_each_maid_subgame", "get_valid_order"])

prop("C16", "The requisite graph removes exactly the observations that cannot matter",
     "An observation of a decision is requisite exactly if it is d-connected to some utility of the decision's agent descending from the decision, given the decision and its other observations. For a single agent with sufficient recall the requisite graph is the graph left when nonrequisite observation edges are removed until none is left, with all other edges, nodes and roles kept. The optimal expected utility is the same with and without the removed observations.",
     ["inputs"], "every influence diagram with sufficient recall",
     "Tests check the requisite graph of two examples.",
     [AN + "requisite_graph.py"], [("requisite observations", AN + "requisite_graph.py: requisite, requisite_list"), ("one reverse pass over the decisions", AN + "requisite_graph.py: requisite_graph")],
     observe=["requisite", "requisite_list", "requisite_graph"])

prop("C17", "Incentive criteria agree with their graphical definitions",
     "For every node of a single-agent diagram with sufficient recall, value of information, response incentive, instrumental control incentive, value of control and its direct and indirect variants are admitted exactly if the documented graphical criterion (on the requisite graph where it says so) holds, and the list of admitting nodes contains exactly these nodes. Unknown nodes, diagrams with several agents and, where required, insufficient recall are refused.",
     ["inputs"], "every graph with every assignment of decisions and utilities, every node",
     "Tests check a few nodes of fixed examples.",
     [AN + "value_of_information.py", AN + "value_of_control.py", AN + "response_incentive.py", AN + "instrumental_control_incentive.py"],
     [("criteria", AN)], observe=["admits_voi", "admits_ri", "admits_ici", "admits_voc", "admits_dir_voc", "admits_indir_voc and their lists"])

prop("C18", "Quantitative value of information and control are differences of optima",
     "The value of information of a node for a decision is the optimal expected utility when the decision observes the node minus the optimum when it does not; the value of control of a node is the optimum when the agent also chooses the node's outcome given its parents minus the original optimum. Neither is negative, and neither is positive for a node for which the graphical criterion does not admit it.",
     ["inputs"], "every parameterised causal influence diagram, every decision and node",
     "Tests evaluate about five values on fixed examples.",
     [AN + "value_of_information.py", AN + "value_of_control.py"], [("difference of two solved models", AN + "value_of_information.py: quantitative_voi; " + AN + "value_of_control.py: quantitative_voc")],
     observe=["quantitative_voi", "quantitative_voc"])

prop("C19", "Path searches and path classifications are complete and correct",
     "The directed and undirected path searches produce exactly the simple paths between two nodes, each once; an active path is found, and nodes are reported as d-connected, exactly if they are d-connected given the observed nodes (possibly none), and a path found is active; and a path is declared active exactly if no node on it blocks it. Motifs along paths, active back-door trails, active indirect front-door trails and decision-free directed paths are recognised according to their definitions, and unknown nodes are refused.",
     ["inputs"], "every graph, every pair of nodes, every path and every observed set",
     "Tests check a few paths of fixed examples.",
     [PATHS], [("depth-first search", PATHS + ": _dfs_search_paths"), ("active paths", PATHS + ": find_active_path, is_active_path"), ("trails", PATHS)],
     observe=["is_dconnected", "active_trail_nodes", "find_active_path", "find_all_dir_paths", "find_all_undir_paths", "is_active_path", "get_motif", "get_motifs", "is_active_backdoor_trail", "is_active_indirect_frontdoor_trail", "directed_decision_free_path"])

prop("C20", "Reasoning patterns follow their graphical criteria at the greatest fixed point",
     "For diagrams whose utilities have no children: direct effect, manipulation, signaling and revealing/denying are reported for a decision and a set of effective decisions exactly if the documented graphical criterion holds. The overall analysis uses the largest set of decisions in which every decision is motivated by some pattern relative to the set itself, lists each of these decisions under exactly one pattern that holds for it, and lists no other decision. The result does not depend on the names or order of nodes.",
     ["inputs"], "every multi-agent influence diagram and every effective set",
     "Tests check one diagram per pattern.",
     [AN + "reasoning_patterns.py"], [("criteria", AN + "reasoning_patterns.py: direct_effect, manipulation, signaling, revealing_or_denying"), ("elimination of unmotivated decisions", AN + "reasoning_patterns.py: get_reasoning_patterns")],
     observe=["direct_effect", "manipulation", "signaling", "revealing_or_denying", "get_reasoning_patterns"])

prop("C21", "Exported extensive-form games are faithful to the diagram",
     "In the exported game every agent is a player, and for every joint policy the probability of reaching each leaf and the expected payoff of every agent equal those of the diagram under the corresponding policy. Two tree nodes are in the same information set exactly if they belong to the same decision and agree on the outcomes of its observations, and behaviour strategies translate back into exactly the corresponding decision rules.",
     ["inputs"], "every multi-agent diagram (also with hidden common causes, several decisions per agent, deterministic and zero-probability observations, unsorted domains) and every joint policy",
     "Tests count nodes and information sets of one example.",
     [GAM], [("tree construction", GAM + ": macid_to_efg"), ("translation back", GAM + ": behavior_to_cpd"), ("file export", GAM + ": macid_to_gambit_file")],
     observe=["macid_to_efg", "behavior_to_cpd", "macid_to_gambit_file"])

prop("C22", "Reported Nash equilibria are equilibria, and no pure equilibrium is missed",
     "In every decision profile reported as Nash equilibrium of a diagram without given decision rules, each agent's expected utility is maximal among all of the agent's policies given the other agents' rules, and the profile gives a rule for every decision. With the enumeration of pure equilibria, every pure equilibrium is represented (up to behaviour in contexts that cannot occur or that the agent's own choices exclude, and up to ties broken by rounding errors), and if there is none this is reported by an empty list.",
     ["inputs"], "every multi-agent diagram in which every agent has perfect recall, and every built-in solver (except ipa, which is unreliable by itself)",
     "Tests count the equilibria of about five fixed games.",
     [MACIDF, GAM], [("reduction to the relevant subgame", MACIDF + ": create_subgame, get_ne_in_sg"), ("solver choice", GAM + ": pygambit_ne_solver"), ("translation", GAM + ": macid_to_efg, behavior_to_cpd")],
     observe=["get_ne"])

prop("C23", "Reported subgame perfect equilibria are equilibria in every subgame",
     "Every profile reported as subgame perfect equilibrium of a diagram without given decision rules gives one rule for each decision and is a Nash equilibrium of the diagram and of each of its subgames, with the rules outside of the subgame mixed arbitrarily. Every pure profile with this property is represented when pure equilibria are enumerated (up to behaviour in contexts that cannot occur or that the agent's own choices exclude, and up to ties broken by rounding errors). The same holds for the equilibria of a single subgame.",
     ["inputs"], "every multi-agent diagram with perfect recall, with any number of agents and strongly connected components of the relevance graph",
     "Tests count the equilibria of about five fixed games.",
     [MACIDF, REL], [("backward induction over components", MACIDF + ": get_spe"), ("components", REL)],
     observe=["get_spe", "get_ne_in_sg"])

prop("C24", "Subgames preserve what matters for the decisions in them",
     "For diagrams whose utilities have no children: the subgame for a set of decisions closed under relevance contains these decisions with their observations, domains and agents, and the utilities of their agents that they can influence. For every joint policy of these decisions and every decision context of positive probability, differences of an agent's expected utility between decisions of that agent are the same in the subgame as in the full diagram with the remaining decisions at their given (or else uniformly random) rules.",
     ["inputs"], "every multi-agent diagram, every subgame, every joint policy in it",
     "Tests compare the node sets of two subgames.",
     [MACIDF], [("selection of nodes and edges, marginalisation of irrelevant parents", MACIDF + ": create_subgame")],
     observe=["create_subgame"])

prop("C25", "Random graphs satisfy the requested constraints, for every random outcome",
     "Whatever the random choices, a random directed acyclic graph has the requested number of nodes, is acyclic and connected, has the requested number of edges (the integer part of density times the maximum, but at least the n-1 edges needed for connectedness), and no node has more than the requested number of parents. If the bound on parents does not leave room for that many edges, as many as possible are added, and the construction always comes to an end.",
     ["inputs"], "every number of nodes, density and bound, and every sequence of random draws",
     "Tests draw a few graphs with the default bound.",
     [RND + "random_dag.py"], [("spanning tree and random edges", RND + "random_dag.py")],
     observe=["random_dag"], tech=TECH_RNG)

prop("C26", "Random influence diagrams satisfy the requested constraints",
     "Whatever the random choices, a random (multi-agent) influence diagram is a directed acyclic graph with the requested number of nodes, the requested numbers of decisions and utilities for each agent, utilities without children, every decision having a directed path to a utility of its agent, and no node with more than the allowed number of parents, and with sufficient recall if requested; or a ValueError is raised. If relationships are requested, every variable gets a valid one and every decision a domain.",
     ["inputs"], "every combination of parameters and every sequence of random draws",
     "Tests draw ten diagrams.",
     [RND + "random_macidbase.py", RND + "random_cid.py", RND + "random_macid.py"],
     [("construction and resampling", RND + "random_macidbase.py: random_macidbase"), ("recall", RND + "random_macidbase.py: _add_sufficient_recalls")],
     observe=["random_cid", "random_cids", "random_macid", "random_macids", "random_macidbase"], tech=TECH_RNG)

prop("C27", "Random distributions are valid, reproducible and leave no trace",
     "A random conditional distribution gives, in every parent context, non-negative probabilities that sum to one over exactly its domain, always the same for the same context, and for the same seed (including zero) the same in every object and in every process. Distributions of different contexts are drawn separately. Evaluating it does not change the state of the global random generator.",
     ["inputs", "histories"], "every domain, smoothness and seed, every parent context and every order of evaluations",
     "Tests compare two objects with one seed.",
     [RND + "random_cpd.py"], [("seeding per context", RND + "random_cpd.py: RandomCPD.__call__, temp_seed")],
     observe=["RandomCPD", "get_cpds"], tech=TECH_HIST)


def main():
    built = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "checks")) if f.startswith("c") and f.endswith(".py"))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in built and p["claimed"]:
            checks.append(dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
                               evidence_file=f"evidence/{p['id']}.json", technique=p["tech"], level="model_checking",
                               level_note=p["note"] or "every case within the stated bounds is executed on the real code and compared with an independent brute-force reference; nothing is claimed beyond the bounds and the alphabet of domains and relationships listed in the evidence; trusts the reference model, numpy, networkx and pgmpy as installed"))
        else:
            na.append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
                   notes="No hooks: everything is observed through the public API; all randomness is controlled by replacing the random generators in the checking process."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(checks), "checks,", len(na), "not claimed")


main()
