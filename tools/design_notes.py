"""oracle, cost and reason per property; remarks on planted bugs (which checks catch them)"""
NOTES = {
    "C01": ("a reference object that keeps edges and relationships and evaluates tables from scratch", "15 s", "histories of edits; tests build each model once, in one order"),
    "C02": ("relationship evaluated in every context, completion of partial distributions by hand", "5 s", "all forms × parent domains × contexts; tests use sorted binary domains"),
    "C03": ("joint distribution by enumeration", "75 s", "all contexts and query sets on all small graphs, including several components and long cycles"),
    "C04": ("truncated factorisation on the reference", "25 s", "all intervention sets and histories of in-place interventions"),
    "C05": ("expectation over the enumerated joint distribution", "5 s", "all orders and lists of variables, all ownerships of utilities"),
    "C06": ("snapshot of the model and its arguments before, and the answer on a fresh model", "45 s", "all pairs of operations, and all operations on all small diagrams; tests never look at the model after an analysis"),
    "C07": ("a model that received only the edits of its side and was never copied", "27 s", "interleaved edits of original and copy"),
    "C08": ("d-connection by moralisation of the graph with mechanisms; all pure policies of the undecided decisions", "10 s", "all contexts and interventions, both directions (needless refusals and unjustified answers)"),
    "C09": ("joint distribution by enumeration, against the exact distribution computed from the tree of weighted draws", "8 s", "an exact distribution cannot be tested by drawing"),
    "C10": ("a dictionary node → last requested role", "13 s", "histories of role changes"),
    "C11": ("the set of all functions", "14 s", "all combinations of numbers of outcomes and observations"),
    "C12": ("maximisers over the product of all pure rules, by enumeration", "20 s", "exact set, with ties and given rules"),
    "C13": ("maximum over all joint policies, by enumeration; maximum in every context", "25 s", "global optimality on all small diagrams and previous policies"),
    "C14": ("reference model of the imputation history", "32 s", "histories of imputations"),
    "C15": ("definitions via moralisation and closure by enumeration", "17 s", "all small graphs with roles; all sets"),
    "C16": ("removal of single edges in two orders on the reference; values by enumeration", "25 s", "all small graphs; fixpoint instead of one step"),
    "C17": ("definitions on the reference requisite graph", "28 s", "all small graphs"),
    "C18": ("difference of maxima over all joint policies, by enumeration", "68 s", "exact values on all small diagrams"),
    "C19": ("enumeration of simple paths; blocking rules; d-separation by moralisation", "6 s", "all pairs, all observed sets, all paths"),
    "C20": ("documented criteria on enumerated paths; union of all self-motivating sets", "50 s", "all small diagrams and all effective sets"),
    "C21": ("leaf probabilities and payoffs by enumeration of assignments", "35 s", "complete trees for all small diagrams"),
    "C22": ("gain of every deviation, all pure equilibria by enumeration", "100 s", "both directions: everything reported is an equilibrium, no pure one is missed"),
    "C23": ("gain of every deviation in every subgame, all pure perfect profiles by enumeration", "50 s", "both directions, all subgames"),
    "C24": ("differences of expected utilities in the diagram, by enumeration", "30 s", "all subgames of all small diagrams, all joint policies"),
    "C25": ("properties of the returned graph", "27 s", "every outcome of the generator, including those that never end"),
    "C26": ("properties of the returned diagram, recall by the reference", "90 s", "every outcome of the generator"),
    "C27": ("equality with other objects and processes; state of the global generators without the evaluation", "13 s", "histories of evaluations and draws"),
}
BUGS = {}
