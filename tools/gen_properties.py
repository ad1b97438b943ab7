#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

p("C01", "A network is exactly the multigraph its edit history describes",
  "After any sequence of node and edge additions, bidirectional additions, attribute updates and removals, the network's node list and order, edge listing, per-node incoming edges and attributes, edge-existence answers, in/out/total degrees and size are exactly those of the directed multigraph that the sequence describes. Removing a node or an edge leaves no trace of it in any view, parallel edges keep their own attributes, and an operation that is refused because its node or edge is missing changes nothing. A rotation system is accepted only if every label in it is a node of the network.",
  ["histories", "inputs"], "all finite sequences of public Network edits over any labels (ints, strings), self-loops and parallel edges included, with every view compared after every step",
  "Tests build a handful of fixed networks and check one view after one edit; the redundant bookkeeping (degrees, incoming map, outgoing list) only diverges after particular interleavings of parallel edges, self-loops and removals.",
  ["netomaton/state.py"], [("add_edge/remove_edge/remove_node/update_edge bookkeeping", "netomaton/state.py Network"), ("rotation_system setter assertions", "netomaton/state.py Network.rotation_system")],
  ["Network public accessors after each call"], [dict(name="_network", meaning="label -> in/out counters, incoming edge lists, outgoing list, node attributes", where="netomaton/state.py")])

p("C02", "Copies and compressed forms of a network are faithful and independent",
  "Copying a network, or compressing and decompressing it, yields a network that is equal in every view (node order, neighbour order, parallel edges, edge and node attributes, degrees). Any later edit of either one, including in-place edits of attributes, leaves the other unchanged, and once they differ in nodes, attributes or edges they no longer compare equal.",
  ["histories", "inputs"], "all networks reachable by public edits with int/string labels and scalar, string, list or nested attributes, followed by any edits to the original or the copy",
  "Tests copy one small network and compare it once; independence must hold for every later edit on either side.",
  ["netomaton/state.py"], [("copy = decompress(compress)", "netomaton/state.py Network.copy/_Compressor")], ["Network.copy, compress, decompress, then edits"])

p("C03", "Matrix and NetworkX conversions preserve the graph",
  "Building a network from an adjacency matrix gives one node per row and exactly the non-zero entries as weighted edges, and converting to an adjacency matrix gives, for the requested node order, the summed (or last) edge weights, with 1 for an edge without the weight attribute. Converting to a NetworkX multigraph and back preserves nodes, node attributes, parallel edges and edge attributes.",
  ["inputs"], "all square matrices (asymmetric, zero rows, self-loops, negative weights) and all networks with int/string labels, any node order, parallel edges, custom weight attribute",
  "Tests convert a few symmetric matrices; isolated rows, parallel edges, direction and node order matter on others.",
  ["netomaton/state.py", "netomaton/topology/networks.py"], [("from_adjacency_matrix", "netomaton/topology/networks.py"), ("to_adjacency_matrix, from_networkx, to_networkx", "netomaton/state.py Network")], ["converted objects"])

p("C04", "Cellular-automaton topologies give every cell its documented neighbourhood",
  "In a 1D cellular automaton network every cell's neighbourhood is exactly the cells within distance r around the ring (itself included), listed left to right with the cell in the centre. In a 2D one every cell's neighbourhood is exactly the periodic Moore, von Neumann or radius-1 hexagonal neighbourhood of the grid, and the rotation system lists precisely those cells with the cell itself at the centre position. Fewer than three cells (nine in 2D) and unknown neighbourhood types or boundaries are refused.",
  ["configurations"], "all sizes n >= 2r+1, all radii r >= 1, all 2D shapes with dims >= 2r+1 (non-square included), all three neighbourhood types (hexagonal grids have an even number of rows), ordered or not",
  "Tests pin a few matrices of a few sizes; wrap-around arithmetic differs at edges, corners, parity of rows and non-square shapes.",
  ["netomaton/topology/adjacency.py", "netomaton/topology/networks.py"], [("adjacency.cellular_automaton(2d)", "netomaton/topology/adjacency.py"), ("_shift_to_center", "netomaton/topology/networks.py")], ["in_edges and rotation_system of the network"])

p("C05", "Graph generators produce exactly the graph they name",
  "The lattice generator connects exactly the grid cells adjacent along one axis, in both directions, wrapping only when periodic and adding self-connections only on request; the complete, bipartite and disconnected generators produce exactly those graphs with the given labels and edge attributes. The small-world generator yields a symmetric simple graph on all n nodes with nk/2 links (k even), equal to the ring lattice when p is 0, and is reproducible for a given seed.",
  ["configurations", "inputs"], "all lattice dims/periodicity/self-loop/first-label combinations, all n for complete, all label sets and attribute maps for bipartite and disconnected, all n, k, p, seed",
  "Tests check a few shapes; degenerate dimensions, isolated nodes, self-loops and first_label offsets are not sampled.",
  ["netomaton/topology/networks.py"], [("lattice, complete, bipartite, disconnected, watts_strogatz_graph", "netomaton/topology/networks.py")], ["nodes and edges of the generated network"])

p("C06", "Every node update sees one consistent previous state of its neighbourhood",
  "At every timestep the activity rule is applied once to each node, in node order, and is given the node's label, the timestep, the complete previous activities, its neighbours (in rotation-system order if there is one, otherwise in incoming-edge order), the neighbours' previous activities in the same order, its incoming connections with their attributes, and its own previous activity. No node's update can see a value computed in the same timestep, and the recorded state of the timestep is exactly the values returned (with NumPy scalars turned into plain ones).",
  ["histories", "inputs", "configurations"], "all networks (labels, parallel edges, weights, rotation systems), initial conditions, rules and numbers of timesteps",
  "Tests use fixed symmetric networks where reading a half-updated state or a mis-ordered neighbourhood often gives the same values; the claim is about every node of every step of every run.",
  ["netomaton/evolution.py"], [("do_activity_rule, NodeContext", "netomaton/evolution.py"), ("_get_neighbour_labels / _get_neighbourhood_map", "netomaton/evolution.py")], ["activity_rule callback arguments", "returned trajectory"])

p("C07", "Topology and activities are updated in the documented order",
  "With activities first, S(t+1) is computed on A(t) and the topology rule then maps A(t) and S(t+1) to A(t+1); with topology first, A(t+1) is computed from A(t) and S(t), and S(t+1) on A(t+1); with synchronous update both are computed from A(t) and S(t). The topology rule is applied exactly once per timestep with the current timestep, and the network it returns is exactly the one recorded for that timestep and used afterwards; a topology rule that returns no network is refused.",
  ["histories", "configurations"], "all update orders, topology rules (rewiring, adding, removing edges and nodes, returning a new network or the same one), initial networks and lengths",
  "The synchronous order has no test at all, and the other two are tested on single models whose end state hides off-by-one uses of the old or new network.",
  ["netomaton/evolution.py"], [("evolve main loop, evolve_topology", "netomaton/evolution.py")], ["topology_rule and activity_rule callback arguments", "returned trajectory"])

p("C08", "The evolution has exactly the requested length and delivers every input",
  "With timesteps given, the trajectory has exactly that many states (at least the initial one) and the rule runs at t = 1 .. timesteps-1 without an input; with an input list it has one state more than the list, item t-1 is delivered at timestep t (to each node its own element if the item is a sequence, otherwise the item to every node), and the timesteps argument is ignored. With an input function, it is called once per timestep with the timestep, the latest activities and the latest network, its value is delivered likewise, and its first None ends the evolution; giving neither is refused, as are an update order that does not exist and, with an activity rule, a number of initial activities that is not the number of nodes.",
  ["inputs", "histories"], "all lengths (0, 1, many), scalar and per-node inputs, falsy inputs (0, False, empty), input functions that depend on state, all update orders",
  "The tests that exercise inputs did not even run on current Python versions; falsy inputs, zero-length runs and stopping conditions are not sampled.",
  ["netomaton/evolution.py"], [("_get_input_function, _TimestepInputFunction, _ListInputFunction", "netomaton/evolution.py")], ["input function arguments, NodeContext.input, trajectory length"])

p("C09", "Past activities are the true history, most recent last",
  "When past conditions are supplied, at every timestep the rule sees exactly as many past states as were supplied: the states of the timesteps before the previous one, oldest first, drawn from the given past conditions until the run's own history is long enough. The window is the same whether or not activities are persisted or compressed, and there is no past when none was supplied.",
  ["histories", "inputs"], "all numbers of past conditions, run lengths shorter and longer than the window, list or dict past conditions, all persistence and compression flags",
  "Tests use windows of one or two entries over four steps with everything persisted.",
  ["netomaton/evolution.py"], [("_get_past_activities, NodeContext.past_activity_of", "netomaton/evolution.py")], ["NodeContext.past_activities"])

p("C10", "Perturbations intercept every computed value exactly once",
  "If a perturbation is given it is called exactly once for each surviving node at each timestep, with the node's label, the value just computed for it, the timestep and the node's input, and the value it returns is what is recorded and what all later timesteps see. The perturbation never alters what other nodes compute in the same timestep, nor the results cached by memoization.",
  ["histories", "inputs"], "all perturbation functions (conditional on node, time, value, input), all update orders, with and without memoization, inputs and node removals",
  "Two tests perturb one node of one automaton; interactions with memoization, inputs and removals are not covered.",
  ["netomaton/evolution.py"], [("perturbation block of do_activity_rule, PerturbationContext", "netomaton/evolution.py")], ["perturbation callback arguments and returned trajectory"])

p("C11", "Memoization changes the cost of a run, never its result",
  "For any rule that is a function of the memoization key, a run with memoization yields exactly the trajectory of the run without it, and the rule is invoked at most once per distinct key in the whole run. The default key is the ordered tuple of neighbourhood activities when the network has a rotation system and their multiset otherwise, and a user-supplied key is used instead when given.",
  ["histories", "inputs", "configurations"], "all networks with and without rotation systems, rules symmetric or order-dependent, custom keys, perturbations, inputs and topology rules",
  "Tests compare two automata; a wrong key (dropping multiplicity or order, or mixing keys) only shows on particular neighbourhoods.",
  ["netomaton/evolution.py"], [("_get_memoized, _OrderedMemoizationKey, _UnorderedMemoizationKey", "netomaton/evolution.py")], ["rule invocation log and trajectory"])

p("C12", "Persistence, compression and copying flags never change the dynamics",
  "Whatever combination of the compression, persist-activities and persist-network flags is used, and whether or not the network is copied for a topology rule that leaves its argument alone, the rules receive the same arguments and the recorded states that are kept have the same values; states that are not persisted are absent (the initial state always remains). With copying on, a recorded network is never altered by later timesteps, and recorded activities are never altered in any mode; the caller's initial conditions and initial network are not modified by the engine.",
  ["configurations", "histories"], "all flag combinations with all models (static, with and without rotation systems, topology rule that edits in place, births and deaths, inputs, past conditions)",
  "Each flag is tested alone on one model, with a final-state comparison; aliasing shows only when a later step mutates an object that was already recorded.",
  ["netomaton/evolution.py", "netomaton/state.py"], [("State compression, evolve_activities/evolve_topology persistence", "netomaton/evolution.py, netomaton/state.py")], ["trajectory under each flag combination, snapshots taken at callback time"])

p("C13", "Node births and deaths requested through the context take effect atomically",
  "With activities first, nodes removed through any context during a timestep are absent, and nodes added are present with their given state and outgoing links, in both the recorded activities and the recorded network of that timestep and from the next timestep on; all other nodes, edges, attributes and orders are unchanged. Within the timestep itself every original node is still updated on the original network, and a label removed and re-added in the same timestep denotes only the new node.",
  ["histories", "inputs"], "all sequences of additions and removals by any nodes (of themselves or others, repeated, label re-use, parallel or self links, link attributes), with and without topology rule and perturbation, on networks without a rotation system, links naming nodes that exist after the step",
  "Only substitution systems exercise this path, always removing every node by itself.",
  ["netomaton/evolution.py"], [("NodeContext.add_node/remove_node, evolve_activities, evolve_topology", "netomaton/evolution.py")], ["trajectory activities and networks"])

p("C14", "A substitution system performs exactly the string rewriting it describes",
  "At every timestep the string is replaced by the concatenation, left to right, of the productions of its consecutive windows of the rule's neighbourhood length (a window starting at each position that has one), where constants rewrite to themselves. The trajectory read back as strings, and the zero-padded array form, list exactly those strings in order, empty productions and strings included, also when the system has been used for another evolution before.",
  ["inputs", "histories"], "all axioms, all total rule maps over windows of length 1 to 3, symbol types str and int, constants, productions of length 0 and more",
  "Tests run a few NKS examples with one or two productions; empty productions, shrinking strings and longer windows are not sampled.",
  ["netomaton/substitution_system.py", "netomaton/evolution.py"], [("SubstitutionSystem.activity_rule, pad, to_string", "netomaton/substitution_system.py")], ["to_string/pad of the trajectory"])

p("C15", "Asynchronous updating changes one scheduled node per timestep, cyclically",
  "With a fixed update order, timestep t applies the wrapped rule to exactly the node at position (t-1) mod length of the order, and every other node, listed or not, keeps its activity. Given only a number of nodes, the order is a permutation of all of them, shuffled anew for each rule; with per-cycle randomization the cycles differ, and every timestep still updates exactly one of the given labels.",
  ["schedules", "inputs"], "all update orders over any subset of the nodes and any labels, all network node orders, run lengths over several cycles, any wrapped rule, any random seed",
  "Tests use two orders on one 21-cell automaton and sample every 19th step.",
  ["netomaton/asynchronous_rule.py"], [("AsynchronousRule.__call__, _check_for_end_of_cycle", "netomaton/asynchronous_rule.py")], ["wrapped rule invocation log and trajectory"])

p("C16", "Reversible rules run backwards exactly",
  "Under the reversible wrapper a binary node's new value is the wrapped rule's result XOR the node's value two states earlier. Consequently, evolving forward any number of steps and then evolving again from the last two states in swapped roles retraces the same states in reverse, back to the initial and past conditions.",
  ["inputs", "histories"], "all binary rules, initial and past conditions, networks and run lengths",
  "One test checks one rule's forward picture; reversal itself is not tested.",
  ["netomaton/reversible_rule.py", "netomaton/evolution.py"], [("ReversibleRule.__call__", "netomaton/reversible_rule.py"), ("past activities window", "netomaton/evolution.py")], ["forward and backward trajectories"])

p("C17", "Both Turing machine forms execute the same machine step by step",
  "For any transition table, tape and head start, each timestep of the tape-centric form and of the head-centric form performs exactly one step of the Turing machine on a circular tape: read the cell under the head, write, change state, move. The head-centric form stops exactly when the terminating state has been entered or the given number of tape configurations has been reached, a missing transition is reported as an error, and the reported tapes and head positions are those of the run.",
  ["programs", "inputs"], "all machines (head states, int or one-character symbols), tapes, start positions, moves including stay, terminating states and limits",
  "Tests run two published machines; the two forms are never compared and wrap-around, stay moves and limits are not sampled.",
  ["netomaton/turing_machine.py"], [("TapeCentricTuringMachine.activity_rule, HeadCentricTuringMachine.activity_rule/input_function", "netomaton/turing_machine.py")], ["trajectory, head_activities, activities_for_plotting"])

p("C18", "Wolfram-model rewriting is sound: matched relations out, instances in",
  "Each timestep repeatedly takes, for each left-hand pattern in turn, the first remaining relation that fits it under one consistent assignment of symbols, and replaces every group so completed by the instances of the right-hand patterns under that assignment, with a distinct new label (larger than every label then in use) for each new symbol. Every relation outside a completed group is kept, nothing else appears, kept relations come before instances, and scanning goes on as long as the last pattern finds a relation. Converting a configuration to a network and back preserves its relations and their order, for unary, binary and longer relations; the connections carry the number of their relation, their place in a relation of three or more, and a mark for unary relations.",
  ["inputs", "histories"], "all configurations of unary, binary and longer relations (repeats, self-relations, more than nine relations) and all rules, over several timesteps",
  "Tests compare a few published rules' configurations; freshness, disjointness and preservation must hold for every rule and configuration.",
  ["netomaton/wolfram_physics_model.py"], [("topology_rule, _matches, network_to_config", "netomaton/wolfram_physics_model.py")], ["to_configurations of the trajectory"])

p("C19", "CTRBL rules map the centre-top-right-bottom-left states of every cell",
  "Each cell's next state is the table entry for the states of the cell itself and its top, right, bottom and left neighbours on the periodic grid, in that order; with rotations on, all four rotations of each entry's surroundings map to the same image; a missing combination is an error and never a silent value. The Langton's loop automaton is such a rule with its published table and initial loop, placed where requested.",
  ["configurations", "inputs"], "all grid shapes with dims >= 3 (non-square included), complete and incomplete tables, with and without rotations, all states; loop placements",
  "Tests use square or single shapes and one model; a swap of two directions is invisible for symmetric tables.",
  ["netomaton/ctrbl_rule.py", "netomaton/langtons_loop.py"], [("_init_neighbourhood_map, _init_rule_table, activity_rule", "netomaton/ctrbl_rule.py")], ["trajectory, rule_table"])

p("C20", "Local cellular-automaton rules implement their defining tables",
  "Elementary and general binary rules return the bit of the rule number selected by the neighbourhood read as a binary number (in lexicographic or NKS order); totalistic rules return the base-k digit of the rule number selected by the neighbourhood sum, refusing out-of-range rule numbers; the majority rule returns a most frequent state, choosing randomly among ties. The Game of Life and Wireworld rules follow their published transition tables, and int/bit conversions are mutually inverse.",
  ["inputs"], "all rule numbers, numbers of colours k, neighbourhood sizes and neighbourhood states",
  "Tests pin a handful of rule numbers over a few pictures; the tables are exponentially large.",
  ["netomaton/rules/activity_rule.py", "netomaton/rule_tables.py"], [("binary_ca_rule, totalistic_ca, majority_rule, game_of_life_rule, wireworld_rule", "netomaton/rules/activity_rule.py")], ["rule return values"])

p("C21", "The sandpile topples correctly and conserves grains in the bulk",
  "At each timestep every non-boundary cell loses four grains if it held at least four and gains one from each of its four grid neighbours that held at least four; with closed boundaries the boundary cells are always reset to zero. With open (periodic) boundaries the total number of grains never changes, and with closed boundaries it never increases.",
  ["configurations", "histories"], "all grid shapes with dims >= 3, all initial piles (including far above threshold), both boundary modes, with grain drops by perturbation",
  "Tests check one picture of one size; conservation is a property of every configuration.",
  ["netomaton/sandpile.py"], [("Sandpile.activity_rule, _get_boundary_indices", "netomaton/sandpile.py")], ["trajectory"])

p("C22", "Hopfield training and recall follow the Hebb rule and never raise the energy",
  "Training yields exactly the symmetric zero-diagonal matrix of summed pairwise products of the training patterns, used as edge weights of a network containing every node. During recall each timestep changes at most one node, to 1 if its weighted input is at least zero and to -1 otherwise, so the energy never increases and a state where every node agrees with its input sign is never left.",
  ["inputs", "schedules"], "all sets of bipolar patterns of any size and number, all starting patterns, all random update schedules",
  "The test recalls three pictures with one seed.",
  ["netomaton/hopfield_net.py", "netomaton/asynchronous_rule.py"], [("HopfieldNet.train, _rule", "netomaton/hopfield_net.py")], ["adjacency_matrix, network, trajectory"])

p("C23", "Fungal growth keeps a valid resource-flow network at every step",
  "At every timestep the network contains only grid-adjacent links, at most one direction per adjacent pair, never drops a link, never grows a link between two cells without resource, links every adjacent pair of cells that both have resource, and splits each cell's outflow equally over its outgoing links. Each cell's next resource is the weighted inflow from its predecessors (or its own resource if it has none) plus the absorbed resource if it is alive and on the resource layer, and a run is reproducible for any given seed.",
  ["histories", "schedules"], "all grid sizes, initial conditions, resource layers, absorption rates and random seeds (zero included), at every timestep",
  "The test runs one seed and compares final pictures; the invariants must hold at every step for every random outcome.",
  ["netomaton/fungal_growth_model.py"], [("topology_rule, activity_rule", "netomaton/fungal_growth_model.py")], ["trajectory activities and networks"])

p("C24", "Rule tables are complete and honour lambda, quiescence and isotropy",
  "Random and walked-through rule tables cover exactly all k^(2r+1) neighbourhoods with states in 0..k-1, report the exact fraction of entries not mapped to the quiescent state as the actual lambda, respect strong quiescence (uniform neighbourhoods map to themselves) and isotropy (reflections map alike) when requested, and the walk only moves lambda towards the target, stopping at the first entry that reaches it. The table-driven rule returns precisely the entry for the neighbourhood and refuses unknown ones.",
  ["inputs", "schedules"], "all k (2..10), r, lambda targets, flag combinations and random choices",
  "Tests check a few seeds and parameter choices.",
  ["netomaton/rule_tables.py"], [("random_rule_table, table_walk_through, table_rule", "netomaton/rule_tables.py")], ["returned tables and lambda values"])

p("C25", "Information measures depend exactly on the empirical distributions",
  "Shannon entropy, joint entropy and mutual information equal the textbook values of the empirical (joint) symbol frequencies of the given sequences, and the averages over a trajectory are the means over nodes of those values for each node's sequence of states, each state counting as one symbol whatever its type or printed length. For the average mutual information each node's sequence is paired with itself shifted by any temporal distance below the number of timesteps, and other distances are refused.",
  ["inputs"], "all strings and activity tables, any alphabets (negative and multi-digit states included), all temporal distances, trajectories or plain lists",
  "Tests check a few strings and one automaton with single-digit states.",
  ["netomaton/analysis.py"], [("shannon_entropy, joint_shannon_entropy, mutual_information, averages", "netomaton/analysis.py")], ["returned values"])

p("C26", "Turtle drawing and L-system rendering obey stack discipline",
  "A sequence of turtle commands yields exactly one recorded segment per forward move, each starting where the previous command left the turtle and going the given distance along the current heading, and a pop restores exactly the position and heading of the matching push. Rendering an L-system state executes the bound instructions of each symbol once, in string order. A drawing shows exactly the recorded segments, and an animation adds them one by one, inside its view and at the requested pace.",
  ["programs", "histories"], "all command sequences with nested push/pop, rotations by any angle (exact at multiples of 90 degrees) and distances, all bindings (callables, argument tuples, lists)",
  "Tests draw two curves; nesting depth, order and repeated pops are not sampled.",
  ["netomaton/turtle.py", "netomaton/utils.py"], [("Turtle.forward/rotate/push/pop", "netomaton/turtle.py"), ("_render_L_system", "netomaton/utils.py")], ["turtle position and trajectory"])

p("C27", "Initial conditions and reporting helpers describe the right cells",
  "Simple initial conditions put the given value in the centre cell and the empty value elsewhere, random ones put values below k in the centred randomized region and the empty value elsewhere, and invalid region sizes are refused. The activity table of a trajectory lists each state's values in label order, binomial coefficients are exact, and binarization left-pads the base-2 digits to a common width.",
  ["inputs"], "all sizes, shapes, values, region sizes, alphabets; all trajectories (label order differing from node order); all n, r",
  "Tests check a few sizes, mostly odd and square.",
  ["netomaton/evolution.py", "netomaton/utils.py"], [("init_simple, init_simple2d, init_random", "netomaton/evolution.py"), ("get_activities_over_time_as_list, ncr, binarize_for_plotting", "netomaton/utils.py")], ["returned values"])

p("C28", "The TSP network encodes the right distances, constraints and tours",
  "The distance list has exactly one entry per unordered pair of points with their Euclidean distance, and the network connects every neuron to every neuron. The tour read from a permutation matrix visits each point once in the order of the claimed positions, closes the cycle, reports its exact length, and a matrix in which two points claim one position is refused; each neuron's update is the Hopfield-Tank sum of row, column, global and distance inhibition of the previous activities.",
  ["inputs"], "all sets of at least two points, all permutation matrices and conflicting matrices, all activities",
  "The test solves one instance; wrap-around of tour positions and asymmetries in the inhibition sums are hidden by convergence.",
  ["netomaton/hopfield_tank_tsp_net.py"], [("get_distances, get_tour_graph, activity_rule", "netomaton/hopfield_tank_tsp_net.py")], ["returned values and trajectory"])

p("C29", "Relation drawings and grid layouts show exactly the model's relations",
  "Turning a configuration of relations into a drawable graph yields a node for every element and one directed edge for each consecutive pair of each relation, with multiplicity. The page generated for a graph lists each node and each edge once, with each repeated self-reference of a node drawn larger than the previous one, and the lattice layout assigns each label its row-major grid position.",
  ["inputs"], "all configurations (unary, binary, longer, repeated relations) and all lattice sizes",
  "Tests check one page and one layout.",
  ["netomaton/vis/vis_utils.py"], [("configuration_to_nx, get_html, lattice_pos", "netomaton/vis/vis_utils.py")], ["returned graph, page and layout"])

p("C30", "Plots and animations show exactly the recorded data",
  "A plot of a trajectory, or of an activity table, shows exactly its activities: a row per timestep and a column per node in label order or, given a two-dimensional shape, the chosen timestep's activities as a row-major grid; an animation shows the states of all timesteps in order, again and again (with a one-dimensional shape, the rows up to the current one), under the given title or the number of the timestep, at the given pace, and is saved only when asked. Series plots show exactly the given series, alternating between the axes if there are two, with the given labels, legend, colours and limits; Poincare plots the consecutive pairs, and bifurcation plots the distinct values, among the last values given; degree plots the number of nodes of each positive degree. Hexagonal plots show one hexagon per cell, coloured by its activity, those of neighbouring cells of the hexagonal topology touching, and network drawings show each node and each edge of the network.",
  ["inputs"], "all trajectories (label order differing from node order), shapes, slices, value ranges, series, axes, networks with parallel edges and self-loops",
  "The plotting functions are not tested at all, since they only draw.",
  ["netomaton/utils.py", "netomaton/hexplot.py"], [("plot_activities, plot_grid, animate_activities, plot1D, poincare_plot, bifurcation_plot, plot_degree_distribution, plot_network", "netomaton/utils.py"), ("plot_hex_grid, animate_hex", "netomaton/hexplot.py")], ["the figure's artists, the frames of the animation, the graph given to the renderer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
