# The table of properties (executed by props.py).

prop("C01", "Directed graphs hold exactly the vertices and edges added and not removed",
     "After any sequence of adding or removing vertices and edges (parallel edges and self-loops included) or clearing, a directed "
     "graph lists exactly the vertices and edges that were added and not removed since, and all its observers (counts, out-edges, "
     "out-degrees, lookup of an edge, sources and targets) agree with that set. A new vertex or parallel edge never takes the identity "
     "of one that is still there, and removing a vertex removes exactly its incident edges.",
     ["histories"], "every history of at most 5-6 (8 thorough) operations over at most 3 (4) vertices and 3 (4) edges, two classes",
     "The unit tests follow two or three fixed histories; the invariant is about every interleaving of additions and removals, such as "
     "removing the first of two parallel edges and adding another one.",
     ["graph.py"], [("adjacency dictionaries keyed by vertex, target and edge number", "graph.py"), ("DirectedGraph.remove_vertex", "graph.py")],
     BFS, "Exhaustive within the bounds for the real classes; assumes nothing about internal state (deep structural comparison is only used to merge states).")

prop("C02", "Incidence graphs: out-edges and in-edges always describe the same edges",
     "After any sequence of additions, removals, clearing and reversals of an incidence graph, the in-edges of each vertex are exactly "
     "the edges of the graph that end there and the out-edges exactly those that start there, with consistent degrees. Reversing the "
     "graph swaps sources and targets of all edges at once, and reversing twice restores the original graph.",
     ["histories"], "every history of at most 5-7 operations over at most 3 (4) vertices and 3 (4) edges",
     "Two indexes are updated by separate code for each operation; tests sample a few histories and almost never check in-edges after a removal or a reversal.",
     ["incidence_graph.py", "reverse.py", "graph.py"],
     [("in- and out-adjacency updated together", "incidence_graph.py"), ("reverse_graph / reverse_dict", "reverse.py")],
     BFS, "Exhaustive within the bounds. Mutating a graph while it is reversed is left unspecified.")

prop("C03", "Undirected graphs: an edge is one edge seen from both its ends",
     "After any sequence of additions, removals and clearing, an undirected graph lists each edge once, each edge is incident to both its "
     "ends, and edges can be looked up and removed under either orientation. Counts, degrees and incident edges always agree with the set of "
     "edges added and not removed, self-loops and parallel edges included.",
     ["histories"], "every history of at most 5-7 operations over at most 3 (4) vertices and 3 (4) edges",
     "The same edge has two names; the defects are in histories that add under one name and remove under the other, which tests do not enumerate.",
     ["graph.py"], [("canonical orientation of undirected edges", "graph.py"), ("UndirectedGraph.out_edges / edges / remove_edge", "graph.py")],
     BFS, "Exhaustive within the bounds.")

prop("C04", "Automata: the transition function is the one built by the history of edits",
     "After any sequence of edits (states, transitions, initial and final marks, inserted words, clearing), an automaton has at most one "
     "transition per state and symbol, and its observers (transition function, symbols leaving a state, alphabet, edges, labels, counts, "
     "initial and final states, completeness) agree with that history. The automaton accepts a word exactly when following the word from "
     "the initial state reaches a final state, the given text is delivered to the state reached, and an existing transition is never "
     "silently redirected by an addition.",
     ["histories", "inputs"], "every history of at most 4-7 operations over at most 3-4 states and 2-3 symbols; all words of length at most 3 in every state",
     "Tests build a few automata and never interleave removals with additions; the defects are in how the two representations (edges and transition table) are kept together.",
     ["automaton.py", "incidence_automaton.py"],
     [("add_edge / remove_edge / remove_vertex on the transition table", "automaton.py"), ("accepts / delta_word / automaton_insert_string", "automaton.py"),
      ("in-adjacency of automata", "incidence_automaton.py")],
     BFS, "Exhaustive within the bounds.")

prop("C05", "Node-labelled automata: transitions read the symbol of the state they enter",
     "After any sequence of edits, a node-labelled automaton has at most one transition from a state to a state carrying a given symbol, and "
     "its observers (transition function, symbols, edges, counts, initial and final states, in-edges when they are kept) agree with the history. A word is "
     "accepted exactly when the states reached by reading it end in a final state.",
     ["histories", "inputs"], "every history of at most 4-6 operations over at most 4 states and 2 symbols; all words of length at most 3 in every state",
     "Tests use one fixed automaton; nothing exercises removals, re-additions or the incidence variant.",
     ["node_automaton.py", "incidence_node_automaton.py"],
     [("symbol property map and transition table", "node_automaton.py"), ("in-adjacency", "incidence_node_automaton.py")],
     BFS, "Exhaustive within the bounds. Symbols are given when the state is created.")

prop("C06", "NFA: transitions, epsilon closures and acceptance follow the history of edits",
     "After any sequence of edits, a non-deterministic automaton holds exactly the set of transitions added and not removed, and every "
     "observer (transition function, symbols, alphabet, edges, initial and final states, counts) agrees with it. A word is accepted exactly when some path from "
     "an initial state to a final state spells it, epsilon transitions being free and possibly cyclic.",
     ["histories", "inputs"], "every history of at most 4-6 operations over at most 3 states and 2 symbols plus epsilon; all words of length at most 3 in every state",
     "Tests use three small NFAs built once; epsilon cycles, several initial states and removals are not covered.",
     ["nfa.py"], [("epsilon closure and delta", "nfa.py"), ("transition sets of Nfa.add_edge / remove_edge", "nfa.py")],
     BFS, "Exhaustive within the bounds. Words do not contain the epsilon symbol.")

prop("C07", "Automata built from a list of transitions are the automata described",
     "The builders that take a list of (source, target, symbol) triples, an initial state and final states produce an automaton with exactly "
     "one state per name, those transitions, that initial state and those final states, whatever the names are (numbers, strings, tuples, not contiguous). "
     "When two transitions of a deterministic automaton conflict, the first one is kept.",
     ["inputs"], "every list of at most 3 (4) transitions over 2-3 names in 5 naming schemes, 1-2 symbols, every initial and set of final names, four builders",
     "Tests only use contiguous integers in increasing order.",
     ["automaton.py", "incidence_automaton.py", "node_automaton.py", "incidence_node_automaton.py"],
     [("make_automaton", "automaton.py"), ("make_node_automaton", "node_automaton.py")],
     ENUM, "Exhaustive within the bounds; the result is compared through its observers, up to isomorphism.")

prop("C08", "Graph views show exactly the vertices and edges that pass their filters",
     "A view of a graph iterates over, counts and tests membership of exactly the vertices that pass its vertex filter and the edges that pass its "
     "edge filter and whose ends pass the vertex filter, always reflecting the present state of the nested graph. The union, intersection and difference of "
     "views, nested or not, show the union, intersection and difference of what their operands show.",
     ["inputs", "programs"], "every graph with n <= 3 and <= 3 (4) edges, three kinds, every vertex and edge filter for one view, every pair for |, & and -, nested combinations of three",
     "Tests use one graph and two filters; the difference operator and membership tests were wrong without any test noticing.",
     ["graph_view.py"], [("filters combined by |, & and -", "graph_view.py"), ("vertices/edges/out_edges of the view", "graph_view.py")],
     ENUM, "Exhaustive within the bounds. Methods forwarded to the nested automaton are not part of the view.")

prop("C09", "Depth-first search visits exactly the reachable part and reports a valid DFS",
     "A depth-first search discovers exactly the vertices reachable from its sources through edges allowed by its filter and not coloured beforehand, "
     "each once; it examines each of their out-edges once, reports each edge in the class (tree, back, forward or cross) that its target's state "
     "calls for, and finishes vertices in stack order, after all that they discovered. It ends for every graph, cyclic or with parallel edges, of any depth.",
     ["inputs"], "all digraphs n <= 3, n = 4 (loop-free, or bounded edges up to renaming), undirected n <= 4 (5), families up to n = 1500; every source, every colouring, every filter on a subspace",
     "Tests run one or two graphs with a visitor that prints; the order and classification of events on every graph is what other algorithms (topological sort, strong components) rely on.",
     ["depth_first_search.py", "graph_traversal.py"],
     [("explicit stack and colour map", "depth_first_search.py"), ("dfs_tree", "graph_traversal.py")],
     TRACE, "Exhaustive within the bounds; the monitor accepts any order of out-edges.")

prop("C10", "Breadth-first search visits the reachable part by increasing distance",
     "A breadth-first search discovers exactly the vertices reachable from its sources through edges allowed by its filter and not coloured beforehand, "
     "each once, in order of increasing distance from the sources, and its tree edges form shortest paths. Each out-edge is examined once and reported as tree or non-tree "
     "edge (with the right colour of its target); a vertex finishes after its out-edges. Iterators over rooted trees yield each vertex once in the right order.",
     ["inputs"], "all digraphs n <= 3, n = 4 loop-free, undirected n <= 4, families up to n = 1500, trees n <= 5 (6); every source, colouring and filter on a subspace",
     "Tests run one or two graphs; distance order and event protocol must hold on each graph.",
     ["breadth_first_search.py", "graph_traversal.py"],
     [("queue and colour map", "breadth_first_search.py"), ("bfs_tree / dfs_tree", "graph_traversal.py")],
     TRACE, "Exhaustive within the bounds; the order among vertices at the same distance is free.")

prop("C11", "Dijkstra computes optimal distances and exactly the optimal predecessors",
     "For every graph with weights that are non-negative for the chosen algebra (shortest, widest, most reliable, lexicographic...), the distance of "
     "each vertex is the best value over all paths from the source, and the predecessor set of each vertex is exactly the set of edges that end an optimal path. "
     "Unreachable vertices keep the worst value and no predecessor; the visitor sees each vertex discovered, examined and finished once, in order of distance.",
     ["inputs"], "weighted graphs n <= 4 (bounded edges and weights), dense and sparse families up to n = 60, 7 semi-rings, every source",
     "Tests use a couple of maps with the default algebra; ties, zero weights and other orders are where heap-based code goes wrong.",
     ["dijkstra_shortest_paths.py", "heap.py", "algebra.py"],
     [("relaxation and predecessor sets", "dijkstra_shortest_paths.py"), ("decrease_key", "heap.py"), ("semi-ring operators", "algebra.py")],
     ENUM, "Exhaustive within the bounds; oracle: Bellman-Ford over the same algebra.")

prop("C12", "Shortest paths extracted from Dijkstra are real paths of optimal weight",
     "The single path returned for a target is a connected sequence of edges from the source to the target whose weight is the optimal distance. The "
     "all-paths result contains exactly the edges that lie on optimal paths to the target, and extraction ends on every graph, including those with ties and free cycles.",
     ["inputs"], "as C11, every target",
     "Tests extract one path on one graph; cycles that cost nothing made extraction loop for ever without any test noticing.",
     ["dijkstra_shortest_paths.py"],
     [("make_shortest_path / make_shortest_paths_dag", "dijkstra_shortest_paths.py"), ("dijkstra_shortest_path", "dijkstra_shortest_paths.py")],
     ENUM, "Exhaustive within the bounds; with free edges the all-paths result is bounded from both sides instead of compared exactly.")

prop("C13", "Topological sort orders every acyclic graph and rejects every cyclic one",
     "For every acyclic directed graph, topological sort returns each vertex exactly once, with every edge going from an earlier to a later vertex. For every graph with a cycle "
     "(self-loops included) it raises an error instead of returning an order.",
     ["inputs"], "all digraphs n <= 3 and n = 4 loop-free, all DAGs n = 5 (6), families up to n = 1500, caller's deque or not",
     "Tests sort one DAG and reject one cycle.",
     ["topological_sort.py", "depth_first_search.py"], [("finish order of DFS", "topological_sort.py"), ("back edges", "topological_sort.py")],
     ENUM, "Exhaustive within the bounds.")

prop("C14", "Strong components partition the vertices by mutual reachability",
     "For every directed graph, two vertices get the same component number exactly when each can be reached from the other; the numbers are 0 to k-1 where k is the returned "
     "count, and every edge between two components goes from the larger to the smaller number (reverse topological order).",
     ["inputs"], "all digraphs n <= 3, n = 4, n = 5 with <= 5 (7) edges up to renaming, families up to n = 1500",
     "Tests run Tarjan on two graphs; the low-link logic fails on particular shapes of nested cycles and cross edges.",
     ["strong_components.py", "depth_first_search.py"], [("roots, discover times and stack of Tarjan's visitor", "strong_components.py")],
     ENUM, "Exhaustive within the bounds; oracle: transitive closure.")

prop("C15", "Extraction and copy reproduce exactly the selected part of a graph or automaton",
     "Extracting from a source reports, each once, exactly the vertices reached through relevant vertices and edges and the relevant edges between them; the copy functions "
     "build in the target a graph isomorphic to that part through the vertex and edge maps they return, transporting labels, without touching the source or what the target already contained.",
     ["inputs"], "n <= 3 with <= 4 edges and every vertex and edge filter, n = 4 unfiltered (filtered thorough), undirected graphs, automata n <= 3, families up to n = 1500",
     "Tests copy one graph per class; undirected edges were handled twice and nobody noticed.",
     ["graph_extract.py", "graph_copy.py", "automaton_copy.py"],
     [("visitor over relevant edges", "graph_extract.py"), ("vertex/edge maps of the copy", "graph_copy.py"), ("copy of automata", "automaton_copy.py")],
     ENUM, "Exhaustive within the bounds; the filters are pure functions.")

prop("C16", "A cut of an acyclic graph crosses every maximal path and nothing superfluous",
     "For an acyclic graph, a source and a set of cut edges, the cut returned holds exactly the vertices at which a traversal from the source is stopped: the ends of "
     "the first cut edge of each path, and the sinks reached without crossing one. Hence every maximal path from the source meets the cut.",
     ["inputs"], "all acyclic graphs n <= 4 with <= 5 edges (all n = 4 and n = 5 with <= 6 edges thorough), every source and set of cut edges",
     "Tests cut a single tree; shared descendants reached both through a cut edge and without one are not covered.",
     ["cut.py"], [("if_push stopping at cut edges", "cut.py")],
     ENUM, "Exhaustive within the bounds.")

prop("C17", "The heap always pops a best element, whatever the history of updates",
     "After any sequence of pushes, pops and priority improvements, popping returns an element that is at least as good as every other one for the comparison in use; no element is lost "
     "or duplicated, and size, emptiness and iteration agree with the elements pushed and not popped.",
     ["histories"], "every history of at most 4 (5) operations from every initial content of at most 3 elements, three priorities with ties, and all permutations of up to 7 (8) elements",
     "Tests push and pop a few fixed lists; the sift functions only fail for particular shapes after a priority change.",
     ["heap.py"], [("sift up / sift down", "heap.py"), ("decrease_key and position index", "heap.py")],
     ENUM, "Exhaustive within the bounds; ties may be popped in any order.")

prop("C18", "Union and intersection of deterministic automata denote union and intersection",
     "For every two deterministic automata (partial or complete, over the same or different alphabets, with unreachable states or no initial state), the automaton built by "
     "the union accepts exactly the words accepted by either, and the one built by the intersection exactly the words accepted by both. The operands are left unchanged; a target and a visitor given by the caller are those used.",
     ["inputs"], "all pairs with <= 2 states over 2 symbols, families of pairs with 3 states (all thorough), different alphabets, unary automata <= 4 (5) states, four numberings; all words",
     "Tests compare one pair of automata; a language equality over all words cannot be sampled, and special state numbers such as 0 were mistaken for missing ones.",
     ["deterministic_union.py", "deterministic_intersection.py", "product_mixin.py", "parallel_breadth_first_search.py"],
     [("product construction", "product_mixin.py"), ("parallel traversal with missing states", "parallel_breadth_first_search.py")],
     PROD, "For each pair the verdict covers words of every length (the product is finite and explored completely); pairs are exhaustive within the bounds.")

prop("C19", "Inclusion test decides the comparison of two regular languages",
     "For every two deterministic automata, the inclusion test tells exactly whether the first language is strictly included in the second, strictly includes it, equals it, or is not comparable with it, with the default visitor as with one given by the caller. The operands are left unchanged.",
     ["inputs"], "all ordered pairs of the same space as C18; all words",
     "Tests compare a handful of pairs; the answer depends on all words, and on early exits of the traversal.",
     ["deterministic_inclusion.py", "parallel_breadth_first_search.py"],
     [("comparison of final states along the parallel traversal", "deterministic_inclusion.py")],
     PROD, "For each pair the verdict covers words of every length; pairs are exhaustive within the bounds.")

prop("C20", "The parallel traversal of two automata explores their product by levels",
     "The parallel breadth-first search visits each reachable pair of states once, by increasing distance from the initial pair, going on with a single automaton when the other one is lost. Each "
     "visitor event is raised once per pair or transition, with the automata, states and symbol it announces; filtered transitions are not followed.",
     ["inputs"], "all pairs of automata with <= 2 states over 2 symbols, overlapping alphabets, unary automata, sets of source pairs and filters on a subspace",
     "Union, intersection, inclusion and trie matching all rely on these events; the tests only look at one final result.",
     ["parallel_breadth_first_search.py"],
     [("pair colour map and queue", "parallel_breadth_first_search.py"), ("visitor events", "parallel_breadth_first_search.py")],
     TRACE, "Exhaustive within the bounds; the order of symbols is free.")

prop("C21", "Determinization keeps the language and builds the reachable subsets only",
     "For every NFA (several initial states, epsilon transitions and cycles included), determinization yields a deterministic automaton that accepts exactly the same words, with one state per reachable set of NFA states; "
     "in complete mode every state has a transition for each symbol. The NFA is left unchanged.",
     ["inputs"], "all NFAs with 2 states over {a,b,epsilon}, 3 states over {a,epsilon} and {a,b}, structured up to 6 states (4 states thorough); all words",
     "Tests determinize two NFAs; equality of languages over all words cannot be sampled.",
     ["moore_determination.py", "nfa.py"], [("subset construction", "moore_determination.py"), ("epsilon closure", "nfa.py")],
     PROD, "For each NFA the verdict covers words of every length; NFAs are exhaustive within the bounds.")

prop("C22", "Hopcroft minimization keeps the language and merges exactly equivalent states",
     "For every deterministic automaton, partial or complete, whatever its final states, Hopcroft minimization yields an automaton that accepts exactly the same words, with one state per class of "
     "states that no word distinguishes. The input is left unchanged.",
     ["inputs"], "all partial automata with <= 3 states over 2 symbols, up to renaming 4 and 5 states, unary <= 10 states (6 states thorough); all words",
     "Tests minimize two automata; partition refinement fails on particular orders of splitters and on all-final or no-final automata.",
     ["hopcroft_minimize.py"], [("partition refinement with a worklist of splitters", "hopcroft_minimize.py")],
     PROD, "For each automaton the verdict covers words of every length; a missing transition distinguishes from a dead state.")

prop("C23", "Revuz minimization of acyclic automata keeps the language and is minimal",
     "For every acyclic automaton (labels on transitions or on states), Revuz minimization merges in place exactly the states that no word distinguishes; the remaining states keep their transitions and final marks, the initial state remains, "
     "the language is unchanged, and the visitor is told of each merge, moved transition and removed state. The height of each state is the length of the longest path from it.",
     ["inputs"], "all acyclic automata n <= 4 over 2 symbols with every final set and initial state, n = 5 partly, node-labelled n <= 5, all small tries; all words",
     "Tests minimize three tries; the initial state itself could be merged away.",
     ["revuz_minimize.py"], [("heights, registers by height and merging", "revuz_minimize.py")],
     PROD, "For each automaton the verdict covers words of every length.")

prop("C24", "Pruning keeps exactly the states on a path from the initial to a final state",
     "Pruning an automaton removes exactly the states that cannot be reached from the initial state or cannot reach a final state, keeps every transition between the others, and so keeps the language. "
     "The set of vertices reachable from given sources is exact for every graph and every set of sources.",
     ["inputs"], "all automata with <= 3 states over {a} and <= 2 over {a,b}, 3 states over {a,b} and 4 over {a} with every final set, chains up to 200 states; every set of sources",
     "Tests prune one automaton; empty results, several final states and an empty set of sources are not covered.",
     ["prune_incidence_automaton.py", "depth_first_search.py"],
     [("forward and backward reachability", "prune_incidence_automaton.py")],
     PROD, "For each automaton the verdict covers words of every length.")

prop("C25", "Compiling a regular expression preserves its language",
     "For every regular expression (concatenation, alternation, ?, *, +, {m}, {m,}, {,n}, {m,n}, nested with or without parentheses), the NFA and the DFA compiled from it accept "
     "exactly the words it denotes; operators bind from the tightest (repetitions) to the loosest (alternation) and a repetition applies to all that precedes it at its level. The same "
     "holds of each NFA combinator for every NFA with one initial and one final state, and its result again has exactly one of each.",
     ["inputs", "programs"], "all expressions with <= 3 operators out of 15 over 2 symbols, <= 4 operators out of 8 (5 thorough); all NFAs with 2 states over {a,epsilon} as operands; all words",
     "Tests compile about fifteen expressions and try a few words; (a*b)? or (a|b){0,2} were wrong without any test noticing.",
     ["thompson_compile_nfa.py", "regexp.py", "shunting_yard_postfix.py", "nfa.py", "moore_determination.py"],
     [("Thompson combinators", "thompson_compile_nfa.py"), ("operator table and tokenizer", "shunting_yard_postfix.py"), ("compile_dfa", "regexp.py")],
     PROD, "For each expression the verdict covers words of every length; oracle: Antimirov partial derivatives (expressions), a textbook construction (combinators).")

prop("C26", "Brackets, escapes and re_escape denote exactly the documented symbols",
     "A bracket expression denotes exactly the symbols it lists, the symbols of its intervals and classes, or their complement in the given alphabet when it starts with a hat; an escape sequence denotes exactly its "
     "documented symbols, in or out of brackets, and malformed intervals, repetitions or unknown escapes are rejected. The escaped form of any text, once compiled, accepts that text and nothing else.",
     ["inputs"], "bracket contents of <= 5 characters out of 10, all escapes of printable characters in ten contexts, escaped texts of <= 3 (4) characters out of 22, repetition bounds <= 12",
     "Tests parse ten brackets; hyphens at the end, escaped interval ends, and the backslash itself were broken.",
     ["thompson_compile_nfa.py", "shunting_yard_postfix.py"],
     [("parse_bracket / parse_escaped / parse_repetition", "thompson_compile_nfa.py"), ("re_escape and token patterns", "shunting_yard_postfix.py")],
     ENUM, "Exhaustive within the bounds; the language of compiled expressions is compared by complete product exploration.")

prop("C27", "Infix expressions are parsed by precedence and associativity, and computed right",
     "For every table of prefix, postfix and binary operators and every well-formed infix expression, the postfix form and the syntax tree are those that precedence, associativity and parentheses prescribe, and operations receive their operands in order. "
     "An arithmetic expression is tokenized (unary signs and spaces included) and computed to the value of its tree, with the usual precedences, whether given as text or tokens; a tree written back as an expression without prefix operators parses to the same tree.",
     ["inputs", "configurations"], "all trees with <= 4 operators for arithmetic, regular expressions and 48 custom operator tables, written with minimal or full parentheses",
     "Tests compute two expressions; a unary minus after a power, the unary plus, tokenized input and the conversion of trees failed.",
     ["shunting_yard_postfix.py", "tokenize.py"],
     [("shunting_yard_postfix stack rules", "shunting_yard_postfix.py"), ("tokenizer_alg / tokenizer_re", "shunting_yard_postfix.py"), ("RpnDequeOperation, Ast", "shunting_yard_postfix.py")],
     ENUM, "Exhaustive within the bounds; oracle: the tree the text was printed from.")

prop("C28", "A trie holds exactly the words inserted, whatever way they are inserted",
     "After any sequence of insertions of words, digital sequences and other tries, a trie accepts exactly the union of the words inserted, with exactly one state per prefix, and remains a tree whose counts of states and edges are right. "
     "What is inserted is left unchanged and shares nothing with the trie.",
     ["histories", "inputs"], "fusion of all pairs of sets of words of length <= 2 over 2 letters, all sequences of 3 insertions, words of length <= 3 in four forms (4 insertions, sets of 3 words thorough)",
     "Tests insert six words; fusion must hold for every overlap of two tries.",
     ["trie.py", "automaton.py", "parallel_breadth_first_search.py"],
     [("fusion by parallel traversal", "trie.py"), ("insertion of a word", "automaton.py")],
     ENUM, "Exhaustive within the bounds; the whole trie is read and compared.")

prop("C29", "Trie matching counts the prefixes held by none, one or both tries",
     "For every two tries, matching returns the number of distinct prefixes (of the words of either trie) that are words of neither trie, of the first only, of the second only, and of both, in that order. The tries are left unchanged.",
     ["inputs"], "all pairs of sets of words of length <= 2, of sets of <= 3 words of length <= 3, other alphabets, digital sequences",
     "Tests match one pair of word lists.",
     ["trie_matching.py", "parallel_breadth_first_search.py"], [("counters updated once per pair of states", "trie_matching.py")],
     ENUM, "Exhaustive within the bounds; oracle: sets of prefixes.")

prop("C30", "Suffix tries and digital sequences represent exactly the factors of a word",
     "For every word and every bound on the length, the factors enumerated are all its factors, once per occurrence, and its suffix trie accepts exactly these factors with one state each, also when built on top of an existing trie. "
     "A digital sequence behaves in every observer and operation as the read-only linear automaton of its word.",
     ["inputs"], "all words of length <= 11 over 2 letters and <= 7 over 3 letters with every bound; pairs of words of length <= 3",
     "Tests use one word with one bound.",
     ["suffix_trie.py", "digital_sequence.py"], [("slices / factors / make_suffix_trie", "suffix_trie.py"), ("implicit states and transitions", "digital_sequence.py")],
     ENUM, "Exhaustive within the bounds.")

prop("C31", "Edit distances are exact and symmetric",
     "For every two words, the Levenshtein, LCS and Damerau-Levenshtein (restricted, adjacent transpositions) distances are the least number of the allowed edits that turns one word into the other; they are null exactly for equal words and symmetric. "
     "The Levenshtein and LCS distances satisfy the triangle inequality, on which metric trees rely.",
     ["inputs"], "all pairs of words of length <= 7 over 2 letters, <= 5 over 3 letters, permutations of 5 letters, all triples of length <= 4",
     "Tests compare the function with its own naive version on nine words.",
     ["levenshtein_distance.py", "lcs_distance.py", "damerau_levenshtein_distance.py"],
     [("memoized recursion", "levenshtein_distance.py"), ("memoized recursion", "lcs_distance.py"), ("memoized recursion", "damerau_levenshtein_distance.py")],
     ENUM, "Exhaustive within the bounds; oracle: full dynamic programming.")

prop("C32", "Nearest-neighbour search in a metric tree is exact",
     "After any sequence of insertions, a search in a Burkhard-Keller tree returns an element at minimal distance from the query and this distance when it is within the radius (bound included), and nothing otherwise, for every metric. "
     "Each distinct element is stored once, edges carry the distance of their ends, and inserting an element again leads to its vertex.",
     ["histories", "inputs"], "sequences of <= 5 words (7 words) or <= 6 integers (3 metrics), permutations of 7 integers, every query and radius",
     "Tests search one tree for four words; pruning errors show for particular shapes and radii only.",
     ["bk_tree.py"], [("insertion by distance", "bk_tree.py"), ("pruning by the triangle inequality", "bk_tree.py")],
     ENUM, "Exhaustive within the bounds; oracle: minimum over the elements.")

prop("C33", "The DOT export describes exactly the graph, with its styles",
     "For every graph, view, automaton, trie or tree, the DOT text is well formed and lists exactly its vertices and edges (or the requested ones), with the right kind of arcs, each with the attributes given or implied (final and initial states, symbols, labels), and the default styles asked for. "
     "Attributes given by the caller win and the caller's dictionaries are left unchanged. Labels are escaped: each character of the label is kept, special ones are encoded, supported HTML tags are left as they are. The value of any other attribute or style never affects the rest of the text, whatever its characters (double quotes included).",
     ["inputs", "configurations"], "all multigraphs of 2 vertices and <= 3 edges, simple graphs of 3 vertices, 5 classes, 8 sets of options; all automata of 2 states; labels and attribute values of <= 3 pieces out of 21",
     "Tests check that the export does not fail; shared dictionaries leaked labels from one automaton to the next.",
     ["graphviz_impl.py", "graph.py", "automaton.py", "nfa.py", "node_automaton.py", "bk_tree.py", "shunting_yard_postfix.py"],
     [("to_dot / enrich_kwargs / graphviz_escape_html", "graphviz_impl.py"), ("to_dot of automata", "automaton.py"), ("to_dot of NFA", "nfa.py")],
     ENUM, "Exhaustive within the bounds; the text is read by an independent DOT parser. White space and order of statements are left free.")

prop("C34", "A graph written in DOT is read back with the same vertices, edges and attributes",
     "For every graph written by the export, or by hand with one statement per line and vertices first, reading the text gives one vertex per vertex statement (in order), one edge per edge statement between the same vertices (parallel edges and loops included), and each attribute to the vertex or edge it belongs to. "
     "The text may be a string or a stream of lines; attributes may be separated by spaces, commas or semicolons, their values quoted or not; labels (HTML strings) are read back as they were given to the export; attributes without property map are ignored.",
     ["inputs", "configurations"], "multigraphs of 2 vertices and <= 3 edges, simple graphs of 3 vertices, 3 numberings, 4 sets of attributes, 8 layouts, 3 forms; labels and attribute values of <= 3 characters out of 20",
     "Tests read two texts; undirected graphs lost every edge and reading attributes always failed.",
     ["graphviz.py", "graphviz_impl.py"], [("read_graphviz / read_graphviz_dp", "graphviz.py"), ("visitors of the reader", "graphviz.py")],
     ENUM, "Exhaustive within the bounds: round trip through the real writer and through hand-written layouts.")

prop("C35", "A graph with styles exports the same graph and styles to DOT and JSON",
     "For every graph and styles, the DOT export of a GraphDp has the styles given at construction, overridden key by key by those given to the export, and the global default styles elsewhere; the JSON export is valid JSON that holds exactly the vertices, edges and attributes requested, whatever characters the attributes hold. "
     "Exports change neither the styles of the caller nor the global style.",
     ["inputs", "configurations"], "all graphs of 2 vertices and <= 2 edges and of 3 vertices, all subsets; 4^5 combinations of styles on 4 graphs; strings of <= 3 characters out of 13",
     "Tests export one graph without checking the result; quotes made the JSON invalid.",
     ["graph_dp.py", "graphviz_impl.py"], [("GraphDp.to_dot / to_json", "graph_dp.py"), ("GraphvizStyle", "graphviz_impl.py")],
     ENUM, "Exhaustive within the bounds; the texts are read by independent parsers.")

prop("C36", "Property maps, aggregated visitors, singletons, tokenizers keep their contracts",
     "For every history, a property map returns the last value written for a key or its default, writes nothing else, and rejects deletions and (read-only maps) writes. An aggregated visitor notifies each nested visitor of exactly the events it receives alone, with all arguments, in order. "
     "A tokenizer reports pieces that tile the text in order, the matched ones being the matches of the expression; a singleton class has one instance.",
     ["histories", "inputs"], "all histories of <= 4 operations over 2 maps and 2 keys; all lists of <= 3 visitors on all graphs of 3 vertices, 3 algorithms; all strings of <= 6 characters, 14 expressions",
     "Every algorithm of the library relies on these helpers; tests sample each with one value.",
     ["property_map.py", "aggregated_visitor.py", "tokenize.py", "singleton.py"],
     [("property maps", "property_map.py"), ("AggregatedVisitor", "aggregated_visitor.py"), ("tokenize", "tokenize.py"), ("Singleton", "singleton.py")],
     ENUM, "Exhaustive within the bounds; oracles: dictionaries, the visitor alone, the regular expression engine.")

prop("C37", "Closed operators absorb and colour conversions preserve the colour",
     "For every operands, the closed operators return their absorbing element when it is an operand and the exact sum, product, maximum or minimum otherwise. Every HTML colour in range is converted to the Graphviz colour with the same red, green and blue, in range, and the HSV and HSL conversions are inverse of each other.",
     ["inputs"], "triples of 6 values for 4 operators and 4 absorbing elements; 25 hues x 101 saturations x 101 lightnesses (361 hues thorough)",
     "Tests convert two colours; shortest paths rely on the absorbing infinity.",
     ["algebra.py", "color.py"], [("ClosedOperator", "algebra.py"), ("hsl_to_hsv / hsv_to_hsl", "color.py")],
     ENUM, "Exhaustive on the grids; oracle: the colorsys module of the standard library.")

prop("C38", "Rendering passes the whole graph to Graphviz and never hides its failures",
     "Every rendering function passes the exact DOT text, format and engine to Graphviz, returns or writes its whole output unchanged (text or binary), and raises an exception when Graphviz fails, exits early or is missing. With the real Graphviz, the drawing has exactly the vertices, edges and label characters of the graph. "
     "The notebook helpers wrap their content without altering it, whatever the background colour.",
     ["fault_sequences", "configurations", "inputs"], "8 functions x 4 engines x 4 formats x 7 outputs x 5 outcomes of a recording program; labels of <= 2 pieces out of 20 and small graphs with the real Graphviz",
     "Tests render a few graphs; writing an image always failed, and failures of the program are not tested.",
     ["graphviz.py", "ipynb.py", "html.py"], [("run_graphviz / write_graphviz / dot_to_svg", "graphviz.py"), ("background_template_html / display_svg", "ipynb.py")],
     ENUM, "Exhaustive within the bounds; Graphviz is replaced by a recorder with injected failures, and used for real for the drawing.")

prop("C39", "Calls are independent: same answers after, during or despite other calls",
     "Every public function and constructor gives the answer it gives alone in a fresh process, whatever was called before, whatever the caller did with the objects it received, inside any callback (visitor, filter, map, distance, comparison) of another call, and after any call aborted by an exception of its caller. "
     "It leaves the objects given to it as they are, unless it is documented to modify them, and shares nothing between the objects it returns.",
     ["histories", "fault_sequences", "programs"], "histories of 2 operations out of a catalogue of ~70 in 4 worlds, nestings and aborts at the 12 first callbacks in 2 worlds",
     "Tests run each function once or twice on objects of their own: a default argument, cache or set shared between calls passes them.",
     ["nfa.py", "graph_dp.py", "heap.py", "thompson_compile_nfa.py", "graphviz.py", "property_map.py"],
     [("Nfa.__init__", "nfa.py"), ("GraphDp", "graph_dp.py"), ("parse_escaped", "thompson_compile_nfa.py"), ("trie_matching", "trie_matching.py")],
     ENUM, "Exhaustive over the catalogue and histories; oracle: the same call alone in a fresh process.")
