NOTES = ("All checks share one static engine: a rustc_private driver dumps the type-checked MIR of the workspace from /repo's "
         "current tree, and sa/ abstractly interprets it (trace partitioning, modular contracts, structural induction). "
         "Nothing of /repo is executed by a check and no solver is used.")

INDUCT = ("abstract interpretation of MIR: trace partitioning of each operation's operands, recursive calls replaced by contracts "
          "(structural induction)")
NOTE = ("Sound for the modelled Rust subset: every partition of the abstract operand space is compared with the specified meaning; "
        "trusts the MIR dump and the models of std containers. Partitions meeting an unmodelled construct are counted as undecided in "
        "the evidence and raise no alarm.")

NOTE_D = NOTE + " Machine overflow and floating rounding are outside (exact arithmetic)."
NOTE_B = ("Complete for every diagram over the small variable orders used (1-3 variables, 2-3 states; lazily partitioned, every sharing and "
          "skipping pattern), plus fixed outlines of three to four variables, so bounded in the number of variables unless the recursion is verified inductively as well; trusts the MIR dump "
          "and the std models. Partitions meeting an unmodelled construct are counted as undecided and raise no alarm.")

PROPS = [
 dict(id="P01", title="BDD Boolean operations compute exactly the pointwise Boolean function",
  statement="For any two or three diagrams built by one BDD manager, each Boolean operation (not, and, or, xor, imp, nand, nor, xnor, ite) returns a diagram whose value at every assignment of the variables is the operation applied to the operands' values at that assignment, with the undetermined terminal handled as documented for constants. The result respects the manager's variable order.",
  over=["inputs", "histories"], q="all operand diagrams of any size over any variables, all assignments, any earlier operations on the manager",
  why="Tests build a handful of 2-3 variable formulas; they do not reach most combinations of operand level order, shared sub-diagrams, constant operands and remembered results.",
  files=["bddcore/src/bdd_ops.rs", "bddcore/src/bdd.rs"],
  mech=[("apply recursion by case of the two top levels", "bddcore/src/bdd_ops.rs"), ("native if-then-else", "bddcore/src/bdd_ops.rs"), ("operation cache", "common/src/compute_cache.rs")],
  technique=INDUCT, note=NOTE),
 dict(id="P02", title="MDD Boolean operations compute exactly the pointwise Boolean function",
  statement="For Boolean-valued multi-valued diagrams of one manager, each operation (not, and, or, xor, imp, nand, nor, xnor, ite, replace) returns a diagram whose value at every assignment of the multi-state variables is the operation applied to the operands' values there. Undetermined operands yield the documented undetermined result and are never silently turned into true or false.",
  over=["inputs", "histories"], q="all operand diagrams over variables of any number of states, all assignments, any earlier operations",
  why="Tests use a few fixed formulas on two or three variables; the number of operand shapes (relative level, arity, terminals, sharing) is unbounded.",
  files=["mddcore/src/mdd_ops.rs", "mddcore/src/mdd.rs"],
  mech=[("apply recursion by case of the two top levels, per state", "mddcore/src/mdd_ops.rs"), ("operation cache", "common/src/compute_cache.rs")],
  technique=INDUCT, note=NOTE + " Variable arity is instantiated at 2, 3 and 4."),
 dict(id="P03", title="Multi-terminal arithmetic is exact at every assignment",
  statement="For value-carrying multi-terminal diagrams, add, sub, mul, div, rem, min, max and replace return a diagram whose value at every assignment is the arithmetic operation applied to the operand values at that assignment. An undetermined operand, or a division or remainder by zero, yields the undetermined value at exactly those assignments.",
  over=["inputs", "histories"], q="all operand diagrams, all integer terminal values within the machine range, all assignments",
  why="Tests check a few sums and products of small diagrams; wrong simplifications (x-0, 0*x, x/1, x-x) and operand order only show on particular terminal/shape combinations.",
  files=["mddcore/src/mtmdd_ops.rs", "mddcore/src/mtmdd.rs"],
  mech=[("apply recursion", "mddcore/src/mtmdd_ops.rs"), ("unique table of terminal values", "mddcore/src/mtmdd.rs")],
  technique=INDUCT, note=NOTE + " Terminal arithmetic is compared as expressions, on a grid of values for symbolic terminals; machine overflow is outside."),
 dict(id="P04", title="Comparisons and mixed value/Boolean selection are exact at every assignment",
  statement="On the combined value/Boolean manager, equality and ordering comparisons of two value diagrams are true at an assignment exactly when the compared values are in that relation there, and if-then-else with a Boolean condition selects, at every assignment, the branch the condition chooses. Each operation is applied to the sub-forest its operands belong to and returns a node of the documented kind.",
  over=["inputs", "histories"], q="all value and Boolean diagrams, all assignments, all operand-kind combinations",
  why="Tests compare a few small diagrams; comparisons that are only wrong where the operands are partly equal, or for one operand order or kind, are not sampled.",
  files=["mddcore/src/mtmdd2_ops.rs", "mddcore/src/mtmdd2.rs"],
  mech=[("comparison recursion over two value diagrams", "mddcore/src/mtmdd2_ops.rs"), ("dispatch on value/Boolean nodes", "mddcore/src/mtmdd2_ops.rs")],
  technique=INDUCT, note=NOTE),
 dict(id="P05", title="ZDD operations compute exactly the set-family operation",
  statement="For any two zero-suppressed diagrams of one manager, union, intersect, setdiff, product and divide return the diagram of exactly that operation on the two families of sets, with the undetermined terminal treated as documented.",
  over=["inputs", "histories"], q="all families of finite sets over any variables, any earlier operations",
  why="Tests use families of two or three sets; missing or spurious sets appear only for particular combinations of levels, the empty set and sharing.",
  files=["bddcore/src/zdd_ops.rs", "bddcore/src/zdd.rs"],
  mech=[("family-algebra recursion by case of the two top levels", "bddcore/src/zdd_ops.rs"), ("operation memo table", "bddcore/src/zdd_ops.rs")],
  technique=INDUCT, note=NOTE),
 dict(id="P06", title="Zero-suppressed multi-valued set operations are exact",
  statement="For zero-suppressed multi-valued diagrams of one manager, intersect and setdiff return exactly the vectors common to both operands, respectively the vectors of the first that are not in the second, with the terminal label of the first operand kept.",
  over=["inputs", "histories"], q="all families of state vectors over any variables and numbers of states",
  why="Tests exercise these operations only through a few minimal-path examples.",
  files=["mddcore/src/zmdd_ops.rs", "mddcore/src/zmdd.rs"],
  mech=[("recursion by case of the two top levels", "mddcore/src/zmdd_ops.rs")],
  technique=INDUCT, note=NOTE + " Variable arity is instantiated at 2, 3 and 4."),
 dict(id="P07", title="Canonicity: equal functions of one forest are the same node",
  statement="Requesting a node with the same variable and the same children always returns the identical node, a request that the forest's reduction rule makes redundant returns the reduced node, and every returned node reads back the requested variable and children. Hence two diagrams of one forest denote the same function or family exactly when their node ids are equal.",
  over=["inputs", "histories"], q="all variables, children tuples and prior table/node-slot states, for BDD, ZDD, MDD, MTMDD and ZMDD forests",
  why="Tests observe equality of a few formulas; a unique-table key that drops or permutes a component, or a slot reused wrongly, shows only for particular histories.",
  files=["bddcore/src/bdd.rs", "bddcore/src/zdd.rs", "mddcore/src/mdd.rs", "mddcore/src/mtmdd.rs", "mddcore/src/zmdd.rs", "bss/src/zdd_convert.rs", "mss/src/zmdd_convert.rs"],
  mech=[("one header per variable in the family forests", "zdd_convert.rs, zmdd_convert.rs"), ("unique tables", "create_node of each manager"), ("free-slot reuse", "create_node of each manager")],
  technique="abstract interpretation of MIR over an arbitrary unique table and node arena (representation invariant preserved by each creation path)", note=NOTE),
 dict(id="P08", title="Memoisation is transparent",
  statement="The result of any operation does not depend on which earlier results the manager still remembers: finding any entry that any earlier operation stored leaves the returned diagram the same as recomputing it, and clearing the caches changes no later result. An entry is only ever returned for the operation and operands it was stored for.",
  over=["histories"], q="all sequences of earlier operations and all cache contents they can leave",
  why="Key collisions between operations, operand orders or recycled entries need a particular earlier history that tests do not produce.",
  files=["common/src/compute_cache.rs", "bddcore/src/bdd_ops.rs", "bddcore/src/zdd_ops.rs", "mddcore/src/mdd_ops.rs", "mddcore/src/mtmdd_ops.rs", "mddcore/src/mtmdd2_ops.rs", "mddcore/src/zmdd_ops.rs"],
  mech=[("direct-mapped cache with full-key comparison", "common/src/compute_cache.rs"), ("per-operation opcodes in the key", "*_ops.rs")],
  technique="abstract interpretation of MIR: every memo read is paired with every entry form any operation stores, meanings compared; cache representation invariant by induction over put/get/retain/clear", note=NOTE),
 dict(id="P09", title="Garbage collection keeps exactly the reachable diagrams intact",
  statement="A collection leaves every node reachable from the given roots, and every terminal, with the same id, variable and children, still found by the unique tables, and frees the others so that no table, cache entry or free slot refers to a freed node afterwards. Later operations therefore give the same results as if no collection had run.",
  over=["histories", "inputs"], q="all heaps, all root sets, all cache and table contents",
  why="Tests collect once or twice on small heaps; a missed child, an unpurged table or a cache entry naming a freed id needs specific sharing and later slot reuse.",
  files=["bddcore/src/bdd.rs", "bddcore/src/zdd.rs", "mddcore/src/mdd.rs", "mddcore/src/mtmdd.rs", "mddcore/src/mtmdd2.rs", "mddcore/src/zmdd.rs", "common/src/compute_cache.rs"],
  mech=[("mark phase over all children", "gc of each manager"), ("sweep and purge of unique tables and caches", "gc of each manager")],
  technique="abstract interpretation of MIR: mark/sweep loop invariants over an arbitrary heap, purge of every table that stores node ids", note=NOTE),

 dict(id="P10", title="Probability of a diagram is the exact sum over assignments",
  statement="For a BDD handle, and for a Boolean or value MDD handle, prob(pv, ss) is, as a polynomial in the given state probabilities, the sum over all assignments at which the diagram's value is selected by ss of the product of the variables' probabilities. Variables the diagram skips contribute their total probability, undetermined points contribute nothing, and sharing or repeated evaluation does not change the result.",
  over=["inputs", "histories"], q="all diagrams of any size, all probability assignments, all selections of values (as exact arithmetic; floating rounding excluded)",
  why="Tests compute a few numeric examples; a wrong state index, a swapped branch or a mixed-up memo entry only shows for particular diagrams and unequal probabilities.",
  files=["bss/src/bdd_prob.rs", "bss/src/bdd.rs", "mss/src/mdd_prob.rs", "mss/src/mdd.rs"],
  mech=[("memoised expectation recursion", "bss/src/bdd_prob.rs prob"), ("value and Boolean variants", "mss/src/mdd_prob.rs")],
  technique="abstract interpretation of MIR: traversal replaced by its contract (structural induction, arbitrary consistent memo), results compared as polynomials; plus complete unrolling over small variable orders", note=NOTE_D),
 dict(id="P11", title="Importance measures are the differences of conditional probabilities",
  statement="bmeas(pv, ss) gives, for each variable of the diagram, the difference between the probability of the selected values when the variable is in one state and in the preceding state (for a binary variable: true minus false), as a polynomial in the other variables' probabilities; every variable the diagram depends on has an entry with one value per pair of consecutive states.",
  over=["inputs", "histories"], q="all diagrams up to two or three variables (importance propagation), any size for the probability recursion; all probabilities as exact arithmetic",
  why="Tests print or compare one small example; propagation through shared nodes and several paths to the same variable is where errors hide.",
  files=["bss/src/bdd_prob.rs", "mss/src/mdd_prob.rs"],
  mech=[("topological top-down propagation of reach probabilities", "bdd_prob.rs bmeas / mdd_prob.rs vbmeas, bbmeas")],
  technique="abstract interpretation of MIR: complete unrolling over every diagram of a small variable order with the probability recursion replaced by its contract; results compared as polynomials", note=NOTE_B),
 dict(id="P12", title="Counts equal the number of selected assignments or members",
  statement="bdd_count and mdd_count return the number of assignments, over the variables up to the diagram's top variable, whose value is selected; ZDD count (selecting true) and multi-valued family count return the number of members whose terminal is selected. Constants, skipped variables, shared nodes reached at different depths and undetermined points are counted exactly.",
  over=["inputs", "histories"], q="all diagrams over small variable orders (complete), and any depth for the counters whose recursion is a per-node function",
  why="Tests count two fixed diagrams; errors at skipped variables, constants and nodes shared between different depths were present and passed them.",
  files=["bss/src/bdd_count.rs", "bss/src/zdd_count.rs", "mss/src/mdd_count.rs", "mss/src/zmdd.rs"],
  mech=[("level-gap weighting", "bss/src/bdd_count.rs bdd_count"), ("level-by-level descent with (node, level) memo", "mss/src/mdd_count.rs")],
  technique="abstract interpretation of MIR: complete unrolling over every diagram of a small variable order, and one-step structural induction with contracts where the counter is a function of the node", note=NOTE_B),
 dict(id="P13", title="Enumeration yields every selected assignment or member exactly once",
  statement="Iterating an extract handle of a BDD, MDD, ZDD or multi-valued family yields each selected assignment (all variables up to the top one, with their states) or member exactly once and nothing else; len() is the number of items. Family vectors are dense, with unrecorded components at the family's baseline and reversed edges reported as true states. labels() lists the distinct terminal values in ascending order, and extract_level(v) returns exactly the extreme members among the strata on the relevant side of v.",
  over=["inputs"], q="all diagrams over small variable orders (complete), all selections and levels",
  why="Tests print enumerations without comparing them, on two or three diagrams; duplicates, omissions and wrong baselines depend on the order and number of skipped variables and on backtracking.",
  files=["bss/src/bdd_path.rs", "bss/src/zdd_path.rs", "mss/src/mdd_path.rs", "mss/src/zmdd.rs"],
  mech=[("explicit-stack depth-first iterators with backtracking markers", "*_path.rs, ZmddPath"), ("level filter", "ZmddNode::extract_level")],
  technique="abstract interpretation of MIR: the iterator is followed to exhaustion on every diagram of a small variable order, kinds and node identities partitioned lazily", note=NOTE_B),
 dict(id="P14", title="Diagram size counts each shared node once",
  statement="size() of a BDD, ZDD or MDD handle returns the number of distinct non-terminal nodes, of distinct terminals and of edges of the diagram below the handle, each shared node counted once.",
  over=["inputs"], q="all diagrams over small variable orders (complete), including all sharing patterns",
  why="Tests check the numbers of two diagrams; sharing patterns decide whether nodes or edges are counted twice.",
  files=["bss/src/bdd_count.rs", "bss/src/zdd_count.rs", "mss/src/mdd_count.rs"],
  mech=[("visited-set traversal", "node_count / mddnode_count")],
  technique="abstract interpretation of MIR: complete unrolling over every diagram of a small variable order", note=NOTE_B),
 dict(id="P15", title="Minimal paths and minimal cuts of a binary diagram are exact",
  statement="For a BDD whose function is monotone, BssMgr::minpath returns a ZDD listing exactly the minimal variable sets that make the function true, and mincut exactly the minimal sets of variables whose failure makes it false with all others true (the minimal paths of the dual). For a function that is not monotone both return None, and they never return None for a monotone one.",
  over=["inputs", "histories"], q="all fully determined Boolean diagrams of any size over any variables, all sharing patterns and memo contents the traversal can leave",
  why="Tests check minimal sets of three or four fixed structure functions; a missing absorption step, a wrong subtraction order or a memo shared between different nodes gives non-minimal or missing sets only on particular diagrams.",
  files=["bss/src/bdd_minsol.rs", "bss/src/bdd.rs", "bss/src/bdd_dual.rs"],
  mech=[("minimal-solution recursion with subtraction of absorbed sets", "bss/src/bdd_minsol.rs"), ("dual for cuts", "bss/src/bdd_dual.rs"), ("conversion of the result to a ZDD", "bss BddNode::to_zdd path")],
  technique=INDUCT, note=NOTE),
 dict(id="P16", title="Minimal path and cut vectors of a multi-state system are exact",
  statement="For a monotone multi-state structure function, MssMgr::minpath lists, under the label equal to its own value v, exactly the minimal state vectors among those with value v, and mincut exactly the maximal ones; for a Boolean function the vectors that make it true (paths) or false (cuts), plus the baseline vector. A component that is not recorded is at state 0 (paths) or at its top state (cuts, whose edges are stored reversed). A function that is not monotone gives None, a monotone one never does.",
  over=["inputs", "histories"], q="all fully determined multi-state diagrams of any size over variables of any number of states, all sharing patterns and memo contents the traversal can leave",
  why="Tests check a few fixed systems; errors depend on the number of states, on levels skipped by one branch only, and on values reached through several branches.",
  files=["mss/src/mdd_minsol.rs", "mss/src/mdd.rs", "mss/src/zmdd.rs"],
  mech=[("minimal/maximal-solution recursions", "mss/src/mdd_minsol.rs"), ("subtraction of absorbed vectors", "mss/src/mdd_minsol.rs"), ("reversed-edge conversion", "mss/src/mdd.rs")],
  technique=INDUCT, note=NOTE + " Variable arity is instantiated at 2 to 4."),
 dict(id="P17", title="Gates over many operands, k-of-n and dual are exact",
  statement="On the BDD managers, and/or of any list of handles is their conjunction/disjunction (true/false for the empty list) and kofn(k, list) is true exactly where at least k of the listed handles are true (always for k = 0, never for k larger than the list). On the multi-state managers and/or and min/max of a list are the conjunction/disjunction and pointwise minimum/maximum. dual of a BDD is the complement of the function at the complemented assignment.",
  over=["inputs", "histories"], q="all operand functions; operand lists of up to three (thorough: four) handles and every k; dual for diagrams of any size",
  why="Tests build and-or-kofn over distinct variables only; a threshold or fold that is wrong for shared or constant operands, the empty list or an extreme k is not sampled.",
  files=["bss/src/bdd_kofn.rs", "bss/src/bdd_dual.rs", "bss/src/bdd.rs", "bss/src/bss.rs", "mss/src/mdd.rs", "mss/src/mss.rs"],
  mech=[("memoised threshold recursion", "bss/src/bdd_kofn.rs kofn"), ("folds over the operand list", "bdd_kofn.rs, mss/src/mdd.rs"), ("child swap and terminal complement", "bss/src/bdd_dual.rs")],
  technique="abstract interpretation of MIR over arbitrary operand diagrams with the Boolean/arithmetic operations as contracts, results compared pointwise; the dual by structural induction", note=NOTE + " Operand lists are unrolled up to length three (thorough: four)."),
 dict(id="P18", title="Handle operations apply the named operation to their operands in order",
  statement="Each operation method on a BDD, ZDD, MDD or multi-valued family handle returns a handle, of the same manager, on the named operation of the receiver and its arguments in that order (also for non-commutative sub, div, lt, le, gt, ge, ite, setdiff, divide); eq/ne on MDD handles compare pointwise, equality of BDD and ZDD handles is equality of the diagrams, and family handles keep their path/cut reading.",
  over=["inputs", "histories"], q="all operand diagrams and every operand-kind combination with a documented result",
  why="Tests call each method on one or two small examples; swapped operands or a wrong delegate shows only where the operation is not symmetric on the operands used.",
  files=["bss/src/bdd.rs", "bss/src/zdd.rs", "mss/src/mdd.rs", "mss/src/zmdd.rs"],
  mech=[("delegation to the manager's operations and wrapping of the result", "operation methods of BddNode, ZddNode, MddNode, ZmddNode")],
  technique="abstract interpretation of MIR over arbitrary operand diagrams with the manager operations as contracts, results compared pointwise", note=NOTE),
 dict(id="P19", title="Expressions in reverse Polish notation mean what their tokens say",
  statement="rpn(text) of the BDD and MDD managers (and through BssMgr and MssMgr) returns the diagram obtained by evaluating the whitespace-separated tokens left to right on a stack as documented: constants, integer literals and variables are pushed, each operator takes its operands in written order, save(id) remembers the top without popping, load(id) pushes it again, unknown names become new variables in order of first use. It returns Err exactly when load names nothing saved, save or an operator lacks operands, or not exactly one operand is left.",
  over=["inputs", "histories"], q="all token sequences over the token classes up to length 2 (thorough: 3) on top of 0 to 3 operands and followed by joining operators, for any diagrams the tokens denote; two expressions on one manager",
  why="Tests parse a few well-formed formulas; operand order of each operator in context, saving under several ids, malformed inputs and names that look like tokens are not sampled.",
  files=["bss/src/bdd.rs", "bss/src/bss.rs", "mss/src/mdd.rs", "mss/src/mss.rs"],
  mech=[("token loop over an operand stack and a table of saved results", "BddMgr::rpn, MddMgr::rpn"), ("variables declared on first use", "defvar")],
  technique="abstract interpretation of MIR: the token loop is followed over representatives of every token class with the diagram operations as contracts; results compared with a stack-machine specification over diagram terms", note=NOTE + " Token sequences are bounded; one representative (or two) per class of names and literals."),
 dict(id="P20", title="Collections never lose what a live handle, variable or result needs",
  statement="Whatever handles are made, cloned and dropped, and whenever a collection runs (automatically at the end of an operation, or by gc), every diagram that a live handle refers to, every defined variable, and the result of the running operation survive it with everything below them; diagrams that no handle, variable or result needs are given up by the next collection. Automatic collection runs when the live node count reaches the threshold (set_gc_threshold), which is then twice the survivors but never below the value set.",
  over=["histories", "inputs"], q="all histories of a producing operation followed by up to two (thorough: three) clone/drop/operation/gc steps, with a collection due or not at every point where the code asks; every order of dropping",
  why="Tests drop and collect in one fixed pattern with small counts, where automatic collection never fires; a pin missed in one constructor or a collection before the result is pinned frees a node still in use only under a particular history.",
  files=["bss/src/bdd.rs", "bss/src/zdd.rs", "mss/src/mdd.rs", "mss/src/zmdd.rs", "mss/src/mss.rs", "bss/src/bss.rs"],
  mech=[("reference-counted roots pinned by handles", "GcState, from_weak, Clone, Drop"), ("collection after the result is pinned", "wrap, rewrap, maybe_gc"), ("threshold re-arming", "maybe_gc, set_gc_threshold"), ("variables held by the manager", "defvar")],
  technique="typestate-style abstract interpretation of MIR over handle histories: the collector and the operations are contracts, the pin table is tracked exactly, every collection's roots are checked against the live handles", note=NOTE + " Histories are bounded; terms of different operations are taken as different nodes."),
 dict(id="P21", title="Variables, constants and accessors describe the diagram they belong to",
  statement="A variable is defined on first use at the next level and stays the same diagram when named again; it is the function of its own value (0/1, or 0..n-1), or the family {{name}}. get_varorder lists the variables (and state counts) by level. Constants are the named terminals, create_node is the node with the given children, from_sets is exactly the listed family. Level, label, header, children, is_zero/is_one/is_undet, is_boolean/is_value, value and id of a handle are those of the diagram it is on; a family handle knows whether it is a cut family and all variables of its manager.",
  over=["inputs", "histories"], q="all diagrams a handle can be on; all sequences of up to three (thorough: four) variable definitions over as many names; families of up to two (three) listed sets, repeated on one manager",
  why="Tests define variables once in alphabetical order and look at one or two nodes; an accessor that answers for the wrong sub-forest, header table or level is right on those.",
  files=["bss/src/bdd.rs", "bss/src/zdd.rs", "bss/src/bss.rs", "mss/src/mdd.rs", "mss/src/mss.rs", "mss/src/zmdd.rs"],
  mech=[("variable table by name, level = number of variables", "defvar, singleton, get_varorder"), ("accessors through the tagged node", "get_level, get_label, get_children, is_zero, value"), ("families from lists", "ZddMgr::from_sets")],
  technique="abstract interpretation of MIR over an arbitrary root node (accessors) and over definition histories on a symbolic variable table", note=NOTE + " Definition histories are bounded."),
 dict(id="P22", title="Graphviz drawings show exactly the diagram",
  statement="dot() of a BDD, ZDD, MDD or multi-valued family handle returns one closed Graphviz graph with one node statement per node of the diagram below the handle, labelled with its variable, terminal mark or terminal value, and one edge statement per edge, labelled with its state index, between the names of exactly those nodes. Shared nodes are drawn once. Only the terminals that carry no information (undetermined; the empty family of a ZDD) and the edges into them are left out, unless that terminal is the root.",
  over=["inputs"], q="all diagrams over small variable orders (complete), including all sharing patterns and every terminal as root",
  why="Tests print drawings without reading them; a shared node drawn twice, an edge to a visited node dropped or an index that counts drawn edges only shows on particular sharing and terminal patterns.",
  files=["common/src/dot.rs", "bddcore/src/bdd_dot.rs", "bddcore/src/zdd_dot.rs", "mddcore/src/mdd_dot.rs", "mddcore/src/mtmdd_dot.rs", "mddcore/src/mtmdd2_dot.rs", "mddcore/src/zmdd_dot.rs", "bss/src/bdd.rs", "bss/src/zdd.rs", "mss/src/mdd.rs", "mss/src/zmdd.rs"],
  mech=[("depth-first rendering with a visited set", "dot_impl of each manager"), ("frame of the graph and buffering", "common/src/dot.rs dot, dot_string"), ("dispatch on value/Boolean nodes", "mddcore/src/mtmdd2_dot.rs")],
  technique="abstract interpretation of MIR: the rendering is followed on every diagram of a small variable order, the emitted text (with symbolic names) is parsed back into a graph and compared with the diagram", note=NOTE_B),
 dict(id="P23", title="Manager upkeep does what it names and nothing else",
  statement="clear_cache of any manager forgets every remembered operation result of it and of the managers it owns and changes no node, variable, unique-table entry or free slot; live_node_count is the number of node slots in use (allocated minus freed, over both sub-forests for MDDs); size reports the variables and allocated slots. On the system managers gc, set_gc_threshold, live_node_count and size are those of their diagram manager, and bdd()/zdd(), mdd()/zmdd() hand out the managers their operations use.",
  over=["histories"], q="all states of the node, variable, unique and result tables",
  why="Tests clear caches and read counts in one or two fixed situations; a table cleared too many or too few, or a count that ignores freed slots or one sub-forest, gives right answers there.",
  files=["bddcore/src/bdd.rs", "bddcore/src/zdd.rs", "mddcore/src/mdd.rs", "mddcore/src/mtmdd.rs", "mddcore/src/mtmdd2.rs", "mddcore/src/zmdd.rs", "bss/src/bdd.rs", "bss/src/zdd.rs", "bss/src/bss.rs", "mss/src/mdd.rs", "mss/src/zmdd.rs", "mss/src/mss.rs"],
  mech=[("clearing of each result table", "clear_cache of each manager"), ("free-list accounting", "live_node_count of each manager"), ("delegation", "BssMgr, MssMgr")],
  technique="effect analysis by abstract interpretation of MIR over arbitrary table contents: the tables written or cleared and the counts returned are compared with the specification", note=NOTE),
 dict(id="P24", title="Probabilities and importances are accurate in floating point",
  statement="The floating-point results of prob and bmeas differ from the exact values by no more than the rounding of a backward-stable summation over the diagram, for all probabilities, including values close to 0 or 1 and very deep diagrams.",
  over=["inputs"], q="all diagrams and all floating-point probabilities",
  why="Tests compare a few numbers to a tolerance.",
  files=["bss/src/bdd_prob.rs", "mss/src/mdd_prob.rs"],
  mech=[("floating-point evaluation of the expectation recursion", "bdd_prob.rs, mdd_prob.rs")],
  na="the error depends on run-time magnitudes and on unbounded depth; a sound static error bound over arbitrary diagrams is out of reach here, and P10/P11 decide the formula in exact arithmetic instead"),
 dict(id="P25", title="Operations stay within the documented cost and memory",
  statement="Memoised operations take time proportional to the product of the operand sizes, traversals take time linear in the diagram, and the node store stays proportional to the live diagrams under long histories of building and dropping.",
  over=["inputs", "histories"], q="all diagrams and all histories",
  why="Tests are small; cost blow-ups show only on large diagrams.",
  files=["bddcore/src/bdd_ops.rs", "common/src/compute_cache.rs", "bss/src/bdd.rs", "mss/src/mdd.rs"],
  mech=[("operation cache and per-traversal memos", "*_ops.rs, *_count.rs, *_prob.rs"), ("threshold re-arming", "maybe_gc")],
  na="amortised run-time cost with a lossy cache is a quantity over executions, not decidable from the source by the analyses used; P08 decides that memoisation is transparent and P20 when collections run"),
 dict(id="P26", title="Valid use never panics, overflows or runs out of stack",
  statement="With handles of one manager and documented arguments no operation panics, overflows an integer or exhausts the stack, for diagrams of any size.",
  over=["inputs"], q="all diagrams of any depth and all argument values",
  why="Tests do not reach deep diagrams or extreme counts.",
  files=["bddcore/src/bdd_ops.rs", "bss/src/bdd_count.rs", "mss/src/mdd_count.rs"],
  mech=[("recursion over levels", "all apply and traversal functions"), ("integer counts", "bdd_count, mdd_count, size")],
  na="recursion depth and counts grow with the number of variables without any bound in the source, so the statement is false beyond machine limits and its true range is a run-time quantity; panics on the analysed partitions are reported by the property of the operation concerned"),
]
