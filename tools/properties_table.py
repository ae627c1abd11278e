P('S01', 'The answer is SAT exactly when the clauses are satisfiable',
  '''Solving to completion terminates with the answer SAT if some assignment satisfies every clause that was added, and with UNSAT otherwise.
  This holds for every backtracking strategy (non-chronological, chronological, lazy strong chronological, graph backtracking and its variants) and every setting of the heuristic options.''',
  ['inputs', 'configurations'], 'every finite clause set (empty and unit clauses, tautologies and repeated literals included), every strategy, every heuristic option value',
  NOSOLVER + 'Soundness quantifies over all formulas and the whole product of strategies and heuristics; wrong answers show on rare interactions of conflict repair, clause deletion and restarts.',
  SOL + ['src/solver/NapSAT-purge.cpp', 'src/solver/SAT-options.cpp', 'include/SAT-API.hpp'],
  [('propagation of watched literals', 'NapSAT-propagation.cpp: propagate_lit'), ('conflict repair and clause learning', 'NapSAT-conflict.cpp: repair_conflicts'), ('backtracking by level or by set of decisions', 'NapSAT-backtrack.cpp'), ('clause deletion', 'NapSAT-purge.cpp')],
  observe=['napsat::solve', 'napsat::get_status'],
  note='Random search against an independent DPLL / truth table: generated formulas from ten families up to about 100 variables under every strategy; release and assertion builds. Absence of violations is evidence, not proof.')
P('S02', 'A SAT answer comes with a model of every clause',
  '''After a SAT answer every variable that occurs in a clause has a value, the values satisfy every clause that was ever added, and the assignment listed by the solver names each assigned variable exactly once with that value.
  The queries for one variable, for the whole assignment and for which literals were decisions agree with one another.''',
  ['inputs', 'histories', 'configurations'], 'every satisfiable clause set or history of additions, every strategy and option, variables declared or appearing later',
  NOSOLVER + 'A wrong model can come from one missed watch after backtracking or from a variable that appears late; no fixed set of formulas covers those states.',
  SOL + ['include/SAT-API.hpp', 'src/SAT-API.cpp'],
  [('the search stops only when every constrained variable is assigned', 'NapSAT.cpp: solve/propagate'), ('variable values and trail', 'NapSAT-utils.cpp, SAT-API.cpp')],
  observe=['napsat::get_variable_value', 'napsat::partial_assignment', 'napsat::is_decided'],
  note='Each SAT answer of generated formulas and histories is checked clause by clause and query by query. Random search; no completeness claim.')
P('S03', 'Incremental answers are those of the clauses accumulated so far',
  '''Clauses and variables may be added at any point between solves, by whichever way of adding; every later answer is the answer for the conjunction of all clauses added so far.
  Once the answer is UNSAT it stays UNSAT; an answer is never kept after clauses made it stale.''',
  ['histories', 'configurations'], 'every sequence of additions (at once or literal by literal), variable declarations, complete and limited solves, propagations, decisions by the caller and synchronisations',
  NOSOLVER + 'The solver keeps its whole search state between calls; each addition has to be repaired into that state, so the property is about all reachable states, not about formulas.',
  SOL, [('adding a clause in any search state', 'NapSAT-clauses.cpp: add_clause, internal_add_clause'), ('implying an already true literal at a lower level', 'NapSAT-imply.cpp: reimply_literal, reimply_literal_root'), ('repair of several conflicts at once', 'NapSAT-conflict.cpp')],
  observe=['napsat::add_clause', 'napsat::push_literal', 'napsat::solve', 'napsat::solve_limited'],
  note='Model-based histories: a reference decides the accumulated clauses after every answer. Histories of up to about 60 operations over at most 40 variables.')
P('S04', 'Enumeration with blocking clauses yields each solution exactly once',
  '''Repeatedly solving and adding a clause that excludes the solution just found visits every solution exactly once and then answers UNSAT.
  This holds when the blocking clause is made from the whole model, from the decisions only, or from the values of a chosen subset of the variables (then each projected solution is visited exactly once).''',
  ['inputs', 'histories', 'configurations'], 'every formula with few enough models to enumerate, every blocking method, every strategy',
  NOSOLVER + 'It needs long histories in which every addition falsifies the current assignment; a lost or repeated model depends on the exact state left by all earlier ones.',
  SOL + ['src/main.cpp'], [('adding a clause falsified by the current assignment', 'NapSAT-clauses.cpp: add_clause'), ('the all-models loop of the command line', 'main.cpp')],
  observe=['napsat::solve', 'napsat::get_variable_value', 'napsat::get_decisions'],
  note='Exhaustive truth table over at most 9 variables as the oracle for each generated formula and blocking method.')
P('S05', 'Resource limits stop the search cleanly and resumably',
  '''A solve that is limited in conflicts or time either gives a correct SAT or UNSAT answer or stops with UNKNOWN; it never answers wrongly because it was stopped, and it does stop.
  After a stop the instance can be extended, resumed or solved without limit, with the same answers as if it had never been stopped.''',
  ['histories', 'configurations'], 'every conflict limit and timeout, every point at which the limit strikes, every continuation',
  NOSOLVER + 'The limit can strike in any search state; what matters is that the state left behind is consistent for every possible continuation.',
  SOL, [('conflict limit of one call and of the options', 'NapSAT.cpp: solve_limited, solve'), ('timeout', 'NapSAT.cpp: solve')],
  observe=['napsat::solve_limited', 'options --conflict-limit, --timeout'],
  note='Histories with limits 0..6, resumption until an answer, limited work on pigeonhole formulas counted in learned clauses. Timeouts are only checked to stop within a generous bound.')
P('S06', 'The answer does not depend on how the formula is presented',
  '''Two presentations of the same formula get the same answer: renamed or negated variables, permuted clauses and literals, repeated clauses or literals, added tautologies or subsumed clauses, another way of adding the clauses, another number of declared variables, another strategy.''',
  ['inputs', 'configurations'], 'every formula and every combination of the listed meaning-preserving changes',
  NOSOLVER + 'A metamorphic relation over pairs of presentations: repeated literals, tautologies and order reach clean-up code that a canonical input never reaches.',
  SOL, [('removal of repeated literals and tautologies', 'NapSAT-clauses.cpp: internal_add_clause'), ('variable allocation', 'NapSAT-utils.cpp')], observe=['napsat::solve'],
  note='Generated pairs of presentations, both also compared with the reference answer.')
P('S07', 'Propagation reaches closure and derives only what follows',
  '''When propagation ends without a conflict, no clause is falsified and no clause forces an unassigned literal, whatever was assigned, retracted or added before.
  Every literal that is assigned but was not decided follows from the clauses together with the literals that are decided at that moment.''',
  ['histories', 'configurations'], 'every history of propagations, decisions by the caller, conflicts and added clauses, every strategy',
  NOSOLVER + 'A missed unit clause leaves answers right but the promise to the caller broken; it arises only after particular orders of partial retraction and re-propagation.',
  SOL, [('watch invariants and replay after partial retraction', 'NapSAT-propagation.cpp, NapSAT-backtrack.cpp: backtrack'), ('missed lower implications', 'NapSAT-imply.cpp')], observe=['napsat::propagate', 'napsat::partial_assignment'],
  note='After each propagation of a generated history every clause is evaluated, and implied literals are checked with the reference procedure from the reported decisions.')
P('S08', 'A search driven decision by decision by the caller is sound and complete',
  '''A caller that alternates propagation with decisions of its own on unassigned literals, in any order and polarity, reaches an answer after finitely many decisions, and the answer is the correct one.
  Only literals the caller decided are reported as decisions, and a decided literal is true until it is undone.''',
  ['histories', 'schedules', 'configurations'], 'every decision order and polarity the caller may choose, with clauses added during the search or after an answer',
  NOSOLVER + 'Quantifies over all decision schedules of an external caller.',
  SOL, [('decisions', 'NapSAT.cpp: decide'), ('step-wise propagation', 'NapSAT.cpp: propagate')], observe=['napsat::propagate', 'napsat::decide', 'napsat::is_decided'],
  note='Generated decision orders with random deviations; answer compared with the reference; the termination bound is 200 000 steps for at most 24 variables.')
P('S09', 'Root-level facts are consequences of the clauses and are never withdrawn',
  '''A variable reported as assigned at root level has that value in every model of the clauses added so far, and stays reported with that value for ever.
  Without decisions, propagation reports every fact that unit propagation derives.''',
  ['histories', 'configurations'], 'every history, every point in it, every strategy',
  NOSOLVER + 'A wrong fact is silent until a formula depends on it; it comes from learned units or from raising literals to root level in the middle of the search.',
  SOL, [('units learned or added at any level become root facts', 'NapSAT-imply.cpp: reimply_literal_root'), ('level of an implied literal', 'NapSAT-imply.cpp: imply_literal')], observe=['napsat::is_root_level', 'napsat::partial_assignment'],
  note='Truth table of the accumulated clauses (at most 14 variables) after every operation of a generated history.')
P('S10', 'Runs are repeatable and solver instances do not influence each other',
  '''The same sequence of calls on a new instance gives the same answers, assignments, decisions and facts every time.
  Using other instances before, after or in between, with any strategies, changes nothing.''',
  ['histories', 'schedules', 'configurations'], 'every pair of histories and every interleaving of their operations in one process',
  NOSOLVER + 'Quantifies over interleavings of two instances; shared or uninitialised state shows only when instances with different shapes alternate.',
  SOL, [('per-instance state', 'NapSAT.hpp'), ('buffers shared by all instances', 'NapSAT-conflict.cpp, NapSAT-backtrack.cpp: static variables')], observe=['all queries after every operation'],
  note='Each history is run alone, again, and interleaved with another; transcripts must be identical. One thread only: the library does not claim thread safety.')
P('S11', 'Large instances are handled within the same guarantees',
  '''Formulas with tens of thousands of variables or clauses, clauses of thousands of literals, implication chains of any length and thousands of simultaneous decisions are answered correctly, with models, and without exhausting fixed-size resources.''',
  ['inputs', 'configurations'], 'every size up to tens of thousands of variables, thousands of decisions or literals per clause',
  NOSOLVER + 'Growth of buffers, sets and lists beyond their initial capacity is reached only by large inputs.',
  SOL + ['src/utils/bitset.cpp', 'src/utils/heap.cpp'], [('growth of decision sets', 'NapSAT-utils.cpp: allocate_chunks'), ('growth of clause and literal storage', 'NapSAT-clauses.cpp'), ('bounded recursion', 'NapSAT-conflict.cpp')], observe=['napsat::solve', 'napsat::get_variable_value'],
  note='Families with a known answer; models are checked. A few hundred large cases per run.')
P('S12', 'Ignoring unused variables changes neither answers nor models',
  '''With the option that ignores unused variables, answers are the same as without it, variables that occur in no clause are left unassigned unless the caller decides them, and a variable is taken into account as soon as a clause mentions it, also after an answer.''',
  ['histories', 'configurations'], 'every history under that option, with any mix of used, unused and later used variables',
  NOSOLVER + 'Depends on when a variable first becomes constrained relative to declarations, answers and retractions.',
  SOL, [('which variables may be decided', 'NapSAT-utils.cpp, NapSAT-backtrack.cpp: var_unassign'), ('when all variables count as assigned', 'NapSAT.cpp: propagate')], observe=['napsat::solve', 'napsat::get_variable_value'],
  note='Histories under the option; the reference decides the clauses; unmentioned variables must be free.')
P('S13', 'User costs, synchronisation and suggestions only guide the search',
  '''Whatever cost function the caller gives to graph backtracking, whenever the caller marks the assignment as seen, and whatever polarities are suggested, answers and models stay correct.''',
  ['histories', 'configurations'], 'every cost function (zero, equal, fractional, huge), every synchronisation point, every suggestion, in any history',
  NOSOLVER + 'Costs select which decisions are undone, so they reach combinations of retracted decisions that the default never picks.',
  SOL, [('choice among the sets of decisions that repair the conflicts', 'NapSAT-conflict.cpp: graph_repair, compute_backtrack_possibilities'), ('synchronisation', 'NapSAT-utils.cpp')], observe=['napsat::set_literal_cost_function', 'napsat::synchronize', 'napsat::suggest_polarity'],
  note='Histories with generated cost functions and synchronisations; reference answers.')
P('S14', 'No legal use makes the solver corrupt memory or violate its own invariants',
  '''No sequence of documented operations, under any strategy and option, makes the solver access memory out of bounds or after release, execute undefined behaviour, or violate one of the invariants that it checks itself when built with its checks on.''',
  ['histories', 'configurations'], 'every legal history with every strategy, proofs, statistics and observers on or off',
  NOSOLVER + 'Memory errors and broken invariants depend on buffer sizes, positions and clause deletions reached only in particular states.',
  SOL + ['src/solver/NapSAT-checker.cpp', 'src/solver/NapSAT-purge.cpp'], [('self-checks', 'NapSAT-checker.cpp'), ('buffers and clause storage', 'NapSAT-clauses.cpp, NapSAT-purge.cpp')], observe=['sanitizer reports and assertions in the instrumented builds'],
  note='The same histories on an address/undefined-behaviour sanitizer build and on the build with all internal assertions.')

UT = 'The tests check a few hand-written sequences; '
P('U01', 'Bitsets behave as sets of indices',
  '''A bitset of a given capacity behaves as the set of the indices that were set: membership, count, emptiness, iteration in increasing order, equality, (proper) inclusion, intersection and difference tests, the four set operations in both forms (a bitset may be combined with itself), copying, clearing and growing.
  Two bitsets of the same capacity holding the same indices are equal however they were built, and the printed form lists the elements (the first thousand, then how many are left).''',
  ['inputs', 'histories'], 'every sequence of operations with indices below the capacity and binary operations between equal capacities',
  UT + 'the representation drops empty words and switches metadata words at multiples of 64 and 4032, so correctness depends on the history and on where the elements fall.',
  ['src/utils/bitset.cpp', 'src/utils/bitset.hpp'], [('sparse two-level representation', 'bitset.cpp: set, combine, update, subset_check, iterator::next')], observe=['bitset operations'],
  note='Random operation sequences over four bitsets against std::set; release, assertion and sanitizer builds.')
P('U02', 'The variable heap always yields a key of greatest activity',
  '''After any sequence of insertions, removals, updates, increases and rescalings, the top of the heap is a key of the greatest activity among those it contains, and popping removes exactly that key.
  Size, emptiness and membership agree with the keys inserted and not removed; draining yields every key once in non-increasing order of activity.''',
  ['histories'], 'every sequence of legal operations with non-negative activities, equal activities included',
  'No test covers the heap; its order can break only for particular shapes reached by removing or updating inner keys.',
  ['src/utils/heap.cpp', 'src/utils/heap.hpp'], [('sift up and down', 'heap.cpp: heapify_up, heapify_down, remove')], observe=['heap operations'],
  note='Random operation sequences against a map.')
P('U03', 'The best-fit tree is an ordered set that stays balanced',
  '''The AVL tree holds the set of (key, data) pairs inserted and not removed; insert and remove report whether they changed it; the best-fit query returns data of the smallest key that is at least the one asked, or nothing.
  The tree stays ordered and balanced after every operation.''',
  ['histories'], 'every sequence of insertions, removals and queries, duplicate keys included',
  UT + 'deletion with rebalancing has a case for each tree shape, which only long mixed histories reach.',
  ['src/utils/partition.cpp', 'src/utils/partition.hpp'], [('iterative insertion and removal with rotations', 'partition.cpp')], observe=['AVLTree::insert, remove, find_best_fit, is_balanced, is_bst'],
  note='Random operation sequences against std::set of pairs.')
P('U04', 'The restart counter follows its sequence for ever and from any reset',
  '''The counter signals a restart after 1, 1, 2 steps, then after 1, 1, 2, 4 steps, then 1, 1, 2, 4, 8, and so on; after a reset the sequence starts again from its beginning.''',
  ['histories'], 'every number of steps and every placement of resets',
  'The test looks at eleven terms and never resets.', ['src/utils/luby-counter.hpp'], [('next gap', 'luby-counter.hpp: increment, reset')], observe=['luby_counter::increment'],
  note='Hundreds of thousands of steps with resets against the blocks written out.')
P('U05', 'Numbers are printed so that they can be read back',
  '''A non-negative integer is printed with its own digits in groups of three; a fixed-point number is printed with the requested number of digits and truncated to them; a duration in hours, minutes, seconds and milliseconds adds up to the duration; padding aligns every number of a column on the widest one.
  The visible length of a text ignores its colour escapes.''',
  ['inputs'], 'every non-negative value, every column width, every text with escape sequences',
  'The tests of the printer are not part of the build and use a few values; groups with zeros and powers of ten are where printing goes wrong.',
  ['src/utils/printer.cpp', 'src/utils/printer.hpp'], [('number formatting', 'printer.cpp: pretty_integer, pretty_float, pretty_time, pad, string_length_escaped')], observe=['printer functions'],
  note='Round trip of generated values of every magnitude.')
P('U06', 'Justified text keeps its words and its width',
  '''Laying out a text at a width keeps every word in order, keeps the explicit line breaks, starts every line with the prefix, and never makes a line wider than the width unless a single word does not fit.''',
  ['inputs'], 'every text, every width larger than the prefix', 'No test covers it; the layout depends on word lengths, punctuation and breaks together.',
  ['src/utils/printer.cpp'], [('line filling', 'printer.cpp: justify_string')], observe=['justify_string'], note='Generated texts, widths and prefixes; relation between text and layout.')
P('U07', 'Recorded premises are exactly the input clauses a clause was derived from',
  '''The dependency tracker answers, for every clause in use, with the set of input clauses it was derived from: itself for an input clause, the union over the tracked clauses for a learned clause, enlarged by linked clauses; cancelled derivations leave no trace and the id of a deleted clause can be used again.''',
  ['histories'], 'every legal sequence of additions, derivations, links, cancellations and deletions', 'No test covers it; premises are wrong only after particular reuse of ids and unfinished derivations.',
  ['src/proof/dependency_tracker.cpp', 'src/proof/dependency_tracker.hpp'], [('sets of premises', 'dependency_tracker.cpp')], observe=['dependency_tracker::get_dependencies'], note='Random histories against a model of sets.')
P('U08', 'The exported implication graph mirrors the assignment',
  '''Exporting an assignment leaves in the folder exactly one file per assigned literal, holding the given text with the vault name filled in and listing exactly the literals whose reason contains the literal; files of an earlier export are gone and the template is in place.''',
  ['inputs', 'histories'], 'every assignment with acyclic reasons, new or reused folders', 'No test covers it.',
  ['src/exporter/implication_graph_exporter.cpp'], [('one file per literal', 'implication_graph_exporter.cpp')], observe=['files of the folder'], note='Generated graphs exported into a private folder and read back.')

DT = 'No test reads a file. '
DF = ['src/solver/NapSAT-utils.cpp', 'src/utils/decoder.cpp', 'src/SAT-API.cpp']
P('D01', 'A DIMACS file means the clauses written in it',
  '''Loading a well-formed DIMACS file adds exactly the clauses it contains, over at least the variables it declares, however the file is laid out: clauses over several lines or several on one line, comments and blank lines anywhere, a missing or wrong header, a missing last 0, a closing % section.
  Comments that name variables or weigh them change no answer.''',
  ['inputs', 'configurations'], 'every list of clauses and every layout of it', DT + 'A parser is wrong on combinations of layout that a fixed file does not contain.',
  DF, [('reading of clauses, comments and header', 'NapSAT-utils.cpp: parse_dimacs')], observe=['napsat::parse_dimacs', 'napsat::solve'],
  note='Rendered formulas, read by the solver and by an independent reader; also probed with unit clauses added afterwards.')
P('D02', 'Compressed and multiple files mean the same as their text',
  '''Loading several files gives the conjunction of their clauses; a file compressed with xz or bzip2, in one or several concatenated streams, means the same as its text, whatever its length.
  A truncated compressed file is rejected, and a damaged one is never accepted with another meaning.''',
  ['inputs', 'fault_sequences'], 'every text, compression, division into streams, number of files, truncation point and flipped bit', DT + 'Streams and buffers end anywhere relative to one another.',
  DF, [('decompression', 'decoder.cpp')], observe=['napsat::parse_dimacs', 'napsat::solve'],
  note='Generated texts, compressed here with liblzma and libbz2; faults injected by truncation and bit flips.')
P('D03', 'Malformed input files are rejected without harm',
  '''For any bytes, reading a file terminates without memory errors and either rejects the file or reads it as the formula an independent reader finds in it.
  Text that is not DIMACS, numbers out of range, folders, missing files and plain text with a compression suffix are rejected.''',
  ['inputs'], 'every byte string, every file name', DT + 'The property is about all inputs, mostly ones nobody would write by hand.',
  DF, [('validation of tokens and header', 'NapSAT-utils.cpp: parse_dimacs')], observe=['napsat::parse_dimacs'],
  note='Mutated and random files on a release build and on an address/undefined-behaviour sanitizer build.')

P('P01', 'Every UNSAT answer comes with a correct resolution proof when one is asked for',
  '''With proof building on, whenever the answer becomes UNSAT the recorded proof derives the empty clause: every leaf is a clause that was added, every other line is the resolvent of two earlier lines, and the last one is empty.
  The proof checker of the solver accepts it, before and after printing, and proofs change no answer.''',
  ['histories', 'configurations'], 'every unsatisfiable history of additions and solves, every strategy, every option that deletes or shrinks clauses',
  NOSOLVER + 'The proof must be kept in step with every learned, lazily justified, shrunk and deleted clause; a missing link appears only on the derivations that happen to need it.',
  ['src/proof/proof.cpp', 'src/solver/NapSAT-conflict.cpp', 'src/solver/NapSAT-purge.cpp', 'src/solver/NapSAT-clauses.cpp', 'src/solver/NapSAT-imply.cpp'],
  [('chains recorded during conflict analysis', 'NapSAT-conflict.cpp'), ('clauses that lose literals or are deleted', 'NapSAT-purge.cpp, proof.cpp: remove_root_literals, deactivate_clause'), ('derivation of the empty clause', 'NapSAT-conflict.cpp: repair_conflicts; NapSAT-clauses.cpp')],
  observe=['napsat::check_proof', 'napsat::print_proof', 'option --build-proof'],
  note='Histories that end UNSAT; the printed proof is parsed and each line verified by an independent checker against the clauses added, and check_proof has to agree.')
P('P02', 'The proof checker accepts exactly the correct derivations',
  '''A derivation recorded in the proof object is accepted if every clause that the empty clause depends on is exactly what its chain of resolutions yields, and rejected otherwise; what is accepted prints as a valid line-by-line proof.
  Reusing the name of a deactivated clause, removing root literals or checking twice makes no difference.''',
  ['inputs', 'histories'], 'every sequence of input clauses, resolution chains (right or wrong), deactivations, root literals and their removal',
  'No test covers the proof object. Whether wrong derivations are noticed cannot be seen from the proofs of a correct solver; it takes derivations with arbitrary errors.',
  ['src/proof/proof.cpp', 'src/proof/proof.hpp'], [('application of a chain', 'proof.cpp: check_proof'), ('names of clauses', 'proof.cpp: deactivate_clause, finalize_resolution'), ('printing', 'proof.cpp: print_proof')], observe=['resolution_proof::check_proof, print_proof'],
  note='Random derivations over at most six variables with injected errors, against a set-based reference of resolution.')
