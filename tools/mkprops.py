#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json
I='src/include/pdaaal/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith('src/') else I+f for f in files],
                   mechanism=[dict(name=n,where=(w if w.startswith('src/') else I+w)) for n,w in mech],
                   observe_at=[observe],hook_needed=None)))

p('W01','Weights form a totally ordered commutative monoid with absorbing extremes',
 "For every built-in integer weight type, minimising or maximising, comparing weights is a strict total order in which the declared maximum is the greatest and the declared bottom the least element. Adding weights is commutative and, for operands whose exact sum is representable and not an extreme value, equals the exact sum, so that it is associative, has zero as neutral element and is monotone in the order. Adding the maximum to anything gives the maximum and adding the bottom to anything but the maximum gives the bottom (where bottom is not the plain zero).",
 ['inputs'],'all operand values of all signed and unsigned integer weight types, both optimisation directions',
 'the extremes and the direction flips are special-cased per type; tests sample a few small positive values',
 ['Weight.h'],[('scalar less/add/bottom/max/zero','Weight.h: details::weight_impl<W,maximize>')],'result of less/add/bottom/max/zero')
p('W02','Composite weights compare lexicographically and combine elementwise',
 "Array and vector weights are added element by element and compared by the first position where they differ, in the order of the element type; a vector that is shorter than another is treated as if it were continued with zeros, both when adding and when comparing (vectors of unsigned minimised weights that are equal after that padding may additionally be ordered by length). A linear weight function returns exactly the sum of coefficient times component value in the declared weight type, and an ordered weight function returns the list of its component values in order.",
 ['inputs'],'all vectors and arrays of all lengths, including pairs of different length; all function trees and arguments',
 'lengths, first-difference position and value are unbounded; tests use a handful of equal-length vectors',
 ['Weight.h'],[('array/vector less and add','Weight.h: details::weight_impl<std::array>, <std::vector>'),('linear_weight_function, ordered_weight_function','Weight.h')],'result of less/add and of calling a weight function')
p('C01','Sorted-vector sets and maps behave as mathematical sets and maps',
 "After any sequence of operations, a vector-backed set (map) contains exactly the keys inserted and not since removed by clearing or truncating, each once and in increasing key order, and a map associates with each key the value first emplaced or last assigned. Membership, lookup and lower-bound queries agree with that content, and an insertion reports that it was new exactly when the key was absent and yields the position of the key's element. Building one from a hash container yields the same content.",
 ['histories','inputs'],'all operation sequences over all keys and values',
 'sortedness is an invariant over unbounded histories, relied on silently by binary searches all over the code base',
 ['utils/vector_set.h'],[('vector_map / vector_set emplace, insert_or_assign, find, contains, lower_bound, resize, clear','utils/vector_set.h')],'container content through its public iteration, lookups and return values')
p('C02','Tuple sets give the same relation whichever containers back them',
 "A nested tuple set behaves as one relation (a map when the last component is a value): inserting a tuple makes exactly that tuple present, re-inserting an existing key leaves the stored value unchanged and reports it was not new, assigning overwrites only that key, and lookups return the stored value exactly for keys that are present. This holds identically for every combination of hash- and vector-backed levels, and converting between them preserves the content.",
 ['histories','inputs'],'all insert/assign/lookup histories for all backing combinations',
 'four backing combinations times arbitrary histories; wrong level nesting only shows for particular key patterns',
 ['utils/fut_set.h','utils/vector_set.h'],[('fut_set recursive and base cases','utils/fut_set.h: detail::fut_set')],'iteration, get, find, contains and return values')
p('L01','Label sets compute exact set algebra with a wildcard',
 "A label set denotes either every label of the alphabet (wildcard) or an explicit sorted duplicate-free set. Merging yields the union, restricting to a set of labels yields the intersection and reports whether it is non-empty, filtering to the useful labels yields the intersection and reports whether the representation changed, and membership answers according to the denoted set; clearing yields the empty set.",
 ['inputs'],'all label sets, wildcards and alphabet sizes',
 'the merge-style loops have boundary cases per relative position of two unbounded sorted sequences',
 ['internal/PDA.h','internal/PDA.cpp'],[('labels_t::merge / intersect / noop_pre_filter / contains','internal/PDA.cpp, internal/PDA.h')],'wildcard flag, stored labels, membership and return values')
p('R01','The rule store keeps exactly the rules that were added',
 "A pushdown system contains after any sequence of additions exactly the rules added: for each source state one entry per distinct (target, operation, operation label, weight), whose label set is the union of the labels (or wildcard) it was added with, and every state that occurs in a rule exists. Each state's list of predecessor states contains every state that has a rule into it; clearing a state removes exactly the rules that leave or enter it and nothing else. Rules added over the user's labels (given in any order, whatever order the labels were inserted in) are exactly the rules listed back.",
 ['histories','inputs'],'all sequences of rule additions and state clearings, weighted and unweighted',
 'interplay of merging, ordering by target and back links is a history property',
 ['internal/PDA.h','utils/fut_set.h','utils/vector_set.h'],[('add_untyped_rule_impl, add_rule, add_wildcard_rule, clear_state, add_state','internal/PDA.h: PDA'),('rule ordering and equality','internal/PDA.h: pda_rule_t')],'states, rules, label sets and predecessor lists read back')
p('D01','Reducing a pushdown system preserves every run to the target state',
 "Reduction at any strength never adds behaviour (every remaining rule and label was there before) and never removes a rule application that some run from the start configuration that reaches the target state for the first time at its end uses, where the start state only has push rules and starts on a stack bottom no other rule reads. Hence the target is reachable after reduction exactly if it was before, with the same stacks and weights.",
 ['inputs','programs'],'all pushdown systems, start and target states, all reduction strengths',
 'the abstract top-of-stack analysis is a fixed point over arbitrary rule graphs; an unsound merge only loses particular runs',
 ['internal/Reducer.h','internal/Reducer.cpp','internal/PDA.cpp','internal/PDA.h'],[('top-of-stack abstraction: merge_pop/noop/swap/push, forward_stack, active, update_state','internal/Reducer.cpp'),('reduce, forwards_prune, backwards_prune, target_tos_prune','internal/Reducer.h')],'the rules of the reduced system and reachability before and after')
p('N01','NFA construction operations denote the regular-language operations',
 "For all automata built with the construction operations, the accepted language is exactly the denoted one: a symbol set or negated symbol set accepts the matching one-letter words, and concatenation, alternation, iteration (zero or more, one or more) and optionality of automata accept the concatenation, union, Kleene closure, positive closure and union with the empty word of the operand languages, in any nesting. Copying (including assignment over an existing automaton) yields an independent automaton with the same language.",
 ['inputs','programs'],'all nestings of construction operations and all words over all alphabets',
 'language equality is over infinitely many words and operator nestings',
 ['NFA.h'],[('constructors, concat, or_extend, plus_extend, star_extend, question_extend, copy/assignment, compile','NFA.h: NFA')],'acceptance of words through initial states and successor sets')
p('N02','NFA successor, closure and edge-label queries are exact',
 "Following empty moves from a set of states yields exactly the reachable states that accept or have a non-empty move, sorted and without duplicates; the successors of a state set under a symbol are exactly the so closed targets of matching edges. The queries 'does this symbol lead from here to there', 'is there an empty-move path', 'which of these labels lead there' and 'which labels can occur on the way to this state' agree with that semantics, and an edge's empty/wildcard/contains tests agree with the symbols it denotes.",
 ['inputs'],'all automata (including empty-move cycles), state sets, symbols and label lists',
 'graph shapes with cycles, shared targets and several edges between the same states are unbounded',
 ['NFA.h'],[('follow_epsilon, successor, has_as_successor, leads_to_by_epsilon, intersect_edge_labels, prelabels, empty_accept','NFA.h: NFA'),('edge_t::contains/empty/wildcard','NFA.h')],'return values of the queries')
p('N03','Regular-expression text is parsed to the automaton of the language it denotes',
 "For every label expression in the accepted syntax - label sets with commas and negation, wildcard dot, parentheses, postfix star, plus and question mark, juxtaposition, alternation, white space and comments - the resulting automaton accepts exactly the language the expression denotes, with postfix operators binding strongest, then juxtaposition, then alternation. Ill-formed text is rejected with an error instead of being accepted.",
 ['inputs','programs'],'all expressions of the grammar and all words',
 'precedence and grouping are handled by a stack machine driven by parse events; tests cover a few expressions',
 ['parsing/NfaParserGrammar.h','parsing/NfaParser.cpp','NFA.h'],[('NfaBuilder operator stack and parse actions','parsing/NfaParserGrammar.h')],'language of the returned automaton; exception on ill-formed input')
p('P01','Automaton paths keep edges in order with stable endpoints',
 "A path built from a state list and a label list, or edge by edge from its end, reports exactly those states and labels in order; its front edge, front state, size and emptiness agree with the sequence, removing the front edge drops exactly the first edge, and splitting a paired path yields its two component paths. Extracting states and labels skips exactly the empty-move edges and always ends in the end state, and two paths are equal exactly when their sequences are.",
 ['histories','inputs'],'all paths and all sequences of extend/remove operations',
 'the storage is reversed relative to the interface; off-by-one errors only show at certain lengths',
 ['AutomatonPath.h'],[('AutomatonPath constructors, emplace, pop, front_edge, front_state, stack, get_path_and_stack, split, remove_epsilon','AutomatonPath.h')],'return values of the accessors')
p('A01','P-automata accept exactly the configurations they describe',
 "An automaton over a pushdown system's configurations that is built from one configuration, from a list of states, from a set of states with a stack automaton (also over the user's labels, inserted in any order), or as the union of two automata (without edges into system states) accepts exactly the denoted configurations, and every automaton accepts a (state, stack) pair exactly if there is a path from that state reading that stack to an accepting state. A reported accepting path really exists, reads the stack and ends in an accepting state, it is found whenever one exists, and copies accept the same configurations independently.",
 ['inputs'],'all automata without empty moves, states and stacks; all stack automata including ones with empty moves and negated label sets (labels of the alphabet)',
 'acceptance is over unboundedly many configurations and automaton shapes',
 ['internal/PAutomaton.h','NFA.h'],[('PAutomaton constructors, construct, add_edges, or_extend, copy constructor','internal/PAutomaton.h'),('accepts, accept_path, find_path','internal/PAutomaton.h')],'accepts / accept_path / find_path results and the edge relation')
p('A02','Best-weight searches in weighted automata return optimal paths',
 "On a weighted automaton with non-negative weights, the shortest accepting path search returns a genuine path whose summed weight is the reported weight and no accepting path (for the given configuration, or over all configurations) is lighter; it reports the maximum weight exactly when nothing is accepted. The fixed-point search reports the optimum over all accepting paths also for longest and for negative weights, reports the infinite value (of weight types that have one) exactly when a profitable loop lies on an accepting path, and otherwise returns a path of the reported weight.",
 ['inputs'],'all finite weighted automata, both directions, states and stacks',
 'optimality quantifies over all paths, including through cycles',
 ['internal/PAutomaton.h','internal/PAutomatonAlgorithms.h','utils/workset.h','Weight.h'],[('find_path_shortest, accept_path<Shortest>','internal/PAutomaton.h'),('PAutomatonFixedPoint','internal/PAutomatonAlgorithms.h'),('rounds and bottom propagation','utils/workset.h: fixed_point_workset')],'returned path and weight')
p('S01','Backward saturation yields exactly the predecessor configurations',
 "For every pushdown system and every automaton without empty moves and without edges into system states, after backward saturation the automaton accepts a configuration exactly if some sequence of rule applications leads from it to a configuration accepted before saturation. This includes wildcard rules, empty stacks, rules on unreachable states, and stopping early only when the stop condition was reported for an edge that was added.",
 ['inputs','programs'],'all pushdown systems, automata and configurations',
 'exactness is over infinitely many configurations and any rule interaction; missing one rule pairing only loses specific configurations',
 ['internal/PdaSaturation.h','internal/PAutomaton.h','internal/PDA.h','utils/vector_set.h'],[('PreStarSaturation::initialize/step/insert_edge/insert_edge_bulk/add_pop','internal/PdaSaturation.h')],'accepted configurations before and after saturation')
p('S02','Forward saturation yields exactly the successor configurations',
 "For every pushdown system and every automaton without empty moves and without edges into system states, after forward saturation the automaton (read with its empty moves) accepts a configuration exactly if it is reachable by some sequence of rule applications from a configuration accepted before saturation. Stopping early happens only when the stop condition was reported for an edge that was added.",
 ['inputs','programs'],'all pushdown systems, automata and configurations',
 'exactness is over infinitely many configurations; the empty-move combinations only matter for pop after push chains',
 ['internal/PdaSaturation.h','internal/PAutomaton.h','internal/PDA.h','utils/fut_set.h'],[('PostStarSaturation::initialize/step/insert_edge/insert_edge_rel/insert_rel/run','internal/PdaSaturation.h')],'accepted configurations before and after saturation')
p('S03','Shortest-trace saturation computes minimal run weights',
 "With non-negative rule weights and for every automaton without empty moves and without edges into system states, shortest-trace backward and forward saturation accept the same configurations as plain saturation, and for every accepted configuration the lightest accepting path of the saturated automaton has exactly the minimal total rule weight of a run to (respectively from) the original configuration set.",
 ['inputs','programs'],'all weighted pushdown systems with non-negative weights, automata and configurations',
 'minimality is over all runs; ordering or relaxation mistakes only show when a cheaper derivation is found late',
 ['internal/PdaSaturation.h','internal/PAutomaton.h','Weight.h'],[('PreStarSaturation<W,ET,true>','internal/PdaSaturation.h'),('PostStarShortestSaturation','internal/PdaSaturation.h')],'edge weights and path weights after saturation')
p('S04','Fixed-point saturation computes extremal run weights, including unbounded ones',
 "For every automaton without empty moves and without edges into system states, fixed-point backward and forward saturation accept the same configurations as plain saturation, and the extremal (minimal or maximal) accepting path weight of each accepted configuration equals the extremum of the total rule weight over all runs; for weight types with an infinite value it is that value exactly when runs of unboundedly good weight exist (weights are such that all exact sums are representable). The computation terminates for every input.",
 ['inputs','programs'],'all weighted pushdown systems (also negative weights and profitable loops), automata and configurations, both directions',
 'extremum over infinitely many runs and unboundedness cannot be sampled',
 ['internal/PdaSaturation.h','utils/workset.h','internal/PAutomaton.h','Weight.h'],[('PreStarFixedPointSaturation, PostStarFixedPointSaturation','internal/PdaSaturation.h'),('fixed_point_workset','utils/workset.h')],'edge weights and extremal path weights after saturation')
p('T01','Reconstructed traces are genuine runs',
 "For every automaton without empty moves and edges into system states and every accepting path of its saturation, stepping the trace reconstruction yields a finite sequence of rules that can be applied one after another: backward traces start in the accepted configuration and end in one accepted before saturation, forward traces (read in reverse) start in one accepted before saturation and end in the accepted configuration. With shortest-trace saturation the summed rule weight of the trace of a lightest path equals the reported weight.",
 ['inputs','programs'],'all pushdown systems, automata, accepted configurations and search orders',
 'the annotation of every edge must be consistent with every other edge; tests check single traces',
 ['internal/PdaSaturation.h','internal/PAutomaton.h','AutomatonPath.h'],[('TraceBack::next','internal/PdaSaturation.h'),('edge annotations written by the saturation steps','internal/PdaSaturation.h'),('trace_t','internal/PAutomaton.h')],'the rule sequence and its replay on the configuration')
p('V01','Solver verdicts, weights and traces are correct for every search strategy',
 "For every pushdown system and every initial and final automaton without empty moves and edges into system states, backward, forward and dual search (with and without early termination, and the fixed-point searches) answer yes exactly when some run leads from an initial to a final configuration. The returned trace is such a run, rule traces come with stacks and accepting paths of the initial and the final automaton; shortest-trace searches (non-negative weights) and fixed-point searches report the extremal total weight of all runs, and their trace has that weight (unless it is unbounded).",
 ['inputs','programs'],'all pushdown systems, initial and final automata, weights and search strategies',
 'early termination interleaves the product construction with the saturation; every interleaving of derivations must give the same answer',
 ['Solver.h','PAutomatonProduct.h','internal/PdaSaturation.h','internal/PAutomatonAlgorithms.h','SolverInstance.h'],[('Solver::pre_star_accepts, post_star_accepts, dual_search_accepts, *_fixed_point_accepts, get_trace, get_trace_dual_search, get_rule_trace_and_paths','Solver.h'),('PAutomatonProduct::initialize_product, add_edge, construct_reachable, find_path','PAutomatonProduct.h')],'verdict, reported weight, trace and rule trace')
p('G01','Refinement partitions separate what they must and stay disjoint',
 "Combining refinements keeps the partition classes pairwise disjoint, keeps every element of both operands (adding none), and never puts two elements into the same class that either operand has in different classes. A refinement computed for conflicting pair sets puts no pair of the one set and pair of the other (or wildcard element) into the same pair of classes.",
 ['inputs','histories'],'all refinements, combination sequences and conflicting pair sets',
 'set-splitting interactions between arbitrarily many classes and combination histories',
 ['cegar/Refinement.h','utils/more_algorithms.h'],[('Refinement::combine, HeaderRefinement::combine','cegar/Refinement.h'),('make_refinement, assign_to_bucket, BmatchA, AmatchB_bucket','cegar/Refinement.h')],'the partition classes')
p('K01','Abstractions partition values, and abstract automata cover what they abstract',
 "An abstraction mapping gives every inserted concrete value the number of its abstract value (equal abstract values get equal numbers, numbered in order of first appearance), and lists for every abstract value exactly its concrete values; applying a refinement separates its classes (the largest class and everything it does not mention stay, every other class gets a new number) and changes nothing else. A label set, also a negated one, is abstracted so that an abstract label is matched exactly if one of its concrete labels is, hence the abstract automaton of a stack automaton accepts exactly the abstract images of the accepted configurations. Keys of every supported shape (numbers, strings, vectors, tuples, variants) get equal numbers exactly when they are equal and are read back unchanged.",
 ['inputs','histories'],'all abstraction functions, insertion and refinement histories, label sets, stack automata and keys',
 'the two directions of the mapping must stay inverse under any history of refinements, and negation flips which direction over-approximates',
 ['cegar/AbstractionMapping.h','cegar/AbstractionPDA.h','cegar/AbstractionPAutomaton.h','utils/ptrie_interface.h','internal/PAutomaton.h'],[('AbstractionMapping::insert, RefinementMapping::refine, encode_many','cegar/AbstractionMapping.h'),('AbstractionPDA::encode_labels','cegar/AbstractionPDA.h'),('byte_vector_converter, ptrie_interface','utils/ptrie_interface.h')],'mapping queries, accepted abstract configurations, keys read back')
p('U01','Shared search utilities honour their contracts',
 "Disjointness of two sorted sequences is reported exactly when they share no (equivalent) element. A priority set hands out every inserted element exactly once, at the best of its not yet handed out weights and in order of weight. A flag mask reports exactly the flags that are still missing after any sequence of received flags, for every supported width.",
 ['inputs','histories'],'all sequences and orders, all operation histories, all mask widths up to 64',
 'galloping search and lazy deletion have boundary cases; mask arithmetic depends on the width',
 ['utils/more_algorithms.h','utils/flags.h'],[('is_disjoint, priority_set','utils/more_algorithms.h'),('flags, flag_mask','utils/flags.h')],'return values')
p('J01','The streaming JSON writer always produces well-formed JSON',
 "For every non-empty sequence of entries and properly nested objects written to the stream, the text produced by the time it is closed is one well-formed JSON object that contains exactly the written keys and values in the written nesting; closing ends every object that is still open.",
 ['histories','inputs'],'all properly nested call sequences, keys and values',
 'comma, brace and nesting state must be right for every call sequence',
 ['src/pdaaal-bin/utils/json_stream.h'],[('begin_object, end_object, entry, entry_object, close','src/pdaaal-bin/utils/json_stream.h')],'the produced text parsed by an independent JSON parser')
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
