"""Which proof units and which bounded harness decide which property."""
import os, sys
TRUSTED = ['clang 18 (AST of the instantiated sources)', 'cpp2verus (the mechanical AST-to-Verus translation in /verif/cpp2verus)', 'Verus 0.2026.09.13 and Z3',
           'specification of the C++ standard library operations in /verif/cpp2verus/stl.py (each one used is listed)']
DEF = ' A case is non-trivial when its inputs are not empty/default.'
INFO = {}
GENERAL = ['64-bit unsigned sums and products of container sizes are treated as mathematical (subtraction and narrower types wrap exactly)', 'termination is not proved', 'moved-from objects are treated as copies',
           'an exception leaves the function (behaviour after a throw is not specified)', 'bodies of functions without a contract that a verified function calls are inlined by the translator']
def P(id, level='exploration', units=(), rule='', bound='', unproved='', assumptions=(), proved=''):
    INFO[id] = dict(level=level, units=list(units), rule=rule, bound=bound, unproved=unproved, assumptions=list(assumptions) + (GENERAL if units else []), proved=proved)

P('W01', 'proof', ['weights'], proved='weight_impl<T,maximize>::less/add/bottom/max/zero for all eight integer widths/signs in both directions with exact machine arithmetic: they equal the specified order and saturating addition; the algebraic laws are lemmas over those contracts.', rule='All value pairs of the 8-bit types and boundary/random values of wider types, both directions, compared with exact arithmetic.', bound='exhaustive for 8-bit operands; random and boundary operands for 16/32/64 bit', unproved='floating-point weights are outside the property', assumptions=['a sum of two non-extreme weights that is not representable is outside the property'])
P('W02', 'proof', ['weights2'], proved='array and vector weights (int, unsigned, 8-bit and 64-bit elements, both directions): add is elementwise on zero-padded operands, less is lexicographic on them, bottom/max/zero are the element extremes; linear_weight_function and ordered_weight_function return the defined sum/list for every function tree.', rule='Random and small exhaustive vectors/arrays and function trees compared with an independent evaluation.', bound='vectors up to length 6', unproved='weight functions are instantiated with two int arguments')
P('C01', 'proof', ['sets'], proved='vector_set and vector_map over an arbitrary totally ordered key type and an arbitrary value type: every operation keeps the representation sorted and duplicate free and has exactly the effect of the mathematical set/map operation.', rule='Random operation sequences on vector_set/vector_map mirrored in std::set/std::map.', bound='sequences up to 60 operations', unproved='iterators are positions; their invalidation by insertion is not modelled')
P('C02', 'proof', ['fut', 'sets'], proved='fut_set by induction over the nesting: the recursive case (hash- and vector-backed) over an arbitrary inner tuple set applies each operation to exactly the inner set of the given head (a new one if absent) and leaves every other head alone; the base cases (hash and vector, map and set) have the effect of the mathematical map/set operation, and the hash-to-vector conversions keep the content.', rule='Random operation sequences on fut::set with every backing mirrored in std::map.', bound='sequences up to 60 operations', unproved='the induction over the nesting depth itself is the reading of the two proved cases, not a machine-checked lemma; get() is specified by the value the returned pointer designates, writes through it are not modelled', assumptions=['the inner tuple set of the recursive case is a function of its arguments and a new one contains nothing (proved for the base cases)'])
P('L01', 'proof', ['labels'], proved='labels_t: merge, intersect, noop_pre_filter, contains, empty, clear compute exactly union, intersection, filtering, membership and emptiness of the denoted label sets and keep the representation strictly increasing.', rule='Random and small exhaustive label sets, compared with std::set algebra.', bound='alphabets up to 8 labels exhaustively for small ones', unproved='PDA::filter and the callers of labels_t are covered under R01/D01')
P('R01', 'proof', ['pda_u', 'pda_w', 'labels'], proved='PDA (vector- and hash-backed, unweighted and over an arbitrary totally ordered weight type): add_state, add_untyped_rule_impl, add_rule, add_wildcard_rule, clear_state and the hash-to-vector conversion keep the store well formed (sorted entries, one per rule, sorted label sets, targets exist, predecessor lists complete) and change the denoted rule/label/predecessor relations exactly as specified; rule and user-rule comparison and conversion', rule='Random sequences of rule additions and clear_state mirrored in an abstract rule relation.', bound='up to 7 states, 25 operations', unproved='typed front ends that translate label names to numbers', assumptions=['the weight type\'s operator< is a strict total order', 'container sizes fit size_t'])
P('D01', 'proof', ['reduce_u', 'reduce_w', 'labels', 'pda_u', 'pda_w'], proved='Reducer::reduce, forwards_prune, backwards_prune, target_tos_prune, size and every tos_t operation (update_state, forward_stack, active, merge_pop, merge_noop, merge_swap, merge_push, the last five also with both approximations being the same object), with PDA::clear_state, vector_map resize and the labels_t operations they use, unweighted and over an arbitrary totally ordered weight type, any number of states, rules and labels, every strength: the reduced system has no new rule or label, keeps every rule application of every run from the start state (with an arbitrary bottom symbol only the start state reads) that reaches the target for the first time at its end, hence has exactly the same such runs (same rules, same stacks, same weights), and satisfies the representation invariant again', rule='Random pushdown systems reduced at every strength; explicit bounded exploration of runs before and after.', bound='up to 5 states, 3 labels, bounded stack height', unproved='loop termination; the value returned by size is not specified', assumptions=['the system satisfies the representation invariant that R01 proves for the rule store; operations are one of the four kinds; its label sets and the labels its rules write stay below the label count, which is positive and below 2^32 - 1', 'number_of_labels does not change during reduction', 'the start state only has push rules (the code asserts this)'])
P('N01', 'proof', ['nfac', 'nfaq'], proved='both constructors, concat, or_extend, question_extend, plus_extend, star_extend, compile, copy assignment and copy construction over an explicit heap of states and an arbitrary totally ordered symbol type: the language (set of words with an accepting run) of the result is exactly the empty word/nothing, one letter of the (complemented) set, concatenation, union, option, positive iteration, iteration, unchanged, unchanged of the operands languages; the result is well formed, owns exactly the operands states and new ones, and every other live state is untouched; lemma heap_kept: the heap stays well formed, which is what the queries of N02 assume.', rule='Random nestings of construction operations, all words up to a length compared with a derivative matcher.', bound='words up to length 5 over 3 letters', unproved='moves of whole automata (defaulted) are copies; and_extend always throws', assumptions=['the symbol type\'s operator< is a strict total order consistent with ==', 'operands of concat/or_extend are different automata (they are taken by rvalue reference)', 'a newly allocated state has an address no live state has'])
P('N02', 'proof', ['nfaq'], proved='edge contains/empty/wildcard, has_non_epsilon, follow_epsilon (all instantiations and the edge member), successor, has_as_successor (all overloads), leads_to_by_epsilon, intersect_edge_labels (all overloads), prelabels and empty_accept over an arbitrary heap of states (cycles, shared targets, parallel edges) and an arbitrary totally ordered symbol type: each result equals the reachability/membership definition, and returned state lists are strictly increasing.', rule='Random NFAs with empty-move cycles; queries compared with graph reachability.', bound='up to 7 states', unproved='nothing of the listed queries', assumptions=['the symbol type\'s operator< is a strict total order consistent with ==', 'state pointers designate live states of a well-formed automaton (targets live, symbol lists strictly increasing, back edges in step with edges; the construction operations establish this under N01); comparing state pointers with < orders distinct states', 'prelabels: every symbol on an edge belongs to the given alphabet'])
P('N03', rule='Random expressions printed with random white space/comments/parentheses; all words up to a length compared with a derivative matcher; mutated texts must be rejected or match.', bound='expressions up to ~12 operators, words up to length 5', unproved='no proof unit yet')
P('P01', 'proof', ['path'], proved='every member of AutomatonPath<false> and AutomatonPath<true> (constructors, emplace, pop, accessors, stack, get_path_and_stack, split, remove_epsilon, comparison): each equals the operation on the denoted state and label sequences.', rule='Random paths and operation sequences mirrored in plain sequences.', bound='paths up to length 8', unproved='hashing (AbslHashValue) is not specified')
P('A01', 'proof', ['paut', 'pautn'], proved='unweighted automata of any size: the one-configuration constructor, the constructor from a state list, the copy constructor, the move-to-another-system constructor, or_extend, add_state, add_edge, add_epsilon_edge, both add_edges (also with complemented label lists), the constructor from a stack automaton over numbered labels with construct (and the NFA empty-move closure it uses), set_state_accepting, has_accepting_state, accepts, accept_path<Any> and find_path (with the edge set\'s emplace/contains, vector_map emplace/lower_bound and the AutomatonPath members they use): accepts is exactly existence of a path reading the stack to an accepting state; a reported path exists, reads the stack and is found whenever one exists; find_path finds a configuration exactly if one is accepted; the one-configuration automaton accepts exactly that configuration, the union exactly the union, the automaton built from a stack automaton exactly the given states with the words that automaton accepts; copies are equal; every operation keeps the representation invariant', rule='Random automata, state lists and NFAs (also over user labels inserted in any order); all stacks up to a length compared with an explicit search.', bound='up to 6 states, stacks up to length 4', unproved='the same construction with a label mapping (typed systems, abstractions) and weighted instantiations of the same template (bounded); loop termination', assumptions=['pointers to states of an automaton are positions in its state list (the identity of the automaton they belong to is not tracked)', 'number of states below 2^64 - 1, labels below 2^32 - 2', 'number_of_labels is a pure function of the system', 'complemented label lists are strictly increasing and below the label count, state lists are sorted (the code asserts sortedness)'])
P('A02', rule='Random weighted automata compared with Bellman-Ford style oracle.', bound='up to 7 states', unproved='no proof unit yet')
SAT = 'Random pushdown systems and automata; the saturated automaton compared with an independent naive saturation and with explicit bounded runs (%s configurations).'
P('S01', 'proof', ['prestar_n', 'prestar_e', 'labels'], proved='Solver::pre_star and PreStarSaturation (constructor, initialize, add_pop, insert_edge, insert_edge_bulk, step) with and without early termination, PAutomaton::emplace_edge, the edge set\'s emplace, vector_map emplace/lower_bound, labels_t::contains (unweighted systems, any number of states, rules and labels, wildcard rules included): when the procedure is not stopped early, the automaton accepts a configuration exactly if some run of rule applications leads from it to a configuration accepted before; every edge added at any time is justified by a rule; acceptance and old edges are kept; true is returned only if the stop condition was reported for an edge that was added', rule=SAT % 'predecessor', bound='up to 5 states, 3 labels, stacks up to length 4', unproved='weighted instantiations of the same template (bounded); termination of the saturation loop', assumptions=['the pushdown system satisfies the representation invariant that R01 proves for the rule store; its label sets stay below the label count', 'state identifiers equal positions (state_t::_id)', 'the stop condition is an arbitrary function that does not change the automaton', 'the automaton is only reached through the saturation object while that lives', 'number_of_labels is a pure function of the system'])
P('S02', 'proof', ['poststar_n', 'poststar_e', 'labels'], proved='Solver::post_star (plain) and PostStarSaturation (constructor, initialize, insert_rel, insert_edge, insert_edge_rel, step, run) with and without early termination, PAutomaton::add_state/next_state_id/emplace_edge, the edge set\'s emplace, vector_map emplace, labels_t::contains (unweighted systems, any number of states, rules and labels, wildcard rules included): when the procedure is not stopped early, the automaton read with its empty moves accepts a configuration exactly if some run of rule applications leads to it from a configuration accepted before; old edges and acceptance are kept; true is returned only if the stop condition was reported for an edge that was added', rule=SAT % 'successor', bound='up to 5 states, 3 labels, stacks up to length 4', unproved='weighted instantiations of the same template (bounded); termination of the saturation loop', assumptions=['the pushdown system satisfies the representation invariant that R01 proves for the rule store; its label sets and the labels its rules write stay below the label count', 'state identifiers equal positions (state_t::_id)', 'the stop condition is an arbitrary function that does not change the automaton', 'the automaton is only reached through the saturation object while that lives', 'number_of_labels is a pure function of the system'])
P('S03', rule='Random non-negatively weighted systems; path weights compared with an independent weighted saturation.', bound='up to 5 states, 3 labels, stacks up to length 3', unproved='no proof unit yet')
P('S04', rule='Random weighted systems (negative weights, profitable loops); extremal weights compared with an independent fixed-point oracle.', bound='up to 4 states, 3 labels, stacks up to length 3', unproved='no proof unit yet')
P('T01', rule='Every accepting path of random saturated automata is traced and replayed rule by rule.', bound='up to 5 states, 3 labels, stacks up to length 3', unproved='no proof unit yet')
P('V01', rule='Random pushdown systems with random initial and final automata given to every solver entry point; verdict, weight, trace and rule trace compared with an independent saturation of the product and replayed step by step.', bound='up to 5 states, 2 labels, 12 rules, automata with up to 2 extra states; ptrie (not installed) replaced by the stand-in in bounded/standin', unproved='no proof unit: the entry points compose the saturations (S01/S02 proved, S03/S04 bounded) with a product construction whose state numbering is a ptrie map (external, not installed) and with early termination through callbacks that mutate the product', assumptions=['the ptrie stand-in numbers keys in insertion order and finds exactly the inserted keys, as ptrie::set_stable does'])
P('G01', 'proof', ['refc', 'refp'], proved='For arbitrary totally ordered element types: the Refinement constructor, Refinement::combine and HeaderRefinement::combine (classes stay sorted and pairwise disjoint, the elements are exactly those of both operands, nothing either operand separates is joined; other abstract elements untouched), is_disjoint (all instantiations), BmatchA, AmatchB_bucket, assign_to_bucket (both instantiations), make_pair_refinement (no pair of one set and pair of the other, or wildcard element, in one pair of classes; every element in exactly one class), make_simple_pair_refinement and make_refinement. All loops unbounded.', rule='Random refinements and conflicting pair sets checked against the definition.', bound='up to 12 elements', unproved='the fast option only promises one separated pair (that is what is proved); loop termination', assumptions=['element order is a strict total order and == is equality (documented requirement of the element type)', 'the operands are well formed: classes without repeated elements, pairwise disjoint; the combined operand has two non-empty classes and the same abstract id (the code asserts this)', 'conflicting sets: no pair in both, wildcard list sorted and its elements in neither set (the code asserts this)', 'a refinement has at most 2^60 classes'])
P('K01', rule='Random abstraction functions, insertion orders and refinements compared with an explicit partition; random label sets and stack automata compared with the image of their configurations; random keys of all supported shapes numbered and read back.', bound='up to 14 values, 6 refinements, 4 labels, stacks up to length 3; ptrie (not installed) replaced by the stand-in in bounded/standin', unproved='no proof unit: the mappings are thin layers over ptrie maps (external, not installed)', assumptions=['the ptrie stand-in numbers keys in insertion order and finds exactly the inserted keys, as ptrie::set_stable does'])
P('U01', 'proof', ['utils', 'flags'], proved='is_disjoint (both overloads) reports exactly whether the sorted sequences share an equivalent element; priority_set emplace/pop/top/empty over arbitrary element and weight types hand out each element at its best pending weight; flags<N>/flag_mask<N> for every N from 1 to 64 compute the bitwise definition of adding, removing, testing, filling, splitting and missing flags.', rule='Sorted sequences, priority_set histories and all mask widths compared with direct definitions.', bound='sequences up to length 30, histories up to 60 operations, all widths 1..64', unproved='the run-length order of a whole priority_set history follows from the per-operation contracts (top is a minimum of the pending weights) and is not stated as a separate lemma', assumptions=['std::priority_queue: inserting an element that is not strictly greater than the top keeps the top (behaviour of the libstdc++ heap)'])
P('J01', 'proof', ['jsons'], proved='json_stream: constructor, begin_object, end_object, entry, entry_object, close and the destructor over an arbitrary history: the text written so far is exactly the serialisation of the open objects and their members (comma, colon, brace and nesting state), and after close or destruction it is the serialisation of the whole document with every open object ended.', rule='Random properly nested call sequences, parsed with nlohmann::json.', bound='up to 40 calls', unproved='white space: literals, std::endl and std::setw are reduced to their non-blank characters', assumptions=['nlohmann::json::dump() returns the well-formed text of its value and json(string) is that JSON string; items() enumerates the members', 'the stream is written by this writer only and insertions do not fail', 'end_object is only called for an object begun with begin_object (properly nested calls)'])


def run_units(prop, repo, out, tier):
    res = []
    for u in INFO[prop]['units']:
        from proofs import runner
        res.append(runner.run_unit(u, repo, out, tier))
    return res
