"""N02: automaton queries over the heap of states (arbitrary graphs, arbitrary totally ordered symbols)."""
from unit import Unit
from vtypes import Ty

SPEC = r'''
pub struct SymT { pub s: int }
pub uninterp spec fn sym_lt(a: SymT, b: SymT) -> bool;
pub open spec fn sym_order() -> bool {
    &&& forall|a: SymT| !#[trigger] sym_lt(a, a) &&& forall|a: SymT, b: SymT| #![trigger sym_lt(a, b)] a == b || sym_lt(a, b) || sym_lt(b, a)
    &&& forall|a: SymT, b: SymT, c: SymT| #![trigger sym_lt(a, b), sym_lt(b, c)] sym_lt(a, b) && sym_lt(b, c) ==> sym_lt(a, c)
}
pub type Heap = Map<int, nstate>;
pub open spec fn sinc(s: Seq<SymT>) -> bool { sym_order() && forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> sym_lt(s[i], s[j]) }
pub open spec fn inc(s: Seq<int>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn sub(s: Seq<int>, H: Heap) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> H.dom().contains(s[i]) }
// the symbols an edge denotes
pub open spec fn den(e: nedge, x: SymT) -> bool { if e._negated { !e._symbols.contains(x) } else { e._symbols.contains(x) } }
// a well-formed automaton heap: targets exist, symbol lists are strictly increasing, back edges and edges correspond
pub open spec fn edges_ok(H: Heap) -> bool { forall|p: int, i: int| #![trigger H[p]._edges[i]] H.dom().contains(p) && 0 <= i < H[p]._edges.len() ==> H.dom().contains(H[p]._edges[i]._destination) && sinc(H[p]._edges[i]._symbols) }
pub open spec fn back_ok(H: Heap) -> bool {
    &&& forall|p: int, k: int| #![trigger H[p]._backedges[k]] H.dom().contains(p) && 0 <= k < H[p]._backedges.len() ==> H.dom().contains(H[p]._backedges[k].0) && 0 <= H[p]._backedges[k].1 < H[H[p]._backedges[k].0]._edges.len() && H[H[p]._backedges[k].0]._edges[H[p]._backedges[k].1]._destination == p
    &&& forall|p: int, i: int| #![trigger H[p]._edges[i]] H.dom().contains(p) && 0 <= i < H[p]._edges.len() ==> H[H[p]._edges[i]._destination]._backedges.contains((p, i))
}
// one edge from p to q (any edge, or an empty move)
#[verifier::opaque]
pub open spec fn step(H: Heap, any: bool, p: int, q: int) -> bool { H.dom().contains(p) && exists|i: int| #![trigger H[p]._edges[i]] 0 <= i < H[p]._edges.len() && H[p]._edges[i]._destination == q && (any || H[p]._edges[i]._epsilon) }
pub open spec fn steps(H: Heap, any: bool, p: int, q: int, n: nat) -> bool decreases n { if n == 0 { p == q } else { exists|r: int| #![trigger step(H, any, r, q)] steps(H, any, p, r, (n - 1) as nat) && step(H, any, r, q) } }
#[verifier::opaque]
pub open spec fn reach(H: Heap, any: bool, p: int, q: int) -> bool { exists|n: nat| #[trigger] steps(H, any, p, q, n) }
#[verifier::opaque]
pub open spec fn reach_from(H: Heap, s: Seq<int>, q: int) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && reach(H, false, s[i], q) }
pub open spec fn moves(s: nstate) -> bool { exists|i: int| #![trigger s._edges[i]] 0 <= i < s._edges.len() && (s._edges[i]._negated || s._edges[i]._symbols.len() > 0) }
pub open spec fn useful(s: nstate) -> bool { s._accepting || moves(s) }
// some state of s has an edge on x whose target leads to q by empty moves
pub open spec fn thru(H: Heap, p: int, i: int, x: SymT, q: int) -> bool { 0 <= i < H[p]._edges.len() && den(H[p]._edges[i], x) && reach(H, false, H[p]._edges[i]._destination, q) }
pub open spec fn via_p(H: Heap, p: int, x: SymT, q: int) -> bool { exists|i: int| #[trigger] thru(H, p, i, x, q) }
pub open spec fn succ(H: Heap, s: Seq<int>, x: SymT, q: int) -> bool { exists|k: int| #![trigger s[k]] 0 <= k < s.len() && via_p(H, s[k], x, q) }
pub open spec fn targets(H: Heap, s: Seq<int>, x: SymT, q: int, n: int) -> bool { exists|k: int| #![trigger s[k]] 0 <= k < n && target_p(H, s[k], x, q, H[s[k]]._edges.len() as int) }
pub open spec fn target_p(H: Heap, p: int, x: SymT, q: int, n: int) -> bool { exists|i: int| #![trigger H[p]._edges[i]] 0 <= i < n && den(H[p]._edges[i], x) && H[p]._edges[i]._destination == q }
'''
LEMMAS = r'''
proof fn step_at(H: Heap, any: bool, p: int, i: int) requires H.dom().contains(p), 0 <= i < H[p]._edges.len(), any || H[p]._edges[i]._epsilon, ensures step(H, any, p, H[p]._edges[i]._destination) { reveal(step); }
proof fn step_of(H: Heap, any: bool, p: int, q: int) -> (i: int) requires step(H, any, p, q), ensures H.dom().contains(p), 0 <= i < H[p]._edges.len(), H[p]._edges[i]._destination == q, any || H[p]._edges[i]._epsilon
{ reveal(step); choose|i: int| #![trigger H[p]._edges[i]] 0 <= i < H[p]._edges.len() && H[p]._edges[i]._destination == q && (any || H[p]._edges[i]._epsilon) }
proof fn step_reach(H: Heap, any: bool, p: int, r: int, q: int) requires reach(H, any, p, r), step(H, any, r, q), ensures reach(H, any, p, q)
{ reveal(reach); let n = choose|n: nat| #[trigger] steps(H, any, p, r, n); assert(steps(H, any, p, q, (n + 1) as nat)); }
proof fn refl(H: Heap, any: bool) ensures forall|p: int| #[trigger] reach(H, any, p, p)
{ reveal(reach); assert forall|p: int| #[trigger] reach(H, any, p, p) by { assert(steps(H, any, p, p, 0)); } }
proof fn pre_n(H: Heap, any: bool, p: int, r: int, q: int, n: nat) requires step(H, any, p, r), steps(H, any, r, q, n), ensures reach(H, any, p, q) decreases n
{ if n == 0 { refl(H, any); step_reach(H, any, p, p, r); } else { let t = choose|t: int| #![trigger step(H, any, t, q)] steps(H, any, r, t, (n - 1) as nat) && step(H, any, t, q); pre_n(H, any, p, r, t, (n - 1) as nat); step_reach(H, any, p, t, q); } }
proof fn pre_reach(H: Heap, any: bool, p: int, r: int, q: int) requires step(H, any, p, r), reach(H, any, r, q), ensures reach(H, any, p, q)
{ reveal(reach); let n = choose|n: nat| #[trigger] steps(H, any, r, q, n); pre_n(H, any, p, r, q, n); }
// a set closed under steps contains everything reachable from its elements
proof fn fwd(H: Heap, any: bool, s: Set<int>, p: int, q: int, n: nat) requires s.contains(p), steps(H, any, p, q, n), forall|a: int, b: int| #![trigger step(H, any, a, b)] s.contains(a) && step(H, any, a, b) ==> s.contains(b), ensures s.contains(q) decreases n
{ if n > 0 { let t = choose|t: int| #![trigger step(H, any, t, q)] steps(H, any, p, t, (n - 1) as nat) && step(H, any, t, q); fwd(H, any, s, p, t, (n - 1) as nat); } }
proof fn bwd(H: Heap, any: bool, s: Set<int>, p: int, q: int, n: nat) requires s.contains(q), steps(H, any, p, q, n), forall|a: int, b: int| #![trigger step(H, any, a, b)] s.contains(b) && step(H, any, a, b) ==> s.contains(a), ensures s.contains(p) decreases n
{ if n > 0 { let t = choose|t: int| #![trigger step(H, any, t, q)] steps(H, any, p, t, (n - 1) as nat) && step(H, any, t, q); bwd(H, any, s, p, t, (n - 1) as nat); } }
proof fn rf_base(H: Heap, s: Seq<int>) ensures forall|q: int| #[trigger] s.contains(q) ==> reach_from(H, s, q)
{ reveal(reach_from); refl(H, false); assert forall|q: int| #[trigger] s.contains(q) implies reach_from(H, s, q) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == q; assert(reach(H, false, s[i], q)); } }
proof fn rf_step(H: Heap, s: Seq<int>, p: int, q: int) requires reach_from(H, s, p), step(H, false, p, q), ensures reach_from(H, s, q)
{ reveal(reach_from); let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && reach(H, false, s[i], p); step_reach(H, false, s[i], p, q); }
proof fn push_has(o: Seq<int>, x: int) ensures forall|y: int| #[trigger] o.push(x).contains(y) <==> o.contains(y) || y == x
{ let s = o.push(x); assert forall|y: int| #[trigger] s.contains(y) <==> o.contains(y) || y == x by { if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; if i < o.len() { assert(o[i] == y); } } if o.contains(y) { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; assert(s[i] == y); } if y == x { assert(s[o.len() as int] == y); } } }
proof fn pop_has(o: Seq<int>) requires o.len() > 0, ensures forall|y: int| #![trigger o.contains(y)] #![trigger o.drop_last().contains(y)] o.contains(y) <==> o.drop_last().contains(y) || y == o.last(), o.contains(o.last())
{ push_has(o.drop_last(), o.last()); assert(o.drop_last().push(o.last()) =~= o); }
proof fn sub_has(s: Seq<int>, H: Heap) requires sub(s, H), ensures forall|y: int| #[trigger] s.contains(y) ==> H.dom().contains(y)
{ assert forall|y: int| #[trigger] s.contains(y) implies H.dom().contains(y) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; } }
proof fn has_sub(s: Seq<int>, H: Heap) requires forall|y: int| #[trigger] s.contains(y) ==> H.dom().contains(y), ensures sub(s, H)
{ assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies H.dom().contains(s[i]) by { assert(s.contains(s[i])); } }
proof fn closed_reach(H: Heap, s: Seq<int>, s0: Seq<int>) requires forall|q: int| #[trigger] s0.contains(q) ==> s.contains(q), forall|p: int, q: int| #![trigger step(H, false, p, q)] s.contains(p) && step(H, false, p, q) ==> s.contains(q),
    ensures forall|q: int| #[trigger] reach_from(H, s0, q) ==> s.contains(q)
{ reveal(reach); reveal(reach_from); assert forall|q: int| #[trigger] reach_from(H, s0, q) implies s.contains(q) by { let i = choose|i: int| #![trigger s0[i]] 0 <= i < s0.len() && reach(H, false, s0[i], q); let n = choose|n: nat| #[trigger] steps(H, false, s0[i], q, n); let t = s.to_set(); assert(s0.contains(s0[i]));
    assert(forall|x: int| #[trigger] t.contains(x) == s.contains(x)); fwd(H, false, t, s0[i], q, n); } }
proof fn ins_has(o: Seq<int>, k: int, x: int) requires 0 <= k <= o.len(), ensures forall|y: int| #[trigger] o.insert(k, x).contains(y) <==> o.contains(y) || y == x
{ let s = o.insert(k, x); assert forall|y: int| #[trigger] s.contains(y) <==> o.contains(y) || y == x by { if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; if i < k { assert(o[i] == y); } else if i > k { assert(o[i - 1] == y); } } if o.contains(y) { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; if i < k { assert(s[i] == y); } else { assert(s[i + 1] == y); } } if y == x { assert(s[k] == y); } } }
proof fn sins_has(o: Seq<SymT>, k: int, x: SymT) requires 0 <= k <= o.len(), ensures forall|y: SymT| #[trigger] o.insert(k, x).contains(y) <==> o.contains(y) || y == x
{ let s = o.insert(k, x); assert forall|y: SymT| #[trigger] s.contains(y) <==> o.contains(y) || y == x by { if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; if i < k { assert(o[i] == y); } else if i > k { assert(o[i - 1] == y); } } if o.contains(y) { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; if i < k { assert(s[i] == y); } else { assert(s[i + 1] == y); } } if y == x { assert(s[k] == y); } } }
// the position found by binary search decides membership, and inserting there keeps the order
proof fn lb_fact(s: Seq<int>, k: int, x: int) requires inc(s), 0 <= k <= s.len(), forall|i: int| #![trigger s[i]] 0 <= i < k ==> s[i] < x, forall|i: int| #![trigger s[i]] k <= i < s.len() ==> s[i] >= x,
    ensures (k < s.len() && s[k] == x) == s.contains(x), !s.contains(x) ==> inc(s.insert(k, x)), forall|y: int| #[trigger] s.insert(k, x).contains(y) <==> s.contains(y) || y == x
{ ins_has(s, k, x); if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > k { assert(s[k] < s[i]); } } else { let t = s.insert(k, x); assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies t[i] < t[j] by { if j < k { assert(t[i] == s[i] && t[j] == s[j]); } else if j == k { assert(t[i] == s[i]); } else if i == k { assert(t[j] == s[j - 1]); if s[j - 1] == x { assert(s.contains(x)); } } else if i < k { assert(s[i] < s[j - 1]); } else { assert(s[i - 1] < s[j - 1]); } } } }
// the same for every position a binary search may have found
proof fn ins_any(s: Seq<int>, x: int) requires inc(s), ensures forall|k: int| #![trigger s.insert(k, x)] #![trigger s[k]] 0 <= k <= s.len() && (forall|i: int| #![trigger s[i]] 0 <= i < k ==> s[i] < x) && (forall|i: int| #![trigger s[i]] k <= i < s.len() ==> s[i] >= x)
      ==> (k < s.len() && s[k] == x) == s.contains(x) && (!s.contains(x) ==> inc(s.insert(k, x)) && forall|y: int| #[trigger] s.insert(k, x).contains(y) <==> s.contains(y) || y == x)
{ assert forall|k: int| #![trigger s.insert(k, x)] #![trigger s[k]] 0 <= k <= s.len() && (forall|i: int| #![trigger s[i]] 0 <= i < k ==> s[i] < x) && (forall|i: int| #![trigger s[i]] k <= i < s.len() ==> s[i] >= x)
      implies (k < s.len() && s[k] == x) == s.contains(x) && (!s.contains(x) ==> inc(s.insert(k, x)) && forall|y: int| #[trigger] s.insert(k, x).contains(y) <==> s.contains(y) || y == x) by { lb_fact(s, k, x); } }
proof fn slb_fact(s: Seq<SymT>, k: int, x: SymT) requires sinc(s), 0 <= k <= s.len(), forall|i: int| #![trigger s[i]] 0 <= i < k ==> sym_lt(s[i], x), forall|i: int| #![trigger s[i]] k <= i < s.len() ==> !sym_lt(s[i], x),
    ensures (k < s.len() && s[k] == x) == s.contains(x), !s.contains(x) ==> sinc(s.insert(k, x)), forall|y: SymT| #[trigger] s.insert(k, x).contains(y) <==> s.contains(y) || y == x
{ sins_has(s, k, x); if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > k { assert(sym_lt(s[k], s[i])); } } else { let t = s.insert(k, x); assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies sym_lt(t[i], t[j]) by { if j < k { assert(t[i] == s[i] && t[j] == s[j]); } else if j == k { assert(t[i] == s[i]); } else if i == k { assert(t[j] == s[j - 1]); if s[j - 1] == x { assert(s.contains(x)); } } else if i < k { assert(sym_lt(s[i], s[j - 1])); } else { assert(sym_lt(s[i - 1], s[j - 1])); } } } }
// the successors are the closure of the direct targets
proof fn tgt_p(H: Heap, p: int, x: SymT, n: int) requires 0 <= n, ensures forall|q: int| #[trigger] target_p(H, p, x, q, n + 1) <==> target_p(H, p, x, q, n) || (den(H[p]._edges[n], x) && q == H[p]._edges[n]._destination)
{ assert forall|q: int| #[trigger] target_p(H, p, x, q, n + 1) <==> target_p(H, p, x, q, n) || (den(H[p]._edges[n], x) && q == H[p]._edges[n]._destination) by { if den(H[p]._edges[n], x) && q == H[p]._edges[n]._destination { assert(H[p]._edges[n]._destination == q); } } }
proof fn tgt(H: Heap, s: Seq<int>, x: SymT, n: int) requires 0 <= n < s.len(), ensures forall|q: int| #[trigger] targets(H, s, x, q, n + 1) <==> targets(H, s, x, q, n) || target_p(H, s[n], x, q, H[s[n]]._edges.len() as int)
{ assert forall|q: int| #[trigger] targets(H, s, x, q, n + 1) <==> targets(H, s, x, q, n) || target_p(H, s[n], x, q, H[s[n]]._edges.len() as int) by { if target_p(H, s[n], x, q, H[s[n]]._edges.len() as int) { assert(s[n] == s[n]); } } }
proof fn succ_closure(H: Heap, s: Seq<int>, x: SymT, next: Seq<int>) requires forall|q: int| #[trigger] next.contains(q) <==> targets(H, s, x, q, s.len() as int), ensures forall|q: int| #[trigger] reach_from(H, next, q) <==> succ(H, s, x, q)
{ reveal(reach); reveal(reach_from); assert forall|q: int| #[trigger] reach_from(H, next, q) <==> succ(H, s, x, q) by {
    if reach_from(H, next, q) { let j = choose|j: int| #![trigger next[j]] 0 <= j < next.len() && reach(H, false, next[j], q); assert(next.contains(next[j])); let k = choose|k: int| #![trigger s[k]] 0 <= k < s.len() && target_p(H, s[k], x, next[j], H[s[k]]._edges.len() as int);
       let i = choose|i: int| #![trigger H[s[k]]._edges[i]] 0 <= i < H[s[k]]._edges.len() && den(H[s[k]]._edges[i], x) && H[s[k]]._edges[i]._destination == next[j]; assert(thru(H, s[k], i, x, q)); }
    if succ(H, s, x, q) { let k = choose|k: int| #![trigger s[k]] 0 <= k < s.len() && via_p(H, s[k], x, q); let i = choose|i: int| #[trigger] thru(H, s[k], i, x, q); let d = H[s[k]]._edges[i]._destination; assert(targets(H, s, x, d, s.len() as int)); assert(next.contains(d)); let j = choose|j: int| 0 <= j < next.len() && next[j] == d; assert(reach(H, false, next[j], q)); } } }
// counting: a strictly increasing list has as many elements as the set of its elements
proof fn sinc_len(s: Seq<SymT>) requires sinc(s), ensures s.to_set().len() == s.len(), s.to_set().finite(), forall|x: SymT| #[trigger] s.to_set().contains(x) == s.contains(x)
{ assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(sym_lt(s[i], s[j])); } else { assert(sym_lt(s[j], s[i])); } } } s.unique_seq_to_set(); }
proof fn count(s: Seq<SymT>, a: Set<SymT>) requires sinc(s), a.finite(), forall|x: SymT| #[trigger] s.contains(x) ==> a.contains(x), ensures s.len() <= a.len(), s.len() == a.len() <==> (forall|x: SymT| #[trigger] a.contains(x) ==> s.contains(x))
{ sinc_len(s); let t = s.to_set(); assert(t.subset_of(a)); lemma_len_subset(t, a); if s.len() == a.len() { lemma_subset_equality(t, a); } else { if forall|x: SymT| #[trigger] a.contains(x) ==> s.contains(x) { assert(t =~= a); } } }
'''
Q = r'pdaaal::NFA<pdaaal::verif::sym_t>::'
CP = r'.*\(std::vector<const state_t \*> &\)|.*\(const std::vector<const state_t \*> &, .*'   # const element pointers
NP = r'.*\(std::vector<state_t \*> &\)|.*\(const std::vector<state_t \*> &, .*'
HQ = dict(heap=['H'], heap_const=['H'])
SET = 'forall|x: SymT| #[trigger] result.contains(x) <==> '
ALPHA = 'forall|a: Set<SymT>| #[trigger] alpha(a, this0, n0) ==> '
SPEC += r'''
pub open spec fn alpha(a: Set<SymT>, e: nedge, n: int) -> bool { a.finite() && a.len() == n && forall|x: SymT| #[trigger] e._symbols.contains(x) ==> a.contains(x) }
// every edge symbol belongs to the alphabet
pub open spec fn in_alphabet(H: Heap, all: Set<SymT>) -> bool { forall|p: int, i: int, x: SymT| #![trigger H[p]._edges[i]._symbols.contains(x)] H.dom().contains(p) && 0 <= i < H[p]._edges.len() && H[p]._edges[i]._symbols.contains(x) ==> all.contains(x) }
// x can be read on the way to q: on an edge whose target leads to q
pub open spec fn pre_at(H: Heap, q: int, x: SymT, p: int, i: int) -> bool { H.dom().contains(p) && 0 <= i < H[p]._edges.len() && den(H[p]._edges[i], x) && reach(H, true, H[p]._edges[i]._destination, q) }
pub open spec fn pre_lab(H: Heap, all: Set<SymT>, q: int, x: SymT) -> bool { all.contains(x) && exists|p: int, i: int| #[trigger] pre_at(H, q, x, p, i) }
'''
CON = 'forall|q: int| #[trigger] %s.contains(q) ==> %s'
FE_INV = '''inc(states);; sub(states, H);; ''' + CON % ('waiting', 'states.contains(q)') + ';; ' + CON % ('states0', 'states.contains(q)') + ';; ' + CON % ('states', 'reach_from(H, states0, q)')
CLOSED = 'forall|p: int, q: int| #![trigger step(H, false, p, q)] %s.contains(p) && !waiting.contains(p) %s&& step(H, false, p, q) ==> %s.contains(q)'
FE = dict(params=['states'], requires='edges_ok(H0);; inc(states0);; sub(states0, H0)', ensures='inc(states1);; sub(states1, H0);; forall|q: int| #[trigger] states1.contains(q) <==> reach_from(H0, states0, q) && useful(H0[q])', nloops=2,
          hints={'before loop 1': 'rf_base(H, states0);', 'loop 1 begin': 'pop_has(waiting); sub_has(states, H);',
                 'loop 2 begin': 'raw:let ghost so = states; let ghost wo = waiting;',
                 'loop 2 end': 'let d_ = H[s]._edges[k2]._destination; sub_has(so, H); if H[s]._edges[k2]._epsilon { step_at(H, false, s, k2); rf_step(H, states0, s, d_); ins_any(so, d_); push_has(wo, d_); } has_sub(states, H);',
                 'after loop 2': 'assert forall|q: int| #[trigger] step(H, false, s, q) implies states.contains(q) by { let i = step_of(H, false, s, q); }',
                 'after loop 1': 'closed_reach(H, states, states0); sub_has(states, H);', 'end': 'has_sub(states, H);'},
          loops={1: FE_INV + ';; ' + CLOSED % ('states', '', 'states'),
                 2: FE_INV + ';; states.contains(s);; ' + CLOSED % ('states', '&& p != s ', 'states') + ';; forall|i: int| #![trigger H[s]._edges[i]] 0 <= i < k2 && H[s]._edges[i]._epsilon ==> states.contains(H[s]._edges[i]._destination)'}, **HQ)
CONTRACTS = [
    dict(name='edge_contains', fn=Q + 'edge_t::contains', params=['symbol'], requires='sinc(this0._symbols)', ensures='result == den(this0, symbol0)'),
    dict(name='edge_empty', fn=Q + 'edge_t::empty', params=['n'], requires='sinc(this0._symbols)', ensures=ALPHA + 'result == (forall|x: SymT| #[trigger] a.contains(x) ==> !den(this0, x))',
         hints={'return': 'assert forall|a: Set<SymT>| #[trigger] alpha(a, this0, n0) implies result_ == (forall|x: SymT| #[trigger] a.contains(x) ==> !den(this0, x)) by { count(this0._symbols, a); if this0._symbols.len() > 0 { assert(this0._symbols.contains(this0._symbols[0])); assert(a.contains(this0._symbols[0])); } }'}),
    dict(name='edge_wildcard', fn=Q + 'edge_t::wildcard', params=['n'], requires='sinc(this0._symbols)', ensures=ALPHA + 'result == (forall|x: SymT| #[trigger] a.contains(x) ==> den(this0, x))',
         hints={'return': 'assert forall|a: Set<SymT>| #[trigger] alpha(a, this0, n0) implies result_ == (forall|x: SymT| #[trigger] a.contains(x) ==> den(this0, x)) by { count(this0._symbols, a); if this0._symbols.len() > 0 { assert(this0._symbols.contains(this0._symbols[0])); assert(a.contains(this0._symbols[0])); } }'}),
    dict(name='has_non_epsilon', fn=Q + 'state_t::has_non_epsilon', ensures='result == moves(this0)', spec_call='moves', nloops=1, loops={1: 'forall|i: int| #![trigger this0._edges[i]] 0 <= i < k1 ==> !(this0._edges[i]._negated || this0._edges[i]._symbols.len() > 0)'}),
    dict(FE, name='follow_c', fn=Q + 'follow_epsilon', sig=CP), dict(FE, name='follow_m', fn=Q + 'follow_epsilon', sig=NP),
]
SUCC = 'forall|q: int| #[trigger] result.contains(q) <==> succ(H0, states0, label0, q) && useful(H0[q])'
LE_INV = 'inc(seen);; sub(seen, H);; seen.contains(from);; ' + CON % ('waiting', 'seen.contains(q)') + ';; ' + CON % ('seen', 'reach(H, false, from, q)') + ';; !seen.contains(to)'
IE_INV = 'sinc(result_);; forall|x: SymT| #[trigger] result_.contains(x) <==> labels.contains(x) && (succ_n(H, from_states, x, to_state, k1)%s)'
CONTRACTS += [
    dict(name='leads', fn=Q + 'leads_to_by_epsilon', params=['from', 'to'], requires='edges_ok(H0);; H0.dom().contains(from0)', ensures='result == reach(H0, false, from0, to0)', nloops=2,
         hints={'begin': 'refl(H, false);', 'before loop 1': 'assert(seen.contains(from)) by { assert(seen[0] == from); } assert(inc(seen)); has_sub(seen, H); assert(waiting =~= seen);', 'loop 1 begin': 'pop_has(waiting); sub_has(seen, H);',
                'loop 2 begin': 'raw:let ghost so = seen; let ghost wo = waiting; proof { if H[s]._edges[k2]._epsilon { step_at(H, false, s, k2); step_reach(H, false, from, s, H[s]._edges[k2]._destination); } }',
                'loop 2 end': 'let d_ = H[s]._edges[k2]._destination; sub_has(so, H); if H[s]._edges[k2]._epsilon { ins_any(so, d_); push_has(wo, d_); } has_sub(seen, H);',
                'after loop 2': 'assert forall|q: int| #[trigger] step(H, false, s, q) implies seen.contains(q) by { let i = step_of(H, false, s, q); }',
                'after loop 1': 'if reach(H, false, from, to) { reveal(reach); let n = choose|n: nat| #[trigger] steps(H, false, from, to, n); assert(forall|x: int| #[trigger] seen.to_set().contains(x) == seen.contains(x)); fwd(H, false, seen.to_set(), from, to, n); }'},
         loops={1: LE_INV + ';; ' + CLOSED % ('seen', '', 'seen'), 2: LE_INV + ';; seen.contains(s);; ' + CLOSED % ('seen', '&& p != s ', 'seen') + ';; forall|i: int| #![trigger H[s]._edges[i]] 0 <= i < k2 && H[s]._edges[i]._epsilon ==> seen.contains(H[s]._edges[i]._destination)'}, **HQ),
    dict(name='edge_follow', fn=Q + 'edge_t::follow_epsilon', requires='edges_ok(H0);; H0.dom().contains(this0._destination)', ensures='inc(result);; sub(result, H0);; forall|q: int| #[trigger] result.contains(q) <==> reach(H0, false, this0._destination, q) && useful(H0[q])',
         hints={'begin': 'rf_one(H, this0._destination);', 'before follow_m 1': 'assert(next =~= seq![this0._destination]); assert(next[0] == this0._destination);'}, **HQ),
]
for nm, sg in (('c', CP), ('m', NP)):
    CONTRACTS += [
        dict(name='successor_' + nm, fn=Q + 'successor', sig=sg, params=['states', 'label'], requires='edges_ok(H0);; sub(states0, H0)', ensures='inc(result);; sub(result, H0);; ' + SUCC, nloops=2,
             hints={'loop 2 begin': 'raw:let ghost no = next; ', 'loop 2 end': 'tgt_p(H, states[k1], label, k2); ins_any(no, H[states[k1]]._edges[k2]._destination); sub_has(no, H); has_sub(next, H);', 'loop 1 end': 'tgt(H, states, label, k1);',
                    'before follow_%s 1' % nm: 'succ_closure(H, states, label, next);'},
             loops={1: 'inc(next);; sub(next, H);; forall|q: int| #[trigger] next.contains(q) <==> targets(H, states, label, q, k1)', 2: 'inc(next);; sub(next, H);; forall|q: int| #[trigger] next.contains(q) <==> targets(H, states, label, q, k1) || target_p(H, states[k1], label, q, k2)'}, **HQ),
        dict(name='has_succ_' + nm, fn=Q + 'has_as_successor', sig=sg, params=['states', 'label', 'goal'], requires='edges_ok(H0);; sub(states0, H0)', ensures='result == (succ(H0, states0, label0, goal0) && useful(H0[goal0]))',
             hints={'return': 'ins_any(successor_states, goal); assert(successor_states.contains(goal) == (succ(H, states, label, goal) && useful(H[goal])));'}, **HQ),
        dict(name='labels_' + nm, fn=Q + 'intersect_edge_labels', sig=sg, params=['from_states', 'to_state', 'labels'], requires='edges_ok(H0);; sub(from_states0, H0);; sinc(labels0)', ensures='sinc(result);; forall|x: SymT| #[trigger] result.contains(x) <==> labels0.contains(x) && succ(H0, from_states0, x, to_state0)', nloops=2,
             hints={'before loop 1': 'assert(sinc(result_));', 'loop 2 begin': 'via_next(H, from_states[k1], to_state, k2); via_split(H, from_states[k1], to_state, k2); ext();', 'loop 1 end': 'succ_next(H, from_states, to_state, k1);', 'after loop 1': 'succ_all(H, from_states, to_state, labels);', 'return 1': 'wild(H, from_states, k1, k2, to_state);', 'return 2': 'succ_some(H, from_states, k1, k2, to_state, labels, result_);'},
             loops={1: IE_INV % '', 2: IE_INV % ' || via_n(H, from_states[k1], x, to_state, k2)'}, **HQ),
    ]
CONTRACTS += [
    dict(name='has_succ_1', fn=Q + 'has_as_successor', sig=r'.*\(const state_t \*.*', params=['state', 'label', 'goal'], requires='edges_ok(H0);; H0.dom().contains(state0)', ensures='result == (via_p(H0, state0, label0, goal0) && useful(H0[goal0]))', hints={'begin': 'succ_one(H, state);'}, **HQ),
    dict(name='labels_1', fn=Q + 'intersect_edge_labels', sig=r'.*\(const state_t \*.*', params=['from_state', 'to_state', 'labels'], requires='edges_ok(H0);; H0.dom().contains(from_state0);; sinc(labels0)', ensures='sinc(result);; forall|x: SymT| #[trigger] result.contains(x) <==> labels0.contains(x) && via_p(H0, from_state0, x, to_state0)', hints={'begin': 'succ_one(H, from_state);'}, **HQ),
]
P_INV = '''sinc(labels);; seen.contains(this0);; forall|q: int| #[trigger] seen.contains(q) ==> H.dom().contains(q) && reach(H, true, q, this0);; forall|q: int| #[trigger] waiting.contains(q) ==> seen.contains(q);;
   forall|x: SymT| #[trigger] labels.contains(x) ==> pre_lab(H, all_labels, this0, x);; forall|p: int, k: int| #![trigger H[p]._backedges[k]] seen.contains(p) && !waiting.contains(p) %s&& 0 <= k < H[p]._backedges.len() ==> seen.contains(H[p]._backedges[k].0) && cov(H, labels, all_labels, p, k)'''
PS = ';; seen.contains(s);; forall|k: int| #![trigger H[s]._backedges[k]] 0 <= k < k2 ==> seen.contains(H[s]._backedges[k].0) && cov(H, labels, all_labels, s, k)'
PL = ';; forall|x: SymT| #[trigger] lo.contains(x) ==> labels.contains(x);; seen.contains(H[s]._backedges[k2].0)'
CONTRACTS += [
    dict(name='empty_accept', fn=Q + 'empty_accept', requires='inc(this0._initial);; sub(this0._initial, H0)', ensures='result == exists|i: int| #![trigger this0._initial[i]] 0 <= i < this0._initial.len() && H0[this0._initial[i]]._accepting', **HQ),
    dict(name='prelabels', fn=Q + 'state_t::prelabels', heap_this='state', params=['all_labels'], requires='edges_ok(H0);; back_ok(H0);; sym_order();; H0.dom().contains(this0);; in_alphabet(H0, all_labels0)', ensures='sinc(result);; forall|x: SymT| #[trigger] result.contains(x) <==> pre_lab(H0, all_labels0, this0, x)', nloops=4,
         hints={'before loop 1': 'refl(H, true); assert(waiting =~= Seq::<int>::empty().push(this0)); push_has(Seq::<int>::empty(), this0);', 'loop 1 begin': 'pop_has(waiting);',
                'loop 2 begin': 'raw:let ghost lo = labels; let ghost so = seen; let ghost wo = waiting; let ghost bp = H[s]._backedges[k2].0; let ghost bi = H[s]._backedges[k2].1; proof { step_at(H, true, bp, bi); pre_reach(H, true, bp, s, this0); push_has(waiting, bp); assert(H[bp]._edges[bi]._destination == s); }',
                'loop 3 begin': 'raw:let ghost l3 = labels; proof { slb_any(labels, rng3_s[k3]); slb_any(H[bp]._edges[bi]._symbols, rng3_s[k3]); assert(rng3_s.contains(rng3_s[k3])); }',
                'loop 3 end': 'pre_in(H, all_labels, this0, bp, bi);', 'loop 4 end': 'pre_in(H, all_labels, this0, bp, bi);',
                'loop 4 begin': 'raw:let ghost l4 = labels; proof { slb_any(labels, rng4_s[k4]); assert(rng4_s.contains(rng4_s[k4])); assert(H[bp]._edges[bi]._symbols.contains(rng4_s[k4])); }',
                'loop 2 end': 'cov_in(H, labels, all_labels, s, k2); cov_mono(H, lo, labels, all_labels);',
                'return 1': 'pre_wild(H, all_labels, this0, bp, bi);  sorted_inc(result_);',
                'after loop 1': 'pre_done(H, labels, all_labels, seen, this0);'},
         loops={1: P_INV % '', 2: P_INV % '&& p != s ' + PS,
                3: 'sinc(labels);; forall|x: SymT| #[trigger] labels.contains(x) ==> pre_lab(H, all_labels, this0, x);; forall|x: SymT| #[trigger] lo.contains(x) ==> labels.contains(x);; forall|j: int| #![trigger rng3_s[j]] 0 <= j < k3 && den(H[bp]._edges[bi], rng3_s[j]) ==> labels.contains(rng3_s[j])',
                4: 'sinc(labels);; forall|x: SymT| #[trigger] labels.contains(x) ==> pre_lab(H, all_labels, this0, x);; forall|x: SymT| #[trigger] lo.contains(x) ==> labels.contains(x);; forall|j: int| #![trigger rng4_s[j]] 0 <= j < k4 ==> labels.contains(rng4_s[j])'}, **HQ),
]
LEMMAS += r"""
proof fn slb_any(s: Seq<SymT>, x: SymT) requires sinc(s), ensures forall|k: int| #![trigger s.insert(k, x)] #![trigger s[k]] 0 <= k <= s.len() && (forall|i: int| #![trigger s[i]] 0 <= i < k ==> sym_lt(s[i], x)) && (forall|i: int| #![trigger s[i]] k <= i < s.len() ==> !sym_lt(s[i], x))
      ==> (k < s.len() && s[k] == x) == s.contains(x) && (!s.contains(x) ==> sinc(s.insert(k, x)) && forall|y: SymT| #[trigger] s.insert(k, x).contains(y) <==> s.contains(y) || y == x)
{ assert forall|k: int| #![trigger s.insert(k, x)] #![trigger s[k]] 0 <= k <= s.len() && (forall|i: int| #![trigger s[i]] 0 <= i < k ==> sym_lt(s[i], x)) && (forall|i: int| #![trigger s[i]] k <= i < s.len() ==> !sym_lt(s[i], x))
      implies (k < s.len() && s[k] == x) == s.contains(x) && (!s.contains(x) ==> sinc(s.insert(k, x)) && forall|y: SymT| #[trigger] s.insert(k, x).contains(y) <==> s.contains(y) || y == x) by { slb_fact(s, k, x); } }
proof fn pre_in(H: Heap, all: Set<SymT>, q: int, p: int, i: int) requires H.dom().contains(p), 0 <= i < H[p]._edges.len(), reach(H, true, H[p]._edges[i]._destination, q), ensures forall|x: SymT| all.contains(x) && den(H[p]._edges[i], x) ==> #[trigger] pre_lab(H, all, q, x)
{ assert forall|x: SymT| all.contains(x) && den(H[p]._edges[i], x) implies #[trigger] pre_lab(H, all, q, x) by { assert(pre_at(H, q, x, p, i)); } }
proof fn pre_wild(H: Heap, all: Set<SymT>, q: int, p: int, i: int) requires H.dom().contains(p), 0 <= i < H[p]._edges.len(), reach(H, true, H[p]._edges[i]._destination, q), H[p]._edges[i]._negated, H[p]._edges[i]._symbols.len() == 0, ensures forall|x: SymT| #[trigger] pre_lab(H, all, q, x) <==> all.contains(x)
{ assert forall|x: SymT| #[trigger] pre_lab(H, all, q, x) <==> all.contains(x) by { if all.contains(x) { assert(!H[p]._edges[i]._symbols.contains(x)); assert(pre_at(H, q, x, p, i)); } } }
proof fn cov_in(H: Heap, l: Seq<SymT>, all: Set<SymT>, s: int, k: int) requires forall|x: SymT| all.contains(x) && #[trigger] den(H[H[s]._backedges[k].0]._edges[H[s]._backedges[k].1], x) ==> l.contains(x), ensures cov(H, l, all, s, k),
{}
proof fn cov_mono(H: Heap, o: Seq<SymT>, l: Seq<SymT>, all: Set<SymT>) requires forall|x: SymT| #[trigger] o.contains(x) ==> l.contains(x), ensures forall|p: int, k: int| #![trigger H[p]._backedges[k]] cov(H, o, all, p, k) ==> cov(H, l, all, p, k),
{}
proof fn sorted_inc(s: Seq<SymT>) requires sym_order(), s.no_duplicates(), forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !sym_lt(s[j], s[i]), ensures sinc(s)
{ assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies sym_lt(s[i], s[j]) by { assert(s[i] != s[j]); assert(!sym_lt(s[j], s[i])); assert(sym_lt(s[i], s[j]) || s[i] == s[j] || sym_lt(s[j], s[i])); } }
proof fn pre_done(H: Heap, l: Seq<SymT>, all: Set<SymT>, seen: Set<int>, q: int)
    requires edges_ok(H), back_ok(H), seen.contains(q), forall|p: int| #[trigger] seen.contains(p) ==> H.dom().contains(p), forall|p: int, k: int| #![trigger H[p]._backedges[k]] seen.contains(p) && 0 <= k < H[p]._backedges.len() ==> seen.contains(H[p]._backedges[k].0) && cov(H, l, all, p, k),
    ensures forall|x: SymT| #[trigger] pre_lab(H, all, q, x) ==> l.contains(x)
{ assert forall|x: SymT| #[trigger] pre_lab(H, all, q, x) implies l.contains(x) by { let (p, i) = choose|p: int, i: int| #[trigger] pre_at(H, q, x, p, i); let d = H[p]._edges[i]._destination; reveal(reach); let n = choose|n: nat| #[trigger] steps(H, true, d, q, n);
    assert forall|a: int, b: int| #![trigger step(H, true, a, b)] seen.contains(b) && step(H, true, a, b) implies seen.contains(a) by { let j = step_of(H, true, a, b); assert(H[b]._backedges.contains((a, j))); let k = choose|k: int| 0 <= k < H[b]._backedges.len() && H[b]._backedges[k] == (a, j); assert(seen.contains(H[b]._backedges[k].0)); }
    bwd(H, true, seen, d, q, n); assert(H[d]._backedges.contains((p, i))); let k = choose|k: int| 0 <= k < H[d]._backedges.len() && H[d]._backedges[k] == (p, i); assert(cov(H, l, all, d, k)); } }
"""
SPEC += r"""
pub open spec fn cov(H: Heap, l: Seq<SymT>, all: Set<SymT>, s: int, k: int) -> bool { forall|x: SymT| all.contains(x) && #[trigger] den(H[H[s]._backedges[k].0]._edges[H[s]._backedges[k].1], x) ==> l.contains(x) }
pub open spec fn succ_n(H: Heap, s: Seq<int>, x: SymT, q: int, n: int) -> bool { exists|k: int| #![trigger s[k]] 0 <= k < n && via_p(H, s[k], x, q) }
pub open spec fn via_n(H: Heap, p: int, x: SymT, q: int, n: int) -> bool { exists|i: int| i < n && #[trigger] thru(H, p, i, x, q) }
"""
LEMMAS += r"""
proof fn rf_one(H: Heap, p: int) ensures forall|q: int| #[trigger] reach_from(H, seq![p], q) == reach(H, false, p, q)
{ reveal(reach_from); assert forall|q: int| #[trigger] reach_from(H, seq![p], q) == reach(H, false, p, q) by { let s = seq![p]; assert(s[0] == p); if reach(H, false, p, q) { assert(reach(H, false, s[0], q)); } } }
proof fn succ_one(H: Heap, p: int) ensures forall|x: SymT, q: int| #[trigger] succ(H, seq![p], x, q) == via_p(H, p, x, q), seq![p] =~= Seq::<int>::empty().push(p), seq![p][0] == p
{ assert forall|x: SymT, q: int| #[trigger] succ(H, seq![p], x, q) == via_p(H, p, x, q) by { let s = seq![p]; assert(s[0] == p); if via_p(H, p, x, q) { assert(via_p(H, s[0], x, q)); } } }
proof fn ext() ensures forall|s: Seq<SymT>| #[trigger] s.subrange(0, s.len() as int) == s, forall|s: Seq<SymT>| #[trigger] (Seq::<SymT>::empty() + s) == s
{ assert forall|s: Seq<SymT>| #[trigger] s.subrange(0, s.len() as int) == s by { assert(s.subrange(0, s.len() as int) =~= s); } assert forall|s: Seq<SymT>| #[trigger] (Seq::<SymT>::empty() + s) == s by { assert(Seq::<SymT>::empty() + s =~= s); } }
proof fn via_next(H: Heap, p: int, q: int, n: int) ensures forall|x: SymT| #[trigger] via_n(H, p, x, q, n + 1) <==> via_n(H, p, x, q, n) || thru(H, p, n, x, q)
{ assert forall|x: SymT| #[trigger] via_n(H, p, x, q, n + 1) <==> via_n(H, p, x, q, n) || thru(H, p, n, x, q) by { if thru(H, p, n, x, q) { assert(n < n + 1); } } }
proof fn succ_next(H: Heap, s: Seq<int>, q: int, n: int) requires 0 <= n < s.len(), ensures forall|x: SymT| #[trigger] succ_n(H, s, x, q, n + 1) <==> succ_n(H, s, x, q, n) || via_n(H, s[n], x, q, H[s[n]]._edges.len() as int)
{ assert forall|x: SymT| #[trigger] succ_n(H, s, x, q, n + 1) <==> succ_n(H, s, x, q, n) || via_n(H, s[n], x, q, H[s[n]]._edges.len() as int) by { if via_n(H, s[n], x, q, H[s[n]]._edges.len() as int) { assert(via_p(H, s[n], x, q)); } if succ_n(H, s, x, q, n + 1) { let k = choose|k: int| #![trigger s[k]] 0 <= k < n + 1 && via_p(H, s[k], x, q); if k == n { let i = choose|i: int| #[trigger] thru(H, s[k], i, x, q); assert(i < H[s[n]]._edges.len()); } } } }
proof fn via_split(H: Heap, p: int, q: int, n: int) requires 0 <= n < H[p]._edges.len(), ensures forall|x: SymT| #[trigger] thru(H, p, n, x, q) <==> den(H[p]._edges[n], x) && reach(H, false, H[p]._edges[n]._destination, q),
{}
proof fn via_succ(H: Heap, s: Seq<int>, k: int, i: int, x: SymT, q: int) requires 0 <= k < s.len(), thru(H, s[k], i, x, q), ensures succ(H, s, x, q),
{ assert(via_p(H, s[k], x, q)); }
proof fn wild(H: Heap, s: Seq<int>, k: int, i: int, q: int) requires 0 <= k < s.len(), 0 <= i < H[s[k]]._edges.len(), H[s[k]]._edges[i]._negated, H[s[k]]._edges[i]._symbols.len() == 0, reach(H, false, H[s[k]]._edges[i]._destination, q), ensures forall|x: SymT| #[trigger] succ(H, s, x, q)
{ assert forall|x: SymT| #[trigger] succ(H, s, x, q) by { assert(!H[s[k]]._edges[i]._symbols.contains(x)); assert(thru(H, s[k], i, x, q)); via_succ(H, s, k, i, x, q); } }
proof fn succ_some(H: Heap, s: Seq<int>, k: int, i: int, q: int, labels: Seq<SymT>, r: Seq<SymT>) requires 0 <= k < s.len(), 0 <= i < H[s[k]]._edges.len(), sinc(labels), sinc(r), r.len() == labels.len(), forall|x: SymT| #[trigger] r.contains(x) <==> labels.contains(x) && (succ_n(H, s, x, q, k) || via_n(H, s[k], x, q, i + 1)),
    ensures forall|x: SymT| #[trigger] r.contains(x) <==> labels.contains(x) && succ(H, s, x, q)
{ sinc_len(labels); count(r, labels.to_set()); assert forall|x: SymT| #[trigger] r.contains(x) <==> labels.contains(x) && succ(H, s, x, q) by {
    if labels.contains(x) { assert(labels.to_set().contains(x)); assert(r.contains(x)); }
    if r.contains(x) { if via_n(H, s[k], x, q, i + 1) { let j = choose|j: int| j < i + 1 && #[trigger] thru(H, s[k], j, x, q); via_succ(H, s, k, j, x, q); } else { let j = choose|j: int| #![trigger s[j]] 0 <= j < k && via_p(H, s[j], x, q); assert(via_p(H, s[j], x, q)); } } } }
proof fn succ_all(H: Heap, s: Seq<int>, q: int, labels: Seq<SymT>) ensures forall|x: SymT| #[trigger] succ_n(H, s, x, q, s.len() as int) == succ(H, s, x, q) {}
"""


def unit(ast):
    sym = lambda T, m: Ty('raw', name='SymT')
    cfg = dict(types=[(r'(pdaaal::)?(verif::)?sym_t', sym)], raw_less={'SymT': 'sym_lt'}, rec_names={r'.*::state_t': 'nstate', r'.*::edge_t': 'nedge', r'.*::NFA<.*sym_t>': 'nfa_t'},
               pointer=lambda T, i: Ty('hptr', [], name='state') if i.endswith('state_t') else None, unique_ptr=lambda T, s, inner: Ty('hptr', [], name='state'),
               heap={'state': ('H', 'pdaaal::NFA<pdaaal::verif::sym_t>::state_t')}, heaps={'H': Ty('raw', name='Heap')},
               builtins=[(r'.*verif::operator<', lambda fn, d, n, args, want, me, th: 'sym_lt(%s, %s)' % tuple(fn.rvs(args))),
                         (r'.*verif::operator==', lambda fn, d, n, args, want, me, th: '(%s == %s)' % tuple(fn.rvs(args))),
                         (r'.*verif::operator!=', lambda fn, d, n, args, want, me, th: '(%s != %s)' % tuple(fn.rvs(args)))])
    return Unit('nfaq', 'nfa.cpp', CONTRACTS, cfg, SPEC, LEMMAS, ast)
