"""S01: backward saturation (unweighted), with and without early termination."""
from unit import Unit
import proofs.units.satbase as B

SPEC = B.SPEC + r'''
// ---- saturation: edges justified by one rule and edges that are already there
pub open spec fn two(A: Aut, a: int, y: int, m: int, x: int, q: int) -> bool { edge(A, a, y, m) && edge(A, m, x, q) }
pub open spec fn by(s: Sys, nl: int, A: Aut, r: rule_t, p: int, x: int, q: int) -> bool {
    &&& reads(s, nl, p, r, x) &&& r._operation == POP() || r._operation == SWAP() || r._operation == NOOP() || r._operation == PUSH()
    &&& r._operation == POP() ==> q == r._to
    &&& r._operation == SWAP() ==> edge(A, r._to, r._op_label, q)
    &&& r._operation == NOOP() ==> edge(A, r._to, x, q)
    &&& r._operation == PUSH() ==> exists|m: int| #[trigger] two(A, r._to, r._op_label, m, x, q)
}
#[verifier::opaque]
pub open spec fn one(s: Sys, nl: int, A: Aut, p: int, x: int, q: int) -> bool { exists|r: rule_t| #[trigger] by(s, nl, A, r, p, x, q) }
// derivable from A by at most n rounds
pub open spec fn rby(s: Sys, nl: int, R: spec_fn(int, int, int) -> bool, r: rule_t, p: int, x: int, q: int) -> bool {
    &&& reads(s, nl, p, r, x)
    &&& (r._operation == POP() && q == r._to) || (r._operation == SWAP() && R(r._to, r._op_label, q)) || (r._operation == NOOP() && R(r._to, x, q)) || (r._operation == PUSH() && exists|m: int| #[trigger] R(r._to, r._op_label, m) && R(m, x, q))
}
pub open spec fn lev(s: Sys, nl: int, A: Aut, n: nat) -> spec_fn(int, int, int) -> bool decreases n { if n == 0 { |p: int, x: int, q: int| edge(A, p, x, q) } else { |p: int, x: int, q: int| edge(A, p, x, q) || exists|r: rule_t| #[trigger] rby(s, nl, lev(s, nl, A, (n - 1) as nat), r, p, x, q) } }
pub open spec fn dby(s: Sys, nl: int, A: Aut, r: rule_t, p: int, x: int, q: int, n: nat) -> bool { n > 0 && rby(s, nl, lev(s, nl, A, (n - 1) as nat), r, p, x, q) }
#[verifier::opaque]
pub open spec fn der(s: Sys, nl: int, A: Aut, p: int, x: int, q: int, n: nat) -> bool { lev(s, nl, A, n)(p, x, q) }
#[verifier::opaque]
pub open spec fn deriv(s: Sys, nl: int, A: Aut, p: int, x: int, q: int) -> bool { exists|n: nat| #[trigger] der(s, nl, A, p, x, q, n) }
pub open spec fn sound(s: Sys, nl: int, A: Aut, B: Aut) -> bool { same_acc(A, B) && forall|p: int, x: int, q: int| #[trigger] edge(B, p, x, q) ==> deriv(s, nl, A, p, x, q) }
pub open spec fn live(A: Aut, p: int) -> bool { acc(A, p) || exists|x: int, q: int| #[trigger] edge(A, p, x, q) }
// nothing is missing: every edge justified by a rule is there (pop edges where the target state is of any use)
#[verifier::opaque]
pub open spec fn closed(s: Sys, nl: int, A: Aut) -> bool { forall|r: rule_t, p: int, x: int, q: int| #[trigger] by(s, nl, A, r, p, x, q) && (r._operation == POP() ==> live(A, q)) ==> edge(A, p, x, q) }
// ---- the saturation object
pub open spec fn aut(o: psat) -> Aut { o._automaton._states }
#[verifier::opaque]
pub open spec fn in_work(o: psat, p: int, x: int, q: int) -> bool { o._workset.contains(temp_edge_t { _from: p, _label: x, _to: q }) }
#[verifier::opaque]
pub open spec fn in_rel(o: psat, p: int, x: int, q: int) -> bool { 0 <= p < o._rel.len() && o._rel[p].contains((q, x)) }
#[verifier::opaque]
pub open spec fn in_dp(o: psat, m: int, p: int, i: int) -> bool { 0 <= m < o._delta_prime.len() && o._delta_prime[m].contains((p, i)) }
pub open spec fn dp_ok(s: Sys, A: Aut, m: int, p: int, i: int) -> bool { is_rl(s, p, i) && rl(s, p, i)._operation == PUSH() && edge(A, rl(s, p, i)._to, rl(s, p, i)._op_label, m) }
pub open spec fn shape(o: psat) -> bool { o._n_pda_states == o._pda_states.len() <= aut(o).len() && o._n_automaton_states == aut(o).len() && o._rel.len() == aut(o).len() && o._delta_prime.len() == aut(o).len() && o._popped.len() == o._pda_states.len() && sys_ok(o._pda_states, o._n_pda_labels) && a_ok(aut(o)) && in_range(aut(o), o._n_pda_labels) }
pub open spec fn same(o: psat, n: psat) -> bool { n._pda_states == o._pda_states && n._n_pda_states == o._n_pda_states && n._n_automaton_states == o._n_automaton_states && n._n_pda_labels == o._n_pda_labels && n._rel == o._rel && n._delta_prime.len() == o._delta_prime.len() && n._popped.len() == o._popped.len() && n._automaton._pda == o._automaton._pda }
// one edge was asked for
#[verifier::opaque]
pub open spec fn ins1(o: psat, n: psat, a: int, y: int, b: int) -> bool {
    &&& same(o, n) && n._popped == o._popped && n._delta_prime == o._delta_prime && a_ok(aut(n)) && same_acc(aut(o), aut(n))
    &&& forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) <==> edge(aut(o), p, x, q) || (p == a && x == y && q == b)
    &&& forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) <==> in_work(o, p, x, q) || (p == a && x == y && q == b && !edge(aut(o), p, x, q))
    &&& n._found ==> o._found || told(aut(o), aut(n))
}
// edges with the labels l (below m) were asked for
#[verifier::opaque]
pub open spec fn insb(o: psat, n: psat, a: int, l: labels_t, m: int, b: int) -> bool {
    &&& same(o, n) && n._popped == o._popped && n._delta_prime == o._delta_prime && a_ok(aut(n)) && same_acc(aut(o), aut(n))
    &&& forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) <==> edge(aut(o), p, x, q) || (p == a && den(l, x) && 0 <= x < m && q == b)
    &&& forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) <==> in_work(o, p, x, q) || (p == a && den(l, x) && 0 <= x < m && q == b && !edge(aut(o), p, x, q))
    &&& n._found ==> o._found || told(aut(o), aut(n))
}
// only edges that a rule justifies (from the edges of B) were added, each to be treated later
#[verifier::opaque]
pub open spec fn gr(o: psat, n: psat, B: Aut) -> bool {
    &&& same(o, n) && a_ok(aut(n)) && same_acc(aut(o), aut(n)) && incl(aut(o), aut(n))
    &&& forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) ==> edge(aut(o), p, x, q) || (one(o._pda_states, o._n_pda_labels, B, p, x, q) && in_work(n, p, x, q))
    &&& forall|p: int, x: int, q: int| #[trigger] in_work(o, p, x, q) ==> in_work(n, p, x, q)
    &&& forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) ==> in_work(o, p, x, q) || edge(aut(n), p, x, q)
    &&& forall|m: int, p: int, i: int| #[trigger] in_dp(o, m, p, i) ==> in_dp(n, m, p, i)
    &&& n._found ==> o._found || told(aut(o), aut(n))
}
// all edges into f that pop rules ask for
#[verifier::opaque]
pub open spec fn pops(o: psat, f: int) -> bool { forall|p: int, i: int, x: int| #[trigger] rd(o._pda_states, o._n_pda_labels, p, i, x) && rl(o._pda_states, p, i)._operation == POP() && rl(o._pda_states, p, i)._to == f ==> edge(aut(o), p, x, f) }
// what a rule asks for because of the edge (f, y, g), apart from edges that follow g
pub open spec fn direct(o: psat, p: int, i: int, f: int, y: int, g: int) -> bool {
    let s = o._pda_states; let nl = o._n_pda_labels; let r = rl(s, p, i);
    &&& r._operation == SWAP() && r._op_label == y ==> forall|x: int| #[trigger] rd(s, nl, p, i, x) ==> edge(aut(o), p, x, g)
    &&& r._operation == NOOP() && rd(s, nl, p, i, y) ==> edge(aut(o), p, y, g)
    &&& r._operation == PUSH() && r._op_label == y ==> in_dp(o, g, p, i)
}
pub open spec fn pop_at(o: psat, p: int, i: int, f: int) -> bool { rl(o._pda_states, p, i)._operation == POP() ==> forall|x: int| #[trigger] rd(o._pda_states, o._n_pda_labels, p, i, x) ==> edge(aut(o), p, x, f) }
pub open spec fn cross(o: psat, g: int, p: int, i: int) -> bool { forall|x: int, q: int| #[trigger] in_rel(o, g, x, q) && rd(o._pda_states, o._n_pda_labels, p, i, x) ==> edge(aut(o), p, x, q) }
// rule i of p is done with the edge (f, y, g)
#[verifier::opaque]
pub open spec fn handled(o: psat, p: int, i: int, f: int, y: int, g: int) -> bool { direct(o, p, i, f, y, g) && pop_at(o, p, i, f) && (rl(o._pda_states, p, i)._operation == PUSH() && rl(o._pda_states, p, i)._op_label == y ==> cross(o, g, p, i)) }
#[verifier::opaque]
pub open spec fn direct_all(o: psat, f: int, y: int, g: int) -> bool { forall|p: int, i: int| #[trigger] is_rl(o._pda_states, p, i) && rl(o._pda_states, p, i)._to == f ==> direct(o, p, i, f, y, g) }
pub open spec fn rel_done(o: psat, f: int, y: int, g: int) -> bool { f < o._popped.len() ==> o._popped[f] && direct_all(o, f, y, g) }
// the invariant of the saturation
pub open spec fn inv(o: psat) -> bool {
    &&& shape(o)
    &&& forall|p: int, x: int, q: int| #[trigger] edge(aut(o), p, x, q) ==> in_work(o, p, x, q) || in_rel(o, p, x, q)
    &&& forall|p: int, x: int, q: int| #[trigger] in_work(o, p, x, q) ==> edge(aut(o), p, x, q)
    &&& forall|p: int, x: int, q: int| #[trigger] in_rel(o, p, x, q) ==> edge(aut(o), p, x, q) && rel_done(o, p, x, q)
    &&& forall|f: int| 0 <= f < o._popped.len() && #[trigger] o._popped[f] ==> pops(o, f)
    &&& forall|m: int, p: int, i: int| #[trigger] in_dp(o, m, p, i) ==> dp_ok(o._pda_states, aut(o), m, p, i) && cross(o, m, p, i)
}
pub open spec fn acc_popped(o: psat) -> bool { forall|p: int| #[trigger] acc(aut(o), p) && p < o._popped.len() ==> o._popped[p] }
// entry i < k of p with target f: pop edges are there
#[verifier::opaque]
pub open spec fn popd(o: psat, p: int, f: int, k: int) -> bool { forall|i: int| #[trigger] is_rl(o._pda_states, p, i) && i < k && rl(o._pda_states, p, i)._to == f ==> pop_at(o, p, i, f) }
#[verifier::opaque]
pub open spec fn popds(o: psat, l: Seq<int>, f: int, k: int) -> bool { forall|j: int| #![trigger l[j]] 0 <= j < k && j < l.len() ==> popd(o, l[j], f, o._pda_states[l[j]]._rules.elems.len() as int) }
// the entries i < k of p are done with the edge
#[verifier::opaque]
pub open spec fn hand(o: psat, p: int, f: int, y: int, g: int, k: int) -> bool { forall|i: int| #[trigger] is_rl(o._pda_states, p, i) && i < k && rl(o._pda_states, p, i)._to == f ==> handled(o, p, i, f, y, g) }
#[verifier::opaque]
pub open spec fn hands(o: psat, l: Seq<int>, f: int, y: int, g: int, k: int) -> bool { forall|j: int| #![trigger l[j]] 0 <= j < k && j < l.len() ==> hand(o, l[j], f, y, g, o._pda_states[l[j]]._rules.elems.len() as int) }
// the first k derived rules l are done with the edge labelled y to g
#[verifier::opaque]
pub open spec fn dpd(o: psat, l: Seq<(int, int)>, y: int, g: int, k: int) -> bool { forall|j: int| #![trigger l[j]] 0 <= j < k && j < l.len() && rd(o._pda_states, o._n_pda_labels, l[j].0, l[j].1, y) ==> edge(aut(o), l[j].0, y, g) }
// entry i of p is done with the first k edges l
#[verifier::opaque]
pub open spec fn crossk(o: psat, l: Seq<(int, int)>, p: int, i: int, k: int) -> bool { forall|j: int| #![trigger l[j]] 0 <= j < k && j < l.len() && rd(o._pda_states, o._n_pda_labels, p, i, l[j].1) ==> edge(aut(o), p, l[j].1, l[j].0) }
// new derived rules come from the edge
#[verifier::opaque]
pub open spec fn dp_new(o: psat, n: psat, f: int, y: int, g: int) -> bool { forall|m: int, p: int, i: int| #[trigger] in_dp(n, m, p, i) ==> in_dp(o, m, p, i) || (m == g && is_rl(o._pda_states, p, i) && rl(o._pda_states, p, i)._operation == PUSH() && rl(o._pda_states, p, i)._to == f && rl(o._pda_states, p, i)._op_label == y) }
// the edge moved from the work set to the treated edges
#[verifier::opaque]
pub open spec fn taken(o: psat, n: psat, f: int, y: int, g: int) -> bool {
    &&& n == psat { _workset: n._workset, _rel: n._rel, ..o } && n._rel.len() == o._rel.len() && in_work(o, f, y, g)
    &&& forall|p: int, x: int, q: int| #[trigger] in_rel(n, p, x, q) <==> in_rel(o, p, x, q) || (p == f && x == y && q == g)
    &&& forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) ==> in_work(o, p, x, q)
    &&& forall|p: int, x: int, q: int| #[trigger] in_work(o, p, x, q) ==> in_work(n, p, x, q) || (p == f && x == y && q == g)
}
// what one round does to the automaton
pub open spec fn stepped(o: psat, n: psat) -> bool {
    &&& n._pda_states == o._pda_states && n._n_pda_labels == o._n_pda_labels && n._automaton._pda == o._automaton._pda && same_acc(aut(o), aut(n)) && incl(aut(o), aut(n))
    &&& forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) ==> edge(aut(o), p, x, q) || one(o._pda_states, o._n_pda_labels, aut(o), p, x, q)
    &&& n._found ==> o._found || told(aut(o), aut(n))
}
pub open spec fn popped_kept(o: psat, n: psat) -> bool { n._popped.len() == o._popped.len() && forall|f: int| #![trigger n._popped[f]] 0 <= f < o._popped.len() && o._popped[f] ==> n._popped[f] }
pub open spec fn start(o: psat) -> bool { shape(o) && o._workset.len() == 0 && !o._found && (forall|p: int| #![trigger o._rel[p]] 0 <= p < o._rel.len() ==> o._rel[p].len() == 0) && (forall|p: int| #![trigger o._delta_prime[p]] 0 <= p < o._delta_prime.len() ==> o._delta_prime[p].len() == 0) && (forall|p: int| #![trigger o._popped[p]] 0 <= p < o._popped.len() ==> !o._popped[p]) }
// the edges out of states below k are in the work set
#[verifier::opaque]
pub open spec fn loaded(o: psat, k: int) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(aut(o), p, x, q) && p < k ==> in_work(o, p, x, q) }
#[verifier::opaque]
pub open spec fn load_to(o: psat, p: int, l: Seq<(int, lmap)>, k: int) -> bool { forall|j: int, i: int| #![trigger l[j].1.elems[i]] 0 <= j < k && j < l.len() && 0 <= i < l[j].1.elems.len() ==> in_work(o, p, l[j].1.elems[i].first, l[j].0) }
#[verifier::opaque]
pub open spec fn load_lab(o: psat, p: int, q: int, l: Seq<lelem>, k: int) -> bool { forall|i: int| #![trigger l[i]] 0 <= i < k && i < l.len() ==> in_work(o, p, l[i].first, q) }
#[verifier::opaque]
pub open spec fn work_ok(o: psat) -> bool { forall|p: int, x: int, q: int| #[trigger] in_work(o, p, x, q) ==> edge(aut(o), p, x, q) }
pub open spec fn input_ok(a: paut) -> bool { sys_ok(a._pda._states, nlabels(a._pda)) && a._pda._states.len() <= a._states.len() && a_ok(a._states) && in_range(a._states, nlabels(a._pda)) }
// the automaton only got edges that rules justify
pub open spec fn inc_sound(a: paut, b: paut) -> bool { incl(a._states, b._states) && sound(a._pda._states, nlabels(a._pda), a._states, b._states) }
'''
LEMMAS = B.LEMMAS + r'''
// ---- derivations
proof fn der_def(s: Sys, nl: int, A: Aut, p: int, x: int, q: int, n: nat) ensures der(s, nl, A, p, x, q, n) <==> edge(A, p, x, q) || exists|r: rule_t| #[trigger] dby(s, nl, A, r, p, x, q, n) { reveal(der);
  if n > 0 { let R = lev(s, nl, A, (n - 1) as nat); if exists|r: rule_t| #[trigger] rby(s, nl, R, r, p, x, q) { let r = choose|r: rule_t| #[trigger] rby(s, nl, R, r, p, x, q); assert(dby(s, nl, A, r, p, x, q, n)); } if exists|r: rule_t| #[trigger] dby(s, nl, A, r, p, x, q, n) { let r = choose|r: rule_t| #[trigger] dby(s, nl, A, r, p, x, q, n); assert(rby(s, nl, R, r, p, x, q)); } } }
pub open spec fn dstep(s: Sys, nl: int, A: Aut, r: rule_t, p: int, x: int, q: int, a: nat) -> bool {
    &&& reads(s, nl, p, r, x)
    &&& (r._operation == POP() && q == r._to) || (r._operation == SWAP() && der(s, nl, A, r._to, r._op_label, q, a)) || (r._operation == NOOP() && der(s, nl, A, r._to, x, q, a)) || (r._operation == PUSH() && exists|m: int| #[trigger] der(s, nl, A, r._to, r._op_label, m, a) && der(s, nl, A, m, x, q, a))
}
proof fn dby_def(s: Sys, nl: int, A: Aut, r: rule_t, p: int, x: int, q: int, n: nat) ensures dby(s, nl, A, r, p, x, q, n) <==> n > 0 && dstep(s, nl, A, r, p, x, q, (n - 1) as nat)
{ reveal(der); if n > 0 { let a = (n - 1) as nat; let R = lev(s, nl, A, a); 
  if dby(s, nl, A, r, p, x, q, n) && r._operation == PUSH() { let m = choose|m: int| #[trigger] R(r._to, r._op_label, m) && R(m, x, q); assert(der(s, nl, A, r._to, r._op_label, m, a)); }
  if dstep(s, nl, A, r, p, x, q, a) && r._operation == PUSH() { let m = choose|m: int| #[trigger] der(s, nl, A, r._to, r._op_label, m, a) && der(s, nl, A, m, x, q, a); assert(R(r._to, r._op_label, m)); } } }
proof fn der_rule(s: Sys, nl: int, A: Aut, p: int, x: int, q: int, n: nat) -> (r: rule_t) requires der(s, nl, A, p, x, q, n), !edge(A, p, x, q), ensures n > 0, dstep(s, nl, A, r, p, x, q, (n - 1) as nat)
{ der_def(s, nl, A, p, x, q, n); let r = choose|r: rule_t| #[trigger] dby(s, nl, A, r, p, x, q, n); dby_def(s, nl, A, r, p, x, q, n); r }
proof fn der_intro(s: Sys, nl: int, A: Aut, r: rule_t, p: int, x: int, q: int, a: nat) requires dstep(s, nl, A, r, p, x, q, a), ensures der(s, nl, A, p, x, q, a + 1)
{ dby_def(s, nl, A, r, p, x, q, a + 1); der_def(s, nl, A, p, x, q, a + 1); }
proof fn der_up(s: Sys, nl: int, A: Aut, p: int, x: int, q: int, n: nat, k: nat) requires der(s, nl, A, p, x, q, n), n <= k, ensures der(s, nl, A, p, x, q, k) decreases n
{ der_def(s, nl, A, p, x, q, k); if !edge(A, p, x, q) { let r = der_rule(s, nl, A, p, x, q, n); let a = (n - 1) as nat; let b = (k - 1) as nat;
    if r._operation == SWAP() { der_up(s, nl, A, r._to, r._op_label, q, a, b); } else if r._operation == NOOP() { der_up(s, nl, A, r._to, x, q, a, b); }
    else if r._operation == PUSH() { let m = choose|m: int| #[trigger] der(s, nl, A, r._to, r._op_label, m, a) && der(s, nl, A, m, x, q, a); der_up(s, nl, A, r._to, r._op_label, m, a, b); der_up(s, nl, A, m, x, q, a, b); }
    der_intro(s, nl, A, r, p, x, q, b); } }
proof fn deriv_by(s: Sys, nl: int, A: Aut, B: Aut, r: rule_t, p: int, x: int, q: int) requires sound(s, nl, A, B), by(s, nl, B, r, p, x, q), ensures deriv(s, nl, A, p, x, q)
{ reveal(deriv);
  if r._operation == POP() { der_intro(s, nl, A, r, p, x, q, 0); assert(der(s, nl, A, p, x, q, 1)); }
  else if r._operation == SWAP() { let n = choose|n: nat| #[trigger] der(s, nl, A, r._to, r._op_label, q, n); der_intro(s, nl, A, r, p, x, q, n); assert(der(s, nl, A, p, x, q, (n + 1) as nat)); }
  else if r._operation == NOOP() { let n = choose|n: nat| #[trigger] der(s, nl, A, r._to, x, q, n); der_intro(s, nl, A, r, p, x, q, n); assert(der(s, nl, A, p, x, q, (n + 1) as nat)); }
  else { let m = choose|m: int| #[trigger] two(B, r._to, r._op_label, m, x, q); let a = choose|n: nat| #[trigger] der(s, nl, A, r._to, r._op_label, m, n); let b = choose|n: nat| #[trigger] der(s, nl, A, m, x, q, n); let c = if a < b { b } else { a };
    der_up(s, nl, A, r._to, r._op_label, m, a, c); der_up(s, nl, A, m, x, q, b, c); der_intro(s, nl, A, r, p, x, q, c); assert(der(s, nl, A, p, x, q, (c + 1) as nat)); } }
proof fn sound_step(s: Sys, nl: int, A: Aut, B: Aut, C: Aut) requires sound(s, nl, A, B), same_acc(B, C), forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) ==> edge(B, p, x, q) || one(s, nl, B, p, x, q), ensures sound(s, nl, A, C)
{ reveal(one); assert forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) implies deriv(s, nl, A, p, x, q) by { if !edge(B, p, x, q) { let r = choose|r: rule_t| #[trigger] by(s, nl, B, r, p, x, q); deriv_by(s, nl, A, B, r, p, x, q); } }
  assert forall|p: int| #[trigger] acc(C, p) == acc(A, p) by { assert(acc(C, p) == acc(B, p)); } }
proof fn sound_refl(s: Sys, nl: int, A: Aut) ensures sound(s, nl, A, A)
{ reveal(deriv); assert forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) implies deriv(s, nl, A, p, x, q) by { der_def(s, nl, A, p, x, q, 0); assert(der(s, nl, A, p, x, q, 0)); } }
// ---- soundness: a derived edge out of a system state is a run
pub open spec fn folds_at(s: Sys, nl: int, A: Aut, p: int, x: int, q: int, p2: int, w2: Word) -> bool { leads(s, nl, p, seq![x], p2, w2) && path(A, p2, w2, q) && (0 <= q < s.len() ==> p2 == q && w2.len() == 0) && 0 <= p2 < s.len() }
pub open spec fn folds(s: Sys, nl: int, A: Aut, p: int, x: int, q: int) -> bool { exists|p2: int, w2: Word| #[trigger] folds_at(s, nl, A, p, x, q, p2, w2) }
proof fn fold(s: Sys, nl: int, A: Aut, p: int, x: int, q: int, n: nat) requires pda_wf(s), in_range(A, nl), no_in(A, s.len() as int), der(s, nl, A, p, x, q, n), 0 <= p < s.len(), ensures folds(s, nl, A, p, x, q) decreases n
{ let w = seq![x];
  if edge(A, p, x, q) { lead_refl(s, nl, p, w); path_one(A, p, x, q); assert(folds_at(s, nl, A, p, x, q, p, w)); }
  else { let r = der_rule(s, nl, A, p, x, q, n); rule_tgt(s, nl, p, r, x); assert(w[0] == x); let u = after(r, w); assert(app(s, nl, p, w, r, r._to, u)); assert(moves(s, nl, p, w, r._to, u)); assert(w.drop_first() =~= Seq::<int>::empty()); let a = (n - 1) as nat;
    if r._operation == POP() { lead_refl(s, nl, r._to, u); lead_first(s, nl, p, w, r._to, u, r._to, u); assert(path(A, r._to, u, q)); assert(folds_at(s, nl, A, p, x, q, r._to, u)); }
    else if r._operation == SWAP() { fold(s, nl, A, r._to, r._op_label, q, a); let (p2, w2) = choose|p2: int, w2: Word| #[trigger] folds_at(s, nl, A, r._to, r._op_label, q, p2, w2); assert(u =~= seq![r._op_label]); lead_first(s, nl, p, w, r._to, u, p2, w2); assert(folds_at(s, nl, A, p, x, q, p2, w2)); }
    else if r._operation == NOOP() { fold(s, nl, A, r._to, x, q, a); let (p2, w2) = choose|p2: int, w2: Word| #[trigger] folds_at(s, nl, A, r._to, x, q, p2, w2); lead_first(s, nl, p, w, r._to, u, p2, w2); assert(folds_at(s, nl, A, p, x, q, p2, w2)); }
    else { let m = choose|m: int| #[trigger] der(s, nl, A, r._to, r._op_label, m, a) && der(s, nl, A, m, x, q, a); fold(s, nl, A, r._to, r._op_label, m, a);
      let (p1, w1) = choose|p2: int, w2: Word| #[trigger] folds_at(s, nl, A, r._to, r._op_label, m, p2, w2); lead_below(s, nl, r._to, seq![r._op_label], p1, w1, w); assert(u =~= seq![r._op_label] + w); lead_first(s, nl, p, w, r._to, u, p1, w1 + w);
      if 0 <= m < s.len() { fold(s, nl, A, m, x, q, a); let (p2, w2) = choose|p2: int, w2: Word| #[trigger] folds_at(s, nl, A, m, x, q, p2, w2); assert(w1 + w =~= w); lead_cat(s, nl, p, w, p1, w, p2, w2); assert(folds_at(s, nl, A, p, x, q, p2, w2)); }
      else { if !edge(A, m, x, q) { let r2 = der_rule(s, nl, A, m, x, q, a); rule_tgt(s, nl, m, r2, x); } path_one(A, m, x, q); path_cat(A, p1, w1, m, w, q); assert(folds_at(s, nl, A, p, x, q, p1, w1 + w)); } } } }
// outside the system states nothing is derived
proof fn outside(s: Sys, nl: int, A: Aut, B: Aut, p: int, w: Word, q: int) requires pda_wf(s), sound(s, nl, A, B), no_in(A, s.len() as int), path(B, p, w, q), p >= s.len(), ensures path(A, p, w, q), w.len() > 0 ==> q >= s.len() decreases w.len()
{ if w.len() > 0 { let m = choose|m: int| #[trigger] edge(B, p, w[0], m) && path(B, m, w.drop_first(), q); out_edge(s, nl, A, B, p, w[0], m); outside(s, nl, A, B, m, w.drop_first(), q); } }
proof fn out_edge(s: Sys, nl: int, A: Aut, B: Aut, p: int, x: int, q: int) requires pda_wf(s), sound(s, nl, A, B), edge(B, p, x, q), p >= s.len(), ensures edge(A, p, x, q)
{ reveal(deriv); let n = choose|n: nat| #[trigger] der(s, nl, A, p, x, q, n); if !edge(A, p, x, q) { let r = der_rule(s, nl, A, p, x, q, n); rule_tgt(s, nl, p, r, x); } }
proof fn no_more(s: Sys, nl: int, A: Aut, B: Aut, p: int, w: Word, q: int) requires pda_wf(s), in_range(A, nl), sound(s, nl, A, B), no_in(A, s.len() as int), 0 <= p < s.len(), path(B, p, w, q), acc(A, q), ensures pred(s, nl, A, p, w) decreases w.len()
{ if w.len() == 0 { lead_refl(s, nl, p, w); assert(acc_at(A, p, w, q)); assert(from_to(s, nl, A, p, w, p, w)); }
  else { let m = choose|m: int| #[trigger] edge(B, p, w[0], m) && path(B, m, w.drop_first(), q); let v = w.drop_first(); let n = { reveal(deriv); choose|n: nat| #[trigger] der(s, nl, A, p, w[0], m, n) }; fold(s, nl, A, p, w[0], m, n);
    let (p2, w2) = choose|p2: int, w2: Word| #[trigger] folds_at(s, nl, A, p, w[0], m, p2, w2); lead_below(s, nl, p, seq![w[0]], p2, w2, v); assert(seq![w[0]] + v =~= w);
    if m < s.len() { if m < 0 { path_end(s, nl, A, B, p, w[0], m); } no_more(s, nl, A, B, m, v, q); let (p3, w3) = choose|p3: int, w3: Word| #[trigger] from_to(s, nl, A, m, v, p3, w3); assert(w2 + v =~= v); lead_cat(s, nl, p, w, m, v, p3, w3); assert(from_to(s, nl, A, p, w, p3, w3)); }
    else { outside(s, nl, A, B, m, v, q); path_cat(A, p2, w2, m, v, q); assert(acc_at(A, p2, w2 + v, q)); assert(from_to(s, nl, A, p, w, p2, w2 + v)); } } }
// targets are states
proof fn path_end(s: Sys, nl: int, A: Aut, B: Aut, p: int, x: int, q: int) requires pda_wf(s), in_range(A, nl), sound(s, nl, A, B), edge(B, p, x, q), ensures q >= 0
{ reveal(deriv); let n = choose|n: nat| #[trigger] der(s, nl, A, p, x, q, n); der_end(s, nl, A, p, x, q, n); }
proof fn der_end(s: Sys, nl: int, A: Aut, p: int, x: int, q: int, n: nat) requires pda_wf(s), in_range(A, nl), der(s, nl, A, p, x, q, n), ensures q >= 0 decreases n
{ if !edge(A, p, x, q) { let r = der_rule(s, nl, A, p, x, q, n); rule_tgt(s, nl, p, r, x); let a = (n - 1) as nat; if r._operation == SWAP() { der_end(s, nl, A, r._to, r._op_label, q, a); } else if r._operation == NOOP() { der_end(s, nl, A, r._to, x, q, a); } else if r._operation == PUSH() { let m = choose|m: int| #[trigger] der(s, nl, A, r._to, r._op_label, m, a) && der(s, nl, A, m, x, q, a); der_end(s, nl, A, m, x, q, a); } } }
// ---- completeness: acceptance is closed under predecessors
proof fn back(s: Sys, nl: int, B: Aut, p: int, w: Word, p1: int, w1: Word) requires closed(s, nl, B), moves(s, nl, p, w, p1, w1), accepts(B, p1, w1), forall|p: int, r: rule_t, x: int| #[trigger] reads(s, nl, p, r, x) ==> op_ok(r), ensures accepts(B, p, w)
{ reveal(closed); let r = choose|r: rule_t| #[trigger] app(s, nl, p, w, r, p1, w1); let q = choose|q: int| #[trigger] acc_at(B, p1, w1, q); let x = w[0]; let v = w.drop_first(); assert(op_ok(r));
  if r._operation == POP() { if v.len() > 0 { let m = choose|m: int| #[trigger] edge(B, p1, w1[0], m) && path(B, m, w1.drop_first(), q); assert(live(B, p1)); } assert(by(s, nl, B, r, p, x, p1)); assert(edge(B, p, x, p1)); assert(path(B, p, w, q)); }
  else if r._operation == SWAP() { let m = choose|m: int| #[trigger] edge(B, p1, w1[0], m) && path(B, m, w1.drop_first(), q); assert(w1[0] == r._op_label); assert(w1.drop_first() =~= v); assert(by(s, nl, B, r, p, x, m)); assert(edge(B, p, x, m)); assert(path(B, p, w, q)); }
  else if r._operation == NOOP() { let m = choose|m: int| #[trigger] edge(B, p1, w1[0], m) && path(B, m, w1.drop_first(), q); assert(by(s, nl, B, r, p, x, m)); assert(edge(B, p, x, m)); assert(path(B, p, w, q)); }
  else { let m = choose|m: int| #[trigger] edge(B, p1, w1[0], m) && path(B, m, w1.drop_first(), q); assert(w1[0] == r._op_label); assert(w1.drop_first() =~= w); let k = choose|k: int| #[trigger] edge(B, m, w[0], k) && path(B, k, w.drop_first(), q); assert(two(B, r._to, r._op_label, m, x, k)); assert(by(s, nl, B, r, p, x, k)); assert(edge(B, p, x, k)); assert(path(B, p, w, q)); }
  assert(acc_at(B, p, w, q)); }
proof fn back_n(s: Sys, nl: int, B: Aut, p: int, w: Word, p2: int, w2: Word, n: nat) requires closed(s, nl, B), runs(s, nl, p, w, p2, w2, n), accepts(B, p2, w2), forall|p: int, r: rule_t, x: int| #[trigger] reads(s, nl, p, r, x) ==> op_ok(r), ensures accepts(B, p, w) decreases n
{ if n > 0 { let (a, u) = choose|a: int, u: Word| #[trigger] moves(s, nl, p, w, a, u) && runs(s, nl, a, u, p2, w2, (n - 1) as nat); back_n(s, nl, B, a, u, p2, w2, (n - 1) as nat); back(s, nl, B, p, w, a, u); } }
// the theorem: a sound and closed automaton accepts exactly the predecessors
proof fn exactly(s: Sys, nl: int, A: Aut, B: Aut) requires sys_ok(s, nl), in_range(A, nl), no_in(A, s.len() as int), sound(s, nl, A, B), incl(A, B), closed(s, nl, B), ensures exact_pre(s, nl, A, B)
{ ops(s, nl);
  assert forall|p: int, w: Word| 0 <= p < s.len() implies (#[trigger] accepts(B, p, w) <==> pred(s, nl, A, p, w)) by {
    if accepts(B, p, w) { let q = choose|q: int| #[trigger] acc_at(B, p, w, q); assert(acc(A, q) == acc(B, q)); no_more(s, nl, A, B, p, w, q); }
    if pred(s, nl, A, p, w) { let (p2, w2) = choose|p2: int, w2: Word| #[trigger] from_to(s, nl, A, p, w, p2, w2); let q = choose|q: int| #[trigger] acc_at(A, p2, w2, q); assert(acc(A, q) == acc(B, q)); sub_path(A, B, p2, w2, q); assert(acc_at(B, p2, w2, q)); let n = { reveal(leads); choose|n: nat| #[trigger] runs(s, nl, p, w, p2, w2, n) }; back_n(s, nl, B, p, w, p2, w2, n); } } }
// ---- the saturation object
proof fn gr_refl(o: psat, B: Aut) requires a_ok(aut(o)), ensures gr(o, o, B) { reveal(gr); }
proof fn gr_trans(o: psat, m: psat, n: psat, B: Aut) requires gr(o, m, B), gr(m, n, B), ensures gr(o, n, B)
{ reveal(gr); incl_trans(aut(o), aut(m), aut(n)); acc_trans(aut(o), aut(m), aut(n));
  assert forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) implies edge(aut(o), p, x, q) || (one(o._pda_states, o._n_pda_labels, B, p, x, q) && in_work(n, p, x, q)) by { if edge(aut(m), p, x, q) {} }
  assert forall|p: int, x: int, q: int| #[trigger] in_work(o, p, x, q) implies in_work(n, p, x, q) by { assert(in_work(m, p, x, q)); }
  assert forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) implies in_work(o, p, x, q) || edge(aut(n), p, x, q) by { if in_work(m, p, x, q) { if edge(aut(m), p, x, q) {} } }
  assert forall|k: int, p: int, i: int| #[trigger] in_dp(o, k, p, i) implies in_dp(n, k, p, i) by { assert(in_dp(m, k, p, i)); }
  if n._found && !o._found { if m._found { told_up(aut(o), aut(o), aut(m), aut(n)); } else { told_up(aut(o), aut(m), aut(n), aut(n)); } } }
proof fn ins1_gr(o: psat, n: psat, a: int, y: int, b: int, B: Aut, i: int)
    requires ins1(o, n, a, y, b), rd(o._pda_states, o._n_pda_labels, a, i, y), by(o._pda_states, o._n_pda_labels, B, rl(o._pda_states, a, i), a, y, b),
    ensures gr(o, n, B), edge(aut(n), a, y, b), n._popped == o._popped, n._delta_prime == o._delta_prime
{ reveal(gr); reveal(ins1); reveal(one); reveal(in_dp); assert(one(o._pda_states, o._n_pda_labels, B, a, y, b)); }
proof fn insb_gr(o: psat, n: psat, a: int, b: int, B: Aut, i: int)
    requires is_rl(o._pda_states, a, i), insb(o, n, a, o._pda_states[a]._rules.elems[i].second, o._n_pda_labels, b), forall|x: int| #[trigger] rd(o._pda_states, o._n_pda_labels, a, i, x) ==> by(o._pda_states, o._n_pda_labels, B, rl(o._pda_states, a, i), a, x, b),
    ensures gr(o, n, B), forall|x: int| #[trigger] rd(o._pda_states, o._n_pda_labels, a, i, x) ==> edge(aut(n), a, x, b), n._popped == o._popped, n._delta_prime == o._delta_prime
{ reveal(gr); reveal(insb); reveal(in_dp); let s = o._pda_states; let nl = o._n_pda_labels;
  assert forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) implies edge(aut(o), p, x, q) || (one(s, nl, B, p, x, q) && in_work(n, p, x, q)) by { if !edge(aut(o), p, x, q) { assert(rd(s, nl, a, i, x)); reveal(one); assert(by(s, nl, B, rl(s, a, i), a, x, b)); } } }
proof fn by_pop(s: Sys, nl: int, B: Aut, p: int, i: int, f: int) requires is_rl(s, p, i), rl(s, p, i)._operation == POP(), rl(s, p, i)._to == f, ensures forall|x: int| #[trigger] rd(s, nl, p, i, x) ==> by(s, nl, B, rl(s, p, i), p, x, f)
{ assert forall|x: int| #[trigger] rd(s, nl, p, i, x) implies by(s, nl, B, rl(s, p, i), p, x, f) by { rd_reads(s, nl, p, i, x); } }
proof fn by_swap(s: Sys, nl: int, B: Aut, p: int, i: int, g: int) requires is_rl(s, p, i), rl(s, p, i)._operation == SWAP(), edge(B, rl(s, p, i)._to, rl(s, p, i)._op_label, g), ensures forall|x: int| #[trigger] rd(s, nl, p, i, x) ==> by(s, nl, B, rl(s, p, i), p, x, g)
{ assert forall|x: int| #[trigger] rd(s, nl, p, i, x) implies by(s, nl, B, rl(s, p, i), p, x, g) by { rd_reads(s, nl, p, i, x); } }
proof fn by_push(s: Sys, nl: int, B: Aut, p: int, i: int, m: int, x: int, q: int) requires rd(s, nl, p, i, x), rl(s, p, i)._operation == PUSH(), edge(B, rl(s, p, i)._to, rl(s, p, i)._op_label, m), edge(B, m, x, q), ensures by(s, nl, B, rl(s, p, i), p, x, q)
{ rd_reads(s, nl, p, i, x); assert(two(B, rl(s, p, i)._to, rl(s, p, i)._op_label, m, x, q)); }
proof fn handled_up(o: psat, n: psat, B: Aut, p: int, i: int, f: int, y: int, g: int) requires gr(o, n, B), handled(o, p, i, f, y, g), ensures handled(n, p, i, f, y, g)
{ reveal(gr); reveal(handled); assert forall|p: int, x: int, q: int| #[trigger] in_rel(n, p, x, q) == in_rel(o, p, x, q) by { reveal(in_rel); } }
// sorted rules: the ones into f from an index on
proof fn lb_before(l: Seq<relem>, f: int, k: int) requires forall|j: int| #![trigger l[j]] 0 <= j < k ==> rule_lt(l[j].first, rule_t { _to: f, _operation: 0, _op_label: 0 }), forall|j: int| #![trigger l[j]] 0 <= j < l.len() ==> op_ok(l[j].first), 0 <= k <= l.len(), ensures forall|j: int| #![trigger l[j]] 0 <= j < k ==> l[j].first._to != f {}
proof fn lb_after(l: Seq<relem>, f: int, k: int) requires rules_wf(l), 0 <= k < l.len(), l[k].first._to > f, ensures forall|j: int| #![trigger l[j]] k <= j < l.len() ==> l[j].first._to != f
{ assert forall|j: int| #![trigger l[j]] k <= j < l.len() implies l[j].first._to != f by { if j > k { assert(rule_lt(l[k].first, l[j].first)); } } }
// one(B) stays in range
proof fn one_in(s: Sys, nl: int, B: Aut, p: int, x: int, q: int) requires sys_ok(s, nl), in_range(B, nl), s.len() <= B.len(), one(s, nl, B, p, x, q), ensures 0 <= p < s.len(), 0 <= x < nl, 0 <= q < B.len()
{ reveal(one); let r = choose|r: rule_t| #[trigger] by(s, nl, B, r, p, x, q); rule_tgt(s, nl, p, r, x); if r._operation == PUSH() { let m = choose|m: int| #[trigger] two(B, r._to, r._op_label, m, x, q); assert(edge(B, m, x, q)); } }
proof fn gr_shape(o: psat, n: psat, B: Aut) requires shape(o), gr(o, n, B), in_range(B, o._n_pda_labels), B.len() == aut(o).len(), ensures shape(n)
{ reveal(gr); assert forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) implies 0 <= q < aut(n).len() && 0 <= x < n._n_pda_labels && 0 <= p < aut(n).len() by { if !edge(aut(o), p, x, q) { one_in(o._pda_states, o._n_pda_labels, B, p, x, q); } } }
proof fn pops_up(o: psat, n: psat, B: Aut, f: int) requires gr(o, n, B), pops(o, f), ensures pops(n, f) { reveal(gr); reveal(pops); }
proof fn direct_up(o: psat, n: psat, B: Aut, f: int, y: int, g: int) requires gr(o, n, B), direct_all(o, f, y, g), ensures direct_all(n, f, y, g)
{ reveal(gr); reveal(direct_all); assert forall|p: int, i: int| #[trigger] is_rl(n._pda_states, p, i) && rl(n._pda_states, p, i)._to == f implies direct(n, p, i, f, y, g) by { assert(direct(o, p, i, f, y, g)); } }
// closedness of what is reached
proof fn all_closed(o: psat) requires inv(o), acc_popped(o), o._workset.len() == 0, ensures closed(o._pda_states, o._n_pda_labels, aut(o))
{ let s = o._pda_states; let nl = o._n_pda_labels; let A = aut(o); 
  assert forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) implies in_rel(o, p, x, q) by { reveal(in_work); }
  assert forall|r: rule_t, p: int, x: int, q: int| #[trigger] by(s, nl, A, r, p, x, q) && (r._operation == POP() ==> live(A, q)) implies edge(A, p, x, q) by {
    let e = s[p]._rules.elems; let i = choose|i: int| #![trigger e[i]] 0 <= i < e.len() && e[i].first == r && den(e[i].second, x); assert(rl(s, p, i) == r); assert(rd(s, nl, p, i, x)); assert(is_rl(s, p, i)); rule_tgt(s, nl, p, r, x);
    if r._operation == POP() { if !acc(A, q) { let (y, g) = choose|y: int, g: int| #[trigger] edge(A, q, y, g); assert(in_rel(o, q, y, g)); assert(rel_done(o, q, y, g)); } assert(o._popped[q]); reveal(pops); assert(pops(o, q)); }
    else if r._operation == SWAP() { assert(in_rel(o, r._to, r._op_label, q)); assert(rel_done(o, r._to, r._op_label, q)); reveal(direct_all); assert(direct(o, p, i, r._to, r._op_label, q)); }
    else if r._operation == NOOP() { assert(in_rel(o, r._to, x, q)); assert(rel_done(o, r._to, x, q)); reveal(direct_all); assert(direct(o, p, i, r._to, x, q)); }
    else { let m = choose|m: int| #[trigger] two(A, r._to, r._op_label, m, x, q); assert(in_rel(o, r._to, r._op_label, m)); assert(rel_done(o, r._to, r._op_label, m)); reveal(direct_all); assert(direct(o, p, i, r._to, r._op_label, m)); assert(in_dp(o, m, p, i)); assert(edge(A, m, x, q)); assert(in_rel(o, m, x, q)); assert(cross(o, m, p, i)); } }
  reveal(closed); }
proof fn insb_wild(o: psat, m: psat, n: psat, a: int, l: labels_t, i: int, b: int) requires insb(o, m, a, l, i, b), l._wildcard, i >= 0, ins1(m, n, a, i, b), ensures insb(o, n, a, l, i + 1, b)
{ reveal(insb); reveal(ins1); acc_trans(aut(o), aut(m), aut(n)); insb_found(o, m, n); }
proof fn insb_found(o: psat, m: psat, n: psat) requires m._found ==> o._found || told(aut(o), aut(m)), n._found ==> m._found || told(aut(m), aut(n)), incl(aut(o), aut(m)), incl(aut(m), aut(n)), ensures n._found ==> o._found || told(aut(o), aut(n))
{ if n._found && !o._found { if m._found { told_up(aut(o), aut(o), aut(m), aut(n)); } else { told_up(aut(o), aut(m), aut(n), aut(n)); } } }
pub open spec fn first_labels(s: Seq<int>, k: int) -> labels_t { labels_t { _wildcard: false, _labels: s.subrange(0, k) } }
proof fn insb_lab(o: psat, m: psat, n: psat, a: int, s: Seq<int>, k: int, nl: int, b: int) requires insb(o, m, a, first_labels(s, k), nl, b), 0 <= k < s.len(), 0 <= s[k] < nl, ins1(m, n, a, s[k], b), ensures insb(o, n, a, first_labels(s, k + 1), nl, b)
{ reveal(insb); reveal(ins1); acc_trans(aut(o), aut(m), aut(n)); insb_found(o, m, n); let u = s.subrange(0, k); let v = s.subrange(0, k + 1);
  assert forall|x: int| v.contains(x) <==> u.contains(x) || x == s[k] by { if v.contains(x) { let j = choose|j: int| 0 <= j < v.len() && v[j] == x; if j < k { assert(u[j] == x); } } if u.contains(x) { let j = choose|j: int| 0 <= j < u.len() && u[j] == x; assert(v[j] == x); } if x == s[k] { assert(v[k] == x); } }
  assert forall|x: int| #[trigger] den(first_labels(s, k + 1), x) <==> den(first_labels(s, k), x) || x == s[k] by { assert(v.contains(x) <==> u.contains(x) || x == s[k]); } }
proof fn insb_nil(o: psat, a: int, l: labels_t, m: int, b: int) requires a_ok(aut(o)), m <= 0 || (!l._wildcard && l._labels.len() == 0), ensures insb(o, o, a, l, m, b) { reveal(insb); }
proof fn popd_up(o: psat, n: psat, B: Aut, p: int, f: int, k: int) requires gr(o, n, B), popd(o, p, f, k), ensures popd(n, p, f, k)
{ reveal(gr); reveal(popd); assert forall|i: int| #[trigger] is_rl(n._pda_states, p, i) && i < k && rl(n._pda_states, p, i)._to == f implies pop_at(n, p, i, f) by { assert(pop_at(o, p, i, f)); } }
proof fn popds_up(o: psat, n: psat, B: Aut, l: Seq<int>, f: int, k: int) requires gr(o, n, B), popds(o, l, f, k), ensures popds(n, l, f, k)
{ reveal(popds); assert(n._pda_states == o._pda_states) by { reveal(gr); } assert forall|j: int| #![trigger l[j]] 0 <= j < k && j < l.len() implies popd(n, l[j], f, n._pda_states[l[j]]._rules.elems.len() as int) by { popd_up(o, n, B, l[j], f, o._pda_states[l[j]]._rules.elems.len() as int); } }
proof fn popds_next(o: psat, l: Seq<int>, f: int, k: int) requires popds(o, l, f, k), 0 <= k < l.len(), popd(o, l[k], f, o._pda_states[l[k]]._rules.elems.len() as int), ensures popds(o, l, f, k + 1) { reveal(popds); }
proof fn popd_next(o: psat, p: int, f: int, k: int) requires popd(o, p, f, k), is_rl(o._pda_states, p, k) && rl(o._pda_states, p, k)._to == f ==> pop_at(o, p, k, f), ensures popd(o, p, f, k + 1) { reveal(popd); }
proof fn popd_skip(o: psat, p: int, f: int, k: int, n: int) requires popd(o, p, f, k), forall|j: int| #![trigger o._pda_states[p]._rules.elems[j]] k <= j < n && 0 <= j < o._pda_states[p]._rules.elems.len() ==> rl(o._pda_states, p, j)._to != f, ensures popd(o, p, f, n)
{ reveal(popd); assert forall|i: int| #[trigger] is_rl(o._pda_states, p, i) && i < n && rl(o._pda_states, p, i)._to == f implies pop_at(o, p, i, f) by { let z = o._pda_states[p]._rules.elems[i]; } }
proof fn all_pops(o: psat, f: int) requires pda_wf(o._pda_states), 0 <= f < o._pda_states.len(), popds(o, o._pda_states[f]._pre_states.elems, f, o._pda_states[f]._pre_states.elems.len() as int), ensures pops(o, f)
{ let s = o._pda_states; let nl = o._n_pda_labels; let l = s[f]._pre_states.elems; reveal(popds); reveal(popd); reveal(pops);
  assert forall|p: int, i: int, x: int| #[trigger] rd(s, nl, p, i, x) && rl(s, p, i)._operation == POP() && rl(s, p, i)._to == f implies edge(aut(o), p, x, f) by { let z = s[p]._rules.elems[i]; assert(tgt_ok(s, p, i)); let j = choose|j: int| 0 <= j < l.len() && l[j] == p; assert(popd(o, l[j], f, s[l[j]]._rules.elems.len() as int)); assert(is_rl(s, p, i)); assert(pop_at(o, p, i, f)); } }
proof fn hand_up(o: psat, n: psat, B: Aut, p: int, f: int, y: int, g: int, k: int) requires gr(o, n, B), hand(o, p, f, y, g, k), ensures hand(n, p, f, y, g, k)
{ assert(n._pda_states == o._pda_states) by { reveal(gr); } reveal(hand); assert forall|i: int| #[trigger] is_rl(n._pda_states, p, i) && i < k && rl(n._pda_states, p, i)._to == f implies handled(n, p, i, f, y, g) by { handled_up(o, n, B, p, i, f, y, g); } }
proof fn hands_up(o: psat, n: psat, B: Aut, l: Seq<int>, f: int, y: int, g: int, k: int) requires gr(o, n, B), hands(o, l, f, y, g, k), ensures hands(n, l, f, y, g, k)
{ reveal(hands); assert(n._pda_states == o._pda_states) by { reveal(gr); } assert forall|j: int| #![trigger l[j]] 0 <= j < k && j < l.len() implies hand(n, l[j], f, y, g, n._pda_states[l[j]]._rules.elems.len() as int) by { hand_up(o, n, B, l[j], f, y, g, o._pda_states[l[j]]._rules.elems.len() as int); } }
proof fn hands_next(o: psat, l: Seq<int>, f: int, y: int, g: int, k: int) requires hands(o, l, f, y, g, k), 0 <= k < l.len(), hand(o, l[k], f, y, g, o._pda_states[l[k]]._rules.elems.len() as int), ensures hands(o, l, f, y, g, k + 1) { reveal(hands); }
proof fn hand_next(o: psat, p: int, f: int, y: int, g: int, k: int) requires hand(o, p, f, y, g, k), is_rl(o._pda_states, p, k) && rl(o._pda_states, p, k)._to == f ==> handled(o, p, k, f, y, g), ensures hand(o, p, f, y, g, k + 1) { reveal(hand); }
proof fn hand_skip(o: psat, p: int, f: int, y: int, g: int, k: int, n: int) requires hand(o, p, f, y, g, k), forall|j: int| #![trigger o._pda_states[p]._rules.elems[j]] k <= j < n && 0 <= j < o._pda_states[p]._rules.elems.len() ==> rl(o._pda_states, p, j)._to != f, ensures hand(o, p, f, y, g, n)
{ reveal(hand); assert forall|i: int| #[trigger] is_rl(o._pda_states, p, i) && i < n && rl(o._pda_states, p, i)._to == f implies handled(o, p, i, f, y, g) by { let z = o._pda_states[p]._rules.elems[i]; } }
proof fn all_hands(o: psat, f: int, y: int, g: int) requires pda_wf(o._pda_states), 0 <= f < o._pda_states.len(), hands(o, o._pda_states[f]._pre_states.elems, f, y, g, o._pda_states[f]._pre_states.elems.len() as int), ensures forall|p: int, i: int| #[trigger] is_rl(o._pda_states, p, i) && rl(o._pda_states, p, i)._to == f ==> handled(o, p, i, f, y, g)
{ let s = o._pda_states; let l = s[f]._pre_states.elems; reveal(hands); reveal(hand);
  assert forall|p: int, i: int| #[trigger] is_rl(s, p, i) && rl(s, p, i)._to == f implies handled(o, p, i, f, y, g) by { let z = s[p]._rules.elems[i]; assert(tgt_ok(s, p, i)); let j = choose|j: int| 0 <= j < l.len() && l[j] == p; assert(hand(o, l[j], f, y, g, s[l[j]]._rules.elems.len() as int)); } }
proof fn dpd_up(o: psat, n: psat, B: Aut, l: Seq<(int, int)>, y: int, g: int, k: int) requires gr(o, n, B), dpd(o, l, y, g, k), ensures dpd(n, l, y, g, k) { reveal(gr); reveal(dpd); }
proof fn dpd_next(o: psat, l: Seq<(int, int)>, y: int, g: int, k: int) requires dpd(o, l, y, g, k), 0 <= k < l.len(), rd(o._pda_states, o._n_pda_labels, l[k].0, l[k].1, y) ==> edge(aut(o), l[k].0, y, g), ensures dpd(o, l, y, g, k + 1) { reveal(dpd); }
proof fn crossk_up(o: psat, n: psat, B: Aut, l: Seq<(int, int)>, p: int, i: int, k: int) requires gr(o, n, B), crossk(o, l, p, i, k), ensures crossk(n, l, p, i, k) { reveal(gr); reveal(crossk); }
proof fn crossk_next(o: psat, l: Seq<(int, int)>, p: int, i: int, k: int) requires crossk(o, l, p, i, k), 0 <= k < l.len(), rd(o._pda_states, o._n_pda_labels, p, i, l[k].1) ==> edge(aut(o), p, l[k].1, l[k].0), ensures crossk(o, l, p, i, k + 1) { reveal(crossk); }
proof fn crossk_all(o: psat, g: int, p: int, i: int) requires 0 <= g < o._rel.len(), crossk(o, o._rel[g], p, i, o._rel[g].len() as int), ensures cross(o, g, p, i)
{ let l = o._rel[g]; assert forall|x: int, q: int| #[trigger] in_rel(o, g, x, q) && rd(o._pda_states, o._n_pda_labels, p, i, x) implies edge(aut(o), p, x, q) by { reveal(in_rel); reveal(crossk); let j = choose|j: int| 0 <= j < l.len() && l[j] == (q, x); } }
proof fn dp_push(o: psat, n: psat, g: int, p: int, i: int) requires 0 <= g < o._delta_prime.len(), n == (psat { _delta_prime: o._delta_prime.update(g, o._delta_prime[g].push((p, i))), ..o }), ensures in_dp(n, g, p, i), forall|m: int, a: int, b: int| #[trigger] in_dp(n, m, a, b) <==> in_dp(o, m, a, b) || (m == g && a == p && b == i)
{ reveal(in_dp); let u = o._delta_prime[g]; let v = n._delta_prime[g]; assert(v[u.len() as int] == (p, i));
  assert forall|m: int, a: int, b: int| #[trigger] in_dp(n, m, a, b) <==> in_dp(o, m, a, b) || (m == g && a == p && b == i) by { if m == g { if v.contains((a, b)) { let j = choose|j: int| 0 <= j < v.len() && v[j] == (a, b); if j < u.len() { assert(u[j] == (a, b)); } } if u.contains((a, b)) { let j = choose|j: int| 0 <= j < u.len() && u[j] == (a, b); assert(v[j] == (a, b)); } } } }
proof fn dp_push_gr(o: psat, n: psat, g: int, p: int, i: int, B: Aut) requires a_ok(aut(o)), 0 <= g < o._delta_prime.len(), n == (psat { _delta_prime: o._delta_prime.update(g, o._delta_prime[g].push((p, i))), ..o }), ensures gr(o, n, B), in_dp(n, g, p, i)
{ reveal(gr); dp_push(o, n, g, p, i); assert forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) == in_work(o, p, x, q) by { reveal(in_work); } }
proof fn dp_new_push(o: psat, m: psat, n: psat, f: int, y: int, g: int, p: int, i: int) requires dp_new(o, m, f, y, g), m._pda_states == o._pda_states, 0 <= g < m._delta_prime.len(), n == (psat { _delta_prime: m._delta_prime.update(g, m._delta_prime[g].push((p, i))), ..m }), is_rl(o._pda_states, p, i), rl(o._pda_states, p, i)._operation == PUSH(), rl(o._pda_states, p, i)._to == f, rl(o._pda_states, p, i)._op_label == y, ensures dp_new(o, n, f, y, g)
{ reveal(dp_new); dp_push(m, n, g, p, i); }
proof fn dp_new_same(o: psat, m: psat, n: psat, f: int, y: int, g: int) requires dp_new(o, m, f, y, g), n._delta_prime == m._delta_prime, ensures dp_new(o, n, f, y, g)
{ reveal(dp_new); assert forall|a: int, p: int, i: int| #[trigger] in_dp(n, a, p, i) == in_dp(m, a, p, i) by { reveal(in_dp); } }
proof fn take(o: psat, n: psat) requires o._workset.len() > 0, ({ let t = o._workset.last(); 0 <= t._from < o._rel.len() && n == (psat { _workset: o._workset.drop_last(), _rel: o._rel.update(t._from, o._rel[t._from].push((t._to, t._label))), ..o }) }), ensures ({ let t = o._workset.last(); taken(o, n, t._from, t._label, t._to) })
{ let w = o._workset; let t = w.last(); let f = t._from; let y = t._label; let g = t._to; reveal(taken); reveal(in_work); reveal(in_rel); let u = o._rel[f]; let v = n._rel[f]; assert(v[u.len() as int] == (g, y)); let w2 = w.drop_last();
  assert forall|p: int, x: int, q: int| #[trigger] in_rel(n, p, x, q) <==> in_rel(o, p, x, q) || (p == f && x == y && q == g) by { if p == f { if v.contains((q, x)) { let j = choose|j: int| 0 <= j < v.len() && v[j] == (q, x); if j < u.len() { assert(u[j] == (q, x)); } } if u.contains((q, x)) { let j = choose|j: int| 0 <= j < u.len() && u[j] == (q, x); assert(v[j] == (q, x)); } } }
  assert(w[w.len() - 1] == temp_edge_t { _from: f, _label: y, _to: g });
  assert forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) implies in_work(o, p, x, q) by { let e = temp_edge_t { _from: p, _label: x, _to: q }; let j = choose|j: int| 0 <= j < w2.len() && w2[j] == e; assert(w[j] == e); }
  assert forall|p: int, x: int, q: int| #[trigger] in_work(o, p, x, q) implies in_work(n, p, x, q) || (p == f && x == y && q == g) by { let e = temp_edge_t { _from: p, _label: x, _to: q }; let j = choose|j: int| 0 <= j < w.len() && w[j] == e; if j < w2.len() { assert(w2[j] == e); } } }
// derived rules and treated edges of the state an edge was taken from are edges
proof fn taken_ok(o: psat, n: psat, f: int, y: int, g: int) requires inv(o), taken(o, n, f, y, g), ensures shape(n), edge(aut(o), f, y, g), 0 <= f < aut(o).len(), 0 <= g < aut(o).len(), 0 <= y < o._n_pda_labels, forall|p: int, x: int, q: int| #[trigger] in_rel(n, p, x, q) ==> edge(aut(o), p, x, q), forall|m: int, p: int, i: int| #[trigger] in_dp(n, m, p, i) ==> dp_ok(o._pda_states, aut(o), m, p, i)
{ reveal(taken); assert(edge(aut(o), f, y, g)); assert forall|m: int, p: int, i: int| #[trigger] in_dp(n, m, p, i) implies dp_ok(o._pda_states, aut(o), m, p, i) by { assert(in_dp(o, m, p, i)) by { reveal(in_dp); } } }
proof fn round_ok(o: psat, o1: psat, n: psat, e: psat, f: int, y: int, g: int)
    requires inv(o), taken(o, o1, f, y, g), gr(o1, n, aut(o)), n._popped == o1._popped, dpd(n, o1._delta_prime[f], y, g, o1._delta_prime[f].len() as int),
        if f >= o._n_pda_states { n._delta_prime == o1._delta_prime && e == n } else { dp_new(o1, n, f, y, g) && hands(n, n._pda_states[f]._pre_states.elems, f, y, g, n._pda_states[f]._pre_states.elems.len() as int) && e == (psat { _popped: n._popped.update(f, true), ..n }) },
    ensures inv(e), stepped(o, e), popped_kept(o, e)
{ let s = o._pda_states; let nl = o._n_pda_labels; taken_ok(o, o1, f, y, g);
  assert(o1 == (psat { _workset: o1._workset, _rel: o1._rel, ..o })) by { reveal(taken); }
  assert(same(o1, n) && incl(aut(o), aut(n))) by { reveal(gr); }
  gr_shape(o1, n, aut(o)); assert(shape(e));
  assert forall|p: int, x: int, q: int| #[trigger] in_work(e, p, x, q) == in_work(n, p, x, q) by { reveal(in_work); }
  assert forall|p: int, x: int, q: int| #[trigger] in_rel(e, p, x, q) <==> in_rel(o, p, x, q) || (p == f && x == y && q == g) by { assert(in_rel(e, p, x, q) == in_rel(o1, p, x, q)) by { reveal(in_rel); } reveal(taken); }
  assert forall|m: int, p: int, i: int| #[trigger] in_dp(e, m, p, i) == in_dp(n, m, p, i) by { reveal(in_dp); }
  assert forall|m: int, p: int, i: int| #[trigger] in_dp(o, m, p, i) implies in_dp(e, m, p, i) by { assert(in_dp(o1, m, p, i)) by { reveal(in_dp); } reveal(gr); assert(in_dp(n, m, p, i)); }
  assert forall|p: int, x: int, q: int| #[trigger] edge(aut(e), p, x, q) implies in_work(e, p, x, q) || in_rel(e, p, x, q) by { reveal(gr); if edge(aut(o), p, x, q) { if in_work(o, p, x, q) { reveal(taken); if in_work(o1, p, x, q) { assert(in_work(n, p, x, q)); } } } else { assert(in_work(n, p, x, q)); } assert(in_rel(e, p, x, q) <==> in_rel(o, p, x, q) || (p == f && x == y && q == g)); }
  assert forall|p: int, x: int, q: int| #[trigger] in_work(e, p, x, q) implies edge(aut(e), p, x, q) by { assert(in_work(n, p, x, q)); if !edge(aut(n), p, x, q) { reveal(gr); assert(in_work(o1, p, x, q)); reveal(taken); assert(in_work(o, p, x, q)); } }
  if f < o._n_pda_states { all_hands(n, f, y, g); }
  // whatever was done before is still done
  assert forall|p: int, x: int, q: int| #[trigger] in_rel(o, p, x, q) && p < o._popped.len() implies direct_all(e, p, x, q) by { assert(rel_done(o, p, x, q)); kept_direct(o, e, p, x, q); }
  if f < o._n_pda_states { assert(direct_all(e, f, y, g)) by { reveal(direct_all); assert forall|p: int, i: int| #[trigger] is_rl(e._pda_states, p, i) && rl(e._pda_states, p, i)._to == f implies direct(e, p, i, f, y, g) by { assert(is_rl(n._pda_states, p, i)); reveal(handled); assert(handled(n, p, i, f, y, g)); } } }
  assert forall|p: int, x: int, q: int| #[trigger] in_rel(e, p, x, q) implies edge(aut(e), p, x, q) && rel_done(e, p, x, q) by { if in_rel(o, p, x, q) { assert(edge(aut(o), p, x, q)); assert(rel_done(o, p, x, q)); } }
  assert forall|h: int| 0 <= h < e._popped.len() && #[trigger] e._popped[h] implies pops(e, h) by {
    if h == f && f < o._n_pda_states { reveal(pops); assert forall|p: int, i: int, x: int| #[trigger] rd(s, nl, p, i, x) && rl(s, p, i)._operation == POP() && rl(s, p, i)._to == f implies edge(aut(e), p, x, f) by { assert(is_rl(n._pda_states, p, i)); reveal(handled); assert(handled(n, p, i, f, y, g)); assert(pop_at(n, p, i, f)); } }
    else { assert(o._popped[h]); assert(pops(o, h)); reveal(pops); } }
  assert forall|m: int, p: int, i: int| #[trigger] in_dp(e, m, p, i) implies dp_ok(s, aut(e), m, p, i) && cross(e, m, p, i) by {
    assert(in_dp(n, m, p, i));
    if in_dp(o, m, p, i) { assert(dp_ok(s, aut(o), m, p, i)); assert(cross(o, m, p, i));
      assert forall|x: int, q: int| #[trigger] in_rel(e, m, x, q) && rd(s, nl, p, i, x) implies edge(aut(e), p, x, q) by { if in_rel(o, m, x, q) { assert(edge(aut(o), p, x, q)); } else { reveal(dpd); reveal(in_dp); let l = o1._delta_prime[f]; let j = choose|j: int| 0 <= j < l.len() && l[j] == (p, i); assert(l[j].0 == p && l[j].1 == i); } } }
    else { assert(f < o._n_pda_states) by { if f >= o._n_pda_states { reveal(in_dp); } } reveal(dp_new); assert(!in_dp(o1, m, p, i)) by { reveal(in_dp); } assert(is_rl(n._pda_states, p, i)); assert(handled(n, p, i, f, y, g)); reveal(handled); assert(cross(n, g, p, i)); assert(edge(aut(n), f, y, g));
      assert forall|x: int, q: int| #[trigger] in_rel(e, m, x, q) && rd(s, nl, p, i, x) implies edge(aut(e), p, x, q) by { assert(in_rel(n, m, x, q)) by { reveal(in_rel); } } } }
  assert(stepped(o, e)) by { reveal(gr); }
}
proof fn kept_direct(o: psat, e: psat, p: int, x: int, q: int) requires direct_all(o, p, x, q), o._pda_states == e._pda_states, o._n_pda_labels == e._n_pda_labels, incl(aut(o), aut(e)), forall|m: int, p: int, i: int| #[trigger] in_dp(o, m, p, i) ==> in_dp(e, m, p, i), ensures direct_all(e, p, x, q)
{ reveal(direct_all); assert forall|a: int, i: int| #[trigger] is_rl(e._pda_states, a, i) && rl(e._pda_states, a, i)._to == p implies direct(e, a, i, p, x, q) by { assert(direct(o, a, i, p, x, q)); } }
proof fn put_work(o: psat, n: psat, a: int, y: int, b: int)
    requires same(o, n), n._popped == o._popped, n._delta_prime == o._delta_prime, a_ok(aut(n)), same_acc(aut(o), aut(n)), forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) <==> edge(aut(o), p, x, q) || (p == a && x == y && q == b),
        if edge(aut(o), a, y, b) { n._workset == o._workset && n._found == o._found } else { n._workset == o._workset.push(temp_edge_t { _from: a, _label: y, _to: b }) && (n._found ==> o._found || said(a, y, b)) },
    ensures ins1(o, n, a, y, b)
{ reveal(ins1); reveal(in_work); let w = o._workset; let v = n._workset; let e0 = temp_edge_t { _from: a, _label: y, _to: b };
  if !edge(aut(o), a, y, b) { assert(v[w.len() as int] == e0); if said(a, y, b) { assert(told_at(aut(o), aut(n), a, y, b)); } }
  assert forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) <==> in_work(o, p, x, q) || (p == a && x == y && q == b && !edge(aut(o), p, x, q)) by { let e = temp_edge_t { _from: p, _label: x, _to: q }; if v.contains(e) { let j = choose|j: int| 0 <= j < v.len() && v[j] == e; if j < w.len() { assert(w[j] == e); } } if w.contains(e) { let j = choose|j: int| 0 <= j < w.len() && w[j] == e; assert(v[j] == e); } } }
proof fn popped_gr(o: psat, n: psat, f: int) requires shape(o), forall|B: Aut| #[trigger] gr(o, psat { _popped: o._popped, ..n }, B), 0 <= f < o._popped.len(), n._popped == o._popped.update(f, true), pops(psat { _popped: o._popped, ..n }, f), ensures forall|B: Aut| #[trigger] gr(o, n, B), shape(n), pops(n, f)
{ let m = psat { _popped: o._popped, ..n }; assert forall|B: Aut| #[trigger] gr(o, n, B) by { assert(gr(o, m, B)); gr_pop(o, m, n, B); }
  assert(gr(o, n, aut(o))); gr_shape(o, n, aut(o)); assert(pops(n, f)) by { reveal(pops); assert(aut(m) == aut(n)); } }
proof fn gr_pop(o: psat, m: psat, n: psat, B: Aut) requires gr(o, m, B), n == (psat { _popped: n._popped, ..m }), n._popped.len() == m._popped.len(), ensures gr(o, n, B)
{ reveal(gr); assert forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) == in_work(m, p, x, q) by { reveal(in_work); } assert forall|k: int, p: int, i: int| #[trigger] in_dp(o, k, p, i) implies in_dp(n, k, p, i) by { assert(in_dp(m, k, p, i)); reveal(in_dp); } }
proof fn acc_keep(o: psat, n: psat) requires acc_popped(o), popped_kept(o, n), same_acc(aut(o), aut(n)), ensures acc_popped(n) { assert forall|p: int| #[trigger] acc(aut(n), p) && p < n._popped.len() implies n._popped[p] by { assert(acc(aut(o), p)); } }
proof fn told_next(A: Aut, o: psat, n: psat) requires stepped(o, n), incl(A, aut(o)), o._found ==> told(A, aut(o)), ensures n._found ==> told(A, aut(n)), incl(A, aut(n))
{ incl_trans(A, aut(o), aut(n)); if n._found { if o._found { told_up(A, A, aut(o), aut(n)); } else { told_up(A, aut(o), aut(n), aut(n)); } } }
// one rule was treated for the edge (f, y, g)
proof fn one_rule(o0: psat, o: psat, m: psat, n: psat, B: Aut, p: int, i: int, f: int, y: int, g: int)
    requires inv(o0), taken(o0, o, f, y, g), B == aut(o0), gr(o, m, B), shape(m), m._popped == o0._popped, m._pda_states == o0._pda_states, 0 <= f < o0._popped.len(), is_rl(o0._pda_states, p, i), rl(o0._pda_states, p, i)._to == f, op_ok(rl(o0._pda_states, p, i)), lab_wf(o0._pda_states[p]._rules.elems[i].second), edge(B, f, y, g), dp_new(o, m, f, y, g), 0 <= y < o0._n_pda_labels,
        ({ let r = rl(o0._pda_states, p, i); let l = o0._pda_states[p]._rules.elems[i].second; 
            if r._operation == POP() && !o0._popped[f] { insb(m, n, p, l, m._n_pda_labels, f) } else if r._operation == SWAP() && r._op_label == y { insb(m, n, p, l, m._n_pda_labels, g) } else if r._operation == NOOP() && den(l, y) { ins1(m, n, p, y, g) } else if r._operation == PUSH() && r._op_label == y { gr(m, n, B) && n._popped == m._popped && dp_new(o, n, f, y, g) && in_dp(n, g, p, i) && cross(n, g, p, i) } else { n == m } }),
    ensures gr(m, n, B), n._popped == m._popped, dp_new(o, n, f, y, g), handled(n, p, i, f, y, g)
{ let s = o0._pda_states; let r = rl(s, p, i); let l = s[p]._rules.elems[i].second; let nl = o0._n_pda_labels; assert(m._n_pda_labels == nl) by { reveal(gr); reveal(taken); } reveal(handled);
  if r._operation == POP() { if !o0._popped[f] { by_pop(s, nl, B, p, i, f); insb_gr(m, n, p, f, B, i); dp_new_same(o, m, n, f, y, g); }
    else { gr_refl(m, B); assert(pops(o0, f)); assert(incl(aut(o0), aut(m))) by { reveal(gr); reveal(taken); } reveal(pops); assert(pop_at(m, p, i, f)); } }
  else if r._operation == SWAP() && r._op_label == y { by_swap(s, nl, B, p, i, g); insb_gr(m, n, p, g, B, i); dp_new_same(o, m, n, f, y, g); }
  else if r._operation == NOOP() && den(l, y) { assert(rd(s, nl, p, i, y)); rd_reads(s, nl, p, i, y); ins1_gr(m, n, p, y, g, B, i); dp_new_same(o, m, n, f, y, g); }
  else if r._operation == PUSH() && r._op_label == y { }
  else { gr_refl(m, B); }
  assert(n._pda_states == s && n._n_pda_labels == nl) by { reveal(gr); } }
// ---- the start
proof fn start_load(o: psat) requires o._workset.len() == 0, ensures work_ok(o), loaded(o, 0) { reveal(work_ok); reveal(loaded); reveal(in_work); reveal(edge); }
proof fn load_one(m: psat, n: psat, p: int, l: Seq<(int, lmap)>, k2: int, k3: int) requires work_ok(m), loaded(m, p), load_to(m, p, l, k2), 0 <= k2 < l.len(), 0 <= k3 < l[k2].1.elems.len(), load_lab(m, p, l[k2].0, l[k2].1.elems, k3), 0 <= p < aut(m).len(), aut(m)[p]._edges.elems.dom().contains(l[k2].0), aut(m)[p]._edges.elems[l[k2].0] == l[k2].1, n == (psat { _workset: m._workset.push(temp_edge_t { _from: p, _label: l[k2].1.elems[k3].first, _to: l[k2].0 }), ..m }),
    ensures work_ok(n), loaded(n, p), load_to(n, p, l, k2), load_lab(n, p, l[k2].0, l[k2].1.elems, k3 + 1)
{ let w = m._workset; let v = n._workset; let q0 = l[k2].0; let x0 = l[k2].1.elems[k3].first; let e0 = temp_edge_t { _from: p, _label: x0, _to: q0 }; assert(v[w.len() as int] == e0);
  assert forall|p: int, x: int, q: int| #[trigger] in_work(m, p, x, q) implies in_work(n, p, x, q) by { reveal(in_work); let e = temp_edge_t { _from: p, _label: x, _to: q }; let j = choose|j: int| 0 <= j < w.len() && w[j] == e; assert(v[j] == e); }
  assert(in_work(n, p, x0, q0)) by { reveal(in_work); }
  assert(edge(aut(m), p, x0, q0)) by { reveal(edge); assert(l[k2].1.elems[k3].first == x0); }
  assert(work_ok(n)) by { reveal(work_ok); assert forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) implies edge(aut(n), p, x, q) by { let e = temp_edge_t { _from: p, _label: x, _to: q }; if e != e0 { assert(in_work(m, p, x, q)) by { reveal(in_work); let j = choose|j: int| 0 <= j < v.len() && v[j] == e; assert(w[j] == e); } } } }
  reveal(loaded); reveal(load_to); reveal(load_lab); }
proof fn load_next(n: psat, p: int, l: Seq<(int, lmap)>, k: int) requires 0 <= k < l.len(), load_to(n, p, l, k), load_lab(n, p, l[k].0, l[k].1.elems, l[k].1.elems.len() as int), ensures load_to(n, p, l, k + 1)
{ reveal(load_to); reveal(load_lab); assert forall|j: int, i: int| #![trigger l[j].1.elems[i]] 0 <= j < k + 1 && j < l.len() && 0 <= i < l[j].1.elems.len() implies in_work(n, p, l[j].1.elems[i].first, l[j].0) by { if j == k { let z = l[k].1.elems[i]; } } }
proof fn load_state(n: psat, p: int, l: Seq<(int, lmap)>) requires 0 <= p < aut(n).len(), loaded(n, p), load_to(n, p, l, l.len() as int), forall|q: int| #[trigger] aut(n)[p]._edges.elems.dom().contains(q) ==> l.contains((q, aut(n)[p]._edges.elems[q])), ensures loaded(n, p + 1)
{ reveal(loaded); assert forall|a: int, x: int, q: int| #[trigger] edge(aut(n), a, x, q) && a < p + 1 implies in_work(n, a, x, q) by { if a == p { reveal(edge); reveal(load_to); let e = aut(n)[p]._edges.elems; let j = choose|j: int| 0 <= j < l.len() && l[j] == (q, e[q]); let u = l[j].1.elems; let i = choose|i: int| #![trigger u[i]] 0 <= i < u.len() && u[i].first == x; assert(l[j].1.elems[i].first == x); } } }
proof fn pop_one(o: psat, m: psat, n: psat, B: Aut, f: int, k: int)
    requires gr(o, m, B), shape(m), in_range(B, m._n_pda_labels), B.len() == aut(m).len(), 0 <= f < aut(m).len(), k == f, forall|h: int| 0 <= h < m._popped.len() && #[trigger] m._popped[h] ==> pops(m, h), forall|h: int| #[trigger] acc(aut(m), h) && h < k && h < m._popped.len() ==> m._popped[h],
        if acc(aut(m), f) { (forall|B: Aut| #[trigger] gr(m, n, B)) && n._delta_prime == m._delta_prime && shape(n) && (f >= m._popped.len() ==> n._popped == m._popped) && (f < m._popped.len() ==> n._popped == m._popped.update(f, true) && (m._popped[f] || pops(n, f))) } else { n == m },
    ensures n._n_pda_labels == m._n_pda_labels, gr(o, n, B), n._delta_prime == m._delta_prime, shape(n), forall|h: int| 0 <= h < n._popped.len() && #[trigger] n._popped[h] ==> pops(n, h), forall|h: int| #[trigger] acc(aut(n), h) && h < k + 1 && h < n._popped.len() ==> n._popped[h]
{ if acc(aut(m), f) { assert(gr(m, n, B)); assert(same(m, n)) by { reveal(gr); } gr_trans(o, m, n, B);
    assert forall|h: int| 0 <= h < n._popped.len() && #[trigger] n._popped[h] implies pops(n, h) by { if m._popped[h] { pops_up(m, n, B, h); } }
    assert(same_acc(aut(m), aut(n))) by { reveal(gr); }
    assert forall|h: int| #[trigger] acc(aut(n), h) && h < k + 1 && h < n._popped.len() implies n._popped[h] by { assert(acc(aut(m), h)); } } }
proof fn loaded_inv(o: psat, l: psat, n: psat) requires start(o), l == (psat { _workset: l._workset, ..o }), work_ok(l), loaded(l, aut(o).len() as int), gr(l, n, aut(o)), n._delta_prime == o._delta_prime, shape(n), forall|f: int| 0 <= f < n._popped.len() && #[trigger] n._popped[f] ==> pops(n, f), forall|f: int| #[trigger] acc(aut(n), f) && f < aut(n).len() && f < n._popped.len() ==> n._popped[f], ensures inv(n), acc_popped(n), stepped(o, n)
{ assert(same(l, n)) by { reveal(gr); }
  assert forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) implies in_work(n, p, x, q) || in_rel(n, p, x, q) by { reveal(gr); reveal(loaded); if edge(aut(l), p, x, q) { assert(in_work(l, p, x, q)); } }
  assert forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) implies edge(aut(n), p, x, q) by { reveal(gr); reveal(work_ok); if in_work(l, p, x, q) { assert(edge(aut(l), p, x, q)); } }
  assert forall|p: int, x: int, q: int| !#[trigger] in_rel(n, p, x, q) by { reveal(in_rel); }
  assert forall|m: int, p: int, i: int| !#[trigger] in_dp(n, m, p, i) by { reveal(in_dp); }
  assert(stepped(o, n)) by { reveal(gr); } }
'''
V = B.V
PS = r'pdaaal::internal::PreStarSaturation<%s, %s, 0>::'
KEEP = 'gr(o_, this_, B_) && this_._popped == this0._popped && this_._rel == o_._rel && this_._pda_states == this0._pda_states && this_._n_pda_labels == this0._n_pda_labels && shape(this_) && dp_new(o_, this_, f_, y_, g_) && dpd(this_, this0._delta_prime[f_], y_, g_, this0._delta_prime[f_].len() as int)'


def contracts(et):
    S = PS % (V, '-1' if et else '0')
    return B.CONTRACTS + [
        dict(name='insert_edge', fn=S + 'insert_edge', params=['from', 'label', 'to', 'trace', 'weight'], requires='a_ok(aut(this0)) ;; 0 <= from0 < aut(this0).len()', ensures='ins1(this0, this1, from0, label0, to0)',
             hints={'return': 'put_work(this0, this_, from0, label0, to0);'}),
        dict(name='insert_bulk', fn=S + 'insert_edge_bulk', params=['from', 'labels', 'to', 'trace', 'weight'], requires='a_ok(aut(this0)) ;; 0 <= from0 < aut(this0).len() ;; lab_wf(labels0) ;; lab_in(labels0, this0._n_pda_labels) ;; 0 <= this0._n_pda_labels < 0xffff_ffff', ensures='insb(this0, this1, from0, labels0, this0._n_pda_labels, to0)',
             loops={1: '0 <= i <= this0._n_pda_labels && insb(this0, this_, from0, labels0, i, to0) && this_._n_pda_labels == this0._n_pda_labels && a_ok(aut(this_)) && aut(this_).len() == aut(this0).len()', 2: 'rng2_s == labels0._labels && insb(this0, this_, from0, first_labels(rng2_s, k2), this0._n_pda_labels, to0) && a_ok(aut(this_)) && aut(this_).len() == aut(this0).len()'},
             hints={'before loop 1': 'insb_nil(this0, from0, labels0, 0, to0);', 'loop 1 begin': 'raw:let ghost m_ = this_; let ghost i_ = i;', 'loop 1 end': 'insb_wild(this0, m_, this_, from0, labels0, i_, to0); reveal(ins1);',
                    'before loop 2': 'insb_nil(this0, from0, first_labels(labels0._labels, 0), this0._n_pda_labels, to0);', 'loop 2 begin': 'raw:let ghost m_ = this_;', 'loop 2 end': 'insb_lab(this0, m_, this_, from0, rng2_s, k2, this0._n_pda_labels, to0); reveal(ins1);',
                    'after loop 2': 'assert(rng2_s.subrange(0, rng2_s.len() as int) =~= rng2_s); assert(first_labels(rng2_s, rng2_s.len() as int) == labels0);'}),
        dict(name='add_pop', fn=S + 'add_pop', params=['state'], requires='shape(this0) ;; state0 >= 0',
             ensures='forall|B: Aut| #[trigger] gr(this0, this1, B) ;; this1._delta_prime == this0._delta_prime ;; shape(this1) ;; state0 >= this0._popped.len() ==> this1._popped == this0._popped ;; state0 < this0._popped.len() ==> this1._popped == this0._popped.update(state0, true) && (this0._popped[state0] || pops(this1, state0))',
             loops={1: 'rng1_s == this0._pda_states[state0]._pre_states.elems && (forall|B: Aut| #[trigger] gr(this0, this_, B)) && this_._popped == this0._popped && this_._delta_prime == this0._delta_prime && this_._pda_states == this0._pda_states && this_._n_pda_labels == this0._n_pda_labels && shape(this_) && popds(this_, rng1_s, state0, k1)',
                    2: '0 <= lb <= this0._pda_states[rng1_s[k1]]._rules.elems.len() && (forall|j: int| #![trigger this0._pda_states[rng1_s[k1]]._rules.elems[j]] lb <= j < this0._pda_states[rng1_s[k1]]._rules.elems.len() ==> rl(this0._pda_states, rng1_s[k1], j)._to >= state0) && (forall|B: Aut| #[trigger] gr(this0, this_, B)) && this_._popped == this0._popped && this_._delta_prime == this0._delta_prime && this_._pda_states == this0._pda_states && this_._n_pda_labels == this0._n_pda_labels && shape(this_) && popds(this_, rng1_s, state0, k1) && popd(this_, rng1_s[k1], state0, lb)'},
             hints={'begin': 'assert forall|B: Aut| #[trigger] gr(this0, this0, B) by { gr_refl(this0, B); }', 'return 2': 'assert(this0._popped =~= this0._popped.update(state0, true));', 'before loop 1': 'assert(st_ok(this0._pda_states, state0)); reveal(popds);', 'loop 1 begin': 'assert(st_ok(this0._pda_states, rng1_s[k1]));',
                    'before loop 2': 'entries_ok(this0._pda_states, this0._n_pda_labels, rng1_s[k1]); lb_before(this0._pda_states[rng1_s[k1]]._rules.elems, state0, lb); assert(popd(this_, rng1_s[k1], state0, 0)) by { reveal(popd); } popd_skip(this_, rng1_s[k1], state0, 0, lb);',
                    'loop 2 begin': 'raw:let ghost m_ = this_; let ghost i_ = lb; proof { let z = this0._pda_states[rng1_s[k1]]._rules.elems[lb]; entries_ok(this0._pda_states, this0._n_pda_labels, rng1_s[k1]); }',
                    'loop 2 end': 'if rl(this0._pda_states, rng1_s[k1], i_)._operation == POP() { assert forall|B: Aut| #[trigger] gr(this0, this_, B) by { by_pop(m_._pda_states, m_._n_pda_labels, B, rng1_s[k1], i_, state0); insb_gr(m_, this_, rng1_s[k1], state0, B, i_); gr_trans(this0, m_, this_, B); } let B = aut(this0); by_pop(m_._pda_states, m_._n_pda_labels, B, rng1_s[k1], i_, state0); insb_gr(m_, this_, rng1_s[k1], state0, B, i_); assert(same(m_, this_)) by { reveal(gr); } assert(gr(this0, this_, B)); gr_shape(this0, this_, B); popds_up(m_, this_, B, rng1_s, state0, k1); popd_up(m_, this_, B, rng1_s[k1], state0, i_); } popd_next(this_, rng1_s[k1], state0, i_); if i_ + 1 < this0._pda_states[rng1_s[k1]]._rules.elems.len() { let z = this0._pda_states[rng1_s[k1]]._rules.elems[i_ + 1]; }',
                    'after loop 2': 'let l = this0._pda_states[rng1_s[k1]]._rules.elems; if lb < l.len() { let z = l[lb]; lb_after(l, state0, lb); } popd_skip(this_, rng1_s[k1], state0, lb, l.len() as int); popds_next(this_, rng1_s, state0, k1);',
                    'after loop 1': 'all_pops(this_, state0);',
                    'end': 'popped_gr(this0, this_, state0);'}),
        dict(name='initialize', fn=S + 'initialize', requires='start(this0)', ensures='inv(this1) ;; acc_popped(this1) ;; stepped(this0, this1)',
             loops={1: 'this_ == (psat { _workset: this_._workset, ..this0 }) && work_ok(this_) && loaded(this_, k1)', 2: 'this_ == (psat { _workset: this_._workset, ..this0 }) && work_ok(this_) && loaded(this_, k1) && load_to(this_, k1, rng2_s, k2)',
                    3: 'this_ == (psat { _workset: this_._workset, ..this0 }) && work_ok(this_) && loaded(this_, k1) && load_to(this_, k1, rng2_s, k2) && load_lab(this_, k1, rng2_s[k2].0, rng2_s[k2].1.elems, k3)',
                    4: 'gr(o_, this_, aut(this0)) && this_._n_pda_labels == this0._n_pda_labels && this_._delta_prime == this0._delta_prime && shape(this_) && (forall|f: int| 0 <= f < this_._popped.len() && #[trigger] this_._popped[f] ==> pops(this_, f)) && (forall|f: int| #[trigger] acc(aut(this_), f) && f < k4 && f < this_._popped.len() ==> this_._popped[f])'},
             hints={'before loop 1': 'start_load(this0);', 'loop 1 begin': 'let z = aut(this0)[k1];', 'before loop 2': 'reveal(load_to);', 'before loop 3': 'reveal(load_lab);', 'loop 3 begin': 'raw:let ghost m_ = this_;', 'loop 3 end': 'load_one(m_, this_, k1, rng2_s, k2, k3);', 'after loop 3': 'load_next(this_, k1, rng2_s, k2);', 'after loop 2': 'load_state(this_, k1, rng2_s);',
                    'before loop 4': 'raw:let ghost o_ = this_; proof { gr_refl(this_, aut(this0)); }', 'loop 4 begin': 'raw:let ghost m_ = this_; proof { let z = aut(this_)[k4]; assert(z._id == k4); assert(acc(aut(this_), k4) == z._accepting); }',
                    'loop 4 end': 'pop_one(o_, m_, this_, aut(this0), k4, k4);', 'end': 'loaded_inv(this0, o_, this_);'}),
        dict(name='step', fn=S + 'step', requires='inv(this0) ;; this0._workset.len() > 0', ensures='inv(this1) ;; stepped(this0, this1) ;; popped_kept(this0, this1)',
             loops={1: 'gr(o_, this_, B_) && this_._popped == this0._popped && this_._delta_prime == this0._delta_prime && this_._rel == o_._rel && this_._pda_states == this0._pda_states && this_._n_pda_labels == this0._n_pda_labels && shape(this_) && rng1_s == this0._delta_prime[f_] && dpd(this_, rng1_s, y_, g_, k1)',
                    2: KEEP + ' && rng2_s == this0._pda_states[f_]._pre_states.elems && hands(this_, rng2_s, f_, y_, g_, k2)',
                    3: KEEP + ' && hands(this_, rng2_s, f_, y_, g_, k2) && 0 <= lb <= this0._pda_states[rng2_s[k2]]._rules.elems.len() && (forall|j: int| #![trigger this0._pda_states[rng2_s[k2]]._rules.elems[j]] lb <= j < this0._pda_states[rng2_s[k2]]._rules.elems.len() ==> rl(this0._pda_states, rng2_s[k2], j)._to >= f_) && hand(this_, rng2_s[k2], f_, y_, g_, lb)',
                    4: 'gr(m2_, this_, B_) && this_._popped == this0._popped && this_._delta_prime == m2_._delta_prime && this_._rel == o_._rel && this_._pda_states == this0._pda_states && this_._n_pda_labels == this0._n_pda_labels && shape(this_) && rng4_s == o_._rel[g_] && crossk(this_, rng4_s, rng2_s[k2], i_, k4)'},
             hints={'begin': 'raw:let ghost f_ = this0._workset.last()._from; let ghost y_ = this0._workset.last()._label; let ghost g_ = this0._workset.last()._to; let ghost B_ = aut(this0); proof { reveal(in_work); assert(this0._workset[this0._workset.len() - 1] == (temp_edge_t { _from: f_, _label: y_, _to: g_ })); assert(in_work(this0, f_, y_, g_)); assert(edge(B_, f_, y_, g_)); }',
                    'before loop 1': 'raw:let ghost o_ = this_; proof { take(this0, this_); taken_ok(this0, this_, f_, y_, g_); gr_refl(this_, B_); reveal(dpd); }',
                    'loop 1 begin': 'raw:let ghost m_ = this_; proof { assert(in_dp(o_, f_, rng1_s[k1].0, rng1_s[k1].1)) by { reveal(in_dp); } entries_ok(this0._pda_states, this0._n_pda_labels, rng1_s[k1].0); assert(st_ok(this0._pda_states, rng1_s[k1].0)); }',
                    'loop 1 end': 'if rd(this0._pda_states, this0._n_pda_labels, rng1_s[k1].0, rng1_s[k1].1, y_) { by_push(this0._pda_states, this0._n_pda_labels, B_, rng1_s[k1].0, rng1_s[k1].1, f_, y_, g_); ins1_gr(m_, this_, rng1_s[k1].0, y_, g_, B_, rng1_s[k1].1); gr_trans(o_, m_, this_, B_); gr_shape(o_, this_, B_); dpd_up(m_, this_, B_, rng1_s, y_, g_, k1); assert(same(m_, this_)) by { reveal(gr); } } dpd_next(this_, rng1_s, y_, g_, k1);',
                    'return 1': 'round_ok(this0, o_, this_, this_, f_, y_, g_);',
                    'before loop 2': 'assert(dp_new(o_, this_, f_, y_, g_)) by { reveal(dp_new); reveal(in_dp); } reveal(hands); assert(st_ok(this0._pda_states, f_));', 'loop 2 begin': 'assert(st_ok(this0._pda_states, rng2_s[k2]));',
                    'before loop 3': 'entries_ok(this0._pda_states, this0._n_pda_labels, rng2_s[k2]); lb_before(this0._pda_states[rng2_s[k2]]._rules.elems, f_, lb); assert(hand(this_, rng2_s[k2], f_, y_, g_, 0)) by { reveal(hand); } hand_skip(this_, rng2_s[k2], f_, y_, g_, 0, lb);',
                    'loop 3 begin': 'raw:let ghost m_ = this_; let ghost i_ = lb; proof { let z = this0._pda_states[rng2_s[k2]]._rules.elems[lb]; entries_ok(this0._pda_states, this0._n_pda_labels, rng2_s[k2]); assert(is_rl(this0._pda_states, rng2_s[k2], i_)); }',
                    'before loop 4': 'raw:let ghost m2_ = this_; proof { dp_push_gr(m_, this_, g_, rng2_s[k2], i_, B_); dp_new_push(o_, m_, this_, f_, y_, g_, rng2_s[k2], i_); gr_trans(o_, m_, this_, B_); gr_shape(o_, this_, B_); gr_refl(this_, B_); reveal(crossk); }',
                    'loop 4 begin': 'raw:let ghost m4_ = this_; proof { assert(in_rel(o_, g_, rng4_s[k4].1, rng4_s[k4].0)) by { reveal(in_rel); } }',
                    'loop 4 end': 'if rd(this0._pda_states, this0._n_pda_labels, rng2_s[k2], i_, rng4_s[k4].1) { by_push(this0._pda_states, this0._n_pda_labels, B_, rng2_s[k2], i_, g_, rng4_s[k4].1, rng4_s[k4].0); ins1_gr(m4_, this_, rng2_s[k2], rng4_s[k4].1, rng4_s[k4].0, B_, i_); gr_trans(m2_, m4_, this_, B_); gr_shape(m2_, this_, B_); crossk_up(m4_, this_, B_, rng4_s, rng2_s[k2], i_, k4); assert(same(m4_, this_)) by { reveal(gr); } } crossk_next(this_, rng4_s, rng2_s[k2], i_, k4);',
                    'after loop 4': 'crossk_all(this_, g_, rng2_s[k2], i_); gr_trans(m_, m2_, this_, B_); dp_new_same(o_, m2_, this_, f_, y_, g_); assert(in_dp(this_, g_, rng2_s[k2], i_)) by { reveal(gr); }',
                    'loop 3 end': 'one_rule(this0, o_, m_, this_, B_, rng2_s[k2], i_, f_, y_, g_); gr_trans(o_, m_, this_, B_); gr_shape(o_, this_, B_); assert(same(m_, this_)) by { reveal(gr); } hands_up(m_, this_, B_, rng2_s, f_, y_, g_, k2); hand_up(m_, this_, B_, rng2_s[k2], f_, y_, g_, i_); hand_next(this_, rng2_s[k2], f_, y_, g_, i_); dpd_up(m_, this_, B_, this0._delta_prime[f_], y_, g_, this0._delta_prime[f_].len() as int);',
                    'after loop 3': 'let l = this0._pda_states[rng2_s[k2]]._rules.elems; if lb < l.len() { let z = l[lb]; lb_after(l, f_, lb); } hand_skip(this_, rng2_s[k2], f_, y_, g_, lb, l.len() as int); hands_next(this_, rng2_s, f_, y_, g_, k2);',
                    'after loop 2': 'raw:let ghost n_ = this_;',
                    'end': 'round_ok(this0, o_, n_, this_, f_, y_, g_);'}),
        dict(name='make', fn=S + 'PreStarSaturation', nparams=2, params=['automaton', 'early_termination'], requires='input_ok(automaton0)', ensures='inv(this1) ;; acc_popped(this1) ;; this1._pda_states == automaton0._pda._states ;; this1._n_pda_labels == nlabels(automaton0._pda) ;; this1._automaton == automaton1 ;; automaton1._pda == automaton0._pda ;; inc_sound(automaton0, automaton1) ;; this1._found ==> told(automaton0._states, automaton1._states)',
             hints={'end': 'let s = automaton0._pda._states; let nl = nlabels(automaton0._pda); sound_refl(s, nl, automaton0._states); sound_step(s, nl, automaton0._states, automaton0._states, aut(this_));'}),
        dict(name='pre_star', fn=r'pdaaal::Solver::pre_star', pick=lambda u, d: ('Lb%dE' % et) in d['mangledName'], params=['automaton', 'early_termination'], requires='input_ok(automaton0) ;; no_in(automaton0._states, automaton0._pda._states.len() as int)',
             ensures='automaton1._pda == automaton0._pda ;; inc_sound(automaton0, automaton1) ;; result ==> told(automaton0._states, automaton1._states)' + (' ;; !result ==> ' if et else ' ;; ') + 'exact_pre(automaton0._pda._states, nlabels(automaton0._pda), automaton0._states, automaton1._states)',
             loops={1: 'inv(saturation) && acc_popped(saturation) && saturation._pda_states == automaton0._pda._states && saturation._n_pda_labels == nlabels(automaton0._pda) && saturation._automaton._pda == automaton0._pda && inc_sound(automaton0, saturation._automaton) && (saturation._found ==> told(automaton0._states, saturation._automaton._states))'},
             hints={'loop 1 begin': 'raw:let ghost m_ = saturation;', 'loop 1 end': 'sound_step(m_._pda_states, m_._n_pda_labels, automaton0._states, aut(m_), aut(saturation)); told_next(automaton0._states, m_, saturation); acc_keep(m_, saturation);',
                    'after loop 1': 'if saturation._workset.len() == 0 { all_closed(saturation); exactly(automaton0._pda._states, nlabels(automaton0._pda), automaton0._states, aut(saturation)); }'}),
    ]


def make(et):
    return lambda ast: Unit('prestar_' + 'ne'[et], 'sat.cpp', contracts(et), B.config(), SPEC, LEMMAS, ast)
