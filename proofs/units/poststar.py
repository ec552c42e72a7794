"""S02: forward saturation (unweighted), with and without early termination."""
from unit import Unit
import proofs.units.satbase as B

SPEC = B.SPEC + r'''
pub open spec fn EPS() -> int { 0xffff_ffff }
pub type Tri = (int, int, int);
pub type Keys = Map<(int, int), int>;
pub open spec fn NONE() -> Tri { (-1, -1, -1) }
// ---- words with empty moves
pub open spec fn strip(u: Word) -> Word decreases u.len() { if u.len() == 0 { u } else if u[0] == EPS() { strip(u.drop_first()) } else { top(u[0], strip(u.drop_first())) } }
pub open spec fn no_eps(u: Word) -> bool { forall|i: int| #![trigger u[i]] 0 <= i < u.len() ==> u[i] != EPS() }
pub open spec fn acc_by(A: Aut, p: int, u: Word, w: Word, q: int) -> bool { path(A, p, u, q) && acc(A, q) && strip(u) == w }
// the automaton, read with its empty moves, accepts the configuration
pub open spec fn accepts_e(A: Aut, p: int, w: Word) -> bool { exists|u: Word, q: int| #[trigger] acc_by(A, p, u, w, q) }
pub open spec fn to_from(s: Sys, nl: int, A: Aut, p2: int, w2: Word, p: int, w: Word) -> bool { 0 <= p2 < s.len() && accepts(A, p2, w2) && leads(s, nl, p2, w2, p, w) }
// some run leads from a configuration accepted by A to this one
pub open spec fn succ(s: Sys, nl: int, A: Aut, p: int, w: Word) -> bool { exists|p2: int, w2: Word| #[trigger] to_from(s, nl, A, p2, w2, p, w) }
pub open spec fn exact_post(s: Sys, nl: int, A: Aut, B: Aut) -> bool { forall|p: int, w: Word| 0 <= p < s.len() ==> (#[trigger] accepts_e(B, p, w) <==> succ(s, nl, A, p, w)) }
pub open spec fn puts(r: rule_t) -> bool { r._operation == PUSH() || r._operation == SWAP() }
// labels that rules write are labels of the system
pub open spec fn writes_ok(s: Sys, nl: int) -> bool { forall|p: int, i: int| #[trigger] is_rl(s, p, i) && puts(rl(s, p, i)) ==> 0 <= rl(s, p, i)._op_label < nl }
pub open spec fn input_ok(a: paut) -> bool { let s = a._pda._states; let nl = nlabels(a._pda); sys_ok(s, nl) && writes_ok(s, nl) && s.len() <= a._states.len() && a_ok(a._states) && in_range(a._states, nl) && no_in(a._states, s.len() as int) }
// ---- what the edges mean: a state of A stands for where A is after reading, a new state for one symbol y on state p
pub open spec fn org(s: Sys, nl: int, A: Aut, p2: int, w2: Word, p: int, w: Word, q: int) -> bool { 0 <= p2 < s.len() && path(A, p2, w2, q) && leads(s, nl, p2, w2, p, w) }
pub open spec fn new_at(s: Sys, nl: int, K: Keys, k: (int, int), p: int, w: Word, q: int) -> bool { K.dom().contains(k) && K[k] == q && leads(s, nl, k.0, seq![k.1], p, w) }
#[verifier::opaque]
pub open spec fn mean(s: Sys, nl: int, A: Aut, K: Keys, p: int, w: Word, q: int) -> bool { if q < A.len() { exists|p2: int, w2: Word| #[trigger] org(s, nl, A, p2, w2, p, w, q) } else { exists|k: (int, int)| #[trigger] new_at(s, nl, K, k, p, w, q) } }
pub open spec fn word1(x: int) -> Word { if x == EPS() { Seq::<int>::empty() } else { seq![x] } }
pub open spec fn two(y: int, x: int) -> Word { top(y, seq![x]) }
pub open spec fn is_key(K: Keys, k: (int, int), q: int) -> bool { K.dom().contains(k) && K[k] == q }
#[verifier::opaque]
pub open spec fn just(s: Sys, nl: int, A: Aut, K: Keys, p: int, x: int, q: int) -> bool {
    &&& p < s.len() ==> mean(s, nl, A, K, p, word1(x), q)
    &&& s.len() <= p < A.len() ==> edge(A, p, x, q)
    &&& p >= A.len() ==> x != EPS() && forall|k: (int, int)| #[trigger] is_key(K, k, p) ==> mean(s, nl, A, K, k.0, two(k.1, x), q)
}
pub open spec fn acc_ext(A: Aut, B: Aut) -> bool { A.len() <= B.len() && forall|p: int| #[trigger] acc(B, p) == acc(A, p) }
// ---- the saturation object
pub open spec fn aut(o: qsat) -> Aut { o._automaton._states }
pub open spec fn nlo(o: qsat) -> int { nlabels(o._automaton._pda) }
pub open spec fn np(o: qsat) -> int { o._pda_states.len() as int }
#[verifier::opaque]
pub open spec fn in_work(o: qsat, p: int, x: int, q: int) -> bool { o._workset.contains(temp_edge_t { _from: p, _label: x, _to: q }) }
#[verifier::opaque]
pub open spec fn in_rel1(o: qsat, p: int, x: int, q: int) -> bool { o._n_pda_states <= p < o._n_pda_states + o._rel1.len() && o._rel1[p - o._n_pda_states].contains((q, x)) }
#[verifier::opaque]
pub open spec fn in_rel2(o: qsat, q: int, p: int) -> bool { o._n_Q <= q < o._n_Q + o._rel2.len() && o._rel2[q - o._n_Q].contains(p) }
pub open spec fn lab_ok(o: qsat, p: int, x: int) -> bool { 0 <= x < nlo(o) || (x == EPS() && p < np(o)) }
#[verifier::opaque]
pub open spec fn ranges(o: qsat) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(aut(o), p, x, q) ==> 0 <= p < aut(o).len() && np(o) <= q < aut(o).len() && lab_ok(o, p, x) }
pub open spec fn key(s: Sys, p: int, i: int) -> (int, int) { (rl(s, p, i)._to, rl(s, p, i)._op_label) }
#[verifier::opaque]
pub open spec fn covers(s: Sys, K: Keys, n: int, m: int) -> bool { forall|p: int, i: int| #[trigger] is_rl(s, p, i) && rl(s, p, i)._operation == PUSH() && (p < n || (p == n && i < m)) ==> K.dom().contains(key(s, p, i)) }
#[verifier::opaque]
pub open spec fn keys_ok(K: Keys, a: int, b: int) -> bool { (forall|k: (int, int)| #[trigger] K.dom().contains(k) ==> a <= K[k] < b) && (forall|k: (int, int), l: (int, int)| #![trigger K.dom().contains(k), K.dom().contains(l)] K.dom().contains(k) && K.dom().contains(l) && K[k] == K[l] ==> k == l) }
pub open spec fn sized(o: qsat) -> bool { o._n_pda_states == np(o) <= o._n_Q <= aut(o).len() && o._n_automaton_states == aut(o).len() && o._rel1.len() == aut(o).len() - np(o) && o._rel2.len() == aut(o).len() - o._n_Q && sys_ok(o._pda_states, nlo(o)) && writes_ok(o._pda_states, nlo(o)) && a_ok(aut(o)) && covers(o._pda_states, o._q_prime, np(o), 0) && keys_ok(o._q_prime, o._n_Q, aut(o).len() as int) }
pub open spec fn shape(o: qsat) -> bool { sized(o) && ranges(o) }
pub open spec fn fixed(o: qsat, n: qsat) -> bool { n._pda_states == o._pda_states && n._n_pda_states == o._n_pda_states && n._n_Q == o._n_Q && n._q_prime == o._q_prime && n._n_automaton_states == o._n_automaton_states && n._rel1.len() == o._rel1.len() && n._rel2 == o._rel2 && n._automaton._pda == o._automaton._pda && aut(n).len() == aut(o).len() }
pub open spec fn added(o: qsat, n: qsat, a: int, y: int, b: int) -> bool {
    &&& fixed(o, n) && a_ok(aut(n)) && same_acc(aut(o), aut(n))
    &&& forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) <==> edge(aut(o), p, x, q) || (p == a && x == y && q == b)
    &&& n._found ==> o._found || told(aut(o), aut(n))
}
// one edge was asked for, to be treated later
#[verifier::opaque]
pub open spec fn ins1(o: qsat, n: qsat, a: int, y: int, b: int) -> bool {
    &&& added(o, n, a, y, b) && n._rel1 == o._rel1
    &&& forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) <==> in_work(o, p, x, q) || (p == a && x == y && q == b && !edge(aut(o), p, x, q))
}
// one edge was asked for and recorded
#[verifier::opaque]
pub open spec fn insr(o: qsat, n: qsat, a: int, y: int, b: int) -> bool {
    &&& added(o, n, a, y, b) && n._workset == o._workset
    &&& forall|p: int, x: int, q: int| #[trigger] in_rel1(n, p, x, q) <==> in_rel1(o, p, x, q) || (p == a && x == y && q == b && !edge(aut(o), p, x, q))
}
// what rule i of p asks for because of the edge (p, x, q)
pub open spec fn done(o: qsat, p: int, i: int, x: int, q: int) -> bool {
    let r = rl(o._pda_states, p, i);
    &&& r._operation == POP() ==> edge(aut(o), r._to, EPS(), q)
    &&& r._operation == SWAP() ==> edge(aut(o), r._to, r._op_label, q)
    &&& r._operation == NOOP() ==> edge(aut(o), r._to, x, q)
    &&& r._operation == PUSH() ==> edge(aut(o), r._to, r._op_label, o._q_prime[key(o._pda_states, p, i)]) && edge(aut(o), o._q_prime[key(o._pda_states, p, i)], x, q)
}
#[verifier::opaque]
pub open spec fn ruled(o: qsat, p: int, x: int, q: int, k: int) -> bool { forall|i: int| #[trigger] rd(o._pda_states, nlo(o), p, i, x) && i < k ==> done(o, p, i, x, q) }
pub open spec fn nrules(o: qsat, p: int) -> int { o._pda_states[p]._rules.elems.len() as int }
// every treated edge (but h) has what the rules ask for
#[verifier::opaque]
pub open spec fn treated(o: qsat, h: Tri) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(aut(o), p, x, q) && p < np(o) && x != EPS() && !in_work(o, p, x, q) && h != (p, x, q) ==> ruled(o, p, x, q, nrules(o, p)) }
// every treated empty move (but h) is followed by the edges (but e) behind it
#[verifier::opaque]
pub open spec fn ecl(o: qsat, h: Tri, e: Tri) -> bool { forall|p: int, q: int, x: int, q2: int| #![trigger edge(aut(o), p, EPS(), q), edge(aut(o), q, x, q2)] edge(aut(o), p, EPS(), q) && edge(aut(o), q, x, q2) && !in_work(o, p, EPS(), q) && h != (p, EPS(), q) && e != (q, x, q2) ==> edge(aut(o), p, x, q2) }
#[verifier::opaque]
pub open spec fn lists(o: qsat) -> bool {
    &&& forall|p: int, x: int, q: int| #[trigger] in_work(o, p, x, q) ==> edge(aut(o), p, x, q) && p < np(o)
    &&& forall|p: int, x: int, q: int| #[trigger] in_rel1(o, p, x, q) ==> edge(aut(o), p, x, q)
    &&& forall|p: int, x: int, q: int| #[trigger] edge(aut(o), p, x, q) && p >= np(o) ==> in_rel1(o, p, x, q)
    &&& forall|q: int, p: int| #[trigger] in_rel2(o, q, p) ==> edge(aut(o), p, EPS(), q)
    &&& forall|p: int, q: int| #[trigger] edge(aut(o), p, EPS(), q) && q >= o._n_Q && !in_work(o, p, EPS(), q) ==> in_rel2(o, q, p)
}
pub open spec fn invh(o: qsat, h: Tri, e: Tri) -> bool { shape(o) && lists(o) && treated(o, h) && ecl(o, h, e) }
pub open spec fn inv(o: qsat) -> bool { invh(o, NONE(), NONE()) }
// the edges mean what they should
#[verifier::opaque]
pub open spec fn snd(A: Aut, o: qsat) -> bool { A.len() == o._n_Q && np(o) <= A.len() && in_range(A, nlo(o)) && no_in(A, np(o)) && incl(A, aut(o)) && acc_ext(A, aut(o)) && nlo(o) < EPS() && keys_ok(o._q_prime, o._n_Q, aut(o).len() as int) && forall|p: int, x: int, q: int| #[trigger] edge(aut(o), p, x, q) ==> just(o._pda_states, nlo(o), A, o._q_prime, p, x, q) }
#[verifier::opaque]
pub open spec fn keeps(o: qsat, n: qsat) -> bool { forall|A: Aut| #[trigger] snd(A, o) ==> snd(A, n) }
// the stop condition was reported for an edge that A does not have
pub open spec fn told_if(A: Aut, o: qsat) -> bool { o._found ==> told(A, aut(o)) }
pub open spec fn stepped(o: qsat, n: qsat) -> bool { n._pda_states == o._pda_states && n._automaton._pda == o._automaton._pda && keeps(o, n) && incl(aut(o), aut(n)) && (n._found ==> o._found || told(aut(o), aut(n))) }
// ---- the start
pub open spec fn start(o: qsat) -> bool { input_ok(o._automaton) && o._pda_states == o._automaton._pda._states && o._n_pda_states == np(o) && o._n_Q == aut(o).len() && o._q_prime == Map::<(int, int), int>::empty() && o._workset.len() == 0 && o._rel1.len() == 0 && o._rel2.len() == 0 && !o._found }
pub open spec fn blank(a: astate, p: int) -> bool { a._id == p && !a._accepting && a._edges.elems == Map::<int, lmap>::empty() }
#[verifier::opaque]
pub open spec fn ext(A: Aut, B: Aut) -> bool { A.len() <= B.len() && (forall|p: int| #![trigger B[p]] 0 <= p < A.len() ==> B[p] == A[p]) && (forall|p: int| #![trigger B[p]] A.len() <= p < B.len() ==> blank(B[p], p)) }
pub open spec fn made(o: qsat, n: qsat, j: int, i: int) -> bool { n == (qsat { _automaton: n._automaton, _q_prime: n._q_prime, ..o }) && n._automaton._pda == o._automaton._pda && ext(aut(o), aut(n)) && covers(o._pda_states, n._q_prime, j, i) && keys_ok(n._q_prime, o._n_Q, aut(n).len() as int) }
pub open spec fn put(o: qsat, p: int, x: int, q: int) -> bool { if p < np(o) { in_work(o, p, x, q) } else { in_rel1(o, p, x, q) } }
#[verifier::opaque]
pub open spec fn loaded(o: qsat, k: int) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(aut(o), p, x, q) && p < k ==> put(o, p, x, q) }
#[verifier::opaque]
pub open spec fn load_to(o: qsat, p: int, l: Seq<(int, lmap)>, k: int) -> bool { forall|j: int, i: int| #![trigger l[j].1.elems[i]] 0 <= j < k && j < l.len() && 0 <= i < l[j].1.elems.len() ==> put(o, p, l[j].1.elems[i].first, l[j].0) }
#[verifier::opaque]
pub open spec fn load_lab(o: qsat, p: int, q: int, l: Seq<lelem>, k: int) -> bool { forall|i: int| #![trigger l[i]] 0 <= i < k && i < l.len() ==> put(o, p, l[i].first, q) }
// only edges are listed
#[verifier::opaque]
pub open spec fn only(o: qsat) -> bool {
    &&& forall|p: int, x: int, q: int| #[trigger] in_work(o, p, x, q) ==> edge(aut(o), p, x, q) && p < np(o)
    &&& forall|p: int, x: int, q: int| #[trigger] in_rel1(o, p, x, q) ==> edge(aut(o), p, x, q)
    &&& forall|q: int, p: int| !#[trigger] in_rel2(o, q, p)
}
pub open spec fn filling(o: qsat, n: qsat) -> bool { n == (qsat { _workset: n._workset, _rel1: n._rel1, ..o }) && n._rel1.len() == o._rel1.len() && only(n) }
'''
LEMMAS = B.LEMMAS + r'''
// ---- words
proof fn strip_same(u: Word) requires no_eps(u), ensures strip(u) == u decreases u.len()
{ if u.len() > 0 { let z = u[0]; let v = u.drop_first(); assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies v[i] != EPS() by { assert(v[i] == u[i + 1]); } strip_same(v); assert(top(u[0], v) =~= u); } }
proof fn top_parts(x: int, w: Word) ensures top(x, w).len() == w.len() + 1, top(x, w)[0] == x, top(x, w).drop_first() == w { assert(top(x, w).drop_first() =~= w); }
proof fn strip_top(x: int, w: Word) ensures strip(top(x, w)) == (if x == EPS() { strip(w) } else { top(x, strip(w)) }) { top_parts(x, w); }
// ---- meaning
proof fn mean_run(s: Sys, nl: int, A: Aut, K: Keys, p: int, w: Word, q: int, p1: int, w1: Word) requires mean(s, nl, A, K, p, w, q), leads(s, nl, p, w, p1, w1), ensures mean(s, nl, A, K, p1, w1, q)
{ reveal(mean); if q < A.len() { let (p2, w2) = choose|p2: int, w2: Word| #[trigger] org(s, nl, A, p2, w2, p, w, q); lead_cat(s, nl, p2, w2, p, w, p1, w1); assert(org(s, nl, A, p2, w2, p1, w1, q)); }
  else { let k = choose|k: (int, int)| #[trigger] new_at(s, nl, K, k, p, w, q); lead_cat(s, nl, k.0, seq![k.1], p, w, p1, w1); assert(new_at(s, nl, K, k, p1, w1, q)); } }
proof fn mean_new(s: Sys, nl: int, A: Aut, K: Keys, k: (int, int)) requires K.dom().contains(k), K[k] >= A.len(), ensures mean(s, nl, A, K, k.0, seq![k.1], K[k])
{ reveal(mean); lead_refl(s, nl, k.0, seq![k.1]); assert(new_at(s, nl, K, k, k.0, seq![k.1], K[k])); }
proof fn lead_one(s: Sys, nl: int, p: int, i: int, x: int) requires rd(s, nl, p, i, x), ensures leads(s, nl, p, seq![x], rl(s, p, i)._to, after(rl(s, p, i), seq![x]))
{ let r = rl(s, p, i); rd_reads(s, nl, p, i, x); let w = seq![x]; let v = after(r, w); assert(app(s, nl, p, w, r, r._to, v)); assert(moves(s, nl, p, w, r._to, v)); lead_refl(s, nl, r._to, v); lead_first(s, nl, p, w, r._to, v, r._to, v); }
proof fn mean_rule(s: Sys, nl: int, A: Aut, K: Keys, p: int, i: int, x: int, q: int) requires nl < EPS(), p < s.len(), just(s, nl, A, K, p, x, q), rd(s, nl, p, i, x), ensures mean(s, nl, A, K, rl(s, p, i)._to, after(rl(s, p, i), seq![x]), q)
{ reveal(just); lead_one(s, nl, p, i, x); mean_run(s, nl, A, K, p, seq![x], q, rl(s, p, i)._to, after(rl(s, p, i), seq![x])); }
// reading one more symbol
proof fn mean_next(s: Sys, nl: int, A: Aut, K: Keys, p: int, w: Word, q: int, x: int, q2: int) requires s.len() <= A.len(), in_range(A, nl), nl < EPS(), mean(s, nl, A, K, p, w, q), just(s, nl, A, K, q, x, q2), q >= s.len(), ensures mean(s, nl, A, K, p, w + seq![x], q2), x != EPS()
{ reveal(mean); reveal(just);
  if q < A.len() { let (p2, w2) = choose|p2: int, w2: Word| #[trigger] org(s, nl, A, p2, w2, p, w, q); assert(edge(A, q, x, q2)); path_one(A, q, x, q2); path_cat(A, p2, w2, q, seq![x], q2); lead_below(s, nl, p2, w2, p, w, seq![x]); assert(org(s, nl, A, p2, w2 + seq![x], p, w + seq![x], q2)); }
  else { let k = choose|k: (int, int)| #[trigger] new_at(s, nl, K, k, p, w, q); assert(is_key(K, k, q)); lead_below(s, nl, k.0, seq![k.1], p, w, seq![x]); assert(seq![k.1] + seq![x] =~= two(k.1, x)); mean_run(s, nl, A, K, k.0, two(k.1, x), q2, p, w + seq![x]); } }
proof fn mean_path(A: Aut, o: qsat, p: int, w: Word, q: int, v: Word, q2: int) requires snd(A, o), ranges(o), mean(o._pda_states, nlo(o), A, o._q_prime, p, w, q), q >= np(o), path(aut(o), q, v, q2), ensures mean(o._pda_states, nlo(o), A, o._q_prime, p, w + v, q2), no_eps(v) decreases v.len()
{ if v.len() == 0 { assert(w + v =~= w); } else { let m = choose|m: int| #[trigger] edge(aut(o), q, v[0], m) && path(aut(o), m, v.drop_first(), q2); assert(just(o._pda_states, nlo(o), A, o._q_prime, q, v[0], m) && m >= np(o)) by { reveal(snd); reveal(ranges); } assert(np(o) <= A.len() && in_range(A, nlo(o)) && nlo(o) < EPS()) by { reveal(snd); }
  mean_next(o._pda_states, nlo(o), A, o._q_prime, p, w, q, v[0], m); mean_path(A, o, p, w + seq![v[0]], m, v.drop_first(), q2); assert(w + seq![v[0]] + v.drop_first() =~= w + v);
  assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies v[i] != EPS() by { if i > 0 { assert(v.drop_first()[i - 1] == v[i]); } } } }
proof fn sound_at(A: Aut, o: qsat, p: int, u: Word, w: Word, q: int) requires snd(A, o), ranges(o), 0 <= p < np(o), acc_by(aut(o), p, u, w, q), ensures succ(o._pda_states, nlo(o), A, p, w)
{ let s = o._pda_states; let nl = nlo(o); let K = o._q_prime; assert(acc(A, q)) by { reveal(snd); assert(acc(aut(o), q) == acc(A, q)); }
  if u.len() == 0 { assert(path(A, p, u, q)); assert(u == w); assert(acc_at(A, p, w, q)); assert(accepts(A, p, w)); lead_refl(s, nl, p, w); assert(to_from(s, nl, A, p, w, p, w)); }
  else { let m = choose|m: int| #[trigger] edge(aut(o), p, u[0], m) && path(aut(o), m, u.drop_first(), q); let v = u.drop_first();
    assert(just(s, nl, A, K, p, u[0], m) && m >= np(o)) by { reveal(snd); reveal(ranges); } assert(mean(s, nl, A, K, p, word1(u[0]), m)) by { reveal(just); }
    mean_path(A, o, p, word1(u[0]), m, v, q); strip_same(v); assert(word1(u[0]) + v =~= w) by { assert(top(u[0], v) =~= seq![u[0]] + v); }
    reveal(mean); let (p2, w2) = choose|p2: int, w2: Word| #[trigger] org(s, nl, A, p2, w2, p, w, q); assert(acc_at(A, p2, w2, q)); assert(accepts(A, p2, w2)); assert(to_from(s, nl, A, p2, w2, p, w)); } }
// ---- nothing is missing
proof fn plain(o: qsat, q: int, v: Word, q2: int) requires ranges(o), nlo(o) < EPS(), q >= np(o), path(aut(o), q, v, q2), ensures no_eps(v), strip(v) == v decreases v.len()
{ if v.len() > 0 { let m = choose|m: int| #[trigger] edge(aut(o), q, v[0], m) && path(aut(o), m, v.drop_first(), q2); assert(m >= np(o) && v[0] != EPS()) by { reveal(ranges); } plain(o, m, v.drop_first(), q2); assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies v[i] != EPS() by { if i > 0 { assert(v.drop_first()[i - 1] == v[i]); } } } strip_same(v); }
proof fn first_edge(o: qsat, p: int, u: Word, w: Word, q: int) -> (m: int) requires inv(o), o._workset.len() == 0, 0 <= p < np(o), acc_by(aut(o), p, u, w, q), w.len() > 0, ensures edge(aut(o), p, w[0], m), path(aut(o), m, w.drop_first(), q), m >= np(o)
{ let m = choose|m: int| #[trigger] edge(aut(o), p, u[0], m) && path(aut(o), m, u.drop_first(), q); let v = u.drop_first(); assert(m >= np(o)) by { reveal(ranges); } plain(o, m, v, q);
  if u[0] == EPS() { let m2 = choose|m2: int| #[trigger] edge(aut(o), m, v[0], m2) && path(aut(o), m2, v.drop_first(), q); assert(!in_work(o, p, EPS(), m)) by { reveal(in_work); } assert(m2 >= np(o)) by { reveal(ranges); } reveal(ecl); assert(edge(aut(o), p, v[0], m2)); m2 } else { top_parts(u[0], v); m } }
proof fn acc_step(o: qsat, p: int, w: Word, p2: int, w2: Word) requires inv(o), o._workset.len() == 0, 0 <= p < np(o), accepts_e(aut(o), p, w), moves(o._pda_states, nlo(o), p, w, p2, w2), ensures accepts_e(aut(o), p2, w2), 0 <= p2 < np(o)
{ let s = o._pda_states; let nl = nlo(o); let B = aut(o); let (u, q) = choose|u: Word, q: int| #[trigger] acc_by(B, p, u, w, q); let r = choose|r: rule_t| #[trigger] app(s, nl, p, w, r, p2, w2); let x = w[0]; let v = w.drop_first();
  let m = first_edge(o, p, u, w, q); rule_tgt(s, nl, p, r, x); plain(o, m, v, q);
  let e = s[p]._rules.elems; let i = choose|i: int| #![trigger e[i]] 0 <= i < e.len() && e[i].first == r && den(e[i].second, x); assert(rd(s, nl, p, i, x)); assert(rl(s, p, i) == r); assert(is_rl(s, p, i)); entries_ok(s, nl, p); let z = s[p]._rules.elems[i];
  assert(done(o, p, i, x, m)) by { assert(!in_work(o, p, x, m)) by { reveal(in_work); } reveal(treated); assert(ruled(o, p, x, m, nrules(o, p))); reveal(ruled); }
  if r._operation == POP() { let t = top(EPS(), v); top_parts(EPS(), v); assert(path(B, p2, t, q)); strip_top(EPS(), v); assert(acc_by(B, p2, t, w2, q)); }
  else if r._operation == SWAP() { let t = top(r._op_label, v); top_parts(r._op_label, v); assert(path(B, p2, t, q)); strip_top(r._op_label, v); assert(acc_by(B, p2, t, w2, q)); }
  else if r._operation == NOOP() { let t = top(x, v); top_parts(x, v); assert(path(B, p2, t, q)); strip_top(x, v); assert(t =~= w); assert(acc_by(B, p2, t, w2, q)); }
  else { let t1 = top(x, v); let qn = o._q_prime[key(s, p, i)]; top_parts(x, v); assert(path(B, qn, t1, q)); strip_top(x, v); assert(t1 =~= w); let t = top(r._op_label, t1); top_parts(r._op_label, t1); assert(path(B, p2, t, q)); strip_top(r._op_label, t1); assert(acc_by(B, p2, t, w2, q)); } }
proof fn acc_run(o: qsat, p: int, w: Word, p2: int, w2: Word, n: nat) requires inv(o), o._workset.len() == 0, 0 <= p < np(o), accepts_e(aut(o), p, w), runs(o._pda_states, nlo(o), p, w, p2, w2, n), ensures accepts_e(aut(o), p2, w2) decreases n
{ if n > 0 { let (a, u) = choose|a: int, u: Word| #[trigger] moves(o._pda_states, nlo(o), p, w, a, u) && runs(o._pda_states, nlo(o), a, u, p2, w2, (n - 1) as nat); acc_step(o, p, w, a, u); acc_run(o, a, u, p2, w2, (n - 1) as nat); } }
proof fn path_plain(A: Aut, nl: int, p: int, w: Word, q: int) requires in_range(A, nl), nl < EPS(), path(A, p, w, q), ensures no_eps(w) decreases w.len()
{ if w.len() > 0 { let m = choose|m: int| #[trigger] edge(A, p, w[0], m) && path(A, m, w.drop_first(), q); path_plain(A, nl, m, w.drop_first(), q); assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies w[i] != EPS() by { if i > 0 { assert(w.drop_first()[i - 1] == w[i]); } } } }
proof fn exactly(A: Aut, o: qsat) requires inv(o), o._workset.len() == 0, snd(A, o), ensures exact_post(o._pda_states, nlo(o), A, aut(o))
{ let s = o._pda_states; let nl = nlo(o); let B = aut(o);
  assert forall|p: int, w: Word| 0 <= p < s.len() implies (#[trigger] accepts_e(B, p, w) <==> succ(s, nl, A, p, w)) by {
    if accepts_e(B, p, w) { let (u, q) = choose|u: Word, q: int| #[trigger] acc_by(B, p, u, w, q); sound_at(A, o, p, u, w, q); }
    if succ(s, nl, A, p, w) { let (p2, w2) = choose|p2: int, w2: Word| #[trigger] to_from(s, nl, A, p2, w2, p, w); let q = choose|q: int| #[trigger] acc_at(A, p2, w2, q); assert(in_range(A, nl) && nl < EPS() && incl(A, B) && acc(B, q) == acc(A, q)) by { reveal(snd); } path_plain(A, nl, p2, w2, q); strip_same(w2); sub_path(A, B, p2, w2, q); assert(acc_by(B, p2, w2, w2, q)); assert(accepts_e(B, p2, w2));
      let n = { reveal(leads); choose|n: nat| #[trigger] runs(s, nl, p2, w2, p, w, n) }; acc_run(o, p2, w2, p, w, n); } } }
// ---- insertions
proof fn put_work(o: qsat, n: qsat, a: int, y: int, b: int) requires fixed(o, n), n._rel1 == o._rel1, a_ok(aut(n)), same_acc(aut(o), aut(n)), forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) <==> edge(aut(o), p, x, q) || (p == a && x == y && q == b), n._workset == (if edge(aut(o), a, y, b) { o._workset } else { o._workset.push(temp_edge_t { _from: a, _label: y, _to: b }) }), n._found ==> o._found || (!edge(aut(o), a, y, b) && said(a, y, b)), ensures ins1(o, n, a, y, b)
{ reveal(ins1); reveal(in_work); let w = o._workset; let v = n._workset; assert(edge(aut(n), a, y, b)); if n._found && !o._found { assert(told_at(aut(o), aut(n), a, y, b)); }
  assert forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) <==> in_work(o, p, x, q) || (p == a && x == y && q == b && !edge(aut(o), p, x, q)) by { let t = temp_edge_t { _from: p, _label: x, _to: q }; let u = temp_edge_t { _from: a, _label: y, _to: b };
    if !edge(aut(o), a, y, b) { assert(v == w.push(u)); if w.contains(t) { let i = choose|i: int| 0 <= i < w.len() && w[i] == t; assert(v[i] == t); } if t == u { assert(v[w.len() as int] == t); } if v.contains(t) { let i = choose|i: int| 0 <= i < v.len() && v[i] == t; if i < w.len() { assert(w[i] == t); } } } } }
proof fn put_rel(o: qsat, n: qsat, a: int, y: int, b: int) requires 0 <= a - o._n_pda_states < o._rel1.len(), n._n_pda_states == o._n_pda_states, n._rel1 == o._rel1.update(a - o._n_pda_states, o._rel1[a - o._n_pda_states].push((b, y))), ensures forall|p: int, x: int, q: int| #[trigger] in_rel1(n, p, x, q) <==> in_rel1(o, p, x, q) || (p == a && x == y && q == b)
{ reveal(in_rel1); assert forall|p: int, x: int, q: int| #[trigger] in_rel1(n, p, x, q) <==> in_rel1(o, p, x, q) || (p == a && x == y && q == b) by { if p == a { let w = o._rel1[p - o._n_pda_states]; let v = w.push((b, y)); assert(n._rel1[p - o._n_pda_states] == v); if w.contains((q, x)) { let i = choose|i: int| 0 <= i < w.len() && w[i] == (q, x); assert(v[i] == (q, x)); } if x == y && q == b { assert(v[w.len() as int] == (q, x)); } if v.contains((q, x)) { let i = choose|i: int| 0 <= i < v.len() && v[i] == (q, x); if i < w.len() { assert(w[i] == (q, x)); } } } } }
proof fn put_rel2(o: qsat, n: qsat, a: int, b: int) requires 0 <= b - o._n_Q < o._rel2.len(), n._n_Q == o._n_Q, n._rel2 == o._rel2.update(b - o._n_Q, o._rel2[b - o._n_Q].push(a)), ensures forall|q: int, p: int| #[trigger] in_rel2(n, q, p) <==> in_rel2(o, q, p) || (p == a && q == b)
{ reveal(in_rel2); assert forall|q: int, p: int| #[trigger] in_rel2(n, q, p) <==> in_rel2(o, q, p) || (p == a && q == b) by { if q == b { let w = o._rel2[q - o._n_Q]; let v = w.push(a); assert(n._rel2[q - o._n_Q] == v); if w.contains(p) { let i = choose|i: int| 0 <= i < w.len() && w[i] == p; assert(v[i] == p); } if p == a { assert(v[w.len() as int] == p); } if v.contains(p) { let i = choose|i: int| 0 <= i < v.len() && v[i] == p; if i < w.len() { assert(w[i] == p); } } } } }
proof fn same_work(o: qsat, n: qsat) requires n._workset == o._workset, ensures forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) == in_work(o, p, x, q) { reveal(in_work); }
proof fn same_rel1(o: qsat, n: qsat) requires n._rel1 == o._rel1, n._n_pda_states == o._n_pda_states, ensures forall|p: int, x: int, q: int| #[trigger] in_rel1(n, p, x, q) == in_rel1(o, p, x, q) { reveal(in_rel1); }
proof fn same_rel2(o: qsat, n: qsat) requires n._rel2 == o._rel2, n._n_Q == o._n_Q, ensures forall|q: int, p: int| #[trigger] in_rel2(n, q, p) == in_rel2(o, q, p) { reveal(in_rel2); }
proof fn up(m: qsat, n: qsat, a: int, y: int, b: int) requires added(m, n, a, y, b), ensures incl(aut(m), aut(n)), edge(aut(n), a, y, b) { }
proof fn ruled_up(m: qsat, n: qsat, p: int, x: int, q: int, k: int) requires n._pda_states == m._pda_states, n._q_prime == m._q_prime, n._automaton._pda == m._automaton._pda, incl(aut(m), aut(n)), ruled(m, p, x, q, k), ensures ruled(n, p, x, q, k)
{ reveal(ruled); assert forall|i: int| #[trigger] rd(n._pda_states, nlo(n), p, i, x) && i < k implies done(n, p, i, x, q) by { assert(rd(m._pda_states, nlo(m), p, i, x)); assert(done(m, p, i, x, q)); let r = rl(m._pda_states, p, i); } }
proof fn treated_up(m: qsat, n: qsat, h: Tri) requires fixed(m, n), incl(aut(m), aut(n)), treated(m, h), forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) && p < np(m) ==> edge(aut(m), p, x, q) || in_work(n, p, x, q), forall|p: int, x: int, q: int| #[trigger] in_work(m, p, x, q) ==> in_work(n, p, x, q), ensures treated(n, h)
{ reveal(treated); assert forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) && p < np(n) && x != EPS() && !in_work(n, p, x, q) && h != (p, x, q) implies ruled(n, p, x, q, nrules(n, p)) by { assert(edge(aut(m), p, x, q)); assert(ruled(m, p, x, q, nrules(m, p))); ruled_up(m, n, p, x, q, nrules(m, p)); } }
proof fn shape_up(m: qsat, n: qsat, a: int, y: int, b: int) requires shape(m), added(m, n, a, y, b), 0 <= a < aut(m).len(), np(m) <= b < aut(m).len(), lab_ok(m, a, y), ensures shape(n)
{ reveal(ranges); }
proof fn ins_inv(m: qsat, n: qsat, a: int, y: int, b: int, h: Tri, e: Tri) requires invh(m, h, e), ins1(m, n, a, y, b), 0 <= a < np(m), np(m) <= b < aut(m).len(), lab_ok(m, a, y), ensures invh(n, h, e), edge(aut(n), a, y, b), added(m, n, a, y, b), incl(aut(m), aut(n)), fixed(m, n), n._rel1 == m._rel1
{ reveal(ins1); up(m, n, a, y, b); shape_up(m, n, a, y, b); treated_up(m, n, h); same_rel1(m, n); same_rel2(m, n);
  assert(lists(n)) by { reveal(lists); }
  assert(ecl(n, h, e)) by { reveal(ecl); reveal(ranges); assert forall|p: int, q: int, x: int, q2: int| #![trigger edge(aut(n), p, EPS(), q), edge(aut(n), q, x, q2)] edge(aut(n), p, EPS(), q) && edge(aut(n), q, x, q2) && !in_work(n, p, EPS(), q) && h != (p, EPS(), q) && e != (q, x, q2) implies edge(aut(n), p, x, q2) by { assert(edge(aut(m), p, EPS(), q)); assert(q >= np(m)); assert(edge(aut(m), q, x, q2)); assert(edge(aut(m), p, x, q2)); } } }
proof fn insr_inv(m: qsat, n: qsat, a: int, y: int, b: int, h: Tri) requires invh(m, h, NONE()), insr(m, n, a, y, b), np(m) <= a < aut(m).len(), np(m) <= b < aut(m).len(), 0 <= y < nlo(m), ensures invh(n, h, (a, y, b)), edge(aut(n), a, y, b), added(m, n, a, y, b), incl(aut(m), aut(n)), fixed(m, n)
{ reveal(insr); up(m, n, a, y, b); shape_up(m, n, a, y, b); same_work(m, n); treated_up(m, n, h); same_rel2(m, n);
  assert(lists(n)) by { reveal(lists); }
  assert(ecl(n, h, (a, y, b))) by { reveal(ecl); reveal(ranges); assert forall|p: int, q: int, x: int, q2: int| #![trigger edge(aut(n), p, EPS(), q), edge(aut(n), q, x, q2)] edge(aut(n), p, EPS(), q) && edge(aut(n), q, x, q2) && !in_work(n, p, EPS(), q) && h != (p, EPS(), q) && (a, y, b) != (q, x, q2) implies edge(aut(n), p, x, q2) by { assert(edge(aut(m), p, EPS(), q)); assert(edge(aut(m), q, x, q2)); assert(edge(aut(m), p, x, q2)); } } }
proof fn rel2_done(o: qsat, h: Tri, e: Tri) requires invh(o, h, e), e.0 >= o._n_Q, forall|p: int| #[trigger] in_rel2(o, e.0, p) ==> edge(aut(o), p, e.1, e.2), ensures invh(o, h, NONE())
{ reveal(ecl); assert forall|p: int, q: int, x: int, q2: int| #![trigger edge(aut(o), p, EPS(), q), edge(aut(o), q, x, q2)] edge(aut(o), p, EPS(), q) && edge(aut(o), q, x, q2) && !in_work(o, p, EPS(), q) && h != (p, EPS(), q) && NONE() != (q, x, q2) implies edge(aut(o), p, x, q2) by { if e == (q, x, q2) { reveal(lists); assert(in_rel2(o, q, p)); } } }
proof fn fin_rule(o: qsat, h: Tri) requires invh(o, h, NONE()), h.1 != EPS(), 0 <= h.0 < np(o), ruled(o, h.0, h.1, h.2, nrules(o, h.0)), ensures inv(o)
{ reveal(treated); reveal(ecl); }
proof fn fin_eps(o: qsat, h: Tri) requires invh(o, h, NONE()), h.1 == EPS(), forall|x: int, q: int| #[trigger] edge(aut(o), h.2, x, q) ==> edge(aut(o), h.0, x, q), ensures inv(o)
{ reveal(treated); assert(ecl(o, NONE(), NONE())) by { reveal(ecl); assert forall|p: int, q: int, x: int, q2: int| #![trigger edge(aut(o), p, EPS(), q), edge(aut(o), q, x, q2)] edge(aut(o), p, EPS(), q) && edge(aut(o), q, x, q2) && !in_work(o, p, EPS(), q) && NONE() != (p, EPS(), q) && NONE() != (q, x, q2) implies edge(aut(o), p, x, q2) by { if h == (p, EPS(), q) { assert(edge(aut(o), h.2, x, q2)); } } } }
// the front edge is taken from the queue
proof fn taken(o: qsat, n: qsat, f: int, y: int, g: int) requires inv(o), o._workset.len() > 0, o._workset[0] == (temp_edge_t { _from: f, _label: y, _to: g }), n == (qsat { _workset: o._workset.drop_first(), _rel2: n._rel2, ..o }), n._rel2.len() == o._rel2.len(), (y == EPS() && g >= o._n_Q) ==> n._rel2 == o._rel2.update(g - o._n_Q, o._rel2[g - o._n_Q].push(f)), !(y == EPS() && g >= o._n_Q) ==> n._rel2 == o._rel2, ensures invh(n, (f, y, g), NONE()), edge(aut(o), f, y, g), 0 <= f < np(o), np(o) <= g < aut(o).len(), lab_ok(o, f, y)
{ let w = o._workset; let v = n._workset; let t0 = temp_edge_t { _from: f, _label: y, _to: g };
  assert(in_work(o, f, y, g)) by { reveal(in_work); } assert(edge(aut(o), f, y, g) && f < np(o)) by { reveal(lists); } assert(0 <= f && np(o) <= g < aut(o).len() && lab_ok(o, f, y)) by { reveal(ranges); }
  assert forall|p: int, x: int, q: int| #[trigger] in_work(o, p, x, q) implies in_work(n, p, x, q) || (f, y, g) == (p, x, q) by { reveal(in_work); let t = temp_edge_t { _from: p, _label: x, _to: q }; let i = choose|i: int| 0 <= i < w.len() && w[i] == t; if i > 0 { assert(v[i - 1] == t); } }
  assert forall|p: int, x: int, q: int| #[trigger] in_work(n, p, x, q) implies in_work(o, p, x, q) by { reveal(in_work); let t = temp_edge_t { _from: p, _label: x, _to: q }; let i = choose|i: int| 0 <= i < v.len() && v[i] == t; assert(w[i + 1] == t); }
  same_rel1(o, n); if y == EPS() && g >= o._n_Q { put_rel2(o, n, f, g); } else { same_rel2(o, n); }
  assert(ranges(n)) by { reveal(ranges); }
  assert(lists(n)) by { reveal(lists); }
  assert(treated(n, (f, y, g))) by { reveal(treated); assert forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) && p < np(n) && x != EPS() && !in_work(n, p, x, q) && (f, y, g) != (p, x, q) implies ruled(n, p, x, q, nrules(n, p)) by { assert(!in_work(o, p, x, q)); assert(edge(aut(o), p, x, q)); assert(p >= 0) by { reveal(ranges); } assert(NONE() != (p, x, q)); assert(ruled(o, p, x, q, nrules(o, p))); ruled_up(o, n, p, x, q, nrules(o, p)); } }
  assert(ecl(n, (f, y, g), NONE())) by { reveal(ecl); } }
// ---- soundness of insertions
proof fn keeps_refl(o: qsat) ensures keeps(o, o) { reveal(keeps); }
proof fn keeps_take(o: qsat, n: qsat) requires n == (qsat { _workset: n._workset, _rel2: n._rel2, ..o }), ensures keeps(o, n) { reveal(keeps); reveal(snd); }
proof fn keeps_trans(o: qsat, m: qsat, n: qsat) requires keeps(o, m), keeps(m, n), ensures keeps(o, n) { reveal(keeps); }
proof fn snd_add(A: Aut, m: qsat, n: qsat, a: int, y: int, b: int) requires snd(A, m), added(m, n, a, y, b), just(m._pda_states, nlo(m), A, m._q_prime, a, y, b), ensures snd(A, n)
{ reveal(snd); assert forall|p: int| #[trigger] acc(aut(n), p) == acc(A, p) by { assert(acc(aut(m), p) == acc(A, p)); assert(acc(aut(m), p) == acc(aut(n), p)); } assert(incl(A, aut(n))) by { assert forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) implies edge(aut(n), p, x, q) by { assert(edge(aut(m), p, x, q)); } } }
pub open spec fn asked(r: rule_t, x: int) -> int { if r._operation == POP() { EPS() } else if r._operation == SWAP() { r._op_label } else { x } }
proof fn k_rule(m: qsat, n: qsat, f: int, i: int, y: int, g: int) requires sized(m), rd(m._pda_states, nlo(m), f, i, y), edge(aut(m), f, y, g), rl(m._pda_states, f, i)._operation != PUSH(), added(m, n, rl(m._pda_states, f, i)._to, asked(rl(m._pda_states, f, i), y), g), ensures keeps(m, n)
{ let s = m._pda_states; let nl = nlo(m); let r = rl(s, f, i); let K = m._q_prime; entries_ok(s, nl, f); let z = s[f]._rules.elems[i]; assert(tgt_ok(s, f, i)); assert(is_rl(s, f, i));
  assert forall|A: Aut| #[trigger] snd(A, m) implies snd(A, n) by { assert(just(s, nl, A, K, f, y, g) && A.len() >= np(m)) by { reveal(snd); } mean_rule(s, nl, A, K, f, i, y, g); assert(after(r, seq![y]) =~= word1(asked(r, y))); assert(just(s, nl, A, K, r._to, asked(r, y), g)) by { reveal(just); } snd_add(A, m, n, r._to, asked(r, y), g); } reveal(keeps); }
proof fn keyed(o: qsat, p: int, i: int) requires sized(o), is_rl(o._pda_states, p, i), rl(o._pda_states, p, i)._operation == PUSH(), ensures o._q_prime.dom().contains(key(o._pda_states, p, i)), o._n_Q <= o._q_prime[key(o._pda_states, p, i)] < aut(o).len(), 0 <= rl(o._pda_states, p, i)._to < np(o), 0 <= rl(o._pda_states, p, i)._op_label < nlo(o)
{ reveal(covers); reveal(keys_ok); let z = o._pda_states[p]._rules.elems[i]; assert(tgt_ok(o._pda_states, p, i)); }
proof fn k_push1(m: qsat, n: qsat, f: int, i: int) requires sized(m), is_rl(m._pda_states, f, i), rl(m._pda_states, f, i)._operation == PUSH(), added(m, n, rl(m._pda_states, f, i)._to, rl(m._pda_states, f, i)._op_label, m._q_prime[key(m._pda_states, f, i)]), ensures keeps(m, n)
{ let s = m._pda_states; let nl = nlo(m); let r = rl(s, f, i); let K = m._q_prime; let k = key(s, f, i); keyed(m, f, i);
  assert forall|A: Aut| #[trigger] snd(A, m) implies snd(A, n) by { assert(A.len() == m._n_Q) by { reveal(snd); } mean_new(s, nl, A, K, k); assert(just(s, nl, A, K, r._to, r._op_label, K[k])) by { reveal(just); } snd_add(A, m, n, r._to, r._op_label, K[k]); } reveal(keeps); }
proof fn k_push2(m: qsat, n: qsat, f: int, i: int, y: int, g: int) requires sized(m), rd(m._pda_states, nlo(m), f, i, y), rl(m._pda_states, f, i)._operation == PUSH(), edge(aut(m), f, y, g), added(m, n, m._q_prime[key(m._pda_states, f, i)], y, g), ensures keeps(m, n)
{ let s = m._pda_states; let nl = nlo(m); let r = rl(s, f, i); let K = m._q_prime; let k = key(s, f, i); assert(is_rl(s, f, i)); keyed(m, f, i);
  assert forall|A: Aut| #[trigger] snd(A, m) implies snd(A, n) by { assert(A.len() == m._n_Q && just(s, nl, A, K, f, y, g)) by { reveal(snd); } mean_rule(s, nl, A, K, f, i, y, g); assert(after(r, seq![y]) =~= two(k.1, y)); assert(just(s, nl, A, K, K[k], y, g)) by { reveal(just); reveal(keys_ok); assert forall|l: (int, int)| #[trigger] is_key(K, l, K[k]) implies mean(s, nl, A, K, l.0, two(l.1, y), g) by { assert(K.dom().contains(l) && K.dom().contains(k)); } } snd_add(A, m, n, K[k], y, g); } reveal(keeps); }
proof fn k_eps(m: qsat, n: qsat, p: int, q: int, x: int, q2: int) requires shape(m), edge(aut(m), p, EPS(), q), edge(aut(m), q, x, q2), added(m, n, p, x, q2), ensures keeps(m, n)
{ let s = m._pda_states; let nl = nlo(m); let K = m._q_prime; assert(0 <= p < np(m) && np(m) <= q < aut(m).len()) by { reveal(ranges); }
  assert forall|A: Aut| #[trigger] snd(A, m) implies snd(A, n) by { assert(np(m) <= A.len() && in_range(A, nl) && just(s, nl, A, K, p, EPS(), q) && just(s, nl, A, K, q, x, q2)) by { reveal(snd); } let e = Seq::<int>::empty(); assert(mean(s, nl, A, K, p, e, q)) by { reveal(just); assert(word1(EPS()) =~= e); } mean_next(s, nl, A, K, p, e, q, x, q2); assert(e + seq![x] =~= word1(x)); assert(just(s, nl, A, K, p, x, q2)) by { reveal(just); } snd_add(A, m, n, p, x, q2); } reveal(keeps); }
// ---- progress within a step
pub open spec fn prog(o: qsat, n: qsat) -> bool { fixed(o, n) && incl(aut(o), aut(n)) && keeps(o, n) && (n._found ==> o._found || told(aut(o), aut(n))) }
proof fn told_cat(A: Aut, o: qsat, m: qsat, n: qsat) requires incl(aut(o), aut(m)), incl(aut(m), aut(n)), m._found ==> o._found || told(aut(o), aut(m)), n._found ==> m._found || told(aut(m), aut(n)), ensures n._found ==> o._found || told(aut(o), aut(n)), incl(aut(o), aut(n))
{ incl_trans(aut(o), aut(m), aut(n)); if n._found { if m._found { if !o._found { assert(incl(aut(o), aut(o))); told_up(aut(o), aut(o), aut(m), aut(n)); } } else { assert(incl(aut(n), aut(n))); told_up(aut(o), aut(m), aut(n), aut(n)); } } }
proof fn prog_refl(o: qsat) ensures prog(o, o) { keeps_refl(o); }
proof fn prog_next(o: qsat, m: qsat, n: qsat, a: int, y: int, b: int) requires prog(o, m), added(m, n, a, y, b), keeps(m, n), ensures prog(o, n), incl(aut(m), aut(n)) { up(m, n, a, y, b); told_cat(aut(o), o, m, n); keeps_trans(o, m, n); }
proof fn ruled_next(o: qsat, p: int, x: int, q: int, k: int) requires ruled(o, p, x, q, k), rd(o._pda_states, nlo(o), p, k, x) ==> done(o, p, k, x, q), ensures ruled(o, p, x, q, k + 1) { reveal(ruled); }
#[verifier::opaque]
pub open spec fn eps_to(o: qsat, l: Seq<int>, y: int, g: int, k: int) -> bool { forall|j: int| #![trigger l[j]] 0 <= j < k && j < l.len() ==> edge(aut(o), l[j], y, g) }
#[verifier::opaque]
pub open spec fn behind_to(o: qsat, l: Seq<(int, int)>, f: int, k: int) -> bool { forall|j: int| #![trigger l[j]] 0 <= j < k && j < l.len() ==> edge(aut(o), f, l[j].1, l[j].0) }
proof fn eps_next(m: qsat, n: qsat, l: Seq<int>, y: int, g: int, k: int) requires 0 <= k < l.len(), eps_to(m, l, y, g, k), added(m, n, l[k], y, g), ensures eps_to(n, l, y, g, k + 1) { up(m, n, l[k], y, g); reveal(eps_to); assert forall|j: int| #![trigger l[j]] 0 <= j < k + 1 && j < l.len() implies edge(aut(n), l[j], y, g) by { if j < k { assert(edge(aut(m), l[j], y, g)); } } }
proof fn behind_next(m: qsat, n: qsat, l: Seq<(int, int)>, f: int, k: int) requires 0 <= k < l.len(), behind_to(m, l, f, k), added(m, n, f, l[k].1, l[k].0), ensures behind_to(n, l, f, k + 1) { up(m, n, f, l[k].1, l[k].0); reveal(behind_to); assert forall|j: int| #![trigger l[j]] 0 <= j < k + 1 && j < l.len() implies edge(aut(n), f, l[j].1, l[j].0) by { if j < k { assert(edge(aut(m), f, l[j].1, l[j].0)); } } }
proof fn eps_all(o: qsat, q: int, y: int, g: int) requires sized(o), o._n_Q <= q < aut(o).len(), eps_to(o, o._rel2[q - o._n_Q], y, g, o._rel2[q - o._n_Q].len() as int), ensures forall|p: int| #[trigger] in_rel2(o, q, p) ==> edge(aut(o), p, y, g)
{ reveal(eps_to); reveal(in_rel2); let l = o._rel2[q - o._n_Q]; assert forall|p: int| #[trigger] in_rel2(o, q, p) implies edge(aut(o), p, y, g) by { let j = choose|j: int| 0 <= j < l.len() && l[j] == p; assert(edge(aut(o), l[j], y, g)); } }
proof fn behind_all(o: qsat, f: int, q: int) requires shape(o), lists(o), np(o) <= q < aut(o).len(), behind_to(o, o._rel1[q - np(o)], f, o._rel1[q - np(o)].len() as int), ensures forall|x: int, q2: int| #[trigger] edge(aut(o), q, x, q2) ==> edge(aut(o), f, x, q2)
{ let l = o._rel1[q - np(o)]; assert forall|x: int, q2: int| #[trigger] edge(aut(o), q, x, q2) implies edge(aut(o), f, x, q2) by { assert(in_rel1(o, q, x, q2)) by { reveal(lists); } reveal(in_rel1); reveal(behind_to); let j = choose|j: int| 0 <= j < l.len() && l[j] == (q2, x); assert(edge(aut(o), f, l[j].1, l[j].0)); } }
// ---- the start
proof fn ext_refl(A: Aut) ensures ext(A, A) { reveal(ext); }
proof fn covers0(s: Sys, K: Keys) ensures covers(s, K, 0, 0) { reveal(covers); }
proof fn covers_row(s: Sys, K: Keys, j: int) requires 0 <= j < s.len(), covers(s, K, j, s[j]._rules.elems.len() as int), ensures covers(s, K, j + 1, 0) { reveal(covers); }
proof fn no_keys(a: int, b: int) ensures keys_ok(Map::<(int, int), int>::empty(), a, b) { reveal(keys_ok); }
proof fn make_one(o: qsat, m: qsat, n: qsat, j: int, i: int) requires made(o, m, j, i), is_rl(o._pda_states, j, i), o._n_Q <= aut(m).len(), n == (qsat { _automaton: n._automaton, _q_prime: n._q_prime, ..m }), n._automaton._pda == m._automaton._pda,
    ({ let k = key(o._pda_states, j, i); let push = rl(o._pda_states, j, i)._operation == PUSH(); if push && !m._q_prime.dom().contains(k) { n._q_prime == m._q_prime.insert(k, aut(m).len() as int) && aut(n).len() == aut(m).len() + 1 && aut(n) == aut(m).push(aut(n)[aut(m).len() as int]) && blank(aut(n)[aut(m).len() as int], aut(m).len() as int) } else { n._q_prime == m._q_prime && n._automaton == m._automaton } }),
    ensures made(o, n, j, i + 1)
{ reveal(covers); reveal(keys_ok); reveal(ext); let k = key(o._pda_states, j, i); let K = n._q_prime; let s = o._pda_states;
  if aut(n).len() > aut(m).len() { assert forall|p: int| #![trigger aut(n)[p]] 0 <= p < aut(m).len() implies aut(n)[p] == aut(m)[p] by { } }
  assert forall|a: int, b: int| #[trigger] is_rl(s, a, b) && rl(s, a, b)._operation == PUSH() && (a < j || (a == j && b < i + 1)) implies K.dom().contains(key(s, a, b)) by { if !(a == j && b == i) { assert(m._q_prime.dom().contains(key(s, a, b))); } }
  assert forall|a: (int, int), b: (int, int)| #![trigger K.dom().contains(a), K.dom().contains(b)] K.dom().contains(a) && K.dom().contains(b) && K[a] == K[b] implies a == b by { if a != k { assert(m._q_prime.dom().contains(a)); } if b != k { assert(m._q_prime.dom().contains(b)); } }
  assert forall|a: (int, int)| #[trigger] K.dom().contains(a) implies o._n_Q <= K[a] < aut(n).len() by { if a != k { assert(m._q_prime.dom().contains(a)); } } }
proof fn ext_edges(A: Aut, B: Aut) requires ext(A, B), a_ok(A), ensures a_ok(B), acc_ext(A, B), forall|p: int, x: int, q: int| #[trigger] edge(B, p, x, q) <==> edge(A, p, x, q)
{ reveal(ext); assert forall|p: int| #![trigger B[p]] 0 <= p < B.len() implies B[p]._id == p && e_ok(B[p]._edges) by { if p < A.len() { let z = A[p]; } }
  assert forall|p: int| #[trigger] acc(B, p) == acc(A, p) by { if 0 <= p < B.len() { let z = B[p]; } }
  assert forall|p: int, x: int, q: int| #[trigger] edge(B, p, x, q) <==> edge(A, p, x, q) by { reveal(edge); if 0 <= p < B.len() { let z = B[p]; } } }
proof fn built(o: qsat, n: qsat) requires start(o), made(o, m_of(n, o), np(o), 0), n == (qsat { _automaton: n._automaton, _q_prime: n._q_prime, _n_automaton_states: aut(n).len() as int, _rel1: std_resize(o._rel1, aut(n).len() - np(o), Seq::<(int, int)>::empty()), _rel2: std_resize(o._rel2, aut(n).len() - o._n_Q, Seq::<int>::empty()), ..o }), ensures shape(n), only(n), loaded(n, 0), snd(aut(o), n), incl(aut(o), aut(n)), aut(n).len() >= aut(o).len()
{ let A = aut(o); let s = o._pda_states; let nl = nlo(o); ext_edges(A, aut(n)); assert(aut(n).len() >= A.len()); assert(n._rel1.len() == aut(n).len() - np(o)); assert(n._rel2.len() == aut(n).len() - o._n_Q);
  assert(ranges(n)) by { reveal(ranges); assert forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) implies 0 <= p < aut(n).len() && np(n) <= q < aut(n).len() && lab_ok(n, p, x) by { assert(edge(A, p, x, q)); } }
  assert(only(n)) by { reveal(only); reveal(in_work); reveal(in_rel1); reveal(in_rel2); } assert(loaded(n, 0)) by { reveal(loaded); reveal(edge); }
  assert(incl(A, aut(n)));
  assert(snd(A, n)) by { reveal(snd); assert forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) implies just(s, nl, A, n._q_prime, p, x, q) by { assert(edge(A, p, x, q)); reveal(just); if p < s.len() { path_one(A, p, x, q); lead_refl(s, nl, p, seq![x]); assert(org(s, nl, A, p, seq![x], p, seq![x], q)); reveal(mean); } } } }
pub open spec fn m_of(n: qsat, o: qsat) -> qsat { qsat { _automaton: n._automaton, _q_prime: n._q_prime, ..o } }
proof fn load_one(o: qsat, m: qsat, n: qsat, p: int, l: Seq<(int, lmap)>, k2: int, k3: int) requires shape(o), filling(o, m), loaded(m, p), load_to(m, p, l, k2), 0 <= k2 < l.len(), 0 <= k3 < l[k2].1.elems.len(), load_lab(m, p, l[k2].0, l[k2].1.elems, k3), 0 <= p < aut(m).len(), aut(m)[p]._edges.elems.dom().contains(l[k2].0), aut(m)[p]._edges.elems[l[k2].0] == l[k2].1,
    p < np(o) ==> n == (qsat { _workset: m._workset.push(temp_edge_t { _from: p, _label: l[k2].1.elems[k3].first, _to: l[k2].0 }), ..m }), p >= np(o) ==> n == (qsat { _rel1: m._rel1.update(p - np(o), m._rel1[p - np(o)].push((l[k2].0, l[k2].1.elems[k3].first))), ..m }),
    ensures filling(o, n), loaded(n, p), load_to(n, p, l, k2), load_lab(n, p, l[k2].0, l[k2].1.elems, k3 + 1)
{ let x = l[k2].1.elems[k3].first; let q = l[k2].0; let w = m._workset; let v = n._workset; let t = temp_edge_t { _from: p, _label: x, _to: q }; assert(edge(aut(m), p, x, q)) by { reveal(edge); let e = aut(m)[p]._edges.elems[q].elems; assert(e[k3].first == x); }
  same_rel2(m, n);
  if p < np(o) { same_rel1(m, n); assert forall|a: int, y: int, b: int| #[trigger] in_work(n, a, y, b) <==> in_work(m, a, y, b) || (a == p && y == x && b == q) by { reveal(in_work); let u = temp_edge_t { _from: a, _label: y, _to: b }; if w.contains(u) { let i = choose|i: int| 0 <= i < w.len() && w[i] == u; assert(v[i] == u); } if u == t { assert(v[w.len() as int] == u); } if v.contains(u) { let i = choose|i: int| 0 <= i < v.len() && v[i] == u; if i < w.len() { assert(w[i] == u); } } } }
  else { same_work(m, n); put_rel(m, n, p, x, q); }
  assert(only(n)) by { reveal(only); }
  reveal(loaded); reveal(load_to); reveal(load_lab); }
proof fn load_next(n: qsat, p: int, l: Seq<(int, lmap)>, k: int) requires 0 <= k < l.len(), load_to(n, p, l, k), load_lab(n, p, l[k].0, l[k].1.elems, l[k].1.elems.len() as int), ensures load_to(n, p, l, k + 1)
{ reveal(load_to); reveal(load_lab); assert forall|j: int, i: int| #![trigger l[j].1.elems[i]] 0 <= j < k + 1 && j < l.len() && 0 <= i < l[j].1.elems.len() implies put(n, p, l[j].1.elems[i].first, l[j].0) by { if j == k { let z = l[k].1.elems[i]; } } }
proof fn load_state(n: qsat, p: int, l: Seq<(int, lmap)>) requires 0 <= p < aut(n).len(), loaded(n, p), load_to(n, p, l, l.len() as int), forall|q: int| #[trigger] aut(n)[p]._edges.elems.dom().contains(q) ==> l.contains((q, aut(n)[p]._edges.elems[q])), ensures loaded(n, p + 1)
{ reveal(loaded); assert forall|a: int, x: int, q: int| #[trigger] edge(aut(n), a, x, q) && a < p + 1 implies put(n, a, x, q) by { if a == p { reveal(edge); reveal(load_to); let e = aut(n)[p]._edges.elems; let j = choose|j: int| 0 <= j < l.len() && l[j] == (q, e[q]); let u = l[j].1.elems; let i = choose|i: int| #![trigger u[i]] 0 <= i < u.len() && u[i].first == x; assert(l[j].1.elems[i].first == x); } } }
proof fn all_in(A: Aut, o: qsat, n: qsat) requires shape(o), filling(o, n), loaded(n, aut(n).len() as int), snd(A, o), forall|p: int, x: int, q: int| #[trigger] edge(aut(o), p, x, q) ==> x != EPS(), ensures inv(n), snd(A, n)
{ assert(shape(n)) by { reveal(ranges); } assert(lists(n)) by { reveal(lists); reveal(only); reveal(loaded); reveal(ranges); } assert(treated(n, NONE())) by { reveal(treated); reveal(loaded); reveal(ranges); assert forall|p: int, x: int, q: int| #[trigger] edge(aut(n), p, x, q) && p < np(n) && !in_work(n, p, x, q) implies false by { } } assert(ecl(n, NONE(), NONE())) by { reveal(ecl); } assert(snd(A, n)) by { reveal(snd); } }
proof fn plain_edges(A: Aut, o: qsat) requires snd(A, o), nlo(o) < EPS(), forall|p: int, x: int, q: int| #[trigger] edge(aut(o), p, x, q) ==> edge(A, p, x, q), ensures forall|p: int, x: int, q: int| #[trigger] edge(aut(o), p, x, q) ==> x != EPS()
{ reveal(snd); assert forall|p: int, x: int, q: int| #[trigger] edge(aut(o), p, x, q) implies x != EPS() by { assert(edge(A, p, x, q)); } }
'''
V = B.V
PS = r'pdaaal::internal::PostStarSaturation<%s, %s>::'
R = 'rl(this0._pda_states, f_, rule_id)'


def contracts(et):
    S = PS % (V, '-1' if et else '0')
    return [c for c in B.CONTRACTS if c['name'] != 'rules_lb'] + [
        dict(name='next_id', fn=B.AU + 'next_state_id', ensures='result == this0._states.len()'),
        dict(name='add_state', fn=B.AU + 'add_state', params=['initial', 'accepting'], ensures='result == this0._states.len() ;; this1._pda == this0._pda ;; this1._states.len() == this0._states.len() + 1 ;; this1._states == this0._states.push(this1._states[this0._states.len() as int]) ;; this1._states[this0._states.len() as int]._id == this0._states.len() ;; this1._states[this0._states.len() as int]._accepting == accepting0 ;; this1._states[this0._states.len() as int]._edges.elems == Map::<int, lmap>::empty()',
             hints={'return': 'let n = this0._states.len() as int; let z = this_._states[n]; assert(this_._states =~= this0._states.push(z));'}),
        dict(name='insert_rel', fn=S + 'insert_rel', params=['from', 'label', 'to'], requires='from0 >= this0._n_pda_states ==> from0 - this0._n_pda_states < this0._rel1.len() ;; label0 == EPS() && to0 >= this0._n_Q ==> to0 - this0._n_Q < this0._rel2.len()',
             ensures='this1 == (qsat { _rel1: if from0 >= this0._n_pda_states { this0._rel1.update(from0 - this0._n_pda_states, this0._rel1[from0 - this0._n_pda_states].push((to0, label0))) } else { this0._rel1 }, _rel2: if label0 == EPS() && to0 >= this0._n_Q { this0._rel2.update(to0 - this0._n_Q, this0._rel2[to0 - this0._n_Q].push(from0)) } else { this0._rel2 }, ..this0 })'),
        dict(name='insert_edge', fn=S + 'insert_edge', params=['from', 'label', 'to', 'trace'], requires='a_ok(aut(this0)) ;; 0 <= from0 < aut(this0).len()', ensures='ins1(this0, this1, from0, label0, to0)', hints={'return': 'put_work(this0, this_, from0, label0, to0);'}),
        dict(name='insert_edge_rel', fn=S + 'insert_edge_rel', params=['from', 'label', 'to', 'trace'], requires='a_ok(aut(this0)) ;; 0 <= from0 < aut(this0).len() ;; from0 >= this0._n_pda_states ;; from0 - this0._n_pda_states < this0._rel1.len() ;; label0 != EPS()', ensures='insr(this0, this1, from0, label0, to0)',
             hints={'return': 'reveal(insr); if edge(aut(this0), from0, label0, to0) { same_rel1(this0, this_); } else { put_rel(this0, this_, from0, label0, to0); } if this_._found && !this0._found { assert(told_at(aut(this0), aut(this_), from0, label0, to0)); }'}),
        dict(name='initialize', fn=S + 'initialize', requires='start(this0)', ensures='inv(this1) ;; snd(aut(this0), this1) ;; this1._pda_states == this0._pda_states ;; this1._automaton._pda == this0._automaton._pda ;; !this1._found',
             loops={1: 'made(this0, this_, k1, 0) && aut(this_).len() >= this0._n_Q', 2: 'made(this0, this_, k1, k2) && aut(this_).len() >= this0._n_Q && rng2_s == this0._pda_states[k1]._rules.elems',
                    3: 'shape(o_) && filling(o_, this_) && loaded(this_, k3)', 4: 'shape(o_) && filling(o_, this_) && loaded(this_, k3) && load_to(this_, k3, rng4_s, k4)',
                    5: 'shape(o_) && filling(o_, this_) && loaded(this_, k3) && load_to(this_, k3, rng4_s, k4) && load_lab(this_, k3, rng4_s[k4].0, rng4_s[k4].1.elems, k5)'},
             hints={'before loop 1': 'ext_refl(aut(this0)); covers0(this0._pda_states, this0._q_prime); no_keys(this0._n_Q, aut(this0).len() as int);',
                    'loop 2 begin': 'raw:let ghost m_ = this_;', 'loop 2 end': 'assert(is_rl(this0._pda_states, k1, k2)); make_one(this0, m_, this_, k1, k2);', 'after loop 2': 'covers_row(this0._pda_states, this_._q_prime, k1);',
                    'before loop 3': 'raw:let ghost o_ = this_; proof { built(this0, this_); ext_edges(aut(this0), aut(this_)); plain_edges(aut(this0), this_); }',
                    'loop 3 begin': 'let z = aut(this_)[k3];', 'before loop 4': 'reveal(load_to);', 'loop 4 begin': 'assert(aut(this_)[k3]._edges.elems.dom().contains(rng4_s[k4].0)); assert(linc(rng4_s[k4].1.elems)); assert forall|i: int| #![trigger rng4_s[k4].1.elems[i]] 0 <= i < rng4_s[k4].1.elems.len() implies rng4_s[k4].1.elems[i].first != EPS() && rng4_s[k4].1.elems[i].first >= 0 by { let e = aut(this_)[k3]._edges.elems[rng4_s[k4].0].elems; assert(e[i].first == rng4_s[k4].1.elems[i].first); assert(edge(aut(o_), k3, e[i].first, rng4_s[k4].0)) by { reveal(edge); } reveal(ranges); }',
                    'before loop 5': 'reveal(load_lab);', 'loop 5 begin': 'raw:let ghost m_ = this_; proof { let z = rng4_s[k4].1.elems[k5]; }', 'loop 5 end': 'load_one(o_, m_, this_, k3, rng4_s, k4, k5);', 'after loop 5': 'load_next(this_, k3, rng4_s, k4);', 'after loop 4': 'load_state(this_, k3, rng4_s);',
                    'end': 'all_in(aut(this0), o_, this_);'}),
        dict(name='step', fn=S + 'step', requires='inv(this0) ;; this0._workset.len() > 0', ensures='inv(this1) ;; stepped(this0, this1)',
             loops={1: '0 <= rule_id <= nrules(this0, f_) && invh(this_, h_, NONE()) && prog(o_, this_) && edge(aut(this_), f_, y_, g_) && ruled(this_, f_, y_, g_, rule_id)',
                    2: 'invh(this_, h_, (qn_, y_, g_)) && prog(o_, this_) && edge(aut(this_), f_, y_, g_) && ruled(this_, f_, y_, g_, i_) && edge(aut(this_), %s._to, %s._op_label, qn_) && edge(aut(this_), qn_, y_, g_) && eps_to(this_, rng2_s, y_, g_, k2)' % (R, R),
                    3: 'invh(this_, h_, NONE()) && prog(o_, this_) && this_._rel1 == o_._rel1 && edge(aut(this_), f_, y_, g_) && behind_to(this_, rng3_s, f_, k3)'},
             hints={'begin': 'raw:let ghost f_ = this0._workset[0]._from; let ghost y_ = this0._workset[0]._label; let ghost g_ = this0._workset[0]._to; let ghost h_ = (f_, y_, g_); proof { assert(in_work(this0, f_, y_, g_)) by { reveal(in_work); } assert(edge(aut(this0), f_, y_, g_) && f_ < np(this0)) by { reveal(lists); } assert(0 <= f_ && np(this0) <= g_ < aut(this0).len() && lab_ok(this0, f_, y_)) by { reveal(ranges); } }',
                    'after insert_rel 1': 'raw:let ghost o_ = this_; proof { taken(this0, this_, f_, y_, g_); prog_refl(this_); entries_ok(this0._pda_states, nlo(this0), f_); keeps_take(this0, this_); }',
                    'before loop 1': 'reveal(ruled);',
                    'loop 1 begin': 'raw:let ghost m_ = this_; let ghost i_ = rule_id; proof { assert(is_rl(this0._pda_states, f_, i_)); let z = this0._pda_states[f_]._rules.elems[i_]; assert(tgt_ok(this0._pda_states, f_, i_)); if %s._operation == PUSH() { keyed(m_, f_, i_); } }' % R,
                    'before insert_edge_rel 1': 'raw:let ghost m1_ = this_; let ghost qn_ = m_._q_prime[key(this0._pda_states, f_, i_)]; proof { assert(rd(this0._pda_states, nlo(this0), f_, i_, y_)); assert(ins1(m_, m1_, %s._to, %s._op_label, qn_)); ins_inv(m_, m1_, %s._to, %s._op_label, qn_, h_, NONE()); k_push1(m_, m1_, f_, i_); prog_next(o_, m_, m1_, %s._to, %s._op_label, qn_); ruled_up(m_, m1_, f_, y_, g_, i_); }' % ((R,) * 6),
                    'after insert_edge_rel 1': 'insr_inv(m1_, this_, qn_, y_, g_, h_); k_push2(m1_, this_, f_, i_, y_, g_); prog_next(o_, m1_, this_, qn_, y_, g_); ruled_up(m1_, this_, f_, y_, g_, i_); assert(eps_to(this_, this_._rel2[qn_ - this_._n_Q], y_, g_, 0)) by { reveal(eps_to); }',
                    'loop 2 begin': 'raw:let ghost m2_ = this_; let ghost e_ = rng2_s[k2]; proof { assert(in_rel2(this_, qn_, e_)) by { reveal(in_rel2); } assert(edge(aut(this_), e_, EPS(), qn_)) by { reveal(lists); } assert(0 <= e_ < np(this_)) by { reveal(ranges); } }',
                    'loop 2 end': 'ins_inv(m2_, this_, e_, y_, g_, h_, (qn_, y_, g_)); k_eps(m2_, this_, e_, qn_, y_, g_); prog_next(o_, m2_, this_, e_, y_, g_); eps_next(m2_, this_, rng2_s, y_, g_, k2); ruled_up(m2_, this_, f_, y_, g_, i_);',
                    'loop 1 end': 'if rd(this0._pda_states, nlo(this0), f_, i_, y_) { let r = %s; if r._operation == PUSH() { let qn = m_._q_prime[key(this0._pda_states, f_, i_)]; eps_all(this_, qn, y_, g_); rel2_done(this_, h_, (qn, y_, g_)); } else { let a = asked(r, y_); assert(ins1(m_, this_, r._to, a, g_)); ins_inv(m_, this_, r._to, a, g_, h_, NONE()); k_rule(m_, this_, f_, i_, y_, g_); prog_next(o_, m_, this_, r._to, a, g_); ruled_up(m_, this_, f_, y_, g_, i_); } } ruled_next(this_, f_, y_, g_, i_);' % R.replace('rule_id', 'i_'),
                    'before loop 3': 'reveal(behind_to);',
                    'loop 3 begin': 'raw:let ghost m3_ = this_; let ghost x_ = rng3_s[k3].1; let ghost q_ = rng3_s[k3].0; proof { assert(in_rel1(this_, g_, x_, q_)) by { reveal(in_rel1); } assert(edge(aut(this_), g_, x_, q_)) by { reveal(lists); } assert(np(this_) <= q_ < aut(this_).len() && lab_ok(this_, f_, x_)) by { reveal(ranges); } }',
                    'loop 3 end': 'ins_inv(m3_, this_, f_, x_, q_, h_, NONE()); k_eps(m3_, this_, f_, g_, x_, q_); prog_next(o_, m3_, this_, f_, x_, q_); behind_next(m3_, this_, rng3_s, f_, k3);',
                    'after loop 3': 'behind_all(this_, f_, g_); fin_eps(this_, h_);',
                    'after loop 1': 'fin_rule(this_, h_);',
                    'end': 'keeps_trans(this0, o_, this_);'}),
        dict(name='run', fn=S + 'run', requires='inv(this0)', ensures='stepped(this0, this1) ;; inv(this1) ;; result == this1._found ;; %sthis1._workset.len() == 0 ;; forall|A: Aut| #[trigger] snd(A, this0) %s==> exact_post(this0._pda_states, nlo(this0), A, aut(this1))' % (('!result ==> ', '&& !result ') if et else ('', '')),
             loops={1: 'inv(this_) && stepped(this0, this_)'}, hints={'before loop 1': 'keeps_refl(this0);', 'after loop 1': 'assert forall|A: Aut| #[trigger] snd(A, this0) implies exact_post(this0._pda_states, nlo(this0), A, aut(this_)) by { reveal(keeps); exactly(A, this_); }', 'loop 1 begin': 'raw:let ghost m_ = this_;', 'loop 1 end': 'told_cat(aut(this0), this0, m_, this_); keeps_trans(this0, m_, this_);'}),
        dict(name='make', fn=S + 'PostStarSaturation', nparams=2, params=['automaton', 'early_termination'], requires='input_ok(automaton0)', ensures='inv(this1) ;; snd(automaton0._states, this1) ;; this1._pda_states == automaton0._pda._states ;; this1._automaton == automaton1 ;; automaton1._pda == automaton0._pda ;; !this1._found'),
    ] + ([] if et else [dict(name='post_star', fn=r'pdaaal::Solver::post_star', params=['automaton'], requires='input_ok(automaton0)', ensures='automaton1._pda == automaton0._pda ;; incl(automaton0._states, automaton1._states) ;; exact_post(automaton0._pda._states, nlabels(automaton0._pda), automaton0._states, automaton1._states)',
        hints={'return': 'assert(snd(automaton0._states, saturation)) by { reveal(keeps); } reveal(snd);'})])


def make(et):
    def unit(ast):
        c = B.config(); c['rec_names'][r'.*PostStarSaturation<.*>'] = 'qsat'
        return Unit('poststar_' + 'ne'[et], 'sat.cpp', contracts(et), c, SPEC, LEMMAS, ast)
    return unit
