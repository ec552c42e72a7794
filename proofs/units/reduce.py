"""D01: reduction of a pushdown system (forward, backward and top-of-stack pruning), unweighted or over an arbitrary weight type."""
from unit import Unit, same_object
import proofs.units.pda as P
import proofs.units.labels as L
import proofs.units.paut as PA


def spec(w):
    return '\n'.join(l for l in P.spec(w).split('\n') if 'hstate' not in l and 'urule_t' not in l) + SPEC


SPEC = r"""
pub uninterp spec fn NL() -> int;
pub open spec fn PUSH() -> int { 1 }
pub open spec fn POP() -> int { 2 }
pub open spec fn SWAP() -> int { 4 }
pub open spec fn NOOP() -> int { 8 }
pub open spec fn nl_ok() -> bool { 0 < NL() < 0xffff_ffff }
// ---- the system under reduction
pub open spec fn lab_in(l: labels_t, nl: int) -> bool { l._wildcard || within(l._labels, nl) }
pub open spec fn ent_ok(e: relem) -> bool { let o = e.first._operation; lab_in(e.second, NL()) && (o == PUSH() || o == POP() || o == SWAP() || o == NOOP()) && 0 <= e.first._op_label && ((o == PUSH() || o == SWAP()) ==> e.first._op_label < NL()) }
pub open spec fn ents(s: Seq<vstate>) -> bool { forall|p: int, i: int| #![trigger s[p]._rules.elems[i]] 0 <= p < s.len() && 0 <= i < s[p]._rules.elems.len() ==> ent_ok(s[p]._rules.elems[i]) }
pub open spec fn rsys(s: Seq<vstate>) -> bool { pda_wf(s) && fits(s) && ents(s) }
pub open spec fn reads(s: Seq<vstate>, p: int, r: rule_t, x: int) -> bool { has_label(s, p, r, x) && 0 <= x < NL() }
pub open spec fn only_push(s: Seq<vstate>, p: int) -> bool { forall|r: rule_t| #[trigger] has_rule(s, p, r) ==> r._operation == PUSH() }
// no rule and no label is new
#[verifier::opaque]
pub open spec fn sub(o: Seq<vstate>, s: Seq<vstate>) -> bool { s.len() == o.len() && (forall|p: int, r: rule_t| #[trigger] has_rule(s, p, r) ==> has_rule(o, p, r)) && (forall|p: int, r: rule_t, x: int| #[trigger] has_label(s, p, r, x) ==> has_label(o, p, r, x)) }
// ---- runs: the stack above the start bottom b; with nothing above it only the start state moves
pub struct Conf { pub p: int, pub w: Seq<int> }
pub open spec fn top(x: int, w: Seq<int>) -> Seq<int> { seq![x] + w }
pub open spec fn after(r: rule_t, w: Seq<int>) -> Seq<int> { if r._operation == POP() { w.drop_first() } else if r._operation == SWAP() { top(r._op_label, w.drop_first()) } else if r._operation == NOOP() { w } else { top(r._op_label, w) } }
pub open spec fn rd(c: Conf, b: int) -> int { if c.w.len() == 0 { b } else { c.w[0] } }
pub open spec fn step(s: Seq<vstate>, init: int, b: int, c: Conf, r: rule_t, d: Conf) -> bool { has_label(s, c.p, r, rd(c, b)) && d.p == r._to && (if c.w.len() == 0 { c.p == init && r._operation == PUSH() && d.w == seq![r._op_label] } else { 0 <= c.w[0] < NL() && d.w == after(r, c.w) }) }
pub open spec fn at(s: Seq<vstate>, init: int, b: int, term: int, c: Seq<Conf>, r: Seq<rule_t>, i: int) -> bool { c[i].p != term && step(s, init, b, c[i], r[i], c[i + 1]) }
// a run from the start configuration that reaches the target for the first time at its end
pub open spec fn run(s: Seq<vstate>, init: int, b: int, term: int, c: Seq<Conf>, r: Seq<rule_t>) -> bool { c.len() == r.len() + 1 && c[0].p == init && c[0].w.len() == 0 && c[r.len() as int].p == term && (forall|i: int| 0 <= i < r.len() ==> #[trigger] at(s, init, b, term, c, r, i)) }
pub open spec fn uses(c: Seq<Conf>, r: Seq<rule_t>, b: int, i: int, p: int, q: rule_t, x: int) -> bool { 0 <= i < r.len() && c[i].p == p && r[i] == q && rd(c[i], b) == x }
pub open spec fn used(s: Seq<vstate>, init: int, b: int, term: int, p: int, q: rule_t, x: int) -> bool { exists|c: Seq<Conf>, r: Seq<rule_t>, i: int| run(s, init, b, term, c, r) && #[trigger] uses(c, r, b, i, p, q, x) }
// every rule application of such a run is still there
#[verifier::opaque]
pub open spec fn keeps(s: Seq<vstate>, t: Seq<vstate>, init: int, b: int, term: int) -> bool { forall|p: int, q: rule_t, x: int| #[trigger] used(s, init, b, term, p, q, x) ==> has_label(t, p, q, x) }
// ---- states that can be reached, that can reach the target
pub open spec fn okf(s: Seq<vstate>, seen: Seq<bool>, p: int, k: int) -> bool { forall|i: int| #![trigger s[p]._rules.elems[i]] 0 <= i < k && i < s[p]._rules.elems.len() && nonempty(s[p]._rules.elems[i].second) ==> seen[s[p]._rules.elems[i].first._to] }
pub open spec fn okb(s: Seq<vstate>, seen: Seq<bool>, p: int, k: int) -> bool { forall|i: int| #![trigger s[p]._pre_states.elems[i]] 0 <= i < k && i < s[p]._pre_states.elems.len() ==> seen[s[p]._pre_states.elems[i]] }
pub open spec fn seen_q(seen: Seq<bool>, q: Seq<int>, n: int) -> bool { seen.len() == n && forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> 0 <= q[i] < n && seen[q[i]] }
#[verifier::opaque]
pub open spec fn restf(s: Seq<vstate>, seen: Seq<bool>, q: Seq<int>, el: int) -> bool { forall|p: int| #![trigger seen[p]] 0 <= p < s.len() && seen[p] && p != el && !q.contains(p) ==> okf(s, seen, p, s[p]._rules.elems.len() as int) }
#[verifier::opaque]
pub open spec fn restb(s: Seq<vstate>, seen: Seq<bool>, q: Seq<int>, el: int) -> bool { forall|p: int| #![trigger seen[p]] 0 <= p < s.len() && seen[p] && p != el && !q.contains(p) ==> okb(s, seen, p, s[p]._pre_states.elems.len() as int) }
pub open spec fn stays(seen: Seq<bool>, n: int, p: int) -> bool { p >= n || seen[p] }
#[verifier::opaque]
pub open spec fn pruned(o: Seq<vstate>, c: Seq<vstate>, seen: Seq<bool>, n: int) -> bool { c.len() == o.len() && (forall|p: int, r: rule_t| #[trigger] has_rule(c, p, r) ==> has_rule(o, p, r)) && (forall|p: int, r: rule_t, x: int| #[trigger] has_label(c, p, r, x) <==> has_label(o, p, r, x) && stays(seen, n, p) && stays(seen, n, r._to)) }
// ---- labels that lead to a top of stack without any rule
pub open spec fn cut(r: rule_t, x: int, s: int, u: Seq<int>) -> bool { r._to == s && (((r._operation == PUSH() || r._operation == SWAP()) && !u.contains(r._op_label)) || (r._operation == NOOP() && !u.contains(x))) }
#[verifier::opaque]
pub open spec fn shr(a: relem, b: relem, s: int, u: Seq<int>) -> bool { b.first == a.first && lab_wf(b.second) && lab_in(b.second, NL()) && (forall|x: int| #[trigger] den(b.second, x) ==> den(a.second, x)) && (forall|x: int| #[trigger] den(a.second, x) && !den(b.second, x) ==> cut(a.first, x, s, u)) }
#[verifier::opaque]
pub open spec fn trimmed(o: Seq<vstate>, c: Seq<vstate>, s: int, u: Seq<int>) -> bool { c.len() == o.len() && (forall|p: int| #![trigger c[p]] 0 <= p < c.len() ==> c[p]._pre_states == o[p]._pre_states && c[p]._rules.elems.len() == o[p]._rules.elems.len()) && (forall|p: int, i: int| #![trigger c[p]._rules.elems[i]] 0 <= p < c.len() && 0 <= i < c[p]._rules.elems.len() ==> shr(o[p]._rules.elems[i], c[p]._rules.elems[i], s, u)) }
#[verifier::opaque]
pub open spec fn covers(s: Seq<vstate>, p: int, u: Seq<int>, k: int) -> bool { forall|i: int, x: int| #![trigger den(s[p]._rules.elems[i].second, x)] 0 <= i < k && i < s[p]._rules.elems.len() && den(s[p]._rules.elems[i].second, x) ==> u.contains(x) }
pub open spec fn inq(q: Seq<int>, n: int) -> bool { forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> 0 <= q[i] < n }
#[verifier::opaque]
pub open spec fn keep_all(o: Seq<vstate>, c: Seq<vstate>, term: int) -> bool { forall|init: int, b: int| #[trigger] keeps(o, c, init, b, term) }
#[verifier::opaque]
pub open spec fn keepi(o: Seq<vstate>, c: Seq<vstate>, init: int, term: int) -> bool { forall|b: int| #[trigger] keeps(o, c, init, b, term) }
#[verifier::opaque]
pub open spec fn same_runs(o: Seq<vstate>, c: Seq<vstate>, init: int, term: int) -> bool { forall|b: int, cc: Seq<Conf>, r: Seq<rule_t>| #[trigger] run(o, init, b, term, cc, r) <==> run(c, init, b, term, cc, r) }
// ---- sorted label lists
#[verifier::opaque]
pub open spec fn sup(a: Seq<int>, b: Seq<int>) -> bool { forall|x: int| #[trigger] b.contains(x) ==> a.contains(x) }
#[verifier::opaque]
pub open spec fn full(a: Seq<int>) -> bool { forall|x: int| 0 <= x < NL() ==> #[trigger] a.contains(x) }
pub open spec fn sl(a: Seq<int>) -> bool { inc(a) && within(a, NL()) }
// ---- approximation of the stacks of one state
pub open spec fn tk(t: tos_t) -> bool { sl(t._tos) && sl(t._stack) && (t._in_waiting == 0 || t._in_waiting == 8 || t._in_waiting == 16 || t._in_waiting == 24) }
pub open spec fn only_tos(a: tos_t, b: tos_t) -> bool { b == (tos_t { _tos: b._tos, ..a }) }
pub open spec fn only_stack(a: tos_t, b: tos_t) -> bool { b == (tos_t { _stack: b._stack, ..a }) }
pub open spec fn only_in_waiting(a: tos_t, b: tos_t) -> bool { b == (tos_t { _in_waiting: b._in_waiting, ..a }) }
pub open spec fn both(a: tos_t, l: labels_t, x: int) -> bool { den(l, x) && a._tos.contains(x) }
// some top of stack of the approximation is read
#[verifier::opaque]
pub open spec fn hit(a: tos_t, l: labels_t) -> bool { exists|x: int| #[trigger] both(a, l, x) }
pub open spec fn grown(a: tos_t, b: tos_t) -> bool { sup(b._tos, a._tos) && sup(b._stack, a._stack) && b._in_waiting == a._in_waiting }
pub open spec fn told(r: (bool, bool), a: tos_t, b: tos_t) -> bool { (!r.0 ==> b._tos == a._tos) && (!r.1 ==> b._stack == a._stack) }
// ---- the saturated approximation
pub open spec fn tks(a: Seq<tos_t>, n: int) -> bool { a.len() == n && forall|p: int| #![trigger a[p]] 0 <= p < n ==> tk(a[p]) }
#[verifier::opaque]
pub open spec fn queued(a: Seq<tos_t>, q: Seq<int>) -> bool { forall|p: int| #![trigger a[p]] 0 <= p < a.len() && a[p]._in_waiting != 0 ==> q.contains(p) }
#[verifier::opaque]
pub open spec fn fresh(a: Seq<tos_t>) -> bool { forall|p: int| #![trigger a[p]] 0 <= p < a.len() && a[p]._in_waiting == 0 ==> a[p]._tos.len() == 0 }
#[verifier::opaque]
pub open spec fn startk(s: Seq<vstate>, a: Seq<tos_t>, init: int, term: int, k: int) -> bool { forall|i: int| #![trigger s[init]._rules.elems[i]] 0 <= i < k && i < s[init]._rules.elems.len() && s[init]._rules.elems[i].first._to != term && nonempty(s[init]._rules.elems[i].second) ==> a[s[init]._rules.elems[i].first._to]._tos.contains(s[init]._rules.elems[i].first._op_label) }
#[verifier::opaque]
pub open spec fn started(s: Seq<vstate>, a: Seq<tos_t>, init: int, term: int) -> bool { forall|r: rule_t, x: int| #[trigger] has_label(s, init, r, x) && r._to != term ==> a[r._to]._tos.contains(r._op_label) }
#[verifier::opaque]
pub open spec fn done(a: tos_t, b: tos_t, r: rule_t, l: labels_t, ds: bool) -> bool {
    (r._operation == NOOP() ==> forall|x: int| #[trigger] both(a, l, x) ==> b._tos.contains(x))
    && (hit(a, l) ==> (r._operation == POP() ==> (!ds ==> full(b._tos)) && (ds ==> sup(b._tos, a._stack))) && ((r._operation == PUSH() || r._operation == SWAP()) ==> b._tos.contains(r._op_label)) && (ds ==> sup(b._stack, a._stack)) && (ds && r._operation == PUSH() ==> sup(b._stack, a._tos)))
}
#[verifier::opaque]
pub open spec fn fin(s: Seq<vstate>, a: Seq<tos_t>, p: int, k: int, ds: bool, term: int) -> bool { forall|i: int| #![trigger s[p]._rules.elems[i]] 0 <= i < k && i < s[p]._rules.elems.len() && s[p]._rules.elems[i].first._to != term && nonempty(s[p]._rules.elems[i].second) ==> done(a[p], a[s[p]._rules.elems[i].first._to], s[p]._rules.elems[i].first, s[p]._rules.elems[i].second, ds) }
#[verifier::opaque]
pub open spec fn rest(s: Seq<vstate>, a: Seq<tos_t>, ds: bool, term: int, el: int) -> bool { forall|p: int| #![trigger a[p]] 0 <= p < s.len() && p != el && a[p]._in_waiting == 0 ==> fin(s, a, p, s[p]._rules.elems.len() as int, ds, term) }
#[verifier::opaque]
pub open spec fn cover(w: Seq<int>, t: tos_t, ds: bool) -> bool { w.len() > 0 ==> within(w, NL()) && t._tos.contains(w[0]) && (ds ==> forall|j: int| #![trigger w[j]] 1 <= j < w.len() ==> t._stack.contains(w[j])) }
// ---- compaction of the rules of one state
#[verifier::opaque]
pub open spec fn from(a: relem, b: relem) -> bool { b.first == a.first && lab_wf(b.second) && lab_in(b.second, NL()) && forall|x: int| #[trigger] den(b.second, x) ==> den(a.second, x) }
pub open spec fn wanted(e: relem, t: Seq<int>, term: int, x: int) -> bool { 0 <= x < NL() && den(e.second, x) && (e.first._to == term || t.contains(x)) }
pub open spec fn held(l: Seq<relem>, br: int, r: rule_t, x: int) -> bool { exists|j: int| #![trigger l[j]] 0 <= j < br && l[j].first == r && den(l[j].second, x) }
pub open spec fn taken(o: Seq<relem>, e: relem, lo: int, hi: int) -> bool { exists|k: int| #![trigger o[k]] lo <= k < hi && from(o[k], e) }
#[verifier::opaque]
pub open spec fn part(o: Seq<relem>, l: Seq<relem>, br: int, r: int, t: Seq<int>, term: int) -> bool {
    l.len() == o.len() && 0 <= br <= r <= o.len() && (forall|j: int| #![trigger l[j]] r <= j < l.len() ==> l[j] == o[j]) && (forall|j: int| #![trigger l[j]] 0 <= j < br ==> taken(o, l[j], j, r))
    && (forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < br ==> rule_lt(l[i].first, l[j].first)) && (forall|k: int, x: int| #![trigger den(o[k].second, x)] 0 <= k < r && wanted(o[k], t, term, x) ==> held(l, br, o[k].first, x))
}
pub open spec fn but(o: Seq<vstate>, c: Seq<vstate>, i: int) -> bool { c.len() == o.len() && (forall|q: int| #![trigger c[q]] 0 <= q < c.len() ==> c[q]._pre_states == o[q]._pre_states && (q != i ==> c[q] == o[q])) }
// the first k of b are in a, and a[..it] lies below b[k]
#[verifier::opaque]
pub open spec fn upto(a: Seq<int>, b: Seq<int>, it: int, k: int) -> bool { 0 <= it <= a.len() && (forall|j: int| #![trigger b[j]] 0 <= j < k && j < b.len() ==> a.contains(b[j])) && (k < b.len() ==> forall|j: int| #![trigger a[j]] 0 <= j < it ==> a[j] < b[k]) }
"""
LABL = PA._take(L.LEMMAS, ['inc_ge', 'inc_le', 'complete', 'same', 'pos_ge', 'pos_le', 'bounded_len', 'full_len'])
LEMMAS = r"""
proof fn shr_refl(a: relem, s: int, u: Seq<int>) requires lab_wf(a.second), lab_in(a.second, NL()), ensures shr(a, a, s, u) { reveal(shr); }
proof fn shr_trans(a: relem, b: relem, c: relem, s: int, u: Seq<int>) requires shr(a, b, s, u), shr(b, c, s, u), ensures shr(a, c, s, u) { reveal(shr); assert forall|x: int| #[trigger] den(c.second, x) implies den(a.second, x) by { assert(den(b.second, x)); } assert forall|x: int| #[trigger] den(a.second, x) && !den(c.second, x) implies cut(a.first, x, s, u) by { let z = den(b.second, x); } }
proof fn trim_start(o: Seq<vstate>, s: int, u: Seq<int>) requires rsys(o), ensures trimmed(o, o, s, u) { reveal(trimmed); assert forall|p: int, i: int| #![trigger o[p]._rules.elems[i]] 0 <= p < o.len() && 0 <= i < o[p]._rules.elems.len() implies shr(o[p]._rules.elems[i], o[p]._rules.elems[i], s, u) by { assert(st_ok(o, p)); assert(ent_ok(o[p]._rules.elems[i])); shr_refl(o[p]._rules.elems[i], s, u); } }
proof fn trim_at(o: Seq<vstate>, c: Seq<vstate>, s: int, u: Seq<int>, p: int) requires trimmed(o, c, s, u), rsys(o), 0 <= p < o.len(), ensures c.len() == o.len(), c[p]._pre_states == o[p]._pre_states, c[p]._rules.elems.len() == o[p]._rules.elems.len(), st_ok(o, p), forall|i: int| #![trigger c[p]._rules.elems[i]] 0 <= i < c[p]._rules.elems.len() ==> lab_wf(c[p]._rules.elems[i].second) && lab_in(c[p]._rules.elems[i].second, NL()) && ent_ok(c[p]._rules.elems[i])
{ reveal(trimmed); let z = c[p]; assert forall|i: int| #![trigger c[p]._rules.elems[i]] 0 <= i < c[p]._rules.elems.len() implies lab_wf(c[p]._rules.elems[i].second) && lab_in(c[p]._rules.elems[i].second, NL()) && ent_ok(c[p]._rules.elems[i]) by { reveal(shr); assert(shr(o[p]._rules.elems[i], c[p]._rules.elems[i], s, u)); assert(ent_ok(o[p]._rules.elems[i])); } }
proof fn shr_clear(a: relem, b: relem, s: int, u: Seq<int>) requires b.first == a.first, lab_wf(b.second), forall|x: int| !#[trigger] den(b.second, x), a.first._to == s, a.first._operation == PUSH() || a.first._operation == SWAP(), !u.contains(a.first._op_label), ensures shr(a, b, s, u)
{ reveal(shr); if b.second._wildcard { assert(den(b.second, 0)); } if b.second._labels.len() > 0 { assert(b.second._labels.contains(b.second._labels[0])); assert(den(b.second, b.second._labels[0])); } }
proof fn shr_noop(a: relem, b: relem, s: int, u: Seq<int>) requires b.first == a.first, lab_wf(b.second), !b.second._wildcard, within(u, NL()), forall|x: int| #[trigger] den(b.second, x) <==> (den(a.second, x) && u.contains(x)), a.first._to == s, a.first._operation == NOOP(), ensures shr(a, b, s, u)
{ reveal(shr); let l = b.second._labels; assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies 0 <= l[i] < NL() by { assert(l.contains(l[i])); assert(den(b.second, l[i])); let j = choose|j: int| 0 <= j < u.len() && u[j] == l[i]; } }
proof fn trim_step(o: Seq<vstate>, c: Seq<vstate>, d: Seq<vstate>, s: int, u: Seq<int>, p: int, i: int) requires trimmed(o, c, s, u), 0 <= p < c.len(), d.len() == c.len(), forall|q: int| #![trigger d[q]] 0 <= q < d.len() && q != p ==> d[q] == c[q], d[p]._pre_states == c[p]._pre_states, 0 <= i < c[p]._rules.elems.len(), d[p]._rules.elems == c[p]._rules.elems.update(i, d[p]._rules.elems[i]), shr(c[p]._rules.elems[i], d[p]._rules.elems[i], s, u), ensures trimmed(o, d, s, u)
{ reveal(trimmed); assert forall|q: int| #![trigger d[q]] 0 <= q < d.len() implies d[q]._pre_states == o[q]._pre_states && d[q]._rules.elems.len() == o[q]._rules.elems.len() by { let z = c[q]; }
  assert forall|q: int, j: int| #![trigger d[q]._rules.elems[j]] 0 <= q < d.len() && 0 <= j < d[q]._rules.elems.len() implies shr(o[q]._rules.elems[j], d[q]._rules.elems[j], s, u) by { let z = c[q]; let y = c[q]._rules.elems[j]; assert(shr(o[q]._rules.elems[j], y, s, u)); if q == p && j == i { shr_trans(o[p]._rules.elems[i], y, d[p]._rules.elems[i], s, u); } else { assert(d[q]._rules.elems[j] == y); } } }
proof fn trim_sys(o: Seq<vstate>, c: Seq<vstate>, s: int, u: Seq<int>) requires rsys(o), trimmed(o, c, s, u), ensures rsys(c), sub(o, c)
{ assert forall|p: int| 0 <= p < o.len() implies #[trigger] samep(o, c, p) by { trim_at(o, c, s, u, p); reveal(trimmed); assert forall|i: int| #![trigger c[p]._rules.elems[i]] 0 <= i < c[p]._rules.elems.len() implies c[p]._rules.elems[i].first == o[p]._rules.elems[i].first by { reveal(shr); assert(shr(o[p]._rules.elems[i], c[p]._rules.elems[i], s, u)); } }
  assert(c.len() == o.len()) by { reveal(trimmed); }
  assert forall|p: int| #![trigger c[p]] 0 <= p < c.len() implies st_ok(c, p) && c[p]._rules.elems.len() < 0x1_0000_0000_0000_0000 by { assert(samep(o, c, p)); trim_at(o, c, s, u, p); let l = c[p]._rules.elems; let z = o[p]; assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() implies rule_lt(l[i].first, l[j].first) by { let a = c[p]._rules.elems[i]; let b = c[p]._rules.elems[j]; let oo = o[p]._rules.elems; assert(rule_lt(oo[i].first, oo[j].first)); } assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies lab_wf(l[i].second) by { let a = c[p]._rules.elems[i]; } }
  assert forall|p: int, i: int| #![trigger c[p]._rules.elems[i]] 0 <= p < c.len() && 0 <= i < c[p]._rules.elems.len() implies tgt_ok(c, p, i) && ent_ok(c[p]._rules.elems[i]) by { assert(samep(o, c, p)); trim_at(o, c, s, u, p); assert(tgt_ok(o, p, i)); assert(samep(o, c, c[p]._rules.elems[i].first._to)); }
  reveal(sub);
  assert forall|p: int, r: rule_t| #[trigger] has_rule(c, p, r) implies has_rule(o, p, r) by { assert(samep(o, c, p)); let l = c[p]._rules.elems; let i = choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].first == r; let a = c[p]._rules.elems[i]; let m = o[p]._rules.elems; assert(m[i].first == r); }
  assert forall|p: int, r: rule_t, x: int| #[trigger] has_label(c, p, r, x) implies has_label(o, p, r, x) by { let i = find(c, p, r, x); assert(samep(o, c, p)); reveal(trimmed); reveal(shr); assert(shr(o[p]._rules.elems[i], c[p]._rules.elems[i], s, u)); found(o, p, i, x); } }
pub open spec fn samep(o: Seq<vstate>, c: Seq<vstate>, p: int) -> bool { c[p]._pre_states == o[p]._pre_states && c[p]._rules.elems.len() == o[p]._rules.elems.len() && forall|i: int| #![trigger c[p]._rules.elems[i]] 0 <= i < c[p]._rules.elems.len() ==> c[p]._rules.elems[i].first == o[p]._rules.elems[i].first }
proof fn trim_keeps(o: Seq<vstate>, c: Seq<vstate>, s: int, u: Seq<int>, term: int) requires rsys(o), trimmed(o, c, s, u), 0 <= s < o.len(), s != term, covers(o, s, u, o[s]._rules.elems.len() as int), ensures keep_all(o, c, term)
{ assert forall|init: int, b: int| #[trigger] keeps(o, c, init, b, term) by { assert forall|p: int, g: rule_t, x: int| #[trigger] used(o, init, b, term, p, g, x) implies has_label(c, p, g, x) by { let (cc, r, i) = choose|cc: Seq<Conf>, r: Seq<rule_t>, i: int| run(o, init, b, term, cc, r) && #[trigger] uses(cc, r, b, i, p, g, x);
    assert(at(o, init, b, term, cc, r, i)); let k = find(o, p, g, x); reveal(trimmed); let z = c[p]; let e = c[p]._rules.elems[k]; assert(shr(o[p]._rules.elems[k], e, s, u)); reveal(shr);
    if !den(e.second, x) { assert(cut(g, x, s, u)); assert(cc[i + 1].p == s); assert(i + 1 < r.len()); assert(at(o, init, b, term, cc, r, i + 1)); 
      let w = cc[i + 1].w; assert(ent_ok(o[p]._rules.elems[k])); assert(w.len() > 0 && w[0] == (if g._operation == NOOP() { x } else { g._op_label })); let k2 = find(o, s, r[i + 1], w[0]); reveal(covers); assert(u.contains(w[0])); }
    found(c, p, k, x); } reveal(keeps); } reveal(keep_all); }
proof fn keep_all_trans(o: Seq<vstate>, c: Seq<vstate>, d: Seq<vstate>, term: int) requires keep_all(o, c, term), keep_all(c, d, term), ensures keep_all(o, d, term) { reveal(keep_all); assert forall|init: int, b: int| #[trigger] keeps(o, d, init, b, term) by { assert(keeps(o, c, init, b, term)); assert(keeps(c, d, init, b, term)); keeps_trans(o, c, d, init, b, term); } }
proof fn keep_all_refl(o: Seq<vstate>, term: int) ensures keep_all(o, o, term) { reveal(keep_all); assert forall|init: int, b: int| #[trigger] keeps(o, o, init, b, term) by { keeps_refl(o, init, b, term); } }
proof fn cov_step(s: Seq<vstate>, p: int, u: Seq<int>, v: Seq<int>, k: int) requires covers(s, p, u, k), 0 <= p < s.len(), 0 <= k < s[p]._rules.elems.len(), !s[p]._rules.elems[k].second._wildcard, forall|y: int| #[trigger] v.contains(y) == (u.contains(y) || s[p]._rules.elems[k].second._labels.contains(y)), ensures covers(s, p, v, k + 1) { reveal(covers); }
proof fn cov_within(u: Seq<int>, l: Seq<int>, v: Seq<int>, n: int) requires within(u, n), within(l, n), forall|y: int| #[trigger] v.contains(y) == (u.contains(y) || l.contains(y)), ensures within(v, n) { assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies 0 <= v[i] < n by { assert(v.contains(v[i])); if u.contains(v[i]) { let j = choose|j: int| 0 <= j < u.len() && u[j] == v[i]; } else { let j = choose|j: int| 0 <= j < l.len() && l[j] == v[i]; } } }
proof fn kept_run(s: Seq<vstate>, t: Seq<vstate>, init: int, b: int, term: int, c: Seq<Conf>, r: Seq<rule_t>) requires keeps(s, t, init, b, term), run(s, init, b, term, c, r), ensures run(t, init, b, term, c, r)
{ reveal(keeps); assert forall|i: int| 0 <= i < r.len() implies #[trigger] at(t, init, b, term, c, r, i) by { assert(at(s, init, b, term, c, r, i)); assert(uses(c, r, b, i, c[i].p, r[i], rd(c[i], b))); assert(used(s, init, b, term, c[i].p, r[i], rd(c[i], b))); } }
proof fn keeps_refl(s: Seq<vstate>, init: int, b: int, term: int) ensures keeps(s, s, init, b, term)
{ reveal(keeps); assert forall|p: int, q: rule_t, x: int| #[trigger] used(s, init, b, term, p, q, x) implies has_label(s, p, q, x) by { let (c, r, i) = choose|c: Seq<Conf>, r: Seq<rule_t>, i: int| run(s, init, b, term, c, r) && #[trigger] uses(c, r, b, i, p, q, x); assert(at(s, init, b, term, c, r, i)); } }
proof fn keeps_trans(s: Seq<vstate>, t: Seq<vstate>, u: Seq<vstate>, init: int, b: int, term: int) requires keeps(s, t, init, b, term), keeps(t, u, init, b, term), ensures keeps(s, u, init, b, term)
{ assert forall|p: int, q: rule_t, x: int| #[trigger] used(s, init, b, term, p, q, x) implies has_label(u, p, q, x) by { let (c, r, i) = choose|c: Seq<Conf>, r: Seq<rule_t>, i: int| run(s, init, b, term, c, r) && #[trigger] uses(c, r, b, i, p, q, x); kept_run(s, t, init, b, term, c, r); assert(used(t, init, b, term, p, q, x)); reveal(keeps); } reveal(keeps); }
proof fn sub_len(o: Seq<vstate>, c: Seq<vstate>) requires sub(o, c), ensures c.len() == o.len() { reveal(sub); }
proof fn sub_refl(s: Seq<vstate>) ensures sub(s, s) { reveal(sub); }
proof fn sub_trans(s: Seq<vstate>, t: Seq<vstate>, u: Seq<vstate>) requires sub(s, t), sub(t, u), ensures sub(s, u) { reveal(sub); assert forall|p: int, r: rule_t| #[trigger] has_rule(u, p, r) implies has_rule(s, p, r) by { assert(has_rule(t, p, r)); } assert forall|p: int, r: rule_t, x: int| #[trigger] has_label(u, p, r, x) implies has_label(s, p, r, x) by { assert(has_label(t, p, r, x)); } }
// where a label is
proof fn find(s: Seq<vstate>, p: int, r: rule_t, x: int) -> (i: int) requires has_label(s, p, r, x), ensures 0 <= p < s.len(), 0 <= i < s[p]._rules.elems.len(), s[p]._rules.elems[i].first == r, den(s[p]._rules.elems[i].second, x) { let l = s[p]._rules.elems; choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].first == r && den(l[i].second, x) }
proof fn found(s: Seq<vstate>, p: int, i: int, x: int) requires 0 <= p < s.len(), 0 <= i < s[p]._rules.elems.len(), den(s[p]._rules.elems[i].second, x), ensures has_label(s, p, s[p]._rules.elems[i].first, x) { let l = s[p]._rules.elems; assert(l[i].first == l[i].first); }
proof fn tgt(s: Seq<vstate>, p: int, r: rule_t, x: int) requires pda_wf(s), has_label(s, p, r, x), ensures 0 <= r._to < s.len(), is_pre(s, r._to, p), 0 <= p < s.len() { let i = find(s, p, r, x); assert(tgt_ok(s, p, i)); }
proof fn thin_sys(o: Seq<vstate>, c: Seq<vstate>) requires rsys(o), pda_wf(c), thinned(o, c), ensures rsys(c)
{ assert forall|p: int, i: int| #![trigger c[p]._rules.elems[i]] 0 <= p < c.len() && 0 <= i < c[p]._rules.elems.len() implies ent_ok(c[p]._rules.elems[i]) by { let e = o[p]._rules.elems; assert(e.contains(c[p]._rules.elems[i])); let j = choose|j: int| 0 <= j < e.len() && e[j] == c[p]._rules.elems[i]; assert(ent_ok(o[p]._rules.elems[j])); }
  assert forall|p: int| #![trigger c[p]] 0 <= p < c.len() implies c[p]._rules.elems.len() < 0x1_0000_0000_0000_0000 by { let z = o[p]; } }
// ---- forward
proof fn f_start(s: Seq<vstate>, seen: Seq<bool>, init: int) requires 0 <= init < s.len(), seen.len() == s.len(), forall|p: int| #![trigger seen[p]] 0 <= p < s.len() ==> seen[p] == (p == init), ensures seen_q(seen, seq![init], s.len() as int), restf(s, seen, seq![init], -1), restb(s, seen, seq![init], -1)
{ reveal(restf); reveal(restb); let q = seq![init]; assert(q[0] == init); assert(q.contains(init)); }
proof fn f_take(s: Seq<vstate>, seen: Seq<bool>, q: Seq<int>) requires q.len() > 0, seen_q(seen, q, s.len() as int), ensures seen_q(seen, q.drop_first(), s.len() as int), restf(s, seen, q, -1) ==> restf(s, seen, q.drop_first(), q[0]), restb(s, seen, q, -1) ==> restb(s, seen, q.drop_first(), q[0]), 0 <= q[0] < s.len(), seen[q[0]]
{ reveal(restf); reveal(restb); let t = q.drop_first(); assert forall|p: int| t.contains(p) || p == q[0] || !q.contains(p) by { if q.contains(p) { let i = choose|i: int| 0 <= i < q.len() && q[i] == p; if i > 0 { assert(t[i - 1] == p); } } } }
// one more state seen and queued
proof fn f_add(s: Seq<vstate>, seen: Seq<bool>, q: Seq<int>, el: int, t: int, k: int) requires 0 <= t < s.len(), seen_q(seen, q, s.len() as int), pda_wf(s), 0 <= el < s.len(), ensures seen_q(seen.update(t, true), q.push(t), s.len() as int), restf(s, seen, q, el) ==> restf(s, seen.update(t, true), q.push(t), el), restb(s, seen, q, el) ==> restb(s, seen.update(t, true), q.push(t), el), okf(s, seen, el, k) ==> okf(s, seen.update(t, true), el, k), okb(s, seen, el, k) ==> okb(s, seen.update(t, true), el, k)
{ reveal(restf); reveal(restb); let q2 = q.push(t); let n = seen.update(t, true); assert(q2[q.len() as int] == t); assert forall|p: int| q.contains(p) implies q2.contains(p) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == p; assert(q2[i] == p); }
  assert forall|p: int, m: int| 0 <= p < s.len() && #[trigger] okf(s, seen, p, m) implies okf(s, n, p, m) by { assert forall|i: int| #![trigger s[p]._rules.elems[i]] 0 <= i < m && i < s[p]._rules.elems.len() && nonempty(s[p]._rules.elems[i].second) implies n[s[p]._rules.elems[i].first._to] by { assert(tgt_ok(s, p, i)); } }
  assert forall|p: int, m: int| 0 <= p < s.len() && #[trigger] okb(s, seen, p, m) implies okb(s, n, p, m) by { assert(st_ok(s, p)); }
  assert forall|p: int| #![trigger n[p]] 0 <= p < s.len() && n[p] && p != el && !q2.contains(p) && restf(s, seen, q, el) implies okf(s, n, p, s[p]._rules.elems.len() as int) by { assert(p != t); assert(seen[p]); assert(okf(s, seen, p, s[p]._rules.elems.len() as int)); }
  assert forall|p: int| #![trigger n[p]] 0 <= p < s.len() && n[p] && p != el && !q2.contains(p) && restb(s, seen, q, el) implies okb(s, n, p, s[p]._pre_states.elems.len() as int) by { assert(p != t); assert(seen[p]); assert(okb(s, seen, p, s[p]._pre_states.elems.len() as int)); } }
proof fn f_done(s: Seq<vstate>, seen: Seq<bool>, q: Seq<int>, el: int) requires seen.len() == s.len(), ensures restf(s, seen, q, el) && okf(s, seen, el, s[el]._rules.elems.len() as int) ==> restf(s, seen, q, -1), restb(s, seen, q, el) && okb(s, seen, el, s[el]._pre_states.elems.len() as int) ==> restb(s, seen, q, -1) { reveal(restf); reveal(restb); }
proof fn f_run(s: Seq<vstate>, seen: Seq<bool>, q: Seq<int>, init: int, b: int, term: int, c: Seq<Conf>, r: Seq<rule_t>, i: int) requires pda_wf(s), seen.len() == s.len(), q.len() == 0, restf(s, seen, q, -1), 0 <= init < s.len(), seen[init], run(s, init, b, term, c, r), 0 <= i <= r.len(), ensures 0 <= c[i].p < s.len(), seen[c[i].p] decreases i
{ if i > 0 { f_run(s, seen, q, init, b, term, c, r, i - 1); assert(at(s, init, b, term, c, r, i - 1)); let p = c[i - 1].p; let k = find(s, p, r[i - 1], rd(c[i - 1], b)); assert(tgt_ok(s, p, k)); reveal(restf); assert(okf(s, seen, p, s[p]._rules.elems.len() as int)); assert(nonempty(s[p]._rules.elems[k].second)); } }
proof fn b_run(s: Seq<vstate>, seen: Seq<bool>, q: Seq<int>, init: int, b: int, term: int, c: Seq<Conf>, r: Seq<rule_t>, i: int) requires pda_wf(s), seen.len() == s.len(), q.len() == 0, restb(s, seen, q, -1), 0 <= term < s.len(), seen[term], run(s, init, b, term, c, r), 0 <= i <= r.len(), ensures 0 <= c[i].p < s.len(), seen[c[i].p] decreases r.len() - i
{ if i < r.len() { b_run(s, seen, q, init, b, term, c, r, i + 1); assert(at(s, init, b, term, c, r, i)); let p = c[i].p; tgt(s, p, r[i], rd(c[i], b)); let t = r[i]._to; reveal(restb); assert(okb(s, seen, t, s[t]._pre_states.elems.len() as int)); let k = choose|k: int| 0 <= k < s[t]._pre_states.elems.len() && s[t]._pre_states.elems[k] == p; assert(seen[s[t]._pre_states.elems[k]]); } }
proof fn p_start(o: Seq<vstate>, seen: Seq<bool>) requires pda_wf(o), ensures pruned(o, o, seen, 0) { reveal(pruned); assert forall|p: int, r: rule_t, x: int| #[trigger] has_label(o, p, r, x) implies stays(seen, 0, p) && stays(seen, 0, r._to) by { tgt(o, p, r, x); } }
proof fn p_step(o: Seq<vstate>, c: Seq<vstate>, d: Seq<vstate>, seen: Seq<bool>, n: int) requires pruned(o, c, seen, n), 0 <= n < o.len(), pda_wf(o), seen[n] ==> d == c, !seen[n] ==> d.len() == c.len() && (forall|p: int, r: rule_t| #[trigger] has_rule(d, p, r) <==> has_rule(c, p, r) && p != n && r._to != n) && (forall|p: int, r: rule_t, x: int| #[trigger] has_label(d, p, r, x) <==> has_label(c, p, r, x) && p != n && r._to != n), ensures pruned(o, d, seen, n + 1)
{ reveal(pruned); assert forall|p: int, r: rule_t| #[trigger] has_rule(d, p, r) implies has_rule(o, p, r) by { assert(has_rule(c, p, r)); }
  assert forall|p: int, r: rule_t, x: int| #[trigger] has_label(d, p, r, x) <==> has_label(o, p, r, x) && stays(seen, n + 1, p) && stays(seen, n + 1, r._to) by { let u = has_label(c, p, r, x); } }
proof fn p_sub(o: Seq<vstate>, c: Seq<vstate>, seen: Seq<bool>, n: int) requires pruned(o, c, seen, n), ensures sub(o, c) { reveal(pruned); reveal(sub); }
proof fn f_keeps(o: Seq<vstate>, c: Seq<vstate>, seen: Seq<bool>, q: Seq<int>, init: int) requires pda_wf(o), seen.len() == o.len(), q.len() == 0, restf(o, seen, q, -1), 0 <= init < o.len(), seen[init], pruned(o, c, seen, o.len() as int), ensures forall|b: int, term: int| #[trigger] keeps(o, c, init, b, term)
{ assert forall|b: int, term: int| #[trigger] keeps(o, c, init, b, term) by { assert forall|p: int, g: rule_t, x: int| #[trigger] used(o, init, b, term, p, g, x) implies has_label(c, p, g, x) by { let (cc, r, i) = choose|cc: Seq<Conf>, r: Seq<rule_t>, i: int| run(o, init, b, term, cc, r) && #[trigger] uses(cc, r, b, i, p, g, x); assert(at(o, init, b, term, cc, r, i)); f_run(o, seen, q, init, b, term, cc, r, i); f_run(o, seen, q, init, b, term, cc, r, i + 1); reveal(pruned); } reveal(keeps); } }
proof fn b_keeps(o: Seq<vstate>, c: Seq<vstate>, seen: Seq<bool>, q: Seq<int>, term: int) requires pda_wf(o), seen.len() == o.len(), q.len() == 0, restb(o, seen, q, -1), 0 <= term < o.len(), seen[term], pruned(o, c, seen, o.len() as int), ensures forall|init: int, b: int| #[trigger] keeps(o, c, init, b, term)
{ assert forall|init: int, b: int| #[trigger] keeps(o, c, init, b, term) by { assert forall|p: int, g: rule_t, x: int| #[trigger] used(o, init, b, term, p, g, x) implies has_label(c, p, g, x) by { let (cc, r, i) = choose|cc: Seq<Conf>, r: Seq<rule_t>, i: int| run(o, init, b, term, cc, r) && #[trigger] uses(cc, r, b, i, p, g, x); assert(at(o, init, b, term, cc, r, i)); b_run(o, seen, q, init, b, term, cc, r, i); b_run(o, seen, q, init, b, term, cc, r, i + 1); reveal(pruned); } reveal(keeps); } }
proof fn bits() ensures ubor32(0, 8) == 8, ubor32(0, 16) == 16, ubor32(8, 8) == 8, ubor32(8, 16) == 24, ubor32(16, 8) == 24, ubor32(16, 16) == 16, ubor32(24, 8) == 24, ubor32(24, 16) == 24 { assert(0u64 | 8u64 == 8u64) by (bit_vector); assert(0u64 | 16u64 == 16u64) by (bit_vector); assert(8u64 | 8u64 == 8u64) by (bit_vector); assert(8u64 | 16u64 == 24u64) by (bit_vector); assert(16u64 | 8u64 == 24u64) by (bit_vector); assert(16u64 | 16u64 == 16u64) by (bit_vector); assert(24u64 | 8u64 == 24u64) by (bit_vector); assert(24u64 | 16u64 == 24u64) by (bit_vector); }
proof fn thin_refl(o: Seq<vstate>) ensures thinned(o, o) { }
proof fn thin_trans(o: Seq<vstate>, m: Seq<vstate>, c: Seq<vstate>) requires thinned(o, m), thinned(m, c), ensures thinned(o, c)
{ assert forall|p: int| #![trigger c[p]] 0 <= p < c.len() implies c[p]._rules.elems.len() <= o[p]._rules.elems.len() by { let z = m[p]; }
  assert forall|p: int, i: int| #![trigger c[p]._rules.elems[i]] 0 <= p < c.len() && 0 <= i < c[p]._rules.elems.len() implies o[p]._rules.elems.contains(c[p]._rules.elems[i]) by { let e = m[p]._rules.elems; assert(e.contains(c[p]._rules.elems[i])); let j = choose|j: int| 0 <= j < e.len() && e[j] == c[p]._rules.elems[i]; assert(o[p]._rules.elems.contains(m[p]._rules.elems[j])); } }
proof fn lt_tr(a: rule_t, b: rule_t, c: rule_t) ORDREQ ensures rule_lt(a, b) && rule_lt(b, c) ==> rule_lt(a, c) {}
proof fn keepi_all(o: Seq<vstate>, c: Seq<vstate>, init: int, term: int) requires keep_all(o, c, term), ensures keepi(o, c, init, term) { reveal(keep_all); reveal(keepi); }
proof fn keepi_f(o: Seq<vstate>, c: Seq<vstate>, init: int, term: int) requires forall|b: int, t: int| #[trigger] keeps(o, c, init, b, t), ensures keepi(o, c, init, term) { reveal(keepi); }
proof fn keepi_b(o: Seq<vstate>, c: Seq<vstate>, init: int, term: int) requires forall|i: int, b: int| #[trigger] keeps(o, c, i, b, term), ensures keepi(o, c, init, term) { reveal(keepi); }
proof fn keepi_refl(o: Seq<vstate>, init: int, term: int) ensures keepi(o, o, init, term) { reveal(keepi); assert forall|b: int| #[trigger] keeps(o, o, init, b, term) by { keeps_refl(o, init, b, term); } }
proof fn keepi_trans(o: Seq<vstate>, c: Seq<vstate>, d: Seq<vstate>, init: int, term: int) requires keepi(o, c, init, term), keepi(c, d, init, term), sub(o, c), sub(c, d), ensures keepi(o, d, init, term), sub(o, d) { sub_trans(o, c, d); reveal(keepi); assert forall|b: int| #[trigger] keeps(o, d, init, b, term) by { assert(keeps(o, c, init, b, term)); assert(keeps(c, d, init, b, term)); keeps_trans(o, c, d, init, b, term); } }
proof fn lift(o: Seq<vstate>, c: Seq<vstate>, init: int, b: int, term: int, cc: Seq<Conf>, r: Seq<rule_t>) requires sub(o, c), run(c, init, b, term, cc, r), ensures run(o, init, b, term, cc, r) { reveal(sub); assert forall|i: int| 0 <= i < r.len() implies #[trigger] at(o, init, b, term, cc, r, i) by { assert(at(c, init, b, term, cc, r, i)); } }
proof fn runs(o: Seq<vstate>, c: Seq<vstate>, init: int, term: int) requires sub(o, c), keepi(o, c, init, term), ensures same_runs(o, c, init, term) { assert forall|b: int, cc: Seq<Conf>, r: Seq<rule_t>| #[trigger] run(o, init, b, term, cc, r) <==> run(c, init, b, term, cc, r) by { if run(o, init, b, term, cc, r) { reveal(keepi); assert(keeps(o, c, init, b, term)); kept_run(o, c, init, b, term, cc, r); } if run(c, init, b, term, cc, r) { lift(o, c, init, b, term, cc, r); } } reveal(same_runs); }
proof fn push_sub(o: Seq<vstate>, c: Seq<vstate>, init: int) requires only_push(o, init), sub(o, c), ensures only_push(c, init) { reveal(sub); assert forall|r: rule_t| #[trigger] has_rule(c, init, r) implies r._operation == PUSH() by { assert(has_rule(o, init, r)); } }
// ---- start of the saturation
proof fn s_start(s: Seq<vstate>, a: Seq<tos_t>, init: int, term: int) requires a.len() == s.len(), forall|p: int| #![trigger a[p]] 0 <= p < a.len() ==> a[p]._tos.len() == 0 && a[p]._stack.len() == 0 && a[p]._in_waiting == 0, ensures tks(a, s.len() as int), queued(a, Seq::<int>::empty()), fresh(a), startk(s, a, init, term, 0) { reveal(queued); reveal(fresh); reveal(startk); }
proof fn s_skip(s: Seq<vstate>, a: Seq<tos_t>, init: int, term: int, k: int) requires startk(s, a, init, term, k), 0 <= init < s.len(), 0 <= k < s[init]._rules.elems.len(), s[init]._rules.elems[k].first._to == term || !nonempty(s[init]._rules.elems[k].second), ensures startk(s, a, init, term, k + 1) { reveal(startk); }
proof fn s_add(s: Seq<vstate>, a: Seq<tos_t>, b: Seq<tos_t>, q: Seq<int>, q2: Seq<int>, init: int, term: int, k: int) requires pda_wf(s), tks(a, s.len() as int), queued(a, q), fresh(a), inq(q, s.len() as int), startk(s, a, init, term, k), 0 <= init < s.len(), 0 <= k < s[init]._rules.elems.len(), b.len() == a.len(),
      ({ let t = s[init]._rules.elems[k].first._to; 0 <= t < s.len() && (forall|p: int| #![trigger b[p]] 0 <= p < b.len() && p != t ==> b[p] == a[p]) && b[t]._in_waiting != 0 && tk(b[t]) && sup(b[t]._tos, a[t]._tos) && b[t]._tos.contains(s[init]._rules.elems[k].first._op_label) && q2 == (if a[t]._in_waiting == 0 { q.push(t) } else { q }) }),
    ensures tks(b, s.len() as int), queued(b, q2), fresh(b), startk(s, b, init, term, k + 1), inq(q2, s.len() as int)
{ reveal(queued); reveal(fresh); reveal(startk); reveal(sup); let t = s[init]._rules.elems[k].first._to; q_push(q, t);
  assert forall|p: int| #![trigger b[p]] 0 <= p < b.len() implies tk(b[p]) && (b[p]._in_waiting != 0 ==> q2.contains(p)) && (b[p]._in_waiting == 0 ==> b[p]._tos.len() == 0) by { let z = a[p]; if p == t && a[t]._in_waiting != 0 { assert(q.contains(t)); } }
  assert forall|i: int| #![trigger s[init]._rules.elems[i]] 0 <= i < k + 1 && i < s[init]._rules.elems.len() && s[init]._rules.elems[i].first._to != term && nonempty(s[init]._rules.elems[i].second) implies b[s[init]._rules.elems[i].first._to]._tos.contains(s[init]._rules.elems[i].first._op_label) by { assert(tgt_ok(s, init, i)); let z = b[s[init]._rules.elems[i].first._to]; if i < k { let y = s[init]._rules.elems[i]; assert(a[y.first._to]._tos.contains(y.first._op_label)); } } }
proof fn q_push(q: Seq<int>, t: int) ensures q.push(t).contains(t), forall|x: int| #[trigger] q.contains(x) ==> q.push(t).contains(x) { let z = q.push(t); assert(z[q.len() as int] == t); assert forall|x: int| #[trigger] q.contains(x) implies z.contains(x) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(z[i] == x); } }
proof fn s_end(s: Seq<vstate>, c: Seq<vstate>, a: Seq<tos_t>, ds: bool, init: int, term: int) requires startk(s, a, init, term, s[init]._rules.elems.len() as int), sub(s, c), fresh(a), 0 <= init < s.len(), a.len() == s.len(), ensures started(c, a, init, term), rest(c, a, ds, term, -1)
{ reveal(started); reveal(startk); reveal(sub); reveal(rest); reveal(fin); reveal(fresh);
  assert forall|r: rule_t, x: int| #[trigger] has_label(c, init, r, x) && r._to != term implies a[r._to]._tos.contains(r._op_label) by { assert(has_label(s, init, r, x)); let i = find(s, init, r, x); assert(nonempty(s[init]._rules.elems[i].second)); }
  assert forall|p: int| #![trigger a[p]] 0 <= p < c.len() && a[p]._in_waiting == 0 implies fin(c, a, p, c[p]._rules.elems.len() as int, ds, term) by { assert(a[p]._tos.len() == 0); assert forall|i: int| #![trigger c[p]._rules.elems[i]] 0 <= i < c[p]._rules.elems.len() && c[p]._rules.elems[i].first._to != term && nonempty(c[p]._rules.elems[i].second) implies done(a[p], a[c[p]._rules.elems[i].first._to], c[p]._rules.elems[i].first, c[p]._rules.elems[i].second, ds) by { reveal(done); let l = c[p]._rules.elems[i].second; no_hit(a[p], l, 0); } } }
proof fn s_take(s: Seq<vstate>, a: Seq<tos_t>, b: Seq<tos_t>, q: Seq<int>, ds: bool, term: int, init: int) requires q.len() > 0, pda_wf(s), tks(a, s.len() as int), queued(a, q), inq(q, s.len() as int), rest(s, a, ds, term, -1), started(s, a, init, term), b.len() == a.len(), forall|p: int| #![trigger b[p]] 0 <= p < b.len() && p != q[0] ==> b[p] == a[p], only_in_waiting(a[q[0]], b[q[0]]), b[q[0]]._in_waiting == 0,
    ensures tks(b, s.len() as int), queued(b, q.drop_first()), inq(q.drop_first(), s.len() as int), rest(s, b, ds, term, q[0]), started(s, b, init, term), 0 <= q[0] < s.len(), fin(s, b, q[0], 0, ds, term)
{ let el = q[0]; reveal(queued); reveal(rest); reveal(started); reveal(fin); let t = q.drop_first();
  assert forall|p: int| #![trigger b[p]] 0 <= p < b.len() implies tk(b[p]) && (b[p]._in_waiting != 0 ==> t.contains(p)) by { let z = a[p]; if b[p]._in_waiting != 0 { let i = choose|i: int| 0 <= i < q.len() && q[i] == p; assert(t[i - 1] == p); } }
  assert forall|p: int| #![trigger b[p]] 0 <= p < s.len() && p != el && b[p]._in_waiting == 0 implies fin(s, b, p, s[p]._rules.elems.len() as int, ds, term) by { let z = a[p]; assert(fin(s, a, p, s[p]._rules.elems.len() as int, ds, term)); fin_mono(s, a, b, p, s[p]._rules.elems.len() as int, ds, term); }
  assert forall|r: rule_t, x: int| #[trigger] has_label(s, init, r, x) && r._to != term implies b[r._to]._tos.contains(r._op_label) by { tgt(s, init, r, x); let z = b[r._to]; } }
proof fn done_mono(a: tos_t, b: tos_t, c: tos_t, r: rule_t, l: labels_t, ds: bool) requires done(a, b, r, l, ds), sup(c._tos, b._tos), sup(c._stack, b._stack), ensures done(a, c, r, l, ds)
{ reveal(done); assert forall|x: int| #[trigger] both(a, l, x) && r._operation == NOOP() implies c._tos.contains(x) by { reveal(sup); assert(b._tos.contains(x)); } if hit(a, l) { if full(b._tos) { assert(full(c._tos)) by { reveal(full); reveal(sup); assert forall|x: int| 0 <= x < NL() implies #[trigger] c._tos.contains(x) by { assert(b._tos.contains(x)); } } } if sup(b._tos, a._stack) { sup_trans(c._tos, b._tos, a._stack); } if sup(b._stack, a._stack) { sup_trans(c._stack, b._stack, a._stack); } if sup(b._stack, a._tos) { sup_trans(c._stack, b._stack, a._tos); } if b._tos.contains(r._op_label) { assert(c._tos.contains(r._op_label)) by { reveal(sup); } } } }
proof fn fin_mono(s: Seq<vstate>, a: Seq<tos_t>, b: Seq<tos_t>, p: int, k: int, ds: bool, term: int) requires fin(s, a, p, k, ds, term), pda_wf(s), 0 <= p < s.len(), a.len() == s.len(), b.len() == s.len(), b[p]._tos == a[p]._tos, b[p]._stack == a[p]._stack, forall|q: int| #![trigger b[q]] 0 <= q < b.len() ==> more(a[q], b[q]), ensures fin(s, b, p, k, ds, term)
{ reveal(fin); assert forall|i: int| #![trigger s[p]._rules.elems[i]] 0 <= i < k && i < s[p]._rules.elems.len() && s[p]._rules.elems[i].first._to != term && nonempty(s[p]._rules.elems[i].second) implies done(b[p], b[s[p]._rules.elems[i].first._to], s[p]._rules.elems[i].first, s[p]._rules.elems[i].second, ds) by { assert(tgt_ok(s, p, i)); let e = s[p]._rules.elems[i]; let t = e.first._to; let z = b[t]; more_sup(a[t], b[t]); done_mono(a[p], a[t], b[t], e.first, e.second, ds); done_same(a[p], b[p], b[t], e.first, e.second, ds); } }
pub open spec fn more(a: tos_t, b: tos_t) -> bool { (b._tos == a._tos || sup(b._tos, a._tos)) && (b._stack == a._stack || sup(b._stack, a._stack)) }
proof fn more_sup(a: tos_t, b: tos_t) requires more(a, b), ensures sup(b._tos, a._tos), sup(b._stack, a._stack) { sup_refl(a._tos); sup_refl(a._stack); }
proof fn done_same(a: tos_t, a2: tos_t, b: tos_t, r: rule_t, l: labels_t, ds: bool) requires done(a, b, r, l, ds), a2._tos == a._tos, a2._stack == a._stack, ensures done(a2, b, r, l, ds) { reveal(done); reveal(hit); if hit(a2, l) { let x = choose|x: int| #[trigger] both(a2, l, x); assert(both(a, l, x)); } assert forall|x: int| #[trigger] both(a2, l, x) implies both(a, l, x) by {} }
// one rule treated: the target's approximation was m after the merge and u after it was marked
proof fn s_step(s: Seq<vstate>, a: Seq<tos_t>, b: Seq<tos_t>, q: Seq<int>, q2: Seq<int>, ds: bool, term: int, init: int, el: int, k: int, m: tos_t)
    requires pda_wf(s), tks(a, s.len() as int), queued(a, q), inq(q, s.len() as int), rest(s, a, ds, term, el), started(s, a, init, term), 0 <= el < s.len(), 0 <= k < s[el]._rules.elems.len(), a[el]._in_waiting == 0 ==> fin(s, a, el, k, ds, term), b.len() == a.len(),
      ({ let e = s[el]._rules.elems[k]; let t = e.first._to; 0 <= t < s.len() && (forall|p: int| #![trigger b[p]] 0 <= p < b.len() && p != t ==> b[p] == a[p]) && grown(a[t], m) && done(a[el], m, e.first, e.second, ds) && only_in_waiting(m, b[t]) && tk(b[t]) && (b[t]._in_waiting == 0 ==> b[t] == a[t]) && q2 == (if b[t]._in_waiting != m._in_waiting { q.push(t) } else { q }) }),
    ensures tks(b, s.len() as int), queued(b, q2), inq(q2, s.len() as int), rest(s, b, ds, term, el), started(s, b, init, term), b[el]._in_waiting == 0 ==> fin(s, b, el, k + 1, ds, term)
{ let e = s[el]._rules.elems[k]; let t = e.first._to; q_push(q, t); 
  assert forall|p: int| #![trigger b[p]] 0 <= p < b.len() implies more(a[p], b[p]) && tk(b[p]) by { let z = a[p]; }
  assert(queued(b, q2)) by { reveal(queued); assert forall|p: int| #![trigger b[p]] 0 <= p < b.len() && b[p]._in_waiting != 0 implies q2.contains(p) by { let z = a[p]; if p == t { if b[t]._in_waiting == m._in_waiting { assert(q.contains(t)); } } else { assert(q.contains(p)); } } }
  assert(rest(s, b, ds, term, el)) by { reveal(rest); assert forall|p: int| #![trigger b[p]] 0 <= p < s.len() && p != el && b[p]._in_waiting == 0 implies fin(s, b, p, s[p]._rules.elems.len() as int, ds, term) by { let z = a[p]; assert(b[p] == a[p]); fin_mono(s, a, b, p, s[p]._rules.elems.len() as int, ds, term); } }
  assert(started(s, b, init, term)) by { reveal(started); reveal(sup); assert forall|r: rule_t, x: int| #[trigger] has_label(s, init, r, x) && r._to != term implies b[r._to]._tos.contains(r._op_label) by { tgt(s, init, r, x); let z = b[r._to]; more_sup(a[r._to], b[r._to]); assert(a[r._to]._tos.contains(r._op_label)); } }
  if b[el]._in_waiting == 0 { assert(b[el] == a[el]) by { let z = b[el]; } fin_mono(s, a, b, el, k, ds, term); sup_refl(m._tos); sup_refl(m._stack); done_mono(a[el], m, b[t], e.first, e.second, ds);
    reveal(fin); assert forall|i: int| #![trigger s[el]._rules.elems[i]] 0 <= i < k + 1 && i < s[el]._rules.elems.len() && s[el]._rules.elems[i].first._to != term && nonempty(s[el]._rules.elems[i].second) implies done(b[el], b[s[el]._rules.elems[i].first._to], s[el]._rules.elems[i].first, s[el]._rules.elems[i].second, ds) by { if i < k { let y = s[el]._rules.elems[i]; } } } }
proof fn s_pass(s: Seq<vstate>, a: Seq<tos_t>, ds: bool, term: int, el: int, k: int) requires 0 <= el < s.len(), 0 <= k < s[el]._rules.elems.len(), fin(s, a, el, k, ds, term), s[el]._rules.elems[k].first._to == term || !nonempty(s[el]._rules.elems[k].second), ensures fin(s, a, el, k + 1, ds, term) { reveal(fin); }
proof fn s_done(s: Seq<vstate>, a: Seq<tos_t>, ds: bool, term: int, el: int) requires a.len() == s.len(), rest(s, a, ds, term, el), 0 <= el < s.len(), a[el]._in_waiting == 0 ==> fin(s, a, el, s[el]._rules.elems.len() as int, ds, term), ensures rest(s, a, ds, term, -1) { reveal(rest); assert forall|p: int| #![trigger a[p]] 0 <= p < s.len() && p != -1 && a[p]._in_waiting == 0 implies fin(s, a, p, s[p]._rules.elems.len() as int, ds, term) by { if p == el { } } }
proof fn is_done(a: tos_t, m: tos_t, r: rule_t, l: labels_t, ds: bool) requires (r._operation == NOOP() ==> forall|x: int| #[trigger] both(a, l, x) ==> m._tos.contains(x)), (hit(a, l) ==> (r._operation == POP() ==> (!ds ==> full(m._tos)) && (ds ==> sup(m._tos, a._stack))) && ((r._operation == PUSH() || r._operation == SWAP()) ==> m._tos.contains(r._op_label)) && (ds ==> sup(m._stack, a._stack)) && (ds && r._operation == PUSH() ==> sup(m._stack, a._tos))), ensures done(a, m, r, l, ds) { reveal(done); }
// ---- the approximation covers every run
proof fn s_run(s: Seq<vstate>, a: Seq<tos_t>, q: Seq<int>, ds: bool, init: int, b: int, term: int, c: Seq<Conf>, r: Seq<rule_t>, i: int)
    requires rsys(s), q.len() == 0, tks(a, s.len() as int), queued(a, q), rest(s, a, ds, term, -1), started(s, a, init, term), run(s, init, b, term, c, r), 0 <= i < r.len(), ensures cover(c[i].w, a[c[i].p], ds) decreases i
{ reveal(cover); if i > 0 { s_run(s, a, q, ds, init, b, term, c, r, i - 1); assert(at(s, init, b, term, c, r, i - 1)); assert(at(s, init, b, term, c, r, i)); let p = c[i - 1].p; let w = c[i - 1].w; let w2 = c[i].w; let g = r[i - 1]; let x = rd(c[i - 1], b); let k = find(s, p, g, x); tgt(s, p, g, x); let e = s[p]._rules.elems[k]; assert(ent_ok(e)); let t = g._to;
    if w.len() == 0 { reveal(started); assert(a[t]._tos.contains(g._op_label)); assert(w2[0] == g._op_label); }
    else { let ap = a[p]; let at_ = a[t]; assert(ap._in_waiting == 0) by { reveal(queued); if ap._in_waiting != 0 { assert(q.contains(p)); } } assert(nonempty(e.second)); assert(both(ap, e.second, x)); assert(hit(ap, e.second)) by { reveal(hit); }
      assert(done(ap, at_, g, e.second, ds)) by { reveal(rest); reveal(fin); assert(fin(s, a, p, s[p]._rules.elems.len() as int, ds, term)); }
      cover_step(ap, at_, g, e, ds, w); } } }
proof fn cover_step(a: tos_t, b: tos_t, g: rule_t, e: relem, ds: bool, w: Seq<int>) requires cover(w, a, ds), w.len() > 0, done(a, b, g, e.second, ds), hit(a, e.second), both(a, e.second, w[0]), ent_ok(e), e.first == g, ensures cover(after(g, w), b, ds)
{ reveal(cover); reveal(done); reveal(sup); reveal(full); let v = after(g, w); 
  if g._operation == POP() { assert forall|j: int| #![trigger v[j]] 0 <= j < v.len() implies v[j] == w[j + 1] by {} if v.len() > 0 { let y = w[1]; } if ds { assert forall|j: int| #![trigger v[j]] 1 <= j < v.len() implies b._stack.contains(v[j]) by { assert(a._stack.contains(w[j + 1])); } } }
  else if g._operation == SWAP() { assert(v[0] == g._op_label); assert forall|j: int| #![trigger v[j]] 1 <= j < v.len() implies v[j] == w[j] by {} if ds { assert forall|j: int| #![trigger v[j]] 1 <= j < v.len() implies b._stack.contains(v[j]) by { assert(a._stack.contains(w[j])); } } }
  else if g._operation == NOOP() { if ds { assert forall|j: int| #![trigger v[j]] 1 <= j < v.len() implies b._stack.contains(v[j]) by { assert(a._stack.contains(w[j])); } } }
  else { assert(v[0] == g._op_label); assert forall|j: int| #![trigger v[j]] 1 <= j < v.len() implies v[j] == w[j - 1] by {} if ds { assert forall|j: int| #![trigger v[j]] 1 <= j < v.len() implies b._stack.contains(v[j]) by { if j == 1 { assert(a._tos.contains(w[0])); } else { assert(a._stack.contains(w[j - 1])); } } } } }
// ---- compaction
proof fn c_start(o: Seq<relem>, t: Seq<int>, term: int) ensures part(o, o, 0, 0, t, term) { reveal(part); }
proof fn c_bounds(o: Seq<relem>, l: Seq<relem>, br: int, r: int, t: Seq<int>, term: int) requires part(o, l, br, r, t, term), ensures l.len() == o.len(), 0 <= br <= r <= o.len(), r < o.len() ==> l[r] == o[r] { reveal(part); if r < o.len() { let z = l[r]; } }
// entry r was narrowed to e; it is put at br if it is kept
proof fn c_step(o: Seq<relem>, l: Seq<relem>, l2: Seq<relem>, e: relem, br: int, br2: int, r: int, t: Seq<int>, term: int) requires part(o, l, br, r, t, term), r < o.len(), rules_wf(o), from(o[r], e), WTREQ forall|x: int| #[trigger] den(o[r].second, x) && wanted(o[r], t, term, x) ==> den(e.second, x),
      (br2 == br + 1 && l2.len() == l.len() && l2[br] == e && (forall|j: int| #![trigger l2[j]] 0 <= j < l2.len() && j != br && j != r ==> l2[j] == l[j])) || (br2 == br && l2.len() == l.len() && (forall|j: int| #![trigger l2[j]] 0 <= j < l2.len() && j != r ==> l2[j] == l[j]) && forall|x: int| 0 <= x < NL() ==> !#[trigger] den(e.second, x)),
    ensures part(o, l2, br2, r + 1, t, term)
{ reveal(part); reveal(from);
  assert forall|j: int| #![trigger l2[j]] r + 1 <= j < l2.len() implies l2[j] == o[j] by { assert(l2[j] == l[j]); }
  assert forall|j: int| #![trigger l2[j]] 0 <= j < br2 implies taken(o, l2[j], j, r + 1) by { if j < br { assert(l2[j] == l[j]); assert(taken(o, l[j], j, r)); let k = choose|k: int| #![trigger o[k]] j <= k < r && from(o[k], l[j]); assert(from(o[k], l2[j])); } else { assert(from(o[r], l2[j])); } }
  assert forall|i: int, j: int| #![trigger l2[i], l2[j]] 0 <= i < j < br2 implies rule_lt(l2[i].first, l2[j].first) by { assert(l2[i] == l[i]); if j < br { assert(l2[j] == l[j]); } else { assert(taken(o, l[i], i, r)); let k = choose|k: int| #![trigger o[k]] i <= k < r && from(o[k], l[i]); assert(rule_lt(o[k].first, o[r].first)); } }
  assert forall|k: int, x: int| #![trigger den(o[k].second, x)] 0 <= k < r + 1 && wanted(o[k], t, term, x) implies held(l2, br2, o[k].first, x) by { if k < r { assert(held(l, br, o[k].first, x)); let j = choose|j: int| #![trigger l[j]] 0 <= j < br && l[j].first == o[k].first && den(l[j].second, x); assert(l2[j] == l[j]); } else { assert(den(e.second, x)); assert(l2[br].first == o[r].first); } } }
proof fn c_sys(o: Seq<vstate>, c: Seq<vstate>, l: Seq<relem>, i: int, br: int, t: Seq<int>, term: int) requires rsys(o), but(o, c, i), 0 <= i < o.len(), part(o[i]._rules.elems, l, br, o[i]._rules.elems.len() as int, t, term), c[i]._rules.elems == l.subrange(0, br), ensures rsys(c), sub(o, c)
{ let ol = o[i]._rules.elems; let cl = c[i]._rules.elems; reveal(part); reveal(from); assert(st_ok(o, i));
  assert forall|j: int| 0 <= j < cl.len() implies #[trigger] cl[j] == l[j] by {}
  assert forall|j: int| #![trigger cl[j]] 0 <= j < cl.len() implies taken(ol, cl[j], 0, ol.len() as int) by { let z = l[j]; assert(taken(ol, l[j], j, ol.len() as int)); let k = choose|k: int| #![trigger ol[k]] j <= k < ol.len() && from(ol[k], l[j]); assert(from(ol[k], cl[j])); }
  assert forall|p: int| #![trigger c[p]] 0 <= p < c.len() implies st_ok(c, p) && c[p]._rules.elems.len() < 0x1_0000_0000_0000_0000 by { let z = o[p]; assert(st_ok(o, p)); if p == i { assert forall|j: int, k: int| #![trigger cl[j], cl[k]] 0 <= j < k < cl.len() implies rule_lt(cl[j].first, cl[k].first) by { assert(rule_lt(l[j].first, l[k].first)); } assert forall|j: int| #![trigger cl[j]] 0 <= j < cl.len() implies lab_wf(cl[j].second) by { assert(taken(ol, cl[j], 0, ol.len() as int)); } } }
  assert forall|p: int, j: int| #![trigger c[p]._rules.elems[j]] 0 <= p < c.len() && 0 <= j < c[p]._rules.elems.len() implies tgt_ok(c, p, j) && ent_ok(c[p]._rules.elems[j]) by { let z = c[p]; let y = o[p]; if p == i { assert(taken(ol, cl[j], 0, ol.len() as int)); let k = choose|k: int| #![trigger ol[k]] 0 <= k < ol.len() && from(ol[k], cl[j]); assert(tgt_ok(o, i, k)); assert(ent_ok(o[i]._rules.elems[k])); let u = c[cl[j].first._to]; } else { assert(tgt_ok(o, p, j)); assert(ent_ok(o[p]._rules.elems[j])); let u = c[o[p]._rules.elems[j].first._to]; } }
  reveal(sub);
  assert forall|p: int, r: rule_t| #[trigger] has_rule(c, p, r) implies has_rule(o, p, r) by { let z = c[p]; if p == i { let j = choose|j: int| #![trigger cl[j]] 0 <= j < cl.len() && cl[j].first == r; assert(taken(ol, cl[j], 0, ol.len() as int)); let k = choose|k: int| #![trigger ol[k]] 0 <= k < ol.len() && from(ol[k], cl[j]); assert(ol[k].first == r); } }
  assert forall|p: int, r: rule_t, x: int| #[trigger] has_label(c, p, r, x) implies has_label(o, p, r, x) by { let j = find(c, p, r, x); let z = c[p]; if p == i { assert(taken(ol, cl[j], 0, ol.len() as int)); let k = choose|k: int| #![trigger ol[k]] 0 <= k < ol.len() && from(ol[k], cl[j]); assert(den(cl[j].second, x)); found(o, i, k, x); } else { assert(o[p] == c[p]); } } }
proof fn c_keeps(s: Seq<vstate>, a: Seq<tos_t>, q: Seq<int>, ds: bool, o: Seq<vstate>, c: Seq<vstate>, l: Seq<relem>, i: int, br: int, init: int, term: int)
    requires rsys(s), q.len() == 0, tks(a, s.len() as int), queued(a, q), rest(s, a, ds, term, -1), started(s, a, init, term), sub(s, o), rsys(o), but(o, c, i), 0 <= i < o.len(), i != init, part(o[i]._rules.elems, l, br, o[i]._rules.elems.len() as int, a[i]._tos, term), c[i]._rules.elems == l.subrange(0, br), ensures keepi(o, c, init, term)
{ let ol = o[i]._rules.elems; let cl = c[i]._rules.elems;
  assert forall|b: int| #[trigger] keeps(o, c, init, b, term) by { assert forall|p: int, g: rule_t, x: int| #[trigger] used(o, init, b, term, p, g, x) implies has_label(c, p, g, x) by { let (cc, r, n) = choose|cc: Seq<Conf>, r: Seq<rule_t>, n: int| run(o, init, b, term, cc, r) && #[trigger] uses(cc, r, b, n, p, g, x);
    assert(at(o, init, b, term, cc, r, n)); let k = find(o, p, g, x);
    if p == i { lift(s, o, init, b, term, cc, r); s_run(s, a, q, ds, init, b, term, cc, r, n); reveal(cover); assert(x == cc[n].w[0]); assert(wanted(ol[k], a[i]._tos, term, x)); reveal(part); assert(den(ol[k].second, x)); assert(held(l, br, g, x)); let j = choose|j: int| #![trigger l[j]] 0 <= j < br && l[j].first == g && den(l[j].second, x); assert(cl[j] == l[j]); found(c, i, j, x); }
    else { let z = c[p]; assert(c[p] == o[p]); } } reveal(keeps); }
  reveal(keepi); }
proof fn dead_keeps(o: Seq<vstate>, c: Seq<vstate>, i: int, init: int, term: int) requires pda_wf(o), 0 <= i < o.len(), i != term, o[i]._rules.elems.len() == 0, c.len() == o.len(), forall|p: int, r: rule_t| #[trigger] has_rule(c, p, r) <==> has_rule(o, p, r) && p != i && r._to != i, forall|p: int, r: rule_t, x: int| #[trigger] has_label(c, p, r, x) <==> has_label(o, p, r, x) && p != i && r._to != i, ensures keepi(o, c, init, term), sub(o, c)
{ reveal(sub); assert forall|p: int, r: rule_t| #[trigger] has_rule(c, p, r) implies has_rule(o, p, r) by {}
  assert forall|b: int| #[trigger] keeps(o, c, init, b, term) by { assert forall|p: int, g: rule_t, x: int| #[trigger] used(o, init, b, term, p, g, x) implies has_label(c, p, g, x) by { let (cc, r, n) = choose|cc: Seq<Conf>, r: Seq<rule_t>, n: int| run(o, init, b, term, cc, r) && #[trigger] uses(cc, r, b, n, p, g, x); assert(at(o, init, b, term, cc, r, n)); let k = find(o, p, g, x); if g._to == i { assert(n + 1 < r.len()); assert(at(o, init, b, term, cc, r, n + 1)); let k2 = find(o, i, r[n + 1], rd(cc[n + 1], b)); } } reveal(keeps); } reveal(keepi); }
proof fn from_same(a: relem) requires lab_wf(a.second), lab_in(a.second, NL()), ensures from(a, a) { reveal(from); }
proof fn from_cut(a: relem, b: relem, t: Seq<int>) requires b.first == a.first, lab_wf(a.second), lab_wf(b.second), within(b.second._labels, NL()), b.second._wildcard ==> a.second._wildcard, forall|x: int| 0 <= x < NL() ==> (#[trigger] den(b.second, x) <==> (den(a.second, x) && t.contains(x))), ensures from(a, b)
{ reveal(from); assert forall|x: int| #[trigger] den(b.second, x) implies den(a.second, x) by { if !b.second._wildcard { let l = b.second._labels; let i = choose|i: int| 0 <= i < l.len() && l[i] == x; } } }
proof fn sup_refl(a: Seq<int>) ensures sup(a, a) { reveal(sup); }
proof fn sup_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>) requires sup(a, b), sup(b, c), ensures sup(a, c) { reveal(sup); assert forall|x: int| #[trigger] c.contains(x) implies a.contains(x) by { assert(b.contains(x)); } }
proof fn full_list(a: Seq<int>) requires sl(a), a.len() == NL(), ensures full(a) { reveal(full); complete(a, NL()); }
proof fn full_sup(a: Seq<int>, b: Seq<int>) requires full(a), sl(b), ensures sup(a, b) { reveal(full); reveal(sup); assert forall|x: int| #[trigger] b.contains(x) implies a.contains(x) by { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; } }
proof fn put1(a: Seq<int>, p: int, x: int) requires inc(a), 0 <= p <= a.len(), forall|j: int| #![trigger a[j]] 0 <= j < p ==> a[j] < x, forall|j: int| #![trigger a[j]] p <= j < a.len() ==> a[j] > x, ensures inc(a.insert(p, x)), sup(a.insert(p, x), a), a.insert(p, x).contains(x), within(a, NL()) && 0 <= x < NL() ==> within(a.insert(p, x), NL())
{ reveal(sup); let t = a.insert(p, x); assert(t[p] == x); assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies t[i] < t[j] by { let u = if i < p { i } else { i - 1 }; let v = if j < p { j } else { j - 1 }; if i != p { assert(t[i] == a[u]); } if j != p { assert(t[j] == a[v]); } }
  assert forall|y: int| #[trigger] a.contains(y) implies t.contains(y) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; if i < p { assert(t[i] == y); } else { assert(t[i + 1] == y); } }
  if within(a, NL()) && 0 <= x < NL() { assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies 0 <= t[i] < NL() by { if i < p { assert(t[i] == a[i]); } else if i > p { assert(t[i] == a[i - 1]); } } } }
proof fn above(a: Seq<int>, p: int, x: int) requires inc(a), 0 <= p <= a.len(), p < a.len() ==> a[p] > x, ensures forall|j: int| #![trigger a[j]] p <= j < a.len() ==> a[j] > x { assert forall|j: int| #![trigger a[j]] p <= j < a.len() implies a[j] > x by { if j > p { assert(a[p] < a[j]); } } }
// b[k] was found at it, or put there
proof fn upto_next(o: Seq<int>, a: Seq<int>, b: Seq<int>, it: int, k: int) requires inc(a), inc(b), upto(o, b, it, k), 0 <= k < b.len(), sup(a, o), 0 <= it < a.len(), a[it] == b[k], ensures upto(a, b, it, k + 1), upto(a, b, it + 1, k + 1)
{ reveal(upto); reveal(sup); assert forall|j: int| #![trigger b[j]] 0 <= j < k + 1 && j < b.len() implies a.contains(b[j]) by { if j < k { assert(o.contains(b[j])); } else { assert(a[it] == b[j]); } }
  if k + 1 < b.len() { assert(b[k] < b[k + 1]); assert forall|j: int| #![trigger a[j]] 0 <= j < it + 1 implies a[j] < b[k + 1] by { if j < it { assert(a[j] < a[it]); } } } }
proof fn upto_all(a: Seq<int>, b: Seq<int>, it: int) requires upto(a, b, it, b.len() as int), ensures sup(a, b) { reveal(upto); reveal(sup); assert forall|x: int| #[trigger] b.contains(x) implies a.contains(x) by { let j = choose|j: int| 0 <= j < b.len() && b[j] == x; } }
proof fn upto_start(a: Seq<int>, b: Seq<int>) ensures upto(a, b, 0, 0) { reveal(upto); }
proof fn upto_skip(a: Seq<int>, b: Seq<int>, it: int, k: int) requires upto(a, b, it, k), k < b.len(), it < a.len(), a[it] < b[k], ensures upto(a, b, it + 1, k) { reveal(upto); }
// a range of b put into a
proof fn splice(a: Seq<int>, b: Seq<int>, l: int, u: int, v: int) requires sl(a), sl(b), upto(a, b, l, u), 0 <= u <= v <= b.len(), forall|j: int| #![trigger b[j]] u <= j < v && l < a.len() ==> b[j] < a[l],
    ensures ({ let t = a.subrange(0, l) + b.subrange(u, v) + a.subrange(l, a.len() as int); sl(t) && sup(t, a) && upto(t, b, l, v) })
{ reveal(upto); reveal(sup); let t = a.subrange(0, l) + b.subrange(u, v) + a.subrange(l, a.len() as int); let n = v - u;
  assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies t[i] == (if i < l { a[i] } else if i < l + n { b[u + i - l] } else { a[i - n] }) by {}
  assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies t[i] < t[j] by { 
    if i < l { if j < l { assert(a[i] < a[j]); } else if j < l + n { assert(a[i] < b[u]); if j > l { assert(b[u] < b[u + j - l]); } } else { assert(a[i] < a[j - n]); } }
    else if i < l + n { if j < l + n { assert(b[u + i - l] < b[u + j - l]); } else { assert(b[u + i - l] < a[l]); if j - n > l { assert(a[l] < a[j - n]); } } }
    else { assert(a[i - n] < a[j - n]); } }
  assert forall|y: int| #[trigger] a.contains(y) implies t.contains(y) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; if i < l { assert(t[i] == y); } else { assert(t[i + n] == y); } }
  assert forall|j: int| #![trigger b[j]] 0 <= j < v && j < b.len() implies t.contains(b[j]) by { if j < u { assert(a.contains(b[j])); } else { assert(t[l + j - u] == b[j]); } }
  if v < b.len() { assert forall|j: int| #![trigger t[j]] 0 <= j < l implies t[j] < b[v] by { assert(a[j] < b[u]); if u < v { assert(b[u] < b[v]); } } } }
proof fn longer(a: Seq<int>, b: Seq<int>) requires inc(a), inc(b), sup(b, a), a.len() == b.len(), ensures a == b { reveal(sup); assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies b.contains(a[i]) by { assert(a.contains(a[i])); } same(a, b); }
proof fn act_step(a: Seq<int>, l: labels_t, k: int, r: int) requires inc(a), lab_wf(l), !l._wildcard, 0 <= k < a.len(), 0 <= r <= l._labels.len(), forall|j: int| #![trigger l._labels[j]] 0 <= j < r ==> l._labels[j] < a[k], r < l._labels.len() ==> l._labels[r] >= a[k],
    ensures r < l._labels.len() && l._labels[r] != a[k] ==> !den(l, a[k]), r == l._labels.len() ==> forall|j: int| #![trigger a[j]] k <= j < a.len() ==> !den(l, a[j]), k + 1 < a.len() ==> forall|j: int| #![trigger l._labels[j]] 0 <= j < r ==> l._labels[j] < a[k + 1]
{ if r < l._labels.len() && l._labels[r] != a[k] && den(l, a[k]) { let i = choose|i: int| 0 <= i < l._labels.len() && l._labels[i] == a[k]; if i > r { assert(l._labels[r] < l._labels[i]); } }
  if k + 1 < a.len() { assert(a[k] < a[k + 1]); }
  if r == l._labels.len() { assert forall|j: int| #![trigger a[j]] k <= j < a.len() implies !den(l, a[j]) by { if j > k { assert(a[k] < a[j]); } if den(l, a[j]) { let i = choose|i: int| 0 <= i < l._labels.len() && l._labels[i] == a[j]; } } } }
proof fn no_hit(a: tos_t, l: labels_t, n: int) requires inc(a._tos), forall|j: int| #![trigger a._tos[j]] 0 <= j < a._tos.len() ==> !den(l, a._tos[j]), ensures !hit(a, l) { reveal(hit); if hit(a, l) { let x = choose|x: int| #[trigger] both(a, l, x); let j = choose|j: int| 0 <= j < a._tos.len() && a._tos[j] == x; } }
"""


GR = "tk(this1) ;; grown(this0, this1) ;; told(result, this0, this1) ;; "
REQ = "tk(this0) ;; tk(prev0) ;; nl_ok() ;; all0 == NL() ;; lab_wf(labels0) ;; lab_in(labels0, NL())"
ONE = "upto(F, RNG, IT, K) ;; 0 <= IT <= F.len() ;; sl(F) ;; sup(F, THIS0) ;; (!CH ==> F == THIS0)"


def one(f, rng, it, k, ch, old): return ONE.replace('RNG', rng).replace('IT', it).replace('K', k).replace('CH', ch).replace('THIS0', old).replace('F', f)


# b[k] is in a or is put there
PUTN = """if IT < F.len() && F[IT] == RNG[K] { sup_refl(F); upto_next(F, F, RNG, IT, K); } else { let t_ = F.insert(IT, RNG[K]); assert(RNG[K] == RNG[K]); reveal(upto); above(F, IT, RNG[K]); put1(F, IT, RNG[K]); upto_next(F, t_, RNG, IT, K); sup_trans(t_, F, OLD); }"""


def TOS(R):
    ORD = 'all0 == NL() ;; nl_ok() ;; tk(this0) ;; tk(prev0)'
    U = 'only_stack(this0, this_)'
    fs = dict(name='forward_stack', fn=R + 'tos_t::forward_stack', params=['prev', 'all'], requires=ORD, ensures='tk(this1) ;; only_stack(this0, this1) ;; sup(this1._stack, this0._stack) ;; sup(this1._stack, prev0._stack) ;; !result ==> this1 == this0',
              loops={1: dict(inv=U + ' ;; 0 <= pid <= prev._stack.len() ;; 0 <= lid <= this_._stack.len() ;; upto(this_._stack, prev._stack, lid, pid) ;; sl(this_._stack) ;; sup(this_._stack, this0._stack)', ensures='pid == prev._stack.len() || lid == this_._stack.len()'), 2: '0 <= lid <= this_._stack.len() ;; upto(this_._stack, prev._stack, lid, pid)', 3: 'oid <= pid <= prev._stack.len() ;; forall|j: int| #![trigger prev._stack[j]] oid <= j < pid ==> prev._stack[j] < this_._stack[lid]'},
              hints={'begin': 'sup_refl(this0._stack); sup_refl(prev0._stack); if this0._stack.len() == NL() { full_list(this0._stack); full_sup(this0._stack, prev0._stack); } if prev0._stack.len() == NL() { full_list(prev0._stack); full_sup(prev0._stack, this0._stack); }', 'before loop 1': 'upto_start(this_._stack, prev._stack);', 'loop 2 begin': 'upto_skip(this_._stack, prev._stack, lid, pid);',
                     'after loop 2': 'raw:let ghost m_ = this_._stack; proof { sup_refl(m_); if lid < this_._stack.len() && this_._stack[lid] == prev._stack[pid] { upto_next(m_, m_, prev._stack, lid, pid); } }',
                     'after loop 3': 'splice(m_, prev._stack, lid, oid, pid);', 'loop 1 end': 'sup_trans(this_._stack, m_, this0._stack);',
                     'after loop 1': 'raw:let ghost n_ = this_._stack; proof { splice(n_, prev._stack, lid, pid, prev._stack.len() as int); let t_ = n_.subrange(0, lid) + prev._stack.subrange(pid, prev._stack.len() as int) + n_.subrange(lid, n_.len() as int); upto_all(t_, prev._stack, lid); sup_trans(t_, n_, this0._stack); }',
                     'return': 'if !result_ { longer(this0._stack, this_._stack); }'})
    act = dict(name='active', fn=R + 'tos_t::active', params=['prev', 'labels'], requires='tk(prev0) ;; lab_wf(labels0)', ensures='hit(prev0, labels0) ==> result',
               loops={1: dict(inv='match_ || (forall|j: int| #![trigger prev._tos[j]] 0 <= j < k1 ==> !den(labels, prev._tos[j]))', except_break='!match_ ;; 0 <= rit <= labels._labels.len() ;; forall|j: int| #![trigger labels._labels[j]] 0 <= j < rit && k1 < prev._tos.len() ==> labels._labels[j] < prev._tos[k1]', ensures='match_ || forall|j: int| #![trigger prev._tos[j]] 0 <= j < prev._tos.len() ==> !den(labels, prev._tos[j])'),
                      2: '0 <= rit <= labels._labels.len() ;; forall|j: int| #![trigger labels._labels[j]] 0 <= j < rit ==> labels._labels[j] < s'},
               hints={'return 1': 'reveal(hit); if hit(prev, labels) { let x = choose|x: int| #[trigger] both(prev, labels, x); }', 'after loop 2': 'act_step(prev._tos, labels, k1, rit);', 'after loop 1': 'if !match_ { no_hit(prev, labels, 0); }'})
    H = 'hit(prev0, labels0) ==> '
    FWD = 'sup(this1._stack, prev0._stack)'
    pop = dict(name='merge_pop', fn=R + 'tos_t::merge_pop', params=['prev', 'labels', 'ds', 'all'], requires=REQ, ensures=GR + H + '(!ds0 ==> full(this1._tos)) && (ds0 ==> sup(this1._tos, prev0._stack) && ' + FWD + ')',
               loops={1: 'only_tos(this0, this_) ;; 0 <= i <= all ;; this_._tos.len() == all ;; forall|j: int| #![trigger this_._tos[j]] 0 <= j < i ==> this_._tos[j] == j', 2: 'only_tos(c3_, this_) ;; ' + one('this_._tos', 'prev._stack', 'it', 'k2', 'changed', 'this0._tos'), 3: 'upto(this_._tos, prev._stack, it, k2) ;; 0 <= it <= this_._tos.len()'},
               hints={'begin': 'sup_refl(this0._tos); sup_refl(this0._stack); sup_refl(prev0._stack); if this0._tos.len() == NL() { full_list(this0._tos); full_sup(this0._tos, prev0._stack); } if prev0._stack.len() == NL() { full_list(prev0._stack); full_sup(prev0._stack, this0._tos); full_sup(prev0._stack, prev0._stack); }',
                      'after loop 1': 'full_list(this_._tos); full_sup(this_._tos, this0._tos);', 'after forward_stack 1': 'if prev._stack.len() == NL() { full_list(prev._stack); full_sup(prev._stack, this0._tos); full_sup(prev._stack, prev0._stack); } if this_._tos.len() == NL() { full_sup(this_._tos, prev._stack); }', 'before loop 2': 'upto_start(this_._tos, prev._stack);', 'loop 3 begin': 'upto_skip(this_._tos, prev._stack, it, k2);', 'after loop 3': PUTN.replace('F', 'this_._tos').replace('RNG', 'prev._stack').replace('IT', 'it').replace('K', 'k2').replace('OLD', 'this0._tos'), 'after loop 2': 'upto_all(this_._tos, prev._stack, it); sup_trans(this_._tos, prev._stack, prev0._stack);'})
    noop = dict(name='merge_noop', fn=R + 'tos_t::merge_noop', params=['prev', 'labels', 'ds', 'all'], requires=REQ, ensures=GR + '(forall|x: int| #[trigger] both(prev0, labels0, x) ==> this1._tos.contains(x)) ;; ' + H + '(ds0 ==> ' + FWD + ')',
                loops={1: 'only_tos(this0, this_) ;; ' + one('this_._tos', 'rng1_s', 'iit', 'k1', 'changed', 'this0._tos'), 2: 'upto(this_._tos, rng1_s, iit, k1) ;; 0 <= iit <= this_._tos.len()'},
                hints={'begin': 'sup_refl(this0._tos); sup_refl(this0._stack); reveal(hit);', 'before loop 1': 'upto_start(this_._tos, rng1_s);', 'loop 2 begin': 'upto_skip(this_._tos, rng1_s, iit, k1);', 'after loop 2': PUTN.replace('F', 'this_._tos').replace('RNG', 'rng1_s').replace('IT', 'iit').replace('K', 'k1').replace('OLD', 'this0._tos'), 'after loop 1': 'upto_all(this_._tos, rng1_s, iit); reveal(sup); assert forall|x: int| #[trigger] both(prev0, labels0, x) implies this_._tos.contains(x) by { assert(rng1_s.contains(x)); }'})
    swap = dict(name='merge_swap', fn=R + 'tos_t::merge_swap', params=['prev', 'op', 'labels', 'ds', 'all'], requires=REQ + ' ;; 0 <= op0 < NL()', ensures=GR + H + 'this1._tos.contains(op0) && (ds0 ==> ' + FWD + ')',
                hints={'begin': 'sup_refl(this0._tos); sup_refl(this0._stack);', 'after std_lower_bound 1': 'if lb1_ < this_._tos.len() && this_._tos[lb1_] == op { assert(this_._tos.contains(op)); } else { above(this_._tos, lb1_, op); put1(this_._tos, lb1_, op); }'})
    push = dict(name='merge_push', fn=R + 'tos_t::merge_push', params=['prev', 'op', 'labels', 'ds', 'all'], requires=REQ + ' ;; 0 <= op0 < NL()', ensures=GR + H + 'this1._tos.contains(op0) && (ds0 ==> ' + FWD + ' && sup(this1._stack, prev0._tos))',
                loops={1: 'only_stack(c2_, this_) ;; changed.0 == c1_.0 ;; (!changed.1 ==> !c1_.1) ;; ' + one('this_._stack', 'prev._tos', 'it', 'k1', 'changed.1', 'c2_._stack'), 2: 'upto(this_._stack, prev._tos, it, k1) ;; 0 <= it <= this_._stack.len()'},
                hints={'after merge_swap 1': 'sup_refl(c2_._stack); sup_refl(prev0._tos); if c2_._stack.len() == NL() { full_list(c2_._stack); full_sup(c2_._stack, prev0._tos); full_sup(c2_._stack, prev0._stack); } if prev._tos.len() == NL() { full_list(prev._tos); full_sup(prev._tos, prev0._tos); full_sup(prev._tos, c2_._stack); full_sup(prev._tos, this0._stack); full_sup(prev._tos, prev0._stack); }', 'before loop 1': 'upto_start(this_._stack, prev._tos);', 'loop 2 begin': 'upto_skip(this_._stack, prev._tos, it, k1);',
                       'after loop 2': PUTN.replace('F', 'this_._stack').replace('RNG', 'prev._tos').replace('IT', 'it').replace('K', 'k1').replace('OLD', 'c2_._stack'), 'after loop 1': 'upto_all(this_._stack, prev._tos, it); sup_trans(this_._stack, prev._tos, prev0._tos); sup_trans(this_._stack, c2_._stack, this0._stack); if hit(prev0, labels0) { sup_trans(this_._stack, c2_._stack, prev0._stack); }'})
    upd = dict(name='update_state', fn=R + 'tos_t::update_state', params=['n'], requires='tk(this0)', ensures='tk(this1) ;; only_in_waiting(this0, this1) ;; (n0.0 || n0.1 ==> this1._in_waiting != 0) ;; (this0._in_waiting != 0 ==> this1._in_waiting != 0) ;; (!n0.0 && !n0.1 ==> this1 == this0) ;; result == (this1._in_waiting != this0._in_waiting)',
               hints={'begin': 'bits();'})
    fs2 = same_object(fs, 'prev'); fs2['loops'][1]['inv'] += ' ;; this_ == this0 ;; lid <= pid'; fs2['loops'][2] += ' ;; lid <= pid'
    noop2 = same_object(noop, 'prev'); noop2['loops'][1] += ' ;; (labels._wildcard ==> this_._tos == rng1_s && iit <= k1)'; noop2['loops'][2] += ' ;; (labels._wildcard ==> iit <= k1)'
    return [upd, fs, act, pop, noop, swap, push, fs2] + [same_object(c, 'prev') for c in (pop, swap, push)] + [noop2]


PR = '0 <= s <= pda._states.len() ;; seen.len() == pda0._states.len() ;; rsys(pda._states) ;; pruned(pda0._states, pda._states, seen, s) ;; thinned(pda0._states, pda._states)'
PH = {'before loop 3': 'p_start(pda0._states, seen); thin_refl(pda0._states);', 'loop 3 begin': 'raw:let ghost m_ = pda._states; proof { reveal(pruned); }', 'loop 3 end': 'raw:proof { if !seen[s] { thin_sys(m_, pda._states); thin_trans(pda0._states, m_, pda._states); } p_step(pda0._states, m_, pda._states, seen, s); }'}


def contracts(w):
    W = 'pdaaal::verif::aw' if w else r'pdaaal::weight<void>'
    S = r'PDA<aw>' if w else r'PDA<weight<void'
    R = r'pdaaal::internal::Reducer::'
    out = [dict(c, proved_in='pda_' + 'uw'[w]) for c in P.contracts(w) if c['name'] in ('clear_state', 'vm_resize')]
    out += [dict(c, proved_in='labels') for c in L.CONTRACTS if c['name'] in ('lab_empty', 'lab_clear', 'lab_intersect', 'lab_noop_pre_filter', 'lab_wildcard', 'lab_labels')]
    out += [
        *TOS(R),
        dict(name='forwards', fn=R + 'forwards_prune', sig=S, params=['pda', 'init'], requires='rsys(pda0._states) ;; 0 <= init0 < pda0._states.len()', ensures='rsys(pda1._states) ;; sub(pda0._states, pda1._states) ;; forall|b: int, term: int| #[trigger] keeps(pda0._states, pda1._states, init0, b, term) ;; thinned(pda0._states, pda1._states)',
             loops={1: 'pda == pda0 ;; seen_q(seen, waiting, pda0._states.len() as int) ;; restf(pda0._states, seen, waiting, -1) ;; seen[init]', 2: 'pda == pda0 ;; seen_q(seen, waiting, pda0._states.len() as int) ;; restf(pda0._states, seen, waiting, el) ;; okf(pda0._states, seen, el, k2) ;; seen[init] ;; 0 <= el < pda0._states.len()',
                    3: PR},
             hints={'before loop 1': 'f_start(pda0._states, seen, init); assert(waiting =~= seq![init]);', 'loop 1 begin': 'f_take(pda0._states, seen, waiting);', 'loop 2 begin': 'assert(st_ok(pda0._states, el)); assert(tgt_ok(pda0._states, el, k2)); f_add(pda0._states, seen, waiting, el, pda0._states[el]._rules.elems[k2].first._to, k2);', 'loop 1 end': 'f_done(pda0._states, seen, waiting, el);', **PH, 'end': 'p_sub(pda0._states, pda._states, seen, s); f_keeps(pda0._states, pda._states, seen, waiting, init0);'}),
        dict(name='backwards', fn=R + 'backwards_prune', sig=S, params=['pda', 'term'], requires='rsys(pda0._states) ;; 0 <= term0 < pda0._states.len()', ensures='rsys(pda1._states) ;; sub(pda0._states, pda1._states) ;; forall|init: int, b: int| #[trigger] keeps(pda0._states, pda1._states, init, b, term0) ;; thinned(pda0._states, pda1._states)',
             loops={1: 'pda == pda0 ;; seen_q(seen, waiting, pda0._states.len() as int) ;; restb(pda0._states, seen, waiting, -1) ;; seen[term]', 2: 'pda == pda0 ;; seen_q(seen, waiting, pda0._states.len() as int) ;; restb(pda0._states, seen, waiting, el) ;; okb(pda0._states, seen, el, k2) ;; seen[term] ;; 0 <= el < pda0._states.len()',
                    3: PR},
             hints={'before loop 1': 'f_start(pda0._states, seen, term); assert(waiting =~= seq![term]);', 'loop 1 begin': 'f_take(pda0._states, seen, waiting);', 'loop 2 begin': 'assert(st_ok(pda0._states, el)); f_add(pda0._states, seen, waiting, el, pda0._states[el]._pre_states.elems[k2], k2);', 'loop 1 end': 'f_done(pda0._states, seen, waiting, el);', **PH, 'end': 'p_sub(pda0._states, pda._states, seen, s); b_keeps(pda0._states, pda._states, seen, waiting, term0);'}),
        dict(name='target_tos', fn=R + 'target_tos_prune', sig=S, params=['pda', 'term'], requires='rsys(pda0._states) ;; nl_ok()', ensures='rsys(pda1._states) ;; sub(pda0._states, pda1._states) ;; keep_all(pda0._states, pda1._states, term0)',
             loops={1: '0 <= t ;; pda == pda0 ;; in_waiting.len() == pda0._states.len() ;; inq(waiting, pda0._states.len() as int)', 2: 'rsys(pda._states) ;; sub(pda0._states, pda._states) ;; keep_all(pda0._states, pda._states, term) ;; pda._states.len() == pda0._states.len() ;; in_waiting.len() == pda0._states.len() ;; inq(waiting, pda0._states.len() as int)',
                    3: dict(inv='ssorted(usefull_tos, |a_: int, b_: int| a_ < b_)', except_break='within(usefull_tos, NL()) ;; !cont ;; covers(pda._states, s, usefull_tos, k3)', ensures='cont || (within(usefull_tos, NL()) && covers(pda._states, s, usefull_tos, k3) && k3 == rng3_s.len())'),
                    4: 'trimmed(m_, pda._states, s, usefull_tos) ;; pda._states.len() == pda0._states.len() ;; in_waiting.len() == pda0._states.len() ;; inq(waiting, pda0._states.len() as int)', 5: 'trimmed(m_, pda._states, s, usefull_tos) ;; pda._states.len() == pda0._states.len() ;; in_waiting.len() == pda0._states.len() ;; inq(waiting, pda0._states.len() as int) ;; rng5_s.len() == m_[pres]._rules.elems.len()'},
             hints={'begin': 'sub_refl(pda0._states); keep_all_refl(pda0._states, term0);', 'loop 2 begin': 'raw:let ghost m_ = pda._states; proof { assert(0 <= waiting[0] < pda0._states.len()); }', 'before loop 3': 'reveal(covers); assert(st_ok(m_, s));', 'loop 3 begin': 'raw:let ghost u_ = usefull_tos; proof { assert(lab_wf(m_[s]._rules.elems[k3].second)); assert(ent_ok(m_[s]._rules.elems[k3])); }',
                    'loop 3 end': 'let l_ = m_[s]._rules.elems[k3].second._labels; assert(l_.subrange(0, l_.len() as int) =~= l_); cov_step(m_, s, u_, usefull_tos, k3); cov_within(u_, l_, usefull_tos, NL());',
                    'before loop 4': 'trim_start(m_, s, usefull_tos); assert(st_ok(m_, s)); assert(inc(usefull_tos));', 'loop 4 begin': 'trim_at(m_, pda._states, s, usefull_tos, rng4_s[k4]);',
                    'loop 5 begin': 'raw:let ghost c_ = pda._states; proof { trim_at(m_, c_, s, usefull_tos, pres); let e_ = c_[pres]._rules.elems[k5]; assert(ent_ok(e_)); }',
                    'after lab_clear 1': 'shr_clear(c_[pres]._rules.elems[k5], pda._states[pres]._rules.elems[k5], s, usefull_tos); assert(pda._states[pres]._rules.elems =~= c_[pres]._rules.elems.update(k5, pda._states[pres]._rules.elems[k5])); trim_step(m_, c_, pda._states, s, usefull_tos, pres, k5);',
                    'after lab_noop_pre_filter 1': 'shr_noop(c_[pres]._rules.elems[k5], pda._states[pres]._rules.elems[k5], s, usefull_tos); assert(pda._states[pres]._rules.elems =~= c_[pres]._rules.elems.update(k5, pda._states[pres]._rules.elems[k5])); trim_step(m_, c_, pda._states, s, usefull_tos, pres, k5);',
                    'loop 5 end': 'trim_at(m_, pda._states, s, usefull_tos, pres);', 'loop 4 end': 'trim_at(m_, pda._states, s, usefull_tos, s);', 'after loop 4': 'trim_sys(m_, pda._states, s, usefull_tos); trim_keeps(m_, pda._states, s, usefull_tos, term); sub_trans(pda0._states, m_, pda._states); keep_all_trans(pda0._states, m_, pda._states, term);'}),
        dict(name='count', fn=R + 'size', sig=S, params=['pda', 'init', 'term'], requires='pda_wf(pda0._states) ;; 0 <= init0 < pda0._states.len()', ensures='true', loops={1: '1 <= sid', 2: '1 <= sid < pda._states.len()'}, hints={'loop 2 begin': 'assert(st_ok(pda._states, sid)); assert(lab_wf(pda._states[sid]._rules.elems[k2].second));'}),
        dict(name='reduce', fn=R + 'reduce', sig=S, params=['pda', 'strength', 'init', 'term'], requires='rsys(pda0._states) ;; nl_ok() ;; 0 <= init0 < pda0._states.len() ;; 0 <= term0 < pda0._states.len() ;; only_push(pda0._states, init0)', ensures='rsys(pda1._states) ;; sub(pda0._states, pda1._states) ;; keepi(pda0._states, pda1._states, init0, term0) ;; same_runs(pda0._states, pda1._states, init0, term0)',
             loops={1: 'pda._states == s2_ ;; tks(approximation, s2_.len() as int) ;; queued(approximation, waiting) ;; fresh(approximation) ;; inq(waiting, s2_.len() as int) ;; startk(s2_, approximation, init, term, k1)', 2: 'tks(approximation, p_.len() as int) ;; queued(approximation, waiting) ;; inq(waiting, p_.len() as int) ;; started(p_, approximation, init, term) ;; pda._states == p_ ;; rest(p_, approximation, ds, term, -1)', 3: 'tks(approximation, p_.len() as int) ;; queued(approximation, waiting) ;; inq(waiting, p_.len() as int) ;; started(p_, approximation, init, term) ;; pda._states == p_ ;; rest(p_, approximation, ds, term, el)' + ' ;; 0 <= el < p_.len() ;; 0 <= fit <= p_[el]._rules.elems.len() ;; (approximation[el]._in_waiting == 0 ==> fin(p_, approximation, el, fit, ds, term))',
                    4: '1 <= i ;; rsys(pda._states) ;; pda._states.len() == p_.len() ;; sub(p_, pda._states) ;; keepi(p_, pda._states, init, term)',
                    5: 'but(o_, pda._states, i) ;; 1 <= i < p_.len() ;; part(o_[i]._rules.elems, pda._states[i]._rules.elems, br, r, approximation[i]._tos, term) ;; pda._states[i]._rules.elems.len() == o_[i]._rules.elems.len() ;; 0 <= br <= r <= o_[i]._rules.elems.len()'},
             hints={'begin': 'sub_refl(pda0._states); keepi_refl(pda0._states, init0, term0); runs(pda0._states, pda0._states, init0, term0);', 'after forwards 1': 'raw:let ghost s1_ = pda._states; proof { keepi_f(pda0._states, s1_, init0, term0); }', 'after backwards 1': 'raw:let ghost s2_ = pda._states; proof { keepi_b(s1_, s2_, init0, term0); keepi_trans(pda0._states, s1_, s2_, init0, term0); sub_len(pda0._states, s2_); push_sub(pda0._states, s2_, init0); sub_refl(s2_); }',
                    'before loop 1': 's_start(s2_, approximation, init, term);', 'loop 1 begin': 'raw:let ghost a_ = approximation; let ghost q_ = waiting; proof { assert(st_ok(s2_, init)); assert(tgt_ok(s2_, init, k1)); let e_ = s2_[init]._rules.elems[k1]; assert(ent_ok(e_)); assert(lab_wf(e_.second)); assert(has_rule(s2_, init, e_.first)); let z_ = approximation[e_.first._to]; sup_refl(z_._tos); if e_.first._to == term || !nonempty(e_.second) { s_skip(s2_, a_, init, term, k1); } }',
                    'after std_lower_bound 1': 'if !(lb1_ < approximation[rng1_s[k1].first._to]._tos.len() && approximation[rng1_s[k1].first._to]._tos[lb1_] == rng1_s[k1].first._op_label) { let t_ = approximation[rng1_s[k1].first._to]._tos; above(t_, lb1_, rng1_s[k1].first._op_label); put1(t_, lb1_, rng1_s[k1].first._op_label); } else { assert(approximation[rng1_s[k1].first._to]._tos.contains(rng1_s[k1].first._op_label)); }',
                    'loop 1 end': 'let e_ = s2_[init]._rules.elems[k1]; if e_.first._to != term && nonempty(e_.second) { s_add(s2_, a_, approximation, q_, waiting, init, term, k1); }', 'after loop 1': 'raw:proof { s_end(s2_, s2_, approximation, ds, init, term); }',
                    'after target_tos 1': 'keepi_all(s2_, pda._states, init0, term0); keepi_trans(pda0._states, s2_, pda._states, init0, term0); s_end(s2_, pda._states, approximation, ds, init, term); sub_len(s2_, pda._states);',
                    'before loop 2': 'raw:let ghost p_ = pda._states;', 'loop 2 begin': 'raw:let ghost a_ = approximation; let ghost q_ = waiting; proof { assert(0 <= q_[0] < p_.len()); let z_ = approximation[q_[0]]; }', 'before loop 3': 's_take(p_, a_, approximation, q_, ds, term, init); assert(0 <= p_[el]._rules.elems.len());',
                    'loop 3 begin': 'raw:let ghost b_ = approximation; let ghost f_ = fit; let ghost mut m_ = approximation[el]; let ghost w_ = waiting; proof { assert(st_ok(p_, el)); assert(tgt_ok(p_, el, fit)); let e_ = p_[el]._rules.elems[fit]; assert(ent_ok(e_)); assert(lab_wf(e_.second)); let z_ = approximation[e_.first._to]; let y_ = approximation[el]; if approximation[el]._in_waiting == 0 && (e_.first._to == term || !nonempty(e_.second)) { s_pass(p_, approximation, ds, term, el, fit); } }',
                    'before update_state 2': 'raw:proof { m_ = approximation[p_[el]._rules.elems[fit].first._to]; let e_ = p_[el]._rules.elems[fit]; is_done(b_[el], m_, e_.first, e_.second, ds); }',
                    'loop 3 end': 'let e_ = p_[el]._rules.elems[f_]; if e_.first._to != term && nonempty(e_.second) { s_step(p_, b_, approximation, w_, waiting, ds, term, init, el, f_, m_); }', 'after loop 3': 's_done(p_, approximation, ds, term, el);',
                    'before loop 4': 'raw:let ghost sa_ = approximation; proof { sub_refl(p_); keepi_refl(p_, init, term); }', 'loop 4 begin': 'raw:let ghost o_ = pda._states; proof { let z_ = approximation[i]; assert(st_ok(o_, i)); }', 'before loop 5': 'c_start(o_[i]._rules.elems, approximation[i]._tos, term);',
                    'loop 5 begin': 'raw:let ghost l_ = pda._states[i]._rules.elems; let ghost r_0 = br; proof { c_bounds(o_[i]._rules.elems, l_, br, r, approximation[i]._tos, term); assert(lab_wf(o_[i]._rules.elems[r].second)); assert(ent_ok(o_[i]._rules.elems[r])); from_same(o_[i]._rules.elems[r]); }',
                    'loop 5 end': 'let e_ = if br == r_0 { pda._states[i]._rules.elems[r] } else { pda._states[i]._rules.elems[r_0] }; if o_[i]._rules.elems[r].first._to != term { from_cut(o_[i]._rules.elems[r], e_, approximation[i]._tos); } c_step(o_[i]._rules.elems, l_, pda._states[i]._rules.elems, e_, r_0, br, r, approximation[i]._tos, term); c_bounds(o_[i]._rules.elems, pda._states[i]._rules.elems, br, r + 1, approximation[i]._tos, term);',
                    'after loop 5': 'raw:let ghost l2_ = pda._states[i]._rules.elems; let ghost d_ = pda._states;', 'after vm_resize 1': 'raw:let ghost v_ = pda._states; proof { c_sys(o_, v_, l2_, i, br, approximation[i]._tos, term); c_keeps(p_, approximation, waiting, ds, o_, v_, l2_, i, br, init, term); keepi_trans(p_, o_, v_, init, term); }',
                    'after clear_state 1': 'thin_sys(v_, pda._states); dead_keeps(v_, pda._states, i, init, term); keepi_trans(p_, v_, pda._states, init, term);',
                    'after loop 4': 'raw:let ghost e1_ = pda._states; proof { keepi_trans(pda0._states, p_, e1_, init, term); }', 'after backwards 2': 'raw:let ghost e2_ = pda._states; proof { keepi_b(e1_, e2_, init0, term0); keepi_trans(pda0._states, e1_, e2_, init0, term0); sub_len(pda0._states, e2_); }',
                    'after target_tos 2': 'keepi_all(e2_, pda._states, init0, term0); keepi_trans(pda0._states, e2_, pda._states, init0, term0); sub_len(pda0._states, pda._states);', 'return 2': 'runs(pda0._states, pda._states, init0, term0);'}),
    ]
    return out


def config(w):
    W = r'((pdaaal::)?(verif::)?aw(, void)?|(pdaaal::)?weight<void(, void)?>)'
    RT = r'(const )?(pdaaal::)?(internal::)?pda_rule_t<' + W + '(, void)?>'
    F = r'(pdaaal::)?(fut::)?(detail::)?fut_set<(std::)?tuple<' + RT + ', (pdaaal::)?(internal::)?labels_t>, '
    VEC = r'(\(type\)1|(pdaaal::)?(fut::)?type::vector|1)'
    q = 'pdaaal::verif::aw' if w else 'pdaaal::weight<void>'
    vm = lambda T, m=None: T.parse('pdaaal::fut::vector_map<pdaaal::internal::pda_rule_t<%s>, pdaaal::internal::labels_t>' % q)
    from vtypes import Ty
    return dict(types=[(F + VEC + '>', vm)] + ([(r'(pdaaal::)?(verif::)?wt_t', lambda T, m: Ty('raw', name='WtT'))] if w else []),
                rec_types=[(r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::internal::pda_rule_t<%s>, pdaaal::internal::labels_t>, 1>' % q, lambda T: vm(T))],
                raw_less={'WtT': 'wt_lt'},
                rec_names={r'.*pda_rule_t<.*>': 'rule_t', r'.*vector_map<.*labels_t>::elem_t': 'relem', r'.*vector_map<.*labels_t>': 'rmap', r'.*PDA<.*, 1>::state_t': 'vstate', r'.*PDA<.*, 1>': 'vpda', r'.*Reducer::tos_t': 'tos_t'},
                builtins=[(r'.*internal::PDA<.*>::number_of_labels', lambda fn, d, n, args, want, me, th: 'NL()'),
                          (r'.*aw::zero', lambda fn, d, n, args, want, me, th: 'wt_zero()')])


def make(w):
    def unit(ast): return Unit('reduce_' + 'uw'[w], 'reduce.cpp', contracts(w), config(w), spec(w), LABL + LEMMAS.replace('ORDREQ', 'requires wt_order(),' if w else '').replace('WTREQ', 'wt_order(),' if w else ''), ast)
    return unit
