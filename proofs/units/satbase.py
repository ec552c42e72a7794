"""Shared by the saturation units (S01, S02): the automaton as an edge relation, the pushdown system and its runs, edge insertion."""
from vtypes import Ty
import proofs.units.pda as P

SPEC = '\n'.join(l for l in P.spec(0).split('\n') if 'hstate' not in l and 'urule_t' not in l) + r'''
pub uninterp spec fn nlabels(p: vpda) -> int;
// the stop condition answered true for this edge at some time
pub uninterp spec fn said(p: int, x: int, q: int) -> bool;
#[verifier::external_body] fn std_callback(Ghost(p): Ghost<int>, Ghost(x): Ghost<int>, Ghost(q): Ghost<int>) -> (r: Ghost<bool>) ensures r@ ==> said(p, x, q) { unimplemented!() }
pub open spec fn PUSH() -> int { 1 }
pub open spec fn POP() -> int { 2 }
pub open spec fn SWAP() -> int { 4 }
pub open spec fn NOOP() -> int { 8 }
pub type Aut = Seq<astate>;
pub type Sys = Seq<vstate>;
pub type Word = Seq<int>;
// ---- the automaton as an edge relation
pub open spec fn linc(s: Seq<lelem>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].first < s[j].first }
pub open spec fn lhas(s: Seq<lelem>, x: int) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == x }
pub open spec fn ehas(e: edges_t, x: int, q: int) -> bool { e.elems.dom().contains(q) && lhas(e.elems[q].elems, x) }
pub open spec fn e_ok(e: edges_t) -> bool { forall|q: int| #[trigger] e.elems.dom().contains(q) ==> linc(e.elems[q].elems) }
#[verifier::opaque]
pub open spec fn edge(A: Aut, p: int, x: int, q: int) -> bool { 0 <= p < A.len() && ehas(A[p]._edges, x, q) }
pub open spec fn a_ok(A: Aut) -> bool { forall|p: int| #![trigger A[p]] 0 <= p < A.len() ==> A[p]._id == p && e_ok(A[p]._edges) }
pub open spec fn in_range(A: Aut, nl: int) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) ==> 0 <= q < A.len() && 0 <= x < nl && 0 <= p < A.len() }
pub open spec fn acc(A: Aut, p: int) -> bool { 0 <= p < A.len() && A[p]._accepting }
pub open spec fn same_acc(A: Aut, B: Aut) -> bool { A.len() == B.len() && forall|p: int| #[trigger] acc(A, p) == acc(B, p) }
pub open spec fn path(A: Aut, p: int, w: Word, q: int) -> bool decreases w.len() { if w.len() == 0 { p == q } else { exists|m: int| #[trigger] edge(A, p, w[0], m) && path(A, m, w.drop_first(), q) } }
pub open spec fn acc_at(A: Aut, p: int, w: Word, q: int) -> bool { path(A, p, w, q) && acc(A, q) }
// the automaton accepts the configuration with state p and stack w (top first)
pub open spec fn accepts(A: Aut, p: int, w: Word) -> bool { exists|q: int| #[trigger] acc_at(A, p, w, q) }
// ---- the pushdown system
pub open spec fn lab_in(l: labels_t, nl: int) -> bool { l._wildcard || within(l._labels, nl) }
pub open spec fn sys_ok(s: Sys, nl: int) -> bool { pda_wf(s) && fits(s) && 0 <= nl < 0xffff_ffff && forall|p: int, i: int| #![trigger s[p]._rules.elems[i]] 0 <= p < s.len() && 0 <= i < s[p]._rules.elems.len() ==> lab_in(s[p]._rules.elems[i].second, nl) && op_ok(s[p]._rules.elems[i].first) }
pub open spec fn op_ok(r: rule_t) -> bool { (r._operation == PUSH() || r._operation == POP() || r._operation == SWAP() || r._operation == NOOP()) && r._op_label >= 0 }
// rule r of state p reads x
pub open spec fn reads(s: Sys, nl: int, p: int, r: rule_t, x: int) -> bool { has_label(s, p, r, x) && 0 <= x < nl }
pub open spec fn top(x: int, w: Word) -> Word { seq![x] + w }
pub open spec fn after(r: rule_t, w: Word) -> Word { if r._operation == POP() { w.drop_first() } else if r._operation == SWAP() { top(r._op_label, w.drop_first()) } else if r._operation == NOOP() { w } else { top(r._op_label, w) } }
// one rule application
pub open spec fn app(s: Sys, nl: int, p: int, w: Word, r: rule_t, p2: int, w2: Word) -> bool { w.len() > 0 && reads(s, nl, p, r, w[0]) && p2 == r._to && w2 == after(r, w) }
pub open spec fn moves(s: Sys, nl: int, p: int, w: Word, p2: int, w2: Word) -> bool { exists|r: rule_t| #[trigger] app(s, nl, p, w, r, p2, w2) }
pub open spec fn runs(s: Sys, nl: int, p: int, w: Word, p2: int, w2: Word, n: nat) -> bool decreases n { if n == 0 { p == p2 && w == w2 } else { exists|p1: int, w1: Word| #[trigger] moves(s, nl, p, w, p1, w1) && runs(s, nl, p1, w1, p2, w2, (n - 1) as nat) } }
#[verifier::opaque]
pub open spec fn leads(s: Sys, nl: int, p: int, w: Word, p2: int, w2: Word) -> bool { exists|n: nat| #[trigger] runs(s, nl, p, w, p2, w2, n) }
pub open spec fn from_to(s: Sys, nl: int, A: Aut, p: int, w: Word, p2: int, w2: Word) -> bool { leads(s, nl, p, w, p2, w2) && accepts(A, p2, w2) }
// some run leads from the configuration to one accepted by A
pub open spec fn pred(s: Sys, nl: int, A: Aut, p: int, w: Word) -> bool { exists|p2: int, w2: Word| #[trigger] from_to(s, nl, A, p, w, p2, w2) }
pub open spec fn exact_pre(s: Sys, nl: int, A: Aut, B: Aut) -> bool { forall|p: int, w: Word| 0 <= p < s.len() ==> (#[trigger] accepts(B, p, w) <==> pred(s, nl, A, p, w)) }
// no edges into system states
pub open spec fn no_in(A: Aut, n: int) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) ==> q >= n }
pub open spec fn incl(A: Aut, B: Aut) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) ==> edge(B, p, x, q) }
pub open spec fn told_at(A: Aut, B: Aut, p: int, x: int, q: int) -> bool { edge(B, p, x, q) && !edge(A, p, x, q) && said(p, x, q) }
// the stop condition was reported for an edge that was added
pub open spec fn told(A: Aut, B: Aut) -> bool { exists|p: int, x: int, q: int| #[trigger] told_at(A, B, p, x, q) }
pub open spec fn rl(s: Sys, p: int, i: int) -> rule_t { s[p]._rules.elems[i].first }
pub open spec fn is_rl(s: Sys, p: int, i: int) -> bool { 0 <= p < s.len() && 0 <= i < s[p]._rules.elems.len() }
// entry i of state p reads x
pub open spec fn rd(s: Sys, nl: int, p: int, i: int, x: int) -> bool { is_rl(s, p, i) && den(s[p]._rules.elems[i].second, x) && 0 <= x < nl }
'''
LEMMAS = r'''
// ---- paths and runs
proof fn path_cat(A: Aut, p: int, u: Word, m: int, v: Word, q: int) requires path(A, p, u, m), path(A, m, v, q), ensures path(A, p, u + v, q) decreases u.len()
{ if u.len() == 0 { assert(u + v =~= v); } else { let k = choose|k: int| #[trigger] edge(A, p, u[0], k) && path(A, k, u.drop_first(), m); path_cat(A, k, u.drop_first(), m, v, q); assert((u + v).drop_first() =~= u.drop_first() + v); assert((u + v)[0] == u[0]); } }
proof fn path_one(A: Aut, p: int, x: int, q: int) requires edge(A, p, x, q), ensures path(A, p, seq![x], q) { let w = seq![x]; assert(w[0] == x); assert(path(A, q, w.drop_first(), q)); }
proof fn lead_refl(s: Sys, nl: int, p: int, w: Word) ensures leads(s, nl, p, w, p, w) { reveal(leads); assert(runs(s, nl, p, w, p, w, 0)); }
proof fn lead_first(s: Sys, nl: int, p: int, w: Word, p1: int, w1: Word, p2: int, w2: Word) requires moves(s, nl, p, w, p1, w1), leads(s, nl, p1, w1, p2, w2), ensures leads(s, nl, p, w, p2, w2)
{ reveal(leads); let n = choose|n: nat| #[trigger] runs(s, nl, p1, w1, p2, w2, n); assert(runs(s, nl, p, w, p2, w2, (n + 1) as nat)); }
proof fn run_cat(s: Sys, nl: int, p: int, w: Word, p1: int, w1: Word, p2: int, w2: Word, n: nat) requires runs(s, nl, p, w, p1, w1, n), leads(s, nl, p1, w1, p2, w2), ensures leads(s, nl, p, w, p2, w2) decreases n
{ if n > 0 { let (a, u) = choose|a: int, u: Word| #[trigger] moves(s, nl, p, w, a, u) && runs(s, nl, a, u, p1, w1, (n - 1) as nat); run_cat(s, nl, a, u, p1, w1, p2, w2, (n - 1) as nat); lead_first(s, nl, p, w, a, u, p2, w2); } }
proof fn lead_cat(s: Sys, nl: int, p: int, w: Word, p1: int, w1: Word, p2: int, w2: Word) requires leads(s, nl, p, w, p1, w1), leads(s, nl, p1, w1, p2, w2), ensures leads(s, nl, p, w, p2, w2)
{ let n = { reveal(leads); choose|n: nat| #[trigger] runs(s, nl, p, w, p1, w1, n) }; run_cat(s, nl, p, w, p1, w1, p2, w2, n); }
// a run stays a run with more below it on the stack
proof fn run_below(s: Sys, nl: int, p: int, w: Word, p2: int, w2: Word, v: Word, n: nat) requires runs(s, nl, p, w, p2, w2, n), ensures runs(s, nl, p, w + v, p2, w2 + v, n) decreases n
{ if n > 0 { let (a, u) = choose|a: int, u: Word| #[trigger] moves(s, nl, p, w, a, u) && runs(s, nl, a, u, p2, w2, (n - 1) as nat); run_below(s, nl, a, u, p2, w2, v, (n - 1) as nat);
    let r = choose|r: rule_t| #[trigger] app(s, nl, p, w, r, a, u); assert((w + v).drop_first() =~= w.drop_first() + v); assert((w + v)[0] == w[0]); assert(after(r, w + v) =~= u + v); assert(app(s, nl, p, w + v, r, a, u + v)); assert(moves(s, nl, p, w + v, a, u + v)); } }
proof fn lead_below(s: Sys, nl: int, p: int, w: Word, p2: int, w2: Word, v: Word) requires leads(s, nl, p, w, p2, w2), ensures leads(s, nl, p, w + v, p2, w2 + v)
{ reveal(leads); let n = choose|n: nat| #[trigger] runs(s, nl, p, w, p2, w2, n); run_below(s, nl, p, w, p2, w2, v, n); }
proof fn told_up(A: Aut, B: Aut, C: Aut, D: Aut) requires told(B, C), incl(A, B), incl(C, D), ensures told(A, D)
{ let (p, x, q) = choose|p: int, x: int, q: int| #[trigger] told_at(B, C, p, x, q); assert(edge(C, p, x, q) && edge(D, p, x, q)); assert(told_at(A, D, p, x, q)); }
proof fn incl_trans(A: Aut, B: Aut, C: Aut) requires incl(A, B), incl(B, C), ensures incl(A, C) { assert forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) implies edge(C, p, x, q) by { assert(edge(B, p, x, q)); } }
proof fn acc_trans(A: Aut, B: Aut, C: Aut) requires same_acc(A, B), same_acc(B, C), ensures same_acc(A, C) { assert forall|p: int| #[trigger] acc(A, p) == acc(C, p) by { assert(acc(A, p) == acc(B, p)); } }
proof fn rd_reads(s: Sys, nl: int, p: int, i: int, x: int) requires rd(s, nl, p, i, x), ensures reads(s, nl, p, rl(s, p, i), x) { let e = s[p]._rules.elems; assert(e[i].first == rl(s, p, i)); }
proof fn rule_tgt(s: Sys, nl: int, p: int, r: rule_t, x: int) requires pda_wf(s), reads(s, nl, p, r, x), ensures 0 <= p < s.len(), 0 <= r._to < s.len()
{ let e = s[p]._rules.elems; let i = choose|i: int| #![trigger e[i]] 0 <= i < e.len() && e[i].first == r && den(e[i].second, x); assert(tgt_ok(s, p, i)); }
proof fn ops(s: Sys, nl: int) requires sys_ok(s, nl), ensures forall|p: int, r: rule_t, x: int| #[trigger] reads(s, nl, p, r, x) ==> op_ok(r)
{ assert forall|p: int, r: rule_t, x: int| #[trigger] reads(s, nl, p, r, x) implies op_ok(r) by { let e = s[p]._rules.elems; let i = choose|i: int| #![trigger e[i]] 0 <= i < e.len() && e[i].first == r && den(e[i].second, x); assert(op_ok(s[p]._rules.elems[i].first)); } }
proof fn lm_put(s: Seq<lelem>, t: Seq<lelem>, k: int, x: int, v: trace_t) requires linc(s), 0 <= k <= s.len(), t == s.insert(k, lelem { first: x, second: v }), forall|i: int| #![trigger s[i]] 0 <= i < k ==> s[i].first < x, forall|i: int| #![trigger s[i]] k <= i < s.len() ==> s[i].first > x, ensures linc(t), !lhas(s, x), forall|y: int| #[trigger] lhas(t, y) <==> lhas(s, y) || y == x
{ assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies t[i].first < t[j].first by { let a = if i < k { i } else { i - 1 }; let b = if j < k { j } else { j - 1 }; if i != k { assert(t[i] == s[a]); } if j != k { assert(t[j] == s[b]); } }
  assert forall|y: int| #[trigger] lhas(t, y) <==> lhas(s, y) || y == x by { if lhas(t, y) { let i = choose|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i].first == y; if i < k { assert(s[i].first == y); } else if i > k { assert(s[i - 1].first == y); } } if lhas(s, y) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == y; if i < k { assert(t[i].first == y); } else { assert(t[i + 1].first == y); } } if y == x { assert(t[k].first == y); } } }
proof fn put_edge(A: Aut, B: Aut, a: int, y: int, b: int) requires a_ok(A), 0 <= a < A.len(), B == A.update(a, B[a]), B[a]._id == A[a]._id, B[a]._accepting == A[a]._accepting, e_ok(B[a]._edges), forall|x: int, q: int| #[trigger] ehas(B[a]._edges, x, q) <==> ehas(A[a]._edges, x, q) || (x == y && q == b), ensures a_ok(B), same_acc(A, B), edge(A, a, y, b) == ehas(A[a]._edges, y, b), forall|p: int, x: int, q: int| #[trigger] edge(B, p, x, q) <==> edge(A, p, x, q) || (p == a && x == y && q == b)
{ reveal(edge); assert(B.len() == A.len()); assert forall|p: int| #![trigger B[p]] 0 <= p < B.len() implies B[p]._id == p && e_ok(B[p]._edges) by { let z = A[p]; }
  assert forall|p: int| #[trigger] acc(A, p) == acc(B, p) by { if 0 <= p < A.len() && p != a { assert(B[p] == A[p]); } }
  assert forall|p: int, x: int, q: int| #[trigger] edge(B, p, x, q) <==> edge(A, p, x, q) || (p == a && x == y && q == b) by { if 0 <= p < A.len() && p != a { assert(B[p] == A[p]); } } }
proof fn entries_ok(s: Sys, nl: int, p: int) requires sys_ok(s, nl), 0 <= p < s.len(), ensures rules_wf(s[p]._rules.elems), s[p]._rules.elems.len() < 0x1_0000_0000_0000_0000, forall|i: int| #![trigger s[p]._rules.elems[i]] 0 <= i < s[p]._rules.elems.len() ==> op_ok(s[p]._rules.elems[i].first) && lab_wf(s[p]._rules.elems[i].second) && lab_in(s[p]._rules.elems[i].second, nl)
{ assert(st_ok(s, p)); }
proof fn sub_path(A: Aut, B: Aut, p: int, w: Word, q: int) requires incl(A, B), path(A, p, w, q), ensures path(B, p, w, q) decreases w.len()
{ if w.len() > 0 { let m = choose|m: int| #[trigger] edge(A, p, w[0], m) && path(A, m, w.drop_first(), q); sub_path(A, B, m, w.drop_first(), q); assert(edge(B, p, w[0], m)); } }
'''
V = r'pdaaal::weight<void>'
AU = r'pdaaal::internal::PAutomaton<%s, 0>::' % V
VM = r'pdaaal::fut::vector_map<pdaaal::internal::pda_rule_t<%s>, pdaaal::internal::labels_t>::' % V
LM = r'pdaaal::fut::vector_map<unsigned int, pdaaal::internal::trace_t>::'
FE = r'pdaaal::fut::detail::fut_set<std::tuple<unsigned long, unsigned int, pdaaal::internal::trace_t>, 0, 1>::'


def _callback(fn, n, a, want):
    v = fn.rvs(a[1:4]); t = fn.t(); fn.emit('let Ghost(%s) = std_callback(Ghost(%s), Ghost(%s), Ghost(%s));' % (t, *v)); return t



CONTRACTS = [
    dict(name='lab_contains', fn=r'pdaaal::internal::labels_t::contains', params=['label'], requires='lab_wf(this0)', ensures='result == den(this0, label0)'),
    dict(name='rules_lb', fn=VM + 'lower_bound', params=['key'], requires='rules_wf(this0.elems)', ensures='0 <= result <= this0.elems.len() ;; forall|j: int| #![trigger this0.elems[j]] 0 <= j < result ==> rule_lt(this0.elems[j].first, key0) ;; forall|j: int| #![trigger this0.elems[j]] result <= j < this0.elems.len() ==> !rule_lt(this0.elems[j].first, key0)'),
    dict(name='lm_emplace', fn=LM + 'emplace', params=['key', 'val'], requires='linc(this0.elems)', ensures='linc(this1.elems) ;; result.1 == !lhas(this0.elems, key0) ;; forall|x: int| #[trigger] lhas(this1.elems, x) <==> lhas(this0.elems, x) || x == key0 ;; !result.1 ==> this1 == this0',
         hints={'return 1': 'lm_put(this0.elems, this_.elems, lb, key0, val0);', 'return 2': 'assert(this_.elems[lb].first == key0);'}),
    dict(name='edges_emplace', fn=FE + 'emplace', params=['head', 'args', 'args2'], requires='e_ok(this0)', ensures='e_ok(this1) ;; result.1 == !ehas(this0, args0, head0) ;; forall|x: int, q: int| #[trigger] ehas(this1, x, q) <==> ehas(this0, x, q) || (x == args0 && q == head0)'),
    dict(name='emplace_edge', fn=AU + 'emplace_edge', params=['from', 'label', 'to', 'trace'], requires='a_ok(this0._states) ;; 0 <= from0 < this0._states.len()', ensures='a_ok(this1._states) ;; same_acc(this0._states, this1._states) ;; this1._pda == this0._pda ;; result.1 == !edge(this0._states, from0, label0, to0) ;; forall|p: int, x: int, q: int| #[trigger] edge(this1._states, p, x, q) <==> edge(this0._states, p, x, q) || (p == from0 && x == label0 && q == to0)',
         hints={'return': 'put_edge(this0._states, this_._states, from0, label0, to0);'}),
]


W = r'(pdaaal::)?weight<void(, void)?>'
RT = r'(const )?(pdaaal::)?(internal::)?pda_rule_t<' + W + '(, void)?>'
FR = r'(pdaaal::)?(fut::)?(detail::)?fut_set<(std::)?tuple<' + RT + ', (pdaaal::)?(internal::)?labels_t>, '
FL = r'(pdaaal::)?(fut::)?(detail::)?fut_set<(std::)?tuple<(unsigned int|uint32_t), (pdaaal::)?(internal::)?trace_t>, '
VEC = r'(\(type\)1|(pdaaal::)?(fut::)?type::vector|1)>'
vm = lambda T, m=None: T.parse('pdaaal::fut::vector_map<pdaaal::internal::pda_rule_t<%s>, pdaaal::internal::labels_t>' % V)
lm = lambda T, m=None: T.parse('pdaaal::fut::vector_map<unsigned int, pdaaal::internal::trace_t>')


def config():
    return dict(types=[(r'(pdaaal::)?(internal::)?early_termination_fn2?<.*>', lambda T, m: Ty('fn', name='et')), (FR + VEC, vm), (FL + VEC, lm)],
                rec_types=[(r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::internal::pda_rule_t<%s>, pdaaal::internal::labels_t>, 1>' % V, lambda T: vm(T)), (r'pdaaal::fut::detail::fut_set<std::tuple<unsigned int, pdaaal::internal::trace_t>, 1>', lambda T: lm(T))],
                rec_names={r'.*pda_rule_t<.*>': 'rule_t', r'.*vector_map<.*labels_t>::elem_t': 'relem', r'.*vector_map<.*labels_t>': 'rmap', r'.*PDA<.*, 1>::state_t': 'vstate', r'.*PDA<.*, 1>': 'vpda',
                           r'.*PAutomaton<.*>::state_t': 'astate', r'.*PAutomaton<.*>': 'paut', r'.*vector_map<unsigned int, .*trace_t>::elem_t': 'lelem', r'.*vector_map<unsigned int, .*trace_t>': 'lmap', r'.*fut_set<.*unsigned long, unsigned int.*>': 'edges_t', r'.*PreStarSaturation<.*>': 'psat'},
                builtins=[(r'.*internal::PDA<.*>::number_of_labels', lambda fn, d, n, args, want, me, th: 'nlabels(%s)' % fn.read(fn.objplace(me)))],
                call_fn=_callback)
