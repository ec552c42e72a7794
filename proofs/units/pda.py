"""R01: the rule store (PDA, pda_rule_t, user_rule_t), unweighted or over an arbitrary weight type, vector-backed or hash-backed."""
from unit import Unit
from vtypes import Ty
from proofs.units.labels import SPEC as LSPEC, CONTRACTS as LC


def spec(w):
    s = LSPEC
    if w:
        s += r'''
pub struct WtT { pub w: int }
pub uninterp spec fn wt_lt(a: WtT, b: WtT) -> bool;
pub uninterp spec fn wt_zero() -> WtT;
// the documented requirement on weights: operator< is a strict total order (consistent with ==)
pub open spec fn wt_order() -> bool {
    (forall|a: WtT| #![trigger wt_lt(a, a)] !wt_lt(a, a))
    && (forall|a: WtT, b: WtT, c: WtT| #![trigger wt_lt(a, b), wt_lt(b, c)] wt_lt(a, b) && wt_lt(b, c) ==> wt_lt(a, c))
    && (forall|a: WtT, b: WtT| #![trigger wt_lt(a, b)] wt_lt(a, b) || a == b || wt_lt(b, a))
}'''
    s += r'''
pub open spec fn rule_lt(a: rule_t, b: rule_t) -> bool { a._to < b._to || (a._to == b._to && (a._op_label < b._op_label || (a._op_label == b._op_label && (a._operation < b._operation''' + (' || (a._operation == b._operation && wt_lt(a._weight, b._weight))' if w else '') + ''')))) }
pub open spec fn rule_same(a: rule_t, b: rule_t) -> bool { a == b }
pub open spec fn mx(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn impl_of(u: urule_t) -> rule_t { rule_t { _to: u._to, _operation: u._op, _op_label: u._op_labelWT } }
pub open spec fn rules_wf(s: Seq<relem>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> rule_lt(s[i].first, s[j].first) }
pub open spec fn labs_wf(s: Seq<relem>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> lab_wf(s[i].second) }
// one entry of rule r
pub open spec fn entry(s: Seq<relem>, r: rule_t) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == r }
pub open spec fn entry_l(s: Seq<relem>, r: rule_t, x: int) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == r && den(s[i].second, x) }
// the store as a relation: is there an entry for r at state p, and does it have label x
pub open spec fn has_rule(s: Seq<vstate>, p: int, r: rule_t) -> bool { 0 <= p < s.len() && entry(s[p]._rules.elems, r) }
pub open spec fn has_label(s: Seq<vstate>, p: int, r: rule_t, x: int) -> bool { 0 <= p < s.len() && entry_l(s[p]._rules.elems, r, x) }
pub open spec fn is_pre(s: Seq<vstate>, t: int, p: int) -> bool { 0 <= t < s.len() && s[t]._pre_states.elems.contains(p) }
pub open spec fn st_ok(s: Seq<vstate>, p: int) -> bool { rules_wf(s[p]._rules.elems) && labs_wf(s[p]._rules.elems) && inc(s[p]._pre_states.elems) && within(s[p]._pre_states.elems, s.len() as int) }
pub open spec fn tgt_ok(s: Seq<vstate>, p: int, i: int) -> bool { let t = s[p]._rules.elems[i].first._to; 0 <= t < s.len() && is_pre(s, t, p) }
// sizes of containers fit into size_t
pub open spec fn fits(s: Seq<vstate>) -> bool { forall|p: int| #![trigger s[p]] 0 <= p < s.len() ==> s[p]._rules.elems.len() < 0x1_0000_0000_0000_0000 }
pub open spec fn pda_wf(s: Seq<vstate>) -> bool { ORDER (forall|p: int| #![trigger s[p]] 0 <= p < s.len() ==> st_ok(s, p)) && (forall|p: int, i: int| #![trigger s[p]._rules.elems[i]] 0 <= p < s.len() && 0 <= i < s[p]._rules.elems.len() ==> tgt_ok(s, p, i)) }
// entries were only taken away
pub open spec fn thinned(o: Seq<vstate>, s: Seq<vstate>) -> bool { s.len() == o.len() && (forall|p: int| #![trigger s[p]] 0 <= p < s.len() ==> s[p]._rules.elems.len() <= o[p]._rules.elems.len()) && (forall|p: int, i: int| #![trigger s[p]._rules.elems[i]] 0 <= p < s.len() && 0 <= i < s[p]._rules.elems.len() ==> o[p]._rules.elems.contains(s[p]._rules.elems[i])) }
// the hash-backed store
pub open spec fn maps_to(s: Seq<relem>, k: rule_t, v: labels_t) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == k && s[i].second == v }
pub open spec fn conv_rules(m: Map<rule_t, labels_t>, l: Seq<relem>) -> bool { rules_wf(l) && forall|k: rule_t, v: labels_t| #[trigger] maps_to(l, k, v) <==> (m.dom().contains(k) && m[k] == v) }
pub open spec fn h_rule(s: Seq<hstate>, p: int, r: rule_t) -> bool { 0 <= p < s.len() && s[p]._rules.dom().contains(r) }
pub open spec fn h_label(s: Seq<hstate>, p: int, r: rule_t, x: int) -> bool { h_rule(s, p, r) && den(s[p]._rules[r], x) }
pub open spec fn h_pre(s: Seq<hstate>, t: int, p: int) -> bool { 0 <= t < s.len() && s[t]._pre_states.elems.contains(p) }
pub open spec fn h_ok(s: Seq<hstate>, p: int) -> bool { inc(s[p]._pre_states.elems) && within(s[p]._pre_states.elems, s.len() as int) }
pub open spec fn h_rule_ok(s: Seq<hstate>, p: int, r: rule_t) -> bool { lab_wf(s[p]._rules[r]) && 0 <= r._to < s.len() && h_pre(s, r._to, p) }
pub open spec fn h_wf(s: Seq<hstate>) -> bool { ORDER (forall|p: int| #![trigger s[p]] 0 <= p < s.len() ==> h_ok(s, p)) && (forall|p: int, r: rule_t| #[trigger] h_rule(s, p, r) ==> h_rule_ok(s, p, r)) }
'''.replace('WT }', ', _weight: u._weight }' if w else ' }').replace('ORDER', 'wt_order() &&' if w else '')
    return s


LEMMAS = r'''
proof fn lt_total(a: rule_t, b: rule_t) ORDREQ ensures rule_lt(a, b) || a == b || rule_lt(b, a), !(rule_lt(a, b) && rule_lt(b, a)), !rule_lt(a, a) {}
proof fn one(p: int) ensures forall|x: int| #[trigger] Seq::<int>::empty().push(p).contains(x) <==> x == p { let s = Seq::<int>::empty().push(p); assert(s[0] == p); assert(s.contains(p)); }
pub open spec fn empty_from(s: Seq<vstate>, n: int) -> bool { forall|p: int| #![trigger s[p]] n <= p < s.len() ==> s[p]._rules.elems.len() == 0 && s[p]._pre_states.elems.len() == 0 }
pub open spec fn extends(o: Seq<vstate>, s: Seq<vstate>) -> bool { o.len() <= s.len() && (forall|p: int| #![trigger s[p]] 0 <= p < o.len() ==> s[p] == o[p]) && empty_from(s, o.len() as int) }
proof fn grow_wf(o: Seq<vstate>, s: Seq<vstate>) requires pda_wf(o), extends(o, s), ensures pda_wf(s)
{ assert forall|p: int| #![trigger s[p]] 0 <= p < s.len() implies st_ok(s, p) by { if p < o.len() { assert(st_ok(o, p)); } }
  assert forall|p: int, i: int| #![trigger s[p]._rules.elems[i]] 0 <= p < s.len() && 0 <= i < s[p]._rules.elems.len() implies tgt_ok(s, p, i) by { assert(p < o.len()); assert(s[p] == o[p]); assert(tgt_ok(o, p, i)); let t = o[p]._rules.elems[i].first._to; assert(s[t] == o[t]); } }
proof fn grow_same(o: Seq<vstate>, s: Seq<vstate>) requires extends(o, s),
    ensures forall|p: int, r: rule_t| #[trigger] has_rule(s, p, r) == has_rule(o, p, r), forall|p: int, r: rule_t, x: int| #[trigger] has_label(s, p, r, x) == has_label(o, p, r, x), forall|t: int, p: int| #[trigger] is_pre(s, t, p) == is_pre(o, t, p)
{ assert forall|p: int, r: rule_t| #[trigger] has_rule(s, p, r) == has_rule(o, p, r) by { if 0 <= p < s.len() { let z = s[p]; } }
  assert forall|p: int, r: rule_t, x: int| #[trigger] has_label(s, p, r, x) == has_label(o, p, r, x) by { if 0 <= p < s.len() { let z = s[p]; } }
  assert forall|t: int, p: int| #[trigger] is_pre(s, t, p) == is_pre(o, t, p) by { if 0 <= t < s.len() { let z = s[t]; } } }
pub open spec fn h_extends(o: Seq<hstate>, s: Seq<hstate>) -> bool { o.len() <= s.len() && (forall|p: int| #![trigger s[p]] 0 <= p < o.len() ==> s[p] == o[p]) && (forall|p: int| #![trigger s[p]] o.len() <= p < s.len() ==> s[p]._rules == Map::<rule_t, labels_t>::empty() && s[p]._pre_states.elems.len() == 0) }
proof fn h_grow(o: Seq<hstate>, s: Seq<hstate>) requires h_wf(o), h_extends(o, s), ensures h_wf(s), forall|p: int, r: rule_t| #[trigger] h_rule(s, p, r) == h_rule(o, p, r), forall|p: int, r: rule_t, x: int| #[trigger] h_label(s, p, r, x) == h_label(o, p, r, x), forall|t: int, p: int| #[trigger] h_pre(s, t, p) == h_pre(o, t, p)
{ assert forall|t: int, p: int| #[trigger] h_pre(s, t, p) == h_pre(o, t, p) by { if 0 <= t < s.len() { let z = s[t]; } }
  assert forall|p: int, r: rule_t| #[trigger] h_rule(s, p, r) == h_rule(o, p, r) by { if 0 <= p < s.len() { let z = s[p]; } }
  assert forall|p: int, r: rule_t, x: int| #[trigger] h_label(s, p, r, x) == h_label(o, p, r, x) by { if 0 <= p < s.len() { let z = s[p]; assert(h_rule(s, p, r) == h_rule(o, p, r)); } }
  assert forall|p: int| #![trigger s[p]] 0 <= p < s.len() implies h_ok(s, p) by { if p < o.len() { assert(h_ok(o, p)); } }
  assert forall|p: int, r: rule_t| #[trigger] h_rule(s, p, r) implies h_rule_ok(s, p, r) by { assert(h_rule(o, p, r)); assert(h_rule_ok(o, p, r)); assert(h_pre(s, r._to, p)); } }
proof fn h_add(o: Seq<hstate>, s: Seq<hstate>, from: int, r: rule_t, wildcard: bool, labels: Seq<int>, l: labels_t)
    requires h_wf(o), 0 <= from < o.len(), 0 <= r._to < o.len(), s.len() == o.len(), s[from]._rules == o[from]._rules.insert(r, l), lab_wf(l), forall|x: int| #[trigger] den(l, x) <==> (h_label(o, from, r, x) || wildcard || labels.contains(x)),
        forall|p: int| #![trigger s[p]] 0 <= p < s.len() && p != from ==> s[p]._rules == o[p]._rules, forall|p: int| #![trigger s[p]] 0 <= p < s.len() && p != r._to ==> s[p]._pre_states == o[p]._pre_states,
        inc(s[r._to]._pre_states.elems), forall|x: int| #[trigger] s[r._to]._pre_states.elems.contains(x) <==> (o[r._to]._pre_states.elems.contains(x) || x == from),
    ensures h_wf(s), forall|p: int, q: rule_t| #[trigger] h_rule(s, p, q) <==> h_rule(o, p, q) || (p == from && q == r), forall|p: int, q: rule_t, x: int| #[trigger] h_label(s, p, q, x) <==> h_label(o, p, q, x) || (p == from && q == r && (wildcard || labels.contains(x))), forall|t: int, p: int| #[trigger] h_pre(s, t, p) <==> h_pre(o, t, p) || (t == r._to && p == from)
{
    assert forall|t: int, p: int| #[trigger] h_pre(s, t, p) <==> h_pre(o, t, p) || (t == r._to && p == from) by { if 0 <= t < s.len() { let z = s[t]; } }
    assert forall|p: int, q: rule_t| #[trigger] h_rule(s, p, q) <==> h_rule(o, p, q) || (p == from && q == r) by { if 0 <= p < s.len() { let z = s[p]; } }
    assert forall|p: int, q: rule_t, x: int| #[trigger] h_label(s, p, q, x) <==> h_label(o, p, q, x) || (p == from && q == r && (wildcard || labels.contains(x))) by { if 0 <= p < s.len() { let z = s[p]; assert(h_rule(s, p, q) <==> h_rule(o, p, q) || (p == from && q == r)); } }
    assert forall|p: int| #![trigger s[p]] 0 <= p < s.len() implies h_ok(s, p) by { assert(h_ok(o, p)); let l = s[p]._pre_states.elems;
        assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies 0 <= l[i] < s.len() by { assert(l.contains(l[i])); let l0 = o[p]._pre_states.elems; if l0.contains(l[i]) { let k = choose|k: int| 0 <= k < l0.len() && l0[k] == l[i]; } } }
    assert forall|p: int, q: rule_t| #[trigger] h_rule(s, p, q) implies h_rule_ok(s, p, q) by { let z = s[p]; if h_rule(o, p, q) { assert(h_rule_ok(o, p, q)); } assert(h_pre(s, q._to, p)); }
}
proof fn conv_one(m: Map<rule_t, labels_t>, l: Seq<relem>) requires conv_rules(m, l), ensures forall|r: rule_t| #[trigger] entry(l, r) <==> m.dom().contains(r), forall|r: rule_t, x: int| #[trigger] entry_l(l, r, x) <==> m.dom().contains(r) && den(m[r], x)
{ assert forall|r: rule_t| #[trigger] entry(l, r) <==> m.dom().contains(r) by { if entry(l, r) { let i = choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].first == r; assert(maps_to(l, r, l[i].second)); } if m.dom().contains(r) { assert(maps_to(l, r, m[r])); } }
  assert forall|r: rule_t, x: int| #[trigger] entry_l(l, r, x) <==> m.dom().contains(r) && den(m[r], x) by { if entry_l(l, r, x) { let i = choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].first == r && den(l[i].second, x); assert(maps_to(l, r, l[i].second)); } if m.dom().contains(r) && den(m[r], x) { assert(maps_to(l, r, m[r])); let i = choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].first == r && l[i].second == m[r]; assert(den(l[i].second, x)); } } }
proof fn conv_ok(o: Seq<hstate>, s: Seq<vstate>) requires h_wf(o), s.len() == o.len(), forall|p: int| #![trigger s[p]] 0 <= p < s.len() ==> conv_rules(o[p]._rules, s[p]._rules.elems) && s[p]._pre_states == o[p]._pre_states,
    ensures pda_wf(s), forall|p: int, r: rule_t| #[trigger] has_rule(s, p, r) <==> h_rule(o, p, r), forall|p: int, r: rule_t, x: int| #[trigger] has_label(s, p, r, x) <==> h_label(o, p, r, x), forall|t: int, p: int| #[trigger] is_pre(s, t, p) <==> h_pre(o, t, p)
{ assert forall|p: int, r: rule_t| #[trigger] has_rule(s, p, r) <==> h_rule(o, p, r) by { if 0 <= p < s.len() { let z = s[p]; conv_one(o[p]._rules, s[p]._rules.elems); } }
  assert forall|p: int, r: rule_t, x: int| #[trigger] has_label(s, p, r, x) <==> h_label(o, p, r, x) by { if 0 <= p < s.len() { let z = s[p]; conv_one(o[p]._rules, s[p]._rules.elems); } }
  assert forall|t: int, p: int| #[trigger] is_pre(s, t, p) <==> h_pre(o, t, p) by { if 0 <= t < s.len() { let z = s[t]; } }
  assert forall|p: int| #![trigger s[p]] 0 <= p < s.len() implies st_ok(s, p) by { assert(h_ok(o, p)); let l = s[p]._rules.elems;
    assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies lab_wf(l[i].second) by { assert(maps_to(l, l[i].first, l[i].second)); assert(h_rule(o, p, l[i].first)); assert(h_rule_ok(o, p, l[i].first)); } }
  assert forall|p: int, i: int| #![trigger s[p]._rules.elems[i]] 0 <= p < s.len() && 0 <= i < s[p]._rules.elems.len() implies tgt_ok(s, p, i) by { let r = s[p]._rules.elems[i].first; assert(entry(s[p]._rules.elems, r)); assert(has_rule(s, p, r)); assert(h_rule_ok(o, p, r)); assert(is_pre(s, r._to, p)); } }
// the first n rules of o without those into state t
pub open spec fn keep(o: Seq<relem>, n: int, t: int) -> Seq<relem> decreases n { if n <= 0 { Seq::empty() } else if o[n - 1].first._to != t { keep(o, n - 1, t).push(o[n - 1]) } else { keep(o, n - 1, t) } }
proof fn keep_elem(o: Seq<relem>, n: int, t: int) requires 0 <= n <= o.len(), ensures keep(o, n, t).len() <= n, forall|i: int| #![trigger keep(o, n, t)[i]] 0 <= i < keep(o, n, t).len() ==> keep(o, n, t)[i].first._to != t && (exists|j: int| #![trigger o[j]] i <= j < n && o[j] == keep(o, n, t)[i]),
    forall|j: int| #![trigger o[j]] 0 <= j < n && o[j].first._to != t ==> keep(o, n, t).contains(o[j]) decreases n
{ if n > 0 { keep_elem(o, n - 1, t); let a = keep(o, n - 1, t); let b = keep(o, n, t);
    if o[n - 1].first._to != t { assert(b[a.len() as int] == o[n - 1]); }
    assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies b[i].first._to != t && (exists|j: int| #![trigger o[j]] i <= j < n && o[j] == b[i]) by { if i < a.len() { assert(b[i] == a[i]); let j = choose|j: int| #![trigger o[j]] i <= j < n - 1 && o[j] == a[i]; assert(o[j] == b[i]); } else { assert(o[n - 1] == b[i]); } }
    assert forall|j: int| #![trigger o[j]] 0 <= j < n && o[j].first._to != t implies b.contains(o[j]) by { if j < n - 1 { assert(a.contains(o[j])); let i = choose|i: int| 0 <= i < a.len() && a[i] == o[j]; assert(b[i] == o[j]); } else { assert(b[a.len() as int] == o[j]); } } } }
proof fn keep_sorted(o: Seq<relem>, n: int, t: int) requires 0 <= n <= o.len(), rules_wf(o), ensures rules_wf(keep(o, n, t)) decreases n
{ if n > 0 { keep_sorted(o, n - 1, t); keep_elem(o, n - 1, t); let a = keep(o, n - 1, t); let b = keep(o, n, t);
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies rule_lt(b[i].first, b[j].first) by { assert(b[i] == a[i]); if j < a.len() { assert(b[j] == a[j]); } else { let k = choose|k: int| #![trigger o[k]] i <= k < n - 1 && o[k] == a[i]; assert(rule_lt(o[k].first, o[n - 1].first)); } } } }
proof fn keep_ok(o: Seq<relem>, t: int) requires rules_wf(o), labs_wf(o), ensures ({ let l = keep(o, o.len() as int, t); rules_wf(l) && labs_wf(l) && (forall|q: rule_t| #[trigger] entry(l, q) <==> entry(o, q) && q._to != t) && (forall|q: rule_t, x: int| #[trigger] entry_l(l, q, x) <==> entry_l(o, q, x) && q._to != t) })
{ let n = o.len() as int; let l = keep(o, n, t); keep_sorted(o, n, t); keep_elem(o, n, t);
  assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies lab_wf(l[i].second) by { let j = choose|j: int| #![trigger o[j]] i <= j < n && o[j] == l[i]; assert(lab_wf(o[j].second)); }
  assert forall|q: rule_t| #[trigger] entry(l, q) <==> entry(o, q) && q._to != t by {
    if entry(l, q) { let i = choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].first == q; let j = choose|j: int| #![trigger o[j]] i <= j < n && o[j] == l[i]; assert(o[j].first == q); }
    if entry(o, q) && q._to != t { let j = choose|j: int| #![trigger o[j]] 0 <= j < n && o[j].first == q; assert(l.contains(o[j])); let i = choose|i: int| 0 <= i < l.len() && l[i] == o[j]; assert(l[i].first == q); } }
  assert forall|q: rule_t, x: int| #[trigger] entry_l(l, q, x) <==> entry_l(o, q, x) && q._to != t by {
    if entry_l(l, q, x) { let i = choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].first == q && den(l[i].second, x); let j = choose|j: int| #![trigger o[j]] i <= j < n && o[j] == l[i]; assert(o[j].first == q); }
    if entry_l(o, q, x) && q._to != t { let j = choose|j: int| #![trigger o[j]] 0 <= j < n && o[j].first == q && den(o[j].second, x); assert(l.contains(o[j])); let i = choose|i: int| 0 <= i < l.len() && l[i] == o[j]; assert(l[i].first == q); } } }
// the state after the first n predecessors of t were treated
pub open spec fn cleared(o: Seq<vstate>, s: Seq<vstate>, t: int, n: int) -> bool {
    s.len() == o.len() && (forall|p: int| #![trigger s[p]] 0 <= p < s.len() ==> s[p]._pre_states == o[p]._pre_states && s[p]._rules.elems == (if p == t { Seq::empty() } else if pre(o[t]._pre_states.elems, n, p) { keep(o[p]._rules.elems, o[p]._rules.elems.len() as int, t) } else { o[p]._rules.elems }))
}
pub open spec fn base(o: Seq<vstate>, t: int, p: int) -> Seq<relem> { if p == t { Seq::empty() } else { o[p]._rules.elems } }
// while the n-th predecessor is treated: rules [0, r) were looked at, the ones to keep are in [0, w)
pub open spec fn mid(o: Seq<vstate>, s: Seq<vstate>, t: int, n: int, w: int, r: int) -> bool {
    let q = o[t]._pre_states.elems; let b = base(o, t, q[n]); let l = s[q[n]]._rules.elems;
    s.len() == o.len() && (forall|p: int| #![trigger s[p]] 0 <= p < s.len() ==> s[p]._pre_states == o[p]._pre_states && (p != q[n] ==> s[p]._rules.elems == (if p == t { Seq::empty() } else if pre(q, n, p) { keep(o[p]._rules.elems, o[p]._rules.elems.len() as int, t) } else { o[p]._rules.elems })))
    && 0 <= w <= r <= b.len() && l.len() == b.len() && l.subrange(0, w) == keep(b, r, t) && (forall|j: int| #![trigger l[j]] r <= j < l.len() ==> l[j] == b[j])
}
proof fn mid_start(o: Seq<vstate>, s: Seq<vstate>, t: int, n: int) requires pda_wf(o), 0 <= t < o.len(), 0 <= n < o[t]._pre_states.elems.len(), cleared(o, s, t, n), ensures mid(o, s, t, n, 0, 0), 0 <= o[t]._pre_states.elems[n] < o.len()
{ let q = o[t]._pre_states.elems; assert(st_ok(o, t)); pre_step(q, n); let z = s[q[n]]; assert(z._rules.elems.subrange(0, 0) =~= Seq::empty()); assert(z._rules.elems =~= base(o, t, q[n])); }
proof fn mid_step(o: Seq<vstate>, s0: Seq<vstate>, s: Seq<vstate>, t: int, n: int, w0: int, w: int, r: int) requires 0 <= t < o.len(), 0 <= n < o[t]._pre_states.elems.len(), 0 <= o[t]._pre_states.elems[n] < o.len(), mid(o, s0, t, n, w0, r), r < base(o, t, o[t]._pre_states.elems[n]).len(), s.len() == s0.len(), forall|p: int| #![trigger s[p]] 0 <= p < s.len() ==> s[p]._pre_states == s0[p]._pre_states && (p != o[t]._pre_states.elems[n] ==> s[p] == s0[p]),
      ({ let p = o[t]._pre_states.elems[n]; let l0 = s0[p]._rules.elems; let l = s[p]._rules.elems; if l0[r].first._to != t { w == w0 + 1 && (l == l0.update(w0, l0[r]) || (w0 == r && l == l0)) } else { w == w0 && l == l0 } }), ensures mid(o, s, t, n, w, r + 1)
{ let p = o[t]._pre_states.elems[n]; let b = base(o, t, p); let l0 = s0[p]._rules.elems; let l = s[p]._rules.elems; assert(l0[r] == b[r]);
  assert(l.subrange(0, w) =~= keep(b, r + 1, t)) by { if w == w0 + 1 { assert(l[w0] == b[r]); assert(l.subrange(0, w) =~= l0.subrange(0, w0).push(b[r])); } }
  assert forall|q: int| #![trigger s[q]] 0 <= q < s.len() implies s[q]._pre_states == o[q]._pre_states by { let z = s0[q]; } }
proof fn mid_end(o: Seq<vstate>, m: Seq<vstate>, s: Seq<vstate>, t: int, n: int, w: int, r: int) requires pda_wf(o), 0 <= t < o.len(), 0 <= n < o[t]._pre_states.elems.len(), mid(o, m, t, n, w, r), r == base(o, t, o[t]._pre_states.elems[n]).len(), s.len() == m.len(), ({ let p = o[t]._pre_states.elems[n]; 0 <= p < o.len() && s[p]._rules.elems == m[p]._rules.elems.subrange(0, w) && (forall|q: int| #![trigger s[q]] 0 <= q < s.len() ==> s[q]._pre_states == m[q]._pre_states && (q != p ==> s[q] == m[q])) }), ensures cleared(o, s, t, n + 1)
{ let q = o[t]._pre_states.elems; assert(st_ok(o, t)); pre_step(q, n); 
  assert forall|p: int| #![trigger s[p]] 0 <= p < s.len() implies s[p]._pre_states == o[p]._pre_states && s[p]._rules.elems == (if p == t { Seq::empty() } else if pre(q, n + 1, p) { keep(o[p]._rules.elems, o[p]._rules.elems.len() as int, t) } else { o[p]._rules.elems }) by { let z = m[p]; if p == q[n] && p == t { assert(r == 0 && w == 0); assert(s[p]._rules.elems =~= Seq::empty()); } } }
proof fn pre_step(q: Seq<int>, n: int) requires inc(q), 0 <= n < q.len(), ensures !pre(q, n, q[n]), forall|x: int| #[trigger] pre(q, n + 1, x) <==> pre(q, n, x) || x == q[n]
{ assert forall|x: int| #[trigger] pre(q, n + 1, x) <==> pre(q, n, x) || x == q[n] by { if x == q[n] { assert(q[n] == x); } } }
proof fn clear_ok(o: Seq<vstate>, m: Seq<vstate>, s: Seq<vstate>, t: int) requires pda_wf(o), 0 <= t < o.len(), cleared(o, m, t, o[t]._pre_states.elems.len() as int), s.len() == m.len(), forall|p: int| #![trigger s[p]] 0 <= p < s.len() ==> s[p]._rules == m[p]._rules && (p != t ==> s[p] == m[p]), s[t]._pre_states.elems.len() == 0,
    ensures pda_wf(s), forall|p: int, r: rule_t| #[trigger] has_rule(s, p, r) <==> has_rule(o, p, r) && p != t && r._to != t, forall|p: int, r: rule_t, x: int| #[trigger] has_label(s, p, r, x) <==> has_label(o, p, r, x) && p != t && r._to != t, forall|u: int, p: int| #[trigger] is_pre(s, u, p) <==> is_pre(o, u, p) && u != t, thinned(o, s)
{
    let q = o[t]._pre_states.elems;
    assert forall|p: int| 0 <= p < s.len() implies #[trigger] clear_st(o, s, t, p) by { let z = m[p]; let z2 = s[p]; let l = o[p]._rules.elems; assert(st_ok(o, p)); keep_ok(l, t);
        if p != t && !pre(q, q.len() as int, p) { assert forall|r: rule_t| #[trigger] entry(l, r) implies r._to != t by { let i = choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].first == r; assert(o[p]._rules.elems[i] == l[i]); assert(tgt_ok(o, p, i)); if r._to == t { assert(q.contains(p)); let k = choose|k: int| 0 <= k < q.len() && q[k] == p; assert(q[k] == p); } }
            assert forall|r: rule_t, x: int| #[trigger] entry_l(l, r, x) implies r._to != t by { let i = choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].first == r && den(l[i].second, x); assert(entry(l, r)); } } }
    assert forall|p: int| #![trigger s[p]] 0 <= p < s.len() implies s[p]._rules.elems.len() <= o[p]._rules.elems.len() by { let z = m[p]; keep_elem(o[p]._rules.elems, o[p]._rules.elems.len() as int, t); }
    assert forall|p: int, i: int| #![trigger s[p]._rules.elems[i]] 0 <= p < s.len() && 0 <= i < s[p]._rules.elems.len() implies o[p]._rules.elems.contains(s[p]._rules.elems[i]) by { let z = m[p]; let e = o[p]._rules.elems; keep_elem(e, e.len() as int, t); if p != t && pre(q, q.len() as int, p) { let j = choose|j: int| #![trigger e[j]] i <= j < e.len() && e[j] == s[p]._rules.elems[i]; assert(e.contains(e[j])); } else { assert(e[i] == s[p]._rules.elems[i]); } }
    assert forall|u: int, p: int| #[trigger] is_pre(s, u, p) <==> is_pre(o, u, p) && u != t by { if 0 <= u < s.len() { let z = s[u]; let y = m[u]; } }
    assert forall|p: int, r: rule_t| #[trigger] has_rule(s, p, r) <==> has_rule(o, p, r) && p != t && r._to != t by { if 0 <= p < s.len() { assert(clear_st(o, s, t, p)); } }
    assert forall|p: int, r: rule_t, x: int| #[trigger] has_label(s, p, r, x) <==> has_label(o, p, r, x) && p != t && r._to != t by { if 0 <= p < s.len() { assert(clear_st(o, s, t, p)); } }
    assert forall|p: int| #![trigger s[p]] 0 <= p < s.len() implies st_ok(s, p) by { assert(clear_st(o, s, t, p)); assert(st_ok(o, p)); let z = m[p]; }
    assert forall|p: int, i: int| #![trigger s[p]._rules.elems[i]] 0 <= p < s.len() && 0 <= i < s[p]._rules.elems.len() implies tgt_ok(s, p, i) by {
        let r = s[p]._rules.elems[i].first; assert(entry(s[p]._rules.elems, r)); assert(has_rule(s, p, r)); assert(has_rule(o, p, r)); let k = choose|k: int| #![trigger o[p]._rules.elems[k]] 0 <= k < o[p]._rules.elems.len() && o[p]._rules.elems[k].first == r; assert(tgt_ok(o, p, k)); assert(is_pre(o, r._to, p)); assert(is_pre(s, r._to, p)); }
}
pub open spec fn clear_st(o: Seq<vstate>, s: Seq<vstate>, t: int, p: int) -> bool { let l = s[p]._rules.elems; rules_wf(l) && labs_wf(l) && (forall|r: rule_t| #[trigger] entry(l, r) <==> entry(o[p]._rules.elems, r) && p != t && r._to != t) && (forall|r: rule_t, x: int| #[trigger] entry_l(l, r, x) <==> entry_l(o[p]._rules.elems, r, x) && p != t && r._to != t) }
// l is the rule list o with the labels added to the entry of r (which is created if necessary)
pub open spec fn merged(o: Seq<relem>, l: Seq<relem>, r: rule_t, wildcard: bool, labels: Seq<int>) -> bool {
    rules_wf(l) && labs_wf(l) && (forall|q: rule_t| #[trigger] entry(l, q) <==> entry(o, q) || q == r) && (forall|q: rule_t, x: int| #[trigger] entry_l(l, q, x) <==> entry_l(o, q, x) || (q == r && (wildcard || labels.contains(x))))
}
proof fn merge_ok(o: Seq<relem>, m: Seq<relem>, l: Seq<relem>, i: int, fresh: bool, r: rule_t, wildcard: bool, labels: Seq<int>)
    requires ORDERC rules_wf(o), labs_wf(o), rules_wf(m), 0 <= i < m.len(), m[i].first == r, fresh == !entry(o, r), lab_wf(l[i].second), !m[i].second._wildcard && m[i].second._labels.len() == 0 || !fresh,
        fresh ==> m == o.insert(i, m[i]) && i <= o.len(), !fresh ==> m == o, l.len() == m.len(), l[i].first == r, forall|j: int| #![trigger l[j]] 0 <= j < l.len() && j != i ==> l[j] == m[j],
        forall|x: int| #[trigger] den(l[i].second, x) <==> (den(m[i].second, x) || wildcard || labels.contains(x)),
    ensures merged(o, l, r, wildcard, labels)
{
    assert forall|j: int| #![trigger l[j]] 0 <= j < l.len() implies l[j].first == m[j].first by {}
    assert forall|a: int, b: int| #![trigger l[a], l[b]] 0 <= a < b < l.len() implies rule_lt(l[a].first, l[b].first) by { assert(rule_lt(m[a].first, m[b].first)); }
    assert forall|j: int| #![trigger l[j]] 0 <= j < l.len() implies lab_wf(l[j].second) by { if j != i { if fresh { if j < i { assert(m[j] == o[j]); } else { assert(m[j] == o[j - 1]); } } else { assert(m[j] == o[j]); } } }
    assert forall|q: rule_t, x: int| #[trigger] entry_l(l, q, x) <==> entry_l(o, q, x) || (q == r && (wildcard || labels.contains(x))) by {
        if entry_l(l, q, x) { let j = choose|j: int| #![trigger l[j]] 0 <= j < l.len() && l[j].first == q && den(l[j].second, x); if j == i { if !fresh { assert(o[i].first == q); } } else if fresh { if j < i { assert(o[j] == l[j]); } else { assert(o[j - 1] == l[j]); } } else { assert(o[j] == l[j]); } }
        if entry_l(o, q, x) { let j = choose|j: int| #![trigger o[j]] 0 <= j < o.len() && o[j].first == q && den(o[j].second, x); if fresh { if j < i { assert(l[j] == o[j]); } else { assert(l[j + 1] == m[j + 1]); assert(m[j + 1] == o[j]); } } else { assert(m[j] == o[j]); assert(l[j].first == q); } }
        if q == r && (wildcard || labels.contains(x)) { assert(den(l[i].second, x)); } }
    assert forall|q: rule_t| #[trigger] entry(l, q) <==> entry(o, q) || q == r by {
        if entry(l, q) { let j = choose|j: int| #![trigger l[j]] 0 <= j < l.len() && l[j].first == q; if fresh { if j < i { assert(o[j] == m[j]); } else if j > i { assert(o[j - 1] == m[j]); } } else { assert(o[j].first == q); } }
        if entry(o, q) { let j = choose|j: int| #![trigger o[j]] 0 <= j < o.len() && o[j].first == q; if fresh { if j < i { assert(l[j] == o[j]); } else { assert(l[j + 1] == m[j + 1]); assert(m[j + 1] == o[j]); } } else { assert(m[j] == o[j]); assert(l[j].first == q); } }
        if q == r { assert(l[i].first == q); } }
}
proof fn add_ok(o: Seq<vstate>, s: Seq<vstate>, from: int, r: rule_t, wildcard: bool, labels: Seq<int>)
    requires pda_wf(o), 0 <= from < o.len(), 0 <= r._to < o.len(), s.len() == o.len(), merged(o[from]._rules.elems, s[from]._rules.elems, r, wildcard, labels),
        forall|p: int| #![trigger s[p]] 0 <= p < s.len() && p != from ==> s[p]._rules == o[p]._rules, forall|p: int| #![trigger s[p]] 0 <= p < s.len() && p != r._to ==> s[p]._pre_states == o[p]._pre_states,
        inc(s[r._to]._pre_states.elems), forall|x: int| #[trigger] s[r._to]._pre_states.elems.contains(x) <==> (o[r._to]._pre_states.elems.contains(x) || x == from),
    ensures pda_wf(s), forall|p: int, q: rule_t| #[trigger] has_rule(s, p, q) <==> has_rule(o, p, q) || (p == from && q == r),
        forall|p: int, q: rule_t, x: int| #[trigger] has_label(s, p, q, x) <==> has_label(o, p, q, x) || (p == from && q == r && (wildcard || labels.contains(x))),
        forall|t: int, p: int| #[trigger] is_pre(s, t, p) <==> is_pre(o, t, p) || (t == r._to && p == from)
{
    assert forall|t: int, p: int| #[trigger] is_pre(s, t, p) <==> is_pre(o, t, p) || (t == r._to && p == from) by { if 0 <= t < s.len() { let z = s[t]; } }
    assert forall|p: int, q: rule_t| #[trigger] has_rule(s, p, q) <==> has_rule(o, p, q) || (p == from && q == r) by { if 0 <= p < s.len() { let z = s[p]; } }
    assert forall|p: int, q: rule_t, x: int| #[trigger] has_label(s, p, q, x) <==> has_label(o, p, q, x) || (p == from && q == r && (wildcard || labels.contains(x))) by { if 0 <= p < s.len() { let z = s[p]; } }
    assert forall|p: int| #![trigger s[p]] 0 <= p < s.len() implies st_ok(s, p) by { assert(st_ok(o, p)); let l = s[p]._pre_states.elems;
        assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies 0 <= l[i] < s.len() by { assert(l.contains(l[i])); let l0 = o[p]._pre_states.elems; if l0.contains(l[i]) { let k = choose|k: int| 0 <= k < l0.len() && l0[k] == l[i]; } } }
    assert forall|p: int, i: int| #![trigger s[p]._rules.elems[i]] 0 <= p < s.len() && 0 <= i < s[p]._rules.elems.len() implies tgt_ok(s, p, i) by {
        let q = s[p]._rules.elems[i].first; assert(entry(s[p]._rules.elems, q)); assert(has_rule(s, p, q));
        if has_rule(o, p, q) { let k = choose|k: int| #![trigger o[p]._rules.elems[k]] 0 <= k < o[p]._rules.elems.len() && o[p]._rules.elems[k].first == q; assert(tgt_ok(o, p, k)); assert(is_pre(o, q._to, p)); } assert(is_pre(s, q._to, p)); }
}
'''
import re


ADD = """pda_wf(this1._states);; this1._states.len() == mx(this0._states.len() as int, mx(from0, r0._to) + 1);;
   forall|p: int, r: rule_t| #[trigger] has_rule(this1._states, p, r) <==> has_rule(this0._states, p, r) || (p == from0 && r == r0);;
   forall|p: int, r: rule_t, x: int| #[trigger] has_label(this1._states, p, r, x) <==> has_label(this0._states, p, r, x) || (p == from0 && r == r0 && (wildcard0 || labels0.contains(x)));;
   forall|t: int, p: int| #[trigger] is_pre(this1._states, t, p) <==> is_pre(this0._states, t, p) || (t == r0._to && p == from0)"""
ADDU = """pda_wf(this1._states);; this1._states.len() == mx(this0._states.len() as int, mx(rule0._from, rule0._to) + 1);;
   forall|p: int, r: rule_t| #[trigger] has_rule(this1._states, p, r) <==> has_rule(this0._states, p, r) || (p == rule0._from && r == impl_of(rule0));;
   forall|p: int, r: rule_t, x: int| #[trigger] has_label(this1._states, p, r, x) <==> has_label(this0._states, p, r, x) || (p == rule0._from && r == impl_of(rule0) && LAB);;
   forall|t: int, p: int| #[trigger] is_pre(this1._states, t, p) <==> is_pre(this0._states, t, p) || (t == rule0._to && p == rule0._from)"""


CONV = '''let s = this_.elems;
   assert(u_.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < u_.len() && 0 <= j < u_.len() && i != j implies u_[i] != u_[j] by { assert(enum1_[i].0 != enum1_[j].0) by { if i < j {} else { assert(enum1_[j].0 != enum1_[i].0); } } } }
   assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies rule_lt(s[i].first, s[j].first) by { lt_total(s[i].first, s[j].first); assert(!rule_lt(s[j].first, s[i].first)); assert(s.contains(s[i]) && s.contains(s[j])); assert(s[i] != s[j]);
       let a = choose|a: int| 0 <= a < enum1_.len() && enum1_[a].0 == s[i].first && enum1_[a].1 == s[i].second; let b = choose|b: int| 0 <= b < enum1_.len() && enum1_[b].0 == s[j].first && enum1_[b].1 == s[j].second; }
   assert forall|k: rule_t, v: labels_t| #[trigger] maps_to(s, k, v) <==> (other.dom().contains(k) && other[k] == v) by {
     if maps_to(s, k, v) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == k && s[i].second == v; assert(s.contains(s[i])); }
     if other.dom().contains(k) && other[k] == v { assert(enum1_.contains((k, v))); let a = choose|a: int| 0 <= a < enum1_.len() && enum1_[a] == (k, v); let e = relem { first: k, second: v }; assert(u_[a] == e); assert(u_.contains(e)); assert(s.contains(e)); } }'''


def contracts(w):
    W = 'pdaaal::verif::aw' if w else r'pdaaal::weight<void>'
    R = r'pdaaal::internal::pda_rule_t<%s, void>::' % W
    UR = r'pdaaal::user_rule_t<%s, void>::' % W
    PV = r'pdaaal::internal::PDA<%s, 1>::' % W
    VM = r'pdaaal::fut::vector_map<pdaaal::internal::pda_rule_t<%s>, pdaaal::internal::labels_t>::' % W
    VS = r'pdaaal::fut::vector_set<unsigned long>::'
    O = 'wt_order()' if w else 'true'
    RW = (O + ';; ' if w else '') + 'rules_wf(this0.elems)'
    out = [dict(c, proved_in='labels') for c in LC if c['name'] == 'lab_merge']
    wt = ' && result._weight == this0._weight' if w else ''
    out += [
        dict(name='rule_less', fn=R + 'operator<', params=['other'], ensures='result == rule_lt(this0, other0)', spec_call='rule_lt'),
        dict(name='rule_eq', fn=R + 'operator==', params=['other'], ensures='result == (this0 == other0)', spec_call='rule_same'),
        dict(name='rule_ne', fn=R + 'operator!=', params=['other'], ensures='result == (this0 != other0)'),
        dict(name='urule_eq', fn=UR + 'operator==', params=['other'], ensures='result == (this0 == other0)'),
        dict(name='urule_ne', fn=UR + 'operator!=', params=['other'], ensures='result == (this0 != other0)'),
        dict(name='urule_impl', fn=UR + 'to_impl_rule', ensures='result == impl_of(this0)'),
        dict(name='urule_make', fn=UR + 'user_rule_t', nparams=6 if w else 5, params=['from', 'pre', 'to', 'op', 'op_label', 'weight'][:6 if w else 5], ensures='this1._from == from0 && this1._pre == pre0 && this1._to == to0 && this1._op == op0 && this1._op_label == op_label0' + (' && this1._weight == weight0' if w else '')),
        dict(name='urule_of', fn=UR + 'user_rule_t', nparams=3, params=['from', 'pre', 'rule'], requires='0 <= rule0._op_label <= 0xffff_ffff', ensures='this1._from == from0 && this1._pre == pre0 && this1._to == rule0._to && this1._op == rule0._operation;; (rule0._operation == 1 || rule0._operation == 4) ==> this1._op_label == rule0._op_label' + (';; this1._weight == rule0._weight' if w else '')),
        dict(name='vm_emplace', fn=VM + 'emplace', params=['key', 'val'], requires=RW, ensures="""rules_wf(this1.elems);; result.1 == !entry(this0.elems, key0);; 0 <= result.0 < this1.elems.len() && this1.elems[result.0].first == key0;;
            result.1 ==> result.0 <= this0.elems.len() && this1.elems == this0.elems.insert(result.0, relem { first: key0, second: val0 });; !result.1 ==> this1 == this0"""),
        dict(name='vm_resize', fn=VM + 'resize', params=['count'], requires='0 <= count0 <= this0.elems.len()', ensures='this1.elems == this0.elems.subrange(0, count0)'),
        dict(name='vm_clear', fn=VM + 'clear', ensures='this1.elems =~= Seq::<relem>::empty()'),
        dict(name='vm_begin', fn=VM + 'begin', const=False, ensures='result == 0;; this1 == this0'),
        dict(name='vm_end', fn=VM + 'end', const=False, ensures='result == this0.elems.len();; this1 == this0'),
        dict(name='vs_emplace', fn=VS + 'emplace', params=['key'], byval=['key'], requires='inc(this0.elems)', ensures="""inc(this1.elems);; forall|x: int| #[trigger] this1.elems.contains(x) <==> (this0.elems.contains(x) || x == key0)""",
             hints={'return': """if result_.1 { let s1 = this_.elems; let p = result_.0; assert(s1[p] == key);
            assert forall|x: int| #[trigger] s1.contains(x) <==> (this0.elems.contains(x) || x == key) by {
              if s1.contains(x) { let i = choose|i: int| 0 <= i < s1.len() && s1[i] == x; if i < p { assert(this0.elems[i] == x); } else if i > p { assert(this0.elems[i - 1] == x); } }
              if this0.elems.contains(x) { let i = choose|i: int| 0 <= i < this0.elems.len() && this0.elems[i] == x; if i < p { assert(s1[i] == x); } else { assert(s1[i + 1] == x); } } } }"""}),
        dict(name='vs_clear', fn=VS + 'clear', ensures='this1.elems.len() == 0'),
        dict(name='add_state', fn=PV + 'add_state', params=['s'], requires='pda_wf(this0._states);; s0 >= 0', ensures="""pda_wf(this1._states);; this1._states.len() == mx(this0._states.len() as int, s0 + 1);;
            forall|p: int| #![trigger this1._states[p]] 0 <= p < this0._states.len() ==> this1._states[p] == this0._states[p];;
            forall|p: int| #![trigger this1._states[p]] this0._states.len() <= p < this1._states.len() ==> this1._states[p]._rules.elems.len() == 0 && this1._states[p]._pre_states.elems.len() == 0""", hints={'end': 'grow_wf(this0._states, this_._states);'}),
        dict(name='add_impl', fn=PV + 'add_untyped_rule_impl', params=['from', 'r', 'wildcard', 'labels'], requires='pda_wf(this0._states);; from0 >= 0;; r0._to >= 0;; inc(labels0)', ensures=ADD,
             hints={'after add_state 1': 'raw:let ghost g_ = this_._states; proof { grow_same(this0._states, g_); }', 'after vm_emplace 1': 'raw:let ghost m_ = this_._states[from]._rules.elems; let ghost f_ = !entry(g_[from]._rules.elems, r);', 'end': 'let s = this_._states; let i = choose|i: int| #![trigger m_[i]] 0 <= i < m_.len() && m_[i].first == r; merge_ok(g_[from]._rules.elems, m_, s[from]._rules.elems, i, f_, r, wildcard, labels); add_ok(g_, s, from, r, wildcard, labels);'}),
        dict(name='clear_state', fn=PV + 'clear_state', params=['s'], requires='pda_wf(this0._states);; 0 <= s0 < this0._states.len();; fits(this0._states)', ensures="""pda_wf(this1._states);; this1._states.len() == this0._states.len();;
            forall|p: int, r: rule_t| #[trigger] has_rule(this1._states, p, r) <==> has_rule(this0._states, p, r) && p != s0 && r._to != s0;;
            forall|p: int, r: rule_t, x: int| #[trigger] has_label(this1._states, p, r, x) <==> has_label(this0._states, p, r, x) && p != s0 && r._to != s0;;
            forall|t: int, p: int| #[trigger] is_pre(this1._states, t, p) <==> is_pre(this0._states, t, p) && t != s0;; thinned(this0._states, this1._states)""",
             loops={1: 'cleared(this0._states, this_._states, s, k1)', 2: 'mid(this0._states, this_._states, s, k1, wit, rit)'},
             hints={'before loop 1': 'assert(rng1_s == this0._states[s]._pre_states.elems); assert(st_ok(this0._states, s)); assert(cleared(this0._states, this_._states, s, 0));', 'loop 1 begin': 'mid_start(this0._states, this_._states, s, k1);', 'loop 2 begin': 'raw:let ghost s0_ = this_._states; let ghost w0_ = wit; let ghost r0_ = rit;', 'loop 2 end': 'mid_step(this0._states, s0_, this_._states, s, k1, w0_, wit, r0_);',
                    'after loop 2': 'raw:let ghost m_ = this_._states; let ghost w_ = wit; let ghost r_ = rit; proof { let z = this0._states[this0._states[s]._pre_states.elems[k1]]; }', 'loop 1 end': 'mid_end(this0._states, m_, this_._states, s, k1, w_, r_);', 'after loop 1': 'raw:let ghost c_ = this_._states;', 'end': 'clear_ok(this0._states, c_, this_._states, s);'}),
        dict(name='add_rule', fn=PV + 'add_rule', params=['rule'], requires='pda_wf(this0._states);; rule0._from >= 0;; rule0._to >= 0', ensures=ADDU.replace('LAB', 'x == rule0._pre'), hints={'end': 'one(rule0._pre);'}),
        dict(name='add_wildcard_rule', fn=PV + 'add_wildcard_rule', params=['rule'], requires='pda_wf(this0._states);; rule0._from >= 0;; rule0._to >= 0', ensures=ADDU.replace('LAB', 'true')),
    ]
    PH = PV.replace(', 1>', ', 0>'); h = lambda t: t.replace('pda_wf', 'h_wf').replace('has_rule', 'h_rule').replace('has_label', 'h_label').replace('is_pre', 'h_pre')
    out += [
        dict(name='vm_from_hash', fn=VM + 'vector_map', sig=r'void \((?!const)(std::)?unordered_map', params=['other'], requires=O, ensures='conv_rules(other0, this1.elems)',
             hints={'constructed': 'raw:let ghost u_ = this_.elems;', 'end': CONV}),
        dict(name='fs_conv', fn=r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::internal::pda_rule_t<%s>, pdaaal::internal::labels_t>, 1>::fut_set' % W, sig=r'void \((?!const).*type\)0', params=['other'], requires=O, ensures='conv_rules(other0, this1.elems)'),
        dict(name='vstate_of', fn=PV + r'state_t::state_t', nparams=1, sig='0>|hash', params=['o'], requires=O, ensures='conv_rules(o0._rules, this1._rules.elems);; this1._pre_states == o0._pre_states'),
        dict(name='pda_of', fn=PV + 'PDA', nparams=1, sig=r'0>|hash|\(type\)0', params=['o'], requires='h_wf(o0._states)', ensures='''pda_wf(this1._states);; this1._states.len() == o0._states.len();;
            forall|p: int, r: rule_t| #[trigger] has_rule(this1._states, p, r) <==> h_rule(o0._states, p, r);;
            forall|p: int, r: rule_t, x: int| #[trigger] has_label(this1._states, p, r, x) <==> h_label(o0._states, p, r, x);;
            forall|t: int, p: int| #[trigger] is_pre(this1._states, t, p) <==> h_pre(o0._states, t, p)''', loops={'conv 1': 'forall|p: int| #![trigger conv1_[p]] 0 <= p < cn1 ==> conv_rules(o._states[p]._rules, conv1_[p]._rules.elems) && conv1_[p]._pre_states == o._states[p]._pre_states'}, hints={'end': 'conv_ok(o._states, this_._states);'}),
        dict(name='h_add_state', fn=PH + 'add_state', params=['s'], requires='h_wf(this0._states);; s0 >= 0', ensures='h_wf(this1._states);; this1._states.len() == mx(this0._states.len() as int, s0 + 1);; h_extends(this0._states, this1._states)', hints={'end': 'h_grow(this0._states, this_._states);'}),
        dict(name='h_add_impl', fn=PH + 'add_untyped_rule_impl', params=['from', 'r', 'wildcard', 'labels'], requires='h_wf(this0._states);; from0 >= 0;; r0._to >= 0;; inc(labels0)', ensures=h(ADD),
             hints={'after h_add_state 1': 'raw:let ghost g_ = this_._states; proof { h_grow(this0._states, g_); assert(h_rule(g_, from, r) ==> h_rule_ok(g_, from, r)); assert(h_ok(g_, r._to)); }', 'end': 'let s = this_._states; assert(s[from]._rules =~= g_[from]._rules.insert(r, s[from]._rules[r])); h_add(g_, s, from, r, wildcard, labels, s[from]._rules[r]);'}),
        dict(name='h_add_rule', fn=PH + 'add_rule', params=['rule'], requires='h_wf(this0._states);; rule0._from >= 0;; rule0._to >= 0', ensures=h(ADDU.replace('LAB', 'x == rule0._pre')), hints={'end': 'one(rule0._pre);'}),
        dict(name='h_add_wildcard_rule', fn=PH + 'add_wildcard_rule', params=['rule'], requires='h_wf(this0._states);; rule0._from >= 0;; rule0._to >= 0', ensures=h(ADDU.replace('LAB', 'true'))),
    ]
    return out


def make(w):
    def unit(ast):
        W = r'((pdaaal::)?(verif::)?aw(, void)?|(pdaaal::)?weight<void(, void)?>)'
        RT = r'(const )?(pdaaal::)?(internal::)?pda_rule_t<' + W + '(, void)?>'
        F = r'(pdaaal::)?(fut::)?(detail::)?fut_set<(std::)?tuple<' + RT + ', (pdaaal::)?(internal::)?labels_t>, '
        HASH = r'(\(type\)0|(pdaaal::)?(fut::)?type::hash|0)'; VEC = r'(\(type\)1|(pdaaal::)?(fut::)?type::vector|1)'
        q = 'pdaaal::verif::aw' if w else 'pdaaal::weight<void>'
        rt = lambda T: T.parse('pdaaal::internal::pda_rule_t<%s>' % q); lt = lambda T: T.parse('pdaaal::internal::labels_t')
        vm = lambda T, m=None: T.parse('pdaaal::fut::vector_map<pdaaal::internal::pda_rule_t<%s>, pdaaal::internal::labels_t>' % q)
        hm = lambda T, m=None: Ty('map', [rt(T), lt(T)])
        cfg = dict(types=[(F + HASH + '>', hm), (F + VEC + '>', vm)] + ([(r'(pdaaal::)?(verif::)?wt_t', lambda T, m: Ty('raw', name='WtT'))] if w else []),
                   rec_types=[(r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::internal::pda_rule_t<%s>, pdaaal::internal::labels_t>, 0>' % q, lambda T: hm(T)),
                              (r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::internal::pda_rule_t<%s>, pdaaal::internal::labels_t>, 1>' % q, lambda T: vm(T))],
                   raw_less={'WtT': 'wt_lt'},
                   rec_names={r'.*pda_rule_t<.*>': 'rule_t', r'.*user_rule_t<.*>': 'urule_t', r'.*vector_map<.*labels_t>::elem_t': 'relem', r'.*vector_map<.*labels_t>': 'rmap', r'.*PDA<.*, 0>::state_t': 'hstate', r'.*PDA<.*, 1>::state_t': 'vstate', r'.*PDA<.*, 0>': 'hpda', r'.*PDA<.*, 1>': 'vpda'},
                   builtins=[(r'.*verif::operator<', lambda fn, d, n, args, want, me, th: 'wt_lt(%s, %s)' % tuple(fn.rvs(args))),
                             (r'.*verif::operator==', lambda fn, d, n, args, want, me, th: '(%s == %s)' % tuple(fn.rvs(args))),
                             (r'.*verif::operator!=', lambda fn, d, n, args, want, me, th: '(%s != %s)' % tuple(fn.rvs(args))),
                             (r'.*aw::zero', lambda fn, d, n, args, want, me, th: 'wt_zero()')])
        return Unit('pda_' + 'uw'[w], 'pda.cpp', contracts(w), cfg, spec(w), LEMMAS.replace('ORDREQ', 'requires wt_order(),' if w else '').replace('ORDERC', 'wt_order(),' if w else ''), ast)
    return unit
