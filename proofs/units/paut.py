"""A01: P-automaton queries and constructions (unweighted systems): acceptance, accepting paths, the automaton of one configuration, union, copies."""
from unit import Unit
from vtypes import Ty
import proofs.units.satbase as B
import proofs.units.path as PT

PC, PDEF, PLEM = PT.inst('s', '0', 'int', 'PathS')

import re


def _take(text, names):
    """the definitions of these names (one definition starts per unindented line)"""
    out = []; keep = False; attr = None
    for l in text.split('\n'):
        if l.startswith('#['): attr = l; continue
        m = re.match(r'(?:pub )?(?:open |uninterp )?(?:spec |proof )?(?:fn|type) (\w+)', l)
        if m:
            keep = m.group(1) in names
            if keep and attr: out.append(attr)
        elif not l.startswith(('{', ' ')): keep = False
        attr = None
        if keep: out.append(l)
    return '\n'.join(out)


SPEC = _take(B.SPEC, 'nlabels Aut Word linc lhas ehas e_ok edge a_ok acc same_acc path acc_at accepts incl no_in'.split()) + PT.SPEC + PDEF + r'''
// ---- acceptance searches
pub open spec fn rest(w: Word, i: int) -> Word { w.subrange(i, w.len() as int) }
pub open spec fn live_at(A: Aut, s: Seq<(int, int)>, w: Word, j: int) -> bool { 0 <= j < s.len() && accepts(A, s[j].0, rest(w, s[j].1)) }
// some pending search point leads to acceptance
#[verifier::opaque]
pub open spec fn live(A: Aut, s: Seq<(int, int)>, w: Word) -> bool { exists|j: int| #[trigger] live_at(A, s, w, j) }
pub open spec fn cand(A: Aut, l: Seq<(int, lmap)>, x: int, v: Word, j: int) -> bool { 0 <= j < l.len() && lhas(l[j].1.elems, x) && accepts(A, l[j].0, v) }
// one of the targets from position k on continues on x to acceptance of v
#[verifier::opaque]
pub open spec fn cands(A: Aut, l: Seq<(int, lmap)>, x: int, v: Word, k: int) -> bool { exists|j: int| k <= j && #[trigger] cand(A, l, x, v, j) }
#[verifier::opaque]
pub open spec fn points(A: Aut, s: Seq<(int, int)>, w: Word) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> 0 <= s[j].0 < A.len() && 0 <= s[j].1 < w.len() }
pub open spec fn closed(A: Aut) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) ==> 0 <= q < A.len() && 0 <= p < A.len() }
// the listing of a state's outgoing edges
#[verifier::opaque]
pub open spec fn lists(A: Aut, p: int, l: Seq<(int, lmap)>) -> bool { 0 <= p < A.len() && (forall|q: int, x: int| #[trigger] ehas(A[p]._edges, x, q) ==> l.contains((q, A[p]._edges.elems[q]))) && (forall|j: int| #![trigger l[j]] 0 <= j < l.len() ==> A[p]._edges.elems.dom().contains(l[j].0) && A[p]._edges.elems[l[j].0] == l[j].1) }
// the first i entries of path lead from p0 along w to q
#[verifier::opaque]
pub open spec fn leadsto(A: Aut, p0: int, pth: Seq<int>, w: Word, q: int, i: int) -> bool { 0 <= i < pth.len() && i <= w.len() && (i == 0 ==> q == p0) && (i > 0 ==> pth[0] == p0 && edge(A, pth[i - 1], w[i - 1], q)) && forall|t: int| #![trigger pth[t]] 0 <= t < i - 1 ==> edge(A, pth[t], w[t], pth[t + 1]) }
#[verifier::opaque]
pub open spec fn tracked(A: Aut, p0: int, pth: Seq<int>, w: Word, s: Seq<(int, int)>) -> bool { (forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> leadsto(A, p0, pth, w, s[j].0, s[j].1)) && (forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() ==> s[i].1 <= s[j].1) }
#[verifier::opaque]
pub open spec fn below(s: Seq<(int, int)>, n: int) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j].1 <= n }
// the states s form an accepting path from p0 reading w
pub open spec fn acc_path(A: Aut, p0: int, s: Seq<int>, w: Word) -> bool { s.len() == w.len() + 1 && s[0] == p0 && acc(A, s[w.len() as int]) && forall|t: int| #![trigger s[t]] 0 <= t < w.len() ==> edge(A, s[t], w[t], s[t + 1]) }
// ---- search for any accepting path from a system state
pub open spec fn acc_from(A: Aut, n: int, p: int, w: Word) -> bool { 0 <= p < n && accepts(A, p, w) }
// some configuration is accepted
pub open spec fn some_acc(A: Aut, n: int) -> bool { exists|p: int, w: Word| #[trigger] acc_from(A, n, p, w) }
pub open spec fn known(n: int, seen: Set<int>, q: int) -> bool { (0 <= q < n) || seen.contains(q) }
pub open spec fn inw(s: Seq<(int, int, int)>, q: int) -> bool { exists|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].0 == q }
#[verifier::opaque]
pub open spec fn to_pt(A: Aut, n: int, pth: Seq<int>, lab: Word, z: (int, int, int)) -> bool { 0 <= z.0 < A.len() && z.1 >= 0 && (z.1 == 0 ==> z.0 < n) && (z.1 > 0 ==> pth.len() >= z.1 && lab.len() >= z.1 - 1 && 0 <= pth[0] < n && edge(A, pth[z.1 - 1], z.2, z.0)) && forall|t: int| #![trigger pth[t]] 0 <= t < z.1 - 1 ==> edge(A, pth[t], lab[t], pth[t + 1]) }
#[verifier::opaque]
pub open spec fn pts(A: Aut, n: int, pth: Seq<int>, lab: Word, s: Seq<(int, int, int)>) -> bool { (forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> to_pt(A, n, pth, lab, s[j])) && (forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() ==> s[i].1 <= s[j].1) }
#[verifier::opaque]
pub open spec fn below3(s: Seq<(int, int, int)>, n: int) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j].1 <= n }
// the first i labels of lab lead along pth from a system state to pth[i]
#[verifier::opaque]
pub open spec fn at_pt(A: Aut, n: int, pth: Seq<int>, lab: Word, i: int) -> bool { 0 <= i < pth.len() && i <= lab.len() && 0 <= pth[0] < n && forall|t: int| #![trigger pth[t]] 0 <= t < i ==> edge(A, pth[t], lab[t], pth[t + 1]) }
#[verifier::opaque]
pub open spec fn expanded(A: Aut, n: int, seen: Set<int>, s: Seq<(int, int, int)>, c: int) -> bool { (forall|q: int| #[trigger] known(n, seen, q) ==> !acc(A, q)) && (forall|q: int, x: int, m: int| #[trigger] edge(A, q, x, m) && known(n, seen, q) && q != c && !inw(s, q) ==> known(n, seen, m)) }
#[verifier::opaque]
pub open spec fn upto(n: int, seen: Set<int>, l: Seq<(int, lmap)>, k: int) -> bool { forall|j: int| #![trigger l[j]] 0 <= j < k && j < l.len() && l[j].1.elems.len() > 0 ==> known(n, seen, l[j].0) }
#[verifier::opaque]
pub open spec fn starts(A: Aut, s: Seq<(int, int, int)>, k: int) -> bool { s.len() == k && (forall|j: int| #![trigger s[j]] 0 <= j < k ==> s[j].0 == j && s[j].1 == 0) && forall|q: int| 0 <= q < k ==> !#[trigger] acc(A, q) }
// ---- constructions
#[verifier::opaque]
pub open spec fn alist(A: Aut, l: Seq<int>) -> bool { (forall|p: int| #[trigger] acc(A, p) ==> l.contains(p)) && (forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> acc(A, l[i])) }
#[verifier::opaque]
pub open spec fn ilist(l: Seq<int>, n: int) -> bool { l.len() == n && forall|i: int| #![trigger l[i]] 0 <= i < n ==> l[i] == i }
// representation invariant: identifiers are positions, edges stay inside, the first states are those of the system, both state lists are right
pub open spec fn pa_ok(a: paut) -> bool { a_ok(a._states) && closed(a._states) && (a._pda._states.len() as int) <= a._states.len() < NUL() && ilist(a._initial, a._pda._states.len() as int) && alist(a._states, a._accepting) }
pub open spec fn bare(A: Aut) -> bool { forall|p: int, x: int, q: int| !#[trigger] edge(A, p, x, q) }
pub open spec fn same_edges(A: Aut, B: Aut) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) == edge(B, p, x, q) }
pub open spec fn one_more(A: Aut, B: Aut, a: int, y: int, b: int) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(B, p, x, q) <==> edge(A, p, x, q) || (p == a && x == y && q == b) }
// B is A with one more state
pub open spec fn grown(A: Aut, B: Aut, f: bool) -> bool { B.len() == A.len() + 1 && (a_ok(A) ==> a_ok(B)) && same_edges(A, B) && forall|p: int| #[trigger] acc(B, p) <==> acc(A, p) || (p == A.len() && f) }
// the automaton of one configuration: a chain of states reading w
pub open spec fn node(n: int, s0: int, t: int) -> int { if t == 0 { s0 } else { n + t - 1 } }
pub open spec fn link(n: int, s0: int, w: Word, i: int, p: int, x: int, q: int) -> bool { 0 <= q - n < i && p == node(n, s0, q - n) && x == w[q - n] }
#[verifier::opaque]
pub open spec fn chain(A: Aut, n: int, s0: int, w: Word, i: int) -> bool { A.len() == n + i && (forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) <==> link(n, s0, w, i, p, x, q)) && forall|p: int| #[trigger] acc(A, p) <==> (i == w.len() && p == node(n, s0, i)) }
// system states only
#[verifier::opaque]
pub open spec fn flat(A: Aut, k: int, f: spec_fn(int) -> bool) -> bool { A.len() == k && a_ok(A) && bare(A) && forall|p: int| #[trigger] acc(A, p) <==> 0 <= p < k && f(p) }
pub open spec fn incs(s: Seq<int>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn nondec(s: Seq<int>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() ==> s[i] <= s[j] }
// union: the second automaton's own states are put behind those of the first
pub open spec fn moved(n: int, off: int, b: int) -> int { if b < n { b } else { b + off } }
pub open spec fn fresh(n: int, off: int, p: int) -> bool { p < n || p >= n + off }
pub open spec fn src(n: int, off: int, p: int) -> int { if p < n { p } else { p - off } }
#[verifier::opaque]
pub open spec fn mid(A: Aut, b: Aut, C: Aut, n: int, i: int, ai: int, D: Set<(int, int)>) -> bool { let off = A.len() - n; C.len() == A.len() + (if ai > n { ai - n } else { 0 }) && (forall|p: int| #[trigger] acc(C, p) <==> acc(A, p) || (fresh(n, off, p) && src(n, off, p) < ai && acc(b, src(n, off, p))))
    && (forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) <==> edge(A, p, x, q) || (fresh(n, off, p) && fresh(n, off, q) && ((src(n, off, p) < i && edge(b, src(n, off, p), x, src(n, off, q))) || (src(n, off, p) == i && D.contains((x, src(n, off, q))))))) }
pub open spec fn joined(A: Aut, b: Aut, C: Aut, n: int, i: int) -> bool { mid(A, b, C, n, i, i, Set::<(int, int)>::empty()) }
#[verifier::opaque]
pub open spec fn some_of(b: Aut, i: int, D: Set<(int, int)>) -> bool { forall|x: int, q: int| #[trigger] D.contains((x, q)) ==> edge(b, i, x, q) }
#[verifier::opaque]
pub open spec fn all_to(l: Seq<(int, lmap)>, k: int, D: Set<(int, int)>) -> bool { forall|j: int, x: int| #![trigger lhas(l[j].1.elems, x)] 0 <= j < k && j < l.len() && lhas(l[j].1.elems, x) ==> D.contains((x, l[j].0)) }
#[verifier::opaque]
pub open spec fn all_lab(l: Seq<lelem>, q: int, k: int, D: Set<(int, int)>) -> bool { forall|t: int| #![trigger l[t]] 0 <= t < k && t < l.len() ==> D.contains((l[t].first, q)) }
pub open spec fn is_union(A: Aut, b: Aut, C: Aut, n: int) -> bool { forall|p: int, w: Word| 0 <= p < n ==> (#[trigger] accepts(C, p, w) <==> accepts(A, p, w) || accepts(b, p, w)) }
// labels selected by a (complemented) list
pub open spec fn picks(neg: bool, l: Seq<int>, nl: int, x: int) -> bool { if neg { 0 <= x < nl && !l.contains(x) } else { l.contains(x) } }
pub open spec fn idat(m: Map<int, int>, k: int) -> bool { m.dom().contains(k) && m[k] == k }
#[verifier::opaque]
pub open spec fn idmap(m: Map<int, int>, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] idat(m, k) }
// C is A with the edges D (source, label) to one state added
#[verifier::opaque]
pub open spec fn putd(A: Aut, C: Aut, to: int, D: Set<(int, int)>) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) <==> edge(A, p, x, q) || (q == to && D.contains((p, x))) }
// the labels below i outside l, from every state of fr
#[verifier::opaque]
pub open spec fn neg_to(D: Set<(int, int)>, fr: Seq<int>, l: Seq<int>, i: int) -> bool { forall|p: int, x: int| #[trigger] D.contains((p, x)) <==> fr.contains(p) && 0 <= x < i && !l.contains(x) }
#[verifier::opaque]
pub open spec fn neg_part(D: Set<(int, int)>, fr: Seq<int>, l: Seq<int>, i: int, k: int) -> bool { forall|p: int, x: int| #[trigger] D.contains((p, x)) <==> (fr.contains(p) && 0 <= x < i && !l.contains(x)) || (x == i && fr.subrange(0, k).contains(p)) }
#[verifier::opaque]
pub open spec fn pos_part(D: Set<(int, int)>, fr: Seq<int>, l: Seq<int>, j: int, k: int) -> bool { forall|p: int, x: int| #[trigger] D.contains((p, x)) <==> (fr.subrange(0, j).contains(p) && l.contains(x)) || (j < fr.len() && p == fr[j] && l.subrange(0, k).contains(x)) }
pub open spec fn plus(A: Aut, C: Aut, fr: Seq<int>, to: int, neg: bool, l: Seq<int>, nl: int) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) <==> edge(A, p, x, q) || (q == to && fr.contains(p) && picks(neg, l, nl, x)) }
'''
LEMMAS = _take(B.LEMMAS, 'path_cat path_one incl_trans acc_trans lm_put put_edge sub_path'.split()) + PLEM + r'''
proof fn empty_word(A: Aut, p: int) ensures accepts(A, p, Seq::<int>::empty()) == acc(A, p)
{ let e = Seq::<int>::empty(); if acc(A, p) { assert(acc_at(A, p, e, p)); } }
proof fn first_step(A: Aut, p: int, w: Word) requires w.len() > 0, accepts(A, p, w), ensures exists|m: int| #[trigger] edge(A, p, w[0], m) && accepts(A, m, w.drop_first())
{ let q = choose|q: int| #[trigger] acc_at(A, p, w, q); let m = choose|m: int| #[trigger] edge(A, p, w[0], m) && path(A, m, w.drop_first(), q); assert(acc_at(A, m, w.drop_first(), q)); }
proof fn add_step(A: Aut, p: int, w: Word, m: int) requires w.len() > 0, edge(A, p, w[0], m), accepts(A, m, w.drop_first()), ensures accepts(A, p, w)
{ let q = choose|q: int| #[trigger] acc_at(A, m, w.drop_first(), q); assert(path(A, p, w, q)); assert(acc_at(A, p, w, q)); }
proof fn pop_live(A: Aut, s: Seq<(int, int)>, w: Word) requires s.len() > 0, ensures live(A, s, w) == (live(A, s.drop_last(), w) || accepts(A, s.last().0, rest(w, s.last().1)))
{ reveal(live); let t = s.drop_last(); let n = s.len() - 1; if live(A, s, w) { let j = choose|j: int| #[trigger] live_at(A, s, w, j); if j < n { assert(live_at(A, t, w, j)); } } if live(A, t, w) { let j = choose|j: int| #[trigger] live_at(A, t, w, j); assert(live_at(A, s, w, j)); } if accepts(A, s.last().0, rest(w, s.last().1)) { assert(live_at(A, s, w, n)); } }
proof fn push_live(A: Aut, s: Seq<(int, int)>, w: Word, q: int, i: int) ensures live(A, s.push((q, i)), w) == (live(A, s, w) || accepts(A, q, rest(w, i)))
{ pop_live(A, s.push((q, i)), w); assert(s.push((q, i)).drop_last() =~= s); }
proof fn no_live(A: Aut, w: Word) ensures !live(A, Seq::<(int, int)>::empty(), w) { reveal(live); }
proof fn all_cands(A: Aut, p: int, l: Seq<(int, lmap)>, w: Word, i: int) requires lists(A, p, l), 0 <= i < w.len(), ensures accepts(A, p, rest(w, i)) == cands(A, l, w[i], rest(w, i + 1), 0)
{ reveal(lists); reveal(cands); reveal(edge); let v = rest(w, i); let u = rest(w, i + 1); assert(v.drop_first() =~= u); assert(v[0] == w[i]);
  if accepts(A, p, v) { first_step(A, p, v); let m = choose|m: int| #[trigger] edge(A, p, v[0], m) && accepts(A, m, v.drop_first()); assert(ehas(A[p]._edges, w[i], m)); let j = choose|j: int| 0 <= j < l.len() && l[j] == (m, A[p]._edges.elems[m]); assert(cand(A, l, w[i], u, j)); }
  if cands(A, l, w[i], u, 0) { let j = choose|j: int| 0 <= j && #[trigger] cand(A, l, w[i], u, j); assert(ehas(A[p]._edges, w[i], l[j].0)); assert(edge(A, p, v[0], l[j].0)); add_step(A, p, v, l[j].0); } }
proof fn next_cand(A: Aut, l: Seq<(int, lmap)>, x: int, v: Word, k: int) requires 0 <= k < l.len(), ensures cands(A, l, x, v, k) == (cands(A, l, x, v, k + 1) || (lhas(l[k].1.elems, x) && accepts(A, l[k].0, v)))
{ reveal(cands); if cands(A, l, x, v, k) { let j = choose|j: int| k <= j && #[trigger] cand(A, l, x, v, j); } if lhas(l[k].1.elems, x) && accepts(A, l[k].0, v) { assert(cand(A, l, x, v, k)); } }
proof fn end_cand(A: Aut, l: Seq<(int, lmap)>, x: int, v: Word) ensures !cands(A, l, x, v, l.len() as int) { reveal(cands); }
proof fn list_at(A: Aut, p: int, l: Seq<(int, lmap)>, j: int) requires lists(A, p, l), a_ok(A), closed(A), 0 <= j < l.len(), ensures linc(l[j].1.elems), forall|x: int| #[trigger] lhas(l[j].1.elems, x) ==> edge(A, p, x, l[j].0) && 0 <= l[j].0 < A.len()
{ reveal(lists); reveal(edge); let z = A[p]; assert(e_ok(A[p]._edges)); let q = l[j].0; assert(A[p]._edges.elems.dom().contains(q)); assert forall|x: int| #[trigger] lhas(l[j].1.elems, x) implies edge(A, p, x, l[j].0) && 0 <= l[j].0 < A.len() by { assert(ehas(A[p]._edges, x, q)); assert(edge(A, p, x, q)); } }
proof fn is_list(A: Aut, p: int, l: Seq<(int, lmap)>) requires 0 <= p < A.len(), forall|q: int| #[trigger] A[p]._edges.elems.dom().contains(q) ==> l.contains((q, A[p]._edges.elems[q])), forall|j: int| #![trigger l[j]] 0 <= j < l.len() ==> A[p]._edges.elems.dom().contains(l[j].0) && A[p]._edges.elems[l[j].0] == l[j].1, ensures lists(A, p, l) { reveal(lists); }
proof fn set_point(A: Aut, p0: int, a: Seq<int>, b: Seq<int>, w: Word, q: int, i: int, k: int, c: int) requires leadsto(A, p0, a, w, q, i), i <= k < a.len(), b == a.update(k, c), ensures leadsto(A, p0, b, w, q, i) { reveal(leadsto); assert forall|t: int| #![trigger b[t]] 0 <= t < i - 1 implies edge(A, b[t], w[t], b[t + 1]) by { let z = a[t]; } }
proof fn go_on(A: Aut, p0: int, a: Seq<int>, w: Word, q: int, i: int, m: int) requires leadsto(A, p0, a, w, q, i), i + 1 < a.len(), i < w.len(), a[i] == q, edge(A, q, w[i], m), ensures leadsto(A, p0, a, w, m, i + 1) { reveal(leadsto); assert forall|t: int| #![trigger a[t]] 0 <= t < i implies edge(A, a[t], w[t], a[t + 1]) by { } }
proof fn track_pop(A: Aut, p0: int, a: Seq<int>, b: Seq<int>, w: Word, s: Seq<(int, int)>) requires s.len() > 0, tracked(A, p0, a, w, s), 0 <= s.last().1 < a.len(), b == a.update(s.last().1, s.last().0), ensures tracked(A, p0, b, w, s.drop_last()), leadsto(A, p0, b, w, s.last().0, s.last().1), below(s.drop_last(), s.last().1)
{ reveal(tracked); reveal(below); let t = s.drop_last(); let n = s.len() - 1; let z = s[n]; set_point(A, p0, a, b, w, z.0, z.1, z.1, z.0); assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies leadsto(A, p0, b, w, t[j].0, t[j].1) && t[j].1 <= z.1 by { assert(t[j] == s[j]); assert(s[j].1 <= s[n].1); set_point(A, p0, a, b, w, s[j].0, s[j].1, z.1, z.0); } assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i <= j < t.len() implies t[i].1 <= t[j].1 by { assert(t[i] == s[i] && t[j] == s[j]); } }
proof fn track_push(A: Aut, p0: int, a: Seq<int>, w: Word, s: Seq<(int, int)>, q: int, i: int) requires tracked(A, p0, a, w, s), leadsto(A, p0, a, w, q, i), below(s, i), ensures tracked(A, p0, a, w, s.push((q, i))), below(s.push((q, i)), i)
{ reveal(tracked); reveal(below); let t = s.push((q, i)); assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies leadsto(A, p0, a, w, t[j].0, t[j].1) by { if j < s.len() { assert(t[j] == s[j]); } } assert forall|k: int, j: int| #![trigger t[k], t[j]] 0 <= k <= j < t.len() implies t[k].1 <= t[j].1 by { if k < s.len() { assert(t[k] == s[k]); } if j < s.len() { assert(t[j] == s[j]); } } }
proof fn below_up(s: Seq<(int, int)>, i: int) requires below(s, i), ensures below(s, i + 1) { reveal(below); }
proof fn track0(A: Aut, p0: int, a: Seq<int>, w: Word) requires a.len() > 0, ensures tracked(A, p0, a, w, Seq::<(int, int)>::empty().push((p0, 0int))) { reveal(tracked); reveal(leadsto); }
proof fn got_path(A: Aut, p0: int, a: Seq<int>, b: Seq<int>, w: Word, q: int, m: int) requires w.len() > 0, a.len() == w.len() + 1, leadsto(A, p0, a, w, q, w.len() - 1), a[w.len() - 1] == q, edge(A, q, w[w.len() - 1], m), acc(A, m), b == a.update(w.len() as int, m), ensures acc_path(A, p0, b, w)
{ reveal(leadsto); assert forall|t: int| #![trigger b[t]] 0 <= t < w.len() implies edge(A, b[t], w[t], b[t + 1]) by { let z = a[t]; } }
proof fn started(A: Aut, n: int, s: Seq<(int, int, int)>, pth: Seq<int>, lab: Word) requires starts(A, s, n), 0 <= n <= A.len(), ensures pts(A, n, pth, lab, s), expanded(A, n, Set::<int>::empty(), s, -1)
{ reveal(starts); reveal(pts); reveal(expanded); assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies to_pt(A, n, pth, lab, s[j]) by { reveal(to_pt); } let e = Set::<int>::empty(); assert forall|q: int, x: int, m: int| #[trigger] edge(A, q, x, m) && known(n, e, q) && q != -1 && !inw(s, q) implies known(n, e, m) by { assert(s[q].0 == q); } }
proof fn start_next(A: Aut, s: Seq<(int, int, int)>, k: int, l: int) requires starts(A, s, k), k >= 0, !acc(A, k), ensures starts(A, s.push((k, 0int, l)), k + 1) { reveal(starts); let t = s.push((k, 0int, l)); assert forall|j: int| #![trigger t[j]] 0 <= j < k + 1 implies t[j].0 == j && t[j].1 == 0 by { if j < k { let z = s[j]; } } assert forall|q: int| 0 <= q < k + 1 implies !#[trigger] acc(A, q) by { if q < k { } } }
proof fn to_keep(A: Aut, n: int, a: Seq<int>, u: Word, b: Seq<int>, v: Word, z: (int, int, int), i: int) requires to_pt(A, n, a, u, z), z.1 <= i, b.len() == i + 2, v.len() == i + 1, forall|t: int| #![trigger b[t]] 0 <= t < i && t < a.len() ==> b[t] == a[t], forall|t: int| #![trigger v[t]] 0 <= t < i - 1 && t < u.len() ==> v[t] == u[t], ensures to_pt(A, n, b, v, z)
{ reveal(to_pt); if z.1 > 0 { let x = b[z.1 - 1]; let y = b[0]; } assert forall|t: int| #![trigger b[t]] 0 <= t < z.1 - 1 implies edge(A, b[t], v[t], b[t + 1]) by { let x = a[t]; let y = b[t + 1]; let w = v[t]; assert(edge(A, a[t], u[t], a[t + 1])); } }
proof fn pt_pop(A: Aut, n: int, a: Seq<int>, u: Word, b: Seq<int>, v: Word, s: Seq<(int, int, int)>) requires s.len() > 0, pts(A, n, a, u, s), ({ let z = s.last(); b == std_resize(a, z.1 + 2, 0int).update(z.1, z.0) && (z.1 > 0 ==> v == std_resize(u, z.1 + 1, 0int).update(z.1 - 1, z.2)) && (z.1 <= 0 ==> v == std_resize(u, z.1 + 1, 0int)) }), ensures pts(A, n, b, v, s.drop_last()), below3(s.drop_last(), s.last().1), at_pt(A, n, b, v, s.last().1), b[s.last().1] == s.last().0, b.len() == s.last().1 + 2, v.len() == s.last().1 + 1, 0 <= s.last().0 < A.len(), s.last().1 >= 0
{ reveal(pts); reveal(below3); let z = s.last(); let r = s.drop_last(); let k = s.len() - 1; assert(s[k] == z); assert(to_pt(A, n, a, u, z)); assert(z.1 >= 0 && (z.1 > 0 ==> a.len() >= z.1 && u.len() >= z.1 - 1)) by { reveal(to_pt); }
  assert(b.len() == z.1 + 2 && v.len() == z.1 + 1); assert forall|t: int| #![trigger b[t]] 0 <= t < z.1 && t < a.len() implies b[t] == a[t] by { } assert forall|t: int| #![trigger v[t]] 0 <= t < z.1 - 1 && t < u.len() implies v[t] == u[t] by { }
  assert forall|j: int| #![trigger r[j]] 0 <= j < r.len() implies to_pt(A, n, b, v, r[j]) && r[j].1 <= z.1 by { assert(r[j] == s[j]); assert(s[j].1 <= s[k].1); to_keep(A, n, a, u, b, v, s[j], z.1); }
  assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i <= j < r.len() implies r[i].1 <= r[j].1 by { assert(r[i] == s[i] && r[j] == s[j]); }
  to_keep(A, n, a, u, b, v, z, z.1); assert(at_pt(A, n, b, v, z.1)) by { reveal(at_pt); reveal(to_pt); assert forall|t: int| #![trigger b[t]] 0 <= t < z.1 implies edge(A, b[t], v[t], b[t + 1]) by { } } assert(0 <= z.0 < A.len()) by { reveal(to_pt); } }
proof fn pt_push(A: Aut, n: int, b: Seq<int>, v: Word, s: Seq<(int, int, int)>, i: int, q: int, x: int) requires pts(A, n, b, v, s), below3(s, i + 1), at_pt(A, n, b, v, i), edge(A, b[i], x, q), 0 <= q < A.len(), ensures pts(A, n, b, v, s.push((q, i + 1, x))), below3(s.push((q, i + 1, x)), i + 1)
{ reveal(pts); reveal(below3); let z = (q, i + 1, x); let t = s.push(z); assert(to_pt(A, n, b, v, z)) by { reveal(to_pt); reveal(at_pt); assert forall|t: int| #![trigger b[t]] 0 <= t < i implies edge(A, b[t], v[t], b[t + 1]) by { } } assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies to_pt(A, n, b, v, t[j]) by { if j < s.len() { assert(t[j] == s[j]); } } assert forall|k: int, j: int| #![trigger t[k], t[j]] 0 <= k <= j < t.len() implies t[k].1 <= t[j].1 by { if k < s.len() { assert(t[k] == s[k]); } if j < s.len() { assert(t[j] == s[j]); } } assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies t[j].1 <= i + 1 by { if j < s.len() { assert(t[j] == s[j]); } } }
proof fn below3_up(s: Seq<(int, int, int)>, i: int) requires below3(s, i), ensures below3(s, i + 1) { reveal(below3); }
proof fn pt_done(A: Aut, n: int, a: Seq<int>, u: Word, i: int, q: int, x: int) requires at_pt(A, n, a, u, i), a.len() == i + 2, u.len() == i + 1, edge(A, a[i], x, q), acc(A, q), ensures ({ let b = a.update(i + 1, q); acc_path(A, b[0], b, u.update(i, x)) && 0 <= b[0] < n })
{ reveal(at_pt); let b = a.update(i + 1, q); let v = u.update(i, x); assert forall|t: int| #![trigger b[t]] 0 <= t < v.len() implies edge(A, b[t], v[t], b[t + 1]) by { let z = a[t]; } }
proof fn path_acc(A: Aut, s: Seq<int>, w: Word) requires s.len() > 0, acc_path(A, s[0], s, w), ensures accepts(A, s[0], w) decreases w.len()
{ if w.len() == 0 { assert(w =~= Seq::<int>::empty()); empty_word(A, s[0]); } else { let r = s.drop_first(); let v = w.drop_first(); assert(r[0] == s[1]); assert forall|t: int| #![trigger r[t]] 0 <= t < v.len() implies edge(A, r[t], v[t], r[t + 1]) by { let z = s[t + 1]; assert(w[t + 1] == v[t]); } path_acc(A, r, v); let z = s[0]; assert(edge(A, s[0], w[0], s[1])); add_step(A, s[0], w, s[1]); } }
proof fn ex_pop(A: Aut, n: int, seen: Set<int>, s: Seq<(int, int, int)>) requires s.len() > 0, expanded(A, n, seen, s, -1), ensures expanded(A, n, seen, s.drop_last(), s.last().0)
{ reveal(expanded); let c = s.last().0; let r = s.drop_last(); assert forall|q: int, x: int, m: int| #[trigger] edge(A, q, x, m) && known(n, seen, q) && q != c && !inw(r, q) implies known(n, seen, m) by { if inw(s, q) { let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].0 == q; assert(r[j] == s[j]); } assert(q != -1) by { reveal(edge); } } }
proof fn ex_add(A: Aut, n: int, seen: Set<int>, s: Seq<(int, int, int)>, c: int, q: int, i: int, x: int) requires expanded(A, n, seen, s, c), !acc(A, q), ensures expanded(A, n, seen.insert(q), s.push((q, i, x)), c)
{ reveal(expanded); let s2 = seen.insert(q); let t = s.push((q, i, x)); assert(t[s.len() as int].0 == q); assert forall|p: int| #[trigger] known(n, s2, p) implies !acc(A, p) by { if p != q { assert(known(n, seen, p)); } } assert forall|p: int, y: int, m: int| #[trigger] edge(A, p, y, m) && known(n, s2, p) && p != c && !inw(t, p) implies known(n, s2, m) by { assert(p != q); assert(known(n, seen, p)); if inw(s, p) { let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].0 == p; assert(t[j] == s[j]); } assert(known(n, seen, m)); } }
proof fn up_next(n: int, seen: Set<int>, s2: Set<int>, l: Seq<(int, lmap)>, k: int) requires upto(n, seen, l, k), forall|q: int| #[trigger] seen.contains(q) ==> s2.contains(q), 0 <= k < l.len(), l[k].1.elems.len() > 0 ==> s2.contains(l[k].0), ensures upto(n, s2, l, k + 1)
{ reveal(upto); assert forall|j: int| #![trigger l[j]] 0 <= j < k + 1 && j < l.len() && l[j].1.elems.len() > 0 implies known(n, s2, l[j].0) by { if j < k { assert(known(n, seen, l[j].0)); } } }
proof fn ex_done(A: Aut, n: int, seen: Set<int>, s: Seq<(int, int, int)>, c: int, l: Seq<(int, lmap)>) requires expanded(A, n, seen, s, c), lists(A, c, l), upto(n, seen, l, l.len() as int), ensures expanded(A, n, seen, s, -1)
{ reveal(expanded); assert forall|q: int, x: int, m: int| #[trigger] edge(A, q, x, m) && known(n, seen, q) && q != -1 && !inw(s, q) implies known(n, seen, m) by { if q == c { reveal(edge); reveal(lists); reveal(upto); assert(ehas(A[c]._edges, x, m)); let j = choose|j: int| 0 <= j < l.len() && l[j] == (m, A[c]._edges.elems[m]); let e = A[c]._edges.elems[m].elems; let i = choose|i: int| #![trigger e[i]] 0 <= i < e.len() && e[i].first == x; assert(l[j].1.elems.len() > 0); } } }
proof fn none_from(A: Aut, n: int, seen: Set<int>, p: int, w: Word) requires expanded(A, n, seen, Seq::<(int, int, int)>::empty(), -1), known(n, seen, p), ensures !accepts(A, p, w) decreases w.len()
{ if w.len() == 0 { assert(w =~= Seq::<int>::empty()); empty_word(A, p); reveal(expanded); } else if accepts(A, p, w) { first_step(A, p, w); let m = choose|m: int| #[trigger] edge(A, p, w[0], m) && accepts(A, m, w.drop_first()); assert(known(n, seen, m)) by { reveal(expanded); assert(p >= 0) by { reveal(edge); } assert(!inw(Seq::<(int, int, int)>::empty(), p)); } none_from(A, n, seen, m, w.drop_first()); } }
proof fn none_at_all(A: Aut, n: int, seen: Set<int>, s: Seq<(int, int, int)>) requires expanded(A, n, seen, s, -1), s.len() == 0, ensures !some_acc(A, n)
{ assert(s =~= Seq::<(int, int, int)>::empty()); if some_acc(A, n) { let (p, w) = choose|p: int, w: Word| #[trigger] acc_from(A, n, p, w); none_from(A, n, seen, p, w); } }
proof fn grow(A: Aut, B: Aut, s: astate) requires B == A.push(s), s._id == A.len(), s._edges.elems == Map::<int, lmap>::empty(), ensures grown(A, B, s._accepting)
{ reveal(edge); assert forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) == edge(B, p, x, q) by { if 0 <= p < A.len() { assert(B[p] == A[p]); } } assert forall|p: int| #[trigger] acc(B, p) <==> acc(A, p) || (p == A.len() && s._accepting) by { if 0 <= p < A.len() { assert(B[p] == A[p]); } } if a_ok(A) { assert forall|p: int| #![trigger B[p]] 0 <= p < B.len() implies B[p]._id == p && e_ok(B[p]._edges) by { if p < A.len() { let z = A[p]; } } } }
proof fn alist_grow(A: Aut, B: Aut, l: Seq<int>, m: Seq<int>, f: bool) requires alist(A, l), grown(A, B, f), m == (if f { l.push(A.len() as int) } else { l }), ensures alist(B, m)
{ reveal(alist); assert forall|p: int| #[trigger] acc(B, p) implies m.contains(p) by { if acc(A, p) { let i = choose|i: int| 0 <= i < l.len() && l[i] == p; assert(m[i] == p); } else { assert(m[l.len() as int] == p); } } assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies acc(B, m[i]) by { if i < l.len() { assert(m[i] == l[i]); assert(acc(A, l[i])); } } }
proof fn ilist_grow(l: Seq<int>, n: int) requires ilist(l, n), n >= 0, ensures ilist(l.push(n), n + 1) { reveal(ilist); let m = l.push(n); assert forall|i: int| #![trigger m[i]] 0 <= i < n + 1 implies m[i] == i by { if i < n { let z = l[i]; } } }
proof fn flat0(f: spec_fn(int) -> bool) ensures flat(Seq::<astate>::empty(), 0, f), alist(Seq::<astate>::empty(), Seq::<int>::empty()), ilist(Seq::<int>::empty(), 0) { reveal(flat); reveal(edge); reveal(alist); reveal(ilist); }
proof fn flat_grow(A: Aut, C: Aut, k: int, f: spec_fn(int) -> bool, b: bool) requires flat(A, k, f), k >= 0, grown(A, C, b), b == f(k), ensures flat(C, k + 1, f) { reveal(flat); assert forall|p: int, x: int, q: int| !#[trigger] edge(C, p, x, q) by { assert(!edge(A, p, x, q)); } }
proof fn flat_chain(A: Aut, n: int, s0: int, w: Word, f: spec_fn(int) -> bool) requires flat(A, n, f), 0 <= s0 < n, forall|p: int| #[trigger] f(p) <==> (w.len() == 0 && p == s0) || (w.len() > 0 && p == n), ensures chain(A, n, s0, w, 0), a_ok(A) { reveal(flat); reveal(chain); assert forall|p: int| #[trigger] acc(A, p) <==> (0 == w.len() && p == node(n, s0, 0)) by { let z = f(p); } }
proof fn chain_next(A: Aut, m: Aut, C: Aut, n: int, s0: int, w: Word, i: int) requires chain(A, n, s0, w, i), 0 <= i < w.len(), 0 <= s0 < n, grown(A, m, i == w.len() - 1), same_acc(m, C), one_more(m, C, node(n, s0, i), w[i], n + i), ensures chain(C, n, s0, w, i + 1)
{ reveal(chain); assert forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) <==> link(n, s0, w, i + 1, p, x, q) by { assert(edge(m, p, x, q) == edge(A, p, x, q)); } assert forall|p: int| #[trigger] acc(C, p) <==> (i + 1 == w.len() && p == node(n, s0, i + 1)) by { assert(acc(C, p) == acc(m, p)); assert(acc(m, p) <==> acc(A, p) || (p == A.len() && i == w.len() - 1)); } }
proof fn chain_acc(A: Aut, n: int, s0: int, w: Word, t: int, v: Word) requires chain(A, n, s0, w, w.len() as int), 0 <= s0 < n, 0 <= t <= w.len(), ensures accepts(A, node(n, s0, t), v) == (v == rest(w, t)) decreases v.len()
{ let p = node(n, s0, t); let L = w.len() as int; if v.len() == 0 { assert(v =~= Seq::<int>::empty()); empty_word(A, p); assert(acc(A, p) == (p == node(n, s0, L))) by { reveal(chain); } if t == L { assert(rest(w, t) =~= v); } } else {
    if accepts(A, p, v) { first_step(A, p, v); let m = choose|m: int| #[trigger] edge(A, p, v[0], m) && accepts(A, m, v.drop_first()); assert(link(n, s0, w, L, p, v[0], m)) by { reveal(chain); } assert(m == node(n, s0, t + 1)); chain_acc(A, n, s0, w, t + 1, v.drop_first()); assert(v =~= rest(w, t)) by { assert(v.len() == rest(w, t).len()); assert forall|k: int| 0 <= k < v.len() implies v[k] == rest(w, t)[k] by { if k > 0 { assert(v.drop_first()[k - 1] == rest(w, t + 1)[k - 1]); } } } }
    if v == rest(w, t) { let m = node(n, s0, t + 1); assert(v.drop_first() =~= rest(w, t + 1)); chain_acc(A, n, s0, w, t + 1, v.drop_first()); assert(edge(A, p, v[0], m)) by { reveal(chain); assert(link(n, s0, w, L, p, v[0], m)); } add_step(A, p, v, m); } } }
proof fn chain_rest(A: Aut, n: int, s0: int, w: Word, p: int, v: Word) requires chain(A, n, s0, w, w.len() as int), 0 <= s0 < n, 0 <= p < n, p != s0, ensures !accepts(A, p, v)
{ if accepts(A, p, v) { if v.len() == 0 { assert(v =~= Seq::<int>::empty()); empty_word(A, p); reveal(chain); } else { first_step(A, p, v); let m = choose|m: int| #[trigger] edge(A, p, v[0], m) && accepts(A, m, v.drop_first()); reveal(chain); assert(link(n, s0, w, w.len() as int, p, v[0], m)); } } }
proof fn chain_ok(A: Aut, n: int, s0: int, w: Word) requires chain(A, n, s0, w, w.len() as int), 0 <= s0 < n, ensures closed(A), no_in(A, n), forall|p: int, v: Word| 0 <= p < n ==> (#[trigger] accepts(A, p, v) <==> p == s0 && v == w)
{ assert forall|p: int, v: Word| 0 <= p < n implies (#[trigger] accepts(A, p, v) <==> p == s0 && v == w) by { if p == s0 { assert(node(n, s0, 0) == s0); chain_acc(A, n, s0, w, 0, v); assert(rest(w, 0) =~= w); } else { chain_rest(A, n, s0, w, p, v); } } assert forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) implies 0 <= q < A.len() && 0 <= p < A.len() && q >= n by { reveal(chain); assert(link(n, s0, w, w.len() as int, p, x, q)); } }
proof fn flat_acc(A: Aut, k: int, f: spec_fn(int) -> bool) requires flat(A, k, f), ensures closed(A), no_in(A, k), a_ok(A), forall|p: int, v: Word| 0 <= p < k ==> (#[trigger] accepts(A, p, v) <==> f(p) && v.len() == 0)
{ reveal(flat); assert forall|p: int, v: Word| 0 <= p < k implies (#[trigger] accepts(A, p, v) <==> f(p) && v.len() == 0) by { if v.len() == 0 { assert(v =~= Seq::<int>::empty()); empty_word(A, p); } else if accepts(A, p, v) { first_step(A, p, v); } } }
proof fn set_flag(A: Aut, C: Aut, l: Seq<int>, i: int) requires a_ok(A), 0 <= i < A.len(), C == A.update(i, astate { _accepting: true, ..A[i] }), ensures a_ok(C), same_edges(A, C), C.len() == A.len(), forall|p: int| #[trigger] acc(C, p) <==> acc(A, p) || p == i, alist(A, l) && !acc(A, i) ==> alist(C, l.push(i))
{ reveal(edge); reveal(alist); assert forall|p: int| #![trigger C[p]] 0 <= p < C.len() implies C[p]._id == p && e_ok(C[p]._edges) by { let z = A[p]; } assert forall|p: int, x: int, q: int| #[trigger] edge(A, p, x, q) == edge(C, p, x, q) by { if 0 <= p < A.len() && p != i { assert(C[p] == A[p]); } } assert forall|p: int| #[trigger] acc(C, p) <==> acc(A, p) || p == i by { if 0 <= p < A.len() && p != i { assert(C[p] == A[p]); } }
  if alist(A, l) { let m = l.push(i); assert forall|p: int| #[trigger] acc(C, p) implies m.contains(p) by { if p == i { assert(m[l.len() as int] == p); } else { let k = choose|k: int| 0 <= k < l.len() && l[k] == p; assert(m[k] == p); } } assert forall|k: int| #![trigger m[k]] 0 <= k < m.len() implies acc(C, m[k]) by { if k < l.len() { assert(m[k] == l[k]); assert(acc(A, l[k])); } } } }
proof fn alist_same(A: Aut, C: Aut, l: Seq<int>) requires alist(A, l), same_acc(A, C), ensures alist(C, l) { reveal(alist); assert forall|p: int| #[trigger] acc(C, p) implies l.contains(p) by { assert(acc(A, p)); } assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies acc(C, l[i]) by { assert(acc(A, l[i]) == acc(C, l[i])); } }
// ---- edges to one state on a (complemented) list of labels
proof fn id0(m: Map<int, int>) ensures idmap(m, 0) { reveal(idmap); }
proof fn id_ins(m: Map<int, int>, e: Map<int, int>, k: int) requires idmap(m, k), k >= 0, e =~= m.insert(k, k), ensures idmap(e, k + 1) { reveal(idmap); assert forall|j: int| 0 <= j < k + 1 implies #[trigger] idat(e, j) by { if j < k { assert(idat(m, j)); assert(e[j] == m[j]); } else { assert(e[j] == j); } } }
proof fn id_get(m: Map<int, int>, n: int, k: int) requires idmap(m, n), 0 <= k < n, ensures m.dom().contains(k), m[k] == k { reveal(idmap); assert(idat(m, k)); }
proof fn same_acc3(A: Aut, B: Aut, C: Aut) requires same_acc(A, B), same_acc(B, C), ensures same_acc(A, C), { assert forall|p: int| #[trigger] acc(A, p) == acc(C, p) by { assert(acc(A, p) == acc(B, p)); } }
proof fn put0(A: Aut, to: int) ensures putd(A, A, to, Set::<(int, int)>::empty()) { reveal(putd); }
proof fn put_next(A: Aut, C: Aut, E: Aut, to: int, D: Set<(int, int)>, a: int, y: int) requires putd(A, C, to, D), one_more(C, E, a, y, to), ensures putd(A, E, to, D.insert((a, y))) { reveal(putd); assert forall|p: int, x: int, q: int| #[trigger] edge(E, p, x, q) <==> edge(A, p, x, q) || (q == to && D.insert((a, y)).contains((p, x))) by { assert(edge(C, p, x, q) == (edge(A, p, x, q) || (q == to && D.contains((p, x))))); } }
proof fn sub_next(l: Seq<int>, k: int, x: int) requires 0 <= k < l.len(), ensures l.subrange(0, k + 1).contains(x) == (l.subrange(0, k).contains(x) || x == l[k])
{ let a = l.subrange(0, k); let b = l.subrange(0, k + 1); if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); } if x == l[k] { assert(b[k] == x); } if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < k { assert(a[i] == x); } } }
proof fn neg0(fr: Seq<int>, l: Seq<int>) ensures neg_to(Set::<(int, int)>::empty(), fr, l, 0) { reveal(neg_to); }
proof fn neg_start(D: Set<(int, int)>, fr: Seq<int>, l: Seq<int>, i: int) requires neg_to(D, fr, l, i), ensures neg_part(D, fr, l, i, 0) { reveal(neg_to); reveal(neg_part); assert(fr.subrange(0, 0) =~= Seq::<int>::empty()); }
proof fn neg_step(D: Set<(int, int)>, fr: Seq<int>, l: Seq<int>, i: int, k: int) requires neg_part(D, fr, l, i, k), 0 <= k < fr.len(), ensures neg_part(D.insert((fr[k], i)), fr, l, i, k + 1) { reveal(neg_part); let E = D.insert((fr[k], i)); assert forall|p: int, x: int| #[trigger] E.contains((p, x)) <==> (fr.contains(p) && 0 <= x < i && !l.contains(x)) || (x == i && fr.subrange(0, k + 1).contains(p)) by { sub_next(fr, k, p); assert(D.contains((p, x)) == ((fr.contains(p) && 0 <= x < i && !l.contains(x)) || (x == i && fr.subrange(0, k).contains(p)))); } }
proof fn neg_end(D: Set<(int, int)>, fr: Seq<int>, l: Seq<int>, i: int) requires neg_part(D, fr, l, i, fr.len() as int), !l.contains(i), i >= 0, ensures neg_to(D, fr, l, i + 1) { reveal(neg_to); reveal(neg_part); assert(fr.subrange(0, fr.len() as int) =~= fr); assert forall|p: int, x: int| #[trigger] D.contains((p, x)) <==> fr.contains(p) && 0 <= x < i + 1 && !l.contains(x) by { } }
proof fn neg_skip(D: Set<(int, int)>, fr: Seq<int>, l: Seq<int>, k: int) requires neg_to(D, fr, l, l[k]), 0 <= k < l.len(), ensures neg_to(D, fr, l, l[k] + 1) { reveal(neg_to); assert(l.contains(l[k])); }
proof fn neg_all(A: Aut, C: Aut, fr: Seq<int>, to: int, l: Seq<int>, nl: int, D: Set<(int, int)>) requires putd(A, C, to, D), neg_to(D, fr, l, nl), ensures plus(A, C, fr, to, true, l, nl) { reveal(putd); reveal(neg_to); assert forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) <==> edge(A, p, x, q) || (q == to && fr.contains(p) && picks(true, l, nl, x)) by { assert(D.contains((p, x)) == (fr.contains(p) && 0 <= x < nl && !l.contains(x))); } }
proof fn gap(l: Seq<int>, k: int, i: int) requires incs(l), 0 <= k <= l.len(), k > 0 ==> l[k - 1] < i, k < l.len() ==> i < l[k], ensures !l.contains(i) { if l.contains(i) { let j = choose|j: int| 0 <= j < l.len() && l[j] == i; if j < k - 1 { assert(l[j] < l[k - 1]); } if j > k { assert(l[k] < l[j]); } } }
proof fn pos0(fr: Seq<int>, l: Seq<int>) ensures pos_part(Set::<(int, int)>::empty(), fr, l, 0, 0) { reveal(pos_part); assert(fr.subrange(0, 0) =~= Seq::<int>::empty()); assert(l.subrange(0, 0) =~= Seq::<int>::empty()); }
proof fn pos_step(D: Set<(int, int)>, fr: Seq<int>, l: Seq<int>, j: int, k: int) requires pos_part(D, fr, l, j, k), 0 <= j < fr.len(), 0 <= k < l.len(), ensures pos_part(D.insert((fr[j], l[k])), fr, l, j, k + 1) { reveal(pos_part); let E = D.insert((fr[j], l[k])); assert forall|p: int, x: int| #[trigger] E.contains((p, x)) <==> (fr.subrange(0, j).contains(p) && l.contains(x)) || (j < fr.len() && p == fr[j] && l.subrange(0, k + 1).contains(x)) by { sub_next(l, k, x); assert(D.contains((p, x)) == ((fr.subrange(0, j).contains(p) && l.contains(x)) || (j < fr.len() && p == fr[j] && l.subrange(0, k).contains(x)))); } }
proof fn pos_end(D: Set<(int, int)>, fr: Seq<int>, l: Seq<int>, j: int) requires pos_part(D, fr, l, j, l.len() as int), 0 <= j < fr.len(), ensures pos_part(D, fr, l, j + 1, 0) { reveal(pos_part); assert(l.subrange(0, l.len() as int) =~= l); assert(l.subrange(0, 0) =~= Seq::<int>::empty()); assert forall|p: int, x: int| #[trigger] D.contains((p, x)) <==> (fr.subrange(0, j + 1).contains(p) && l.contains(x)) || (j + 1 < fr.len() && p == fr[j + 1] && l.subrange(0, 0).contains(x)) by { sub_next(fr, j, p); } }
proof fn pos_all(A: Aut, C: Aut, fr: Seq<int>, to: int, l: Seq<int>, nl: int, D: Set<(int, int)>) requires putd(A, C, to, D), pos_part(D, fr, l, fr.len() as int, 0), ensures plus(A, C, fr, to, false, l, nl) { reveal(putd); reveal(pos_part); assert(fr.subrange(0, fr.len() as int) =~= fr); assert forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) <==> edge(A, p, x, q) || (q == to && fr.contains(p) && picks(false, l, nl, x)) by { assert(D.contains((p, x)) == (fr.contains(p) && l.contains(x))); } }
proof fn one(fr: Seq<int>, a: int) requires fr == seq![a], ensures forall|p: int| #[trigger] fr.contains(p) <==> p == a { assert(fr[0] == a); }
// ---- union
proof fn join0(A: Aut, b: Aut, n: int) requires 0 <= n <= A.len(), ensures joined(A, b, A, n, 0) { reveal(mid); reveal(edge); assert forall|p: int| #[trigger] acc(A, p) <==> acc(A, p) || (fresh(n, A.len() - n, p) && src(n, A.len() - n, p) < 0 && acc(b, src(n, A.len() - n, p))) by { } }
proof fn join_state(A: Aut, b: Aut, m: Aut, C: Aut, n: int, i: int) requires joined(A, b, m, n, i), 0 <= n <= A.len(), 0 <= i < b.len(), i >= n ==> grown(m, C, b[i]._accepting), i < n ==> C.len() == m.len() && same_edges(m, C) && forall|p: int| #[trigger] acc(C, p) <==> acc(m, p) || (p == i && acc(b, i)), ensures mid(A, b, C, n, i, i + 1, Set::<(int, int)>::empty()), i >= n ==> m.len() == i + (A.len() - n), C.len() > moved(n, A.len() - n, i)
{ reveal(mid); let off = A.len() - n; assert forall|p: int| #[trigger] acc(C, p) <==> acc(A, p) || (fresh(n, off, p) && src(n, off, p) < i + 1 && acc(b, src(n, off, p))) by { assert(acc(m, p) <==> acc(A, p) || (fresh(n, off, p) && src(n, off, p) < i && acc(b, src(n, off, p)))); } assert forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) == edge(m, p, x, q) by { } }
proof fn join_edge(A: Aut, b: Aut, m: Aut, C: Aut, n: int, i: int, D: Set<(int, int)>, x: int, t: int) requires mid(A, b, m, n, i, i + 1, D), 0 <= n <= A.len(), 0 <= i < b.len(), t >= 0, same_acc(m, C), one_more(m, C, moved(n, A.len() - n, i), x, moved(n, A.len() - n, t)), ensures mid(A, b, C, n, i, i + 1, D.insert((x, t)))
{ reveal(mid); let off = A.len() - n; let E = D.insert((x, t)); assert forall|p: int| #[trigger] acc(C, p) == acc(m, p) by { assert(acc(m, p) == acc(C, p)); } assert forall|p: int, y: int, q: int| #[trigger] edge(C, p, y, q) <==> edge(A, p, y, q) || (fresh(n, off, p) && fresh(n, off, q) && ((src(n, off, p) < i && edge(b, src(n, off, p), y, src(n, off, q))) || (src(n, off, p) == i && E.contains((y, src(n, off, q)))))) by { let z = edge(m, p, y, q); } }
proof fn join_next(A: Aut, b: Aut, C: Aut, n: int, i: int, D: Set<(int, int)>, l: Seq<(int, lmap)>) requires mid(A, b, C, n, i, i + 1, D), some_of(b, i, D), lists(b, i, l), all_to(l, l.len() as int, D), ensures joined(A, b, C, n, i + 1)
{ reveal(mid); reveal(some_of); let off = A.len() - n; assert forall|x: int, q: int| #[trigger] edge(b, i, x, q) implies D.contains((x, q)) by { reveal(edge); reveal(lists); reveal(all_to); assert(ehas(b[i]._edges, x, q)); let j = choose|j: int| 0 <= j < l.len() && l[j] == (q, b[i]._edges.elems[q]); assert(lhas(l[j].1.elems, x)); }
  let E = Set::<(int, int)>::empty(); assert forall|p: int, y: int, q: int| #[trigger] edge(C, p, y, q) <==> edge(A, p, y, q) || (fresh(n, off, p) && fresh(n, off, q) && ((src(n, off, p) < i + 1 && edge(b, src(n, off, p), y, src(n, off, q))) || (src(n, off, p) == i + 1 && E.contains((y, src(n, off, q)))))) by { let z = edge(b, src(n, off, p), y, src(n, off, q)); } }
proof fn lab_next(b: Aut, i: int, l: Seq<(int, lmap)>, k: int, u: Seq<lelem>, q: int, j: int, D: Set<(int, int)>) requires 0 <= j < u.len(), some_of(b, i, D), all_to(l, k, D), all_lab(u, q, j, D), edge(b, i, u[j].first, q), ensures ({ let E = D.insert((u[j].first, q)); some_of(b, i, E) && all_to(l, k, E) && all_lab(u, q, j + 1, E) })
{ reveal(some_of); reveal(all_to); reveal(all_lab); let E = D.insert((u[j].first, q)); assert forall|x: int, t: int| #[trigger] E.contains((x, t)) implies edge(b, i, x, t) by { if D.contains((x, t)) { } } assert forall|t: int| #![trigger u[t]] 0 <= t < j + 1 && t < u.len() implies E.contains((u[t].first, q)) by { if t < j { assert(D.contains((u[t].first, q))); } } assert forall|a: int, x: int| #![trigger lhas(l[a].1.elems, x)] 0 <= a < k && a < l.len() && lhas(l[a].1.elems, x) implies E.contains((x, l[a].0)) by { assert(D.contains((x, l[a].0))); } }
proof fn to_next(l: Seq<(int, lmap)>, k: int, u: Seq<lelem>, D: Set<(int, int)>) requires 0 <= k < l.len(), all_to(l, k, D), l[k].1.elems == u, all_lab(u, l[k].0, u.len() as int, D), ensures all_to(l, k + 1, D)
{ reveal(all_to); reveal(all_lab); assert forall|a: int, x: int| #![trigger lhas(l[a].1.elems, x)] 0 <= a < k + 1 && a < l.len() && lhas(l[a].1.elems, x) implies D.contains((x, l[a].0)) by { if a == k { let t = choose|t: int| #![trigger u[t]] 0 <= t < u.len() && u[t].first == x; } } }
proof fn side_a(A: Aut, b: Aut, C: Aut, n: int, p: int, w: Word) requires joined(A, b, C, n, b.len() as int), closed(A), closed(b), no_in(A, n), no_in(b, n), 0 <= n <= A.len(), n <= b.len(), n <= p < A.len(), ensures accepts(C, p, w) == accepts(A, p, w) decreases w.len()
{ let off = A.len() - n; if w.len() == 0 { assert(w =~= Seq::<int>::empty()); empty_word(A, p); empty_word(C, p); assert(acc(C, p) == acc(A, p)) by { reveal(mid); } } else { let v = w.drop_first(); let x = w[0];
    if accepts(C, p, w) { first_step(C, p, w); let m = choose|m: int| #[trigger] edge(C, p, x, m) && accepts(C, m, v); assert(edge(A, p, x, m)) by { reveal(mid); } side_a(A, b, C, n, m, v); add_step(A, p, w, m); }
    if accepts(A, p, w) { first_step(A, p, w); let m = choose|m: int| #[trigger] edge(A, p, x, m) && accepts(A, m, v); assert(edge(C, p, x, m)) by { reveal(mid); } side_a(A, b, C, n, m, v); add_step(C, p, w, m); } } }
proof fn side_b(A: Aut, b: Aut, C: Aut, n: int, p: int, w: Word) requires joined(A, b, C, n, b.len() as int), closed(A), closed(b), no_in(A, n), no_in(b, n), 0 <= n <= A.len(), n <= b.len(), n <= p < b.len(), ensures accepts(C, p + (A.len() - n), w) == accepts(b, p, w) decreases w.len()
{ let off = A.len() - n; let P = p + off; if w.len() == 0 { assert(w =~= Seq::<int>::empty()); empty_word(b, p); empty_word(C, P); assert(acc(C, P) == acc(b, p)) by { reveal(mid); assert(src(n, off, P) == p && fresh(n, off, P)); assert(!acc(A, P)); } } else { let v = w.drop_first(); let x = w[0];
    if accepts(C, P, w) { first_step(C, P, w); let m = choose|m: int| #[trigger] edge(C, P, x, m) && accepts(C, m, v); assert(edge(b, p, x, m - off) && m >= n + off) by { reveal(mid); assert(src(n, off, P) == p && fresh(n, off, P)); assert(!edge(A, P, x, m)); assert(edge(b, p, x, src(n, off, m))); } side_b(A, b, C, n, m - off, v); add_step(b, p, w, m - off); }
    if accepts(b, p, w) { first_step(b, p, w); let m = choose|m: int| #[trigger] edge(b, p, x, m) && accepts(b, m, v); assert(edge(C, P, x, m + off)) by { reveal(mid); assert(src(n, off, P) == p && fresh(n, off, P) && fresh(n, off, m + off) && src(n, off, m + off) == m); } side_b(A, b, C, n, m, v); add_step(C, P, w, m + off); } } }
proof fn union_all(A: Aut, b: Aut, C: Aut, n: int) requires joined(A, b, C, n, b.len() as int), closed(A), closed(b), no_in(A, n), no_in(b, n), 0 <= n <= A.len(), n <= b.len(), ensures is_union(A, b, C, n), no_in(C, n)
{ let off = A.len() - n; assert forall|p: int, w: Word| 0 <= p < n implies (#[trigger] accepts(C, p, w) <==> accepts(A, p, w) || accepts(b, p, w)) by { if w.len() == 0 { assert(w =~= Seq::<int>::empty()); empty_word(A, p); empty_word(C, p); empty_word(b, p); assert(acc(C, p) <==> acc(A, p) || acc(b, p)) by { reveal(mid); assert(src(n, off, p) == p && fresh(n, off, p)); } } else { let v = w.drop_first(); let x = w[0];
    if accepts(C, p, w) { first_step(C, p, w); let m = choose|m: int| #[trigger] edge(C, p, x, m) && accepts(C, m, v); if edge(A, p, x, m) { side_a(A, b, C, n, m, v); add_step(A, p, w, m); } else { assert(edge(b, p, x, m - off) && m >= n + off) by { reveal(mid); assert(src(n, off, p) == p); assert(edge(b, p, x, src(n, off, m))); } side_b(A, b, C, n, m - off, v); add_step(b, p, w, m - off); } }
    if accepts(A, p, w) { first_step(A, p, w); let m = choose|m: int| #[trigger] edge(A, p, x, m) && accepts(A, m, v); assert(edge(C, p, x, m)) by { reveal(mid); } side_a(A, b, C, n, m, v); add_step(C, p, w, m); }
    if accepts(b, p, w) { first_step(b, p, w); let m = choose|m: int| #[trigger] edge(b, p, x, m) && accepts(b, m, v); assert(edge(C, p, x, m + off)) by { reveal(mid); assert(src(n, off, p) == p && fresh(n, off, p) && fresh(n, off, m + off) && src(n, off, m + off) == m); } side_b(A, b, C, n, m, v); add_step(C, p, w, m + off); } } }
  assert forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) implies q >= n by { reveal(mid); if !edge(A, p, x, q) { let z = edge(b, src(n, off, p), x, src(n, off, q)); } } }
proof fn join_closed(A: Aut, b: Aut, C: Aut, n: int) requires joined(A, b, C, n, b.len() as int), closed(A), closed(b), 0 <= n <= A.len(), n <= b.len(), ensures closed(C), C.len() == A.len() + b.len() - n { reveal(mid); let off = A.len() - n; assert forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) implies 0 <= q < C.len() && 0 <= p < C.len() by { if !edge(A, p, x, q) { let z = edge(b, src(n, off, p), x, src(n, off, q)); } } }
'''
AU = B.AU
A = 'this0._states'
N = '(this0._pda._states.len() as int)'
_c = {c['name']: c for c in B.CONTRACTS}
CONTRACTS = [c for c in PC if c['name'] in ('new_s', 'end_s', 'from_s')] + [
    dict(_c['lm_emplace'], sig=r'.*\(const unsigned int &, const '), dict(_c['lm_emplace'], name='lm_emplace_rv', sig=r'.*\(const unsigned int &, pdaaal'),
    dict(_c['edges_emplace'], sig=r'.*\(const unsigned long &, const unsigned int &, const '), dict(_c['edges_emplace'], name='edges_emplace_rv', sig=r'.*\(const unsigned long &, unsigned int &, pdaaal'), dict(_c['edges_emplace'], name='edges_emplace_rv2', sig=r'.*\(const unsigned long &, const unsigned int &, pdaaal'),
    dict(name='lm_contains', fn=B.LM + 'contains', params=['key'], requires='linc(this0.elems)', ensures='result == lhas(this0.elems, key0)'),
    dict(name='accepts_', fn=AU + 'accepts', params=['state', 'stack'], requires='a_ok(%s) ;; closed(%s) ;; 0 <= state0 < %s.len()' % (A, A, A), ensures='result == accepts(%s, state0, stack0)' % A,
         loops={1: 'stack0.len() > 0 && points({0}, search_stack, stack0) && accepts({0}, state0, stack0) == live({0}, search_stack, stack0)'.format(A),
                2: 'lists({0}, current_state, rng2_s) && points({0}, search_stack, stack0) && 0 <= stack_index < stack0.len() && 0 <= current_state < {0}.len() && accepts({0}, state0, stack0) == (live({0}, search_stack, stack0) || cands({0}, rng2_s, stack0[stack_index], rest(stack0, stack_index + 1), k2))'.format(A)},
         hints={'before loop 1': 'assert(rest(stack0, 0) =~= stack0); no_live({0}, stack0); push_live({0}, Seq::<(int, int)>::empty(), stack0, state0, 0); reveal(points);'.format(A),
                'loop 1 begin': 'raw:let ghost s_ = search_stack; proof { pop_live(%s, search_stack, stack0); let z = search_stack.last(); reveal(points); }' % A,
                'before loop 2': 'is_list({0}, current_state, rng2_s); all_cands({0}, current_state, rng2_s, stack0, stack_index); reveal(points);'.format(A),
                'loop 2 begin': 'raw:let ghost m_ = search_stack; proof {{ let z = rng2_s[k2]; list_at({0}, current_state, rng2_s, k2); next_cand({0}, rng2_s, stack0[stack_index], rest(stack0, stack_index + 1), k2); push_live({0}, search_stack, stack0, rng2_s[k2].0, stack_index + 1); if stack_index + 1 == stack0.len() {{ assert(rest(stack0, stack_index + 1) =~= Seq::<int>::empty()); empty_word({0}, rng2_s[k2].0); }} }}'.format(A),
                'loop 2 end': 'reveal(points);', 'after loop 2': 'end_cand(%s, rng2_s, stack0[stack_index], rest(stack0, stack_index + 1));' % A, 'after loop 1': 'no_live(%s, stack0); assert(search_stack =~= Seq::<(int, int)>::empty());' % A,
                'begin': 'empty_word(%s, state0); if stack0.len() == 0 { assert(stack0 =~= Seq::<int>::empty()); }' % A}),
    dict(name='accept_path_', fn=AU + 'accept_path', params=['state', 'stack'], requires='a_ok(%s) ;; closed(%s) ;; 0 <= state0 < %s.len()' % (A, A, A), ensures='(result.len() > 0) == accepts({0}, state0, stack0) ;; result.len() > 0 ==> acc_path({0}, state0, result, stack0)'.format(A),
         loops={1: 'stack0.len() > 0 && path.len() == stack0.len() + 1 && points({0}, search_stack, stack0) && tracked({0}, state0, path, stack0, search_stack) && accepts({0}, state0, stack0) == live({0}, search_stack, stack0)'.format(A),
                2: 'path.len() == stack0.len() + 1 && lists({0}, current_state, rng2_s) && points({0}, search_stack, stack0) && 0 <= stack_index < stack0.len() && 0 <= current_state < {0}.len() && path[stack_index] == current_state && below(search_stack, stack_index + 1) && tracked({0}, state0, path, stack0, search_stack) && leadsto({0}, state0, path, stack0, current_state, stack_index) && accepts({0}, state0, stack0) == (live({0}, search_stack, stack0) || cands({0}, rng2_s, stack0[stack_index], rest(stack0, stack_index + 1), k2))'.format(A)},
         hints={'before loop 1': 'assert(rest(stack0, 0) =~= stack0); no_live({0}, stack0); push_live({0}, Seq::<(int, int)>::empty(), stack0, state0, 0); reveal(points); track0({0}, state0, path, stack0);'.format(A),
                'loop 1 begin': 'raw:let ghost s_ = search_stack; let ghost a_ = path; proof { pop_live(%s, search_stack, stack0); let z = search_stack.last(); reveal(points); }' % A,
                'before loop 2': 'track_pop({0}, state0, a_, path, stack0, s_); below_up(search_stack, stack_index); is_list({0}, current_state, rng2_s); all_cands({0}, current_state, rng2_s, stack0, stack_index); reveal(points);'.format(A),
                'loop 2 begin': 'raw:let ghost m_ = search_stack; proof {{ let z = rng2_s[k2]; list_at({0}, current_state, rng2_s, k2); next_cand({0}, rng2_s, stack0[stack_index], rest(stack0, stack_index + 1), k2); push_live({0}, search_stack, stack0, rng2_s[k2].0, stack_index + 1); if lhas(z.1.elems, stack0[stack_index]) {{ go_on({0}, state0, path, stack0, current_state, stack_index, z.0); track_push({0}, state0, path, stack0, search_stack, z.0, stack_index + 1); }} if stack_index + 1 == stack0.len() {{ assert(rest(stack0, stack_index + 1) =~= Seq::<int>::empty()); empty_word({0}, rng2_s[k2].0); if lhas(z.1.elems, stack0[stack_index]) && acc({0}, z.0) {{ got_path({0}, state0, path, path.update(stack_index + 1, z.0), stack0, current_state, z.0); }} }} }}'.format(A),
                'loop 2 end': 'reveal(points);', 'after loop 2': 'end_cand(%s, rng2_s, stack0[stack_index], rest(stack0, stack_index + 1));' % A, 'after loop 1': 'no_live(%s, stack0); assert(search_stack =~= Seq::<(int, int)>::empty());' % A,
                'begin': 'empty_word(%s, state0); if stack0.len() == 0 { assert(stack0 =~= Seq::<int>::empty()); }' % A}),
    dict(name='find_path_', fn=AU + 'find_path', nparams=1, params=['state_map'], requires='a_ok(%s) ;; closed(%s) ;; %s <= %s.len() < NUL()' % (A, A, N, A),
         ensures='states_s(result) == seq![NUL()] <==> !some_acc({0}, {1}) ;; some_acc({0}, {1}) ==> acc_path({0}, states_s(result)[0], states_s(result), labels_s(result)) && 0 <= states_s(result)[0] < {1} ;; !some_acc({0}, {1}) ==> labels_s(result).len() == 0'.format(A, N),
         loops={1: '0 <= i <= {1} && starts({0}, waiting, i)'.format(A, N), 2: 'pts({0}, {1}, path, label_stack, waiting) && expanded({0}, {1}, seen, waiting, -1)'.format(A, N),
                3: 'lists({0}, current, rng3_s) && 0 <= stack_index && path.len() == stack_index + 2 && label_stack.len() == stack_index + 1 && path[stack_index] == current && at_pt({0}, {1}, path, label_stack, stack_index) && pts({0}, {1}, path, label_stack, waiting) && below3(waiting, stack_index + 1) && expanded({0}, {1}, seen, waiting, current) && upto({1}, seen, rng3_s, k3)'.format(A, N)},
         hints={'before loop 1': 'reveal(starts);', 'loop 1 begin': 'raw:let ghost i_ = i; proof {{ let z = {0}[i]; if !z._accepting {{ start_next({0}, waiting, i, 0xffff_ffff); }} else {{ let s = seq![i]; let e = Seq::<int>::empty(); assert(acc_path({0}, i, s, e)); path_acc({0}, s, e); assert(acc_from({0}, {1}, i, e)); }} }}'.format(A, N),
                'before loop 2': 'started({0}, {1}, waiting, path, label_stack);'.format(A, N),
                'loop 2 begin': 'raw:let ghost s_ = waiting; let ghost current = waiting.last().0; let ghost stack_index = waiting.last().1; let ghost a_ = path; let ghost u_ = label_stack; proof {{ ex_pop({0}, {1}, seen, waiting); let z = waiting.last(); assert(z.1 >= 0 && 0 <= z.0 < {0}.len()) by {{ reveal(pts); reveal(to_pt); let y = waiting[waiting.len() - 1]; }} }}'.format(A, N),
                'before loop 3': 'pt_pop({0}, {1}, a_, u_, path, label_stack, s_); below3_up(waiting, stack_index); is_list({0}, current, rng3_s); reveal(upto);'.format(A, N),
                'loop 3 begin': 'raw:let ghost seen_ = seen; let ghost w_ = waiting; proof {{ let z = rng3_s[k3]; list_at({0}, current, rng3_s, k3); if z.1.elems.len() > 0 {{ let x = z.1.elems[0].first; assert(lhas(z.1.elems, x)); pt_push({0}, {1}, path, label_stack, waiting, stack_index, z.0, x); if acc({0}, z.0) {{ pt_done({0}, {1}, path, label_stack, stack_index, z.0, x); let b = path.update(stack_index + 1, z.0); let v = label_stack.update(stack_index, x); path_acc({0}, b, v); assert(acc_from({0}, {1}, b[0], v)); }} else {{ ex_add({0}, {1}, seen, waiting, current, z.0, stack_index + 1, x); }} }} }}'.format(A, N),
                'loop 3 end': 'assert(seen_.contains(rng3_s[k3].0) ==> seen =~= seen_); up_next({1}, seen_, seen, rng3_s, k3);'.format(A, N), 'after loop 3': 'ex_done({0}, {1}, seen, waiting, current, rng3_s);'.format(A, N), 'after loop 2': 'none_at_all({0}, {1}, seen, waiting);'.format(A, N),
                'return': 'assert forall|z: Seq<int>| #[trigger] acc_path({0}, z[0], z, Seq::<int>::empty()) implies true by {{ }}'.format(A)}),
    dict(name='add_state', fn=AU + 'add_state', params=['initial', 'accepting'], ensures='''result == this0._states.len() ;; this1._pda == this0._pda ;; grown(this0._states, this1._states, accepting0) ;; this1._accepting == (if accepting0 { this0._accepting.push(this0._states.len() as int) } else { this0._accepting }) ;; this1._initial == (if initial0 { this0._initial.push(this0._states.len() as int) } else { this0._initial }) ;; alist(this0._states, this0._accepting) ==> alist(this1._states, this1._accepting)''',
         hints={'return': 'let n = this0._states.len() as int; let z = this_._states[n]; assert(this_._states =~= this0._states.push(z)); grow(this0._states, this_._states, z); if alist(this0._states, this0._accepting) { alist_grow(this0._states, this_._states, this0._accepting, this_._accepting, accepting0); }'}),
    dict(name='add_edge', fn=AU + 'add_edge', params=['from', 'to', 'label', 'trace'], requires='a_ok(%s) ;; 0 <= from0 < %s.len() ;; label0 < 0xffff_fffe' % (A, A), ensures='a_ok(this1._states) ;; same_acc(this0._states, this1._states) ;; this1 == (paut { _states: this1._states, ..this0 }) ;; one_more(this0._states, this1._states, from0, label0, to0)', hints={'end': 'put_edge(this0._states, this_._states, from0, label0, to0);'}),
    dict(name='add_eps', fn=AU + 'add_epsilon_edge', params=['from', 'to', 'trace'], requires='a_ok(%s) ;; 0 <= from0 < %s.len()' % (A, A), ensures='a_ok(this1._states) ;; same_acc(this0._states, this1._states) ;; this1 == (paut { _states: this1._states, ..this0 }) ;; one_more(this0._states, this1._states, from0, EPS(), to0)', hints={'end': 'put_edge(this0._states, this_._states, from0, EPS(), to0);'}),
    dict(name='make_one', fn=AU + 'PAutomaton', nparams=3, sig=r'.*size_t, const std::vector<uint32_t', params=['pda', 'initial_state', 'initial_stack'], requires='0 <= initial_state0 < pda0._states.len() ;; pda0._states.len() + initial_stack0.len() < NUL() ;; forall|k: int| #![trigger initial_stack0[k]] 0 <= k < initial_stack0.len() ==> 0 <= initial_stack0[k] < 0xffff_fffe',
         ensures='pa_ok(this1) ;; this1._pda == pda0 ;; no_in(this1._states, pda0._states.len() as int) ;; forall|p: int, v: Word| 0 <= p < pda0._states.len() ==> (#[trigger] accepts(this1._states, p, v) <==> p == initial_state0 && v == initial_stack0)',
         loops={1: '0 <= i <= pda0._states.len() && this_._pda == pda0 && flat(this_._states, i, f_) && ilist(this_._initial, i) && alist(this_._states, this_._accepting)',
                2: '0 <= i_2 <= initial_stack0.len() && this_._pda == pda0 && a_ok(this_._states) && chain(this_._states, pda0._states.len() as int, initial_state0, initial_stack0, i_2) && last_state == node(pda0._states.len() as int, initial_state0, i_2) && ilist(this_._initial, pda0._states.len() as int) && alist(this_._states, this_._accepting)'},
         hints={'before loop 1': 'raw:let ghost f_ = |p: int| (initial_stack0.len() == 0 && p == initial_state0) || (initial_stack0.len() > 0 && p == pda0._states.len()); proof { flat0(f_); }', 'loop 1 begin': 'raw:let ghost m_ = this_; let ghost i_ = i;', 'loop 1 end': 'assert(this_._states.len() == i_ + 1 && m_._states.len() == i_) by { reveal(flat); } flat_grow(m_._states, this_._states, i_, f_, f_(i_)); ilist_grow(m_._initial, i_);',
                'before loop 2': 'assert(this_._states.len() == pda0._states.len()) by { reveal(flat); } flat_chain(this_._states, pda0._states.len() as int, initial_state0, initial_stack0, f_);',
                'loop 2 begin': 'raw:let ghost m_ = this_; let ghost k_ = i_2; proof { let z = initial_stack0[i_2]; assert(m_._states.len() == pda0._states.len() + k_) by { reveal(chain); } }', 'after add_state 2': 'raw:let ghost g_ = this_;', 'loop 2 end': 'chain_next(m_._states, g_._states, this_._states, pda0._states.len() as int, initial_state0, initial_stack0, k_); alist_same(g_._states, this_._states, this_._accepting);',
                'end': 'chain_ok(this_._states, pda0._states.len() as int, initial_state0, initial_stack0); assert(this_._states.len() == pda0._states.len() + initial_stack0.len()) by { reveal(chain); }'}),
    dict(name='make_special', fn=AU + 'PAutomaton', nparams=3, sig=r'.*&, const std::vector<size_t> &, bool', params=['pda', 'special_initial_states', 'special_accepting'], requires='nondec(special_initial_states0) ;; pda0._states.len() < NUL() ;; forall|k: int| #![trigger special_initial_states0[k]] 0 <= k < special_initial_states0.len() ==> 0 <= special_initial_states0[k]',
         ensures='pa_ok(this1) ;; this1._pda == pda0 ;; this1._states.len() == pda0._states.len() ;; no_in(this1._states, pda0._states.len() as int) ;; forall|p: int, v: Word| 0 <= p < pda0._states.len() ==> (#[trigger] accepts(this1._states, p, v) <==> special_accepting0 && special_initial_states0.contains(p) && v.len() == 0)',
         loops={1: '0 <= i <= pda0._states.len() && this_._pda == pda0 && flat(this_._states, i, f_) && ilist(this_._initial, i) && alist(this_._states, this_._accepting) && 0 <= j <= special_initial_states0.len() && (forall|k: int| #![trigger special_initial_states0[k]] 0 <= k < j ==> special_initial_states0[k] < i) && (forall|k: int| #![trigger special_initial_states0[k]] j <= k < special_initial_states0.len() ==> special_initial_states0[k] >= i)',
                2: '0 <= j <= special_initial_states0.len() && (first2 ==> j < special_initial_states0.len() && special_initial_states0[j] == i) && (forall|k: int| #![trigger special_initial_states0[k]] 0 <= k < j ==> special_initial_states0[k] <= i) && (forall|k: int| #![trigger special_initial_states0[k]] j <= k < special_initial_states0.len() ==> special_initial_states0[k] >= i)'},
         hints={'before loop 1': 'raw:let ghost f_ = |p: int| special_accepting0 && special_initial_states0.contains(p); proof { flat0(f_); }', 'loop 1 begin': 'raw:let ghost m_ = this_; let ghost i_ = i; let ghost j_ = j; proof { if j < special_initial_states0.len() { let z = special_initial_states0[j]; if z == i { assert(special_initial_states0.contains(i)); } } if special_initial_states0.contains(i) { let k = choose|k: int| 0 <= k < special_initial_states0.len() && special_initial_states0[k] == i; let z = special_initial_states0[j]; assert(special_initial_states0[j] == i) by { if k > j { assert(special_initial_states0[j] <= special_initial_states0[k]); } } } assert(m_._states.len() == i) by { reveal(flat); } }',
                'after loop 2': 'assert forall|k: int| #![trigger special_initial_states0[k]] j <= k < special_initial_states0.len() implies special_initial_states0[k] >= i + 1 by { assert(special_initial_states0[j] <= special_initial_states0[k]); }', 'loop 1 end': 'flat_grow(m_._states, this_._states, i_, f_, f_(i_)); ilist_grow(m_._initial, i_);', 'end': 'flat_acc(this_._states, pda0._states.len() as int, f_); assert(this_._states.len() == pda0._states.len()) by { reveal(flat); }'}),
    dict(name='make_moved', fn=AU + 'PAutomaton', nparams=2, params=['other', 'pda'], ensures='this1 == (paut { _pda: pda0, ..other0 })'),
    dict(name='make_copy', fn=AU + 'PAutomaton', nparams=1, sig=r'void \(const PAuto', params=['other'], requires='pa_ok(other0)', ensures='this1 == other0',
         loops={1: 'this_._states == other0._states.subrange(0, k1) && this_._pda == other0._pda && this_._accepting.len() == 0 && this_._initial.len() == 0 && idmap(indir, k1)',
                2: 'this_._states == other0._states && this_._pda == other0._pda && this_._accepting == other0._accepting.subrange(0, k2) && this_._initial.len() == 0 && idmap(indir, other0._states.len() as int)',
                3: 'this_._states == other0._states && this_._pda == other0._pda && this_._accepting == other0._accepting && this_._initial == other0._initial.subrange(0, k3) && idmap(indir, other0._states.len() as int)'},
         hints={'before loop 1': 'id0(indir);', 'loop 1 begin': 'raw:let ghost d_ = indir; proof { let z = other0._states[k1]; }', 'loop 1 end': 'assert(indir =~= d_.insert(k1, k1)); id_ins(d_, indir, k1); assert(this_._states =~= other0._states.subrange(0, k1 + 1));', 'after loop 1': 'assert(this_._states =~= other0._states);', 'before loop 2': 'assert(this_._accepting =~= other0._accepting.subrange(0, 0));', 'loop 2 begin': 'reveal(alist); let z = other0._accepting[k2]; assert(acc(other0._states, z)); id_get(indir, other0._states.len() as int, z);', 'loop 2 end': 'assert(this_._accepting =~= other0._accepting.subrange(0, k2 + 1));',
                'before loop 3': 'assert(this_._accepting =~= other0._accepting); assert(this_._initial =~= other0._initial.subrange(0, 0));', 'loop 3 begin': 'reveal(ilist); let z = other0._initial[k3]; assert(z == k3 && 0 <= z < other0._states.len()); id_get(indir, other0._states.len() as int, z);', 'loop 3 end': 'assert(this_._initial =~= other0._initial.subrange(0, k3 + 1));', 'end': 'assert(this_._initial =~= other0._initial);'}),
    dict(name='or_ext', fn=AU + 'or_extend', params=['other'], requires='pa_ok(this0) ;; pa_ok(other0) ;; this0._pda._states.len() == other0._pda._states.len() ;; %s.len() + other0._states.len() < NUL()' % A,
         ensures='pa_ok(this1) ;; this1._pda == this0._pda ;; joined({0}, other0._states, this1._states, {1}, other0._states.len() as int) ;; no_in({0}, {1}) && no_in(other0._states, {1}) ==> is_union({0}, other0._states, this1._states, {1}) && no_in(this1._states, {1})'.format(A, N),
         loops={1: '0 <= i <= other0._states.len() && this_._pda == this0._pda && this_._initial == this0._initial && a_ok(this_._states) && alist(this_._states, this_._accepting) && joined({0}, other0._states, this_._states, {1}, i)'.format(A, N),
                2: 'this_._pda == this0._pda && this_._initial == this0._initial && a_ok(this_._states) && alist(this_._states, this_._accepting) && lists(other0._states, i, rng2_s) && from == moved({1}, offset, i) && from < this_._states.len() && mid({0}, other0._states, this_._states, {1}, i, i + 1, d_) && some_of(other0._states, i, d_) && all_to(rng2_s, k2, d_)'.format(A, N),
                3: 'this_._pda == this0._pda && this_._initial == this0._initial && a_ok(this_._states) && alist(this_._states, this_._accepting) && from == moved({1}, offset, i) && from < this_._states.len() && mid({0}, other0._states, this_._states, {1}, i, i + 1, d_) && some_of(other0._states, i, d_) && all_to(rng2_s, k2, d_) && all_lab(rng3_s, rng2_s[k2].0, k3, d_)'.format(A, N)},
         hints={'begin': 'reveal(ilist);', 'before loop 1': 'join0({0}, other0._states, {1});'.format(A, N), 'loop 1 begin': 'raw:let ghost m_ = this_; proof {{ reveal(ilist); assert(this_._states.len() >= {0}.len()) by {{ reveal(mid); }} let z = other0._states[i]; if i < {1} {{ let y = this_._states[i]; let x = this0._initial[i]; let u = other0._initial[i]; set_flag(this_._states, this_._states.update(i, astate {{ _accepting: true, ..this_._states[i] }}), this_._accepting, i); }} }}'.format(A, N),
                'before loop 2': 'raw:let ghost mut d_ = Set::<(int, int)>::empty(); proof {{ join_state({0}, other0._states, m_._states, this_._states, {1}, i); is_list(other0._states, i, rng2_s); reveal(some_of); reveal(all_to); }}'.format(A, N),
                'loop 2 begin': 'let z = rng2_s[k2]; list_at(other0._states, i, rng2_s, k2); reveal(lists);', 'before loop 3': 'reveal(all_lab);',
                'loop 3 begin': 'raw:let ghost g_ = this_; proof { let z = rng3_s[k3]; assert(lhas(rng2_s[k2].1.elems, z.first)); }',
                'loop 3 end': 'put_edge(g_._states, this_._states, from, rng3_s[k3].first, moved({1}, offset, rng2_s[k2].0)); alist_same(g_._states, this_._states, this_._accepting); join_edge({0}, other0._states, g_._states, this_._states, {1}, i, d_, rng3_s[k3].first, rng2_s[k2].0); lab_next(other0._states, i, rng2_s, k2, rng3_s, rng2_s[k2].0, k3, d_); d_ = d_.insert((rng3_s[k3].first, rng2_s[k2].0));'.format(A, N),
                'after loop 3': 'to_next(rng2_s, k2, rng3_s, d_);', 'after loop 2': 'join_next({0}, other0._states, this_._states, {1}, i, d_, rng2_s);'.format(A, N),
                'end': 'join_closed({0}, other0._states, this_._states, {1}); if no_in({0}, {1}) && no_in(other0._states, {1}) {{ union_all({0}, other0._states, this_._states, {1}); }}'.format(A, N)}),
    dict(name='set_acc', fn=AU + 'set_state_accepting', params=['id'], requires='pa_ok(this0) ;; 0 <= id0 < %s.len()' % A, ensures='pa_ok(this1) ;; this1._pda == this0._pda ;; this1._states.len() == {0}.len() ;; same_edges({0}, this1._states) ;; forall|p: int| #[trigger] acc(this1._states, p) <==> acc({0}, p) || p == id0'.format(A), hints={'begin': 'set_flag({0}, {0}.update(id0, astate {{ _accepting: true, ..{0}[id0] }}), this0._accepting, id0); let z = {0}[id0];'.format(A), 'end': 'if acc({0}, id0) {{ assert(this_ == this0); }} else {{ assert forall|p: int, x: int, q: int| #[trigger] edge(this_._states, p, x, q) implies 0 <= q < this_._states.len() && 0 <= p < this_._states.len() by {{ assert(edge({0}, p, x, q)); }} }}'.format(A)}),
    dict(name='add_edges1', fn=AU + 'add_edges', sig=r'void \(size_t', params=['from', 'to', 'negated', 'labels'], requires='a_ok({0}) ;; 0 <= from0 < {0}.len() ;; nlabels(this0._pda) < 0xffff_fffe ;; 0 <= nlabels(this0._pda) ;; negated0 ==> incs(labels0) ;; forall|k: int| #![trigger labels0[k]] 0 <= k < labels0.len() ==> 0 <= labels0[k] && labels0[k] < (if negated0 {{ nlabels(this0._pda) }} else {{ 0xffff_fffe }})'.format(A), ensures='a_ok(this1._states) ;; same_acc({0}, this1._states) ;; this1 == (paut {{ _states: this1._states, ..this0 }}) ;; plus({0}, this1._states, seq![from0], to0, negated0, labels0, nlabels(this0._pda))'.format(A),
         loops={1: 'a_ok(this_._states) && same_acc({0}, this_._states) && this_ == (paut {{ _states: this_._states, ..this0 }}) && this_._states.len() == {0}.len() && putd({0}, this_._states, to0, d_) && 0 <= i && (if k1 == 0 {{ i == 0 }} else {{ i == labels0[k1 - 1] + 1 }}) && i <= nlabels(this0._pda) && neg_to(d_, fr_, labels0, i)'.format(A), 2: 'a_ok(this_._states) && same_acc({0}, this_._states) && this_ == (paut {{ _states: this_._states, ..this0 }}) && this_._states.len() == {0}.len() && putd({0}, this_._states, to0, d_) && 0 <= i && (k1 > 0 ==> labels0[k1 - 1] < i) && i <= labels0[k1] && neg_to(d_, fr_, labels0, i)'.format(A), 3: 'a_ok(this_._states) && same_acc({0}, this_._states) && this_ == (paut {{ _states: this_._states, ..this0 }}) && this_._states.len() == {0}.len() && putd({0}, this_._states, to0, d_) && 0 <= i <= nlabels(this0._pda) && (labels0.len() > 0 ==> labels0[labels0.len() - 1] < i) && neg_to(d_, fr_, labels0, i)'.format(A), 4: 'a_ok(this_._states) && same_acc({0}, this_._states) && this_ == (paut {{ _states: this_._states, ..this0 }}) && this_._states.len() == {0}.len() && putd({0}, this_._states, to0, d_) && pos_part(d_, fr_, labels0, 0, k4)'.format(A)},
         hints={'begin': 'raw:let ghost fr_ = seq![from0]; let ghost mut d_ = Set::<(int, int)>::empty(); proof {{ one(fr_, from0); put0({0}, to0); neg0(fr_, labels0); pos0(fr_, labels0); }}'.format(A), 'loop 1 begin': 'let z = labels0[k1]; if k1 > 0 { let y = labels0[k1 - 1]; }', 'loop 2 begin': 'raw:let ghost g_ = this_; let ghost i_ = i; proof { gap(labels0, k1, i); neg_start(d_, fr_, labels0, i); }', 'loop 2 end': 'same_acc3({0}, g_._states, this_._states); put_next({0}, g_._states, this_._states, to0, d_, from0, i_);  neg_step(d_, fr_, labels0, i_, 0); d_ = d_.insert((from0, i_)); neg_end(d_, fr_, labels0, i_);'.format(A), 'after loop 2': 'neg_skip(d_, fr_, labels0, k1);',
                'loop 3 begin': 'raw:let ghost g_ = this_; let ghost i_ = i; proof { gap(labels0, labels0.len() as int, i); neg_start(d_, fr_, labels0, i); }', 'loop 3 end': 'same_acc3({0}, g_._states, this_._states); put_next({0}, g_._states, this_._states, to0, d_, from0, i_);  neg_step(d_, fr_, labels0, i_, 0); d_ = d_.insert((from0, i_)); neg_end(d_, fr_, labels0, i_);'.format(A), 'after loop 3': 'neg_all({0}, this_._states, fr_, to0, labels0, nlabels(this0._pda), d_);'.format(A),
                'loop 4 begin': 'raw:let ghost g_ = this_; proof { let z = labels0[k4]; }', 'loop 4 end': 'same_acc3({0}, g_._states, this_._states); put_next({0}, g_._states, this_._states, to0, d_, from0, labels0[k4]);  pos_step(d_, fr_, labels0, 0, k4); d_ = d_.insert((from0, labels0[k4]));'.format(A), 'after loop 4': 'pos_end(d_, fr_, labels0, 0); pos_all({0}, this_._states, fr_, to0, labels0, nlabels(this0._pda), d_);'.format(A)}),
    dict(name='add_edges2', fn=AU + 'add_edges', sig=r'void \(const', params=['from', 'to', 'negated', 'labels'], requires='a_ok({0}) ;; forall|k: int| #![trigger from0[k]] 0 <= k < from0.len() ==> 0 <= from0[k] < {0}.len() ;; nlabels(this0._pda) < 0xffff_fffe ;; 0 <= nlabels(this0._pda) ;; negated0 ==> incs(labels0) ;; forall|k: int| #![trigger labels0[k]] 0 <= k < labels0.len() ==> 0 <= labels0[k] && labels0[k] < (if negated0 {{ nlabels(this0._pda) }} else {{ 0xffff_fffe }})'.format(A), ensures='a_ok(this1._states) ;; same_acc({0}, this1._states) ;; this1 == (paut {{ _states: this1._states, ..this0 }}) ;; plus({0}, this1._states, from0, to0, negated0, labels0, nlabels(this0._pda))'.format(A),
         loops={1: 'a_ok(this_._states) && same_acc({0}, this_._states) && this_ == (paut {{ _states: this_._states, ..this0 }}) && this_._states.len() == {0}.len() && putd({0}, this_._states, to0, d_) && 0 <= i && (if k1 == 0 {{ i == 0 }} else {{ i == labels0[k1 - 1] + 1 }}) && i <= nlabels(this0._pda) && neg_to(d_, from0, labels0, i)'.format(A), 2: 'a_ok(this_._states) && same_acc({0}, this_._states) && this_ == (paut {{ _states: this_._states, ..this0 }}) && this_._states.len() == {0}.len() && putd({0}, this_._states, to0, d_) && 0 <= i && (k1 > 0 ==> labels0[k1 - 1] < i) && i <= labels0[k1] && neg_to(d_, from0, labels0, i)'.format(A), 3: 'a_ok(this_._states) && same_acc({0}, this_._states) && this_ == (paut {{ _states: this_._states, ..this0 }}) && this_._states.len() == {0}.len() && putd({0}, this_._states, to0, d_) && neg_part(d_, from0, labels0, i, k3)'.format(A), 4: 'a_ok(this_._states) && same_acc({0}, this_._states) && this_ == (paut {{ _states: this_._states, ..this0 }}) && this_._states.len() == {0}.len() && putd({0}, this_._states, to0, d_) && 0 <= i <= nlabels(this0._pda) && (labels0.len() > 0 ==> labels0[labels0.len() - 1] < i) && neg_to(d_, from0, labels0, i)'.format(A), 5: 'a_ok(this_._states) && same_acc({0}, this_._states) && this_ == (paut {{ _states: this_._states, ..this0 }}) && this_._states.len() == {0}.len() && putd({0}, this_._states, to0, d_) && neg_part(d_, from0, labels0, i, k5)'.format(A), 6: 'a_ok(this_._states) && same_acc({0}, this_._states) && this_ == (paut {{ _states: this_._states, ..this0 }}) && this_._states.len() == {0}.len() && putd({0}, this_._states, to0, d_) && pos_part(d_, from0, labels0, k6, 0)'.format(A), 7: 'a_ok(this_._states) && same_acc({0}, this_._states) && this_ == (paut {{ _states: this_._states, ..this0 }}) && this_._states.len() == {0}.len() && putd({0}, this_._states, to0, d_) && pos_part(d_, from0, labels0, k6, k7)'.format(A)},
         hints={'begin': 'raw:let ghost mut d_ = Set::<(int, int)>::empty(); proof {{ put0({0}, to0); neg0(from0, labels0); pos0(from0, labels0); }}'.format(A), 'loop 1 begin': 'let z = labels0[k1]; if k1 > 0 { let y = labels0[k1 - 1]; }', 'loop 2 begin': 'gap(labels0, k1, i); neg_start(d_, from0, labels0, i);', 'loop 3 begin': 'raw:let ghost g_ = this_; proof { let z = from0[k3]; }', 'loop 3 end': 'same_acc3({0}, g_._states, this_._states); put_next({0}, g_._states, this_._states, to0, d_, from0[k3], i);  neg_step(d_, from0, labels0, i, k3); d_ = d_.insert((from0[k3], i));'.format(A), 'after loop 3': 'neg_end(d_, from0, labels0, i);', 'after loop 2': 'neg_skip(d_, from0, labels0, k1);',
                'loop 4 begin': 'gap(labels0, labels0.len() as int, i); neg_start(d_, from0, labels0, i);', 'loop 5 begin': 'raw:let ghost g_ = this_; proof { let z = from0[k5]; }', 'loop 5 end': 'same_acc3({0}, g_._states, this_._states); put_next({0}, g_._states, this_._states, to0, d_, from0[k5], i);  neg_step(d_, from0, labels0, i, k5); d_ = d_.insert((from0[k5], i));'.format(A), 'after loop 5': 'neg_end(d_, from0, labels0, i);', 'after loop 4': 'neg_all({0}, this_._states, from0, to0, labels0, nlabels(this0._pda), d_);'.format(A),
                'loop 6 begin': 'let z = from0[k6];', 'loop 7 begin': 'raw:let ghost g_ = this_; proof { let z = labels0[k7]; }', 'loop 7 end': 'same_acc3({0}, g_._states, this_._states); put_next({0}, g_._states, this_._states, to0, d_, from0[k6], labels0[k7]);  pos_step(d_, from0, labels0, k6, k7); d_ = d_.insert((from0[k6], labels0[k7]));'.format(A), 'after loop 7': 'pos_end(d_, from0, labels0, k6);', 'after loop 6': 'pos_all({0}, this_._states, from0, to0, labels0, nlabels(this0._pda), d_);'.format(A)}),
    dict(name='has_acc', fn=AU + 'has_accepting_state', requires='alist(%s, this0._accepting)' % A, ensures='result == (exists|p: int| #[trigger] acc(%s, p))' % A, hints={'return': 'reveal(alist); if this0._accepting.len() > 0 { let z = this0._accepting[0]; }'}),
]


def unit(ast):
    c = B.config(); c['rec_names'][r'.*AutomatonPath<0>'] = 'PathS'; c['member_ptr'] = dict(_initial='_states', _accepting='_states')
    return Unit('paut', 'paut.cpp', CONTRACTS, c, SPEC, LEMMAS, ast)
