"""N01: automaton construction over the heap of states; languages as sets of words with runs."""
from unit import Unit
from vtypes import Ty
from proofs.units import nfaq as B

SPEC = B.SPEC + r'''
pub type Word = Seq<SymT>;
pub type Lang = spec_fn(Word) -> bool;
// an edge from p to q that reads x
#[verifier::opaque]
pub open spec fn sym(H: Heap, p: int, x: SymT, q: int) -> bool { H.dom().contains(p) && exists|i: int| #![trigger H[p]._edges[i]] 0 <= i < H[p]._edges.len() && H[p]._edges[i]._destination == q && den(H[p]._edges[i], x) }
pub open spec fn eps(H: Heap, p: int, q: int) -> bool { step(H, false, p, q) }
// a run of n moves from p to q that reads w
pub open spec fn run(H: Heap, p: int, w: Word, q: int, n: nat) -> bool decreases n {
    if n == 0 { p == q && w.len() == 0 }
    else { (exists|r: int| #![trigger eps(H, r, q)] run(H, p, w, r, (n - 1) as nat) && eps(H, r, q)) || (w.len() > 0 && exists|r: int| #![trigger sym(H, r, w.last(), q)] run(H, p, w.drop_last(), r, (n - 1) as nat) && sym(H, r, w.last(), q)) } }
#[verifier::opaque]
pub open spec fn walk(H: Heap, p: int, w: Word, q: int) -> bool { exists|n: nat| #[trigger] run(H, p, w, q, n) }
// the language of an automaton
pub open spec fn acc_at(H: Heap, a: nfa_t, w: Word, p: int, q: int) -> bool { a._initial.contains(p) && a._accepting.contains(q) && walk(H, p, w, q) }
pub open spec fn lang(H: Heap, a: nfa_t, w: Word) -> bool { exists|p: int, q: int| #[trigger] acc_at(H, a, w, p, q) }
pub open spec fn lang_of(H: Heap, a: nfa_t) -> Lang { |w: Word| lang(H, a, w) }
pub open spec fn cat_at(l: Lang, m: Lang, w: Word, u: Word, v: Word) -> bool { w == u + v && l(u) && m(v) }
pub open spec fn cat(l: Lang, m: Lang, w: Word) -> bool { exists|u: Word, v: Word| #[trigger] cat_at(l, m, w, u, v) }
// k-fold concatenation
pub open spec fn pow(l: Lang, k: nat, w: Word) -> bool decreases k { if k == 0 { w.len() == 0 } else { exists|u: Word, v: Word| #[trigger] splits(w, u, v) && pow(l, (k - 1) as nat, u) && l(v) } }
pub open spec fn splits(w: Word, u: Word, v: Word) -> bool { w == u + v }
pub open spec fn star(l: Lang, w: Word) -> bool { exists|k: nat| #[trigger] pow(l, k, w) }
pub open spec fn plus(l: Lang, w: Word) -> bool { exists|k: nat| k > 0 && #[trigger] pow(l, k, w) }
// ---- heap shape
pub open spec fn sts(a: nfa_t) -> Set<int> { a._states.to_set() }
pub open spec fn owned(H: Heap, O: Set<int>) -> bool { forall|p: int| #[trigger] O.contains(p) ==> H.dom().contains(p) }
// the states of O form a graph of their own: edges and back edges stay inside and correspond to each other
#[verifier::opaque]
pub open spec fn graph(H: Heap, O: Set<int>) -> bool {
    &&& sym_order()
    &&& forall|p: int, i: int| #![trigger H[p]._edges[i]] O.contains(p) && 0 <= i < H[p]._edges.len() ==> O.contains(H[p]._edges[i]._destination) && sinc(H[p]._edges[i]._symbols) && H[H[p]._edges[i]._destination]._backedges.contains((p, i))
    &&& forall|p: int, k: int| #![trigger H[p]._backedges[k]] O.contains(p) && 0 <= k < H[p]._backedges.len() ==> O.contains(H[p]._backedges[k].0) && 0 <= H[p]._backedges[k].1 < H[H[p]._backedges[k].0]._edges.len() && H[H[p]._backedges[k].0]._edges[H[p]._backedges[k].1]._destination == p
}
pub open spec fn nfa_ok(H: Heap, a: nfa_t) -> bool {
    &&& owned(H, sts(a)) &&& graph(H, sts(a)) &&& a._states.no_duplicates() &&& a._initial.no_duplicates()
    &&& forall|q: int| #[trigger] a._initial.contains(q) ==> sts(a).contains(q)
    &&& forall|q: int| #[trigger] a._accepting.contains(q) <==> sts(a).contains(q) && H[q]._accepting
}
pub open spec fn apart(a: nfa_t, b: nfa_t) -> bool { forall|p: int| #![trigger sts(a).contains(p)] #![trigger sts(b).contains(p)] !(sts(a).contains(p) && sts(b).contains(p)) }
// every live state outside O is untouched; nothing is freed
pub open spec fn frame(H0: Heap, H1: Heap, O: Set<int>) -> bool { forall|p: int| #![trigger H1.dom().contains(p)] #![trigger H1[p]] H0.dom().contains(p) ==> H1.dom().contains(p) && (!O.contains(p) ==> H1[p] == H0[p]) }
// the automaton owns the states of O and states that did not exist before
pub open spec fn owns(H0: Heap, a: nfa_t, O: Set<int>) -> bool { (forall|p: int| #[trigger] sts(a).contains(p) ==> O.contains(p) || !H0.dom().contains(p)) && forall|p: int| #[trigger] O.contains(p) ==> sts(a).contains(p) }
pub open spec fn add_eps(H: Heap, p: int, to: int) -> Heap {
    let m = H.insert(to, nstate { _backedges: H[to]._backedges.push((p, H[p]._edges.len() as int)), ..H[to] });
    m.insert(p, nstate { _edges: m[p]._edges.push(nedge { _epsilon: true, _negated: false, _symbols: Seq::empty(), _destination: to }), ..m[p] }) }
// H is H0 with the empty moves of E added
pub open spec fn more(H0: Heap, H: Heap, O: Set<int>, E: Set<(int, int)>) -> bool {
    &&& H.dom() == H0.dom() &&& owned(H, O) &&& graph(H, O) &&& frame(H0, H, O)
    &&& forall|p: int, q: int| #[trigger] eps(H, p, q) <==> eps(H0, p, q) || E.contains((p, q))
    &&& forall|p: int, x: SymT, q: int| #[trigger] sym(H, p, x, q) <==> sym(H0, p, x, q)
}
pub open spec fn in_first(H: Heap, a: nfa_t, p: int, w: Word, q: int) -> bool { sts(a).contains(q) && walk(H, p, w, q) }
pub open spec fn second_at(H: Heap, a: nfa_t, b: nfa_t, w: Word, q: int, u: Word, t: Word, i: int) -> bool { splits(w, u, t) && lang(H, a, u) && b._initial.contains(i) && walk(H, i, t, q) }
pub open spec fn in_second(H: Heap, a: nfa_t, b: nfa_t, w: Word, q: int) -> bool { exists|u: Word, t: Word, i: int| #[trigger] second_at(H, a, b, w, q, u, t, i) }
pub open spec fn rounds_at(H: Heap, a: nfa_t, w: Word, q: int, u: Word, t: Word, k: nat, i: int) -> bool { splits(w, u, t) && pow(lang_of(H, a), k, u) && a._initial.contains(i) && walk(H, i, t, q) }
pub open spec fn rounds(H: Heap, a: nfa_t, w: Word, q: int) -> bool { exists|u: Word, t: Word, k: nat, i: int| #[trigger] rounds_at(H, a, w, q, u, t, k, i) }
pub open spec fn set_eps(H: Heap, p: int, i: int) -> Heap { H.insert(p, nstate { _edges: H[p]._edges.update(i, nedge { _epsilon: true, ..H[p]._edges[i] }), ..H[p] }) }
// all new states belong to the automaton
pub open spec fn grow(H0: Heap, H1: Heap, a: nfa_t) -> bool { forall|p: int| #[trigger] H1.dom().contains(p) ==> H0.dom().contains(p) || sts(a).contains(p) }
pub open spec fn ereach(H: Heap, s: Seq<int>, q: int) -> bool { reach_from(H, s, q) }
pub uninterp spec fn same_obj() -> bool;
// the copy of a state under the renaming f
pub open spec fn ren(f: Map<int, int>, s: nstate) -> nstate { nstate { _edges: Seq::new(s._edges.len(), |j: int| nedge { _destination: f[s._edges[j]._destination], ..s._edges[j] }), _backedges: Seq::new(s._backedges.len(), |j: int| (f[s._backedges[j].0], s._backedges[j].1)), _accepting: s._accepting } }
pub open spec fn iso(H0: Heap, H: Heap, f: Map<int, int>, O: Set<int>) -> bool { (forall|p: int| #[trigger] O.contains(p) ==> f.dom().contains(p) && H.dom().contains(f[p]) && H[f[p]] == ren(f, H0[p])) && forall|p: int, q: int| #![trigger f[p], f[q]] O.contains(p) && O.contains(q) && f[p] == f[q] ==> p == q }
pub open spec fn one_edge(H: Heap, p: int, q: int, neg: bool, l: Set<SymT>) -> bool { let e = H[p]._edges[0];
    H[p]._edges.len() == 1 && H[p]._backedges.len() == 0 && H[q]._edges.len() == 0 && H[q]._backedges.len() == 1 && H[q]._backedges[0] == (p, 0int) && e._negated == neg && !e._epsilon && e._destination == q && sinc(e._symbols) && forall|x: SymT| #[trigger] e._symbols.contains(x) == l.contains(x) }
pub open spec fn same_acc(H0: Heap, H: Heap) -> bool { forall|p: int| #![trigger H[p]._accepting] H0.dom().contains(p) ==> H[p]._accepting == H0[p]._accepting }
'''
LEMMAS = B.LEMMAS + r'''
proof fn sym_at(H: Heap, p: int, i: int, x: SymT) requires H.dom().contains(p), 0 <= i < H[p]._edges.len(), den(H[p]._edges[i], x), ensures sym(H, p, x, H[p]._edges[i]._destination) { reveal(sym); }
proof fn sym_of(H: Heap, p: int, x: SymT, q: int) -> (i: int) requires sym(H, p, x, q), ensures H.dom().contains(p), 0 <= i < H[p]._edges.len(), H[p]._edges[i]._destination == q, den(H[p]._edges[i], x)
{ reveal(sym); choose|i: int| #![trigger H[p]._edges[i]] 0 <= i < H[p]._edges.len() && H[p]._edges[i]._destination == q && den(H[p]._edges[i], x) }
// ---- runs
proof fn w_refl(H: Heap, p: int, w: Word) requires w.len() == 0, ensures walk(H, p, w, p) { reveal(walk); assert(run(H, p, w, p, 0)); }
proof fn w_eps(H: Heap, p: int, w: Word, r: int, q: int) requires walk(H, p, w, r), eps(H, r, q), ensures walk(H, p, w, q)
{ reveal(walk); let n = choose|n: nat| #[trigger] run(H, p, w, r, n); assert(run(H, p, w, q, (n + 1) as nat)); }
proof fn w_sym(H: Heap, p: int, w: Word, r: int, x: SymT, q: int) requires walk(H, p, w, r), sym(H, r, x, q), ensures walk(H, p, w.push(x), q)
{ reveal(walk); let n = choose|n: nat| #[trigger] run(H, p, w, r, n); let v = w.push(x); assert(v.drop_last() =~= w); assert(v.last() == x); assert(run(H, p, v, q, (n + 1) as nat)); }
// runs compose
proof fn w_cat(H: Heap, p: int, u: Word, r: int, v: Word, q: int, n: nat) requires walk(H, p, u, r), run(H, r, v, q, n), ensures walk(H, p, u + v, q) decreases n
{ if n == 0 { assert(u + v =~= u); } else if exists|t: int| #![trigger eps(H, t, q)] run(H, r, v, t, (n - 1) as nat) && eps(H, t, q) { let t = choose|t: int| #![trigger eps(H, t, q)] run(H, r, v, t, (n - 1) as nat) && eps(H, t, q); w_cat(H, p, u, r, v, t, (n - 1) as nat); w_eps(H, p, u + v, t, q); }
  else { let t = choose|t: int| #![trigger sym(H, t, v.last(), q)] run(H, r, v.drop_last(), t, (n - 1) as nat) && sym(H, t, v.last(), q); w_cat(H, p, u, r, v.drop_last(), t, (n - 1) as nat); w_sym(H, p, u + v.drop_last(), t, v.last(), q); assert((u + v.drop_last()).push(v.last()) =~= u + v); } }
proof fn walk_cat(H: Heap, p: int, u: Word, r: int, v: Word, q: int) requires walk(H, p, u, r), walk(H, r, v, q), ensures walk(H, p, u + v, q)
{ reveal(walk); let n = choose|n: nat| #[trigger] run(H, r, v, q, n); w_cat(H, p, u, r, v, q, n); }
// a graph keeps its runs inside; runs carry over to a heap with at least the same moves
proof fn stay(H: Heap, O: Set<int>, p: int, w: Word, q: int, n: nat) requires graph(H, O), O.contains(p), run(H, p, w, q, n), ensures O.contains(q) decreases n
{ if n > 0 { reveal(graph); if exists|t: int| #![trigger eps(H, t, q)] run(H, p, w, t, (n - 1) as nat) && eps(H, t, q) { let t = choose|t: int| #![trigger eps(H, t, q)] run(H, p, w, t, (n - 1) as nat) && eps(H, t, q); stay(H, O, p, w, t, (n - 1) as nat); let i = step_of(H, false, t, q); assert(O.contains(H[t]._edges[i]._destination)); }
  else { let t = choose|t: int| #![trigger sym(H, t, w.last(), q)] run(H, p, w.drop_last(), t, (n - 1) as nat) && sym(H, t, w.last(), q); stay(H, O, p, w.drop_last(), t, (n - 1) as nat); let i = sym_of(H, t, w.last(), q); assert(O.contains(H[t]._edges[i]._destination)); } } }
proof fn carry(H: Heap, G: Heap, O: Set<int>, p: int, w: Word, q: int, n: nat) requires graph(H, O), O.contains(p), run(H, p, w, q, n), forall|a: int, b: int| #![trigger eps(G, a, b)] #![trigger eps(H, a, b)] O.contains(a) && eps(H, a, b) ==> eps(G, a, b), forall|a: int, x: SymT, b: int| #![trigger sym(G, a, x, b)] #![trigger sym(H, a, x, b)] O.contains(a) && sym(H, a, x, b) ==> sym(G, a, x, b), ensures walk(G, p, w, q) decreases n
{ if n == 0 { w_refl(G, p, w); } else if exists|t: int| #![trigger eps(H, t, q)] run(H, p, w, t, (n - 1) as nat) && eps(H, t, q) { let t = choose|t: int| #![trigger eps(H, t, q)] run(H, p, w, t, (n - 1) as nat) && eps(H, t, q); carry(H, G, O, p, w, t, (n - 1) as nat); stay(H, O, p, w, t, (n - 1) as nat); w_eps(G, p, w, t, q); }
  else { let t = choose|t: int| #![trigger sym(H, t, w.last(), q)] run(H, p, w.drop_last(), t, (n - 1) as nat) && sym(H, t, w.last(), q); carry(H, G, O, p, w.drop_last(), t, (n - 1) as nat); stay(H, O, p, w.drop_last(), t, (n - 1) as nat); w_sym(G, p, w.drop_last(), t, w.last(), q); assert(w.drop_last().push(w.last()) =~= w); } }
proof fn carry_w(H: Heap, G: Heap, O: Set<int>, p: int, w: Word, q: int) requires graph(H, O), O.contains(p), walk(H, p, w, q), forall|a: int, b: int| #![trigger eps(G, a, b)] #![trigger eps(H, a, b)] O.contains(a) && eps(H, a, b) ==> eps(G, a, b), forall|a: int, x: SymT, b: int| #![trigger sym(G, a, x, b)] #![trigger sym(H, a, x, b)] O.contains(a) && sym(H, a, x, b) ==> sym(G, a, x, b), ensures walk(G, p, w, q), O.contains(q)
{ reveal(walk); let n = choose|n: nat| #[trigger] run(H, p, w, q, n); carry(H, G, O, p, w, q, n); stay(H, O, p, w, q, n); }
// ---- heap changes
proof fn frame_graph(H: Heap, G: Heap, O: Set<int>) requires graph(H, O), owned(H, O), forall|p: int| #[trigger] O.contains(p) ==> G.dom().contains(p) && G[p] == H[p], ensures graph(G, O), owned(G, O), forall|p: int, q: int| O.contains(p) ==> (#[trigger] eps(G, p, q) <==> eps(H, p, q)), forall|p: int, x: SymT, q: int| O.contains(p) ==> (#[trigger] sym(G, p, x, q) <==> sym(H, p, x, q))
{ reveal(graph); reveal(step); reveal(sym);
  assert forall|p: int, i: int| #![trigger G[p]._edges[i]] O.contains(p) && 0 <= i < G[p]._edges.len() implies O.contains(G[p]._edges[i]._destination) && sinc(G[p]._edges[i]._symbols) && G[G[p]._edges[i]._destination]._backedges.contains((p, i)) by { assert(H[p]._edges[i] == G[p]._edges[i]); }
  assert forall|p: int, k: int| #![trigger G[p]._backedges[k]] O.contains(p) && 0 <= k < G[p]._backedges.len() implies O.contains(G[p]._backedges[k].0) && 0 <= G[p]._backedges[k].1 < G[G[p]._backedges[k].0]._edges.len() && G[G[p]._backedges[k].0]._edges[G[p]._backedges[k].1]._destination == p by { assert(H[p]._backedges[k] == G[p]._backedges[k]); }
  assert forall|p: int, q: int| O.contains(p) implies (#[trigger] eps(G, p, q) <==> eps(H, p, q)) by { assert(G[p] == H[p]); }
  assert forall|p: int, x: SymT, q: int| O.contains(p) implies (#[trigger] sym(G, p, x, q) <==> sym(H, p, x, q)) by { assert(G[p] == H[p]); } }
proof fn both(H: Heap, A: Set<int>, C: Set<int>) requires graph(H, A), graph(H, C), ensures graph(H, A.union(C))
{ reveal(graph); let O = A.union(C);
  assert forall|p: int, i: int| #![trigger H[p]._edges[i]] O.contains(p) && 0 <= i < H[p]._edges.len() implies O.contains(H[p]._edges[i]._destination) && sinc(H[p]._edges[i]._symbols) && H[H[p]._edges[i]._destination]._backedges.contains((p, i)) by { if A.contains(p) {} else {} }
  assert forall|p: int, k: int| #![trigger H[p]._backedges[k]] O.contains(p) && 0 <= k < H[p]._backedges.len() implies O.contains(H[p]._backedges[k].0) && 0 <= H[p]._backedges[k].1 < H[H[p]._backedges[k].0]._edges.len() && H[H[p]._backedges[k].0]._edges[H[p]._backedges[k].1]._destination == p by { if A.contains(p) {} else {} } }
proof fn seq_push_has<T>(s: Seq<T>, x: T) ensures forall|y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x
{ assert forall|y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x by { let t = s.push(x); if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; if i < s.len() { assert(s[i] == y); } } if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i] == y); } if y == x { assert(t[s.len() as int] == y); } } }
proof fn add_ok(H: Heap, O: Set<int>, p: int, to: int) requires graph(H, O), owned(H, O), O.contains(p), O.contains(to),
    ensures ({ let G = add_eps(H, p, to); more(H, G, O, set![(p, to)]) && same_acc(H, G) && forall|a: int| #![trigger G[a]] a != p && a != to && H.dom().contains(a) ==> G[a] == H[a] })
{ reveal(graph); let G = add_eps(H, p, to); let n = H[p]._edges.len() as int; let E = set![(p, to)];
  assert(G.dom() =~= H.dom());
  assert(G[p]._edges == H[p]._edges.push(nedge { _epsilon: true, _negated: false, _symbols: Seq::empty(), _destination: to }));
  assert(forall|a: int| #![trigger G[a]._edges] a != p && H.dom().contains(a) ==> G[a]._edges == H[a]._edges);
  assert(G[to]._backedges == H[to]._backedges.push((p, n)));
  assert(forall|a: int| #![trigger G[a]._backedges] a != to && H.dom().contains(a) ==> G[a]._backedges == H[a]._backedges);
  seq_push_has(H[to]._backedges, (p, n));
  assert forall|a: int, i: int| #![trigger G[a]._edges[i]] O.contains(a) && 0 <= i < G[a]._edges.len() implies O.contains(G[a]._edges[i]._destination) && sinc(G[a]._edges[i]._symbols) && G[G[a]._edges[i]._destination]._backedges.contains((a, i)) by {
    if a == p && i == n {} else { assert(G[a]._edges[i] == H[a]._edges[i]); let d = H[a]._edges[i]._destination; assert(H[d]._backedges.contains((a, i))); } }
  assert forall|a: int, k: int| #![trigger G[a]._backedges[k]] O.contains(a) && 0 <= k < G[a]._backedges.len() implies O.contains(G[a]._backedges[k].0) && 0 <= G[a]._backedges[k].1 < G[G[a]._backedges[k].0]._edges.len() && G[G[a]._backedges[k].0]._edges[G[a]._backedges[k].1]._destination == a by {
    if a == to && k == H[to]._backedges.len() { assert(G[p]._edges[n]._destination == to); } else { assert(G[a]._backedges[k] == H[a]._backedges[k]); let b = H[a]._backedges[k]; assert(H[b.0]._edges[b.1]._destination == a); assert(G[b.0]._edges[b.1] == H[b.0]._edges[b.1]); } }
  assert forall|a: int, b: int| #[trigger] eps(G, a, b) <==> eps(H, a, b) || E.contains((a, b)) by {
    if eps(G, a, b) { let i = step_of(G, false, a, b); if a == p && i == n {} else { assert(G[a]._edges[i] == H[a]._edges[i]); step_at(H, false, a, i); } }
    if eps(H, a, b) { let i = step_of(H, false, a, b); assert(G[a]._edges[i] == H[a]._edges[i]); step_at(G, false, a, i); }
    if (a, b) == (p, to) { step_at(G, false, p, n); } }
  assert forall|a: int, x: SymT, b: int| #[trigger] sym(G, a, x, b) <==> sym(H, a, x, b) by {
    if sym(G, a, x, b) { let i = sym_of(G, a, x, b); if a == p && i == n { } else { assert(G[a]._edges[i] == H[a]._edges[i]); sym_at(H, a, i, x); } }
    if sym(H, a, x, b) { let i = sym_of(H, a, x, b); assert(G[a]._edges[i] == H[a]._edges[i]); sym_at(G, a, i, x); } } }
proof fn acc_ok(H: Heap, O: Set<int>, p: int, v: bool) requires graph(H, O), owned(H, O), O.contains(p), ensures more(H, H.insert(p, nstate { _accepting: v, ..H[p] }), O, Set::empty())
{ reveal(graph); let G = H.insert(p, nstate { _accepting: v, ..H[p] }); assert(G.dom() =~= H.dom()); assert(forall|a: int| #![trigger G[a]] H.dom().contains(a) ==> G[a]._edges == H[a]._edges && G[a]._backedges == H[a]._backedges);
  assert forall|a: int, i: int| #![trigger G[a]._edges[i]] O.contains(a) && 0 <= i < G[a]._edges.len() implies O.contains(G[a]._edges[i]._destination) && sinc(G[a]._edges[i]._symbols) && G[G[a]._edges[i]._destination]._backedges.contains((a, i)) by { assert(G[a]._edges[i] == H[a]._edges[i]); }
  assert forall|a: int, k: int| #![trigger G[a]._backedges[k]] O.contains(a) && 0 <= k < G[a]._backedges.len() implies O.contains(G[a]._backedges[k].0) && 0 <= G[a]._backedges[k].1 < G[G[a]._backedges[k].0]._edges.len() && G[G[a]._backedges[k].0]._edges[G[a]._backedges[k].1]._destination == a by { assert(G[a]._backedges[k] == H[a]._backedges[k]); }
  assert forall|a: int, b: int| #[trigger] eps(G, a, b) <==> eps(H, a, b) || Set::<(int, int)>::empty().contains((a, b)) by { reveal(step); if H.dom().contains(a) { assert(G[a]._edges == H[a]._edges); } }
  assert forall|a: int, x: SymT, b: int| #[trigger] sym(G, a, x, b) <==> sym(H, a, x, b) by { reveal(sym); if H.dom().contains(a) { assert(G[a]._edges == H[a]._edges); } } }
proof fn more_trans(H0: Heap, H1: Heap, H2: Heap, O: Set<int>, E: Set<(int, int)>, F: Set<(int, int)>) requires more(H0, H1, O, E), more(H1, H2, O, F), ensures more(H0, H2, O, E.union(F)) {}
proof fn more_refl(H: Heap, O: Set<int>) requires graph(H, O), owned(H, O), ensures more(H, H, O, Set::empty()) {}
// induction over runs
proof fn run_ind(H: Heap, p: int, P: spec_fn(Word, int) -> bool, w: Word, q: int, n: nat) requires run(H, p, w, q, n), P(Seq::empty(), p), forall|v: Word, a: int, b: int| #![trigger P(v, a), eps(H, a, b)] P(v, a) && eps(H, a, b) ==> P(v, b), forall|v: Word, a: int, x: SymT, b: int| #![trigger P(v, a), sym(H, a, x, b)] P(v, a) && sym(H, a, x, b) ==> P(v.push(x), b), ensures P(w, q) decreases n
{ if n == 0 { assert(w =~= Seq::empty()); } else if exists|t: int| #![trigger eps(H, t, q)] run(H, p, w, t, (n - 1) as nat) && eps(H, t, q) { let t = choose|t: int| #![trigger eps(H, t, q)] run(H, p, w, t, (n - 1) as nat) && eps(H, t, q); run_ind(H, p, P, w, t, (n - 1) as nat); }
  else { let t = choose|t: int| #![trigger sym(H, t, w.last(), q)] run(H, p, w.drop_last(), t, (n - 1) as nat) && sym(H, t, w.last(), q); run_ind(H, p, P, w.drop_last(), t, (n - 1) as nat); assert(w.drop_last().push(w.last()) =~= w); } }
proof fn walk_ind(H: Heap, p: int, P: spec_fn(Word, int) -> bool, w: Word, q: int) requires walk(H, p, w, q), P(Seq::empty(), p), forall|v: Word, a: int, b: int| #![trigger P(v, a), eps(H, a, b)] P(v, a) && eps(H, a, b) ==> P(v, b), forall|v: Word, a: int, x: SymT, b: int| #![trigger P(v, a), sym(H, a, x, b)] P(v, a) && sym(H, a, x, b) ==> P(v.push(x), b), ensures P(w, q)
{ reveal(walk); let n = choose|n: nat| #[trigger] run(H, p, w, q, n); run_ind(H, p, P, w, q, n); }
proof fn walk_stay(H: Heap, O: Set<int>, p: int, w: Word, q: int) requires graph(H, O), O.contains(p), walk(H, p, w, q), ensures O.contains(q)
{ reveal(walk); let n = choose|n: nat| #[trigger] run(H, p, w, q, n); stay(H, O, p, w, q, n); }
proof fn fresh_node(H: Heap, p: int, acc: bool) requires sym_order(), ensures ({ let G = H.insert(p, nstate { _edges: Seq::empty(), _backedges: Seq::empty(), _accepting: acc }); graph(G, set![p]) && owned(G, set![p]) && (forall|q: int| !#[trigger] eps(G, p, q)) && (forall|x: SymT, q: int| !#[trigger] sym(G, p, x, q)) && (forall|a: int, q: int| a != p ==> (#[trigger] eps(G, a, q) <==> eps(H, a, q))) && (forall|a: int, x: SymT, q: int| a != p ==> (#[trigger] sym(G, a, x, q) <==> sym(H, a, x, q))) })
{ reveal(graph); reveal(step); reveal(sym); let G = H.insert(p, nstate { _edges: Seq::empty(), _backedges: Seq::empty(), _accepting: acc }); assert(G[p]._edges.len() == 0); assert(G[p]._backedges.len() == 0);
  assert forall|a: int, q: int| a != p implies (#[trigger] eps(G, a, q) <==> eps(H, a, q)) by { assert(G.dom().contains(a) == H.dom().contains(a)); assert(G[a] == H[a]); }
  assert forall|a: int, x: SymT, q: int| a != p implies (#[trigger] sym(G, a, x, q) <==> sym(H, a, x, q)) by { assert(G.dom().contains(a) == H.dom().contains(a)); assert(G[a] == H[a]); } }
// a new state next to a graph
proof fn join_node(H: Heap, O: Set<int>, n: int, acc: bool) requires graph(H, O), owned(H, O), !H.dom().contains(n), ensures ({ let G = H.insert(n, nstate { _edges: Seq::empty(), _backedges: Seq::empty(), _accepting: acc }); graph(G, O.insert(n)) && owned(G, O.insert(n)) && !O.contains(n) && (forall|p: int, q: int| (#[trigger] eps(G, p, q) <==> p != n && eps(H, p, q))) && (forall|p: int, x: SymT, q: int| (#[trigger] sym(G, p, x, q) <==> p != n && sym(H, p, x, q))) && frame(H, G, Set::empty()) })
{ let G = H.insert(n, nstate { _edges: Seq::empty(), _backedges: Seq::empty(), _accepting: acc }); reveal(graph); fresh_node(H, n, acc); frame_graph(H, G, O); both(G, O, set![n]); assert(O.union(set![n]) =~= O.insert(n)); }
proof fn lang_at(H: Heap, a: nfa_t, w: Word, p: int, q: int) requires a._initial.contains(p), a._accepting.contains(q), walk(H, p, w, q), ensures lang(H, a, w) { assert(acc_at(H, a, w, p, q)); }
proof fn one_lang(H: Heap, a: nfa_t, p: int) requires a._initial.len() == 1, a._initial[0] == p, forall|q: int| !#[trigger] eps(H, p, q), forall|x: SymT, q: int| !#[trigger] sym(H, p, x, q), ensures forall|w: Word| #[trigger] lang(H, a, w) <==> w.len() == 0 && a._accepting.contains(p)
{ assert forall|w: Word| #[trigger] lang(H, a, w) <==> w.len() == 0 && a._accepting.contains(p) by {
    assert(a._initial[0] == p); if w.len() == 0 && a._accepting.contains(p) { w_refl(H, p, w); lang_at(H, a, w, p, p); }
    if lang(H, a, w) { let (i, q) = choose|i: int, q: int| #[trigger] acc_at(H, a, w, i, q); let P = |v: Word, s: int| v.len() == 0 && s == p; walk_ind(H, i, P, w, q); } } }
// ---- the language of the combined automata
pub proof fn tail_eq(w: Word, u: Word, v: Word, x: SymT) requires splits(w, u, v), ensures splits(w.push(x), u, v.push(x)) { assert(w.push(x) =~= u + v.push(x)); }
proof fn concat_lang(H0: Heap, H: Heap, a: nfa_t, b: nfa_t, c: nfa_t, E: Set<(int, int)>)
    requires nfa_ok(H0, a), nfa_ok(H0, b), apart(a, b), c._initial == a._initial, c._accepting == b._accepting, more(H0, H, sts(a).union(sts(b)), E), forall|p: int, q: int| #[trigger] E.contains((p, q)) <==> a._accepting.contains(p) && b._initial.contains(q),
    ensures forall|w: Word| #[trigger] lang(H, c, w) <==> cat(lang_of(H0, a), lang_of(H0, b), w)
{ let l = lang_of(H0, a); let m = lang_of(H0, b);
  assert forall|w: Word| #[trigger] lang(H, c, w) <==> cat(l, m, w) by {
    if cat(l, m, w) { let (u, v) = choose|u: Word, v: Word| #[trigger] cat_at(l, m, w, u, v); assert(lang(H0, a, u) && lang(H0, b, v)); let (p, q) = choose|p: int, q: int| #[trigger] acc_at(H0, a, u, p, q); let (i, f) = choose|p: int, q: int| #[trigger] acc_at(H0, b, v, p, q);
      carry_w(H0, H, sts(a), p, u, q); carry_w(H0, H, sts(b), i, v, f); assert(E.contains((q, i))); w_eps(H, p, u, q, i); walk_cat(H, p, u, i, v, f); lang_at(H, c, w, p, f); }
    if lang(H, c, w) { let (p, f) = choose|p: int, f: int| #[trigger] acc_at(H, c, w, p, f);
      let P = |v: Word, q: int| in_first(H0, a, p, v, q) || in_second(H0, a, b, v, q);
      w_refl(H0, p, Seq::empty());
      assert forall|v: Word, x: int, y: int| #![trigger P(v, x), eps(H, x, y)] P(v, x) && eps(H, x, y) implies P(v, y) by {
        if in_first(H0, a, p, v, x) { if eps(H0, x, y) { w_eps(H0, p, v, x, y); walk_stay(H0, sts(a), p, v, y); } else { assert(E.contains((x, y))); lang_at(H0, a, v, p, x); w_refl(H0, y, Seq::empty()); assert(v + Seq::empty() =~= v); assert(second_at(H0, a, b, v, y, v, Seq::empty(), y)); } }
        else { let (u, t, i) = choose|u: Word, t: Word, i: int| #[trigger] second_at(H0, a, b, v, x, u, t, i); walk_stay(H0, sts(b), i, t, x); if E.contains((x, y)) { assert(sts(a).contains(x)); } w_eps(H0, i, t, x, y); assert(second_at(H0, a, b, v, y, u, t, i)); } }
      assert forall|v: Word, x: int, z: SymT, y: int| #![trigger P(v, x), sym(H, x, z, y)] P(v, x) && sym(H, x, z, y) implies P(v.push(z), y) by {
        if in_first(H0, a, p, v, x) { w_sym(H0, p, v, x, z, y); walk_stay(H0, sts(a), p, v.push(z), y); }
        else { let (u, t, i) = choose|u: Word, t: Word, i: int| #[trigger] second_at(H0, a, b, v, x, u, t, i); w_sym(H0, i, t, x, z, y); tail_eq(v, u, t, z); assert(second_at(H0, a, b, v.push(z), y, u, t.push(z), i)); } }
      walk_ind(H, p, P, w, f);
      if in_first(H0, a, p, w, f) { assert(sts(b).contains(f)); assert(false); } else { let (u, t, i) = choose|u: Word, t: Word, i: int| #[trigger] second_at(H0, a, b, w, f, u, t, i); lang_at(H0, b, t, i, f); assert(cat_at(l, m, w, u, t)); } } } }
// an automaton whose only initial state n is new and has empty moves to the states of I
proof fn fork_lang(H0: Heap, H: Heap, O: Set<int>, n: int, I: Set<int>, w: Word, q: int)
    requires graph(H0, O), !O.contains(n), forall|i: int| #[trigger] I.contains(i) ==> O.contains(i), forall|p: int, r: int| O.contains(p) ==> (#[trigger] eps(H, p, r) <==> eps(H0, p, r)), forall|p: int, x: SymT, r: int| O.contains(p) ==> (#[trigger] sym(H, p, x, r) <==> sym(H0, p, x, r)),
        forall|r: int| #[trigger] eps(H, n, r) <==> I.contains(r), forall|x: SymT, r: int| !#[trigger] sym(H, n, x, r),
    ensures walk(H, n, w, q) <==> (w.len() == 0 && q == n) || exists|i: int| #![trigger walk(H0, i, w, q)] I.contains(i) && walk(H0, i, w, q)
{ if w.len() == 0 && q == n { w_refl(H, n, w); }
  if exists|i: int| #![trigger walk(H0, i, w, q)] I.contains(i) && walk(H0, i, w, q) { let i = choose|i: int| #![trigger walk(H0, i, w, q)] I.contains(i) && walk(H0, i, w, q); carry_w(H0, H, O, i, w, q); let e = Seq::<SymT>::empty(); w_refl(H, n, e); w_eps(H, n, e, n, i); walk_cat(H, n, e, i, w, q); assert(e + w =~= w); }
  if walk(H, n, w, q) { let P = |v: Word, s: int| (v.len() == 0 && s == n) || (O.contains(s) && exists|i: int| #![trigger walk(H0, i, v, s)] I.contains(i) && walk(H0, i, v, s));
    assert forall|v: Word, x: int, y: int| #![trigger P(v, x), eps(H, x, y)] P(v, x) && eps(H, x, y) implies P(v, y) by { if v.len() == 0 && x == n { w_refl(H0, y, v); assert(walk(H0, y, v, y)); } else { let i = choose|i: int| #![trigger walk(H0, i, v, x)] I.contains(i) && walk(H0, i, v, x); w_eps(H0, i, v, x, y); walk_stay(H0, O, i, v, y); } }
    assert forall|v: Word, x: int, z: SymT, y: int| #![trigger P(v, x), sym(H, x, z, y)] P(v, x) && sym(H, x, z, y) implies P(v.push(z), y) by { let i = choose|i: int| #![trigger walk(H0, i, v, x)] I.contains(i) && walk(H0, i, v, x); w_sym(H0, i, v, x, z, y); walk_stay(H0, O, i, v.push(z), y); }
    walk_ind(H, n, P, w, q); } }
proof fn or_lang(H0: Heap, H: Heap, a: nfa_t, b: nfa_t, c: nfa_t, n: int)
    requires nfa_ok(H0, a), nfa_ok(H0, b), c._initial.len() == 1, c._initial[0] == n, !sts(a).contains(n), !sts(b).contains(n), forall|q: int| #[trigger] c._accepting.contains(q) <==> a._accepting.contains(q) || b._accepting.contains(q),
        forall|p: int, r: int| p != n ==> (#[trigger] eps(H, p, r) <==> eps(H0, p, r)), forall|p: int, x: SymT, r: int| p != n ==> (#[trigger] sym(H, p, x, r) <==> sym(H0, p, x, r)),
        forall|r: int| #[trigger] eps(H, n, r) <==> a._initial.contains(r) || b._initial.contains(r), forall|x: SymT, r: int| !#[trigger] sym(H, n, x, r), apart(a, b),
    ensures forall|w: Word| #[trigger] lang(H, c, w) <==> lang(H0, a, w) || lang(H0, b, w)
{ let O = sts(a).union(sts(b)); both(H0, sts(a), sts(b)); let I = a._initial.to_set().union(b._initial.to_set()); assert(c._initial[0] == n);
  assert forall|w: Word| #[trigger] lang(H, c, w) <==> lang(H0, a, w) || lang(H0, b, w) by {
    if lang(H, c, w) { let (p, q) = choose|p: int, q: int| #[trigger] acc_at(H, c, w, p, q); fork_lang(H0, H, O, n, I, w, q); let i = choose|i: int| #![trigger walk(H0, i, w, q)] I.contains(i) && walk(H0, i, w, q);
      if a._initial.contains(i) { walk_stay(H0, sts(a), i, w, q); assert(a._accepting.contains(q)); lang_at(H0, a, w, i, q); } else { walk_stay(H0, sts(b), i, w, q); assert(b._accepting.contains(q)); lang_at(H0, b, w, i, q); } }
    if lang(H0, a, w) { let (p, q) = choose|p: int, q: int| #[trigger] acc_at(H0, a, w, p, q); assert(I.contains(p)); fork_lang(H0, H, O, n, I, w, q); lang_at(H, c, w, n, q); }
    if lang(H0, b, w) { let (p, q) = choose|p: int, q: int| #[trigger] acc_at(H0, b, w, p, q); assert(I.contains(p)); fork_lang(H0, H, O, n, I, w, q); lang_at(H, c, w, n, q); } } }
proof fn opt_new_lang(H0: Heap, H: Heap, a: nfa_t, c: nfa_t, n: int)
    requires nfa_ok(H0, a), c._initial.len() == 1, c._initial[0] == n, !sts(a).contains(n), forall|q: int| #[trigger] c._accepting.contains(q) <==> a._accepting.contains(q) || q == n,
        forall|p: int, r: int| p != n ==> (#[trigger] eps(H, p, r) <==> eps(H0, p, r)), forall|p: int, x: SymT, r: int| p != n ==> (#[trigger] sym(H, p, x, r) <==> sym(H0, p, x, r)),
        forall|r: int| #[trigger] eps(H, n, r) <==> a._initial.contains(r), forall|x: SymT, r: int| !#[trigger] sym(H, n, x, r),
    ensures forall|w: Word| #[trigger] lang(H, c, w) <==> lang(H0, a, w) || w.len() == 0
{ let O = sts(a); let I = a._initial.to_set(); assert(c._initial[0] == n);
  assert forall|w: Word| #[trigger] lang(H, c, w) <==> lang(H0, a, w) || w.len() == 0 by {
    if lang(H, c, w) { let (p, q) = choose|p: int, q: int| #[trigger] acc_at(H, c, w, p, q); fork_lang(H0, H, O, n, I, w, q); if w.len() != 0 { let i = choose|i: int| #![trigger walk(H0, i, w, q)] I.contains(i) && walk(H0, i, w, q); walk_stay(H0, O, i, w, q); lang_at(H0, a, w, i, q); } }
    if lang(H0, a, w) { let (p, q) = choose|p: int, q: int| #[trigger] acc_at(H0, a, w, p, q); assert(I.contains(p)); fork_lang(H0, H, O, n, I, w, q); lang_at(H, c, w, n, q); }
    if w.len() == 0 { w_refl(H, n, w); lang_at(H, c, w, n, n); } } }
// initial states without incoming edges are made accepting
proof fn no_in(H: Heap, O: Set<int>, p: int, w: Word, q: int) requires graph(H, O), O.contains(p), walk(H, p, w, q), H[q]._backedges.len() == 0, ensures w.len() == 0
{ reveal(walk); let n = choose|n: nat| #[trigger] run(H, p, w, q, n); if n > 0 { reveal(graph); if exists|t: int| #![trigger eps(H, t, q)] run(H, p, w, t, (n - 1) as nat) && eps(H, t, q) { let t = choose|t: int| #![trigger eps(H, t, q)] run(H, p, w, t, (n - 1) as nat) && eps(H, t, q); stay(H, O, p, w, t, (n - 1) as nat); let i = step_of(H, false, t, q); assert(H[H[t]._edges[i]._destination]._backedges.contains((t, i))); }
  else { let t = choose|t: int| #![trigger sym(H, t, w.last(), q)] run(H, p, w.drop_last(), t, (n - 1) as nat) && sym(H, t, w.last(), q); stay(H, O, p, w.drop_last(), t, (n - 1) as nat); let i = sym_of(H, t, w.last(), q); assert(H[H[t]._edges[i]._destination]._backedges.contains((t, i))); } } }
proof fn opt_in_lang(H0: Heap, H: Heap, a: nfa_t, c: nfa_t)
    requires nfa_ok(H0, a), c._initial == a._initial, a._initial.len() > 0, forall|q: int| #[trigger] c._accepting.contains(q) <==> a._accepting.contains(q) || a._initial.contains(q), more(H0, H, sts(a), Set::empty()), forall|q: int| #[trigger] a._initial.contains(q) ==> H0[q]._accepting || H0[q]._backedges.len() == 0,
    ensures forall|w: Word| #[trigger] lang(H, c, w) <==> lang(H0, a, w) || w.len() == 0
{ assert forall|w: Word| #[trigger] lang(H, c, w) <==> lang(H0, a, w) || w.len() == 0 by {
    if lang(H, c, w) { let (p, q) = choose|p: int, q: int| #[trigger] acc_at(H, c, w, p, q); carry_w(H, H0, sts(a), p, w, q); if a._accepting.contains(q) { lang_at(H0, a, w, p, q); } else { assert(a._initial.contains(q)); assert(!H0[q]._accepting); no_in(H0, sts(a), p, w, q); } }
    if lang(H0, a, w) { let (p, q) = choose|p: int, q: int| #[trigger] acc_at(H0, a, w, p, q); carry_w(H0, H, sts(a), p, w, q); lang_at(H, c, w, p, q); }
    if w.len() == 0 { let p = a._initial[0]; assert(a._initial.contains(p)); w_refl(H, p, w); lang_at(H, c, w, p, p); } } }
proof fn pow_one(l: Lang, w: Word) requires l(w), ensures pow(l, 1, w) { let e = Seq::<SymT>::empty(); assert(e + w =~= w); assert(splits(w, e, w)); assert(pow(l, 0, e)); }
proof fn pow_walk(H0: Heap, H: Heap, a: nfa_t, E: Set<(int, int)>, k: nat, w: Word) -> (r: (int, int))
    requires nfa_ok(H0, a), more(H0, H, sts(a), E), forall|p: int, q: int| #[trigger] E.contains((p, q)) <==> a._accepting.contains(p) && a._initial.contains(q), k > 0, pow(lang_of(H0, a), k, w),
    ensures a._initial.contains(r.0), a._accepting.contains(r.1), walk(H, r.0, w, r.1) decreases k
{ let l = lang_of(H0, a); let (u, v) = choose|u: Word, v: Word| #[trigger] splits(w, u, v) && pow(l, (k - 1) as nat, u) && l(v); assert(lang(H0, a, v)); let (i, f) = choose|p: int, q: int| #[trigger] acc_at(H0, a, v, p, q); carry_w(H0, H, sts(a), i, v, f);
  if k == 1 { assert(w =~= v); (i, f) } else { let (p, q) = pow_walk(H0, H, a, E, (k - 1) as nat, u); assert(E.contains((q, i))); w_eps(H, p, u, q, i); walk_cat(H, p, u, i, v, f); (p, f) } }
proof fn plus_lang(H0: Heap, H: Heap, a: nfa_t, c: nfa_t, E: Set<(int, int)>)
    requires nfa_ok(H0, a), c._initial == a._initial, c._accepting == a._accepting, more(H0, H, sts(a), E), forall|p: int, q: int| #[trigger] E.contains((p, q)) <==> a._accepting.contains(p) && a._initial.contains(q),
    ensures forall|w: Word| #[trigger] lang(H, c, w) <==> plus(lang_of(H0, a), w)
{ let l = lang_of(H0, a); assert forall|w: Word| #[trigger] lang(H, c, w) <==> plus(l, w) by {
    if plus(l, w) { let k = choose|k: nat| k > 0 && #[trigger] pow(l, k, w); let (p, q) = pow_walk(H0, H, a, E, k, w); lang_at(H, c, w, p, q); }
    if lang(H, c, w) { let (p, f) = choose|p: int, f: int| #[trigger] acc_at(H, c, w, p, f); let P = |v: Word, q: int| rounds(H0, a, v, q); let e = Seq::<SymT>::empty(); w_refl(H0, p, e); assert(e + e =~= e); assert(pow(l, 0, e)); assert(rounds_at(H0, a, e, p, e, e, 0, p));
      assert forall|v: Word, x: int, y: int| #![trigger P(v, x), eps(H, x, y)] P(v, x) && eps(H, x, y) implies P(v, y) by { let (u, t, k, i) = choose|u: Word, t: Word, k: nat, i: int| #[trigger] rounds_at(H0, a, v, x, u, t, k, i);
        if eps(H0, x, y) { w_eps(H0, i, t, x, y); assert(rounds_at(H0, a, v, y, u, t, k, i)); } else { assert(E.contains((x, y))); lang_at(H0, a, t, i, x); assert(splits(v, u, t)); assert(pow(l, (k + 1) as nat, v)); w_refl(H0, y, e); assert(v + e =~= v); assert(rounds_at(H0, a, v, y, v, e, (k + 1) as nat, y)); } }
      assert forall|v: Word, x: int, z: SymT, y: int| #![trigger P(v, x), sym(H, x, z, y)] P(v, x) && sym(H, x, z, y) implies P(v.push(z), y) by { let (u, t, k, i) = choose|u: Word, t: Word, k: nat, i: int| #[trigger] rounds_at(H0, a, v, x, u, t, k, i); w_sym(H0, i, t, x, z, y); tail_eq(v, u, t, z); assert(rounds_at(H0, a, v.push(z), y, u, t.push(z), k, i)); }
      walk_ind(H, p, P, w, f); let (u, t, k, i) = choose|u: Word, t: Word, k: nat, i: int| #[trigger] rounds_at(H0, a, w, f, u, t, k, i); lang_at(H0, a, t, i, f); assert(splits(w, u, t)); assert(pow(l, (k + 1) as nat, w)); } } }
// plus of the optional language is the star
proof fn pow_opt(l: Lang, m: Lang, k: nat, w: Word) -> (j: nat) requires pow(m, k, w), forall|v: Word| #[trigger] m(v) <==> l(v) || v.len() == 0, ensures pow(l, j, w) decreases k
{ if k == 0 { 0 } else { let (u, v) = choose|u: Word, v: Word| #[trigger] splits(w, u, v) && pow(m, (k - 1) as nat, u) && m(v); let j = pow_opt(l, m, (k - 1) as nat, u); if l(v) { assert(splits(w, u, v)); assert(pow(l, (j + 1) as nat, w)); (j + 1) as nat } else { assert(w =~= u); j } } }
proof fn pow_mono(l: Lang, m: Lang, k: nat, w: Word) requires pow(l, k, w), forall|v: Word| #![trigger l(v)] #![trigger m(v)] l(v) ==> m(v), ensures pow(m, k, w) decreases k
{ if k > 0 { let (u, v) = choose|u: Word, v: Word| #[trigger] splits(w, u, v) && pow(l, (k - 1) as nat, u) && l(v); pow_mono(l, m, (k - 1) as nat, u); assert(splits(w, u, v)); } }
proof fn star_lang(l: Lang, m: Lang) requires forall|v: Word| #[trigger] m(v) <==> l(v) || v.len() == 0, ensures forall|w: Word| #[trigger] plus(m, w) <==> star(l, w)
{ assert forall|w: Word| #[trigger] plus(m, w) <==> star(l, w) by { if plus(m, w) { let k = choose|k: nat| k > 0 && #[trigger] pow(m, k, w); let j = pow_opt(l, m, k, w); } if star(l, w) { let k = choose|k: nat| #[trigger] pow(l, k, w); if k == 0 { pow_one(m, w); } else { pow_mono(l, m, k, w); } } } }
proof fn sub_next<T>(s: Seq<T>, k: int) requires 0 <= k < s.len(), ensures s.subrange(0, k + 1) == s.subrange(0, k).push(s[k]), forall|y: T| #[trigger] s.subrange(0, k + 1).contains(y) <==> s.subrange(0, k).contains(y) || y == s[k]
{ assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k])); seq_push_has(s.subrange(0, k), s[k]); }
proof fn cat_has<T>(a: Seq<T>, b: Seq<T>) ensures (a + b).to_set() == a.to_set().union(b.to_set()), forall|y: T| #[trigger] (a + b).contains(y) <==> a.contains(y) || b.contains(y), b.subrange(0, b.len() as int) == b, a.subrange(0, a.len() as int) == a
{ let c = a + b; assert(b.subrange(0, b.len() as int) =~= b); assert(a.subrange(0, a.len() as int) =~= a); assert forall|y: T| #[trigger] c.contains(y) <==> a.contains(y) || b.contains(y) by { if c.contains(y) { let i = choose|i: int| 0 <= i < c.len() && c[i] == y; if i < a.len() { assert(a[i] == y); } else { assert(b[i - a.len()] == y); } } if a.contains(y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(c[i] == y); } if b.contains(y) { let i = choose|i: int| 0 <= i < b.len() && b[i] == y; assert(c[i + a.len()] == y); } }
  assert(c.to_set() =~= a.to_set().union(b.to_set())); }
proof fn push_set(a: Seq<int>, n: int) ensures a.push(n).to_set() == a.to_set().insert(n) { seq_push_has(a, n); assert(a.push(n).to_set() =~= a.to_set().insert(n)); }
proof fn set_eps_ok(H: Heap, O: Set<int>, p: int, i: int) requires graph(H, O), owned(H, O), O.contains(p), 0 <= i < H[p]._edges.len(),
    ensures ({ let G = set_eps(H, p, i); more(H, G, O, set![(p, H[p]._edges[i]._destination)]) && same_acc(H, G) })
{ reveal(graph); let G = set_eps(H, p, i); let to = H[p]._edges[i]._destination; let E = set![(p, to)];
  assert(G.dom() =~= H.dom());
  assert(forall|a: int| #![trigger G[a]] H.dom().contains(a) ==> G[a]._edges.len() == H[a]._edges.len() && G[a]._backedges == H[a]._backedges && G[a]._accepting == H[a]._accepting);
  assert(forall|a: int, j: int| #![trigger G[a]._edges[j]] H.dom().contains(a) && 0 <= j < H[a]._edges.len() ==> G[a]._edges[j] == if a == p && j == i { nedge { _epsilon: true, ..H[a]._edges[j] } } else { H[a]._edges[j] });
  assert forall|a: int, j: int| #![trigger G[a]._edges[j]] O.contains(a) && 0 <= j < G[a]._edges.len() implies O.contains(G[a]._edges[j]._destination) && sinc(G[a]._edges[j]._symbols) && G[G[a]._edges[j]._destination]._backedges.contains((a, j)) by { assert(H[a]._edges[j]._destination == G[a]._edges[j]._destination); }
  assert forall|a: int, k: int| #![trigger G[a]._backedges[k]] O.contains(a) && 0 <= k < G[a]._backedges.len() implies O.contains(G[a]._backedges[k].0) && 0 <= G[a]._backedges[k].1 < G[G[a]._backedges[k].0]._edges.len() && G[G[a]._backedges[k].0]._edges[G[a]._backedges[k].1]._destination == a by { let b = H[a]._backedges[k]; assert(H[b.0]._edges[b.1]._destination == a); assert(G[b.0]._edges[b.1]._destination == a); }
  assert forall|a: int, b: int| #[trigger] eps(G, a, b) <==> eps(H, a, b) || E.contains((a, b)) by {
    if eps(G, a, b) { let j = step_of(G, false, a, b); if a == p && j == i {} else { assert(G[a]._edges[j] == H[a]._edges[j]); step_at(H, false, a, j); } }
    if eps(H, a, b) { let j = step_of(H, false, a, b); assert(G[a]._edges[j]._epsilon); step_at(G, false, a, j); }
    if (a, b) == (p, to) { step_at(G, false, p, i); } }
  assert forall|a: int, x: SymT, b: int| #[trigger] sym(G, a, x, b) <==> sym(H, a, x, b) by {
    if sym(G, a, x, b) { let j = sym_of(G, a, x, b); assert(den(H[a]._edges[j], x)); sym_at(H, a, j, x); }
    if sym(H, a, x, b) { let j = sym_of(H, a, x, b); assert(den(G[a]._edges[j], x)); sym_at(G, a, j, x); } } }
// the operations keep the whole heap of live states well formed
proof fn heap_kept(H0: Heap, H1: Heap, a: nfa_t, O: Set<int>) requires edges_ok(H0), back_ok(H0), graph(H0, O), nfa_ok(H1, a), grow(H0, H1, a), frame(H0, H1, O), owns(H0, a, O), ensures edges_ok(H1), back_ok(H1)
{ reveal(graph); let S = sts(a);
  assert forall|p: int, i: int| #![trigger H1[p]._edges[i]] H1.dom().contains(p) && 0 <= i < H1[p]._edges.len() implies H1.dom().contains(H1[p]._edges[i]._destination) && sinc(H1[p]._edges[i]._symbols) by { if !S.contains(p) { assert(H1[p] == H0[p]); assert(H0[p]._edges[i] == H1[p]._edges[i]); } }
  assert forall|p: int, i: int| #![trigger H1[p]._edges[i]] H1.dom().contains(p) && 0 <= i < H1[p]._edges.len() implies H1[H1[p]._edges[i]._destination]._backedges.contains((p, i)) by { if !S.contains(p) { assert(H1[p] == H0[p]); assert(H0[p]._edges[i] == H1[p]._edges[i]); let d = H0[p]._edges[i]._destination; assert(H0[d]._backedges.contains((p, i))); let k = choose|k: int| 0 <= k < H0[d]._backedges.len() && H0[d]._backedges[k] == (p, i); if O.contains(d) { assert(O.contains(H0[d]._backedges[k].0)); } assert(H1[d] == H0[d]); } }
  assert forall|p: int, k: int| #![trigger H1[p]._backedges[k]] H1.dom().contains(p) && 0 <= k < H1[p]._backedges.len() implies H1.dom().contains(H1[p]._backedges[k].0) && 0 <= H1[p]._backedges[k].1 < H1[H1[p]._backedges[k].0]._edges.len() && H1[H1[p]._backedges[k].0]._edges[H1[p]._backedges[k].1]._destination == p by {
    if !S.contains(p) { assert(H1[p] == H0[p]); let b = H0[p]._backedges[k]; assert(H0[b.0]._edges[b.1]._destination == p); if O.contains(b.0) { assert(O.contains(H0[b.0]._edges[b.1]._destination)); } assert(H1[b.0] == H0[b.0]); } } }
// compile: dropping initial states that neither accept nor read
proof fn comp_lang(H: Heap, a: nfa_t, c: nfa_t)
    requires nfa_ok(H, a), forall|q: int| #[trigger] c._accepting.contains(q) == a._accepting.contains(q), forall|q: int| #[trigger] c._initial.contains(q) <==> reach_from(H, a._initial, q) && useful(H[q]),
    ensures forall|w: Word| #[trigger] lang(H, c, w) <==> lang(H, a, w), forall|q: int| #[trigger] c._initial.contains(q) ==> sts(a).contains(q)
{ assert forall|q: int| #[trigger] reach_from(H, a._initial, q) implies exists|p: int| #![trigger a._initial.contains(p)] a._initial.contains(p) && walk(H, p, Seq::empty(), q) by { reveal(reach_from); let i = choose|i: int| #![trigger a._initial[i]] 0 <= i < a._initial.len() && reach(H, false, a._initial[i], q); assert(a._initial.contains(a._initial[i])); reach_walk(H, a._initial[i], q); }
  assert forall|q: int| #[trigger] c._initial.contains(q) implies sts(a).contains(q) by { let p = choose|p: int| #![trigger a._initial.contains(p)] a._initial.contains(p) && walk(H, p, Seq::empty(), q); walk_stay(H, sts(a), p, Seq::empty(), q); }
  assert forall|w: Word| #[trigger] lang(H, c, w) <==> lang(H, a, w) by {
    if lang(H, c, w) { let (r, q) = choose|p: int, q: int| #[trigger] acc_at(H, c, w, p, q); let p = choose|p: int| #![trigger a._initial.contains(p)] a._initial.contains(p) && walk(H, p, Seq::empty(), r); walk_cat(H, p, Seq::empty(), r, w, q); assert(Seq::<SymT>::empty() + w =~= w); lang_at(H, a, w, p, q); }
    if lang(H, a, w) { let (p, q) = choose|p: int, q: int| #[trigger] acc_at(H, a, w, p, q);
      let P = |v: Word, s: int| (v.len() == 0 && reach_from(H, a._initial, s)) || exists|r: int| #![trigger c._initial.contains(r)] c._initial.contains(r) && walk(H, r, v, s);
      rf_base(H, a._initial);
      assert forall|v: Word, x: int, y: int| #![trigger P(v, x), eps(H, x, y)] P(v, x) && eps(H, x, y) implies P(v, y) by { if v.len() == 0 && reach_from(H, a._initial, x) { rf_step(H, a._initial, x, y); } else { let r = choose|r: int| #![trigger c._initial.contains(r)] c._initial.contains(r) && walk(H, r, v, x); w_eps(H, r, v, x, y); } }
      assert forall|v: Word, x: int, z: SymT, y: int| #![trigger P(v, x), sym(H, x, z, y)] P(v, x) && sym(H, x, z, y) implies P(v.push(z), y) by { if v.len() == 0 && reach_from(H, a._initial, x) { let i = sym_of(H, x, z, y); assert(H[x]._edges[i]._negated || H[x]._edges[i]._symbols.len() > 0); assert(c._initial.contains(x)); w_refl(H, x, v); w_sym(H, x, v, x, z, y); } else { let r = choose|r: int| #![trigger c._initial.contains(r)] c._initial.contains(r) && walk(H, r, v, x); w_sym(H, r, v, x, z, y); } }
      walk_ind(H, p, P, w, q);
      if w.len() == 0 && reach_from(H, a._initial, q) { assert(c._initial.contains(q)); w_refl(H, q, w); lang_at(H, c, w, q, q); } else { let r = choose|r: int| #![trigger c._initial.contains(r)] c._initial.contains(r) && walk(H, r, w, q); lang_at(H, c, w, r, q); } } } }
proof fn steps_walk(H: Heap, p: int, q: int, n: nat) requires steps(H, false, p, q, n), ensures walk(H, p, Seq::empty(), q) decreases n
{ if n == 0 { w_refl(H, p, Seq::empty()); } else { let r = choose|r: int| #![trigger step(H, false, r, q)] steps(H, false, p, r, (n - 1) as nat) && step(H, false, r, q); steps_walk(H, p, r, (n - 1) as nat); w_eps(H, p, Seq::empty(), r, q); } }
proof fn reach_walk(H: Heap, p: int, q: int) requires reach(H, false, p, q), ensures walk(H, p, Seq::empty(), q) { reveal(reach); let n = choose|n: nat| #[trigger] steps(H, false, p, q, n); steps_walk(H, p, q, n); }
proof fn rf_perm(H: Heap, s: Seq<int>, t: Seq<int>) requires forall|x: int| #[trigger] s.contains(x) == t.contains(x), ensures forall|q: int| #[trigger] reach_from(H, s, q) == reach_from(H, t, q)
{ reveal(reach_from); assert forall|q: int| #[trigger] reach_from(H, s, q) == reach_from(H, t, q) by { if reach_from(H, s, q) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && reach(H, false, s[i], q); let x = s[i]; assert(s.contains(x)); assert(t.contains(x)); let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(reach(H, false, t[j], q)); } if reach_from(H, t, q) { let i = choose|i: int| #![trigger t[i]] 0 <= i < t.len() && reach(H, false, t[i], q); let x = t[i]; assert(t.contains(x)); assert(s.contains(x)); let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(reach(H, false, s[j], q)); } } }
proof fn strict(s: Seq<int>) requires s.no_duplicates(), forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !(s[j] < s[i]), ensures inc(s) { assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies s[i] < s[j] by { assert(s[i] != s[j]); } }
proof fn inc_nodup(s: Seq<int>) requires inc(s), ensures s.no_duplicates() { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(s[i] < s[j]); } else { assert(s[j] < s[i]); } } }
proof fn sub_own(H: Heap, O: Set<int>, s: Seq<int>) requires owned(H, O), forall|q: int| #[trigger] s.contains(q) ==> O.contains(q), ensures sub(s, H) { assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies H.dom().contains(s[i]) by { assert(s.contains(s[i])); } }
proof fn cat_nodup(a: nfa_t, b: nfa_t) requires apart(a, b), a._states.no_duplicates(), b._states.no_duplicates(), ensures (a._states + b._states).no_duplicates()
{ let c = a._states + b._states; assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by { let n = a._states.len(); if i < n { assert(a._states.contains(c[i])); assert(sts(a).contains(c[i])); } else { assert(b._states[i - n] == c[i]); assert(sts(b).contains(c[i])); } if j < n { assert(a._states.contains(c[j])); assert(sts(a).contains(c[j])); } else { assert(b._states[j - n] == c[j]); assert(sts(b).contains(c[j])); } } }
proof fn push_nodup(s: Seq<int>, n: int) requires s.no_duplicates(), !s.contains(n), ensures s.push(n).no_duplicates() { let c = s.push(n); assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by { if i == s.len() { assert(s.contains(s[j])); } else if j == s.len() { assert(s.contains(s[i])); } } }
proof fn none_ok(H: Heap, a: nfa_t) requires sym_order(), a._states.len() == 0, a._initial.len() == 0, a._accepting.len() == 0, ensures nfa_ok(H, a), sts(a) == Set::<int>::empty() { reveal(graph); assert(sts(a) =~= Set::empty()); }
proof fn set_ok(H0: Heap, H: Heap, p: int, q: int, neg: bool, l: Set<SymT>) requires sym_order(), p != q, H.dom() == H0.dom().insert(p).insert(q), one_edge(H, p, q, neg, l), ensures graph(H, set![p, q]), owned(H, set![p, q]), forall|a: int| !#[trigger] eps(H, p, a), forall|x: SymT, a: int| #[trigger] sym(H, p, x, a) <==> a == q && (if neg { !l.contains(x) } else { l.contains(x) }), forall|a: int| !#[trigger] eps(H, q, a), forall|x: SymT, a: int| !#[trigger] sym(H, q, x, a)
{ reveal(graph); reveal(step); reveal(sym); assert(H[q]._backedges[0] == (p, 0int)); assert(H[q]._backedges.contains((p, 0int)));
  assert forall|x: SymT, a: int| #[trigger] sym(H, p, x, a) <==> a == q && (if neg { !l.contains(x) } else { l.contains(x) }) by { let e = H[p]._edges[0]; assert(e._symbols.contains(x) == l.contains(x)); if a == q && den(e, x) { assert(H[p]._edges[0]._destination == q); } } }
proof fn set_lang(H0: Heap, H: Heap, a: nfa_t, p: int, q: int, neg: bool, l: Set<SymT>) requires p != q, a._initial.len() == 1, a._initial[0] == p, a._accepting.len() == 1, a._accepting[0] == q, forall|b: int| !#[trigger] eps(H, p, b), forall|x: SymT, b: int| #[trigger] sym(H, p, x, b) <==> b == q && (if neg { !l.contains(x) } else { l.contains(x) }), forall|b: int| !#[trigger] eps(H, q, b), forall|x: SymT, b: int| !#[trigger] sym(H, q, x, b),
    ensures forall|w: Word| #[trigger] lang(H, a, w) <==> w.len() == 1 && (if neg { !l.contains(w[0]) } else { l.contains(w[0]) })
{ assert forall|w: Word| #[trigger] lang(H, a, w) <==> w.len() == 1 && (if neg { !l.contains(w[0]) } else { l.contains(w[0]) }) by {
    assert(a._initial.contains(a._initial[0])); assert(a._accepting.contains(a._accepting[0])); let e = Seq::<SymT>::empty();
    if w.len() == 1 && (if neg { !l.contains(w[0]) } else { l.contains(w[0]) }) { w_refl(H, p, e); assert(sym(H, p, w[0], q)); w_sym(H, p, e, p, w[0], q); assert(e.push(w[0]) =~= w); lang_at(H, a, w, p, q); }
    if lang(H, a, w) { let (i, f) = choose|i: int, f: int| #[trigger] acc_at(H, a, w, i, f); let P = |v: Word, s: int| (v.len() == 0 && s == p) || (s == q && v.len() == 1 && (if neg { !l.contains(v[0]) } else { l.contains(v[0]) })); walk_ind(H, i, P, w, f); } } }
proof fn dom_all(S: Seq<int>, f: Map<int, int>) requires forall|i: int| #![trigger S[i]] 0 <= i < S.len() ==> f.dom().contains(S[i]), ensures forall|x: int| #[trigger] S.to_set().contains(x) ==> f.dom().contains(x)
{ assert forall|x: int| #[trigger] S.to_set().contains(x) implies f.dom().contains(x) by { let i = choose|i: int| 0 <= i < S.len() && S[i] == x; assert(f.dom().contains(S[i])); } }
proof fn inside(H: Heap, O: Set<int>) requires graph(H, O), ensures forall|p: int, i: int| #![trigger H[p]._edges[i]] O.contains(p) && 0 <= i < H[p]._edges.len() ==> O.contains(H[p]._edges[i]._destination), forall|p: int, k: int| #![trigger H[p]._backedges[k]] O.contains(p) && 0 <= k < H[p]._backedges.len() ==> O.contains(H[p]._backedges[k].0) { reveal(graph); }
proof fn iso_of(H0: Heap, H: Heap, f: Map<int, int>, S: Seq<int>, T: Seq<int>) requires S.len() == T.len(), T.no_duplicates(), forall|i: int| #![trigger S[i]] 0 <= i < S.len() ==> f.dom().contains(S[i]) && f[S[i]] == T[i] && H.dom().contains(T[i]) && H[T[i]] == ren(f, H0[S[i]]), ensures iso(H0, H, f, S.to_set()), forall|y: int| #[trigger] T.to_set().contains(y) <==> exists|x: int| #[trigger] S.to_set().contains(x) && f[x] == y
{ let O = S.to_set();
  assert forall|p: int| #[trigger] O.contains(p) implies f.dom().contains(p) && H.dom().contains(f[p]) && H[f[p]] == ren(f, H0[p]) by { let i = choose|i: int| 0 <= i < S.len() && S[i] == p; }
  assert forall|p: int, q: int| #![trigger f[p], f[q]] O.contains(p) && O.contains(q) && f[p] == f[q] implies p == q by { let i = choose|i: int| 0 <= i < S.len() && S[i] == p; let j = choose|i: int| 0 <= i < S.len() && S[i] == q; assert(f[S[i]] == T[i] && f[S[j]] == T[j]); }
  assert forall|y: int| #[trigger] T.to_set().contains(y) <==> exists|x: int| #[trigger] O.contains(x) && f[x] == y by { if T.to_set().contains(y) { let i = choose|i: int| 0 <= i < T.len() && T[i] == y; assert(S.contains(S[i])); assert(O.contains(S[i])); } if exists|x: int| #[trigger] O.contains(x) && f[x] == y { let x = choose|x: int| #[trigger] O.contains(x) && f[x] == y; let i = choose|i: int| 0 <= i < S.len() && S[i] == x; assert(T[i] == y); assert(T.contains(T[i])); } } }
proof fn iso_ok(H0: Heap, H: Heap, f: Map<int, int>, a: nfa_t, c: nfa_t) requires nfa_ok(H0, a), iso(H0, H, f, sts(a)), c._states.no_duplicates(), forall|y: int| #[trigger] sts(c).contains(y) <==> exists|x: int| #[trigger] sts(a).contains(x) && f[x] == y,
    c._initial == Seq::new(a._initial.len(), |j: int| f[a._initial[j]]), c._accepting == Seq::new(a._accepting.len(), |j: int| f[a._accepting[j]]), ensures nfa_ok(H, c)
{ let O = sts(a); let U = sts(c); reveal(graph);
  assert forall|p: int| #[trigger] U.contains(p) implies H.dom().contains(p) by { let x = choose|x: int| #[trigger] O.contains(x) && f[x] == p; }
  assert forall|p: int, i: int| #![trigger H[p]._edges[i]] U.contains(p) && 0 <= i < H[p]._edges.len() implies U.contains(H[p]._edges[i]._destination) && sinc(H[p]._edges[i]._symbols) && H[H[p]._edges[i]._destination]._backedges.contains((p, i)) by { let x = choose|x: int| #[trigger] O.contains(x) && f[x] == p; let d = H0[x]._edges[i]._destination; assert(O.contains(d)); assert(U.contains(f[d])); assert(H0[d]._backedges.contains((x, i))); let k = choose|k: int| 0 <= k < H0[d]._backedges.len() && H0[d]._backedges[k] == (x, i); assert(H[f[d]]._backedges[k] == (p, i)); }
  assert forall|p: int, k: int| #![trigger H[p]._backedges[k]] U.contains(p) && 0 <= k < H[p]._backedges.len() implies U.contains(H[p]._backedges[k].0) && 0 <= H[p]._backedges[k].1 < H[H[p]._backedges[k].0]._edges.len() && H[H[p]._backedges[k].0]._edges[H[p]._backedges[k].1]._destination == p by { let x = choose|x: int| #[trigger] O.contains(x) && f[x] == p; let b = H0[x]._backedges[k]; assert(O.contains(b.0)); assert(U.contains(f[b.0])); assert(H0[b.0]._edges[b.1]._destination == x); }
  assert forall|i: int, j: int| 0 <= i < c._initial.len() && 0 <= j < c._initial.len() && i != j implies c._initial[i] != c._initial[j] by { let p = a._initial[i]; let q = a._initial[j]; assert(a._initial.contains(p) && a._initial.contains(q)); assert(f[p] == f[q] ==> p == q); }
  assert forall|q: int| #[trigger] c._initial.contains(q) implies U.contains(q) by { let j = choose|j: int| 0 <= j < c._initial.len() && c._initial[j] == q; assert(a._initial.contains(a._initial[j])); assert(O.contains(a._initial[j])); }
  assert forall|q: int| #[trigger] c._accepting.contains(q) <==> U.contains(q) && H[q]._accepting by { if c._accepting.contains(q) { let j = choose|j: int| 0 <= j < c._accepting.len() && c._accepting[j] == q; assert(a._accepting.contains(a._accepting[j])); assert(O.contains(a._accepting[j])); }
    if U.contains(q) && H[q]._accepting { let x = choose|x: int| #[trigger] O.contains(x) && f[x] == q; assert(a._accepting.contains(x)); let j = choose|j: int| 0 <= j < a._accepting.len() && a._accepting[j] == x; assert(c._accepting[j] == q); } } }
proof fn iso_walk(H0: Heap, H: Heap, f: Map<int, int>, O: Set<int>, p: int, w: Word, q: int) requires graph(H0, O), owned(H0, O), iso(H0, H, f, O), O.contains(p), O.contains(q), ensures walk(H, f[p], w, f[q]) <==> walk(H0, p, w, q)
{ if walk(H0, p, w, q) { let P = |v: Word, s: int| O.contains(s) && walk(H, f[p], v, f[s]); w_refl(H, f[p], Seq::empty()); inside(H0, O);
    assert forall|v: Word, x: int, y: int| #![trigger P(v, x), eps(H0, x, y)] P(v, x) && eps(H0, x, y) implies P(v, y) by { let i = step_of(H0, false, x, y); assert(H0[x]._edges[i]._destination == y); step_at(H, false, f[x], i); w_eps(H, f[p], v, f[x], f[y]); }
    assert forall|v: Word, x: int, z: SymT, y: int| #![trigger P(v, x), sym(H0, x, z, y)] P(v, x) && sym(H0, x, z, y) implies P(v.push(z), y) by { let i = sym_of(H0, x, z, y); assert(H0[x]._edges[i]._destination == y); assert(den(H[f[x]]._edges[i], z)); sym_at(H, f[x], i, z); w_sym(H, f[p], v, f[x], z, f[y]); }
    walk_ind(H0, p, P, w, q); }
  if walk(H, f[p], w, f[q]) { let P = |v: Word, s: int| exists|t: int| #[trigger] O.contains(t) && f[t] == s && walk(H0, p, v, t); w_refl(H0, p, Seq::empty()); inside(H0, O);
    assert forall|v: Word, x: int, y: int| #![trigger P(v, x), eps(H, x, y)] P(v, x) && eps(H, x, y) implies P(v, y) by { let t = choose|t: int| #[trigger] O.contains(t) && f[t] == x && walk(H0, p, v, t); let i = step_of(H, false, x, y); assert(H0[t]._edges[i]._epsilon == H[x]._edges[i]._epsilon); step_at(H0, false, t, i); let d = H0[t]._edges[i]._destination; assert(O.contains(d)); w_eps(H0, p, v, t, d); }
    assert forall|v: Word, x: int, z: SymT, y: int| #![trigger P(v, x), sym(H, x, z, y)] P(v, x) && sym(H, x, z, y) implies P(v.push(z), y) by { let t = choose|t: int| #[trigger] O.contains(t) && f[t] == x && walk(H0, p, v, t); let i = sym_of(H, x, z, y); assert(den(H0[t]._edges[i], z)); sym_at(H0, t, i, z); let d = H0[t]._edges[i]._destination; assert(O.contains(d)); w_sym(H0, p, v, t, z, d); }
    walk_ind(H, f[p], P, w, f[q]); } }
proof fn iso_lang(H0: Heap, H: Heap, f: Map<int, int>, a: nfa_t, c: nfa_t) requires nfa_ok(H0, a), iso(H0, H, f, sts(a)), c._initial == Seq::new(a._initial.len(), |j: int| f[a._initial[j]]), c._accepting == Seq::new(a._accepting.len(), |j: int| f[a._accepting[j]]), ensures forall|w: Word| #[trigger] lang(H, c, w) <==> lang(H0, a, w)
{ assert forall|w: Word| #[trigger] lang(H, c, w) <==> lang(H0, a, w) by {
    if lang(H, c, w) { let (p, q) = choose|p: int, q: int| #[trigger] acc_at(H, c, w, p, q); let i = choose|i: int| 0 <= i < c._initial.len() && c._initial[i] == p; let j = choose|j: int| 0 <= j < c._accepting.len() && c._accepting[j] == q; let x = a._initial[i]; let y = a._accepting[j]; assert(a._initial.contains(x)); assert(a._accepting.contains(y)); iso_walk(H0, H, f, sts(a), x, w, y); lang_at(H0, a, w, x, y); }
    if lang(H0, a, w) { let (x, y) = choose|p: int, q: int| #[trigger] acc_at(H0, a, w, p, q); let i = choose|i: int| 0 <= i < a._initial.len() && a._initial[i] == x; let j = choose|j: int| 0 <= j < a._accepting.len() && a._accepting[j] == y; assert(c._initial[i] == f[x]); assert(c._accepting[j] == f[y]); iso_walk(H0, H, f, sts(a), x, w, y); lang_at(H, c, w, f[x], f[y]); } } }
proof fn two_set(s: Seq<int>, p: int, q: int) requires s.len() == 2, s[0] == p, s[1] == q, ensures s.to_set() == set![p, q] { assert forall|x: int| s.to_set().contains(x) == set![p, q].contains(x) by { if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; } if x == p { assert(s.contains(s[0])); } if x == q { assert(s.contains(s[1])); } } assert(s.to_set() =~= set![p, q]); }
'''
Q = B.Q
HM = dict(heap=['H'])
OPS = 'nfa_ok(H1, this1);; grow(H0, H1, this1);; owns(H0, this1, %s);; frame(H0, H1, %s);; forall|w: Word| #[trigger] lang(H1, this1, w) <==> %s'
REL = 'this_._states == this0._states + rng1_s.subrange(0, k1);; other._states.len() == rng1_s.len();; forall|i: int| #![trigger other._states[i]] k1 <= i < rng1_s.len() ==> other._states[i] == rng1_s[i]'
PLUS = 'more(H0, H, U, E);; same_acc(H0, H);; this_ == this0;; forall|p: int, q: int| #[trigger] E.contains((p, q)) ==> A.contains(p) && I.contains(q);; forall|i: int, j: int| #![trigger A[i], I[j]] 0 <= i < k1 && 0 <= j < I.len() ==> E.contains((A[i], I[j]))'
FOLLOW = [c for c in B.CONTRACTS if c['name'] == 'follow_m'][0]
CP1 = 'this_._initial.len() == 0;; this_._accepting.len() == 0;; this_._states.len() == k1;; frame(H0, H, Set::empty());; this_._states.no_duplicates();; forall|i: int| #![trigger S[i]] #![trigger this_._states[i]] 0 <= i < k1 ==> indir.dom().contains(S[i]) && indir[S[i]] == this_._states[i] && !H0.dom().contains(this_._states[i]) && H.dom().contains(this_._states[i]) && H[this_._states[i]] == H0[S[i]];; forall|p: int| #[trigger] H.dom().contains(p) ==> H0.dom().contains(p) || this_._states.contains(p)'
CP2 = 'indir == f;; this_._states == T;; this_._initial.len() == 0;; this_._accepting.len() == 0;; H.dom() == M.dom();; frame(H0, H, Set::empty());; '
CONTRACTS = [
    dict(name='nfa_bool', fn=Q + 'NFA', sig='bool', nparams=1, params=['init'], requires='sym_order()', ensures=OPS % ('Set::empty()', 'Set::empty()', 'init0 && w.len() == 0'), hints={'end': 'let p = this_._initial[0]; fresh_node(H0, p, init0); assert(H =~= H0.insert(p, nstate { _edges: Seq::empty(), _backedges: Seq::empty(), _accepting: init0 })); assert(sts(this_) =~= set![p]); one_lang(H, this_, p);'}, **HM),
    dict(name='add_epsilon_edge', fn=Q + 'state_t::add_epsilon_edge', heap_this='state', params=['to'], requires='H0.dom().contains(this0);; H0.dom().contains(to0)', ensures='H1 == add_eps(H0, this0, to0)', hints={'end': 'assert(H =~= add_eps(H0, this0, to0));'}, **HM),
    dict(name='concat', fn=Q + 'concat', params=['other'], nloops=3, requires='nfa_ok(H0, this0);; nfa_ok(H0, other0);; apart(this0, other0)', ensures=OPS % ('sts(this0).union(sts(other0))', 'sts(this0).union(sts(other0))', 'cat(lang_of(H0, this0), lang_of(H0, other0), w)'),
         hints={'begin': 'raw:let ghost O = sts(this0).union(sts(other0)); let ghost mut E = Set::<(int, int)>::empty(); proof { both(H0, sts(this0), sts(other0)); more_refl(H0, O); }',
                'loop 3 begin': 'raw:let ghost G = H; let ghost F = E; proof { assert(A.contains(A[k2])); assert(I.contains(I[k3])); add_ok(H, O, A[k2], I[k3]); }',
                'before loop 2': 'raw:let ghost A = this0._accepting; let ghost I = other0._initial; proof { cat_has(this0._states, other0._states); }', 'loop 1 end': 'sub_next(rng1_s, k1); assert(this_._states =~= this0._states + rng1_s.subrange(0, k1 + 1));',
                'loop 3 end': 'more_trans(H0, G, H, O, F, set![(A[k2], I[k3])]); E = F.union(set![(A[k2], I[k3])]);',
                'loop 2 begin': 'assert(A.contains(A[k2])); sub_next(A, k2);', 'after loop 3': 'raw:let ghost G = H; proof { acc_ok(H, O, A[k2], false); }',
                'loop 2 end': 'more_trans(H0, G, H, O, E, Set::empty()); assert(E.union(Set::empty()) =~= E);',
                'end': 'cat_nodup(this0, other0); cat_has(A, A); concat_lang(H0, H, this0, other0, this_, E);'},
         loops={1: REL + ';; this_._initial == this0._initial;; this_._accepting == this0._accepting;; other._initial == other0._initial;; other._accepting == other0._accepting;; H == H0',
                2: 'more(H0, H, O, E);; forall|p: int, q: int| #[trigger] E.contains((p, q)) ==> A.contains(p) && I.contains(q);; forall|i: int, j: int| #![trigger A[i], I[j]] 0 <= i < k2 && 0 <= j < I.len() ==> E.contains((A[i], I[j]));; forall|p: int| #![trigger H[p]._accepting] H0.dom().contains(p) ==> H[p]._accepting == (H0[p]._accepting && !A.subrange(0, k2).contains(p))',
                3: 'more(H0, H, O, E);; forall|p: int, q: int| #[trigger] E.contains((p, q)) ==> A.contains(p) && I.contains(q);; forall|i: int, j: int| #![trigger A[i], I[j]] 0 <= i < k2 && 0 <= j < I.len() ==> E.contains((A[i], I[j]));; forall|j: int| #![trigger I[j]] 0 <= j < k3 ==> E.contains((A[k2], I[j]));; forall|p: int| #![trigger H[p]._accepting] H0.dom().contains(p) ==> H[p]._accepting == (H0[p]._accepting && !A.subrange(0, k2).contains(p))'}, **HM),
    dict(name='or_extend', fn=Q + 'or_extend', params=['other'], nloops=3, requires='nfa_ok(H0, this0);; nfa_ok(H0, other0);; apart(this0, other0)', ensures=OPS % ('sts(this0).union(sts(other0))', 'sts(this0).union(sts(other0))', 'lang(H0, this0, w) || lang(H0, other0, w)'),
         hints={'begin': 'raw:let ghost U = sts(this0).union(sts(other0)); let ghost mut E = Set::<(int, int)>::empty(); proof { both(H0, sts(this0), sts(other0)); }', 'loop 1 end': 'sub_next(rng1_s, k1); assert(this_._states =~= this0._states + rng1_s.subrange(0, k1 + 1));',
                'before loop 2': 'raw:let ghost n = initial; let ghost M = H; let ghost O = U.insert(n); let ghost A = this0._initial; let ghost I = other0._initial; proof { join_node(H0, U, n, false); cat_has(this0._states, other0._states); push_set(this0._states + other0._states, n); cat_nodup(this0, other0); assert(!U.contains(n)); push_nodup(this0._states + other0._states, n); more_refl(M, O); assert(sts(this_) == O); }',
                'loop 2 begin': 'raw:let ghost G = H; let ghost F = E; proof { assert(A.contains(A[k2])); add_ok(H, O, n, A[k2]); }', 'loop 2 end': 'more_trans(M, G, H, O, F, set![(n, A[k2])]); E = F.union(set![(n, A[k2])]);',
                'loop 3 begin': 'raw:let ghost G = H; let ghost F = E; proof { assert(I.contains(I[k3])); add_ok(H, O, n, I[k3]); }', 'loop 3 end': 'more_trans(M, G, H, O, F, set![(n, I[k3])]); E = F.union(set![(n, I[k3])]);',
                'end': 'cat_has(this0._accepting, other0._accepting); assert(this_._initial[0] == n); or_lang(H0, H, this0, other0, this_, n); assert forall|q: int| #[trigger] this_._accepting.contains(q) <==> sts(this_).contains(q) && H[q]._accepting by { if q != n && H0.dom().contains(q) { assert(H[q]._accepting == H0[q]._accepting); } }'},
         loops={1: REL + ';; this_._initial == this0._initial;; this_._accepting == this0._accepting;; other._initial == other0._initial;; other._accepting == other0._accepting;; H == H0',
                2: 'more(M, H, O, E);; same_acc(M, H);; forall|p: int, q: int| #[trigger] E.contains((p, q)) ==> p == n && A.contains(q);; forall|j: int| #![trigger A[j]] 0 <= j < k2 ==> E.contains((n, A[j]))',
                3: 'more(M, H, O, E);; same_acc(M, H);; forall|p: int, q: int| #[trigger] E.contains((p, q)) ==> p == n && (A.contains(q) || I.contains(q));; forall|j: int| #![trigger A[j]] 0 <= j < A.len() ==> E.contains((n, A[j]));; forall|j: int| #![trigger I[j]] 0 <= j < k3 ==> E.contains((n, I[j]))'}, **HM),
    dict(name='question_extend', fn=Q + 'question_extend', params=[], nloops=2, requires='nfa_ok(H0, this0)', ensures=OPS % ('sts(this0)', 'sts(this0)', 'lang(H0, this0, w) || w.len() == 0'),
         hints={'begin': 'raw:let ghost mut E = Set::<(int, int)>::empty(); let ghost U = sts(this0); let ghost A = this0._initial; proof { more_refl(H0, U); }',
                'before loop 1': 'raw:let ghost n = initial; let ghost M = H; let ghost O = U.insert(n); proof { join_node(H0, U, n, true); push_set(this0._states, n); more_refl(M, O); assert(sts(this_) == O); }',
                'loop 1 begin': 'raw:let ghost G = H; let ghost F = E; proof { assert(A.contains(A[k1])); add_ok(H, O, n, A[k1]); }', 'loop 1 end': 'more_trans(M, G, H, O, F, set![(n, A[k1])]); E = F.union(set![(n, A[k1])]);',
                'return 1': 'seq_push_has(this0._accepting, n); assert(this_._initial[0] == n); opt_new_lang(H0, H, this0, this_, n); assert forall|q: int| #[trigger] this_._accepting.contains(q) <==> sts(this_).contains(q) && H[q]._accepting by { if q != n && H0.dom().contains(q) { assert(H[q]._accepting == H0[q]._accepting); } }',
                'loop 2 begin': 'raw:let ghost G = H; proof { assert(A.contains(A[k2])); acc_ok(H, U, A[k2], true); seq_push_has(this_._accepting, A[k2]); sub_next(A, k2); }',
                'loop 2 end': 'if G != H { more_trans(H0, G, H, U, Set::empty(), Set::empty()); assert(Set::<(int, int)>::empty().union(Set::empty()) =~= Set::empty()); }',
                'end': 'cat_has(A, A); assert forall|q: int| #[trigger] A.contains(q) implies H0[q]._accepting || H0[q]._backedges.len() == 0 by { let i = choose|i: int| 0 <= i < A.len() && A[i] == q; assert(H0[A[i]]._accepting || H0[A[i]]._backedges.len() == 0); } opt_in_lang(H0, H, this0, this_);'},
         loops={1: 'more(M, H, O, E);; same_acc(M, H);; forall|p: int, q: int| #[trigger] E.contains((p, q)) ==> p == n && A.contains(q);; forall|j: int| #![trigger A[j]] 0 <= j < k1 ==> E.contains((n, A[j]))',
                2: 'more(H0, H, U, Set::empty());; this_._states == this0._states;; this_._initial == A;; forall|p: int| #![trigger H[p]._accepting] H0.dom().contains(p) ==> H[p]._accepting == (H0[p]._accepting || A.subrange(0, k2).contains(p));; forall|q: int| #[trigger] this_._accepting.contains(q) <==> this0._accepting.contains(q) || A.subrange(0, k2).contains(q)'}, **HM),
    dict(name='plus_extend', fn=Q + 'plus_extend', params=[], nloops=3, requires='nfa_ok(H0, this0)', ensures=OPS % ('sts(this0)', 'sts(this0)', 'plus(lang_of(H0, this0), w)'),
         hints={'begin': 'raw:let ghost mut E = Set::<(int, int)>::empty(); let ghost U = sts(this0); let ghost I = this0._initial; let ghost A = this0._accepting; proof { more_refl(H0, U); }',
                'loop 2 begin': 'raw:let ghost F = E; proof { assert(A.contains(A[k1])); assert(I.contains(I[k2])); }',
                'loop 3 begin': 'raw:let ghost G = H; let ghost D = E; proof { set_eps_ok(H, U, A[k1], k3); }',
                'loop 3 end': 'if G != H { more_trans(H0, G, H, U, D, set![(A[k1], I[k2])]); E = D.union(set![(A[k1], I[k2])]); assert(H =~= set_eps(G, A[k1], k3)); } else if found && G[A[k1]]._edges[k3]._destination == I[k2] { step_at(H, false, A[k1], k3); E = D.union(set![(A[k1], I[k2])]); }',
                'after loop 3': 'raw:let ghost G3 = H; let ghost D3 = E; proof { add_ok(H, U, A[k1], I[k2]); }',
                'loop 2 end': 'if !found { more_trans(H0, G3, H, U, D3, set![(A[k1], I[k2])]); E = D3.union(set![(A[k1], I[k2])]); }',
                'end': 'plus_lang(H0, H, this0, this_, E);'},
         loops={1: PLUS, 2: PLUS + ';; forall|j: int| #![trigger I[j]] 0 <= j < k2 ==> E.contains((A[k1], I[j]))',
                3: PLUS + ';; forall|j: int| #![trigger I[j]] 0 <= j < k2 ==> E.contains((A[k1], I[j]));; found ==> E.contains((A[k1], I[k2]));; H[A[k1]]._edges.len() == rng3_s.len();; forall|p: int, q: int| #[trigger] F.contains((p, q)) ==> E.contains((p, q))'}, **HM),
    dict(name='star_extend', fn=Q + 'star_extend', params=[], requires='nfa_ok(H0, this0)', ensures=OPS % ('sts(this0)', 'sts(this0)', 'star(lang_of(H0, this0), w)'),
         hints={'after question_extend 1': 'raw:let ghost G = H; let ghost b = this_;', 'end': 'let l = lang_of(H0, this0); let m = lang_of(G, b); assert forall|v: Word| #[trigger] m(v) <==> l(v) || v.len() == 0 by { assert(lang(G, b, v) <==> lang(H0, this0, v) || v.len() == 0); } star_lang(l, m);'}, **HM),

    dict(name='compile', fn=Q + 'compile', params=[], requires='nfa_ok(H0, this0);; edges_ok(H0)', ensures='H1 == H0;; nfa_ok(H1, this1);; owns(H0, this1, sts(this0));; inc(this1._initial);; forall|q: int| #[trigger] this1._initial.contains(q) <==> reach_from(H0, this0._initial, q) && useful(H0[q]);; forall|w: Word| #[trigger] lang(H1, this1, w) <==> lang(H0, this0, w)',
         hints={'before follow_m 1': 'strict(this_._initial); sub_own(H, sts(this0), this_._initial); rf_perm(H, this_._initial, this0._initial);',
                'end': 'inc_nodup(this_._initial); assert(sts(this_) =~= sts(this0)); comp_lang(H, this0, this_);'}, **HM),
    dict(FOLLOW, proved_in='nfaq'),

    dict(name='nfa_set', fn=Q + 'NFA', sig=r'.*unordered_set.*', params=['letters', 'neg'], requires='sym_order()', ensures=OPS % ('Set::empty()', 'Set::empty()', 'w.len() == 1 && (if neg0 { !letters0.contains(w[0]) } else { letters0.contains(w[0]) })'),
         hints={'end': 'if this_._states.len() > 0 { let p = this_._initial[0]; let q = this_._accepting[0]; let e = H[p]._edges[0]; sorted_inc(e._symbols); assert(H.dom() =~= H0.dom().insert(p).insert(q)); assert(this_._states.len() == 2 && this_._states[0] == p && this_._states[1] == q); two_set(this_._states, p, q); set_ok(H0, H, p, q, neg0, letters0); set_lang(H0, H, this_, p, q, neg0, letters0); } else { none_ok(H, this_); assert forall|w: Word| !#[trigger] lang(H, this_, w) by { if lang(H, this_, w) { let (i, q) = choose|i: int, q: int| #[trigger] acc_at(H, this_, w, i, q); } } }'}, **HM),
    dict(name='copy_assign', fn=Q + r'operator=', sig=r'.*const NFA.*', params=['other'], nloops=6, requires='nfa_ok(H0, other0)', ensures='same_obj() ==> this1 == this0 && H1 == H0;; !same_obj() ==> nfa_ok(H1, this1) && grow(H0, H1, this1) && owns(H0, this1, Set::empty()) && frame(H0, H1, Set::empty());; !same_obj() ==> forall|w: Word| #[trigger] lang(H1, this1, w) <==> lang(H0, other0, w)',
         hints={'before loop 1': 'raw:let ghost S = other0._states;',
                'loop 1 begin': 'raw:let ghost T0 = this_._states; proof { assert(S.contains(S[k1])); assert(sts(other0).contains(S[k1])); }',
                'loop 1 end': 'push_nodup(T0, this_._states[k1]); seq_push_has(T0, this_._states[k1]);',
                'before loop 2': 'raw:let ghost T = this_._states; let ghost f = indir; let ghost M = H; proof { dom_all(S, f); inside(H0, sts(other0)); }',
                'loop 2 begin': 'raw:let ghost G2 = H; proof { assert(S.contains(S[k2])); assert(sts(other0).contains(S[k2])); }',
                'loop 3 begin': 'raw:let ghost st3 = H0[S[k2]]; proof { assert(H[T[k2]]._edges[k3] == st3._edges[k3]); assert(sts(other0).contains(st3._edges[k3]._destination)); }',
                'after loop 3': 'raw:let ghost G3 = H; proof { assert(H[T[k2]]._edges =~= ren(f, H0[S[k2]])._edges); }',
                'loop 4 begin': 'raw:let ghost st4 = H0[S[k2]]; proof { assert(H[T[k2]]._backedges[k4] == st4._backedges[k4]); assert(sts(other0).contains(st4._backedges[k4].0)); }',
                'after loop 4': 'assert(H[T[k2]]._backedges =~= ren(f, H0[S[k2]])._backedges); assert(H[T[k2]] == ren(f, H0[S[k2]]));',
                'loop 5 begin': 'assert(other0._accepting.contains(other0._accepting[k5])); assert(sts(other0).contains(other0._accepting[k5]));',
                'loop 5 end': 'assert(this_._accepting =~= Seq::new((k5 + 1) as nat, |j: int| f[other0._accepting[j]]));',
                'loop 6 begin': 'assert(other0._initial.contains(other0._initial[k6])); assert(sts(other0).contains(other0._initial[k6]));',
                'loop 6 end': 'assert(this_._initial =~= Seq::new((k6 + 1) as nat, |j: int| f[other0._initial[j]]));',
                'return 2': 'iso_of(H0, H, f, S, T); iso_ok(H0, H, f, other0, this_); iso_lang(H0, H, f, other0, this_);'},
         loops={1: CP1,
                2: CP2 + 'forall|i: int| #![trigger S[i]] #![trigger T[i]] 0 <= i < k2 ==> H[T[i]] == ren(f, H0[S[i]]);; forall|i: int| #![trigger S[i]] #![trigger T[i]] k2 <= i < S.len() ==> H[T[i]] == H0[S[i]]',
                3: CP2 + 'forall|i: int| #![trigger S[i]] #![trigger T[i]] 0 <= i < S.len() && i != k2 ==> H[T[i]] == G2[T[i]];; H[T[k2]]._backedges == H0[S[k2]]._backedges;; H[T[k2]]._accepting == H0[S[k2]]._accepting;; H[T[k2]]._edges.len() == rng3_s.len();; rng3_s == H0[S[k2]]._edges;; forall|j: int| #![trigger H[T[k2]]._edges[j]] 0 <= j < k3 ==> H[T[k2]]._edges[j] == ren(f, H0[S[k2]])._edges[j];; forall|j: int| #![trigger H[T[k2]]._edges[j]] k3 <= j < rng3_s.len() ==> H[T[k2]]._edges[j] == rng3_s[j]',
                4: CP2 + 'forall|i: int| #![trigger S[i]] #![trigger T[i]] 0 <= i < S.len() && i != k2 ==> H[T[i]] == G2[T[i]];; H[T[k2]]._edges == ren(f, H0[S[k2]])._edges;; H[T[k2]]._accepting == H0[S[k2]]._accepting;; H[T[k2]]._backedges.len() == rng4_s.len();; rng4_s == H0[S[k2]]._backedges;; forall|j: int| #![trigger H[T[k2]]._backedges[j]] 0 <= j < k4 ==> H[T[k2]]._backedges[j] == ren(f, H0[S[k2]])._backedges[j];; forall|j: int| #![trigger H[T[k2]]._backedges[j]] k4 <= j < rng4_s.len() ==> H[T[k2]]._backedges[j] == rng4_s[j]',
                5: 'indir == f;; this_._states == T;; this_._initial.len() == 0;; this_._accepting == Seq::new(k5 as nat, |j: int| f[other0._accepting[j]])',
                6: 'indir == f;; this_._states == T;; this_._initial == Seq::new(k6 as nat, |j: int| f[other0._initial[j]]);; this_._accepting == Seq::new(other0._accepting.len(), |j: int| f[other0._accepting[j]])'}, **HM),
    dict(name='copy_ctor', fn=Q + 'NFA', sig=r'.*const NFA.*', params=['other'], requires='nfa_ok(H0, other0);; !same_obj()', ensures='nfa_ok(H1, this1);; grow(H0, H1, this1);; owns(H0, this1, Set::empty());; frame(H0, H1, Set::empty());; forall|w: Word| #[trigger] lang(H1, this1, w) <==> lang(H0, other0, w)', **HM),

]


def unit(ast):
    u = B.unit(ast); u.cfg['same_obj'] = 'same_obj()'; return Unit('nfac', 'nfa.cpp', CONTRACTS, u.cfg, SPEC, LEMMAS, ast)
