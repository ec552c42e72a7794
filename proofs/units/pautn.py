"""A01: the P-automaton built from a stack automaton (unweighted systems, numbered labels)."""
from unit import Unit
from vtypes import Ty
import proofs.units.satbase as B
import proofs.units.paut as PA
import proofs.units.nfaq as NQ

NU = r'pdaaal::NFA<unsigned int>::'
_p = {c['name']: c for c in PA.CONTRACTS}
_n = {c['name']: c for c in NQ.CONTRACTS}


def nfa(name, **k):
    c = dict(_n[name], **k); c['fn'] = c['fn'].replace(NQ.Q, NU); return c


SPEC = PA._take(PA.SPEC, 'nlabels Aut Word linc lhas ehas e_ok edge a_ok acc same_acc path acc_at accepts incl no_in closed alist ilist pa_ok bare same_edges grown incs nondec picks plus NUL'.split())
SPEC += NQ.SPEC.replace('pub struct SymT { pub s: int }', 'pub type SymT = int;').replace('pub uninterp spec fn sym_lt(a: SymT, b: SymT) -> bool;', 'pub open spec fn sym_lt(a: SymT, b: SymT) -> bool { a < b }') + r"""
// ---- the words read from a state of the stack automaton: one symbol edge, then empty moves (a complemented edge reads the other labels of the system)
pub open spec fn goes(H: Heap, s: int, i: int, t: int) -> bool { reach(H, false, H[s]._edges[i]._destination, t) && useful(H[t]) }
pub open spec fn nthru(H: Heap, nl: int, s: int, i: int, x: int, t: int) -> bool { 0 <= i < H[s]._edges.len() && picks(H[s]._edges[i]._negated, H[s]._edges[i]._symbols, nl, x) && goes(H, s, i, t) }
pub open spec fn nhop(H: Heap, nl: int, s: int, x: int, t: int) -> bool { exists|i: int| #[trigger] nthru(H, nl, s, i, x, t) }
pub open spec fn nacc(H: Heap, nl: int, s: int, w: Word) -> bool decreases w.len() { if w.len() == 0 { H[s]._accepting } else { exists|t: int| #[trigger] nhop(H, nl, s, w[0], t) && nacc(H, nl, t, w.drop_first()) } }
pub open spec fn nacc_at(H: Heap, nl: int, init: Seq<int>, a: int, w: Word) -> bool { 0 <= a < init.len() && nacc(H, nl, init[a], w) }
// the stack automaton accepts w
pub open spec fn nfa_acc(H: Heap, nl: int, init: Seq<int>, w: Word) -> bool { exists|a: int| #[trigger] nacc_at(H, nl, init, a, w) }
pub open spec fn sym_ok(e: nedge, nl: int) -> bool { forall|k: int| #![trigger e._symbols[k]] 0 <= k < e._symbols.len() ==> 0 <= e._symbols[k] < (if e._negated { nl } else { 0xffff_fffe }) }
pub open spec fn syms_ok(H: Heap, nl: int) -> bool { 0 <= nl < 0xffff_fffe && forall|p: int, i: int| #![trigger H[p]._edges[i]] H.dom().contains(p) && 0 <= i < H[p]._edges.len() ==> sym_ok(H[p]._edges[i], nl) }
// ---- groups of edges added so far: (from the given states?, source, edge, target)
pub type Grp = (bool, int, nedge, int);
pub open spec fn at(m: Map<int, int>, s: int, p: int) -> bool { m.dom().contains(s) && m[s] == p }
pub open spec fn hasedge(H: Heap, s: int, e: nedge) -> bool { exists|i: int| #![trigger H[s]._edges[i]] 0 <= i < H[s]._edges.len() && H[s]._edges[i] == e }
pub open spec fn srcof(st: Seq<int>, m: Map<int, int>, g: Grp, p: int) -> bool { if g.0 { st.contains(p) } else { at(m, g.1, p) } }
pub open spec fn ggives(st: Seq<int>, m: Map<int, int>, nl: int, g: Grp, p: int, x: int, q: int) -> bool { srcof(st, m, g, p) && at(m, g.3, q) && picks(g.2._negated, g.2._symbols, nl, x) }
pub open spec fn grp(G: Seq<Grp>, st: Seq<int>, m: Map<int, int>, nl: int, k: int, p: int, x: int, q: int) -> bool { 0 <= k < G.len() && ggives(st, m, nl, G[k], p, x, q) }
#[verifier::opaque]
pub open spec fn built(C: Aut, G: Seq<Grp>, st: Seq<int>, m: Map<int, int>, nl: int) -> bool { forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) <==> exists|k: int| #[trigger] grp(G, st, m, nl, k, p, x, q) }
pub open spec fn gok(H: Heap, m: Map<int, int>, init: Seq<int>, g: Grp) -> bool { m.dom().contains(g.3) && reach(H, false, g.2._destination, g.3) && useful(H[g.3]) && hasedge(H, g.1, g.2) && (if g.0 { init.contains(g.1) } else { m.dom().contains(g.1) }) }
#[verifier::opaque]
pub open spec fn gsound(H: Heap, G: Seq<Grp>, m: Map<int, int>, init: Seq<int>) -> bool { forall|k: int| #![trigger G[k]] 0 <= k < G.len() ==> gok(H, m, init, G[k]) }
#[verifier::opaque]
pub open spec fn mok(H: Heap, A: Aut, C: Aut, m: Map<int, int>) -> bool { m.dom().finite() && C.len() == A.len() + m.dom().len() && m.dom().subset_of(H.dom()) && (forall|s: int| #[trigger] m.dom().contains(s) ==> A.len() <= m[s] < C.len() && (acc(C, m[s]) <==> H[s]._accepting))
    && (forall|s: int, t: int| #![trigger m[s], m[t]] m.dom().contains(s) && m.dom().contains(t) && m[s] == m[t] ==> s == t) && (forall|p: int| 0 <= p < A.len() ==> #[trigger] acc(C, p) == acc(A, p)) }
#[verifier::opaque]
pub open spec fn wok(m: Map<int, int>, W: Seq<(int, int)>) -> bool { forall|j: int| #![trigger W[j]] 0 <= j < W.len() ==> at(m, W[j].0, W[j].1) }
pub open spec fn inw(W: Seq<(int, int)>, s: int) -> bool { exists|j: int| #![trigger W[j]] 0 <= j < W.len() && W[j].0 == s }
#[verifier::opaque]
pub open spec fn edone(H: Heap, G: Seq<Grp>, fl: bool, s: int, k: int) -> bool { forall|i: int, t: int| #![trigger goes(H, s, i, t)] 0 <= i < k && i < H[s]._edges.len() && goes(H, s, i, t) ==> G.contains((fl, s, H[s]._edges[i], t)) }
#[verifier::opaque]
pub open spec fn tdone(G: Seq<Grp>, fl: bool, s: int, e: nedge, T: Seq<int>, k: int) -> bool { forall|j: int| #![trigger T[j]] 0 <= j < k && j < T.len() ==> G.contains((fl, s, e, T[j])) }
#[verifier::opaque]
pub open spec fn idone(H: Heap, G: Seq<Grp>, init: Seq<int>, k: int) -> bool { forall|a: int| #![trigger init[a]] 0 <= a < k && a < init.len() ==> edone(H, G, true, init[a], H[init[a]]._edges.len() as int) }
#[verifier::opaque]
pub open spec fn gdone(H: Heap, G: Seq<Grp>, m: Map<int, int>, W: Seq<(int, int)>, has: bool, cur: int) -> bool { forall|s: int| #[trigger] m.dom().contains(s) && !inw(W, s) && !(has && s == cur) ==> edone(H, G, false, s, H[s]._edges.len() as int) }
pub open spec fn gsub(G: Seq<Grp>, K: Seq<Grp>) -> bool { forall|g: Grp| #[trigger] G.contains(g) ==> K.contains(g) }
"""
LEMMAS = NQ.LEMMAS + PA._take(PA.LEMMAS, 'empty_word first_step add_step alist_same'.split()) + r"""
proof fn gpush(G: Seq<Grp>, g: Grp) ensures gsub(G, G.push(g)), G.push(g).contains(g)
{ let K = G.push(g); assert(K[G.len() as int] == g); assert forall|h: Grp| #[trigger] G.contains(h) implies K.contains(h) by { let i = choose|i: int| 0 <= i < G.len() && G[i] == h; assert(K[i] == h); } }
proof fn start(H: Heap, A: Aut, st: Seq<int>, nl: int, init: Seq<int>, m: Map<int, int>) requires bare(A), m == Map::<int, int>::empty(), ensures mok(H, A, A, m), built(A, Seq::<Grp>::empty(), st, m, nl), gsound(H, Seq::<Grp>::empty(), m, init), wok(m, Seq::<(int, int)>::empty()), idone(H, Seq::<Grp>::empty(), init, 0), gdone(H, Seq::<Grp>::empty(), m, Seq::<(int, int)>::empty(), false, 0)
{ reveal(mok); reveal(built); reveal(gsound); reveal(wok); reveal(idone); reveal(gdone); assert(m.dom() =~= Set::<int>::empty()); }
// a new state of the stack automaton gets the next identifier
proof fn new_state(H: Heap, A: Aut, C: Aut, E: Aut, G: Seq<Grp>, st: Seq<int>, nl: int, init: Seq<int>, m: Map<int, int>, W: Seq<(int, int)>, has: bool, cur: int, t: int)
    requires mok(H, A, C, m), built(C, G, st, m, nl), gsound(H, G, m, init), wok(m, W), gdone(H, G, m, W, has, cur), grown(C, E, H[t]._accepting), !m.dom().contains(t), H.dom().contains(t),
    ensures ({ let id = C.len() as int; let n = m.insert(t, id); mok(H, A, E, n) && built(E, G, st, n, nl) && gsound(H, G, n, init) && wok(n, W.push((t, id))) && gdone(H, G, n, W.push((t, id)), has, cur) && at(n, t, id) })
{ let id = C.len() as int; let n = m.insert(t, id); let V = W.push((t, id)); assert(n.dom() =~= m.dom().insert(t));
  assert(mok(H, A, E, n)) by { reveal(mok); assert forall|s: int| #[trigger] n.dom().contains(s) implies A.len() <= n[s] < E.len() && (acc(E, n[s]) <==> H[s]._accepting) by { if s != t { assert(m.dom().contains(s)); assert(n[s] == m[s]); } else { assert(!acc(C, id)); } }
    assert forall|s: int, u: int| #![trigger n[s], n[u]] n.dom().contains(s) && n.dom().contains(u) && n[s] == n[u] implies s == u by { if s != t { assert(m.dom().contains(s)); assert(n[s] == m[s]); } if u != t { assert(m.dom().contains(u)); assert(n[u] == m[u]); } } }
  assert(gsound(H, G, n, init)) by { reveal(gsound); assert forall|k: int| #![trigger G[k]] 0 <= k < G.len() implies gok(H, n, init, G[k]) by { assert(gok(H, m, init, G[k])); } }
  assert(built(E, G, st, n, nl)) by { reveal(built); reveal(gsound); assert forall|p: int, x: int, q: int| #[trigger] edge(E, p, x, q) <==> exists|k: int| #[trigger] grp(G, st, n, nl, k, p, x, q) by { assert(edge(C, p, x, q) == edge(E, p, x, q));
      if edge(C, p, x, q) { let k = choose|k: int| #[trigger] grp(G, st, m, nl, k, p, x, q); assert(gok(H, m, init, G[k])); assert(grp(G, st, n, nl, k, p, x, q)); }
      if exists|k: int| #[trigger] grp(G, st, n, nl, k, p, x, q) { let k = choose|k: int| #[trigger] grp(G, st, n, nl, k, p, x, q); assert(gok(H, m, init, G[k])); assert(grp(G, st, m, nl, k, p, x, q)); } } }
  assert(wok(n, V)) by { reveal(wok); assert forall|j: int| #![trigger V[j]] 0 <= j < V.len() implies at(n, V[j].0, V[j].1) by { if j < W.len() { assert(V[j] == W[j]); assert(at(m, W[j].0, W[j].1)); } } }
  assert(gdone(H, G, n, V, has, cur)) by { reveal(gdone); assert forall|s: int| #[trigger] n.dom().contains(s) && !inw(V, s) && !(has && s == cur) implies edone(H, G, false, s, H[s]._edges.len() as int) by { assert(V[W.len() as int].0 == t); assert(m.dom().contains(s)); if inw(W, s) { let j = choose|j: int| #![trigger W[j]] 0 <= j < W.len() && W[j].0 == s; assert(V[j].0 == s); } } } }
// the edges of one group are added
proof fn new_group(H: Heap, A: Aut, C: Aut, E: Aut, G: Seq<Grp>, fr: Seq<int>, st: Seq<int>, nl: int, init: Seq<int>, m: Map<int, int>, W: Seq<(int, int)>, has: bool, cur: int, g: Grp)
    requires mok(H, A, C, m), built(C, G, st, m, nl), gsound(H, G, m, init), gdone(H, G, m, W, has, cur), gok(H, m, init, g), same_acc(C, E), plus(C, E, fr, m[g.3], g.2._negated, g.2._symbols, nl), forall|p: int| #[trigger] fr.contains(p) <==> srcof(st, m, g, p),
    ensures mok(H, A, E, m), built(E, G.push(g), st, m, nl), gsound(H, G.push(g), m, init), gdone(H, G.push(g), m, W, has, cur), forall|s: int, k: int, fl: bool| #![trigger edone(H, G.push(g), fl, s, k)] edone(H, G, fl, s, k) ==> edone(H, G.push(g), fl, s, k), forall|k: int| #![trigger idone(H, G.push(g), init, k)] idone(H, G, init, k) ==> idone(H, G.push(g), init, k),
      forall|fl: bool, s: int, e: nedge, T: Seq<int>, k: int| #![trigger tdone(G.push(g), fl, s, e, T, k)] tdone(G, fl, s, e, T, k) ==> tdone(G.push(g), fl, s, e, T, k)
{ let K = G.push(g); gpush(G, g);
  assert(mok(H, A, E, m)) by { reveal(mok); assert forall|s: int| #[trigger] m.dom().contains(s) implies A.len() <= m[s] < E.len() && (acc(E, m[s]) <==> H[s]._accepting) by { assert(acc(C, m[s]) == acc(E, m[s])); } assert forall|p: int| 0 <= p < A.len() implies #[trigger] acc(E, p) == acc(A, p) by { assert(acc(C, p) == acc(E, p)); assert(acc(C, p) == acc(A, p)); } }
  assert(built(E, K, st, m, nl)) by { reveal(built); assert forall|p: int, x: int, q: int| #[trigger] edge(E, p, x, q) <==> exists|k: int| #[trigger] grp(K, st, m, nl, k, p, x, q) by {
      if edge(C, p, x, q) { let k = choose|k: int| #[trigger] grp(G, st, m, nl, k, p, x, q); assert(K[k] == G[k]); assert(grp(K, st, m, nl, k, p, x, q)); }
      if edge(E, p, x, q) && !edge(C, p, x, q) { let k = G.len() as int; assert(K[k] == g); assert(fr.contains(p)); assert(grp(K, st, m, nl, k, p, x, q)); }
      if exists|k: int| #[trigger] grp(K, st, m, nl, k, p, x, q) { let k = choose|k: int| #[trigger] grp(K, st, m, nl, k, p, x, q); if k < G.len() { assert(K[k] == G[k]); assert(grp(G, st, m, nl, k, p, x, q)); assert(edge(C, p, x, q)); } else { assert(fr.contains(p)); } } } }
  assert(gsound(H, K, m, init)) by { reveal(gsound); assert forall|k: int| #![trigger K[k]] 0 <= k < K.len() implies gok(H, m, init, K[k]) by { if k < G.len() { assert(K[k] == G[k]); } } }
  assert forall|s: int, k: int, fl: bool| #![trigger edone(H, K, fl, s, k)] edone(H, G, fl, s, k) implies edone(H, K, fl, s, k) by { reveal(edone); }
  assert(gdone(H, K, m, W, has, cur)) by { reveal(gdone); assert forall|s: int| #[trigger] m.dom().contains(s) && !inw(W, s) && !(has && s == cur) implies edone(H, K, false, s, H[s]._edges.len() as int) by { assert(edone(H, G, false, s, H[s]._edges.len() as int)); } }
  assert forall|k: int| #![trigger idone(H, K, init, k)] idone(H, G, init, k) implies idone(H, K, init, k) by { reveal(idone); assert forall|a: int| #![trigger init[a]] 0 <= a < k && a < init.len() implies edone(H, K, true, init[a], H[init[a]]._edges.len() as int) by { assert(edone(H, G, true, init[a], H[init[a]]._edges.len() as int)); } }
  assert forall|fl: bool, s: int, e: nedge, T: Seq<int>, k: int| #![trigger tdone(K, fl, s, e, T, k)] tdone(G, fl, s, e, T, k) implies tdone(K, fl, s, e, T, k) by { reveal(tdone); } }
proof fn t_next(G: Seq<Grp>, fl: bool, s: int, e: nedge, T: Seq<int>, k: int) requires tdone(G, fl, s, e, T, k), 0 <= k < T.len(), G.contains((fl, s, e, T[k])), ensures tdone(G, fl, s, e, T, k + 1) { reveal(tdone); }
proof fn t_zero(G: Seq<Grp>, fl: bool, s: int, e: nedge, T: Seq<int>) ensures tdone(G, fl, s, e, T, 0) { reveal(tdone); }
proof fn e_zero(H: Heap, G: Seq<Grp>, fl: bool, s: int) ensures edone(H, G, fl, s, 0) { reveal(edone); }
proof fn e_next(H: Heap, G: Seq<Grp>, fl: bool, s: int, k: int, T: Seq<int>) requires edone(H, G, fl, s, k), 0 <= k < H[s]._edges.len(), tdone(G, fl, s, H[s]._edges[k], T, T.len() as int), forall|t: int| #[trigger] T.contains(t) <==> goes(H, s, k, t), ensures edone(H, G, fl, s, k + 1)
{ reveal(edone); reveal(tdone); assert forall|i: int, t: int| #![trigger goes(H, s, i, t)] 0 <= i < k + 1 && i < H[s]._edges.len() && goes(H, s, i, t) implies G.contains((fl, s, H[s]._edges[i], t)) by { if i == k { assert(T.contains(t)); let j = choose|j: int| 0 <= j < T.len() && T[j] == t; assert(T[j] == t); } } }
proof fn i_next(H: Heap, G: Seq<Grp>, init: Seq<int>, k: int) requires idone(H, G, init, k), 0 <= k < init.len(), edone(H, G, true, init[k], H[init[k]]._edges.len() as int), ensures idone(H, G, init, k + 1) { reveal(idone); }
proof fn g_pop(H: Heap, G: Seq<Grp>, m: Map<int, int>, W: Seq<(int, int)>) requires W.len() > 0, gdone(H, G, m, W, false, 0), wok(m, W), ensures gdone(H, G, m, W.drop_last(), true, W.last().0), wok(m, W.drop_last()), at(m, W.last().0, W.last().1)
{ let V = W.drop_last(); let c = W.last().0; assert(wok(m, V) && at(m, c, W.last().1)) by { reveal(wok); assert(W[W.len() - 1] == W.last()); assert forall|j: int| #![trigger V[j]] 0 <= j < V.len() implies at(m, V[j].0, V[j].1) by { assert(V[j] == W[j]); } }
  reveal(gdone); assert forall|s: int| #[trigger] m.dom().contains(s) && !inw(V, s) && s != c implies edone(H, G, false, s, H[s]._edges.len() as int) by { if inw(W, s) { let j = choose|j: int| #![trigger W[j]] 0 <= j < W.len() && W[j].0 == s; assert(V[j] == W[j]); } } }
proof fn g_end(H: Heap, G: Seq<Grp>, m: Map<int, int>, W: Seq<(int, int)>, c: int) requires gdone(H, G, m, W, true, c), edone(H, G, false, c, H[c]._edges.len() as int), ensures gdone(H, G, m, W, false, 0) { reveal(gdone); }
proof fn m_at(H: Heap, A: Aut, C: Aut, m: Map<int, int>, s: int) requires mok(H, A, C, m), m.dom().contains(s), ensures A.len() <= m[s] < C.len(), H.dom().contains(s), acc(C, m[s]) <==> H[s]._accepting { reveal(mok); }
proof fn one_has(p: int) ensures forall|q: int| #[trigger] seq![p].contains(q) <==> q == p { assert forall|q: int| #[trigger] seq![p].contains(q) <==> q == p by { let s = seq![p]; assert(s[0] == p); } }
proof fn got(H: Heap, C: Aut, G: Seq<Grp>, st: Seq<int>, m: Map<int, int>, nl: int, init: Seq<int>, g: Grp, p: int, x: int) requires built(C, G, st, m, nl), gsound(H, G, m, init), G.contains(g), srcof(st, m, g, p), picks(g.2._negated, g.2._symbols, nl, x), ensures edge(C, p, x, m[g.3]), m.dom().contains(g.3)
{ reveal(built); reveal(gsound); let k = choose|k: int| 0 <= k < G.len() && G[k] == g; assert(gok(H, m, init, G[k])); assert(grp(G, st, m, nl, k, p, x, m[g.3])); }
spec fn whole(H: Heap, A: Aut, C: Aut, G: Seq<Grp>, st: Seq<int>, m: Map<int, int>, nl: int, init: Seq<int>) -> bool { mok(H, A, C, m) && built(C, G, st, m, nl) && gsound(H, G, m, init) && idone(H, G, init, init.len() as int) && gdone(H, G, m, Seq::<(int, int)>::empty(), false, 0) && forall|p: int| #[trigger] st.contains(p) ==> 0 <= p < A.len() }
// a state of the stack automaton and its copy read the same words
proof fn same_words(H: Heap, A: Aut, C: Aut, G: Seq<Grp>, st: Seq<int>, m: Map<int, int>, nl: int, init: Seq<int>, s: int, w: Word) requires whole(H, A, C, G, st, m, nl, init), m.dom().contains(s), ensures accepts(C, m[s], w) == nacc(H, nl, s, w) decreases w.len()
{ m_at(H, A, C, m, s); if w.len() == 0 { assert(w =~= Seq::<int>::empty()); empty_word(C, m[s]); } else { let v = w.drop_first();
  if accepts(C, m[s], w) { first_step(C, m[s], w); let q = choose|q: int| #[trigger] edge(C, m[s], w[0], q) && accepts(C, q, v); let k = { reveal(built); choose|k: int| #[trigger] grp(G, st, m, nl, k, m[s], w[0], q) }; let g = G[k]; assert(gok(H, m, init, g)) by { reveal(gsound); } assert(!g.0); assert(g.1 == s) by { reveal(mok); assert(m[g.1] == m[s]); }
    let i = choose|i: int| #![trigger H[s]._edges[i]] 0 <= i < H[s]._edges.len() && H[s]._edges[i] == g.2; assert(nthru(H, nl, s, i, w[0], g.3)); same_words(H, A, C, G, st, m, nl, init, g.3, v); assert(nhop(H, nl, s, w[0], g.3)); }
  if nacc(H, nl, s, w) { let t = choose|t: int| #[trigger] nhop(H, nl, s, w[0], t) && nacc(H, nl, t, v); let i = choose|i: int| #[trigger] nthru(H, nl, s, i, w[0], t); let g: Grp = (false, s, H[s]._edges[i], t); assert(G.contains(g)) by { reveal(gdone); assert(edone(H, G, false, s, H[s]._edges.len() as int)); reveal(edone); }
    got(H, C, G, st, m, nl, init, g, m[s], w[0]); same_words(H, A, C, G, st, m, nl, init, t, v); add_step(C, m[s], w, m[t]); } } }
proof fn same_start(H: Heap, A: Aut, C: Aut, G: Seq<Grp>, st: Seq<int>, m: Map<int, int>, nl: int, init: Seq<int>, p: int, w: Word) requires whole(H, A, C, G, st, m, nl, init), 0 <= p < A.len(), w.len() > 0, ensures accepts(C, p, w) == (st.contains(p) && nfa_acc(H, nl, init, w))
{ let v = w.drop_first();
  if accepts(C, p, w) { first_step(C, p, w); let q = choose|q: int| #[trigger] edge(C, p, w[0], q) && accepts(C, q, v); let k = { reveal(built); choose|k: int| #[trigger] grp(G, st, m, nl, k, p, w[0], q) }; let g = G[k]; assert(gok(H, m, init, g)) by { reveal(gsound); } if !g.0 { m_at(H, A, C, m, g.1); }
    let s = g.1; let i = choose|i: int| #![trigger H[s]._edges[i]] 0 <= i < H[s]._edges.len() && H[s]._edges[i] == g.2; assert(nthru(H, nl, s, i, w[0], g.3)); same_words(H, A, C, G, st, m, nl, init, g.3, v); assert(nhop(H, nl, s, w[0], g.3)); let a = choose|a: int| 0 <= a < init.len() && init[a] == s; assert(nacc_at(H, nl, init, a, w)); }
  if st.contains(p) && nfa_acc(H, nl, init, w) { let a = choose|a: int| #[trigger] nacc_at(H, nl, init, a, w); let s = init[a]; let t = choose|t: int| #[trigger] nhop(H, nl, s, w[0], t) && nacc(H, nl, t, v); let i = choose|i: int| #[trigger] nthru(H, nl, s, i, w[0], t); let g: Grp = (true, s, H[s]._edges[i], t);
    assert(G.contains(g)) by { reveal(idone); assert(edone(H, G, true, init[a], H[init[a]]._edges.len() as int)); reveal(edone); } got(H, C, G, st, m, nl, init, g, p, w[0]); same_words(H, A, C, G, st, m, nl, init, t, v); add_step(C, p, w, m[t]); } }
proof fn finish(H: Heap, A: Aut, C: Aut, G: Seq<Grp>, st: Seq<int>, m: Map<int, int>, nl: int, init: Seq<int>) requires whole(H, A, C, G, st, m, nl, init), H.dom().finite(),
    ensures closed(C), no_in(C, A.len() as int), C.len() <= A.len() + H.dom().len(), C.len() >= A.len(), forall|p: int, w: Word| 0 <= p < A.len() && w.len() > 0 ==> (#[trigger] accepts(C, p, w) <==> st.contains(p) && nfa_acc(H, nl, init, w)), forall|p: int| 0 <= p < A.len() ==> #[trigger] acc(C, p) == acc(A, p)
{ assert(m.dom().len() <= H.dom().len() && C.len() == A.len() + m.dom().len()) by { reveal(mok); lemma_len_subset(m.dom(), H.dom()); }
  assert forall|p: int, x: int, q: int| #[trigger] edge(C, p, x, q) implies 0 <= q < C.len() && 0 <= p < C.len() && q >= A.len() by { let k = { reveal(built); choose|k: int| #[trigger] grp(G, st, m, nl, k, p, x, q) }; let g = G[k]; assert(gok(H, m, init, g)) by { reveal(gsound); } m_at(H, A, C, m, g.3); if !g.0 { m_at(H, A, C, m, g.1); } }
  assert forall|p: int, w: Word| 0 <= p < A.len() && w.len() > 0 implies (#[trigger] accepts(C, p, w) <==> st.contains(p) && nfa_acc(H, nl, init, w)) by { same_start(H, A, C, G, st, m, nl, init, p, w); } reveal(mok); }
proof fn start_bare(A: Aut, n: int) requires closed(A), no_in(A, n), A.len() == n, ensures bare(A) { assert forall|p: int, x: int, q: int| !#[trigger] edge(A, p, x, q) by { if edge(A, p, x, q) { assert(q >= n); } } }
proof fn with_empty(H: Heap, A: Aut, C: Aut, nl: int, init: Seq<int>, st: Seq<int>, n: int, e: bool) requires A.len() == n, forall|p: int, w: Word| 0 <= p < n && w.len() > 0 ==> (#[trigger] accepts(C, p, w) <==> st.contains(p) && nfa_acc(H, nl, init, w)), forall|p: int| 0 <= p < n ==> #[trigger] acc(C, p) == acc(A, p),
      forall|p: int, w: Word| 0 <= p < n ==> (#[trigger] accepts(A, p, w) <==> e && st.contains(p) && w.len() == 0), e == exists|i: int| #![trigger init[i]] 0 <= i < init.len() && H[init[i]]._accepting,
    ensures forall|p: int, w: Word| 0 <= p < n ==> (#[trigger] accepts(C, p, w) <==> st.contains(p) && nfa_acc(H, nl, init, w))
{ assert forall|p: int, w: Word| 0 <= p < n implies (#[trigger] accepts(C, p, w) <==> st.contains(p) && nfa_acc(H, nl, init, w)) by { if w.len() == 0 { assert(w =~= Seq::<int>::empty()); empty_word(C, p); empty_word(A, p); assert(acc(C, p) == acc(A, p)); assert(accepts(A, p, w) == acc(A, p));
    assert(e == nfa_acc(H, nl, init, w)) by { if e { let i = choose|i: int| #![trigger init[i]] 0 <= i < init.len() && H[init[i]]._accepting; assert(nacc_at(H, nl, init, i, w)); } if nfa_acc(H, nl, init, w) { let a = choose|a: int| #[trigger] nacc_at(H, nl, init, a, w); assert(H[init[a]]._accepting); } } } } }
proof fn lab_ok(H: Heap, p: int, i: int, nl: int) requires edges_ok(H), syms_ok(H, nl), H.dom().contains(p), 0 <= i < H[p]._edges.len(), ensures incs(H[p]._edges[i]._symbols), sym_ok(H[p]._edges[i], nl), H.dom().contains(H[p]._edges[i]._destination)
{ let e = H[p]._edges[i]; assert(sinc(e._symbols)); assert forall|a: int, b: int| #![trigger e._symbols[a], e._symbols[b]] 0 <= a < b < e._symbols.len() implies e._symbols[a] < e._symbols[b] by { assert(sym_lt(e._symbols[a], e._symbols[b])); } }
"""
A0 = 'this0._states'
NL = 'nlabels(this0._pda)'
K = 'a_ok(this_._states) && alist(this_._states, this_._accepting) && this_._pda == this0._pda && this_._initial == this0._initial && mok(H, {0}, this_._states, nfastate_to_id) && built(this_._states, g_, states, nfastate_to_id, nlabels(this0._pda)) && gsound(H, g_, nfastate_to_id, nfa._initial) && wok(nfastate_to_id, waiting) && gdone(H, g_, nfastate_to_id, waiting, {1}, {2})'
K1 = K.format(A0, 'false', '0'); K2 = K.format(A0, 'true', 'cur_') + ' && at(nfastate_to_id, cur_, id_)'
REQ = 'edges_ok(H0) ;; H0.dom().finite() ;; inc(nfa0._initial) ;; sub(nfa0._initial, H0) ;; syms_ok(H0, nlabels({0})) ;; {0}._states.len() + H0.dom().len() < NUL() ;; forall|k: int| #![trigger states0[k]] 0 <= k < states0.len() ==> 0 <= states0[k] < {0}._states.len()'
I1 = ' && idone(H, g_, nfa._initial, k1)'; I4 = ' && idone(H, g_, nfa._initial, nfa._initial.len() as int)'
E1 = 'H[nfa._initial[k1]]._edges[k2]'; E2 = 'H[cur_]._edges[k5]'


def _new(T, k): return 'raw:let ghost w_ = waiting; let ghost i_ = nfastate_to_id; let ghost c_ = this_; proof {{ let z = {0}[{1}]; assert({0}.contains(z)); assert(H.dom().contains(z)); }}'.format(T, k)
def _seen(T, k, s, e, has, cur, more): return 'raw:let ghost b_ = this_; proof {{ if !i_.dom().contains({0}[{1}]) {{ new_state(H, this0._states, c_._states, this_._states, g_, states, {nl}, nfa._initial, i_, w_, {has}, {cur}, {0}[{1}]); }} m_at(H, this0._states, this_._states, nfastate_to_id, {0}[{1}]); {more} lab_ok(H, {s}, {e}, {nl}); }}'.format(T, k, s=s, e=e, has=has, cur=cur, nl=NL, more=more)
def _grp(fl, s, e, T, k, fr, one, has, cur):
    return 'let g = ({fl}, {s}, {e}, {T}[{k}]); {one} assert({e} == g.2); assert(hasedge(H, g.1, g.2)); assert(gok(H, nfastate_to_id, nfa._initial, g)); new_group(H, this0._states, b_._states, this_._states, g_, {fr}, states, {nl}, nfa._initial, nfastate_to_id, waiting, {has}, {cur}, g); alist_same(b_._states, this_._states, this_._accepting); gpush(g_, g); g_ = g_.push(g); t_next(g_, {fl}, {s}, g.2, {T}, {k});'.format(fl=fl, s=s, e=e, T=T, k=k, fr=fr, one=one, has=has, cur=cur, nl=NL)


CONTRACTS = [dict(_p[x], proved_in='paut') for x in ('add_state', 'add_edges1', 'add_edges2', 'make_special')] + [
    nfa('has_non_epsilon'), nfa('follow_m', sig=None), nfa('edge_follow'), nfa('empty_accept'),
    dict(name='construct', fn=PA.AU + 'construct', params=['nfa', 'states', 'map_edge', 'new_state_action'], heap=['H'], heap_const=['H'],
         requires='pa_ok(this0) ;; bare(%s) ;; %s.len() == this0._pda._states.len() ;; ' % (A0, A0) + REQ.format('this0._pda'),
         ensures='pa_ok(this1) ;; this1._pda == this0._pda ;; no_in(this1._states, {0}.len() as int) ;; forall|p: int| 0 <= p < {0}.len() ==> #[trigger] acc(this1._states, p) == acc({0}, p) ;; forall|p: int, w: Word| 0 <= p < {0}.len() && w.len() > 0 ==> (#[trigger] accepts(this1._states, p, w) <==> states0.contains(p) && nfa_acc(H0, nlabels(this0._pda), nfa0._initial, w))'.format(A0), nloops=6,
         loops={1: K1 + I1, 2: K1 + I1 + ' && edone(H, g_, true, nfa._initial[k1], k2)', 3: K1 + I1 + ' && edone(H, g_, true, nfa._initial[k1], k2) && tdone(g_, true, nfa._initial[k1], %s, rng3_s, k3)' % E1,
                4: K1 + I4, 5: K2 + I4 + ' && edone(H, g_, false, cur_, k5)', 6: K2 + I4 + ' && edone(H, g_, false, cur_, k5) && tdone(g_, false, cur_, %s, rng6_s, k6)' % E2},
         hints={'before loop 1': 'raw:let ghost mut g_: Seq<Grp> = Seq::<Grp>::empty(); proof { start(H, this0._states, states, nlabels(this0._pda), nfa._initial, nfastate_to_id); }',
                'loop 1 begin': 'let z = nfa._initial[k1]; assert(H.dom().contains(z));',
                'before loop 2': 'e_zero(H, g_, true, nfa._initial[k1]);', 'loop 2 begin': 'let z = %s;' % E1, 'before loop 3': 't_zero(g_, true, nfa._initial[k1], %s, rng3_s);' % E1,
                'loop 3 begin': _new('rng3_s', 'k3'), 'before add_edges2 1': _seen('rng3_s', 'k3', 'nfa._initial[k1]', 'k2', 'false', '0', ''),
                'loop 3 end': _grp('true', 'nfa._initial[k1]', E1, 'rng3_s', 'k3', 'states', 'assert(nfa._initial.contains(nfa._initial[k1]));', 'false', '0'),
                'after loop 3': 'e_next(H, g_, true, nfa._initial[k1], k2, rng3_s);', 'after loop 2': 'i_next(H, g_, nfa._initial, k1);',
                'loop 4 begin': 'raw:let ghost cur_ = waiting.last().0; let ghost id_ = waiting.last().1; proof { g_pop(H, g_, nfastate_to_id, waiting); m_at(H, this0._states, this_._states, nfastate_to_id, cur_); }',
                'before loop 5': 'e_zero(H, g_, false, cur_);', 'loop 5 begin': 'let z = %s;' % E2, 'before loop 6': 't_zero(g_, false, cur_, %s, rng6_s);' % E2,
                'loop 6 begin': _new('rng6_s', 'k6'), 'before add_edges1 1': _seen('rng6_s', 'k6', 'cur_', 'k5', 'true', 'cur_', 'm_at(H, this0._states, this_._states, nfastate_to_id, cur_);'),
                'loop 6 end': _grp('false', 'cur_', E2, 'rng6_s', 'k6', 'seq![nfastate_to_id[cur_]]', 'one_has(nfastate_to_id[cur_]);', 'true', 'cur_'),
                'after loop 6': 'e_next(H, g_, false, cur_, k5, rng6_s);', 'after loop 5': 'g_end(H, g_, nfastate_to_id, waiting, cur_);',
                'after loop 4': 'assert(waiting =~= Seq::<(int, int)>::empty()); assert forall|p: int| #[trigger] states.contains(p) implies 0 <= p < this0._states.len() by { let k = choose|k: int| 0 <= k < states.len() && states[k] == p; } finish(H, this0._states, this_._states, g_, states, nfastate_to_id, nlabels(this0._pda), nfa._initial);'}),
    dict(name='make_nfa', fn=PA.AU + 'PAutomaton', nparams=3, sig=r'.*NFA<', params=['pda', 'nfa', 'states'], heap=['H'], heap_const=['H'],
         requires=REQ.format('pda0') + ' ;; nondec(states0)',
         ensures='pa_ok(this1) ;; this1._pda == pda0 ;; no_in(this1._states, pda0._states.len() as int) ;; forall|p: int, w: Word| 0 <= p < pda0._states.len() ==> (#[trigger] accepts(this1._states, p, w) <==> states0.contains(p) && nfa_acc(H0, nlabels(pda0), nfa0._initial, w))',
         hints={'before construct 1': 'raw:let ghost a_ = this_; proof { start_bare(this_._states, pda0._states.len() as int); }', 'end': 'with_empty(H, a_._states, this_._states, nlabels(pda0), nfa._initial, states, pda0._states.len() as int, c1_);'}),
]


def unit(ast):
    c = B.config(); c['member_ptr'] = dict(_initial='_states', _accepting='_states')
    isn = lambda T, i: i.endswith('state_t') and 'PAutomaton' not in i and ('NFA' in i or i.split()[-1] != 'state_t' or (bool(T.scope) and 'NFA<' in T.scope[-1]))
    c['rec_names'].update({r'.*NFA<.*>::state_t': 'nstate', r'.*NFA<.*>::edge_t': 'nedge', r'.*::NFA<.*>': 'nfa_t'})
    c['pointer'] = lambda T, i: Ty('hptr', [], name='state') if isn(T, i) else None
    c['unique_ptr'] = lambda T, s, inner: Ty('hptr', [], name='state') if inner.name == 'nstate' else None
    c['heap'] = {'state': ('H', 'pdaaal::NFA<unsigned int>::state_t')}; c['heaps'] = {'H': Ty('raw', name='Heap')}
    return Unit('pautn', 'pautn.cpp', CONTRACTS, c, SPEC, LEMMAS, ast)
