"""U01: disjointness of sorted sequences, priority_set."""
from unit import Unit
SPEC = r'''
pub open spec fn sorted_e(s: Seq<elem_t>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() ==> s[i].rank <= s[j].rank }
pub open spec fn sorted_o(s: Seq<other_t>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() ==> s[i].key <= s[j].key }
// (weight, element) entries that were inserted and whose element was not handed out yet
pub open spec fn pend(p: priority_set, w: weight_t, e: item_t) -> bool { p._queue.contains((w, e)) && !p._seen.contains(e) }
pub open spec fn top_ok(p: priority_set) -> bool { exists|i: int| #![trigger p._queue[i]] 0 <= i < p._queue.len() && !p._seen.contains(p._queue[i].1) && forall|j: int| #![trigger p._queue[j]] 0 <= j < p._queue.len() ==> p._queue[j].0.w <= p._queue[i].0.w }
pub open spec fn pq_lt() -> spec_fn((weight_t, item_t), (weight_t, item_t)) -> bool { |a_: (weight_t, item_t), b_: (weight_t, item_t)| (a_.0.w < b_.0.w) }
pub open spec fn inv(p: priority_set) -> bool { p._queue.len() > 0 ==> !p._seen.contains(p._queue[std_pq_top(p._queue, pq_lt())].1) }
'''
LEMMAS = r'''
proof fn top_in(p: priority_set)
    ensures inv(p) && p._queue.len() > 0 ==> ({ let t = p._queue[std_pq_top(p._queue, pq_lt())]; pend(p, t.0, t.1) })
{ std_pq_range(p._queue, pq_lt()); }

proof fn push_pend(q: Seq<(weight_t, item_t)>, x: (weight_t, item_t))
    ensures forall|w: weight_t, e: item_t| #[trigger] q.push(x).contains((w, e)) <==> q.contains((w, e)) || (w, e) == x
{
    assert forall|w: weight_t, e: item_t| #[trigger] q.push(x).contains((w, e)) <==> q.contains((w, e)) || (w, e) == x by {
        if q.contains((w, e)) { let i = choose|i: int| 0 <= i < q.len() && q[i] == (w, e); assert(q.push(x)[i] == (w, e)); }
        if (w, e) == x { assert(q.push(x)[q.len() as int] == x); }
    }
}
proof fn remove_pend(q: Seq<(weight_t, item_t)>, k: int)
    ensures 0 <= k < q.len() ==> (forall|w: weight_t, e: item_t| e != q[k].1 ==> (#[trigger] q.remove(k).contains((w, e)) <==> q.contains((w, e)))) && (forall|w: weight_t, e: item_t| #[trigger] q.remove(k).contains((w, e)) ==> q.contains((w, e)))
{
    if 0 <= k < q.len() {
    let r = q.remove(k);
    assert forall|w: weight_t, e: item_t| #[trigger] r.contains((w, e)) implies q.contains((w, e)) by { let i = choose|i: int| 0 <= i < r.len() && r[i] == (w, e); if i < k { assert(q[i] == r[i]); } else { assert(q[i + 1] == r[i]); } }
    assert forall|w: weight_t, e: item_t| e != q[k].1 implies (#[trigger] r.contains((w, e)) <==> q.contains((w, e))) by {
        if q.contains((w, e)) { let i = choose|i: int| 0 <= i < q.len() && q[i] == (w, e); if i < k { assert(r[i] == q[i]); } else { assert(i > k); assert(r[i - 1] == q[i]); } } }
    }
}
'''
DISJ = lambda A, B: 'result == !(exists|i: int, j: int| #![trigger a0[i], b0[j]] 0 <= i < a0.len() && 0 <= j < b0.len() && a0[i].%s == b0[j].%s)' % (A, B)
def INV(A, B): return '''0 <= it_a <= a0.len();; 0 <= it_b <= b0.len();;
   forall|i: int, j: int| #![trigger a0[i], b0[j]] 0 <= i < it_a && 0 <= j < b0.len() ==> a0[i].%s != b0[j].%s;; forall|i: int, j: int| #![trigger a0[i], b0[j]] 0 <= i < a0.len() && 0 <= j < it_b ==> a0[i].%s != b0[j].%s''' % (A, B, A, B)
PS = r'pdaaal::priority_set<.*>::'
EMP = 'inv(this1);; this1._seen == this0._seen;; forall|w: weight_t, e: item_t| #[trigger] pend(this1, w, e) <==> pend(this0, w, e) || (!this0._seen.contains(e) && w == weight0 && e == elem0)'
CONTRACTS = [
    dict(name='is_disjoint', fn='pdaaal::is_disjoint', nparams=2, params=['a', 'b'], requires='sorted_e(a0);; sorted_e(b0)', ensures=DISJ('rank', 'rank'), loops={1: INV('rank', 'rank')}),
    dict(name='is_disjoint_comp', fn='pdaaal::is_disjoint', nparams=3, params=['a', 'b', 'comp'], requires='sorted_e(a0);; sorted_o(b0)', ensures=DISJ('rank', 'key'), loops={1: INV('rank', 'key')}),
    dict(name='ps_emplace', fn=PS + 'emplace', sig=r'\(const ', params=['weight', 'elem'], requires='inv(this0)', ensures=EMP, hints={'end': 'push_pend(this0._queue, (weight0, elem0)); if this_._queue.len() > 0 { assert(!this_._seen.contains(elem0) || this_._queue == this0._queue); }'}),
    dict(name='ps_emplace_move', fn=PS + 'emplace', sig=r'&&', params=['weight', 'elem'], requires='inv(this0)', ensures=EMP, hints={'end': 'push_pend(this0._queue, (weight0, elem0));'}),
    dict(name='ps_top', fn=PS + 'top', requires='inv(this0);; exists|w: weight_t, e: item_t| #[trigger] pend(this0, w, e)', ensures='pend(this0, result.0, result.1);; forall|w: weight_t, e: item_t| #[trigger] pend(this0, w, e) ==> w.w <= result.0.w;; result == this0._queue[std_pq_top(this0._queue, pq_lt())]'),
    dict(name='ps_pop', fn=PS + 'pop', requires='inv(this0);; exists|w: weight_t, e: item_t| #[trigger] pend(this0, w, e)', ensures='''inv(this1);; ({ let t = this0._queue[std_pq_top(this0._queue, pq_lt())]; this1._seen == this0._seen.insert(t.1) && forall|w: weight_t, e: item_t| #[trigger] pend(this1, w, e) <==> pend(this0, w, e) && e != t.1 })''',
         loops={1: '''this_._seen == this0._seen.insert(this0._queue[std_pq_top(this0._queue, pq_lt())].1);; forall|w: weight_t, e: item_t| #[trigger] this_._queue.contains((w, e)) ==> this0._queue.contains((w, e));;
                      forall|w: weight_t, e: item_t| !this_._seen.contains(e) ==> (#[trigger] this_._queue.contains((w, e)) <==> this0._queue.contains((w, e)))'''},
         hints={'begin': 'remove_pend(this0._queue, std_pq_top(this0._queue, pq_lt()));', 'loop 1 begin': 'remove_pend(this_._queue, std_pq_top(this_._queue, pq_lt()));'}),
    dict(name='ps_empty', fn=PS + 'empty', requires='inv(this0)', ensures='result == !(exists|w: weight_t, e: item_t| #[trigger] pend(this0, w, e))', hints={'begin': 'top_in(this0);'}),
    dict(name='ps_back', fn=PS + 'back', requires='inv(this0);; exists|w: weight_t, e: item_t| #[trigger] pend(this0, w, e)', ensures='result == this0._queue[std_pq_top(this0._queue, pq_lt())].1'),
    dict(name='ps_pop_back', fn=PS + 'pop_back', requires='inv(this0);; exists|w: weight_t, e: item_t| #[trigger] pend(this0, w, e)', ensures='''inv(this1);; ({ let t = this0._queue[std_pq_top(this0._queue, pq_lt())]; this1._seen == this0._seen.insert(t.1) && forall|w: weight_t, e: item_t| #[trigger] pend(this1, w, e) <==> pend(this0, w, e) && e != t.1 })'''),
]


def unit(ast):
    return Unit('utils', 'utils.cpp', CONTRACTS, {}, SPEC, LEMMAS, ast)
