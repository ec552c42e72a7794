"""L01: labels_t, the set of stack labels of a rule (explicit list or wildcard)."""
from unit import Unit

SPEC = r'''
pub open spec fn inc(s: Seq<int>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn within(s: Seq<int>, n: int) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> 0 <= s[i] < n }
// the representation: strictly increasing list; a wildcard has no explicit labels
pub open spec fn lab_wf(l: labels_t) -> bool { inc(l._labels) && (l._wildcard ==> l._labels.len() == 0) }
// the label set denoted by the representation
pub open spec fn den(l: labels_t, x: int) -> bool { l._wildcard || l._labels.contains(x) }
pub open spec fn nonempty(l: labels_t) -> bool { exists|x: int| #[trigger] den(l, x) }
pub open spec fn nonempty_below(l: labels_t, n: int) -> bool { exists|x: int| 0 <= x < n && #[trigger] den(l, x) }
pub open spec fn pre(s: Seq<int>, n: int, x: int) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < n && s[i] == x }
'''
LEMMAS = r'''
// a strictly increasing list of labels below n has at most n elements, and n of them only if it is complete
proof fn inc_ge(s: Seq<int>, n: int, i: int)
    requires inc(s), within(s, n), 0 <= i < s.len(), ensures s[i] >= i decreases i
{ if i > 0 { inc_ge(s, n, i - 1); assert(s[i - 1] < s[i]); } }
proof fn inc_le(s: Seq<int>, n: int, i: int)
    requires inc(s), within(s, n), 0 <= i < s.len(), ensures s[i] <= n - s.len() + i decreases s.len() - i
{ if i + 1 < s.len() { inc_le(s, n, i + 1); assert(s[i] < s[i + 1]); } }
proof fn complete(s: Seq<int>, n: int)
    requires inc(s), within(s, n), s.len() == n, ensures forall|x: int| 0 <= x < n ==> s.contains(x)
{ assert forall|x: int| 0 <= x < n implies s.contains(x) by { inc_ge(s, n, x); inc_le(s, n, x); assert(s[x] == x); } }
proof fn bounded_len(s: Seq<int>, n: int)
    requires inc(s), within(s, n), n >= 0, ensures s.len() <= n
{ if s.len() > 0 { inc_ge(s, n, s.len() - 1); } }
proof fn full_len(s: Seq<int>, n: int)
    requires inc(s), within(s, n), n >= 0, forall|x: int| 0 <= x < n ==> s.contains(x), ensures s.len() >= n decreases n
{ if n > 0 { assert(s.contains(n - 1)); let m = s.len() - 1; let k = choose|k: int| 0 <= k < s.len() && s[k] == n - 1; if k < m { assert(s[k] < s[m]); } 
  let t = s.drop_last(); assert(t =~= s.subrange(0, m)); assert forall|x: int| 0 <= x < n - 1 implies t.contains(x) by { assert(s.contains(x)); let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
  assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies 0 <= t[i] < n - 1 by { assert(s[i] < s[m]); } full_len(t, n - 1); } }
// two strictly increasing lists of the same length, one contained in the other, are equal
proof fn same(a: Seq<int>, b: Seq<int>)
    requires inc(a), inc(b), a.len() == b.len(), forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> b.contains(a[i]), ensures a == b decreases a.len()
{ if a.len() > 0 { let m = a.len() - 1; assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { pos_ge(a, b, i); pos_le(a, b, i); } assert(a =~= b); } }
proof fn pos_ge(a: Seq<int>, b: Seq<int>, i: int)
    requires inc(a), inc(b), a.len() == b.len(), forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> b.contains(a[i]), 0 <= i < a.len(), ensures a[i] >= b[i] decreases i
{ let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i]; assert(b.contains(a[i])); if k < i { pos_ge(a, b, i - 1); assert(a[i - 1] < a[i]); if k < i - 1 { assert(b[k] < b[i - 1]); } } else if k > i { assert(b[i] < b[k]); } }
proof fn pos_le(a: Seq<int>, b: Seq<int>, i: int)
    requires inc(a), inc(b), a.len() == b.len(), forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> b.contains(a[i]), 0 <= i < a.len(), ensures a[i] <= b[i] decreases a.len() - i
{ let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i]; assert(b.contains(a[i])); if k > i { pos_le(a, b, i + 1); assert(a[i] < a[i + 1]); if k > i + 1 { assert(b[i + 1] < b[k]); } } else if k < i { assert(b[k] < b[i]); } }
// g[..bit] is the sublist of o[..nl] whose elements occur in q
pub open spec fn filtered(g: Seq<int>, bit: int, o: Seq<int>, nl: int, q: Seq<int>) -> bool {
    inc(g.subrange(0, bit)) && (bit > 0 ==> g[bit - 1] <= o[nl - 1]) && forall|x: int| #[trigger] pre(g, bit, x) <==> (pre(o, nl, x) && q.contains(x))
}
proof fn step(l: Seq<int>, lbit: int, g: Seq<int>, bit: int, o: Seq<int>, nl: int, q: Seq<int>, f: int)
    requires filtered(l, lbit, o, nl, q), inc(o), inc(q), 0 <= lbit <= nl < o.len(), l.len() == o.len(), g.len() == o.len(), 0 <= f <= q.len(),
        forall|k: int| #![trigger q[k]] 0 <= k < f ==> q[k] < o[nl], f < q.len() ==> q[f] >= o[nl], l[nl] == o[nl],
        if f < q.len() && q[f] == o[nl] { bit == lbit + 1 && g == l.update(lbit, o[nl]) } else { bit == lbit && g == l },
    ensures filtered(g, bit, o, nl + 1, q)
{
    let hit = f < q.len() && q[f] == o[nl];
    assert(q.contains(o[nl]) <==> hit) by { if q.contains(o[nl]) { let k = choose|k: int| 0 <= k < q.len() && q[k] == o[nl]; if k > f { assert(q[f] < q[k]); } } }
    if nl > 0 { assert(o[nl - 1] < o[nl]); }
    assert forall|x: int| #[trigger] pre(o, nl + 1, x) <==> (pre(o, nl, x) || x == o[nl]) by { if x == o[nl] { assert(o[nl] == x); } }
    assert forall|x: int| #[trigger] pre(g, bit, x) <==> (pre(l, lbit, x) || (hit && x == o[nl])) by {
        if pre(g, bit, x) { let i = choose|i: int| #![trigger g[i]] 0 <= i < bit && g[i] == x; if i < lbit { assert(l[i] == x); } }
        if pre(l, lbit, x) { let i = choose|i: int| #![trigger l[i]] 0 <= i < lbit && l[i] == x; assert(g[i] == x); }
        if hit && x == o[nl] { assert(g[lbit] == x); } }
    let gs = g.subrange(0, bit); let ls = l.subrange(0, lbit);
    assert forall|i: int, j: int| #![trigger gs[i], gs[j]] 0 <= i < j < gs.len() implies gs[i] < gs[j] by { assert(ls[i] == gs[i]); if j < lbit { assert(ls[j] == gs[j]); } else { if i < lbit - 1 { assert(ls[i] < ls[lbit - 1]); } } }
}
proof fn finish(g: Seq<int>, bit: int, o: Seq<int>, nl: int, q: Seq<int>, n: int)
    requires filtered(g, bit, o, nl, q), inc(o), inc(q), 0 <= bit <= nl <= o.len(), g.len() == o.len(), within(o, n), within(q, n), n >= 0,
        nl < o.len() ==> forall|k: int| #![trigger q[k]] 0 <= k < q.len() ==> q[k] < o[nl],
    ensures inc(g.subrange(0, bit)), within(g.subrange(0, bit), n), forall|x: int| #[trigger] g.subrange(0, bit).contains(x) <==> (o.contains(x) && q.contains(x)), bit == n ==> q.len() >= n,
        forall|i: int| #![trigger g[i]] 0 <= i < bit ==> o.contains(g[i])
{
    let r = g.subrange(0, bit);
    assert forall|x: int| #[trigger] r.contains(x) <==> (o.contains(x) && q.contains(x)) by {
        if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(g[i] == x); assert(pre(g, bit, x)); assert(pre(o, nl, x)); }
        if o.contains(x) && q.contains(x) { let i = choose|i: int| 0 <= i < o.len() && o[i] == x; if i >= nl { if i > nl { assert(o[nl] < o[i]); } } assert(o[i] == x); assert(pre(o, nl, x)); assert(pre(g, bit, x)); let j = choose|j: int| #![trigger g[j]] 0 <= j < bit && g[j] == x; assert(r[j] == x); }
    }
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies 0 <= r[i] < n by { assert(r.contains(r[i])); let k = choose|k: int| 0 <= k < q.len() && q[k] == r[i]; }
    assert forall|i: int| #![trigger g[i]] 0 <= i < bit implies o.contains(g[i]) by { assert(r[i] == g[i]); assert(r.contains(r[i])); }
    if bit == n { complete(r, n); assert forall|x: int| 0 <= x < n implies q.contains(x) by { assert(r.contains(x)); } full_len(q, n); }
}
proof fn within_den(l: labels_t, n: int)
    requires within(l._labels, n), ensures !l._wildcard ==> forall|x: int| #[trigger] den(l, x) ==> 0 <= x < n
{ if !l._wildcard { assert forall|x: int| #[trigger] den(l, x) implies 0 <= x < n by { let i = choose|i: int| 0 <= i < l._labels.len() && l._labels[i] == x; } } }
proof fn ne_below(l: labels_t, n: int) requires within(l._labels, n), n > 0, ensures nonempty(l) == nonempty_below(l, n)
{ within_den(l, n); if nonempty(l) { let x = choose|x: int| #[trigger] den(l, x); if l._wildcard { assert(0 <= 0int < n && den(l, 0int)); } else { assert(0 <= x < n && den(l, x)); } } }
// idempotence, commutativity, absorption on the denoted sets follow from the element-wise contracts:
proof fn union_commutes(a: labels_t, b: labels_t, ab: labels_t, ba: labels_t)
    requires forall|x: int| den(ab, x) <==> den(a, x) || den(b, x), forall|x: int| den(ba, x) <==> den(b, x) || den(a, x), ensures forall|x: int| den(ab, x) <==> den(ba, x) {}
'''

def INV(fit, bit, nl, other):
    return '''0 <= FIT <= OTHER.len();; 0 <= BIT <= NL <= this_._labels.len();; this_._labels.len() == this0._labels.len();; !this_._wildcard;; !this0._wildcard;;
                 forall|j: int| #![trigger this_._labels[j]] NL <= j < this0._labels.len() ==> this_._labels[j] == this0._labels[j];;
                 forall|k: int| #![trigger OTHER[k]] 0 <= k < FIT && NL < this0._labels.len() ==> OTHER[k] < this0._labels[NL];;
                 filtered(this_._labels, BIT, this0._labels, NL, OTHER)'''.replace('FIT', fit).replace('BIT', bit).replace('NL', nl).replace('OTHER', other)


L = r'pdaaal::internal::labels_t::'
W = 'lab_wf(this0)'
CONTRACTS = [
    dict(name='lab_wildcard', fn=L + 'wildcard', ensures='result == this0._wildcard'),
    dict(name='lab_labels', fn=L + 'labels', ensures='result == this0._labels'),
    dict(name='lab_empty', fn=L + 'empty', requires=W, ensures='result == !nonempty(this0)',
         hints={'return': 'if !result_ { if this_._wildcard { assert(den(this_, 0)); } else { assert(this_._labels.contains(this_._labels[0])); assert(den(this_, this_._labels[0])); } }'}),
    dict(name='lab_contains', fn=L + 'contains', params=['label'], requires=W, ensures='result == den(this0, label0)'),
    dict(name='lab_clear', fn=L + 'clear', ensures='lab_wf(this1);; forall|x: int| !#[trigger] den(this1, x)'),
    dict(name='lab_merge', fn=L + 'merge', params=['wildcard', 'other'], requires=W + ';; inc(other0)',
         ensures='lab_wf(this1);; forall|x: int| #[trigger] den(this1, x) <==> (den(this0, x) || wildcard0 || other0.contains(x));; forall|n: int| within(this0._labels, n) && within(other0, n) ==> #[trigger] within(this1._labels, n)',
         hints={'end': '''assert(this0._labels.subrange(0, this0._labels.len() as int) =~= this0._labels); assert(other0.subrange(0, other0.len() as int) =~= other0);
            assert(forall|x: int| #[trigger] this_._labels.contains(x) == (this0._labels.contains(x) || other0.contains(x)));
            assert forall|n: int| within(this0._labels, n) && within(other0, n) implies #[trigger] within(this_._labels, n) by {
              assert forall|i: int| #![trigger this_._labels[i]] 0 <= i < this_._labels.len() implies 0 <= this_._labels[i] < n by { assert(this_._labels.contains(this_._labels[i])); } }'''}),
    dict(name='lab_intersect', fn=L + 'intersect', params=['other', 'n'], requires=W + ';; inc(other0);; n0 > 0;; within(other0, n0);; within(this0._labels, n0)',
         ensures="""lab_wf(this1);; within(this1._labels, n0);; forall|x: int| 0 <= x < n0 ==> (#[trigger] den(this1, x) <==> (den(this0, x) && other0.contains(x)));;
            result == nonempty_below(this1, n0);; (this1._wildcard ==> this0._wildcard)""",
         hints={'begin': 'if other0.len() == n0 { complete(other0, n0); }  bounded_len(other0, n0); bounded_len(this0._labels, n0);',
                'return': 'ne_below(this_, n0);',
                'loop 1 begin': 'raw:let ghost old_l = this_._labels; let ghost old_bit = bit;',
                'loop 1 end': 'step(old_l, old_bit, this_._labels, bit, this0._labels, nl, other, fit);',
                'after loop 1': 'finish(this_._labels, bit, this0._labels, nl, other, n0); assert(std_resize(this_._labels, bit, 0int) =~= this_._labels.subrange(0, bit));'},
         loops={1: INV('fit', 'bit', 'nl', 'other'),
                2: """0 <= fit <= other.len();; forall|k: int| #![trigger other[k]] 0 <= k < fit ==> other[k] < this0._labels[nl]"""}),
    dict(name='lab_noop_pre_filter', fn=L + 'noop_pre_filter', params=['useful'], requires=W + ';; inc(useful0);; within(this0._labels, 0x1_0000_0000);; within(useful0, 0x1_0000_0000)',
         ensures="""lab_wf(this1);; !this1._wildcard;; forall|x: int| #[trigger] den(this1, x) <==> (den(this0, x) && useful0.contains(x));; result == (this1 != this0);;
            forall|n: int| within(this0._labels, n) && within(useful0, n) ==> #[trigger] within(this1._labels, n)""",
         hints={'begin': 'bounded_len(this0._labels, 0x1_0000_0000);', 'loop 1 begin': 'raw:let ghost old_l = this_._labels; let ghost old_bit = wit;',
                'loop 1 end': 'step(old_l, old_bit, this_._labels, wit, this0._labels, it - 1, useful, uit);',
                'after loop 1': 'finish(this_._labels, wit, this0._labels, it, useful, 0x1_0000_0000); assert(std_resize(this_._labels, wit, 0int) =~= this_._labels.subrange(0, wit)); if wit == it { assert(this_._labels.subrange(0, wit) =~= this_._labels); same(this_._labels, this0._labels); }',
                'return': """assert(useful0.subrange(0, useful0.len() as int) =~= useful0); assert(Seq::<int>::empty().subrange(0, 0) + useful0 + Seq::<int>::empty().subrange(0, 0) =~= useful0);
                   assert(den(this_, 0) || !den(this_, 0)); if this0._wildcard { assert(this0._labels =~= Seq::<int>::empty()); assert(this_._labels =~= useful0); }
                   assert forall|n: int| within(this0._labels, n) && within(useful0, n) implies #[trigger] within(this_._labels, n) by {
                    assert forall|i: int| #![trigger this_._labels[i]] 0 <= i < this_._labels.len() implies 0 <= this_._labels[i] < n by { assert(den(this_, this_._labels[i])); assert(useful0.contains(this_._labels[i])); let k = choose|k: int| 0 <= k < useful0.len() && useful0[k] == this_._labels[i]; } }"""},
         loops={1: INV('uit', 'wit', 'it', 'useful'),
                2: """0 <= uit <= useful.len();; forall|k: int| #![trigger useful[k]] 0 <= k < uit ==> useful[k] < this0._labels[it]"""}),
]


def unit(ast):
    return Unit('labels', 'sets.cpp', CONTRACTS, {}, SPEC, LEMMAS, ast)
