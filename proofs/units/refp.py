"""G01: refinements computed for conflicting pair sets, over arbitrary totally ordered element types."""
from unit import Unit
from proofs.units import refc


def calls(n, name):
    """the instantiation whose (if constexpr) body calls name"""
    if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('name') == name: return True
    return any(calls(x, name) for x in n.get('inner', []) if isinstance(x, dict))


def gen(n, T, lt):
    """weakly/strictly sorted lists and sharing for element type T."""
    return r'''
pub open spec fn ws%(n)s(s: Seq<%(T)s>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !%(lt)s(s[j], s[i]) }
pub open spec fn ss%(n)s(s: Seq<%(T)s>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> %(lt)s(s[i], s[j]) }
pub open spec fn sh%(n)s(a: Seq<%(T)s>, b: Seq<%(T)s>) -> bool { exists|x: %(T)s| #[trigger] a.contains(x) && b.contains(x) }
pub open spec fn zok%(n)s(len: int, zx: Seq<Seq<%(T)s>>, zy: Seq<Seq<%(T)s>>) -> bool {
    zx.len() == len && zy.len() == len && (forall|k: int| #![trigger zx[k]] 0 <= k < len ==> ss%(n)s(zx[k])) && (forall|k: int| #![trigger zy[k]] 0 <= k < len ==> ss%(n)s(zy[k]))
    && (forall|k: int, u: %(T)s| #![trigger zx[k].contains(u), zy[k].contains(u)] 0 <= k < len && zx[k].contains(u) ==> !zy[k].contains(u))
}
// list k of z became its union with u (list r of the old z if there was one), the others are unchanged
pub open spec fn grown%(n)s(z0: Seq<Seq<%(T)s>>, z1: Seq<Seq<%(T)s>>, r: int, u: Seq<%(T)s>) -> bool {
    0 <= r <= z0.len() && z1.len() == (if r < z0.len() { z0.len() } else { z0.len() + 1 }) && (forall|k: int| #![trigger z1[k]] 0 <= k < z0.len() && k != r ==> z1[k] == z0[k])
    && (forall|x: %(T)s| #[trigger] z1[r].contains(x) == ((r < z0.len() && z0[r].contains(x)) || u.contains(x)))
}''' % dict(n=n, T=T, lt=lt)


def lem(n, T):
    return r'''
pub open spec fn asg%(n)s<E>(p0: Seq<Seq<E>>, p1: Seq<Seq<E>>, zx0: Seq<Seq<%(T)s>>, zx1: Seq<Seq<%(T)s>>, zy0: Seq<Seq<%(T)s>>, zy1: Seq<Seq<%(T)s>>, xs: Seq<%(T)s>, ys: Seq<%(T)s>, e: E, r: int) -> bool {
    pushed(p0, p1, r, e) && zok%(n)s(p1.len() as int, zx1, zy1) && grown%(n)s(zx0, zx1, r, xs) && grown%(n)s(zy0, zy1, r, ys)
}
proof fn lem_asg%(n)s<E>(p0: Seq<Seq<E>>, p1: Seq<Seq<E>>, zx0: Seq<Seq<%(T)s>>, zx1: Seq<Seq<%(T)s>>, zy0: Seq<Seq<%(T)s>>, zy1: Seq<Seq<%(T)s>>, xs: Seq<%(T)s>, ys: Seq<%(T)s>, e: E, r: int)
    requires zok%(n)s(p0.len() as int, zx0, zy0), 0 <= r < p0.len(), p1 == p0.update(r, p0[r].push(e)), zx1 == zx0.update(r, zx1[r]), zy1 == zy0.update(r, zy1[r]), ss%(n)s(zx1[r]), ss%(n)s(zy1[r]),
        forall|x: %(T)s| #[trigger] zx1[r].contains(x) == (zx0[r].contains(x) || xs.contains(x)), forall|x: %(T)s| #[trigger] zy1[r].contains(x) == (zy0[r].contains(x) || ys.contains(x)),
        !sh%(n)s(xs, ys), !sh%(n)s(zy0[r], xs), !sh%(n)s(zx0[r], ys),
    ensures asg%(n)s(p0, p1, zx0, zx1, zy0, zy1, xs, ys, e, r)
{
    assert forall|k: int, u: %(T)s| #![trigger zx1[k].contains(u), zy1[k].contains(u)] 0 <= k < p1.len() && zx1[k].contains(u) implies !zy1[k].contains(u) by {
        if k == r { if zy1[k].contains(u) { assert(xs.contains(u) ==> !ys.contains(u)); assert(zy0[r].contains(u) ==> !xs.contains(u)); assert(zx0[r].contains(u) ==> !ys.contains(u)); assert(zx0[r].contains(u) ==> !zy0[r].contains(u)); } }
        else { assert(zx1[k] == zx0[k] && zy1[k] == zy0[k]); }
    }
    assert forall|k: int| #![trigger zx1[k]] 0 <= k < p1.len() implies ss%(n)s(zx1[k]) by { if k != r { assert(zx1[k] == zx0[k]); } }
    assert forall|k: int| #![trigger zy1[k]] 0 <= k < p1.len() implies ss%(n)s(zy1[k]) by { if k != r { assert(zy1[k] == zy0[k]); } }
}
proof fn lem_asgn%(n)s<E>(p0: Seq<Seq<E>>, p1: Seq<Seq<E>>, zx0: Seq<Seq<%(T)s>>, zx1: Seq<Seq<%(T)s>>, zy0: Seq<Seq<%(T)s>>, zy1: Seq<Seq<%(T)s>>, xs: Seq<%(T)s>, ys: Seq<%(T)s>, e: E)
    requires zok%(n)s(p0.len() as int, zx0, zy0), p1 == p0.push(seq![e]), zx1 == zx0.push(xs), zy1 == zy0.push(ys), ss%(n)s(xs), ss%(n)s(ys), !sh%(n)s(xs, ys),
    ensures asg%(n)s(p0, p1, zx0, zx1, zy0, zy1, xs, ys, e, p0.len() as int)
{
    let r = p0.len() as int;
    assert(zx1[r] == xs && zy1[r] == ys);
    assert forall|k: int, u: %(T)s| #![trigger zx1[k].contains(u), zy1[k].contains(u)] 0 <= k < p1.len() && zx1[k].contains(u) implies !zy1[k].contains(u) by {
        if k == r { assert(xs.contains(u) ==> !ys.contains(u)); } else { assert(zx1[k] == zx0[k] && zy1[k] == zy0[k]); }
    }
    assert forall|k: int| #![trigger zx1[k]] 0 <= k < p1.len() implies ss%(n)s(zx1[k]) by { if k != r { assert(zx1[k] == zx0[k]); } }
    assert forall|k: int| #![trigger zy1[k]] 0 <= k < p1.len() implies ss%(n)s(zy1[k]) by { if k != r { assert(zy1[k] == zy0[k]); } }
}
''' % dict(n=n, T=T)


LEM = r'''
proof fn lem_sub<T>(s: Seq<T>) ensures s.subrange(0, s.len() as int) == s { assert(s.subrange(0, s.len() as int) =~= s); }
pub open spec fn seen(s: Seq<(At, Bt)>, lo: int, k: int, b: Bt) -> bool { exists|i: int| lo <= i < k && (#[trigger] s[i]).1 == b }
pub open spec fn bm(s: Seq<(At, Bt)>, lo: int, k: int, r: Seq<Bt>) -> bool {
    ssb(r) && (k > lo ==> r.len() > 0 && r.last() == s[k - 1].1) && (k == lo ==> r.len() == 0) && (forall|b: Bt| #[trigger] r.contains(b) == seen(s, lo, k, b))
}
proof fn lem_pushc<T>(r: Seq<T>, e: T) ensures forall|x: T| #[trigger] r.push(e).contains(x) == (r.contains(x) || x == e) {
    let q = r.push(e);
    assert forall|x: T| #[trigger] q.contains(x) == (r.contains(x) || x == e) by {
        if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i < r.len() { assert(r[i] == x); } }
        if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(q[i] == x); }
        assert(q[r.len() as int] == e);
    }
}
proof fn lem_bm(s: Seq<(At, Bt)>, lo: int, k: int, r: Seq<Bt>, r2: Seq<Bt>, a: At)
    requires aord(), bord(), wsp(s), bm(s, lo, k, r), 0 <= lo <= k < s.len(), forall|i: int| #![trigger s[i]] lo <= i <= k ==> s[i].0 == a,
        r2 == (if r.len() == 0 || r.last() != s[k].1 { r.push(s[k].1) } else { r }),
    ensures bm(s, lo, k + 1, r2)
{
    let e = s[k].1;
    lem_pushc(r, e);
    if k > lo { assert(!pr_lt(s[k], s[k - 1])); assert(s[k].0 == a && s[k - 1].0 == a); }
    assert forall|b: Bt| #[trigger] r2.contains(b) == seen(s, lo, k + 1, b) by {
        if seen(s, lo, k + 1, b) { let i = choose|i: int| lo <= i < k + 1 && (#[trigger] s[i]).1 == b; if i < k { assert(seen(s, lo, k, b)); } else { assert(r2.last() == e); assert(r2[r2.len() - 1] == e); } }
        if seen(s, lo, k, b) { let i = choose|i: int| lo <= i < k && (#[trigger] s[i]).1 == b; assert(s[i].1 == b); }
        if b == e { assert(s[k].1 == b); }
    }
    if r.len() > 0 && r.last() != e {
        assert(bt_lt(r.last(), e));
        assert forall|i: int, j: int| #![trigger r2[i], r2[j]] 0 <= i < j < r2.len() implies bt_lt(r2[i], r2[j]) by { if j == r.len() && i < r.len() - 1 { assert(bt_lt(r[i], r[r.len() - 1])); } }
    }
}
proof fn lem_bmend(s: Seq<(At, Bt)>, lo: int, hi: int, r: Seq<Bt>, a: At)
    requires aord(), bm(s, lo, hi, r), 0 <= lo <= hi <= s.len(), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ((lo <= i < hi) == (s[i].0 == a)),
    ensures ssb(r), forall|b: Bt| #[trigger] r.contains(b) == s.contains((a, b))
{
    assert forall|b: Bt| #[trigger] r.contains(b) == s.contains((a, b)) by {
        if s.contains((a, b)) { let i = choose|i: int| 0 <= i < s.len() && s[i] == (a, b); assert(s[i].1 == b); assert(seen(s, lo, hi, b)); }
        if seen(s, lo, hi, b) { let i = choose|i: int| lo <= i < hi && (#[trigger] s[i]).1 == b; assert(s[i] == (a, b)); }
    }
}
pub open spec fn seena(s: Seq<(At, Bt)>, k: int, a: At, b: Bt) -> bool { exists|i: int| 0 <= i < k && #[trigger] s[i] == (a, b) }
#[verifier::opaque] pub open spec fn am(s: Seq<(At, Bt)>, k: int, b: Bt, r: Seq<At>) -> bool {
    ssa(r) && (forall|a: At| #[trigger] r.contains(a) == seena(s, k, a, b)) && (r.len() > 0 ==> exists|m: int| 0 <= m < k && (#[trigger] s[m]).0 == r.last())
}
proof fn lem_am(s: Seq<(At, Bt)>, k: int, b: Bt, r: Seq<At>, r2: Seq<At>)
    requires aord(), wsp(s), 0 <= k < s.len(), am(s, k, b, r), r2 == (if s[k].1 == b && (r.len() == 0 || r.last() != s[k].0) { r.push(s[k].0) } else { r })
    ensures am(s, k + 1, b, r2)
{
    reveal(am);
    let e = s[k].0;
    lem_pushc(r, e);
    if r.len() > 0 { let m = choose|m: int| 0 <= m < k && (#[trigger] s[m]).0 == r.last(); assert(!pr_lt(s[k], s[m])); assert(s[m].0 == r.last()); }
    assert forall|a: At| #[trigger] r2.contains(a) == seena(s, k + 1, a, b) by {
        if seena(s, k + 1, a, b) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] s[i] == (a, b); if i < k { assert(seena(s, k, a, b)); } else { assert(r2.last() == e); assert(r2[r2.len() - 1] == e); } }
        if seena(s, k, a, b) { let i = choose|i: int| 0 <= i < k && #[trigger] s[i] == (a, b); assert(s[i] == (a, b)); }
        if a == e && s[k].1 == b { assert(s[k] == (a, b)); }
    }
    if r2.len() > r.len() && r.len() > 0 {
        assert(at_lt(r.last(), e));
        assert forall|i: int, j: int| #![trigger r2[i], r2[j]] 0 <= i < j < r2.len() implies at_lt(r2[i], r2[j]) by { if j == r.len() && i < r.len() - 1 { assert(at_lt(r[i], r[r.len() - 1])); } }
    }
    if r2.len() > r.len() { assert(s[k].0 == r2.last()); }
}
#[verifier::opaque] pub open spec fn am2(m: Seq<(At, int)>, t: Seq<At>, k: int, lb: int, r: Seq<int>) -> bool {
    0 <= lb <= m.len() && r.len() == k && (forall|j: int, i: int| #![trigger m[j], t[i]] 0 <= j < lb && k <= i < t.len() ==> at_lt(m[j].0, t[i])) && (forall|i: int| #![trigger r[i]] 0 <= i < k ==> m.contains((t[i], r[i])))
}
proof fn lem_lb(m: Seq<(At, int)>, t: Seq<At>, k: int, lb: int, lb2: int, r: Seq<int>)
    requires aord(), ssm(m), ssa(t), am2(m, t, k, lb, r), 0 <= k < t.len(), mapped(m, t[k]), lb <= lb2 <= m.len(), forall|i: int| #![trigger m[i]] lb <= i < lb2 ==> at_lt(m[i].0, t[k]), forall|i: int| #![trigger m[i]] lb2 <= i < m.len() ==> !at_lt(m[i].0, t[k]),
    ensures lb2 < m.len(), m[lb2].0 == t[k], am2(m, t, k + 1, lb2 + 1, r.push(m[lb2].1))
{
    reveal(am2);
    let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).0 == t[k];
    assert(m[j].0 == t[k]);
    if j < lb { assert(at_lt(m[j].0, t[k])); }
    assert(j >= lb2);
    if lb2 < j { assert(at_lt(m[lb2].0, m[j].0)); }
    let r2 = r.push(m[lb2].1);
    assert forall|i: int| #![trigger r2[i]] 0 <= i < k + 1 implies m.contains((t[i], r2[i])) by { if i < k { assert(r2[i] == r[i]); } else { assert(m[lb2] == (t[k], r2[k])); } }
    assert forall|a: int, i: int| #![trigger m[a], t[i]] 0 <= a < lb2 + 1 && k + 1 <= i < t.len() implies at_lt(m[a].0, t[i]) by { assert(at_lt(t[k], t[i])); if a < lb2 { assert(at_lt(m[a].0, m[lb2].0)); } }
}
proof fn lem_am0(s: Seq<(At, Bt)>, b: Bt) ensures am(s, 0, b, Seq::empty()) { reveal(am); }
proof fn lem_aml(s: Seq<(At, Bt)>, b: Bt, t: Seq<At>, m: Seq<(At, int)>) requires am(s, s.len() as int, b, t) ensures am2(m, t, 0, 0, Seq::empty()), ssa(t) { reveal(am); reveal(am2); }
proof fn lem_am2l(m: Seq<(At, int)>, t: Seq<At>, k: int, lb: int, r: Seq<int>) requires am2(m, t, k, lb, r) ensures 0 <= lb <= m.len() { reveal(am2); }
proof fn lem_uniqn(s: Seq<int>, x: int, r: Seq<int>) requires wsn(s), 0 <= x <= r.len(), forall|i: int| #![trigger r[i]] 0 <= i && i + 1 < x ==> r[i] != r[i + 1], forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < x ==> inorder(s, r[i], r[j]) ensures ssn(r.subrange(0, x)) {
    let q = r.subrange(0, x);
    assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies ilt(q[i], q[j]) by {
        assert(q[i] == r[i] && q[j] == r[j]); let i1 = i + 1; assert(r[i] != r[i1]); assert(inorder(s, r[i], r[i1]));
        let (a, b) = choose|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() && s[a] == r[i] && s[b] == r[i1]; assert(!ilt(s[b], s[a]));
        if i1 < j { assert(inorder(s, r[i1], r[j])); let (c, d) = choose|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() && s[a] == r[i1] && s[b] == r[j]; assert(!ilt(s[d], s[c])); }
    }
}
proof fn lem_map(s: Seq<(At, Bt)>, b: Bt, t: Seq<At>, m: Seq<(At, int)>, k: int) requires am(s, s.len() as int, b, t), 0 <= k < t.len(), forall|a: At| #[trigger] s.contains((a, b)) ==> mapped(m, a) ensures mapped(m, t[k]) {
    reveal(am); assert(t.contains(t[k])); let z = choose|z: int| 0 <= z < s.len() && s[z] == (t[k], b); assert(s[z] == (t[k], b)); assert(s.contains((t[k], b)));
}
pub open spec fn kept(r: Seq<int>, x: int, c: int) -> bool { exists|i: int| 0 <= i < x && #[trigger] r[i] == c }
proof fn lem_amend(s: Seq<(At, Bt)>, b: Bt, t: Seq<At>, m: Seq<(At, int)>, lb: int, r: Seq<int>, r1: Seq<int>, x: int, r2: Seq<int>)
    requires aord(), ssm(m), am(s, s.len() as int, b, t), am2(m, t, t.len() as int, lb, r), forall|c: int| #[trigger] r1.contains(c) == r.contains(c), 0 <= x <= r2.len(),
        forall|c: int| r1.contains(c) ==> #[trigger] kept(r2, x, c),
        forall|i: int| #![trigger r2[i]] 0 <= i < x ==> r1.contains(r2[i]),
    ensures forall|c: int| #[trigger] r2.subrange(0, x).contains(c) == hits(s, b, m, c)
{
    reveal(am); reveal(am2);
    let q = r2.subrange(0, x);
    assert forall|c: int| #[trigger] q.contains(c) == hits(s, b, m, c) by {
        if q.contains(c) {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == c; assert(r2[i] == c); assert(r1.contains(c)); assert(r.contains(c));
            let n = choose|n: int| 0 <= n < r.len() && r[n] == c; assert(m.contains((t[n], r[n]))); assert(t.contains(t[n])); assert(seena(s, s.len() as int, t[n], b));
            let z = choose|z: int| 0 <= z < s.len() && s[z] == (t[n], b); assert(s[z] == (t[n], b));
            let j = choose|j: int| 0 <= j < m.len() && m[j] == (t[n], r[n]); assert(m[j].1 == c);
        }
        if hits(s, b, m, c) {
            let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).1 == c && s.contains((m[j].0, b));
            let z = choose|z: int| 0 <= z < s.len() && s[z] == (m[j].0, b); assert(s[z] == (m[j].0, b)); assert(seena(s, s.len() as int, m[j].0, b)); assert(t.contains(m[j].0));
            let n = choose|n: int| 0 <= n < t.len() && t[n] == m[j].0; assert(m.contains((t[n], r[n])));
            let j2 = choose|j2: int| 0 <= j2 < m.len() && m[j2] == (t[n], r[n]);
            if j < j2 { assert(at_lt(m[j].0, m[j2].0)); } if j2 < j { assert(at_lt(m[j2].0, m[j].0)); }
            assert(r[n] == c); assert(r.contains(c)); assert(r1.contains(c)); assert(kept(r2, x, c)); let i = choose|i: int| 0 <= i < x && #[trigger] r2[i] == c; assert(q[i] == c);
        }
    }
}
pub open spec fn occ(s: Seq<(At, Bt)>, k: int, a: At) -> bool { exists|i: int| 0 <= i < k && (#[trigger] s[i]).0 == a }
pub open spec fn occb(s: Seq<(At, Bt)>, k: int, b: Bt) -> bool { exists|i: int| 0 <= i < k && (#[trigger] s[i]).1 == b }
// the elements collected from x[0..k] and y[0..l]: two strictly sorted runs (the first one of length n)
#[verifier::opaque] pub open spec fn collected(m: Seq<(At, int)>, n: int, x: Seq<(At, Bt)>, k: int, y: Seq<(At, Bt)>, l: int) -> bool {
    0 <= n <= m.len() && (k > 0 ==> n > 0) && (l == 0 ==> n == m.len()) && (l == 0 && k > 0 ==> m.last().0 == x[k - 1].0) && (l == 0 && k == 0 ==> m.len() == 0) && (l > 0 ==> m.last().0 == y[l - 1].0)
    && (forall|i: int, j: int| #![trigger m[i], m[j]] 0 <= i < j < n ==> at_lt(m[i].0, m[j].0)) && (forall|i: int, j: int| #![trigger m[i], m[j]] n <= i < j < m.len() ==> at_lt(m[i].0, m[j].0))
    && (forall|a: At| #[trigger] mapped(m, a) == (occ(x, k, a) || occ(y, l, a)))
}
proof fn lem_mpush(m: Seq<(At, int)>, e: (At, int)) ensures forall|a: At| #[trigger] mapped(m.push(e), a) == (mapped(m, a) || e.0 == a) {
    let q = m.push(e);
    assert forall|a: At| #[trigger] mapped(q, a) == (mapped(m, a) || e.0 == a) by {
        if mapped(q, a) { let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).0 == a; if j < m.len() { assert(m[j].0 == a); } }
        if mapped(m, a) { let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).0 == a; assert(q[j].0 == a); }
        if e.0 == a { assert(q[m.len() as int].0 == a); }
    }
}
proof fn lem_occ(s: Seq<(At, Bt)>, k: int) requires 0 <= k < s.len() ensures forall|a: At| #[trigger] occ(s, k + 1, a) == (occ(s, k, a) || s[k].0 == a), forall|b: Bt| #[trigger] occb(s, k + 1, b) == (occb(s, k, b) || s[k].1 == b) {
    assert forall|a: At| #[trigger] occ(s, k + 1, a) == (occ(s, k, a) || s[k].0 == a) by {
        if occ(s, k + 1, a) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] s[i]).0 == a; if i < k { assert(s[i].0 == a); } }
        if occ(s, k, a) { let i = choose|i: int| 0 <= i < k && (#[trigger] s[i]).0 == a; assert(s[i].0 == a); }
        if s[k].0 == a { assert(s[k].0 == a); }
    }
    assert forall|b: Bt| #[trigger] occb(s, k + 1, b) == (occb(s, k, b) || s[k].1 == b) by {
        if occb(s, k + 1, b) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] s[i]).1 == b; if i < k { assert(s[i].1 == b); } }
        if occb(s, k, b) { let i = choose|i: int| 0 <= i < k && (#[trigger] s[i]).1 == b; assert(s[i].1 == b); }
        if s[k].1 == b { assert(s[k].1 == b); }
    }
}
proof fn lem_col0(x: Seq<(At, Bt)>, y: Seq<(At, Bt)>) ensures collected(Seq::empty(), 0, x, 0, y, 0) {
    reveal(collected);
}
proof fn lem_colx(m: Seq<(At, int)>, x: Seq<(At, Bt)>, k: int, y: Seq<(At, Bt)>, m2: Seq<(At, int)>, v: int)
    requires aord(), wsp(x), 0 <= k < x.len(), collected(m, m.len() as int, x, k, y, 0), m2 == (if m.len() == 0 || m.last().0 != x[k].0 { m.push((x[k].0, v)) } else { m })
    ensures collected(m2, m2.len() as int, x, k + 1, y, 0)
{
    reveal(collected);
    lem_occ(x, k); lem_mpush(m, (x[k].0, v));
    if k > 0 { assert(!pr_lt(x[k], x[k - 1])); }
    if m2.len() > m.len() && m.len() > 0 { let e = m.last(); assert(at_lt(e.0, x[k].0)); assert forall|i: int| 0 <= i < m.len() implies at_lt((#[trigger] m2[i]).0, x[k].0) by { if i < m.len() - 1 { assert(at_lt(m[i].0, m[m.len() - 1].0)); } } }
    if m2.len() == m.len() { assert(mapped(m, x[k].0)) by { assert(m[m.len() - 1].0 == x[k].0); } }
}
proof fn lem_coly(m: Seq<(At, int)>, n: int, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, l: int, m2: Seq<(At, int)>, v: int)
    requires aord(), wsp(y), 0 <= l < y.len(), x.len() > 0, collected(m, n, x, x.len() as int, y, l), m2 == (if m.last().0 != y[l].0 { m.push((y[l].0, v)) } else { m })
    ensures collected(m2, n, x, x.len() as int, y, l + 1)
{
    reveal(collected);
    lem_occ(y, l); lem_mpush(m, (y[l].0, v));
    if l > 0 { assert(!pr_lt(y[l], y[l - 1])); }
    if m2.len() > m.len() && m.len() > n { assert(l > 0); assert(at_lt(m.last().0, y[l].0)); assert forall|i: int| n <= i < m.len() implies at_lt((#[trigger] m2[i]).0, y[l].0) by { if i < m.len() - 1 { assert(at_lt(m[i].0, m[m.len() - 1].0)); } } }
    if m2.len() == m.len() { assert(mapped(m, y[l].0)) by { assert(m[m.len() - 1].0 == y[l].0); } }
}
proof fn lem_colmerge(m: Seq<(At, int)>, n: int, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>) requires aord(), collected(m, n, x, x.len() as int, y, y.len() as int)
    ensures 0 <= n <= m.len(), forall|i: int, j: int| #![trigger m[i], m[j]] 0 <= i < j < n ==> !at_lt(m[j].0, m[i].0), forall|i: int, j: int| #![trigger m[i], m[j]] n <= i < j < m.len() ==> !at_lt(m[j].0, m[i].0)
{ reveal(collected); }
pub open spec fn inorder<T>(s: Seq<T>, p: T, q: T) -> bool { exists|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() && s[a] == p && s[b] == q }
// after merging (m1) and removing repeated elements (first e of m2)
proof fn lem_ord(m1: Seq<(At, int)>, p: (At, int), q: (At, int)) requires wsm(m1), inorder(m1, p, q) ensures !at_lt(q.0, p.0)
{ let (a, b) = choose|a: int, b: int| #![trigger m1[a], m1[b]] 0 <= a < b < m1.len() && m1[a] == p && m1[b] == q; assert(!at_lt(m1[b].0, m1[a].0)); }
proof fn lem_uniqm(m1: Seq<(At, int)>, e: int, m2: Seq<(At, int)>, m3: Seq<(At, int)>)
    requires aord(), wsm(m1), 0 <= e <= m2.len(), m3 == m2.subrange(0, e), forall|i: int| #![trigger m2[i]] 0 <= i && i + 1 < e ==> m2[i].0 != m2[i + 1].0, forall|i: int, j: int| #![trigger m2[i], m2[j]] 0 <= i < j < e ==> inorder(m1, m2[i], m2[j]),
    ensures ssm(m3)
{
    assert forall|i: int, j: int| #![trigger m3[i], m3[j]] 0 <= i < j < m3.len() implies at_lt(m3[i].0, m3[j].0) by {
        assert(m3[i] == m2[i] && m3[j] == m2[j]);
        let i1 = i + 1; assert(m2[i].0 != m2[i1].0); lem_ord(m1, m2[i], m2[i1]);
        if i1 < j { lem_ord(m1, m2[i1], m2[j]); assert(at_lt(m2[i].0, m2[i1].0)); assert(m2[j].0 == m2[i1].0 || at_lt(m2[i1].0, m2[j].0)); }
    }
}
proof fn lem_coluniq(m: Seq<(At, int)>, n: int, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, m1: Seq<(At, int)>, e: int, m2: Seq<(At, int)>, m3: Seq<(At, int)>)
    requires collected(m, n, x, x.len() as int, y, y.len() as int), forall|p: (At, int)| #[trigger] m1.contains(p) == m.contains(p), 0 <= e <= m2.len(), m3 == m2.subrange(0, e),
        forall|k: int| #![trigger m1[k]] 0 <= k < m1.len() ==> mapped(m3, m1[k].0), forall|i: int| #![trigger m2[i]] 0 <= i < e ==> m1.contains(m2[i]),
    ensures forall|a: At| #[trigger] mapped(m3, a) == (occ(x, x.len() as int, a) || occ(y, y.len() as int, a))
{
    assert forall|a: At| #[trigger] mapped(m3, a) == mapped(m, a) by {
        if mapped(m3, a) { let j = choose|j: int| 0 <= j < m3.len() && (#[trigger] m3[j]).0 == a; assert(m2[j] == m3[j]); assert(m.contains(m2[j])); let i = choose|i: int| 0 <= i < m.len() && m[i] == m2[j]; assert(m[i].0 == a); }
        if mapped(m, a) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == a; assert(m.contains(m[i])); assert(m1.contains(m[i])); let k = choose|k: int| 0 <= k < m1.len() && m1[k] == m[i]; assert(mapped(m3, m1[k].0)); }
    }
    reveal(collected);
}
pub open spec fn inmap(m: Seq<(At, int)>, k: int, a: At, c: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] m[j] == (a, c) }
// b occurs with some element of bucket c among the first k
pub open spec fn zhit(s: Seq<(At, Bt)>, m: Seq<(At, int)>, k: int, c: int, b: Bt) -> bool { exists|j: int| 0 <= j < k && (#[trigger] m[j]).1 == c && s.contains((m[j].0, b)) }
#[verifier::opaque] pub open spec fn a3(p: RefA, m: Seq<(At, int)>, k: int, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, zx: Seq<Seq<Bt>>, zy: Seq<Seq<Bt>>) -> bool {
    0 <= k <= m.len() && ssm(m) && p._partitions.len() > 0 && zokb(p._partitions.len() as int, zx, zy) && (forall|j: int| #![trigger m[j]] 0 <= j < k ==> 0 <= m[j].1 < p._partitions.len())
    && (forall|c: int, a: At| #[trigger] ina(p, c, a) == inmap(m, k, a, c))
    && (forall|c: int, b: Bt| #![trigger zx[c].contains(b)] 0 <= c < zx.len() ==> zx[c].contains(b) == zhit(x, m, k, c, b))
    && (forall|c: int, b: Bt| #![trigger zy[c].contains(b)] 0 <= c < zy.len() ==> zy[c].contains(b) == zhit(y, m, k, c, b))
}
proof fn lem_a30(p: RefA, m: Seq<(At, int)>, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, zx: Seq<Seq<Bt>>, zy: Seq<Seq<Bt>>)
    requires ssm(m), p._partitions == Seq::<Seq<At>>::empty().push(Seq::empty()), zx == Seq::<Seq<Bt>>::empty().push(Seq::empty()), zy == zx
    ensures a3(p, m, 0, x, y, zx, zy)
{ reveal(a3); assert(zx[0].len() == 0 && p._partitions[0].len() == 0); assert(forall|b: Bt| !zx[0].contains(b)); assert(forall|b: At| !p._partitions[0].contains(b)); }
proof fn lem_zstep(s: Seq<(At, Bt)>, m: Seq<(At, int)>, k: int, m2: Seq<(At, int)>, r: int, z: Seq<Seq<Bt>>, z2: Seq<Seq<Bt>>, u: Seq<Bt>)
    requires 0 <= k < m.len(), m2 == m.update(k, (m[k].0, r)), grownb(z, z2, r, u), forall|b: Bt| #[trigger] u.contains(b) == s.contains((m[k].0, b)),
        forall|j: int| #![trigger m[j]] 0 <= j < k ==> 0 <= m[j].1 < z.len(), forall|c: int, b: Bt| #![trigger z[c].contains(b)] 0 <= c < z.len() ==> z[c].contains(b) == zhit(s, m, k, c, b),
    ensures forall|c: int, b: Bt| #![trigger z2[c].contains(b)] 0 <= c < z2.len() ==> z2[c].contains(b) == zhit(s, m2, k + 1, c, b)
{
    assert(m2[k] == (m[k].0, r));
    assert forall|c: int, b: Bt| #![trigger z2[c].contains(b)] 0 <= c < z2.len() implies z2[c].contains(b) == zhit(s, m2, k + 1, c, b) by {
        if c != r { assert(z2[c] == z[c]); }
        assert(u.contains(b) == s.contains((m[k].0, b)));
        if c < z.len() { assert(z[c].contains(b) == zhit(s, m, k, c, b)); }
        if zhit(s, m2, k + 1, c, b) { let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] m2[j]).1 == c && s.contains((m2[j].0, b)); if j < k { assert(m[j] == m2[j]); assert(m[j].1 == c); assert(zhit(s, m, k, c, b)); } else { assert(c == r); assert(u.contains(b)); assert(z2[r].contains(b)); } }
        if z2[c].contains(b) {
            if c == r { assert(z2[r].contains(b)); if u.contains(b) { assert(m2[k].1 == c); assert(zhit(s, m2, k + 1, c, b)); } else { assert(z[r].contains(b)); assert(zhit(s, m, k, c, b)); } }
            if zhit(s, m, k, c, b) && c < z.len() { let j = choose|j: int| 0 <= j < k && (#[trigger] m[j]).1 == c && s.contains((m[j].0, b)); assert(m2[j] == m[j]); assert(m2[j].1 == c); }
        }
    }
}
proof fn lem_a3(p: RefA, m: Seq<(At, int)>, k: int, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, zx: Seq<Seq<Bt>>, zy: Seq<Seq<Bt>>, xs: Seq<Bt>, ys: Seq<Bt>, r: int, p2: RefA, zx2: Seq<Seq<Bt>>, zy2: Seq<Seq<Bt>>, m2: Seq<(At, int)>)
    requires aord(), a3(p, m, k, x, y, zx, zy), 0 <= k < m.len(), pushed(p._partitions, p2._partitions, r, m[k].0), zokb(p2._partitions.len() as int, zx2, zy2), grownb(zx, zx2, r, xs), grownb(zy, zy2, r, ys),
        forall|b: Bt| #[trigger] xs.contains(b) == x.contains((m[k].0, b)), forall|b: Bt| #[trigger] ys.contains(b) == y.contains((m[k].0, b)), m2 == m.update(k, (m[k].0, r)),
    ensures a3(p2, m2, k + 1, x, y, zx2, zy2)
{
    reveal(a3);
    let c0 = p._partitions; let c2 = p2._partitions; let e = m[k].0;
    lem_zstep(x, m, k, m2, r, zx, zx2, xs); lem_zstep(y, m, k, m2, r, zy, zy2, ys);
    assert(m2[k] == (e, r));
    assert forall|j: int| #![trigger m2[j]] 0 <= j < k + 1 implies 0 <= m2[j].1 < c2.len() by { if j < k { assert(m2[j] == m[j]); } }
    if r < c0.len() { lem_pushc(c0[r], e); }
    assert forall|c: int, a: At| #[trigger] ina(p2, c, a) == inmap(m2, k + 1, a, c) by {
        assert(ina(p, c, a) == inmap(m, k, a, c));
        if 0 <= c < c2.len() && c != r { assert(c2[c] == c0[c]); }
        if ina(p2, c, a) {
            if c == r && a == e { assert(m2[k] == (a, c)); }
            else if c == r { if r >= c0.len() { assert(c2[r] == seq![e]); assert(false); } assert(c0[r].contains(a)); assert(ina(p, c, a)); }
        }
        if inmap(m, k, a, c) { let j = choose|j: int| 0 <= j < k && #[trigger] m[j] == (a, c); assert(m2[j] == (a, c)); }
        if inmap(m2, k + 1, a, c) {
            let j = choose|j: int| 0 <= j < k + 1 && #[trigger] m2[j] == (a, c);
            if j < k { assert(m[j] == (a, c)); assert(inmap(m, k, a, c)); if c == r { assert(c2[r].contains(a)); } }
            else if r >= c0.len() { assert(c2[r][0] == e); assert(c2[r].contains(e)); } else { assert(c2[r].contains(e)); }
        }
    }
    assert forall|i: int, j: int| #![trigger m2[i], m2[j]] 0 <= i < j < m2.len() implies at_lt(m2[i].0, m2[j].0) by { assert(at_lt(m[i].0, m[j].0)); }
}
proof fn lem_a3l(p: RefA, m: Seq<(At, int)>, k: int, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, zx: Seq<Seq<Bt>>, zy: Seq<Seq<Bt>>)
    requires a3(p, m, k, x, y, zx, zy) ensures zokb(p._partitions.len() as int, zx, zy), ssm(m), 0 <= k <= m.len(), p._partitions.len() > 0
{ reveal(a3); }
// what the partition of A leaves: no bucket has an element with b in x and one with b in y
proof fn lem_a3end(p: RefA, m: Seq<(At, int)>, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, zx: Seq<Seq<Bt>>, zy: Seq<Seq<Bt>>, b: Bt, u: Seq<int>, v: Seq<int>)
    requires a3(p, m, m.len() as int, x, y, zx, zy), forall|c: int| #[trigger] u.contains(c) == hits(x, b, m, c), forall|c: int| #[trigger] v.contains(c) == hits(y, b, m, c)
    ensures !shn(u, v)
{
    reveal(a3);
    if shn(u, v) {
        let c = choose|c: int| #[trigger] u.contains(c) && v.contains(c);
        let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).1 == c && x.contains((m[i].0, b)); let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).1 == c && y.contains((m[j].0, b));
        assert(m[i].1 == c && m[j].1 == c);
        assert(zhit(x, m, m.len() as int, c, b) && zhit(y, m, m.len() as int, c, b)); assert(zx[c].contains(b) && zy[c].contains(b));
    }
}
pub open spec fn bin(bs: Seq<Bt>, k: int, b: Bt) -> bool { exists|j: int| 0 <= j < k && #[trigger] bs[j] == b }
pub open spec fn someb(q: RefB, b: Bt) -> bool { exists|l: int| #[trigger] inb(q, l, b) }
pub open spec fn lhit(s: Seq<(At, Bt)>, m: Seq<(At, int)>, q: RefB, l: int, c: int) -> bool { exists|b: Bt| #[trigger] inb(q, l, b) && hits(s, b, m, c) }
#[verifier::opaque] pub open spec fn b4(q: RefB, bs: Seq<Bt>, k: int, m: Seq<(At, int)>, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, zx: Seq<Seq<int>>, zy: Seq<Seq<int>>) -> bool {
    0 <= k <= bs.len() && bs.no_duplicates() && q._partitions.len() > 0 && zokn(q._partitions.len() as int, zx, zy)
    && (forall|l: int, b: Bt| #[trigger] inb(q, l, b) ==> bin(bs, k, b)) && (forall|j: int| #![trigger bs[j]] 0 <= j < k ==> someb(q, bs[j]))
    && (forall|l: int, n: int, b: Bt| #![trigger inb(q, l, b), inb(q, n, b)] inb(q, l, b) && inb(q, n, b) ==> l == n)
    && (forall|l: int, c: int| #![trigger zx[l].contains(c)] 0 <= l < zx.len() ==> zx[l].contains(c) == lhit(x, m, q, l, c)) && (forall|l: int, c: int| #![trigger zy[l].contains(c)] 0 <= l < zy.len() ==> zy[l].contains(c) == lhit(y, m, q, l, c))
}
proof fn lem_b40(q: RefB, bs: Seq<Bt>, m: Seq<(At, int)>, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, zx: Seq<Seq<int>>, zy: Seq<Seq<int>>)
    requires bs.no_duplicates(), q._partitions == Seq::<Seq<Bt>>::empty().push(Seq::empty()), zx == Seq::<Seq<int>>::empty().push(Seq::empty()), zy == zx
    ensures b4(q, bs, 0, m, x, y, zx, zy)
{ reveal(b4); assert(zx[0].len() == 0 && q._partitions[0].len() == 0); assert(forall|c: int| !zx[0].contains(c)); assert(forall|b: Bt| !q._partitions[0].contains(b)); assert(forall|l: int, b: Bt| !inb(q, l, b)); }
proof fn lem_lstep(s: Seq<(At, Bt)>, m: Seq<(At, int)>, q: RefB, q2: RefB, e: Bt, r: int, z: Seq<Seq<int>>, z2: Seq<Seq<int>>, u: Seq<int>)
    requires z.len() == q._partitions.len(), grownn(z, z2, r, u), forall|c: int| #[trigger] u.contains(c) == hits(s, e, m, c), forall|l: int, b: Bt| #[trigger] inb(q2, l, b) == (inb(q, l, b) || (l == r && b == e)),
        forall|l: int, c: int| #![trigger z[l].contains(c)] 0 <= l < z.len() ==> z[l].contains(c) == lhit(s, m, q, l, c),
    ensures forall|l: int, c: int| #![trigger z2[l].contains(c)] 0 <= l < z2.len() ==> z2[l].contains(c) == lhit(s, m, q2, l, c)
{
    assert forall|l: int, c: int| #![trigger z2[l].contains(c)] 0 <= l < z2.len() implies z2[l].contains(c) == lhit(s, m, q2, l, c) by {
        if l != r { assert(z2[l] == z[l]); }
        assert(u.contains(c) == hits(s, e, m, c));
        if l < z.len() { assert(z[l].contains(c) == lhit(s, m, q, l, c)); }
        if lhit(s, m, q2, l, c) { let b = choose|b: Bt| #[trigger] inb(q2, l, b) && hits(s, b, m, c); if inb(q, l, b) { assert(lhit(s, m, q, l, c)); } else { assert(l == r && b == e); } if l == r { assert(z2[r].contains(c)); } }
        if z2[l].contains(c) {
            if l == r { assert(z2[r].contains(c)); if u.contains(c) { assert(inb(q2, r, e)); } else { assert(z[r].contains(c)); } }
            if l < z.len() && lhit(s, m, q, l, c) { let b = choose|b: Bt| #[trigger] inb(q, l, b) && hits(s, b, m, c); assert(inb(q2, l, b)); }
        }
    }
}
proof fn lem_b4(q: RefB, bs: Seq<Bt>, k: int, m: Seq<(At, int)>, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, zx: Seq<Seq<int>>, zy: Seq<Seq<int>>, xs: Seq<int>, ys: Seq<int>, r: int, q2: RefB, zx2: Seq<Seq<int>>, zy2: Seq<Seq<int>>)
    requires b4(q, bs, k, m, x, y, zx, zy), 0 <= k < bs.len(), pushed(q._partitions, q2._partitions, r, bs[k]), zokn(q2._partitions.len() as int, zx2, zy2), grownn(zx, zx2, r, xs), grownn(zy, zy2, r, ys),
        forall|c: int| #[trigger] xs.contains(c) == hits(x, bs[k], m, c), forall|c: int| #[trigger] ys.contains(c) == hits(y, bs[k], m, c),
    ensures b4(q2, bs, k + 1, m, x, y, zx2, zy2)
{
    reveal(b4);
    let e = bs[k]; let c0 = q._partitions; let c2 = q2._partitions;
    if r < c0.len() { lem_pushc(c0[r], e); }
    assert forall|l: int, b: Bt| #[trigger] inb(q2, l, b) == (inb(q, l, b) || (l == r && b == e)) by {
        if 0 <= l < c2.len() && l != r { assert(c2[l] == c0[l]); }
        if l == r { if r >= c0.len() { assert(c2[r] == seq![e]); assert(c2[r][0] == e); assert(c2[r].contains(e)); } else { assert(c2[r] == c0[r].push(e)); } }
    }
    lem_lstep(x, m, q, q2, e, r, zx, zx2, xs); lem_lstep(y, m, q, q2, e, r, zy, zy2, ys);
    assert forall|l: int, b: Bt| #[trigger] inb(q2, l, b) implies bin(bs, k + 1, b) by { if inb(q, l, b) { assert(bin(bs, k, b)); let j = choose|j: int| 0 <= j < k && #[trigger] bs[j] == b; assert(bs[j] == b); } else { assert(bs[k] == b); } }
    assert forall|j: int| #![trigger bs[j]] 0 <= j < k + 1 implies someb(q2, bs[j]) by { if j < k { assert(someb(q, bs[j])); let l = choose|l: int| #[trigger] inb(q, l, bs[j]); assert(inb(q2, l, bs[j])); } else { assert(inb(q2, r, bs[j])); } }
    assert forall|l: int| !inb(q, l, e) by { if inb(q, l, e) { assert(bin(bs, k, e)); let j = choose|j: int| 0 <= j < k && #[trigger] bs[j] == e; assert(bs[j] == bs[k]); } }
    assert forall|l: int, n: int, b: Bt| #![trigger inb(q2, l, b), inb(q2, n, b)] inb(q2, l, b) && inb(q2, n, b) implies l == n by { if b == e { assert(!inb(q, l, e) && !inb(q, n, e)); } }
    assert(0 <= k + 1 <= bs.len() && bs.no_duplicates() && q2._partitions.len() > 0);
    assert(zokn(q2._partitions.len() as int, zx2, zy2));
    assert(forall|l: int, c: int| #![trigger zx2[l].contains(c)] 0 <= l < zx2.len() ==> zx2[l].contains(c) == lhit(x, m, q2, l, c));
    assert(forall|l: int, c: int| #![trigger zy2[l].contains(c)] 0 <= l < zy2.len() ==> zy2[l].contains(c) == lhit(y, m, q2, l, c));
}
proof fn lem_b4l(q: RefB, bs: Seq<Bt>, k: int, m: Seq<(At, int)>, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, zx: Seq<Seq<int>>, zy: Seq<Seq<int>>)
    requires b4(q, bs, k, m, x, y, zx, zy) ensures zokn(q._partitions.len() as int, zx, zy), 0 <= k <= bs.len(), q._partitions.len() > 0
{ reveal(b4); }
proof fn lem_has(s: Seq<(At, Bt)>, t: Seq<(At, Bt)>) requires forall|p: (At, Bt)| #[trigger] t.contains(p) == s.contains(p)
    ensures forall|a: At| #[trigger] hasa(s, a) == occ(t, t.len() as int, a), forall|b: Bt| #[trigger] hasb(s, b) == occb(t, t.len() as int, b), s.len() > 0 ==> t.len() > 0
{
    assert forall|a: At| #[trigger] hasa(s, a) == occ(t, t.len() as int, a) by {
        if hasa(s, a) { let b = choose|b: Bt| #[trigger] s.contains((a, b)); assert(t.contains((a, b))); let i = choose|i: int| 0 <= i < t.len() && t[i] == (a, b); assert(t[i].0 == a); }
        if occ(t, t.len() as int, a) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == a; assert(t.contains(t[i])); assert(t[i] == (a, t[i].1)); assert(s.contains((a, t[i].1))); }
    }
    assert forall|b: Bt| #[trigger] hasb(s, b) == occb(t, t.len() as int, b) by {
        if hasb(s, b) { let a = choose|a: At| #[trigger] s.contains((a, b)); assert(t.contains((a, b))); let i = choose|i: int| 0 <= i < t.len() && t[i] == (a, b); assert(t[i].1 == b); }
        if occb(t, t.len() as int, b) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == b; assert(t.contains(t[i])); assert(t[i] == (t[i].0, b)); assert(s.contains((t[i].0, b))); }
    }
    if s.len() > 0 { assert(s.contains(s[0])); assert(t.contains(s[0])); }
}
proof fn lem_shc(t: Seq<(At, Bt)>, s: Seq<(At, Bt)>, w: Seq<At>) requires forall|p: (At, Bt)| #[trigger] t.contains(p) == s.contains(p), forall|a: At| #[trigger] w.contains(a) ==> !hasa(s, a) ensures !shc(t, w) {
    if shc(t, w) { let (i, j) = choose|i: int, j: int| #![trigger t[i], w[j]] 0 <= i < t.len() && 0 <= j < w.len() && t[i].0 == w[j]; assert(w.contains(w[j])); assert(t.contains(t[i])); assert(t[i] == (w[j], t[i].1)); assert(s.contains((w[j], t[i].1))); }
}
proof fn lem_cl(m: Seq<(At, int)>, n: int, x: Seq<(At, Bt)>, k: int, y: Seq<(At, Bt)>, l: int) requires collected(m, n, x, k, y, l) ensures 0 <= n <= m.len(), k > 0 ==> n > 0 { reveal(collected); }
proof fn lem_nosh(x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, a: At, u: Seq<Bt>, v: Seq<Bt>) requires forall|p: (At, Bt)| #[trigger] x.contains(p) ==> !y.contains(p), forall|b: Bt| #[trigger] u.contains(b) == x.contains((a, b)), forall|b: Bt| #[trigger] v.contains(b) == y.contains((a, b)) ensures !shb(u, v)
{ if shb(u, v) { let b = choose|b: Bt| #[trigger] u.contains(b) && v.contains(b); assert(x.contains((a, b))); } }
proof fn lem_mupd(m: Seq<(At, int)>, m2: Seq<(At, int)>, k: int) requires 0 <= k < m.len(), m2.len() == m.len(), forall|j: int| #![trigger m2[j]] 0 <= j < m.len() ==> m2[j].0 == m[j].0 ensures forall|a: At| #[trigger] mapped(m2, a) == mapped(m, a) {
    assert forall|a: At| #[trigger] mapped(m2, a) == mapped(m, a) by { if mapped(m2, a) { let j = choose|j: int| 0 <= j < m2.len() && (#[trigger] m2[j]).0 == a; assert(m[j].0 == a); } if mapped(m, a) { let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).0 == a; assert(m2[j].0 == a); } }
}
proof fn lem_hasab(x: Seq<(At, Bt)>, x0: Seq<(At, Bt)>, y: Seq<(At, Bt)>, y0: Seq<(At, Bt)>, m: Seq<(At, int)>)
    requires forall|t: (At, Bt)| #[trigger] x.contains(t) == x0.contains(t), forall|t: (At, Bt)| #[trigger] y.contains(t) == y0.contains(t), forall|a: At| #[trigger] mapped(m, a) == (hasa(x0, a) || hasa(y0, a))
    ensures forall|a: At, b: Bt| #[trigger] x.contains((a, b)) ==> mapped(m, a), forall|a: At, b: Bt| #[trigger] y.contains((a, b)) ==> mapped(m, a)
{
    assert forall|a: At, b: Bt| #[trigger] x.contains((a, b)) implies mapped(m, a) by { assert(x0.contains((a, b))); assert(hasa(x0, a)); }
    assert forall|a: At, b: Bt| #[trigger] y.contains((a, b)) implies mapped(m, a) by { assert(y0.contains((a, b))); assert(hasa(y0, a)); }
}
proof fn lem_simple(ra: RefA, rb: RefB, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, w: Seq<At>)
    requires conflict(x, y, w), w.len() > 0 ==> two(ra._partitions, x[0].0, w[0]) && rb._partitions.len() == 0,
        w.len() == 0 ==> (if x[0].0 != y[0].0 { two(ra._partitions, x[0].0, y[0].0) } else { ra._partitions.len() == 0 }) && (if x[0].1 != y[0].1 { two(rb._partitions, x[0].1, y[0].1) } else { rb._partitions.len() == 0 }),
    ensures separated(ra, rb, x, y, w), progress(ra, rb, x, y, w)
{
    let (a, b) = x[0];
    assert(x.contains(x[0])); assert(x.contains((a, b))); assert(hasa(x, a) && hasb(x, b));
    if ra._partitions.len() > 0 { assert(ra._partitions[0][0] == x[0].0); assert(ina(ra, 0, a)); }
    if rb._partitions.len() > 0 { assert(rb._partitions[0][0] == x[0].1); assert(inb(rb, 0, b)); }
    if w.len() > 0 {
        let c = w[0]; let d = b; assert(w.contains(c)); assert(ra._partitions[1][0] == c); assert(ina(ra, 1, c)); assert(!hasa(x, c));
        assert(x.contains((a, b)) && ina(ra, 1, c) && ina(ra, 0, a)); let t = (inb(rb, 1, d), inb(rb, 0, b)); assert(apart(ra, rb, x, y, w));
    } else {
        let (c, d) = y[0]; assert(y.contains(y[0])); assert(y.contains((c, d))); assert(hasa(y, c) && hasb(y, d));
        if a != c { assert(ra._partitions[1][0] == c); assert(ina(ra, 1, c)); }
        if b != d { assert(rb._partitions[1][0] == d); assert(inb(rb, 1, d)); }
        let t = (inb(rb, 1, d), inb(rb, 0, b), ina(ra, 1, c), ina(ra, 0, a));
        assert(a != c || b != d) by { if a == c && b == d { assert(x[0] == y[0]); } }
        assert(apart(ra, rb, x, y, w));
    }
    assert forall|k: int, e: At| #[trigger] ina(ra, k, e) implies (k == 0 && e == a) || (k == 1 && e == (if w.len() > 0 { w[0] } else { y[0].0 })) by { }
    assert forall|k: int, e: Bt| #[trigger] inb(rb, k, e) implies (k == 0 && e == b) || (k == 1 && e == y[0].1) by { }
}
// the two partitions (before the wildcard class p2 is added)
proof fn lem_pend(p: RefA, q: RefB, m: Seq<(At, int)>, bs: Seq<Bt>, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, x0: Seq<(At, Bt)>, y0: Seq<(At, Bt)>, zx: Seq<Seq<Bt>>, zy: Seq<Seq<Bt>>, ux: Seq<Seq<int>>, uy: Seq<Seq<int>>, w: Seq<At>, p2: RefA)
    requires aord(), conflict(x0, y0, w), a3(p, m, m.len() as int, x, y, zx, zy), b4(q, bs, bs.len() as int, m, x, y, ux, uy), forall|t: (At, Bt)| #[trigger] x.contains(t) == x0.contains(t), forall|t: (At, Bt)| #[trigger] y.contains(t) == y0.contains(t),
        forall|a: At| #[trigger] mapped(m, a) == (hasa(x0, a) || hasa(y0, a)), forall|b: Bt| #[trigger] bs.contains(b) == (hasb(x0, b) || hasb(y0, b)), p2._partitions == (if w.len() > 0 { p._partitions.push(w) } else { p._partitions }),
    ensures separated(p2, q, x0, y0, w), exact(p2, q, x0, y0, w), p2._partitions.len() >= 2 || q._partitions.len() >= 2
{
    reveal(a3); reveal(b4);
    let n = p._partitions.len() as int;
    assert forall|k: int, a: At| #[trigger] ina(p2, k, a) == (ina(p, k, a) || (k == n && w.contains(a))) by { if 0 <= k < n { assert(p2._partitions[k] == p._partitions[k]); } if k == n && w.len() > 0 { assert(p2._partitions[n] == w); } }
    assert forall|k: int, a: At| #[trigger] ina(p, k, a) implies (hasa(x0, a) || hasa(y0, a)) && !w.contains(a) by { let j = choose|j: int| 0 <= j < m.len() && #[trigger] m[j] == (a, k); assert(m[j].0 == a); assert(mapped(m, a)); }
    assert forall|k: int, l: int, a: At, b: Bt, c: At, d: Bt| #![trigger ina(p2, k, a), inb(q, l, b), ina(p2, k, c), inb(q, l, d)] ina(p2, k, a) && inb(q, l, b) && ina(p2, k, c) && inb(q, l, d) && x0.contains((a, b)) implies !y0.contains((c, d)) by {
        if y0.contains((c, d)) {
            assert(hasa(x0, a) && hasa(y0, c)); assert(!w.contains(a) && !w.contains(c)); assert(ina(p, k, a) && ina(p, k, c));
            let i = choose|i: int| 0 <= i < m.len() && #[trigger] m[i] == (a, k); let j = choose|j: int| 0 <= j < m.len() && #[trigger] m[j] == (c, k);
            assert(m[i].1 == k && m[j].1 == k); assert(x.contains((m[i].0, b)) && y.contains((m[j].0, d)));
            assert(hits(x, b, m, k) && hits(y, d, m, k)); assert(lhit(x, m, q, l, k) && lhit(y, m, q, l, k)); assert(ux[l].contains(k) && uy[l].contains(k));
        }
    }
    assert forall|a: At| #![trigger hasa(x0, a)] #![trigger hasa(y0, a)] #![trigger w.contains(a)] hasa(x0, a) || hasa(y0, a) || w.contains(a) implies exists|k: int| #[trigger] ina(p2, k, a) by {
        if w.contains(a) { assert(ina(p2, n, a)); } else { assert(mapped(m, a)); let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).0 == a; assert(m[j] == (a, m[j].1)); assert(inmap(m, m.len() as int, a, m[j].1)); assert(ina(p, m[j].1, a)); assert(ina(p2, m[j].1, a)); }
    }
    assert forall|k: int, b: Bt| #[trigger] inb(q, k, b) implies hasb(x0, b) || hasb(y0, b) by { assert(bin(bs, bs.len() as int, b)); let j = choose|j: int| 0 <= j < bs.len() && #[trigger] bs[j] == b; assert(bs.contains(b)); }
    assert forall|b: Bt| #![trigger hasb(x0, b)] #![trigger hasb(y0, b)] hasb(x0, b) || hasb(y0, b) implies exists|k: int| #[trigger] inb(q, k, b) by { assert(bs.contains(b)); let j = choose|j: int| 0 <= j < bs.len() && bs[j] == b; assert(bs[j] == b); assert(someb(q, bs[j])); }
    assert forall|k: int, l: int, a: At| #![trigger ina(p2, k, a), ina(p2, l, a)] ina(p2, k, a) && ina(p2, l, a) implies k == l by {
        if !w.contains(a) { let i = choose|i: int| 0 <= i < m.len() && #[trigger] m[i] == (a, k); let j = choose|j: int| 0 <= j < m.len() && #[trigger] m[j] == (a, l); assert(m[i].0 == m[j].0); if i < j { assert(at_lt(m[i].0, m[j].0)); } if j < i { assert(at_lt(m[j].0, m[i].0)); } }
    }
    if w.len() == 0 && p2._partitions.len() < 2 && q._partitions.len() < 2 {
        let (a, b) = x0[0]; let (c, d) = y0[0];
        assert(x0.contains(x0[0]) && y0.contains(y0[0])); assert(x0.contains((a, b)) && y0.contains((c, d))); assert(hasa(x0, a) && hasa(y0, c) && hasb(x0, b) && hasb(y0, d));
        let k = choose|k: int| #[trigger] ina(p2, k, a); let k2 = choose|k: int| #[trigger] ina(p2, k, c); let l = choose|l: int| #[trigger] inb(q, l, b); let l2 = choose|l: int| #[trigger] inb(q, l, d);
        assert(k == 0 && k2 == 0 && l == 0 && l2 == 0); assert(ina(p2, 0, a) && inb(q, 0, b) && ina(p2, 0, c) && inb(q, 0, d));
    }
}
'''
SPEC = refc.SPEC_ORDER + r'''
pub open spec fn bord() -> bool { (forall|a: Bt| #![trigger bt_lt(a, a)] !bt_lt(a, a)) && (forall|a: Bt, b: Bt, c: Bt| #![trigger bt_lt(a, b), bt_lt(b, c)] bt_lt(a, b) && bt_lt(b, c) ==> bt_lt(a, c)) && (forall|a: Bt, b: Bt| #![trigger bt_lt(a, b)] bt_lt(a, b) || a == b || bt_lt(b, a)) }
pub open spec fn ilt(a: int, b: int) -> bool { a < b }
pub open spec fn pr_lt(a: (At, Bt), b: (At, Bt)) -> bool { at_lt(a.0, b.0) || (!at_lt(b.0, a.0) && (bt_lt(a.1, b.1) || (!bt_lt(b.1, a.1) && false))) }
pub open spec fn wsp(s: Seq<(At, Bt)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !pr_lt(s[j], s[i]) }
''' + gen('b', 'Bt', 'bt_lt') + gen('n', 'int', 'ilt') + r'''
pub open spec fn pushed<T>(p0: Seq<Seq<T>>, p1: Seq<Seq<T>>, r: int, e: T) -> bool { 0 <= r <= p0.len() && p1 == (if r < p0.len() { p0.update(r, p0[r].push(e)) } else { p0.push(seq![e]) }) }
pub open spec fn shc(a: Seq<(At, Bt)>, b: Seq<At>) -> bool { exists|i: int, j: int| #![trigger a[i], b[j]] 0 <= i < a.len() && 0 <= j < b.len() && a[i].0 == b[j] }
// bucket map: strictly sorted by element
pub open spec fn ssm(s: Seq<(At, int)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> at_lt(s[i].0, s[j].0) }
pub open spec fn wsm(s: Seq<(At, int)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !at_lt(s[j].0, s[i].0) }
pub open spec fn mapped(m: Seq<(At, int)>, a: At) -> bool { exists|j: int| 0 <= j < m.len() && (#[trigger] m[j]).0 == a }
// some element of bucket c is paired with b in s
pub open spec fn hits(s: Seq<(At, Bt)>, b: Bt, m: Seq<(At, int)>, c: int) -> bool { exists|j: int| 0 <= j < m.len() && (#[trigger] m[j]).1 == c && s.contains((m[j].0, b)) }
pub open spec fn ina(p: RefA, k: int, a: At) -> bool { 0 <= k < p._partitions.len() && p._partitions[k].contains(a) }
pub open spec fn inb(p: RefB, k: int, b: Bt) -> bool { 0 <= k < p._partitions.len() && p._partitions[k].contains(b) }
pub open spec fn hasa(s: Seq<(At, Bt)>, a: At) -> bool { exists|b: Bt| #[trigger] s.contains((a, b)) }
pub open spec fn hasb(s: Seq<(At, Bt)>, b: Bt) -> bool { exists|a: At| #[trigger] s.contains((a, b)) }
pub open spec fn two<T>(p: Seq<Seq<T>>, x: T, y: T) -> bool { p.len() == 2 && p[0].len() == 1 && p[1].len() == 1 && p[0][0] == x && p[1][0] == y }
// conflicting sets: no pair in both, wildcard elements occur in neither
pub open spec fn conflict(x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, w: Seq<At>) -> bool {
    x.len() > 0 && (y.len() > 0 || w.len() > 0) && wsa(w) && (forall|p: (At, Bt)| #[trigger] x.contains(p) ==> !y.contains(p)) && (forall|a: At| #[trigger] w.contains(a) ==> !hasa(x, a) && !hasa(y, a))
}
// no pair of x and pair of y in the same pair of classes; no element of x in the same class as a wildcard element
pub open spec fn separated(ra: RefA, rb: RefB, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, w: Seq<At>) -> bool {
    (forall|k: int, l: int, a: At, b: Bt, c: At, d: Bt| #![trigger ina(ra, k, a), inb(rb, l, b), ina(ra, k, c), inb(rb, l, d)] ina(ra, k, a) && inb(rb, l, b) && ina(ra, k, c) && inb(rb, l, d) && x.contains((a, b)) ==> !y.contains((c, d)))
    && (forall|k: int, a: At, c: At| #![trigger ina(ra, k, a), ina(ra, k, c)] ina(ra, k, a) && ina(ra, k, c) && hasa(x, a) ==> !w.contains(c))
}
// the fast option: only elements of the sets are in classes, each in one class, and some pair of x is separated from some pair of y (or wildcard element)
pub open spec fn apart(ra: RefA, rb: RefB, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, w: Seq<At>) -> bool {
    exists|a: At, b: Bt, c: At, d: Bt, k: int, l: int| #![trigger x.contains((a, b)), ina(ra, k, c), ina(ra, l, a), inb(rb, k, d), inb(rb, l, b)] x.contains((a, b)) && k != l && ((ina(ra, k, c) && ina(ra, l, a) && (w.contains(c) || y.contains((c, d)))) || (inb(rb, k, d) && inb(rb, l, b) && y.contains((c, d))))
}
pub open spec fn progress(ra: RefA, rb: RefB, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, w: Seq<At>) -> bool {
    apart(ra, rb, x, y, w) && (forall|k: int, a: At| #[trigger] ina(ra, k, a) ==> hasa(x, a) || hasa(y, a) || w.contains(a)) && (forall|k: int, b: Bt| #[trigger] inb(rb, k, b) ==> hasb(x, b) || hasb(y, b))
    && (forall|k: int, l: int, a: At| #![trigger ina(ra, k, a), ina(ra, l, a)] ina(ra, k, a) && ina(ra, l, a) ==> k == l) && (forall|k: int, l: int, b: Bt| #![trigger inb(rb, k, b), inb(rb, l, b)] inb(rb, k, b) && inb(rb, l, b) ==> k == l)
}
// exactly the elements of the sets are in the classes, each in one class
pub open spec fn exact(ra: RefA, rb: RefB, x: Seq<(At, Bt)>, y: Seq<(At, Bt)>, w: Seq<At>) -> bool {
    (forall|k: int, a: At| #[trigger] ina(ra, k, a) ==> hasa(x, a) || hasa(y, a) || w.contains(a)) && (forall|a: At| #![trigger hasa(x, a)] #![trigger hasa(y, a)] #![trigger w.contains(a)] hasa(x, a) || hasa(y, a) || w.contains(a) ==> exists|k: int| #[trigger] ina(ra, k, a))
    && (forall|k: int, b: Bt| #[trigger] inb(rb, k, b) ==> hasb(x, b) || hasb(y, b)) && (forall|b: Bt| #![trigger hasb(x, b)] #![trigger hasb(y, b)] hasb(x, b) || hasb(y, b) ==> exists|k: int| #[trigger] inb(rb, k, b))
    && (forall|k: int, l: int, a: At| #![trigger ina(ra, k, a), ina(ra, l, a)] ina(ra, k, a) && ina(ra, l, a) ==> k == l) && (forall|k: int, l: int, b: Bt| #![trigger inb(rb, k, b), inb(rb, l, b)] inb(rb, k, b) && inb(rb, l, b) ==> k == l)
}
'''
LEMMAS = LEM + lem('b', 'Bt') + lem('n', 'int')
N = 'pdaaal::'


def dj(n, T, o):
    return dict(name='dj_' + n, fn='pdaaal::is_disjoint', sig=T, nparams=2, params=['a', 'b'], requires='%sws%s(a0);; ws%s(b0)' % (o, n, n), ensures='result == !sh%s(a0, b0)' % n, loops={1: refc.INV},
                hints={'return 1': 'assert(a0[it_a] == b0[it_b]); assert(a0.contains(a0[it_a])); assert(b0.contains(a0[it_a]));'})


def assign(n, T, o, R, U):
    P = 'refinement%s._partitions'
    return dict(name='assign_' + ('a' if n == 'b' else 'b'), fn=N + 'assign_to_bucket', sig='Refinement<%s_t>' % T, params=['refinement', 'Z_X', 'Z_Y', 'Xs', 'Ys', 'elem'],
                requires='%szok%s(refinement0._partitions.len() as int, Z_X0, Z_Y0);; ss%s(Xs0);; ss%s(Ys0);; !sh%s(Xs0, Ys0)' % (o, n, n, n, n),
                ensures='pushed(refinement0._partitions, refinement1._partitions, result, elem0);; refinement1.abstract_id == refinement0.abstract_id;; zok%s(refinement1._partitions.len() as int, Z_X1, Z_Y1);; grown%s(Z_X0, Z_X1, result, Xs0);; grown%s(Z_Y0, Z_Y1, result, Ys0)' % (n, n, n),
                loops={1: 'bucket_i == k1;; !placed_in_bucket;; refinement == refinement0;; Z_X == Z_X0 && Z_Y == Z_Y0;; Xs == Xs0 && Ys == Ys0 && elem == elem0'},
                hints={'before std_set_union 1': 'lem_sub(Z_X[bucket_i]); lem_sub(Xs);', 'before std_set_union 2': 'lem_sub(Z_Y[bucket_i]); lem_sub(Ys);',
                       'after std_set_union 1': 'assert(temp_union + $R =~= $R);', 'after std_set_union 2': 'assert(temp_union + $R =~= $R);',
                       'break 1': 'lem_asg%s(refinement0._partitions, refinement._partitions, Z_X0, Z_X, Z_Y0, Z_Y, Xs0, Ys0, elem0, bucket_i);' % n,
                       'return 1': 'if !placed_in_bucket { assert(Seq::empty().push(elem0) =~= seq![elem0]); assert(refinement._partitions =~= refinement0._partitions.push(seq![elem0])); lem_asgn%s(refinement0._partitions, refinement._partitions, Z_X0, Z_X, Z_Y0, Z_Y, Xs0, Ys0, elem0); }' % n})


PX = 'wsp(X) && wsp(Y);; forall|p: (At, Bt)| #[trigger] X.contains(p) == X0.contains(p);; forall|p: (At, Bt)| #[trigger] Y.contains(p) == Y0.contains(p);; Y_wildcard == Y_wildcard0;; a_partition.abstract_id == A_id0 && b_partition.abstract_id == B_id0'
PK = PX + ';; a_partition._partitions == Seq::<Seq<At>>::empty().push(Seq::empty());; b_partition._partitions == Seq::<Seq<Bt>>::empty().push(Seq::empty())'
PK2 = PX
BS = 'forall|b: Bt| #[trigger] Bs.contains(b) == (%s)'
MP = 'forall|a: At| #[trigger] mapped(As, a) == (hasa(X0, a) || hasa(Y0, a))'
CONTRACTS = [
    dj('b', 'b_t', 'bord();; '), dj('n', 'unsigned long', ''),
    dict(name='dj_c', fn='pdaaal::is_disjoint', sig='CompFirst', nparams=3, params=['a', 'b', 'comp'], requires='aord();; wsp(a0);; wsa(b0)', ensures='result == !shc(a0, b0)',
         loops={1: refc.INV.replace('a0[i] != b0[j]', 'a0[i].0 != b0[j]')}, hints={'return 1': 'assert(a0[it_a].0 == b0[it_b]);'}),
    dict(name='bmatch', fn=N + 'BmatchA', params=['input', 'a'], requires='aord();; bord();; wsp(input0)', ensures='ssb(result);; forall|b: Bt| #[trigger] result.contains(b) == input0.contains((a0, b))',
         loops={1: 'input == input0;; a == a0;; 0 <= lb1_ <= sb.0 <= sb.1 == lb2_ <= input0.len();; bm(input0, lb1_, sb.0, result_)'},
         hints={'before loop 1': 'assert forall|i: int| #![trigger input0[i]] 0 <= i < input0.len() implies ((lb1_ <= i < lb2_) == (input0[i].0 == a0)) by { assert(!at_lt(a0, a0)); } if lb2_ < lb1_ { assert(at_lt(input0[lb2_].0, a0) && at_lt(a0, input0[lb2_].0)); }',
                'loop 1 begin': 'raw:let ghost r_0 = result_;', 'loop 1 end': 'lem_bm(input0, lb1_, sb.0, r_0, result_, a0);', 'return 1': 'lem_bmend(input0, lb1_, lb2_, result_, a0);'}),
    dict(name='amatch', fn=N + 'AmatchB_bucket', params=['input', 'b', 'bucket_map'], requires='aord();; bord();; wsp(input0);; ssm(bucket_map0);; forall|a: At| #[trigger] input0.contains((a, b0)) ==> mapped(bucket_map0, a)',
         ensures='ssn(result);; forall|c: int| #[trigger] result.contains(c) == hits(input0, b0, bucket_map0, c)',
         loops={1: 'input == input0;; b == b0;; am(input0, k1, b0, set_)', 2: 'bucket_map == bucket_map0;; am2(bucket_map0, set_, k2, lb, result_)'},
         hints={'before loop 1': 'lem_am0(input0, b0);', 'before loop 2': 'lem_aml(input0, b0, set_, bucket_map0);', 'loop 1 begin': 'raw:let ghost s_0 = set_;', 'loop 1 end': 'lem_am(input0, k1, b0, s_0, set_);',
                'loop 2 begin': 'raw:let ghost r_0 = result_; let ghost l_0 = lb; proof { lem_am2l(bucket_map0, set_, k2, lb, result_); lem_map(input0, b0, set_, bucket_map0, k2); }', 'after std_lower_bound 1': 'lem_lb(bucket_map0, set_, k2, l_0, $R, r_0);',
                'before std_sort 1': 'raw:let ghost r_1 = result_;', 'before std_unique 1': 'raw:let ghost r_2 = result_;', 'after std_unique 1': 'assert forall|c: int| r_2.contains(c) implies #[trigger] kept(t4_, t3_, c) by { let k = choose|k: int| 0 <= k < r_2.len() && r_2[k] == c; assert(r_2[k] == c); let i = choose|i: int| 0 <= i < t3_ && #[trigger] t4_[i] == c; assert(t4_[i] == c); } assert forall|i: int, j: int| #![trigger t4_[i], t4_[j]] 0 <= i < j < t3_ implies inorder(r_2, t4_[i], t4_[j]) by { } lem_uniqn(r_2, t3_, t4_);', 'return 1': 'lem_amend(input0, b0, set_, bucket_map0, lb, r_1, r_2, t3_, t4_);'}),
    assign('b', 'a', 'bord();; ', 'RefA', 'Bt'), assign('n', 'b', '', 'RefB', 'int'),
    dict(name='pair_ref', fn=N + 'make_pair_refinement', params=['X', 'Y', 'Y_wildcard', 'A_id', 'B_id'], requires='aord();; bord();; conflict(X0, Y0, Y_wildcard0)',
         ensures='separated(result.0, result.1, X0, Y0, Y_wildcard0);; exact(result.0, result.1, X0, Y0, Y_wildcard0);; result.0.abstract_id == A_id0 && result.1.abstract_id == B_id0',
         loops={1: '%s;; collected(As, As.len() as int, X, k1, Y, 0);; %s' % (PK, BS % ('occb(X, k1, b)')),
                2: '%s;; collected(As, ax, X, X.len() as int, Y, k2);; %s' % (PK, BS % 'occb(X, X.len() as int, b) || occb(Y, k2, b)'),
                3: '%s;; As.len() == rng3_s.len();; %s;; a3(a_partition, As, k3, X, Y, Z_X, Z_Y)' % (PK2, MP),
                4: '%s;; a3(a_partition, As, As.len() as int, X, Y, Z_X, Z_Y);; %s;; b4(b_partition, rng4_s, k4, As, X, Y, Z_X_2, Z_Y_2)' % (PK2, MP),
                5: 'a_partition._partitions == ap_._partitions.push(Y_wildcard0.subrange(0, k5));; Y_wildcard == Y_wildcard0;; a_partition.abstract_id == A_id0'},
         hints={'before dj_c 1': 'lem_shc(Y, Y0, Y_wildcard0); lem_shc(X, X0, Y_wildcard0); lem_has(X0, X); lem_has(Y0, Y);',
                'before loop 1': 'lem_col0(X, Y);', 'loop 1 begin': 'raw:let ghost m_ = As; proof { lem_cl(As, As.len() as int, X, k1, Y, 0); lem_occ(X, k1); }', 'loop 1 end': 'lem_colx(m_, X, k1, Y, As, 18446744073709551615int);',
                'loop 2 begin': 'raw:let ghost m_ = As; proof { lem_cl(As, ax, X, X.len() as int, Y, k2); lem_occ(Y, k2); }', 'loop 2 end': 'lem_coly(m_, ax, X, Y, k2, As, 18446744073709551615int);',
                'after loop 2': 'raw:let ghost m1_ = As; proof { lem_colmerge(As, ax, X, Y); }',
                'before std_unique 1': 'raw:let ghost m2_ = As;',
                'after std_unique 1': 'assert forall|k: int| #![trigger m2_[k]] 0 <= k < m2_.len() implies mapped(t9_.subrange(0, t8_), m2_[k].0) by { let a = m2_[k].0; let i = choose|i: int| 0 <= i < t8_ && (#[trigger] t9_[i]).0 == a; assert(t9_[i].0 == a); assert(t9_.subrange(0, t8_)[i].0 == a); } assert forall|i: int, j: int| #![trigger t9_[i], t9_[j]] 0 <= i < j < t8_ implies inorder(m2_, t9_[i], t9_[j]) by { } lem_uniqm(m2_, t8_, t9_, t9_.subrange(0, t8_)); lem_coluniq(m1_, ax, X, Y, m2_, t8_, t9_, t9_.subrange(0, t8_));',
                'before loop 3': 'lem_a30(a_partition, As, X, Y, Z_X, Z_Y);',
                'loop 3 begin': 'raw:let ghost m_ = As; let ghost p_ = a_partition; let ghost x_ = Z_X; let ghost y_ = Z_Y; proof { lem_a3l(a_partition, As, k3, X, Y, Z_X, Z_Y); }',
                'before assign_a 1': 'lem_nosh(X, Y, As[k3].0, c3_, c4_);',
                'loop 3 end': 'lem_a3(p_, m_, k3, X, Y, x_, y_, c3_, c4_, c5_, a_partition, Z_X, Z_Y, As); lem_mupd(m_, As, k3);',
                'before loop 4': 'lem_b40(b_partition, rng4_s, As, X, Y, Z_X_2, Z_Y_2);',
                'loop 4 begin': 'raw:let ghost q_ = b_partition; let ghost x_ = Z_X_2; let ghost y_ = Z_Y_2; proof { lem_a3l(a_partition, As, As.len() as int, X, Y, Z_X, Z_Y); lem_b4l(b_partition, rng4_s, k4, As, X, Y, Z_X_2, Z_Y_2); lem_hasab(X, X0, Y, Y0, As); }',
                'before assign_b 1': 'lem_a3end(a_partition, As, X, Y, Z_X, Z_Y, b, c9_, c10_);',
                'loop 4 end': 'lem_b4(q_, rng4_s, k4, As, X, Y, x_, y_, c9_, c10_, c11_, b_partition, Z_X_2, Z_Y_2);',
                'after loop 4': 'raw:let ghost ap_ = a_partition; proof { let e = Seq::<At>::empty(); assert(Y_wildcard0.subrange(0, 0) =~= e); lem_sub(Y_wildcard0); lem_pend(a_partition, b_partition, As, rng4_s, X, Y, X0, Y0, Z_X, Z_Y, Z_X_2, Z_Y_2, Y_wildcard0, RefA { _partitions: if Y_wildcard0.len() > 0 { a_partition._partitions.push(Y_wildcard0) } else { a_partition._partitions }, abstract_id: A_id0 }); }',
                'loop 5 end': 'assert(Y_wildcard0.subrange(0, k5 + 1) =~= Y_wildcard0.subrange(0, k5).push(Y_wildcard0[k5])); assert(a_partition._partitions =~= ap_._partitions.push(Y_wildcard0.subrange(0, k5 + 1)));',
                'after loop 5': 'lem_sub(Y_wildcard0);'}),
    dict(name='simple_ref', fn=N + 'make_simple_pair_refinement', params=['X', 'Y', 'Y_wildcard', 'A_id', 'B_id'], requires='conflict(X0, Y0, Y_wildcard0)', hints={'begin': 'assert(X0.contains(X0[0])); assert(X0[0] == (X0[0].0, X0[0].1)); assert(hasa(X0, X0[0].0)); if Y_wildcard0.len() > 0 { assert(Y_wildcard0.contains(Y_wildcard0[0])); } else { assert(Y0.contains(Y0[0])); assert(X0[0] == Y0[0] <==> X0[0].0 == Y0[0].0 && X0[0].1 == Y0[0].1); }',
                'return 1': 'lem_simple(a_partition, b_partition, X0, Y0, Y_wildcard0);'},
         ensures='separated(result.0, result.1, X0, Y0, Y_wildcard0);; progress(result.0, result.1, X0, Y0, Y_wildcard0);; result.0.abstract_id == A_id0 && result.1.abstract_id == B_id0'),
]
W = ['X', 'Y', 'A_id', 'B_id', 'Y_wildcard']
for nm, cal in (('mk_best', 'pair_ref'), ('mk_fast', 'simple_ref')):
    c = [x for x in CONTRACTS if x['name'] == cal][0]
    CONTRACTS.append(dict(name=nm, fn=N + 'make_refinement', params=W, pick=(lambda cal: lambda u, d: calls(d, cal))('make_pair_refinement' if nm == 'mk_best' else 'make_simple_pair_refinement'), requires=c['requires'], ensures=c['ensures']))


def unit(ast):
    return Unit('refp', 'refine.cpp', CONTRACTS, refc.cfg(), SPEC, LEMMAS, ast)
