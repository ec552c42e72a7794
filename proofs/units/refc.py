"""G01: combining refinements, over an arbitrary totally ordered element type."""
from unit import Unit
from vtypes import Ty

SPEC = r'''
pub struct At { pub k: int }
pub struct Bt { pub k: int }
pub uninterp spec fn at_lt(a: At, b: At) -> bool;
pub uninterp spec fn bt_lt(a: Bt, b: Bt) -> bool;
pub open spec fn order<T>(lt: spec_fn(T, T) -> bool) -> bool {
    (forall|a: T| #![trigger lt(a, a)] !lt(a, a)) && (forall|a: T, b: T, c: T| #![trigger lt(a, b), lt(b, c)] lt(a, b) && lt(b, c) ==> lt(a, c)) && (forall|a: T, b: T| #![trigger lt(a, b)] lt(a, b) || a == b || lt(b, a))
}
// strict total order on the elements (documented requirement)
pub open spec fn aord() -> bool { (forall|a: At| #![trigger at_lt(a, a)] !at_lt(a, a)) && (forall|a: At, b: At, c: At| #![trigger at_lt(a, b), at_lt(b, c)] at_lt(a, b) && at_lt(b, c) ==> at_lt(a, c)) && (forall|a: At, b: At| #![trigger at_lt(a, b)] at_lt(a, b) || a == b || at_lt(b, a)) }
pub open spec fn wsa(s: Seq<At>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !at_lt(s[j], s[i]) }
pub open spec fn ssa(s: Seq<At>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> at_lt(s[i], s[j]) }
pub open spec fn shares(a: Seq<At>, b: Seq<At>) -> bool { exists|x: At| #[trigger] a.contains(x) && b.contains(x) }
'''
SPEC_ORDER = SPEC
SPEC += r'''
pub type Cls = Seq<Seq<At>>;
// x is in class k
pub open spec fn inc(p: Cls, k: int, x: At) -> bool { 0 <= k < p.len() && p[k].contains(x) }
pub open spec fn un(p: Cls, x: At) -> bool { exists|k: int| #[trigger] inc(p, k, x) }
// sorted classes without repetition, pairwise disjoint
pub open spec fn okp(p: Cls) -> bool { (forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> ssa(p[k])) && (forall|k: int, l: int, x: At| #![trigger inc(p, k, x), inc(p, l, x)] inc(p, k, x) && inc(p, l, x) ==> k == l) }
// no class of p has two elements that q keeps in different classes
pub open spec fn sep(p: Cls, q: Cls) -> bool { forall|k: int, x: At, y: At, a: int, b: int| #![trigger inc(p, k, x), inc(p, k, y), inc(q, a, x), inc(q, b, y)] inc(p, k, x) && inc(p, k, y) && inc(q, a, x) && inc(q, b, y) ==> a == b }
pub open spec fn rok(r: RefA) -> bool { okp(r._partitions) && (r._partitions.len() == 0 || r._partitions.len() >= 2) }
pub open spec fn fits(r: RefA) -> bool { r._partitions.len() <= 0x1000_0000_0000_0000 }
// one well-formed refinement per abstract element
pub open spec fn hok(h: Seq<RefA>) -> bool { (forall|k: int| #![trigger h[k]] 0 <= k < h.len() ==> rok(h[k])) && (forall|k: int, l: int| #![trigger h[k], h[l]] 0 <= k < l < h.len() ==> h[k].abstract_id != h[l].abstract_id) }
pub open spec fn hasid(h: Seq<RefA>, id: int) -> bool { exists|k: int| 0 <= k < h.len() && (#[trigger] h[k]).abstract_id == id }
// a two-class operand, as the constructor makes it
pub open spec fn two(r: RefA) -> bool { okp(r._partitions) && r._partitions.len() == 2 && r._partitions[0].len() > 0 && r._partitions[1].len() > 0 }
pub open spec fn combined(r: RefA, p: RefA, q: RefA) -> bool {
    okp(r._partitions) && r._partitions.len() >= 2 && r.abstract_id == p.abstract_id && (forall|x: At| #[trigger] un(r._partitions, x) == (un(p._partitions, x) || un(q._partitions, x))) && sep(r._partitions, p._partitions) && sep(r._partitions, q._partitions)
}
pub open spec fn meets(s: Seq<At>, t: Seq<At>) -> bool { exists|x: At| #[trigger] s.contains(x) && t.contains(x) }
pub open spec fn MX() -> int { 18446744073709551615 }
// class k meets at most one of the two classes of q
pub open spec fn one(p: Cls, q: Cls, k: int) -> bool { forall|x: At, y: At| #![trigger inc(p, k, x), inc(p, k, y)] inc(p, k, x) && inc(p, k, y) && q[0].contains(x) ==> !q[1].contains(y) }
pub open spec fn below(p: Cls, i: int, x: At) -> bool { exists|k: int| k < i && #[trigger] inc(p, k, x) }
pub open spec fn okid(p: Cls, q: Cls, ok: Seq<int>, o: int) -> bool { ok[o] == MX() || (0 <= ok[o] < p.len() && forall|x: At| #[trigger] inc(p, ok[o], x) ==> !q[1 - o].contains(x)) }
pub open spec fn gen(p: Cls, p0: Cls, q: Cls, ok: Seq<int>) -> bool {
    okp(p) && okp(p0) && okp(q) && q.len() == 2 && ok.len() == 2 && p.len() >= p0.len() >= 2 && p0.len() <= 0x1000_0000_0000_0000 && sep(p, p0)
    && okid(p, q, ok, 0) && okid(p, q, ok, 1) && (ok[0] == ok[1] ==> ok[0] == MX())
}
#[verifier::opaque] pub open spec fn jinv(p: Cls, p0: Cls, q: Cls, a: Cls, ok: Seq<int>, i: int) -> bool {
    gen(p, p0, q, ok) && 0 <= i <= p0.len() && p.len() <= p0.len() + i && a.len() == 2
    && (forall|x: At| #[trigger] un(p, x) == un(p0, x))
    && (forall|k: int| #![trigger p[k]] 0 <= k < p.len() && (k < i || k >= p0.len()) ==> one(p, q, k))
    && (forall|k: int| #![trigger p[k]] #![trigger p0[k]] i <= k < p0.len() ==> p[k] == p0[k])
    && (forall|o: int, x: At| #![trigger inc(a, o, x)] 0 <= o < 2 ==> inc(a, o, x) == (q[o].contains(x) && below(p0, i, x)))
    && a[0].no_duplicates() && a[1].no_duplicates()
    && (forall|o: int| #![trigger ok[o]] 0 <= o < 2 && ok[o] != MX() ==> ok[o] < i || ok[o] >= p0.len())
}
// what the pass over the two classes of q leaves for class i: the intersections are appended, and reserved ids are valid
pub open spec fn seg(a1: Cls, a: Cls, o: int) -> Seq<At> { a1[o].subrange(a[o].len() as int, a1[o].len() as int) }
pub open spec fn isinter(s: Seq<At>, x: Seq<At>, y: Seq<At>) -> bool { ssa(s) && forall|e: At| #[trigger] s.contains(e) == (x.contains(e) && y.contains(e)) }
#[verifier::opaque] pub open spec fn mid(p: Cls, q: Cls, a: Cls, a1: Cls, ps: Seq<int>, ok: Seq<int>, ok1: Seq<int>, i: int, o: int, eif: bool) -> bool {
    a1.len() == 2 && ok1.len() == 2 && ps.len() == 2 && 0 <= o <= 2
    && (forall|j: int| #![trigger a1[j]] 0 <= j < 2 && j >= o ==> a1[j] == a[j])
    && (forall|j: int| #![trigger a1[j]] 0 <= j < o ==> a1[j].len() >= a[j].len() && a1[j] =~= a[j] + seg(a1, a, j) && isinter(seg(a1, a, j), p[i], q[j]) && ps[j] == a[j].len())
    && (eif == ((o > 0 && seg(a1, a, 0).len() == 0) || (o > 1 && seg(a1, a, 1).len() == 0)))
    && (forall|j: int| #![trigger ok1[j]] 0 <= j < 2 ==> ok1[j] == ok[j] || (ok[j] == MX() && ok1[j] == i && 1 - j < o && seg(a1, a, 1 - j).len() == 0))
    && (ok1[0] == ok1[1] ==> ok1[0] == MX())
}
#[verifier::opaque] pub open spec fn kinv(p: Cls, p0: Cls, q: Cls, a: Cls, ok: Seq<int>, o: int) -> bool {
    gen(p, p0, q, ok) && 0 <= o <= 2 && a.len() == 2 && p.len() <= 2 * p0.len() + o
    && (forall|x: At| #[trigger] un(p, x) == (un(p0, x) || (o > 0 && q[0].contains(x)) || (o > 1 && q[1].contains(x))))
    && (forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> one(p, q, k))
    && (forall|j: int, x: At| #![trigger inc(a, j, x)] o <= j < 2 ==> inc(a, j, x) == (q[j].contains(x) && un(p0, x)))
    && a[0].no_duplicates() && a[1].no_duplicates()
}
'''
LEMMAS = r'''proof fn lem_nodup(s: Seq<At>) requires aord(), ssa(s) ensures s.no_duplicates() { }
proof fn lem_ssa(s: Seq<At>) requires aord(), wsa(s), s.no_duplicates() ensures ssa(s) { }
proof fn lem_jinit(p: Cls, q: Cls, a: Cls, ok: Seq<int>)
    requires okp(p), okp(q), q.len() == 2, p.len() >= 2, p.len() <= 0x1000_0000_0000_0000, a.len() == 2, a[0].len() == 0, a[1].len() == 0, ok.len() == 2, ok[0] == MX(), ok[1] == MX(),
    ensures jinv(p, p, q, a, ok, 0),
{ reveal(jinv); }
proof fn lem_mid0(p: Cls, p0: Cls, q: Cls, a: Cls, ps: Seq<int>, ok: Seq<int>, i: int)
    requires jinv(p, p0, q, a, ok, i), ps.len() == 2, i < p0.len()
    ensures mid(p, q, a, a, ps, ok, ok, i, 0, false)
{ reveal(jinv); reveal(mid); }
proof fn lem_mids(p: Cls, q: Cls, a: Cls, a1: Cls, ps: Seq<int>, ok: Seq<int>, ok1: Seq<int>, i: int, o: int, eif: bool, t: Seq<At>, ps2: Seq<int>, ok2: Seq<int>, eif2: bool)
    requires mid(p, q, a, a1, ps, ok, ok1, i, o, eif), o < 2, a.len() == 2, isinter(t, p[i], q[o]), i != MX(), ps2 == ps.update(o, a1[o].len() as int),
        t.len() == 0 ==> eif2 && ok2 == (if ok1[1 - o] == MX() && ok1[o] != i { ok1.update(1 - o, i) } else { ok1 }), t.len() > 0 ==> eif2 == eif && ok2 == ok1, ok.len() == 2,
    ensures mid(p, q, a, a1.update(o, a1[o] + t), ps2, ok, ok2, i, o + 1, eif2)
{
    reveal(mid);
    let a2 = a1.update(o, a1[o] + t);
    assert(seg(a2, a, o) =~= t);
    if o == 1 { assert(seg(a2, a, 0) == seg(a1, a, 0)); assert(a2[0] == a1[0]); assert(a1[0].len() >= a[0].len()); }
    assert(a1[o] == a[o]);
    assert(a2[o] =~= a[o] + seg(a2, a, o));
    assert(ok1[0] == ok1[0] && ok1[1] == ok1[1]);
}
proof fn lem_a(p: Cls, p0: Cls, q: Cls, a: Cls, a1: Cls, ps: Seq<int>, ok: Seq<int>, ok1: Seq<int>, i: int, eif: bool, o: int)
    requires aord(), jinv(p, p0, q, a, ok, i), i < p0.len(), mid(p, q, a, a1, ps, ok, ok1, i, 2, eif), 0 <= o < 2
    ensures a1[o].no_duplicates(), forall|x: At| #[trigger] inc(a1, o, x) == (q[o].contains(x) && below(p0, i + 1, x))
{
    reveal(jinv); reveal(mid);
    let t = seg(a1, a, o);
    assert(a1[o] =~= a[o] + t);
    assert(p[i] == p0[i]);
    assert forall|x: At| inc(a1, o, x) == (q[o].contains(x) && below(p0, i + 1, x)) by {
        assert(inc(a, o, x) == (q[o].contains(x) && below(p0, i, x)));
        if a1[o].contains(x) {
            let m = choose|m: int| 0 <= m < a1[o].len() && a1[o][m] == x;
            if m < a[o].len() { assert(a[o][m] == x); assert(inc(a, o, x)); let k = choose|k: int| k < i && inc(p0, k, x); assert(inc(p0, k, x)); }
            else { assert(t[m - a[o].len()] == x); assert(t.contains(x)); assert(inc(p0, i, x)); }
        }
        if q[o].contains(x) && below(p0, i + 1, x) {
            let k = choose|k: int| k < i + 1 && inc(p0, k, x);
            if k < i { assert(inc(p0, k, x)); assert(below(p0, i, x)); assert(inc(a, o, x)); let m = choose|m: int| 0 <= m < a[o].len() && a[o][m] == x; assert(a1[o][m] == x); }
            else { assert(t.contains(x)); let m = choose|m: int| 0 <= m < t.len() && t[m] == x; assert(a1[o][a[o].len() + m] == x); }
        }
    }
    lem_nodup(t);
    assert forall|m: int, n: int| 0 <= m < n < a1[o].len() implies a1[o][m] != a1[o][n] by {
        if m >= a[o].len() { assert(t[m - a[o].len()] == a1[o][m] && t[n - a[o].len()] == a1[o][n]); }
        else if n < a[o].len() { assert(a[o][m] == a1[o][m] && a[o][n] == a1[o][n]); }
        else {
            let x = a1[o][m]; assert(a[o][m] == x); assert(inc(a, o, x)); let k = choose|k: int| k < i && inc(p0, k, x);
            assert(inc(p0, k, x));
            if a1[o][n] == x { assert(t[n - a[o].len()] == x); assert(t.contains(x)); assert(inc(p0, i, x)); }
        }
    }
}
proof fn lem_nosplit(p: Cls, p0: Cls, q: Cls, a: Cls, a1: Cls, ps: Seq<int>, ok: Seq<int>, ok1: Seq<int>, i: int)
    requires aord(), jinv(p, p0, q, a, ok, i), i < p0.len(), mid(p, q, a, a1, ps, ok, ok1, i, 2, true),
    ensures jinv(p, p0, q, a1, ok1, i + 1)
{
    lem_a(p, p0, q, a, a1, ps, ok, ok1, i, true, 0); lem_a(p, p0, q, a, a1, ps, ok, ok1, i, true, 1);
    reveal(jinv); reveal(mid);
    assert(a1[0] == a1[0] && a1[1] == a1[1] && ok1[0] == ok1[0] && ok1[1] == ok1[1] && ok[0] == ok[0] && ok[1] == ok[1] && p[i] == p0[i]);
    assert forall|o: int| 0 <= o < 2 && seg(a1, a, o).len() == 0 implies (forall|x: At| #[trigger] inc(p, i, x) ==> !q[o].contains(x)) by {
        assert(isinter(seg(a1, a, o), p[i], q[o])) by { assert(a1[o] == a1[o]); }
        assert forall|x: At| #[trigger] inc(p, i, x) implies !q[o].contains(x) by { assert(!seg(a1, a, o).contains(x)); }
    }
    assert(one(p, q, i));
    assert(okid(p, q, ok, 0) && okid(p, q, ok, 1));
    assert(okid(p, q, ok1, 0));
    assert(okid(p, q, ok1, 1));
}
// splitting class i: the moved part becomes the last class
proof fn lem_split(p: Cls, p0: Cls, q: Cls, a: Cls, a1: Cls, ps: Seq<int>, ok: Seq<int>, ok1: Seq<int>, i: int, mv: int, tmp: Seq<At>, p2: Cls, ok2: Seq<int>)
    requires aord(), jinv(p, p0, q, a, ok, i), i < p0.len(), mid(p, q, a, a1, ps, ok, ok1, i, 2, false), mv == 0 || mv == 1,
        ssa(tmp), forall|x: At| #[trigger] tmp.contains(x) == (p[i].contains(x) && !seg(a1, a, mv).contains(x)), p2 == p.push(seg(a1, a, mv)).update(i, tmp), ok2.len() == 2,
        forall|o: int| #![trigger ok2[o]] 0 <= o < 2 ==> ok2[o] == (if ok1[o] == MX() { MX() } else if mv == o { p.len() as int } else { i }),
    ensures jinv(p2, p0, q, a1, ok2, i + 1)
{
    lem_a(p, p0, q, a, a1, ps, ok, ok1, i, false, 0); lem_a(p, p0, q, a, a1, ps, ok, ok1, i, false, 1);
    reveal(jinv); reveal(mid);
    let t = seg(a1, a, mv); let n = p.len() as int;
    assert(a1[mv] == a1[mv]);
    assert(isinter(t, p[i], q[mv]));
    assert(p[i] == p0[i]);
    assert(p2[n] == t && p2[i] == tmp && p2.len() == n + 1);
    assert forall|k: int, x: At| #[trigger] inc(p2, k, x) implies (k != n ==> inc(p, k, x)) && (k == n ==> inc(p, i, x) && q[mv].contains(x)) && (k == i ==> !q[mv].contains(x)) by {
        if k == n { assert(t.contains(x)); } else if k == i { assert(tmp.contains(x)); assert(!t.contains(x)); } else { assert(p2[k] == p[k]); }
    }
    assert forall|k: int, x: At| #[trigger] inc(p, k, x) implies (k != i && inc(p2, k, x)) || (k == i && (inc(p2, i, x) || inc(p2, n, x))) by {
        if k == i { if t.contains(x) { assert(p2[n].contains(x)); } else { assert(tmp.contains(x)); } } else { assert(p2[k] == p[k]); }
    }
    assert(okp(p2)) by {
        assert forall|k: int| 0 <= k < p2.len() implies ssa(#[trigger] p2[k]) by { if k != i && k != n { assert(p2[k] == p[k]); } }
    }
    assert(sep(p2, p0)) by {
        assert forall|k: int, x: At, y: At, c: int, d: int| #![trigger inc(p2, k, x), inc(p2, k, y), inc(p0, c, x), inc(p0, d, y)] inc(p2, k, x) && inc(p2, k, y) && inc(p0, c, x) && inc(p0, d, y) implies c == d by {
            let k2 = if k == n { i } else { k };
            assert(inc(p, k2, x) && inc(p, k2, y));
        }
    }
    assert forall|x: At| #[trigger] un(p2, x) == un(p0, x) by {
        assert(un(p, x) == un(p0, x));
        if un(p2, x) { let k = choose|k: int| inc(p2, k, x); assert(inc(p, if k == n { i } else { k }, x)); }
        if un(p, x) { let k = choose|k: int| inc(p, k, x); assert(inc(p, k, x)); assert(inc(p2, k, x) || inc(p2, n, x)); }
    }
    assert forall|k: int| 0 <= k < p2.len() && (k < i + 1 || k >= p0.len()) implies one(p2, q, k) by {
        assert forall|x: At, y: At| #![trigger inc(p2, k, x), inc(p2, k, y)] inc(p2, k, x) && inc(p2, k, y) && q[0].contains(x) implies !q[1].contains(y) by {
            if k == n || k == i { if k == n && q[1].contains(y) { assert(q[mv].contains(x) && q[mv].contains(y)); assert(inc(q, 0, x) && inc(q, mv, x) && inc(q, 1, y) && inc(q, mv, y)); } }
            else { assert(one(p, q, k)) by { assert(p[k] == p[k]); } assert(inc(p, k, x) && inc(p, k, y)); }
        }
    }
    assert(ok2[0] == ok2[0] && ok2[1] == ok2[1]);
    assert forall|o: int| 0 <= o < 2 implies okid(p2, q, ok2, o) by {
        assert(ok2[o] == ok2[o]);
        if ok2[o] != MX() {
            if mv == o { assert(ok2[o] == n); assert forall|x: At| #[trigger] inc(p2, n, x) implies !q[1 - o].contains(x) by { assert(q[mv].contains(x)); assert(inc(q, mv, x)); if q[1 - o].contains(x) { assert(inc(q, 1 - o, x)); } } }
        }
    }
    assert(okid(p2, q, ok2, 0) && okid(p2, q, ok2, 1));
    assert forall|k: int| #![trigger p2[k]] #![trigger p0[k]] i + 1 <= k < p0.len() implies p2[k] == p0[k] by { assert(p[k] == p0[k]); }
}
proof fn lem_kinit(p: Cls, p0: Cls, q: Cls, a: Cls, ok: Seq<int>)
    requires jinv(p, p0, q, a, ok, p0.len() as int) ensures kinv(p, p0, q, a, ok, 0)
{
    reveal(jinv); reveal(kinv);
    assert forall|j: int, x: At| #![trigger inc(a, j, x)] 0 <= j < 2 implies inc(a, j, x) == (q[j].contains(x) && un(p0, x)) by {
        if un(p0, x) { let k = choose|k: int| inc(p0, k, x); assert(inc(p0, k, x)); assert(below(p0, p0.len() as int, x)); }
        if below(p0, p0.len() as int, x) { let k = choose|k: int| k < p0.len() && inc(p0, k, x); assert(inc(p0, k, x)); }
    }
}
proof fn lem_skip(p: Cls, p0: Cls, q: Cls, a: Cls, ok: Seq<int>, o: int)
    requires aord(), kinv(p, p0, q, a, ok, o), o < 2, a[o].len() == q[o].len() ensures kinv(p, p0, q, a, ok, o + 1)
{
    reveal(kinv);
    assert(ssa(q[o])); lem_nodup(q[o]);
    assert(a[0].no_duplicates() && a[1].no_duplicates());
    a[o].unique_seq_to_set(); q[o].unique_seq_to_set();
    assert(a[o].to_set().subset_of(q[o].to_set())) by { assert forall|x: At| a[o].to_set().contains(x) implies q[o].to_set().contains(x) by { assert(inc(a, o, x)); } }
    vstd::set_lib::lemma_subset_equality(a[o].to_set(), q[o].to_set());
    assert forall|x: At| q[o].contains(x) implies un(p0, x) by { assert(q[o].to_set().contains(x)); assert(a[o].to_set().contains(x)); assert(inc(a, o, x)); }
}
// the remaining elements d of q[o] go to class m (an existing one or a new, last one)
proof fn lem_add(p: Cls, p0: Cls, q: Cls, a: Cls, ok: Seq<int>, o: int, d: Seq<At>, m: int, c: Seq<At>, p2: Cls, a2: Cls)
    requires aord(), kinv(p, p0, q, a, ok, o), o < 2, forall|x: At| #[trigger] d.contains(x) == (q[o].contains(x) && !a[o].contains(x)), ssa(c),
        a2.len() == 2, forall|j: int| #![trigger a2[j]] 0 <= j < 2 && j != o ==> a2[j] == a[j], a2[o].no_duplicates(),
        (ok[o] != MX() && m == ok[o] && p2 == p.update(m, c) && (forall|x: At| #[trigger] c.contains(x) == (p[m].contains(x) || d.contains(x)))) || (ok[o] == MX() && m == p.len() && p2 == p.push(c) && (forall|x: At| #[trigger] c.contains(x) == d.contains(x))),
    ensures kinv(p2, p0, q, a2, ok, o + 1)
{
    reveal(kinv);
    assert(okid(p, q, ok, 0) && okid(p, q, ok, 1)); assert(ok[0] == ok[0] && ok[1] == ok[1]);
    assert forall|x: At| #[trigger] d.contains(x) implies !un(p, x) && !un(p0, x) by {
        assert(!inc(a, o, x)); assert(inc(q, o, x));
        if q[0].contains(x) { assert(inc(q, 0, x)); }
    }
    assert(p2[m] == c);
    assert forall|k: int, x: At| #[trigger] inc(p2, k, x) implies inc(p, k, x) || (k == m && d.contains(x)) by { if k == m { assert(c.contains(x)); } else { assert(p2[k] == p[k]); } }
    assert forall|k: int, x: At| #[trigger] inc(p, k, x) implies inc(p2, k, x) by { if k == m { assert(c.contains(x)); } else { assert(p2[k] == p[k]); } }
    assert forall|x: At| #[trigger] d.contains(x) implies inc(p2, m, x) by { assert(c.contains(x)); }
    assert(okp(p2)) by {
        assert forall|k: int| 0 <= k < p2.len() implies ssa(#[trigger] p2[k]) by { if k != m { assert(p2[k] == p[k]); } }
        assert forall|k: int, l: int, x: At| #![trigger inc(p2, k, x), inc(p2, l, x)] inc(p2, k, x) && inc(p2, l, x) implies k == l by {
            if d.contains(x) { assert(!un(p, x)); assert(!inc(p, k, x)); assert(!inc(p, l, x)); } else { assert(inc(p, k, x) && inc(p, l, x)); }
        }
    }
    assert(sep(p2, p0)) by {
        assert forall|k: int, x: At, y: At, e: int, f: int| #![trigger inc(p2, k, x), inc(p2, k, y), inc(p0, e, x), inc(p0, f, y)] inc(p2, k, x) && inc(p2, k, y) && inc(p0, e, x) && inc(p0, f, y) implies e == f by {
            assert(un(p0, x) && un(p0, y)); assert(!d.contains(x) && !d.contains(y)); assert(inc(p, k, x) && inc(p, k, y));
        }
    }
    assert forall|x: At| #[trigger] un(p2, x) == (un(p0, x) || (o + 1 > 0 && q[0].contains(x)) || (o + 1 > 1 && q[1].contains(x))) by {
        assert(un(p, x) == (un(p0, x) || (o > 0 && q[0].contains(x)) || (o > 1 && q[1].contains(x))));
        if un(p2, x) { let k = choose|k: int| inc(p2, k, x); assert(inc(p2, k, x)); if d.contains(x) { assert(q[o].contains(x)); } else { assert(inc(p, k, x)); } }
        if un(p, x) { let k = choose|k: int| inc(p, k, x); assert(inc(p, k, x)); assert(inc(p2, k, x)); }
        if q[o].contains(x) { if d.contains(x) { assert(inc(p2, m, x)); } else { assert(inc(a, o, x)); assert(un(p0, x)); } }
    }
    assert forall|k: int, x: At, y: At| #![trigger inc(p2, k, x), inc(p2, k, y)] inc(p2, k, x) && inc(p2, k, y) && q[0].contains(x) implies !q[1].contains(y) by {
        if k == m {
            if q[1].contains(y) {
                if d.contains(x) { assert(inc(q, o, x) && inc(q, 0, x)); assert(o == 0); if d.contains(y) { assert(inc(q, 0, y) && inc(q, 1, y)); } else { assert(inc(p, m, y)); assert(inc(p, ok[0], y)); } }
                else if d.contains(y) { assert(inc(q, o, y) && inc(q, 1, y)); assert(o == 1); assert(inc(p, ok[1], x)); }
                else { assert(inc(p, k, x) && inc(p, k, y)); assert(one(p, q, k)) by { assert(p[k] == p[k]); } }
            }
        } else { assert(inc(p, k, x) && inc(p, k, y)); assert(one(p, q, k)) by { assert(p[k] == p[k]); } }
    }
    assert forall|k: int| 0 <= k < p2.len() implies one(p2, q, k) by { }
    assert forall|j: int| 0 <= j < 2 implies okid(p2, q, ok, j) by {
        assert(okid(p, q, ok, j));
        if ok[j] != MX() {
            assert forall|x: At| #[trigger] inc(p2, ok[j], x) implies !q[1 - j].contains(x) by {
                if d.contains(x) { if q[1 - j].contains(x) { assert(inc(q, o, x) && inc(q, 1 - j, x)); assert(o == 1 - j); assert(!un(p, x)); assert(!inc(p, ok[j], x)); assert(ok[j] == m); assert(ok[0] == ok[1]); } }
                else { assert(inc(p, ok[j], x)); }
            }
        }
    }
    assert(okid(p2, q, ok, 0) && okid(p2, q, ok, 1));
    assert forall|j: int, x: At| #![trigger inc(a2, j, x)] o + 1 <= j < 2 implies inc(a2, j, x) == (q[j].contains(x) && un(p0, x)) by { assert(a2[j] == a[j]); assert(inc(a, j, x) == inc(a2, j, x)); }
    assert(a2[1 - o] == a[1 - o]);
}
proof fn lem_done(r: RefA, p: RefA, q: RefA, a: Cls, ok: Seq<int>)
    requires kinv(r._partitions, p._partitions, q._partitions, a, ok, 2), r.abstract_id == p.abstract_id ensures combined(r, p, q)
{
    reveal(kinv);
    let (c, c0, cq) = (r._partitions, p._partitions, q._partitions);
    assert forall|x: At| #[trigger] un(c, x) == (un(c0, x) || un(cq, x)) by {
        if un(cq, x) { let k = choose|k: int| inc(cq, k, x); assert(inc(cq, k, x)); }
        if cq[0].contains(x) { assert(inc(cq, 0, x)); }
        if cq[1].contains(x) { assert(inc(cq, 1, x)); }
    }
    assert(sep(c, cq)) by {
        assert forall|k: int, x: At, y: At, e: int, f: int| #![trigger inc(c, k, x), inc(c, k, y), inc(cq, e, x), inc(cq, f, y)] inc(c, k, x) && inc(c, k, y) && inc(cq, e, x) && inc(cq, f, y) implies e == f by {
            assert(one(c, cq, k)) by { assert(c[k] == c[k]); }
        }
    }
}
proof fn lem_empty(r: RefA, p: RefA, q: RefA)
    requires p._partitions.len() == 0, r._partitions == q._partitions, two(q), r.abstract_id == p.abstract_id ensures combined(r, p, q)
{
    assert forall|x: At| !un(p._partitions, x) by { if un(p._partitions, x) { let k = choose|k: int| inc(p._partitions, k, x); assert(inc(p._partitions, k, x)); } }
}
proof fn lem_nodj(p: Cls, i: int, j: int) requires aord(), okp(p), 0 <= i < j < p.len() ensures !shares(p[i], p[j]), wsa(p[i]), wsa(p[j])
{ if shares(p[i], p[j]) { let x = choose|x: At| p[i].contains(x) && p[j].contains(x); assert(inc(p, i, x) && inc(p, j, x)); } }
proof fn lem_two(f: Seq<At>, s: Seq<At>, p: Cls) requires aord(), p.len() == 2, ssa(p[0]), ssa(p[1]), forall|x: At| #[trigger] p[0].contains(x) == f.contains(x), forall|x: At| #[trigger] p[1].contains(x) == s.contains(x), !shares(f, s)
    ensures okp(p), !shares(p[0], p[1]), wsa(p[0]), wsa(p[1])
{
    assert forall|k: int, l: int, x: At| #![trigger inc(p, k, x), inc(p, l, x)] inc(p, k, x) && inc(p, l, x) implies k == l by { if k != l { assert(f.contains(x) && s.contains(x)); } }
    lem_nodj(p, 0, 1);
}
proof fn lem_sub(s: Seq<At>) ensures s.subrange(0, s.len() as int) == s { assert(s.subrange(0, s.len() as int) =~= s); }
proof fn lem_jl(p: Cls, p0: Cls, q: Cls, a: Cls, ok: Seq<int>, i: int) requires jinv(p, p0, q, a, ok, i)
    ensures a.len() == 2, ok.len() == 2, q.len() == 2, p.len() >= p0.len(), p.len() < MX(), 0 <= i <= p0.len(), p0.len() <= 0x1000_0000_0000_0000, ssa(q[0]), ssa(q[1]), forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> ssa(p[k])
{ reveal(jinv); }
proof fn lem_ml(p: Cls, q: Cls, a: Cls, a1: Cls, ps: Seq<int>, ok: Seq<int>, ok1: Seq<int>, i: int, mv: int) requires mid(p, q, a, a1, ps, ok, ok1, i, 2, false), mv == 0 || mv == 1
    ensures a1.len() == 2, ok1.len() == 2, ps.len() == 2, ps[mv] == a[mv].len(), ps[mv] <= a1[mv].len(), ssa(seg(a1, a, mv))
{ reveal(mid); assert(a1[mv] == a1[mv]); }
proof fn lem_kl(p: Cls, p0: Cls, q: Cls, a: Cls, ok: Seq<int>, o: int) requires kinv(p, p0, q, a, ok, o)
    ensures a.len() == 2, ok.len() == 2, q.len() == 2, okp(p), okp(q), 0 <= o <= 2, a[0].no_duplicates(), a[1].no_duplicates(), ssa(q[0]), ssa(q[1]), okid(p, q, ok, 0), okid(p, q, ok, 1), p.len() >= p0.len() >= 2
{ reveal(kinv); }
proof fn lem_rest(p: Cls, p0: Cls, q: Cls, a: Cls, ok: Seq<int>, o: int, d: Seq<At>, m: int)
    requires kinv(p, p0, q, a, ok, o), 0 <= o < 2, forall|x: At| #[trigger] d.contains(x) == (q[o].contains(x) && !a[o].contains(x)), 0 <= m < p.len()
    ensures !shares(p[m], d), ssa(p[m])
{
    reveal(kinv);
    if shares(p[m], d) { let x = choose|x: At| #[trigger] p[m].contains(x) && d.contains(x); assert(d.contains(x)); assert(inc(p, m, x)); assert(un(p, x)); assert(!inc(a, o, x)); assert(inc(q, o, x)); if q[0].contains(x) { assert(inc(q, 0, x)); } }
}
proof fn lem_cat(s: Seq<At>, d: Seq<At>) requires aord(), ssa(s), ssa(d)
    ensures forall|i: int, j: int| #![trigger (s + d)[i], (s + d)[j]] 0 <= i < j < s.len() ==> !at_lt((s + d)[j], (s + d)[i]), forall|i: int, j: int| #![trigger (s + d)[i], (s + d)[j]] s.len() <= i < j < (s + d).len() ==> !at_lt((s + d)[j], (s + d)[i])
{
    let u = s + d;
    assert forall|i: int, j: int| #![trigger u[i], u[j]] 0 <= i < j < s.len() implies !at_lt(u[j], u[i]) by { assert(u[i] == s[i] && u[j] == s[j]); }
    assert forall|i: int, j: int| #![trigger u[i], u[j]] s.len() <= i < j < u.len() implies !at_lt(u[j], u[i]) by { assert(u[i] == d[i - s.len()] && u[j] == d[j - s.len()]); }
}
// the merged class: both ranges sorted, no element twice
proof fn lem_merge(s: Seq<At>, d: Seq<At>, c: Seq<At>)
    requires aord(), ssa(s), ssa(d), !shares(s, d), wsa(c), (s + d).no_duplicates() ==> c.no_duplicates(), forall|x: At| #[trigger] c.contains(x) == (s + d).contains(x)
    ensures ssa(c), forall|x: At| #[trigger] c.contains(x) == (s.contains(x) || d.contains(x))
{
    lem_nodup(s); lem_nodup(d);
    let u = s + d;
    assert forall|m: int, n: int| 0 <= m < n < u.len() implies u[m] != u[n] by {
        if m < s.len() && n >= s.len() { let x = u[m]; assert(s[m] == x); assert(s.contains(x)); if u[n] == x { assert(d[n - s.len()] == x); assert(d.contains(x)); } }
        else if n < s.len() { assert(u[m] == s[m] && u[n] == s[n]); } else { assert(u[m] == d[m - s.len()] && u[n] == d[n - s.len()]); }
    }
    lem_ssa(c);
    assert forall|x: At| #[trigger] c.contains(x) == (s.contains(x) || d.contains(x)) by {
        if u.contains(x) { let m = choose|m: int| 0 <= m < u.len() && u[m] == x; if m < s.len() { assert(s[m] == x); } else { assert(d[m - s.len()] == x); } }
        if s.contains(x) { let m = choose|m: int| 0 <= m < s.len() && s[m] == x; assert(u[m] == x); }
        if d.contains(x) { let m = choose|m: int| 0 <= m < d.len() && d[m] == x; assert(u[s.len() + m] == x); }
    }
}
'''
DISJ = 'result == !shares(a0, b0)'
INV = '0 <= it_a <= a0.len();; 0 <= it_b <= b0.len();; forall|i: int, j: int| #![trigger a0[i], b0[j]] 0 <= i < it_a && 0 <= j < b0.len() ==> a0[i] != b0[j];; forall|i: int, j: int| #![trigger a0[i], b0[j]] 0 <= i < a0.len() && 0 <= j < it_b ==> a0[i] != b0[j]'
R = r'pdaaal::Refinement<pdaaal::verif::a_t>::'
K = 'other == other0;; size == this0._partitions.len();; this_.abstract_id == this0.abstract_id'
CONTRACTS = [
    dict(name='is_disjoint', fn='pdaaal::is_disjoint', sig='a_t', nparams=2, params=['a', 'b'], requires='aord();; wsa(a0);; wsa(b0)', ensures=DISJ, loops={1: INV},
         hints={'return 1': 'assert(a0[it_a] == b0[it_b]); assert(a0.contains(a0[it_a])); assert(b0.contains(a0[it_a]));', 'return 2': 'if shares(a0, b0) { let x = choose|x: At| #[trigger] a0.contains(x) && b0.contains(x); }'}),
    dict(name='ref_ctor', fn=R + 'Refinement', nparams=3, params=['first', 'second', 'abstract_id'],
         requires='aord();; first0.len() > 0;; second0.len() > 0;; first0.no_duplicates();; second0.no_duplicates();; !shares(first0, second0)',
         ensures='two(this1);; this1.abstract_id == abstract_id0;; forall|x: At| #[trigger] inc(this1._partitions, 0, x) == first0.contains(x);; forall|x: At| #[trigger] inc(this1._partitions, 1, x) == second0.contains(x)',
         hints={'after std_sort 1': 'lem_ssa($R);', 'after std_sort 2': 'lem_ssa($R);', 'before is_disjoint 1': 'lem_two(first0, second0, this_._partitions);'}),
    dict(name='ref_combine', fn=R + 'combine', params=['other'], requires='aord();; rok(this0);; fits(this0);; two(other0);; this0.abstract_id == other0.abstract_id', ensures='combined(this1, this0, other0)',
         loops={1: '0 <= other_i <= 2',
                2: '%s;; 0 <= i <= size;; jinv(this_._partitions, this0._partitions, other0._partitions, already_in_partitions, ok_partition_id, i)' % K,
                3: '%s;; 0 <= other_i_2 <= 2;; this_ == m_;; 0 <= i < size;; i < this_._partitions.len();; mid(this_._partitions, other0._partitions, am_, already_in_partitions, prev_size, okm_, ok_partition_id, i, other_i_2, empty_intersection_found);; already_in_partitions.len() == 2 && ok_partition_id.len() == 2 && prev_size.len() == 2 && am_.len() == 2 && okm_.len() == 2;; jinv(m_._partitions, this0._partitions, other0._partitions, am_, okm_, i)' % K,
                4: '0 <= other_i_3 <= 2;; ok_partition_id.len() == 2;; move_i == 0 || move_i == 1;; forall|o: int| #![trigger ok_partition_id[o]] 0 <= o < 2 ==> ok_partition_id[o] == (if o >= other_i_3 || ok1_[o] == MX() { ok1_[o] } else if move_i == o { this_._partitions.len() as int } else { i })',
                5: '%s;; 0 <= other_i_4 <= 2;; kinv(this_._partitions, this0._partitions, other0._partitions, already_in_partitions, ok_partition_id, other_i_4)' % K,
                6: '%s;; kinv(this_._partitions, this0._partitions, other0._partitions, already_in_partitions, ok_partition_id, 2);; 0 <= i_2' % K, 7: '0 <= i_2 < j'},
         hints={'return 1': 'lem_empty(this_, this0, other0);',
                'before loop 2': 'lem_jinit(this_._partitions, other0._partitions, already_in_partitions, ok_partition_id);',
                'loop 2 begin': 'raw:let ghost m_ = this_; let ghost am_ = already_in_partitions; let ghost okm_ = ok_partition_id;',
                'before loop 3': 'lem_jl(this_._partitions, this0._partitions, other0._partitions, already_in_partitions, ok_partition_id, i); lem_mid0(this_._partitions, this0._partitions, other0._partitions, already_in_partitions, prev_size, ok_partition_id, i);',
                'loop 3 begin': 'raw:let ghost mm_ = already_in_partitions; let ghost pm_ = prev_size; let ghost om_ = ok_partition_id; let ghost em_ = empty_intersection_found; proof { lem_jl(m_._partitions, this0._partitions, other0._partitions, am_, okm_, i); lem_sub(this_._partitions[i]); lem_sub(other._partitions[other_i_2]); }',
                'loop 3 end': 'lem_mids(this_._partitions, other0._partitions, am_, mm_, pm_, okm_, om_, i, other_i_2, em_, t1_, prev_size, ok_partition_id, empty_intersection_found);',
                'before loop 4': 'raw:let ghost ok1_ = ok_partition_id; proof { lem_ml(this_._partitions, other0._partitions, am_, already_in_partitions, prev_size, okm_, ok_partition_id, i, move_i); lem_jl(m_._partitions, this0._partitions, other0._partitions, am_, okm_, i); }',
                'before std_set_difference 1': 'lem_sub(this_._partitions[i]); lem_sub(this_._partitions[this_._partitions.len() - 1]);',
                'after std_set_difference 1': 'lem_split(m_._partitions, this0._partitions, other0._partitions, am_, already_in_partitions, prev_size, okm_, ok1_, i, move_i, $R, m_._partitions.push(seg(already_in_partitions, am_, move_i)).update(i, $R), ok_partition_id); assert(temp + $R =~= $R);',
                'loop 2 end': 'if empty_intersection_found { lem_nosplit(m_._partitions, this0._partitions, other0._partitions, am_, already_in_partitions, prev_size, okm_, ok_partition_id, i); }',
                'before loop 5': 'lem_kinit(this_._partitions, this0._partitions, other0._partitions, already_in_partitions, ok_partition_id);',
                'loop 5 begin': 'raw:let ghost kp_ = this_; let ghost ka_ = already_in_partitions; proof { lem_kl(this_._partitions, this0._partitions, other0._partitions, already_in_partitions, ok_partition_id, other_i_4); if already_in_partitions[other_i_4].len() == other._partitions[other_i_4].len() { lem_skip(this_._partitions, this0._partitions, other0._partitions, already_in_partitions, ok_partition_id, other_i_4); } }',
                'after std_sort 1': 'lem_ssa($R); lem_sub($R); lem_sub(other._partitions[other_i_4]);',
                'after std_set_difference 2': 'lem_rest(kp_._partitions, this0._partitions, other0._partitions, ka_, ok_partition_id, other_i_4, $R, ok_partition_id[other_i_4]);',
                'before std_inplace_merge 1': 'lem_cat(kp_._partitions[t5_], t6_);',
                'after std_inplace_merge 1': 'lem_merge(kp_._partitions[t5_], t6_, $R); lem_add(kp_._partitions, this0._partitions, other0._partitions, ka_, ok_partition_id, other_i_4, t6_, t5_, $R, kp_._partitions.update(t5_, $R), already_in_partitions); assert(this_._partitions.update(t5_, $R) =~= kp_._partitions.update(t5_, $R));',
                'after std_set_difference 3': 'lem_add(kp_._partitions, this0._partitions, other0._partitions, ka_, ok_partition_id, other_i_4, $R, kp_._partitions.len() as int, $R, kp_._partitions.push($R), already_in_partitions); assert(Seq::<At>::empty() + $R =~= $R); assert(this_._partitions.update(this_._partitions.len() - 1, $R) =~= kp_._partitions.push($R));',
                'loop 7 begin': 'lem_kl(this_._partitions, this0._partitions, other0._partitions, already_in_partitions, ok_partition_id, 2); lem_nodj(this_._partitions, i_2, j);',
                'end': 'lem_done(this_, this0, other0, already_in_partitions, ok_partition_id);'}),
    dict(name='href_combine', fn=r'pdaaal::HeaderRefinement<pdaaal::verif::a_t>::combine', params=['refinement'],
         requires='aord();; hok(this0._refinements);; forall|k: int| #![trigger this0._refinements[k]] 0 <= k < this0._refinements.len() ==> fits(this0._refinements[k]);; two(refinement0)',
         ensures='hok(this1._refinements);; hasid(this0._refinements, refinement0.abstract_id) ==> this1._refinements.len() == this0._refinements.len();; !hasid(this0._refinements, refinement0.abstract_id) ==> this1._refinements == this0._refinements.push(refinement0);; forall|k: int| #![trigger this1._refinements[k]] 0 <= k < this0._refinements.len() ==> (if this0._refinements[k].abstract_id == refinement0.abstract_id { combined(this1._refinements[k], this0._refinements[k], refinement0) } else { this1._refinements[k] == this0._refinements[k] })'),
]
ops = lambda e: (lambda fn, d, n, args, want, me, th: e(fn, fn.rvs(args), fn.ty(args[0]).name))


def cfg():
    lt = {'At': 'at_lt', 'Bt': 'bt_lt'}
    return dict(types=[(r'(pdaaal::)?(verif::)?a_t', lambda T, m: Ty('raw', name='At')), (r'(pdaaal::)?(verif::)?b_t', lambda T, m: Ty('raw', name='Bt'))],
                raw_less=lt, rec_names={r'pdaaal::Refinement<.*a_t>': 'RefA', r'pdaaal::Refinement<.*b_t>': 'RefB', r'pdaaal::HeaderRefinement<.*>': 'HRef'},
                builtins=[(r'.*verif::operator<', ops(lambda fn, v, t: '%s(%s, %s)' % (lt[t], v[0], v[1]))), (r'.*verif::operator==', ops(lambda fn, v, t: '(%s == %s)' % (v[0], v[1]))), (r'.*verif::operator!=', ops(lambda fn, v, t: '(%s != %s)' % (v[0], v[1])))])


def unit(ast):
    return Unit('refc', 'refine.cpp', CONTRACTS, cfg(), SPEC, LEMMAS, ast)
