"""W02: array and vector weights, linear and ordered weight functions."""
from unit import Unit
from vtypes import Ty
from c2v import kids
from proofs.units import weights

SPEC = weights.SPEC + r'''
pub open spec fn allr(lo: int, hi: int, s: Seq<int>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> inr(lo, hi, s[i]) }
// missing elements count as zero
pub open spec fn at(s: Seq<int>, i: int) -> int { if 0 <= i < s.len() { s[i] } else { 0 } }
pub open spec fn pad_eq(a: Seq<int>, b: Seq<int>, n: int) -> bool { forall|i: int| #![trigger at(a, i)] #![trigger at(b, i)] 0 <= i < n ==> at(a, i) == at(b, i) }
pub open spec fn first_diff(lo: int, hi: int, mx: bool, a: Seq<int>, b: Seq<int>, k: int) -> bool { 0 <= k && pad_eq(a, b, k) && wless(lo, hi, mx, at(a, k), at(b, k)) }
pub open spec fn pad_less(lo: int, hi: int, mx: bool, a: Seq<int>, b: Seq<int>) -> bool { exists|k: int| #[trigger] first_diff(lo, hi, mx, a, b, k) }
pub open spec fn fits_all(lo: int, hi: int, mx: bool, a: Seq<int>, b: Seq<int>) -> bool { forall|i: int| #![trigger at(a, i)] #![trigger at(b, i)] 0 <= i < a.len() && i < b.len() ==> wfits(lo, hi, mx, at(a, i), at(b, i)) }
pub open spec fn max2(a: nat, b: nat) -> nat { if a < b { b } else { a } }
// weight functions
#[verifier::external_body] pub struct WFun { _p: () }
pub uninterp spec fn fun_apply(f: WFun, x: int, y: int) -> int;
pub open spec fn lval_i(f: lwf_i, x: int, y: int) -> int decreases f, 0int { if f._function.is_some() { fun_apply(f._function->0, x, y) } else { lsum_i(f._functions, f._functions.len() as int, x, y) } }
pub open spec fn lsum_i(s: Seq<(int, lwf_i)>, n: int, x: int, y: int) -> int decreases s, n { if 0 < n <= s.len() { lsum_i(s, n - 1, x, y) + s[n - 1].0 * lval_i(s[n - 1].1, x, y) } else { 0 } }
pub open spec fn lval_u(f: lwf_u, x: int, y: int) -> int decreases f, 0int { if f._function.is_some() { fun_apply(f._function->0, x, y) } else { lsum_u(f._functions, f._functions.len() as int, x, y) } }
pub open spec fn lsum_u(s: Seq<(int, lwf_u)>, n: int, x: int, y: int) -> int decreases s, n { if 0 < n <= s.len() { uwrap32(lsum_u(s, n - 1, x, y) + uwrap32(s[n - 1].0 * lval_u(s[n - 1].1, x, y))) } else { 0 } }
'''
LEMMAS = weights.LEMMAS + r'''
proof fn lex_pad(lo: int, hi: int, mx: bool, a: Seq<int>, b: Seq<int>)
    requires wtype(lo, hi), allr(lo, hi, a), allr(lo, hi, b),
    ensures ({ let lt = |x: int, y: int| wless(lo, hi, mx, x, y); a.len() == b.len() ==> std_lex(a, b, lt) == pad_less(lo, hi, mx, a, b) })
{
    let lt = |x: int, y: int| wless(lo, hi, mx, x, y);
    if a.len() == b.len() {
        if std_lex(a, b, lt) { let k = choose|k: int| lexat(a, b, lt, k); assert(lexat(a, b, lt, k));
            assert forall|i: int| #![trigger at(a, i)] #![trigger at(b, i)] 0 <= i < k implies at(a, i) == at(b, i) by { assert(!lt(a[i], b[i]) && !lt(b[i], a[i])); }
            assert(first_diff(lo, hi, mx, a, b, k)); }
        if pad_less(lo, hi, mx, a, b) { let k = choose|k: int| first_diff(lo, hi, mx, a, b, k);
            assert(at(a, k) != at(b, k)); assert(k < a.len());
            assert forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < k implies !lt(a[i], b[i]) && !lt(b[i], a[i]) by { assert(at(a, i) == at(b, i)); }
            assert(lexat(a, b, lt, k)); }
    }
}
// operator< of vectors of unsigned minimised weights
proof fn lex_num(hi: int, a: Seq<int>, b: Seq<int>)
    requires wtype(0, hi), allr(0, hi, a), allr(0, hi, b),
    ensures ({ let lt = |x: int, y: int| (x < y); (pad_less(0, hi, false, a, b) ==> std_lex(a, b, lt)) && (std_lex(a, b, lt) ==> pad_less(0, hi, false, a, b) || (a.len() < b.len() && pad_eq(a, b, b.len() as int))) })
{
    let lt = |x: int, y: int| (x < y);
    if pad_less(0, hi, false, a, b) { let k = choose|k: int| first_diff(0, hi, false, a, b, k);
        assert(at(a, k) < at(b, k)); assert(k < b.len());
        let m = if k < a.len() { k } else { a.len() as int };
        assert forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < m implies !lt(a[i], b[i]) && !lt(b[i], a[i]) by { assert(at(a, i) == at(b, i)); }
        assert(lexat(a, b, lt, m)); }
    if std_lex(a, b, lt) { let m = choose|m: int| lexat(a, b, lt, m); assert(lexat(a, b, lt, m));
        assert forall|i: int| #![trigger at(a, i)] #![trigger at(b, i)] 0 <= i < m implies at(a, i) == at(b, i) by { assert(!lt(a[i], b[i]) && !lt(b[i], a[i])); }
        if m < a.len() { assert(first_diff(0, hi, false, a, b, m)); }
        else { tail(hi, a, b, m, b.len() as int); } }
}
proof fn tail(hi: int, a: Seq<int>, b: Seq<int>, m: int, n: int)
    requires wtype(0, hi), allr(0, hi, b), m == a.len(), 0 <= m <= n <= b.len(), pad_eq(a, b, m),
    ensures pad_less(0, hi, false, a, b) || pad_eq(a, b, n) decreases n
{ if n > m { tail(hi, a, b, m, n - 1); if pad_eq(a, b, n - 1) { if b[n - 1] != 0 { assert(at(a, n - 1) == 0 && at(b, n - 1) > 0); assert(first_diff(0, hi, false, a, b, n - 1)); } } } }
// at most one of the two directions, and padded order is total up to trailing zeros
proof fn pad_less_antisym(lo: int, hi: int, mx: bool, a: Seq<int>, b: Seq<int>)
    requires wtype(lo, hi), allr(lo, hi, a), allr(lo, hi, b), pad_less(lo, hi, mx, a, b), ensures !pad_less(lo, hi, mx, b, a)
{
    if pad_less(lo, hi, mx, b, a) { let k = choose|k: int| first_diff(lo, hi, mx, a, b, k); let j = choose|j: int| first_diff(lo, hi, mx, b, a, j);
        if k < j { assert(at(a, k) == at(b, k)); } else if j < k { assert(at(a, j) == at(b, j)); } }
}
proof fn no_less(lo: int, hi: int, mx: bool, a: Seq<int>, b: Seq<int>, n: int)
    requires pad_eq(a, b, n), n >= a.len(), n >= b.len(), ensures !pad_less(lo, hi, mx, a, b)
{ if pad_less(lo, hi, mx, a, b) { let k = choose|k: int| first_diff(lo, hi, mx, a, b, k); assert(at(a, k) != at(b, k)); } }
proof fn fold_i(s: Seq<(int, lwf_i)>, n: int, x: int, y: int)
    requires 0 <= n <= s.len(), ensures s.subrange(0, n).fold_left(0int, |a_: int, b_: (int, lwf_i)| (a_ + (b_.0 * lval_i(b_.1, x, y)))) == lsum_i(s, n, x, y) decreases n
{ reveal_with_fuel(Seq::fold_left, 2); let t = s.subrange(0, n); if n > 0 { assert(t.drop_last() =~= s.subrange(0, n - 1)); assert(t.last() == s[n - 1]); fold_i(s, n - 1, x, y); } }
proof fn fold_u(s: Seq<(int, lwf_u)>, n: int, x: int, y: int)
    requires 0 <= n <= s.len(), ensures s.subrange(0, n).fold_left(0int, |a_: int, b_: (int, lwf_u)| uwrap32(a_ + uwrap32(b_.0 * lval_u(b_.1, x, y)))) == lsum_u(s, n, x, y) decreases n
{ reveal_with_fuel(Seq::fold_left, 2); let t = s.subrange(0, n); if n > 0 { assert(t.drop_last() =~= s.subrange(0, n - 1)); assert(t.last() == s[n - 1]); fold_u(s, n - 1, x, y); } }
'''


def contracts():
    used = ('int', 'unsigned int', 'signed char', 'unsigned char', 'long', 'unsigned long')
    ts = [t for t in weights.TYPES if t[0] in used]
    names = {'less_' + n + d for _, n, _, _ in ts for d in ('_min', '_max')} | {'add_' + n + d for _, n, _, _ in ts for d in ('_min', '_max')}
    out = []
    for c in weights.contracts('weights'):
        if c['name'] in names:
            c = dict(c); out.append(c)
    for ct, nm, lo, hi in ts:
        for mx in (False, True):
            R = '%dint, %dint' % (lo, hi); P = R + (', true' if mx else ', false'); N = nm + ('_max' if mx else '_min'); F = '-1' if mx else '0'
            fits = lambda a, b: 'fits_all(%s, %s, %s)' % (P, a, b)
            base = 'allr(%s, lhs0);; allr(%s, rhs0)' % (R, R)
            A = r'pdaaal::details::weight_impl<(arr3<%s>|std::array<%s, 3>), %s, void>::' % (ct, ct, F)
            V = r'pdaaal::details::weight_impl<std::vector<%s>, %s, void>::' % (ct, F)
            KA = r'pdaaal::verif::consts<pdaaal::details::weight_impl<(arr3<%s>|std::array<%s, 3>), %s>>::' % (ct, ct, 'true' if mx else 'false')
            KV = r'pdaaal::verif::consts<pdaaal::details::weight_impl<std::vector<%s>, %s>>::' % (ct, 'true' if mx else 'false')
            out.append(dict(name='arr_less_' + N, fn=A + 'less', params=['lhs', 'rhs'], requires=base + ';; lhs0.len() == 3;; rhs0.len() == 3', ensures='result == pad_less(%s, lhs0, rhs0)' % P,
                            hints={'begin': 'lex_pad(%s, lhs0, rhs0); assert(lhs0.subrange(0, lhs0.len() as int) =~= lhs0); assert(rhs0.subrange(0, rhs0.len() as int) =~= rhs0);' % P}))
            ADD = 'fits_all(%s, lhs0, rhs0)' % P
            out.append(dict(name='arr_add_' + N, fn=A + 'add', params=['lhs', 'rhs'], requires=base + ';; lhs0.len() == 3;; rhs0.len() == 3;; ' + ADD,
                            ensures='result.len() == 3;; forall|i: int| #![trigger result[i]] 0 <= i < 3 ==> result[i] == wadd(%s, lhs0[i], rhs0[i])' % P,
                            loops={1: '0 <= i <= 3;; res.len() == 3;; forall|j: int| #![trigger res[j]] 0 <= j < i ==> res[j] == wadd(%s, lhs0[j], rhs0[j])' % P},
                            hints={'loop 1 begin': 'assert(at(lhs0, i as int) == lhs0[i] && at(rhs0, i) == rhs0[i]);'}))
            for w, v in (('bottom', 'wbot(%s)' % P), ('max', 'wmax(%s)' % P), ('zero', '0')):
                out.append(dict(name='arr_%s_%s' % (w, N), fn=KA + w + '_', exact=True, ensures='result.len() == 3;; forall|i: int| 0 <= i < 3 ==> result[i] == %s' % v))
                out.append(dict(name='vec_%s_%s' % (w, N), fn=KV + w + '_', exact=True, ensures='result.len() == %d' % (0 if w == 'zero' else 1) + ('' if w == 'zero' else ';; result[0] == ' + v)))
            if lo == 0 and not mx:
                out.append(dict(name='vec_less_' + N, fn=V + 'less', params=['lhs', 'rhs'], requires=base,
                                ensures='pad_less(%s, lhs0, rhs0) ==> result;; result ==> pad_less(%s, lhs0, rhs0) || (lhs0.len() < rhs0.len() && pad_eq(lhs0, rhs0, rhs0.len() as int))' % (P, P),
                                hints={'begin': 'lex_num(%dint, lhs0, rhs0);' % hi}))
            else:
                out.append(dict(name='vec_less_' + N, fn=V + 'less', params=['lhs', 'rhs'], requires=base, ensures='result == pad_less(%s, lhs0, rhs0)' % P,
                                loops={1: '''0 <= f1 <= lhs0.len();; 0 <= f2 <= rhs0.len();; l1 == lhs0.len();; l2 == rhs0.len();; exhaust1 == (f1 == l1);; exhaust2 == (f2 == l2);;
                                        !exhaust1 ==> f1 >= f2;; !exhaust2 ==> f2 >= f1;; pad_eq(lhs0, rhs0, if f1 < f2 { f2 } else { f1 })'''},
                                hints={'return 1': 'assert(first_diff(%s, lhs0, rhs0, if f1 < f2 { f2 } else { f1 }));' % P,
                                       'return 2': 'assert(first_diff(%s, rhs0, lhs0, if f1 < f2 { f2 } else { f1 })); pad_less_antisym(%s, rhs0, lhs0);' % (P, P),
                                       'return 3': 'no_less(%s, lhs0, rhs0, if f1 < f2 { f2 } else { f1 });' % P}))
            out.append(dict(name='vec_add_' + N, fn=V + 'add', params=['lhs', 'rhs'], requires=base + ';; ' + ADD,
                            ensures='result.len() == max2(lhs0.len(), rhs0.len());; forall|i: int| #![trigger result[i]] 0 <= i < result.len() ==> result[i] == wadd(%s, at(lhs0, i), at(rhs0, i))' % P,
                            hints={'begin': '''assert forall|i: int| #![trigger lhs0[i]] #![trigger rhs0[i]] 0 <= i < lhs0.len() && i < rhs0.len() implies wfits(%s, lhs0[i], rhs0[i]) by { assert(at(lhs0, i) == lhs0[i]); }
                                     assert forall|i: int| #![trigger lhs0[i]] 0 <= i < lhs0.len() implies wadd(%s, lhs0[i], 0) == lhs0[i] by { zero_neutral(%s, lhs0[i]); } assert forall|i: int| #![trigger rhs0[i]] 0 <= i < rhs0.len() implies wadd(%s, 0, rhs0[i]) == rhs0[i] by { zero_neutral(%s, rhs0[i]); }
                                     assert forall|a: int, b: int| #[trigger] wadd(%s, a, b) == wadd(%s, b, a) by {}''' % ((P,) * 7)}))
    for ct, t in (('int', 'i'), ('unsigned int', 'u')):
        out.append(dict(name='linear_' + t, fn=r'pdaaal::linear_weight_function<%s, int, int>::operator\(\)' % ct, params=['x', 'y'], exact=(t == 'u'), ensures='result == lval_%s(this0, x0, y0)' % t, spec_call='lval_' + t,
                        hints={'begin': 'fold_%s(this0._functions, this0._functions.len() as int, x0, y0);' % t}))
        out.append(dict(name='ordered_' + t, fn=r'pdaaal::ordered_weight_function<%s, int, int>::operator\(\)' % ct, params=['x', 'y'], ensures='result.len() == this0._functions.len();; forall|i: int| #![trigger result[i]] 0 <= i < result.len() ==> result[i] == lval_%s(this0._functions[i], x0, y0)' % t))
    return out


def apply(fn, n, a, want):
    x = fn.rvs(a); return 'fun_apply(%s)' % ', '.join(x)


CFG = dict(math_signed=True, rec_names={r'pdaaal::linear_weight_function<int, .*>': 'lwf_i', r'pdaaal::linear_weight_function<unsigned int, .*>': 'lwf_u', r'pdaaal::ordered_weight_function<int, .*>': 'owf_i', r'pdaaal::ordered_weight_function<unsigned int, .*>': 'owf_u'},
           types=[(r'(std::)?function<.*>', lambda T, m: Ty('raw', name='WFun'))], operators={'operator()': apply})
ASSUMPTIONS = ['signed overflow inside linear_weight_function sums is outside the property (sums treated as mathematical)', 'std::function objects of a weight function are deterministic total functions of their arguments', 'array weights are instantiated with length 3']


def unit(ast):
    return Unit('weights2', 'weights.cpp', contracts(), CFG, SPEC, LEMMAS, ast)
