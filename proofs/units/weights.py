"""W01: integer weights, every instantiated type in both directions, machine arithmetic exact."""
from unit import Unit
TYPES = [('signed char', 'i8', -0x80, 0x7f), ('unsigned char', 'u8', 0, 0xff), ('short', 'i16', -0x8000, 0x7fff), ('unsigned short', 'u16', 0, 0xffff),
         ('int', 'i32', -0x8000_0000, 0x7fff_ffff), ('unsigned int', 'u32', 0, 0xffff_ffff), ('long', 'i64', -(1 << 63), (1 << 63) - 1), ('unsigned long', 'u64', 0, (1 << 64) - 1),
         ('long long', 'i64l', -(1 << 63), (1 << 63) - 1), ('unsigned long long', 'u64l', 0, (1 << 64) - 1)]

SPEC = r'''
// lo, hi: range of the C++ type; mx: maximising
pub open spec fn inr(lo: int, hi: int, a: int) -> bool { lo <= a <= hi }
pub open spec fn wmax(lo: int, hi: int, mx: bool) -> int { if mx && lo < 0 { lo } else { hi } }
pub open spec fn wbot(lo: int, hi: int, mx: bool) -> int { if !mx { lo } else if lo < 0 { hi } else { hi - 1 } }
// the order: the declared maximum is above everything, otherwise numerically increasing (minimising) or decreasing (maximising)
pub open spec fn wless(lo: int, hi: int, mx: bool, a: int, b: int) -> bool {
    let m = wmax(lo, hi, mx);
    if a == m { false } else if b == m { true } else if mx { b < a } else { a < b }
}
pub open spec fn special(lo: int, hi: int, mx: bool, a: int) -> bool { a == wmax(lo, hi, mx) || (wbot(lo, hi, mx) != 0 && a == wbot(lo, hi, mx)) }
// neither operand is an absorbing value: the exact sum must be representable
pub open spec fn wfits(lo: int, hi: int, mx: bool, a: int, b: int) -> bool { special(lo, hi, mx, a) || special(lo, hi, mx, b) || inr(lo, hi, a + b) }
pub open spec fn wadd(lo: int, hi: int, mx: bool, a: int, b: int) -> int {
    let m = wmax(lo, hi, mx); let z = wbot(lo, hi, mx);
    if a == m || b == m { m } else if z != 0 && (a == z || b == z) { z } else { a + b }
}
pub open spec fn wtype(lo: int, hi: int) -> bool { hi >= 127 && (lo == 0 || lo == -hi - 1) }
'''
LEMMAS = r'''
proof fn order_irreflexive(lo: int, hi: int, mx: bool, a: int) requires wtype(lo, hi), inr(lo, hi, a), ensures !wless(lo, hi, mx, a, a) {}
proof fn order_transitive(lo: int, hi: int, mx: bool, a: int, b: int, c: int) requires wtype(lo, hi), inr(lo, hi, a), inr(lo, hi, b), inr(lo, hi, c), wless(lo, hi, mx, a, b), wless(lo, hi, mx, b, c), ensures wless(lo, hi, mx, a, c) {}
proof fn order_total(lo: int, hi: int, mx: bool, a: int, b: int) requires wtype(lo, hi), inr(lo, hi, a), inr(lo, hi, b), ensures wless(lo, hi, mx, a, b) || a == b || wless(lo, hi, mx, b, a) {}
proof fn max_greatest(lo: int, hi: int, mx: bool, a: int) requires wtype(lo, hi), inr(lo, hi, a), ensures inr(lo, hi, wmax(lo, hi, mx)), !wless(lo, hi, mx, wmax(lo, hi, mx), a) {}
proof fn bottom_least(lo: int, hi: int, mx: bool, a: int) requires wtype(lo, hi), inr(lo, hi, a), ensures inr(lo, hi, wbot(lo, hi, mx)), !wless(lo, hi, mx, a, wbot(lo, hi, mx)) {}
proof fn add_commutes(lo: int, hi: int, mx: bool, a: int, b: int) ensures wadd(lo, hi, mx, a, b) == wadd(lo, hi, mx, b, a) {}
proof fn zero_neutral(lo: int, hi: int, mx: bool, a: int) requires wtype(lo, hi), inr(lo, hi, a), ensures wadd(lo, hi, mx, a, 0) == a, wadd(lo, hi, mx, 0, a) == a {}
proof fn add_max(lo: int, hi: int, mx: bool, a: int) ensures wadd(lo, hi, mx, wmax(lo, hi, mx), a) == wmax(lo, hi, mx), wadd(lo, hi, mx, a, wmax(lo, hi, mx)) == wmax(lo, hi, mx) {}
proof fn add_bottom(lo: int, hi: int, mx: bool, a: int) requires wtype(lo, hi), wbot(lo, hi, mx) != 0, a != wmax(lo, hi, mx), ensures wadd(lo, hi, mx, wbot(lo, hi, mx), a) == wbot(lo, hi, mx) {}
// associativity: exact sums that are representable and not an extreme value (and extremes, which absorb)
pub open spec fn good(lo: int, hi: int, mx: bool, s: int) -> bool { inr(lo, hi, s) && !special(lo, hi, mx, s) }
proof fn add_associates(lo: int, hi: int, mx: bool, a: int, b: int, c: int)
    requires wtype(lo, hi), inr(lo, hi, a), inr(lo, hi, b), inr(lo, hi, c), 
        special(lo, hi, mx, a) || special(lo, hi, mx, b) || good(lo, hi, mx, a + b), special(lo, hi, mx, b) || special(lo, hi, mx, c) || good(lo, hi, mx, b + c),
    ensures wadd(lo, hi, mx, wadd(lo, hi, mx, a, b), c) == wadd(lo, hi, mx, a, wadd(lo, hi, mx, b, c)) {}
proof fn add_monotone(lo: int, hi: int, mx: bool, a: int, b: int, c: int)
    requires wtype(lo, hi), inr(lo, hi, a), inr(lo, hi, b), inr(lo, hi, c), !wless(lo, hi, mx, b, a),
        special(lo, hi, mx, a) || special(lo, hi, mx, c) || good(lo, hi, mx, a + c), special(lo, hi, mx, b) || special(lo, hi, mx, c) || good(lo, hi, mx, b + c),
    ensures !wless(lo, hi, mx, wadd(lo, hi, mx, b, c), wadd(lo, hi, mx, a, c)) {}
'''


def contracts(proved_in=None):
    out = []
    for ct, nm, lo, hi in TYPES:
        for mx in (False, True):
            P = '%dint, %dint, %s' % (lo, hi, 'true' if mx else 'false'); N = nm + ('_max' if mx else '_min')
            W = r'pdaaal::details::weight_impl<%s, %s, void>::' % (ct, '-1' if mx else '0')
            K = r'pdaaal::verif::consts<pdaaal::details::weight_impl<%s, %s>>::' % (ct, 'true' if mx else 'false')
            R = 'inr(%dint, %dint, lhs0);; inr(%dint, %dint, rhs0)' % (lo, hi, lo, hi)
            out.append(dict(name='less_' + N, fn=W + 'less', params=['lhs', 'rhs'], exact=True, requires=R, ensures='result == wless(%s, lhs0, rhs0)' % P, spec_call='wless', spec_args=P))
            signed_wide = lo < 0 and hi > 0x7fff
            # a sum that is not representable: undefined for int and wider (excluded); unspecified for the others
            out.append(dict(name='add_' + N, fn=W + 'add', params=['lhs', 'rhs'], exact=True, requires=R + (';; wfits(%s, lhs0, rhs0)' % P if signed_wide else ''),
                            ensures='wfits(%s, lhs0, rhs0) ==> result == wadd(%s, lhs0, rhs0);; inr(%dint, %dint, result)' % (P, P, lo, hi), spec_call='wadd', spec_args=P, spec_pre='wfits'))
            if not proved_in:
                out.append(dict(name='bottom_' + N, fn=K + 'bottom_', exact=True, ensures='result == wbot(%s)' % P))
                out.append(dict(name='max_' + N, fn=K + 'max_', exact=True, ensures='result == wmax(%s)' % P))
                out.append(dict(name='zero_' + N, fn=K + 'zero_', exact=True, ensures='result == 0'))
            else:
                for c in out[-2:]: c['proved_in'] = proved_in
    return out


def unit(ast):
    return Unit('weights', 'weights.cpp', contracts(), dict(exact=True), SPEC, LEMMAS, ast)
