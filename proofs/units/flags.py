"""U01: flag masks of every width 1..64."""
from unit import Unit
from c2v import kids
SPEC = r'''
pub open spec fn bit(m: int, i: int) -> bool { ((m as u64) >> (i as u64)) & 1u64 == 1u64 }
pub open spec fn p2(i: int) -> int { (1u64 << (i as u64)) as int }
pub open spec fn subm(v: int, m: int) -> bool { forall|i: int| #![trigger bit(v, i)] 0 <= i < 64 && bit(v, i) ==> bit(m, i) }
pub open spec fn fl(m: int, n: int, v: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] isp(j, v) && bit(m, j) }
pub open spec fn isp(j: int, v: int) -> bool { p2(j) == v }
pub open spec fn hasp(s: Seq<int>, j: int) -> bool { s.contains(p2(j)) }
pub open spec fn rng(m: int, full: int) -> bool { 0 <= m <= full }
'''
B = lambda e, i: '((%s >> %s) & 1u64 == 1u64)' % (e, i)
LEMMAS = r'''
proof fn or_bits(a: int, b: int, full: int) requires rng(a, full), rng(b, full), full == 0xff || full == 0xffff || full == 0xffff_ffff || full == 0xffff_ffff_ffff_ffff, ensures rng(ubor64(a, b), full), forall|i: int| #![trigger bit(ubor64(a, b), i)] 0 <= i < 64 ==> bit(ubor64(a, b), i) == (bit(a, i) || bit(b, i))
{ let x = a as u64; let y = b as u64;
  assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(ubor64(a, b), i) == (bit(a, i) || bit(b, i)) by { let k = i as u64; assert((((x | y) >> k) & 1u64 == 1u64) == (((x >> k) & 1u64 == 1u64) || ((y >> k) & 1u64 == 1u64))) by (bit_vector); }
  let f = full as u64; assert(f == 0xff || f == 0xffff || f == 0xffff_ffff || f == 0xffff_ffff_ffff_ffff); assert(x | y <= f) by (bit_vector) requires x <= f, y <= f, f == 0xff || f == 0xffff || f == 0xffff_ffff || f == 0xffff_ffff_ffff_ffff; }
proof fn and_bits(a: int, b: int, full: int) requires rng(a, full), rng(b, full), full <= 0xffff_ffff_ffff_ffff, ensures rng(uband64(a, b), full), forall|i: int| #![trigger bit(uband64(a, b), i)] 0 <= i < 64 ==> bit(uband64(a, b), i) == (bit(a, i) && bit(b, i))
{ let x = a as u64; let y = b as u64;
  assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(uband64(a, b), i) == (bit(a, i) && bit(b, i)) by { let k = i as u64; assert((((x & y) >> k) & 1u64 == 1u64) == (((x >> k) & 1u64 == 1u64) && ((y >> k) & 1u64 == 1u64))) by (bit_vector); }
  assert(x & y <= x) by (bit_vector); }
// complement within the width
proof fn not_bits(f: int, full: int) requires rng(f, full), full == 0xff || full == 0xffff || full == 0xffff_ffff || full == 0xffff_ffff_ffff_ffff,
    ensures rng(full - f, full), forall|i: int| #![trigger bit(full - f, i)] 0 <= i < 64 ==> bit(full - f, i) == (bit(full, i) && !bit(f, i)), full == 0xffff_ffff ==> ubnot32(f) == full - f, full == 0xffff_ffff_ffff_ffff ==> ubnot64(f) == full - f
{ let x = f as u64; let u = full as u64;
  assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(full - f, i) == (bit(full, i) && !bit(f, i)) by { let k = i as u64; assert((full - f) as u64 == sub(u, x));
    assert(((sub(u, x) >> k) & 1u64 == 1u64) == (((u >> k) & 1u64 == 1u64) && !((x >> k) & 1u64 == 1u64))) by (bit_vector) requires x <= u, u == 0xff || u == 0xffff || u == 0xffff_ffff || u == 0xffff_ffff_ffff_ffff; }
  if full == 0xffff_ffff { let z = f as u32; assert(!z == sub(0xffff_ffffu32, z)) by (bit_vector); }
  if full == 0xffff_ffff_ffff_ffff { assert(!x == sub(0xffff_ffff_ffff_ffffu64, x)) by (bit_vector); } }
// bits of a mask within the width
proof fn width_bits(m: int, full: int) requires rng(m, full), full == 0xff || full == 0xffff || full == 0xffff_ffff || full == 0xffff_ffff_ffff_ffff, ensures forall|i: int| #![trigger bit(m, i)] 0 <= i < 64 && bit(m, i) ==> bit(full, i)
{ let x = m as u64; let u = full as u64;
  assert forall|i: int| 0 <= i < 64 && #[trigger] bit(m, i) implies bit(full, i) by { let k = i as u64; assert((u >> k) & 1u64 == 1u64) by (bit_vector) requires x <= u, (x >> k) & 1u64 == 1u64, u == 0xff || u == 0xffff || u == 0xffff_ffff || u == 0xffff_ffff_ffff_ffff; } }
proof fn nonzero(m: int) requires rng(m, 0xffff_ffff_ffff_ffff), ensures (m != 0) == (exists|i: int| 0 <= i < 64 && #[trigger] bit(m, i))
{ let x = m as u64;
  if forall|i: int| 0 <= i < 64 ==> !#[trigger] bit(m, i) { ALLASSERT assert(x == 0) by (bit_vector) requires ALLREQ; }
  if m == 0 { assert forall|i: int| 0 <= i < 64 implies !#[trigger] bit(m, i) by { let k = i as u64; assert(!((0u64 >> k) & 1u64 == 1u64)) by (bit_vector); } } }
proof fn same_bits(a: int, b: int) requires rng(a, 0xffff_ffff_ffff_ffff), rng(b, 0xffff_ffff_ffff_ffff), forall|i: int| #![trigger bit(a, i)] #![trigger bit(b, i)] 0 <= i < 64 ==> bit(a, i) == bit(b, i), ensures a == b
{ let x = a as u64; let y = b as u64; let z = x ^ y; let c = z as int; nonzero(c);
  if c != 0 { let i = choose|i: int| 0 <= i < 64 && bit(c, i); let k = i as u64; assert(((x >> k) & 1u64 == 1u64) == ((y >> k) & 1u64 == 1u64)) by { assert(bit(a, i) == bit(b, i)); } assert(!(((x ^ y) >> k) & 1u64 == 1u64)) by (bit_vector) requires ((x >> k) & 1u64 == 1u64) == ((y >> k) & 1u64 == 1u64); }
  assert(x == y) by (bit_vector) requires x ^ y == 0; }
// (mask & value) == value: every flag of value is in the mask
proof fn subset_bits(m: int, v: int) requires rng(m, 0xffff_ffff_ffff_ffff), rng(v, 0xffff_ffff_ffff_ffff), ensures (uband64(m, v) == v) == subm(v, m)
{ and_bits(m, v, 0xffff_ffff_ffff_ffff);
  if uband64(m, v) == v { assert forall|i: int| #![trigger bit(v, i)] 0 <= i < 64 && bit(v, i) implies bit(m, i) by { assert(bit(uband64(m, v), i)); } }
  if forall|i: int| #![trigger bit(v, i)] 0 <= i < 64 && bit(v, i) ==> bit(m, i) { same_bits(uband64(m, v), v); } }
proof fn pow_bits(j: int) requires 0 <= j < 64, ensures 0 < p2(j) <= 0xffff_ffff_ffff_ffff, forall|i: int| #![trigger bit(p2(j), i)] 0 <= i < 64 ==> bit(p2(j), i) == (i == j), ubshl64(1, j) == p2(j), j < 32 ==> ubshl32(1, j) == p2(j), j < 31 ==> p2(j) < 0x8000_0000, j < 32 ==> p2(j) <= 0x8000_0000, j < 16 ==> p2(j) <= 0x8000, j < 8 ==> p2(j) <= 0x80
{ let q = j as u64; assert((1u64 << q) > 0) by (bit_vector) requires q < 64;
  assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(p2(j), i) == (i == j) by { let k = i as u64; assert((((1u64 << q) >> k) & 1u64 == 1u64) == (k == q)) by (bit_vector) requires q < 64, k < 64; }
  if j < 32 { let z = j as u32; assert((1u32 << z) as u64 == (1u64 << (z as u64))) by (bit_vector) requires z < 32; assert((1u64 << q) <= 0x8000_0000) by (bit_vector) requires q < 32; }
  if j < 31 { assert((1u64 << q) < 0x8000_0000) by (bit_vector) requires q < 31; } if j < 16 { assert((1u64 << q) <= 0x8000) by (bit_vector) requires q < 16; } if j < 8 { assert((1u64 << q) <= 0x80) by (bit_vector) requires q < 8; } }
proof fn pow_less(i: int, j: int) requires 0 <= i < j < 64, ensures p2(i) < p2(j) { let a = i as u64; let b = j as u64; assert((1u64 << a) < (1u64 << b)) by (bit_vector) requires a < b, b < 64; }
// 2^n - 1 has exactly the bits below n
proof fn ones(n: int) requires 0 <= n < 64, ensures p2(n) >= 1, forall|i: int| #![trigger bit(p2(n) - 1, i)] 0 <= i < 64 ==> bit(p2(n) - 1, i) == (i < n)
{ pow_bits(n); let q = n as u64; assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(p2(n) - 1, i) == (i < n) by { let k = i as u64; assert((p2(n) - 1) as u64 == sub(1u64 << q, 1)); assert(((sub(1u64 << q, 1) >> k) & 1u64 == 1u64) == (k < q)) by (bit_vector) requires q < 64, k < 64; } }
proof fn single(m: int) requires 0 < m <= 0xffff_ffff_ffff_ffff,
    ensures (uband64(m, m - 1) == 0) == (exists|j: int| 0 <= j < 64 && m == #[trigger] p2(j))
{ let x = m as u64; let y = (m - 1) as u64; assert(y == sub(x, 1)); 
  if uband64(m, m - 1) == 0 { nonzero(m); let j = choose|j: int| 0 <= j < 64 && bit(m, j); let q = j as u64; assert((1u64 << q) == x) by (bit_vector) requires x & sub(x, 1) == 0, (x >> q) & 1u64 == 1u64, q < 64; assert(m == p2(j)); }
  if exists|j: int| 0 <= j < 64 && m == #[trigger] p2(j) { let j = choose|j: int| 0 <= j < 64 && m == #[trigger] p2(j); let q = j as u64; assert((1u64 << q) & sub(1u64 << q, 1) == 0) by (bit_vector) requires q < 64; } }
'''.replace('ALLASSERT', ' '.join('assert(!bit(m, %dint));' % i for i in range(64))).replace('ALLREQ', ', '.join('!((x >> %du64) & 1u64 == 1u64)' % i for i in range(64)))


def contracts():
    out = []
    for N in range(1, 65):
        bits = 8 if N <= 8 else 16 if N <= 16 else 32 if N <= 32 else 64
        full = '0x%xint' % ((1 << bits) - 1); F = r'pdaaal::utils::flags<%d>::' % N; M = r'pdaaal::utils::flag_mask<%d>::' % N
        R = lambda *v: ';; '.join('rng(%s, %s)' % (x, full) for x in v)
        tmpl = lambda I: (lambda u, d: [c.get('value') for c in kids(d) if c['kind'] == 'TemplateArgument'] == [I])
        W = 'rng(%s, 0x%xint)' % ('this0._mask', (1 << N) - 1)
        out += [
            dict(name='flag_%d' % N, fn=F + 'flag', nparams=1, params=['i'], exact=True, requires='0 <= i0 <= %d' % N, ensures='result == (if i0 == 0 { 0 } else { p2(i0 - 1) })', hints={'begin': 'if i0 > 0 { pow_bits(i0 - 1); }'}),
            dict(name='flag_t_%d' % N, fn=F + 'flag', nparams=0, pick=tmpl(N), exact=True, ensures='result == p2(%d)' % (N - 1), hints={'begin': 'pow_bits(%d);' % (N - 1)}, optional=True),
            dict(name='fill_%d' % N, fn=F + 'fill', nparams=1, params=['n'], exact=True, requires='0 <= n0 <= %d' % N, ensures='%s;; forall|j: int| #![trigger bit(result, j)] 0 <= j < 64 ==> bit(result, j) == (j < n0)' % R('result'),
                 hints={'begin': 'nonzero(0); if n0 < 64 { pow_bits(n0); ones(n0); } if n0 > 0 { pow_bits(n0 - 1); ones(n0 - 1); or_bits(p2(n0 - 1), p2(n0 - 1) - 1, %s); }' % full}),
            dict(name='mask_%d' % N, fn=M + 'flag_mask', nparams=1, params=['mask'], sig='.*flag_t.*', exact=True, ensures='this1._mask == mask0'),
            dict(name='fill_t_%d' % N, fn=F + 'fill', nparams=0, pick=tmpl(N), exact=True, ensures='%s;; forall|j: int| #![trigger bit(result, j)] 0 <= j < 64 ==> bit(result, j) == (j < %d)' % (R('result'), N), hints={'begin': 'pow_bits(%d); nonzero(0); ones(%d); or_bits(p2(%d), p2(%d) - 1, %s);' % (N - 1, N - 1, N - 1, N - 1, full)}),
            *([dict(name='fill_s_%d' % N, fn=F + 'fill', nparams=0, pick=tmpl(N - 1), exact=True, ensures='result == p2(%d) - 1' % (N - 1), hints={'begin': 'pow_bits(%d); assert(1u64 << 0u64 == 1u64) by (bit_vector);' % (N - 1)})]),
            dict(name='add_%d' % N, fn=F + 'add', params=['mask', 'flag'], exact=True, requires=R('mask0', 'flag0'), ensures='%s;; forall|i: int| #![trigger bit(mask1, i)] 0 <= i < 64 ==> bit(mask1, i) == (bit(mask0, i) || bit(flag0, i))' % R('mask1'), hints={'begin': 'or_bits(mask0, flag0, %s);' % full}),
            dict(name='remove_%d' % N, fn=F + 'remove', params=['mask', 'flag'], exact=True, requires=R('mask0', 'flag0'), ensures='%s;; mask1 <= mask0;; forall|i: int| #![trigger bit(mask1, i)] 0 <= i < 64 ==> bit(mask1, i) == (bit(mask0, i) && !bit(flag0, i))' % R('mask1'),
                 hints={'begin': 'not_bits(flag0, %s); and_bits(mask0, %s - flag0, %s); width_bits(mask0, %s); and_le(mask0, %s - flag0);' % ((full,) * 5)}),
            dict(name='select_%d' % N, fn=F + 'select', params=['mask', 'flag'], exact=True, requires=R('mask0', 'flag0'), ensures='%s;; result == uband64(mask0, flag0);; forall|i: int| #![trigger bit(result, i)] 0 <= i < 64 ==> bit(result, i) == (bit(mask0, i) && bit(flag0, i))' % R('result'), hints={'begin': 'and_bits(mask0, flag0, %s);' % full}),
            dict(name='contains_%d' % N, fn=F + 'contains', params=['mask', 'flag'], exact=True, requires=R('mask0', 'flag0'), ensures='result == subm(flag0, mask0)', hints={'begin': 'subset_bits(mask0, flag0);'}),
            dict(name='is_single_%d' % N, fn=F + 'is_single_flag', params=['x'], exact=True, requires=R('x0'), ensures='result == (exists|j: int| 0 <= j < 64 && x0 == #[trigger] p2(j))', hints={'begin': 'if x0 > 0 { single(x0); } else { assert forall|j: int| 0 <= j < 64 implies #[trigger] p2(j) != 0 by { pow_bits(j); } }'}),
            dict(name='split_%d' % N, fn=F + 'split_to_single_flags', params=['mask'], exact=True, requires='rng(mask0, 0x%xint)' % ((1 << N) - 1),
                 ensures='''forall|k: int| #![trigger result[k]] 0 <= k < result.len() ==> fl(mask0, %d, result[k]);; forall|j: int| 0 <= j < 64 && bit(mask0, j) ==> #[trigger] hasp(result, j);;
                    forall|k: int, l: int| #![trigger result[k], result[l]] 0 <= k < l < result.len() ==> result[k] < result[l]''' % N,
                 loops={1: '''0 <= i <= %d;; forall|k: int| #![trigger flags[k]] 0 <= k < flags.len() ==> fl(mask0, i, flags[k]);; forall|j: int| 0 <= j < i && bit(mask0, j) ==> #[trigger] hasp(flags, j);;
                    forall|k: int, l: int| #![trigger flags[k], flags[l]] 0 <= k < l < flags.len() ==> flags[k] < flags[l]''' % N},
                 hints={'loop 1 begin': 'raw:let ghost old_flags = flags; proof { pow_bits(i); one_flag(mask0, i); }', 'loop 1 end': 'grow(old_flags, flags, p2(i), i); assert(isp(i, p2(i))); assert forall|j: int| 0 <= j <= i && bit(mask0, j) implies #[trigger] hasp(flags, j) by { if j < i { assert(hasp(old_flags, j)); } } assert forall|k: int| 0 <= k < old_flags.len() implies #[trigger] old_flags[k] < p2(i) by { let j = choose|j: int| 0 <= j < i && #[trigger] isp(j, old_flags[k]) && bit(mask0, j); pow_less(j, i); }',
                        'return': (('assert(1u64 << %du64 == 0x%xu64) by (bit_vector); ' % (N, 1 << N)) if N < 64 else '') + 'high_bits(mask0, %d);' % N}),
            dict(name='got_%d' % N, fn=M + 'got_flag', params=['value'], exact=True, requires='%s;; %s' % (W, R('value0')), ensures='rng(this1._mask, 0x%xint);; forall|i: int| #![trigger bit(this1._mask, i)] 0 <= i < 64 ==> bit(this1._mask, i) == (bit(this0._mask, i) && !bit(value0, i))' % ((1 << N) - 1)),
            dict(name='needs_%d' % N, fn=M + 'needs_flag', params=['value'], exact=True, requires='%s;; %s' % (W, R('value0')), ensures='result == subm(value0, this0._mask)'),
            dict(name='missing_%d' % N, fn=M + 'has_missing_flags', exact=True, requires=W, ensures='result == (exists|i: int| 0 <= i < 64 && #[trigger] bit(this0._mask, i))', hints={'begin': 'nonzero(this0._mask);'}),
            dict(name='get_missing_%d' % N, fn=M + 'get_missing_flags', exact=True, requires=W, ensures='''forall|k: int| #![trigger result[k]] 0 <= k < result.len() ==> fl(this0._mask, %d, result[k]);; forall|j: int| 0 <= j < 64 && bit(this0._mask, j) ==> #[trigger] hasp(result, j);;
                    forall|k: int, l: int| #![trigger result[k], result[l]] 0 <= k < l < result.len() ==> result[k] < result[l]''' % N),
        ]
    return out


LEMMAS += r'''
proof fn and_le(a: int, b: int) requires rng(a, 0xffff_ffff_ffff_ffff), rng(b, 0xffff_ffff_ffff_ffff), ensures uband64(a, b) <= a { let x = a as u64; let y = b as u64; assert(x & y <= x) by (bit_vector); }
proof fn one_flag(m: int, i: int) requires rng(m, 0xffff_ffff_ffff_ffff), 0 <= i < 64, ensures (uband64(m, p2(i)) == p2(i)) == bit(m, i), subm(p2(i), m) == bit(m, i)
{ pow_bits(i); subset_bits(m, p2(i)); assert(bit(p2(i), i)); }
proof fn grow(o: Seq<int>, n: Seq<int>, x: int, i: int) ensures n == o.push(x) ==> (n.contains(x) && forall|y: int| #[trigger] o.contains(y) ==> n.contains(y))
{ if n == o.push(x) { assert(n[o.len() as int] == x); assert forall|y: int| #[trigger] o.contains(y) implies n.contains(y) by { let k = choose|k: int| 0 <= k < o.len() && o[k] == y; assert(n[k] == y); } } }
proof fn high_bits(m: int, n: int) requires 0 < n <= 64, 0 <= m <= 0xffff_ffff_ffff_ffff, n < 64 ==> m < p2(n), ensures forall|j: int| #![trigger bit(m, j)] 0 <= j < 64 && bit(m, j) ==> j < n
{ if n < 64 { let x = m as u64; let q = n as u64; assert forall|j: int| #![trigger bit(m, j)] 0 <= j < 64 && bit(m, j) implies j < n by { let k = j as u64; assert(k < q) by (bit_vector) requires x < 1u64 << q, (x >> k) & 1u64 == 1u64, q < 64, k < 64; } } }
'''


def unit(ast):
    return Unit('flags', 'flags.cpp', contracts(), {}, SPEC, LEMMAS, ast)
