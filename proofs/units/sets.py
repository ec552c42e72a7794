"""C01: vector_set and vector_map over an arbitrary totally ordered key type and an arbitrary value type."""
from unit import Unit
from vtypes import Ty

SPEC = r'''
pub struct KeyT { pub k: int }
pub struct ValT { pub v: int }
pub uninterp spec fn key_lt(a: KeyT, b: KeyT) -> bool;
// the documented requirement on keys: operator< is a strict total order (consistent with ==)
pub open spec fn key_order() -> bool {
    (forall|a: KeyT| #![trigger key_lt(a, a)] !key_lt(a, a))
    && (forall|a: KeyT, b: KeyT, c: KeyT| #![trigger key_lt(a, b), key_lt(b, c)] key_lt(a, b) && key_lt(b, c) ==> key_lt(a, c))
    && (forall|a: KeyT, b: KeyT| #![trigger key_lt(a, b)] key_lt(a, b) || a == b || key_lt(b, a))
}
pub open spec fn set_wf(s: Seq<KeyT>) -> bool { key_order() && forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> key_lt(s[i], s[j]) }
pub open spec fn map_wf(s: Seq<elem_t>) -> bool { key_order() && forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> key_lt(s[i].first, s[j].first) }
pub open spec fn has_key(s: Seq<elem_t>, k: KeyT) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == k }
pub open spec fn maps_to(s: Seq<elem_t>, k: KeyT, v: ValT) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == k && s[i].second == v }
'''
# histories: any sequence of operations keeps the representation equal to the mathematical set / map
LEMMAS = r'''
// a well-formed map representation is functional: one value per key
proof fn map_functional(s: Seq<elem_t>, k: KeyT, v: ValT, w: ValT)
    requires map_wf(s), maps_to(s, k, v), maps_to(s, k, w), ensures v == w
{
    let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == k && s[i].second == v;
    let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].first == k && s[j].second == w;
    if i < j { assert(key_lt(s[i].first, s[j].first)); } else if j < i { assert(key_lt(s[j].first, s[i].first)); }
}
'''
S = r'pdaaal::fut::vector_set<.*key_t>::'
M = r'pdaaal::fut::vector_map<.*key_t, .*val_t>::'
WS = 'set_wf(this0.elems)'
WM = 'map_wf(this0.elems)'
EMP = '''map_wf(this1.elems);; forall|k: KeyT, v: ValT| #[trigger] maps_to(this1.elems, k, v) <==> (maps_to(this0.elems, k, v) || (k == key0 && v == val0 && !has_key(this0.elems, key0)));;
   forall|k: KeyT| #[trigger] has_key(this1.elems, k) <==> (has_key(this0.elems, k) || k == key0);;
   result.1 == !has_key(this0.elems, key0);; 0 <= result.0 < this1.elems.len() && this1.elems[result.0].first == key0'''
ASG = '''map_wf(this1.elems);; forall|k: KeyT, v: ValT| #[trigger] maps_to(this1.elems, k, v) <==> (if k == key0 { v == val0 } else { maps_to(this0.elems, k, v) });;
   forall|k: KeyT| #[trigger] has_key(this1.elems, k) <==> (has_key(this0.elems, k) || k == key0);;
   result.1 == !has_key(this0.elems, key0);; 0 <= result.0 < this1.elems.len() && this1.elems[result.0].first == key0'''
LBM = '''0 <= result <= this0.elems.len();; forall|i: int| 0 <= i < result ==> key_lt((#[trigger] this0.elems[i]).first, key0);; forall|i: int| result <= i < this0.elems.len() ==> !key_lt((#[trigger] this0.elems[i]).first, key0)'''
EMPH = '''let s1 = this_.elems; let p = result_.0;
  if result_.1 {
    assert(s1[p].first == key && s1[p].second == val);
    assert forall|k: KeyT, v: ValT| #[trigger] maps_to(s1, k, v) <==> (maps_to(this0.elems, k, v) || (k == key && v == val)) by {
        if maps_to(s1, k, v) { let i = choose|i: int| #![trigger s1[i]] 0 <= i < s1.len() && s1[i].first == k && s1[i].second == v; if i < p { assert(this0.elems[i] == s1[i]); } else if i > p { assert(this0.elems[i - 1] == s1[i]); } }
        if maps_to(this0.elems, k, v) { let i = choose|i: int| #![trigger this0.elems[i]] 0 <= i < this0.elems.len() && this0.elems[i].first == k && this0.elems[i].second == v; if i < p { assert(s1[i] == this0.elems[i]); } else { assert(s1[i + 1] == this0.elems[i]); } }
    }
    assert forall|k: KeyT| #[trigger] has_key(s1, k) <==> (has_key(this0.elems, k) || k == key) by {
        if has_key(s1, k) { let i = choose|i: int| #![trigger s1[i]] 0 <= i < s1.len() && s1[i].first == k; assert(maps_to(s1, k, s1[i].second)); if maps_to(this0.elems, k, s1[i].second) {} }
        if has_key(this0.elems, k) { let i = choose|i: int| #![trigger this0.elems[i]] 0 <= i < this0.elems.len() && this0.elems[i].first == k; assert(maps_to(this0.elems, k, this0.elems[i].second)); assert(maps_to(s1, k, this0.elems[i].second)); }
    }
  }'''
ASGH = EMPH + '''
  if !result_.1 {
    assert(s1[p].first == key && s1[p].second == val);
    assert forall|k: KeyT, v: ValT| #[trigger] maps_to(s1, k, v) <==> (if k == key { v == val } else { maps_to(this0.elems, k, v) }) by {
        if maps_to(s1, k, v) { let i = choose|i: int| #![trigger s1[i]] 0 <= i < s1.len() && s1[i].first == k && s1[i].second == v; if i != p { assert(this0.elems[i] == s1[i]); } }
        if k != key && maps_to(this0.elems, k, v) { let i = choose|i: int| #![trigger this0.elems[i]] 0 <= i < this0.elems.len() && this0.elems[i].first == k && this0.elems[i].second == v; assert(i != p); assert(s1[i] == this0.elems[i]); }
    }
    assert forall|k: KeyT| #[trigger] has_key(s1, k) <==> (has_key(this0.elems, k) || k == key) by {
        if has_key(s1, k) { let i = choose|i: int| #![trigger s1[i]] 0 <= i < s1.len() && s1[i].first == k; assert(this0.elems[i].first == k); }
        if has_key(this0.elems, k) { let i = choose|i: int| #![trigger this0.elems[i]] 0 <= i < this0.elems.len() && this0.elems[i].first == k; assert(s1[i].first == k); }
    }
  }'''
KV = dict(params=['key', 'val'], requires=WM)
MEMP = dict(KV, ensures=EMP, hints={'return': EMPH})
MASG = dict(KV, ensures=ASG, hints={'return': ASGH})
lv = r'const pdaaal::verif::key_t &'
CONTRACTS = [
    dict(name='vset_emplace', fn=S + 'emplace', params=['key'], requires=WS,
         ensures='''set_wf(this1.elems);; forall|x: KeyT| #[trigger] this1.elems.contains(x) <==> (this0.elems.contains(x) || x == key0);;
            result.1 == !this0.elems.contains(key0);; 0 <= result.0 < this1.elems.len() && this1.elems[result.0] == key0''',
         hints={'return': '''if result_.1 { let s1 = this_.elems; let p = result_.0; assert(s1[p] == key);
            assert forall|x: KeyT| #[trigger] s1.contains(x) <==> (this0.elems.contains(x) || x == key) by {
              if s1.contains(x) { let i = choose|i: int| 0 <= i < s1.len() && s1[i] == x; if i < p { assert(this0.elems[i] == x); } else if i > p { assert(this0.elems[i - 1] == x); } }
              if this0.elems.contains(x) { let i = choose|i: int| 0 <= i < this0.elems.len() && this0.elems[i] == x; if i < p { assert(s1[i] == x); } else { assert(s1[i + 1] == x); } } } }'''}),
    dict(name='vset_contains', fn=S + 'contains', params=['key'], requires=WS, ensures='result == this0.elems.contains(key0)'),
    dict(name='vset_find', fn=S + 'find', const=False, params=['key'], requires=WS, ensures='''this1 == this0;; 0 <= result <= this0.elems.len();;
         (result < this0.elems.len()) == this0.elems.contains(key0);; result < this0.elems.len() ==> this0.elems[result] == key0'''),
    dict(name='vset_find_const', fn=S + 'find', const=True, params=['key'], requires=WS, ensures='''0 <= result <= this0.elems.len();;
         (result < this0.elems.len()) == this0.elems.contains(key0);; result < this0.elems.len() ==> this0.elems[result] == key0'''),
    dict(name='vset_lower_bound', fn=S + 'lower_bound', params=['key'], requires=WS, ensures='''0 <= result <= this0.elems.len();;
         forall|i: int| 0 <= i < result ==> key_lt(#[trigger] this0.elems[i], key0);; forall|i: int| result <= i < this0.elems.len() ==> !key_lt(#[trigger] this0.elems[i], key0)'''),
    dict(name='vset_resize', fn=S + 'resize', params=['count'], requires=WS + ';; 0 <= count0 <= this0.elems.len()', ensures='set_wf(this1.elems);; this1.elems == this0.elems.subrange(0, count0)'),
    dict(name='vset_clear', fn=S + 'clear', requires=WS, ensures='set_wf(this1.elems);; this1.elems.len() == 0'),
    dict(name='vset_size', fn=S + 'size', ensures='result == this0.elems.len()'),
    dict(name='vset_empty', fn=S + 'empty', ensures='result == (this0.elems.len() == 0)'),
    dict(name='vset_begin', fn=S + 'begin', const=False, ensures='result == 0;; this1 == this0'),
    dict(name='vset_end', fn=S + 'end', const=False, ensures='result == this0.elems.len();; this1 == this0'),
    dict(name='vset_begin_c', fn=S + 'begin', const=True, ensures='result == 0'),
    dict(name='vset_end_c', fn=S + 'end', const=True, ensures='result == this0.elems.len()'),
    dict(name='vset_at', fn=S + r'operator\[\]', const=False, params=['i'], requires='0 <= i0 < this0.elems.len()', ensures='result == this0.elems[i0];; this1 == this0'),
    dict(name='vset_at_c', fn=S + r'operator\[\]', const=True, params=['i'], requires='0 <= i0 < this0.elems.len()', ensures='result == this0.elems[i0]'),
    dict(name='vset_from_hash', fn=S + 'vector_set', sig=r'\(const std::unordered_set', params=['other'], requires='key_order()', ensures='set_wf(this1.elems);; forall|x: KeyT| #[trigger] this1.elems.contains(x) <==> other0.contains(x)',
         hints={'end': 'let s = this_.elems; assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies key_lt(s[i], s[j]) by { assert(!key_lt(s[j], s[i])); assert(s[i] != s[j]); }'}),
    dict(name='vset_from_hash_rv', fn=S + 'vector_set', sig=r'\(std::unordered_set', params=['other'], requires='key_order()', ensures='set_wf(this1.elems);; forall|x: KeyT| #[trigger] this1.elems.contains(x) <==> other0.contains(x)',
         hints={'end': 'let s = this_.elems; assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies key_lt(s[i], s[j]) by { assert(!key_lt(s[j], s[i])); assert(s[i] != s[j]); }'}),
    dict(MEMP, name='vmap_emplace', fn=M + 'emplace', sig=r'\(const'), dict(MEMP, name='vmap_emplace_rv', fn=M + 'emplace', sig=r'\((?!const)'),
    dict(MASG, name='vmap_assign', fn=M + 'insert_or_assign', sig=r'\(const'), dict(MASG, name='vmap_assign_rv', fn=M + 'insert_or_assign', sig=r'\((?!const)'),
    dict(KV, ensures=EMP, name='vmap_try_emplace', fn=M + 'try_emplace', sig=r'\(const'), dict(KV, ensures=EMP, name='vmap_try_emplace_rv', fn=M + 'try_emplace', sig=r'\((?!const)'),
    dict(name='vmap_contains', fn=M + 'contains', params=['key'], requires=WM, ensures='result == has_key(this0.elems, key0)'),
    dict(name='vmap_find', fn=M + 'find', const=False, params=['key'], requires=WM, ensures='''this1 == this0;; 0 <= result <= this0.elems.len();;
         (result < this0.elems.len()) == has_key(this0.elems, key0);; result < this0.elems.len() ==> this0.elems[result].first == key0'''),
    dict(name='vmap_find_const', fn=M + 'find', const=True, params=['key'], requires=WM, ensures='''0 <= result <= this0.elems.len();;
         (result < this0.elems.len()) == has_key(this0.elems, key0);; result < this0.elems.len() ==> this0.elems[result].first == key0'''),
    dict(name='vmap_lower_bound', fn=M + 'lower_bound', params=['key'], requires=WM, ensures=LBM),
    dict(name='vmap_resize', fn=M + 'resize', params=['count'], requires=WM + ';; 0 <= count0 <= this0.elems.len()', ensures='map_wf(this1.elems);; this1.elems == this0.elems.subrange(0, count0)'),
    dict(name='vmap_clear', fn=M + 'clear', requires=WM, ensures='map_wf(this1.elems);; this1.elems.len() == 0'),
    dict(name='vmap_size', fn=M + 'size', ensures='result == this0.elems.len()'),
    dict(name='vmap_empty', fn=M + 'empty', ensures='result == (this0.elems.len() == 0)'),
    dict(name='vmap_begin', fn=M + 'begin', const=False, ensures='result == 0;; this1 == this0'),
    dict(name='vmap_end', fn=M + 'end', const=False, ensures='result == this0.elems.len();; this1 == this0'),
    dict(name='vmap_begin_c', fn=M + 'begin', const=True, ensures='result == 0'),
    dict(name='vmap_end_c', fn=M + 'end', const=True, ensures='result == this0.elems.len()'),
    dict(name='vmap_at', fn=M + r'operator\[\]', const=False, params=['i'], requires='0 <= i0 < this0.elems.len()', ensures='result == this0.elems[i0];; this1 == this0'),
    dict(name='vmap_at_c', fn=M + r'operator\[\]', const=True, params=['i'], requires='0 <= i0 < this0.elems.len()', ensures='result == this0.elems[i0]'),
] + [dict(name=nm, fn=M + 'vector_map', sig=sg, params=['other'], requires='key_order()', ensures='map_wf(this1.elems);; forall|k: KeyT, v: ValT| #[trigger] maps_to(this1.elems, k, v) <==> (other0.dom().contains(k) && other0[k] == v)',
         hints={'end': '''let s = this_.elems;
           assert(u_.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < u_.len() && 0 <= j < u_.len() && i != j implies u_[i] != u_[j] by { assert(enum1_[i].0 != enum1_[j].0) by { if i < j {} else { assert(enum1_[j].0 != enum1_[i].0); } } } }
           assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies key_lt(s[i].first, s[j].first) by { assert(!key_lt(s[j].first, s[i].first)); assert(s.contains(s[i]) && s.contains(s[j])); assert(s[i] != s[j]); 
               let a = choose|a: int| 0 <= a < enum1_.len() && enum1_[a].0 == s[i].first && enum1_[a].1 == s[i].second; let b = choose|b: int| 0 <= b < enum1_.len() && enum1_[b].0 == s[j].first && enum1_[b].1 == s[j].second; }
           assert forall|k: KeyT, v: ValT| #[trigger] maps_to(s, k, v) <==> (other.dom().contains(k) && other[k] == v) by {
             if maps_to(s, k, v) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == k && s[i].second == v; assert(s.contains(s[i])); }
             if other.dom().contains(k) && other[k] == v { assert(enum1_.contains((k, v))); let a = choose|a: int| 0 <= a < enum1_.len() && enum1_[a] == (k, v); let e = elem_t { first: k, second: v }; assert(u_[a] == e); assert(u_.contains(e)); assert(s.contains(e)); } }''',
                'constructed': 'raw:let ghost u_ = this_.elems;'}) for nm, sg in (('vmap_from_hash', r'\(const std::unordered_map'), ('vmap_from_hash_rv', r'\(std::unordered_map'))]


def unit(ast):
    cfg = dict(types=[(r'(pdaaal::)?(verif::)?key_t', lambda T, m: Ty('raw', name='KeyT')), (r'(pdaaal::)?(verif::)?val_t', lambda T, m: Ty('raw', name='ValT'))],
               raw_less={'KeyT': 'key_lt'},
               builtins=[(r'.*verif::operator<', lambda fn, d, n, args, want, me, th: 'key_lt(%s, %s)' % tuple(fn.rvs(args))),
                         (r'.*verif::operator==', lambda fn, d, n, args, want, me, th: '(%s == %s)' % tuple(fn.rvs(args))),
                         (r'.*verif::operator!=', lambda fn, d, n, args, want, me, th: '(%s != %s)' % tuple(fn.rvs(args)))])
    return Unit('sets', 'sets.cpp', CONTRACTS, cfg, SPEC, LEMMAS, ast)
