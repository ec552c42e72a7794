"""C02: tuple sets. Base cases (hash and vector, map and set) over arbitrary keys and values; recursive case (hash and vector) over an arbitrary inner tuple set."""
from unit import Unit
from vtypes import Ty
from proofs.units.sets import SPEC as SETS, EMP, EMPH, ASG, ASGH, CONTRACTS as SC

SPEC = SETS + r'''
pub struct TailT { pub t: int }
pub struct ArgsT { pub a: int }
pub struct ResT { pub r: int }
pub struct InnerT { pub i: int }
// the operations of the inner tuple set, about which nothing is assumed but that they are functions of their arguments
// and that a new inner set contains nothing
pub open spec fn i_new() -> InnerT { raw_default::<InnerT>() }
pub uninterp spec fn i_emplace(x: InnerT, a: ArgsT) -> InnerT;
pub uninterp spec fn i_emplace_res(x: InnerT, a: ArgsT) -> ResT;
pub uninterp spec fn i_assign(x: InnerT, a: ArgsT) -> InnerT;
pub uninterp spec fn i_assign_res(x: InnerT, a: ArgsT) -> ResT;
pub uninterp spec fn i_get(x: InnerT, t: TailT) -> Option<ValT>;
pub open spec fn i_contains(x: InnerT, t: TailT) -> bool { i_get(x, t).is_some() }
pub open spec fn inner_ok() -> bool { forall|t: TailT| #[trigger] i_get(i_new(), t) == None::<ValT> }
// the inner set stored under a head (a new one if there is none)
pub open spec fn at_h(s: Map<KeyT, InnerT>, h: KeyT) -> InnerT { if s.dom().contains(h) { s[h] } else { i_new() } }
pub open spec fn pos(s: Seq<relem_t>, h: KeyT) -> int { choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == h }
pub open spec fn in_v(s: Seq<relem_t>, h: KeyT) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == h }
pub open spec fn at_v(s: Seq<relem_t>, h: KeyT) -> InnerT { if in_v(s, h) { s[pos(s, h)].second } else { i_new() } }
pub open spec fn rwf(s: Seq<relem_t>) -> bool { key_order() && forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> key_lt(s[i].first, s[j].first) }
// the relation denoted by an outer set
pub open spec fn rel_h(s: Map<KeyT, InnerT>, h: KeyT, t: TailT) -> Option<ValT> { i_get(at_h(s, h), t) }
pub open spec fn rel_v(s: Seq<relem_t>, h: KeyT, t: TailT) -> Option<ValT> { i_get(at_v(s, h), t) }
pub open spec fn vval(s: Seq<elem_t>, k: KeyT) -> Option<ValT> { if has_key(s, k) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].first == k; Some(s[i].second) } else { None } }
'''
LEMMAS = r'''
proof fn upos(s: Seq<relem_t>, i: int) requires rwf(s), 0 <= i < s.len(), ensures in_v(s, s[i].first), pos(s, s[i].first) == i
{ let h = s[i].first; assert(s[i].first == h); let j = pos(s, h); assert(0 <= j < s.len() && s[j].first == h); if i < j { assert(key_lt(s[i].first, s[j].first)); } else if j < i { assert(key_lt(s[j].first, s[i].first)); } }
proof fn all_pos(s: Seq<relem_t>) requires rwf(s), ensures forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> in_v(s, s[i].first) && pos(s, s[i].first) == i && at_v(s, s[i].first) == s[i].second
{ assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies in_v(s, s[i].first) && pos(s, s[i].first) == i && at_v(s, s[i].first) == s[i].second by { upos(s, i); } }
// one entry added at position p
proof fn ins_at(o: Seq<relem_t>, s: Seq<relem_t>, p: int) requires rwf(o), rwf(s), 0 <= p <= o.len(), s == o.insert(p, s[p]), s[p].second == i_new(), ensures forall|h: KeyT| #[trigger] at_v(s, h) == at_v(o, h), forall|h: KeyT| #[trigger] in_v(s, h) <==> in_v(o, h) || h == s[p].first
{ all_pos(s); all_pos(o);
  assert forall|h: KeyT| #[trigger] in_v(s, h) <==> in_v(o, h) || h == s[p].first by {
    if in_v(s, h) { let i = pos(s, h); if i < p { assert(o[i] == s[i]); } else if i > p { assert(o[i - 1] == s[i]); } }
    if in_v(o, h) { let i = pos(o, h); if i < p { assert(s[i] == o[i]); } else { assert(s[i + 1] == o[i]); } } if h == s[p].first { assert(s[p].first == h); } }
  assert forall|h: KeyT| #[trigger] at_v(s, h) == at_v(o, h) by {
    if in_v(o, h) { let i = pos(o, h); assert(0 <= i < o.len() && o[i].first == h); if i < p { assert(s[i] == o[i]); upos(s, i); } else { assert(s[i + 1] == o[i]); upos(s, i + 1); } }
    else if in_v(s, h) { assert(h == s[p].first); upos(s, p); } } }
// one entry's inner set replaced
proof fn upd_at(o: Seq<relem_t>, s: Seq<relem_t>, p: int, x: InnerT) requires rwf(o), 0 <= p < o.len(), s.len() == o.len(), s[p].first == o[p].first, s[p].second == x, forall|i: int| #![trigger s[i]] 0 <= i < s.len() && i != p ==> s[i] == o[i],
    ensures rwf(s), forall|h: KeyT| #[trigger] at_v(s, h) == (if h == o[p].first { x } else { at_v(o, h) }), forall|h: KeyT| #[trigger] in_v(s, h) == in_v(o, h)
{ assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i].first == o[i].first by {}
  assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies key_lt(s[i].first, s[j].first) by { assert(key_lt(o[i].first, o[j].first)); }
  all_pos(s); all_pos(o);
  assert forall|h: KeyT| #[trigger] in_v(s, h) == in_v(o, h) by { if in_v(s, h) { let i = pos(s, h); assert(o[i].first == h); } if in_v(o, h) { let i = pos(o, h); assert(s[i].first == h); } }
  assert forall|h: KeyT| #[trigger] at_v(s, h) == (if h == o[p].first { x } else { at_v(o, h) }) by { if in_v(o, h) { let i = pos(o, h); assert(o[i].first == h); upos(s, i); assert(s[i].first == h); if i == p {} else { upos(o, p); } } else { if h == o[p].first { assert(o[p].first == h); } } } }
proof fn vpos(s: Seq<elem_t>, i: int) requires map_wf(s), 0 <= i < s.len(), ensures has_key(s, s[i].first), vval(s, s[i].first) == Some(s[i].second)
{ let k = s[i].first; assert(s[i].first == k); let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].first == k; if i < j { assert(key_lt(s[i].first, s[j].first)); } else if j < i { assert(key_lt(s[j].first, s[i].first)); } }
// a tuple is present under the outer set exactly if the inner set of its head contains the tail, and an operation on one
// head leaves the tuples of every other head alone: with the contracts this lifts every law of the inner set to the outer set
proof fn lift_h(o: Map<KeyT, InnerT>, s: Map<KeyT, InnerT>, head: KeyT, a: ArgsT) requires forall|h: KeyT| #[trigger] at_h(s, h) == (if h == head { i_emplace(at_h(o, h), a) } else { at_h(o, h) }),
    ensures forall|h: KeyT, t: TailT| #[trigger] rel_h(s, h, t) == (if h == head { i_get(i_emplace(at_h(o, head), a), t) } else { rel_h(o, h, t) }) {}
'''
R = lambda c: r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::verif::key_t, pdaaal::verif::tail_t>, %d, 0>::' % c
MB = lambda c: r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::verif::key_t, pdaaal::verif::val_t>, %d>::' % c
SB = lambda c: r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::verif::key_t>, %d>::' % c
VR = r'pdaaal::fut::vector_map<pdaaal::verif::key_t, pdaaal::fut::detail::fut_set<.*tail_t>, .*>>::'
VEMP = '''rwf(this1.elems);; forall|h: KeyT| #[trigger] at_v(this1.elems, h) == at_v(this0.elems, h);; forall|h: KeyT| #[trigger] in_v(this1.elems, h) <==> in_v(this0.elems, h) || h == key0;;
   result.1 == !in_v(this0.elems, key0);; 0 <= result.0 < this1.elems.len() && this1.elems[result.0].first == key0 && this1.elems[result.0].second == at_v(this0.elems, key0)'''
VE = dict(params=['key'], nparams=1, requires='rwf(this0.elems)', ensures=VEMP, hints={'return': 'all_pos(this0.elems); if result_.1 { ins_at(this0.elems, this_.elems, result_.0); } '})


def rec(c):
    at, s, wf = (('at_h', '%s.elems', ''), ('at_v', '%s.elems.elems', 'rwf(this0.elems.elems)'))[c]; k = 'hv'[c]
    A = lambda w, h: '%s(%s, %s)' % (at, s % w, h)
    keep = ';; rwf(this1.elems.elems)' if c else ''
    op = lambda f: 'forall|h: KeyT| #[trigger] %s == (if h == head0 { i_%s(%s, args0) } else { %s });; result == i_%s_res(%s, args0)%s' % (A('this1', 'h'), f, A('this0', 'head0'), A('this0', 'h'), f, A('this0', 'head0'), keep)
    hint = {'before return': ''} if not c else {}
    out = []
    for nm, f in (('emplace', 'emplace'), ('insert_or_assign', 'assign')):
        for suf, sig in (('', r'.*\(const'), ('_rv', r'[^(]*\((?!const)')):
            out.append(dict(name='%s_%s%s' % (f, k, suf), fn=R(c) + nm, sig=sig, params=['head', 'args'], requires=(wf + ';; ' if wf else '') + 'inner_ok()', ensures=op(f),
                            hints={'return': 'let o = this0.elems.elems; let n = this_.elems.elems; let p = choose|p: int| #![trigger n[p]] 0 <= p < n.len() && n[p].first == head; all_pos(mid_); upd_at(mid_, n, pos(mid_, head), i_%s(%s, args));' % (f, A('this0', 'head'))} if c else {}))
            if c: out[-1]['hints']['after vrec_try%s 1' % suf] = 'raw:let ghost mid_ = this_.elems.elems;'
    W = (wf + ';; ' if wf else '') + 'inner_ok()'
    G = {'begin': 'all_pos(this0.elems.elems);'} if c else {}
    out += [
        dict(name='contains_' + k, fn=R(c) + 'contains', params=['head', 'tail'], requires=W, ensures='result == i_contains(%s, tail0)' % A('this0', 'head0'), hints=G),
        dict(name='get_c_' + k, fn=R(c) + 'get', const=True, params=['head', 'tail'], requires=W, ensures='result == i_get(%s, tail0)' % A('this0', 'head0'), hints=G),
        dict(name='get_' + k, fn=R(c) + 'get', const=False, params=['head', 'tail'], requires=W, ensures='result == i_get(%s, tail0);; this1 == this0' % A('this0', 'head0'), hints=G),
        dict(name='clear_' + k, fn=R(c) + 'clear', ensures=('forall|h: KeyT| #[trigger] %s == i_new()' % A('this1', 'h')) + (';; this1.elems.elems.len() == 0' if c else '')),
        dict(name='empty_' + k, fn=R(c) + 'empty', ensures='result == (%s)' % ('forall|h: KeyT| !in_v(this0.elems.elems, h)' if c else 'forall|h: KeyT| !this0.elems.dom().contains(h)'), requires=wf or 'true', hints={'return': 'let q = this_.elems.elems; if q.len() > 0 { assert(in_v(q, q[0].first)); }' if c else 'if (forall|h: KeyT| !this_.elems.dom().contains(h)) { assert(this_.elems =~= Map::<KeyT, InnerT>::empty()); }'}),
    ]
    if c:
        fe = '0 <= result <= this0.elems.elems.len();; (result < this0.elems.elems.len()) == in_v(this0.elems.elems, head0);; result < this0.elems.elems.len() ==> this0.elems.elems[result].first == head0'
        out += [dict(name='size_v', fn=R(c) + 'size', ensures='result == this0.elems.elems.len()'), dict(name='begin_v', fn=R(c) + 'begin', const=True, ensures='result == 0'), dict(name='end_v', fn=R(c) + 'end', const=True, ensures='result == this0.elems.elems.len()')]
    else:
        fe = 'result == (if this0.elems.dom().contains(head0) { Some(head0) } else { None::<KeyT> })'
        out += [dict(name='size_h', fn=R(c) + 'size', ensures='result == this0.elems.dom().len()'), dict(name='end_h', fn=R(c) + 'end', const=True, ensures='result == None::<KeyT>')]
    out += [dict(name='find_c_' + k, fn=R(c) + 'find', const=True, params=['head'], requires=wf or 'true', ensures=fe), dict(name='find_' + k, fn=R(c) + 'find', const=False, params=['head'], requires=wf or 'true', ensures=fe + ';; this1 == this0')]
    return out


CONTRACTS = [
    dict(VE, name='vrec_emplace', fn=VR + 'emplace', sig=r'.*\(const'), dict(VE, name='vrec_emplace_rv', fn=VR + 'emplace', sig=r'[^(]*\((?!const)'),
    dict(VE, hints={}, name='vrec_try', fn=VR + 'try_emplace', sig=r'.*\(const'), dict(VE, hints={}, name='vrec_try_rv', fn=VR + 'try_emplace', sig=r'[^(]*\((?!const)'),
    dict(name='vrec_find', fn=VR + 'find', const=False, params=['key'], requires='rwf(this0.elems)', ensures='this1 == this0;; 0 <= result <= this0.elems.len();; (result < this0.elems.len()) == in_v(this0.elems, key0);; result < this0.elems.len() ==> this0.elems[result].first == key0'),
    dict(name='vrec_find_c', fn=VR + 'find', const=True, params=['key'], requires='rwf(this0.elems)', ensures='0 <= result <= this0.elems.len();; (result < this0.elems.len()) == in_v(this0.elems, key0);; result < this0.elems.len() ==> this0.elems[result].first == key0'),
] + rec(0) + rec(1) + [c for c in SC if c['name'] in ('vmap_emplace', 'vmap_emplace_rv', 'vmap_assign', 'vmap_try_emplace', 'vmap_contains', 'vmap_find', 'vmap_find_const', 'vmap_from_hash', 'vmap_from_hash_rv', 'vset_emplace', 'vset_contains', 'vset_find')] + [
    dict(name='mget_c_h', fn=MB(0) + 'get', const=True, params=['head'], ensures='result == (if this0.dom().contains(head0) { Some(this0[head0]) } else { None })'),
    dict(name='mget_h', fn=MB(0) + 'get', const=False, params=['head'], ensures='result == (if this0.dom().contains(head0) { Some(this0[head0]) } else { None });; this1 == this0'),
    dict(name='mget_c_v', fn=MB(1) + 'get', const=True, params=['head'], requires='map_wf(this0.elems)', ensures='result == vval(this0.elems, head0)', hints={'begin': 'assert forall|i: int| #![trigger this0.elems[i]] 0 <= i < this0.elems.len() implies vval(this0.elems, this0.elems[i].first) == Some(this0.elems[i].second) by { vpos(this0.elems, i); }'}),
    dict(name='mget_v', fn=MB(1) + 'get', const=False, params=['head'], requires='map_wf(this0.elems)', ensures='result == vval(this0.elems, head0);; this1 == this0', hints={'begin': 'assert forall|i: int| #![trigger this0.elems[i]] 0 <= i < this0.elems.len() implies vval(this0.elems, this0.elems[i].first) == Some(this0.elems[i].second) by { vpos(this0.elems, i); }'}),
    dict(name='conv', fn=MB(1) + 'fut_set', sig=r'.*\(const.*type\)0', params=['other'], requires='key_order()', ensures='map_wf(this1.elems);; forall|k: KeyT, v: ValT| #[trigger] maps_to(this1.elems, k, v) <==> (other0.dom().contains(k) && other0[k] == v)'),
    dict(name='conv_rv', fn=MB(1) + 'fut_set', sig=r'void \((?!const).*type\)0', params=['other'], requires='key_order()', ensures='map_wf(this1.elems);; forall|k: KeyT, v: ValT| #[trigger] maps_to(this1.elems, k, v) <==> (other0.dom().contains(k) && other0[k] == v)'),
    dict(name='sassign_h', fn=SB(0) + 'insert_or_assign', params=['key'], ensures='this1 == this0.insert(key0);; result.1 == !this0.contains(key0);; result.0 == Some(key0)'),
    dict(name='sassign_v', fn=SB(1) + 'insert_or_assign', params=['key'], requires='set_wf(this0.elems)', ensures='''set_wf(this1.elems);; forall|x: KeyT| #[trigger] this1.elems.contains(x) <==> (this0.elems.contains(x) || x == key0);;
            result.1 == !this0.elems.contains(key0);; 0 <= result.0 < this1.elems.len() && this1.elems[result.0] == key0'''),
]


def _mut(f):
    def h(fn, d, n, args, want, me, th):
        v = fn.rv(args[0]); p = fn.objplace(me) if me is not None else fn.lv(th); o = fn.snap(fn.read(p), p.ty)
        fn.write(p, 'i_%s(%s, %s)' % (f, o, v)); return 'i_%s_res(%s, %s)' % (f, o, v)
    return h


def _q(f):
    def h(fn, d, n, args, want, me, th):
        v = fn.rv(args[0]); p = fn.objplace(me) if me is not None else fn.lv(th); return 'i_%s(%s, %s)' % (f, fn.read(p), v)
    return h


def unit(ast):
    raw = lambda n: (lambda T, m: Ty('raw', name=n))
    I = r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::verif::tail_t>, 0>::'
    F = r'(pdaaal::)?(fut::)?(detail::)?fut_set<(std::)?tuple<(pdaaal::)?(verif::)?'
    HASH = r'(\(type\)0|(pdaaal::)?(fut::)?type::hash|0)'; VEC = r'(\(type\)1|(pdaaal::)?(fut::)?type::vector|1)'
    key = raw('KeyT'); val = raw('ValT')
    cfg = dict(types=[(F + r'tail_t>, ' + HASH + '>', raw('InnerT')), (r'((pdaaal::)?fut::detail::)?(typename )?Inner', raw('InnerT')),
                      (F + r'key_t, (pdaaal::)?(verif::)?val_t>, ' + HASH + '>', lambda T, m: Ty('map', [key(0, 0), val(0, 0)])),
                      (F + r'key_t, (pdaaal::)?(verif::)?val_t>, ' + VEC + '>', lambda T, m: T.parse('pdaaal::fut::vector_map<pdaaal::verif::key_t, pdaaal::verif::val_t>')),
                      (F + r'key_t>, ' + HASH + '>', lambda T, m: Ty('set', [key(0, 0)])),
                      (F + r'key_t>, ' + VEC + '>', lambda T, m: T.parse('pdaaal::fut::vector_set<pdaaal::verif::key_t>')),
                      (r'(pdaaal::)?(verif::)?key_t', key), (r'(pdaaal::)?(verif::)?val_t', val), (r'(pdaaal::)?(verif::)?tail_t', raw('TailT')), (r'(pdaaal::)?(verif::)?args_t', raw('ArgsT')), (r'(pdaaal::)?(verif::)?res_t', raw('ResT')), (r'inner_value_type', val)],
               rec_types=[(r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::verif::key_t, pdaaal::verif::val_t>, 0>', lambda T: Ty('map', [key(0, 0), val(0, 0)])),
                          (r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::verif::key_t, pdaaal::verif::val_t>, 1>', lambda T: T.parse('pdaaal::fut::vector_map<pdaaal::verif::key_t, pdaaal::verif::val_t>')),
                          (r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::verif::key_t>, 0>', lambda T: Ty('set', [key(0, 0)])),
                          (r'pdaaal::fut::detail::fut_set<std::tuple<pdaaal::verif::key_t>, 1>', lambda T: T.parse('pdaaal::fut::vector_set<pdaaal::verif::key_t>'))],
               raw_less={'KeyT': 'key_lt'},
               rec_names={r'.*vector_map<.*fut_set.*>::elem_t': 'relem_t', r'.*vector_map<.*val_t>::elem_t': 'elem_t', r'.*fut_set<.*tail_t>, 0, 0>': 'rec_h', r'.*fut_set<.*tail_t>, 1, 0>': 'rec_v', r'.*vector_map<.*fut_set.*>': 'vmap_rec'},
               pointer=lambda T, i: Ty('option', [val(0, 0)]) if i.split('::')[-1] in ('val_t', 'inner_value_type') else None,
               address_of=lambda fn, p: 'Some(%s)' % fn.read(p),
               builtins=[(I + 'emplace', _mut('emplace')), (I + 'insert_or_assign', _mut('assign')), (I + 'contains', _q('contains')), (I + 'get', _q('get')),
                         (r'.*verif::operator<', lambda fn, d, n, args, want, me, th: 'key_lt(%s, %s)' % tuple(fn.rvs(args))),
                         (r'.*verif::operator==', lambda fn, d, n, args, want, me, th: '(%s == %s)' % tuple(fn.rvs(args))),
                         (r'.*verif::operator!=', lambda fn, d, n, args, want, me, th: '(%s != %s)' % tuple(fn.rvs(args)))])
    return Unit('fut', 'fut.cpp', CONTRACTS, cfg, SPEC, LEMMAS, ast)
