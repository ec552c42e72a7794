"""J01: the streaming JSON writer.  The output stream is the sequence of its characters, white space outside strings left out."""
from unit import Unit
from c2v import kids, qt, Place
from vtypes import Ty
from cppast import ExtractError

CH = Ty('int', bits=8)
STR = Ty('seq', [CH])
OS = Ty('seq', [CH], name='ostream')
JS = Ty('raw', name='Json')


def put(fn, n, a, want):
    """operator<< on an output stream"""
    try: t = fn.ty(a[0])
    except ExtractError: return None
    if t.name != 'ostream': return None
    p = fn.lv(a[0]); x = fn.strip_all(a[1])
    if x['kind'] in ('StringLiteral', 'CharacterLiteral'):
        s = bytes(x['value'][1:-1], 'utf-8').decode('unicode_escape') if x['kind'] == 'StringLiteral' else chr(x['value'])
        if '\0' in s: raise ExtractError('NUL character')
        v = '.push'.join([''] + ['(%dint)' % ord(c) for c in s if c not in ' \t\r\n'])
        if v: fn.write(p, fn.read(p) + v)
    elif x['kind'] == 'DeclRefExpr' and x['referencedDecl'].get('name') == 'endl' or 'Setw' in qt(x): pass      # white space
    else:
        if fn.ty(x).v() != 'Seq<int>': raise ExtractError('stream insertion of %s' % qt(x))
        v = fn.rv(x); fn.write(p, '%s + %s' % (fn.read(p), v))
    return p if want in ('lv', 'effect') else fn.read(p)


SPEC = r"""
#[verifier::external_body] pub struct Json { _p: u8 }
pub uninterp spec fn dump(j: Json) -> Seq<int>;          // nlohmann::json::dump(): the value as well-formed JSON text
pub uninterp spec fn jstr(s: Seq<int>) -> Json;           // the JSON string s
pub uninterp spec fn is_obj(j: Json) -> bool;
pub uninterp spec fn members(j: Json) -> Seq<(Seq<int>, Json)>;   // items() of an object
// documents: an object is a list of members
pub enum Node { V(Json), O(Box<Mem>) }
pub enum Mem { Nil, Snoc(Box<Mem>, Seq<int>, Box<Node>) }
pub open spec fn text(n: Node) -> Seq<int> decreases n { match n { Node::V(j) => dump(j), Node::O(m) => seq![123int] + inner(*m) + seq![125int] } }
pub open spec fn sep(m: Mem) -> Seq<int> { if m is Nil { Seq::<int>::empty() } else { seq![44int] } }
pub open spec fn inner(m: Mem) -> Seq<int> decreases m { match m { Mem::Nil => Seq::<int>::empty(), Mem::Snoc(p, k, n) => inner(*p) + sep(*p) + dump(jstr(k)) + seq![58int] + text(*n) } }
pub open spec fn snoc(m: Mem, k: Seq<int>, n: Node) -> Mem { Mem::Snoc(Box::new(m), k, Box::new(n)) }
// an unfinished document: the members written so far of every open object, outermost first
pub enum Fr { Top(Mem), Open(Box<Fr>, Seq<int>, Mem) }
pub open spec fn cur(f: Fr) -> Mem { match f { Fr::Top(m) => m, Fr::Open(p, k, m) => m } }
pub open spec fn depth(f: Fr) -> int decreases f { match f { Fr::Top(m) => 1, Fr::Open(p, k, m) => depth(*p) + 1 } }
pub open spec fn add(f: Fr, k: Seq<int>, n: Node) -> Fr { match f { Fr::Top(m) => Fr::Top(snoc(m, k, n)), Fr::Open(p, kk, m) => Fr::Open(p, kk, snoc(m, k, n)) } }
pub open spec fn addv(f: Fr, k: Seq<int>, j: Json) -> Fr { add(f, k, Node::V(j)) }
pub open spec fn open_(f: Fr, k: Seq<int>) -> Fr { Fr::Open(Box::new(f), k, Mem::Nil) }
pub open spec fn end_(f: Fr) -> Fr { match f { Fr::Open(p, k, m) => add(*p, k, Node::O(Box::new(m))), Fr::Top(m) => f } }
// text up to (not including) the brace that opens the innermost object
pub open spec fn before(b: Seq<int>, f: Fr) -> Seq<int> decreases f { match f { Fr::Top(m) => b, Fr::Open(p, k, m) => before(b, *p) + seq![123int] + inner(cur(*p)) + sep(cur(*p)) + dump(jstr(k)) + seq![58int] } }
pub open spec fn rep(t: json_stream, b: Seq<int>, f: Fr) -> bool {
    proper(f) && (if cur(f) is Nil { !t._started && t._indent == depth(f) - 1 && t._out == before(b, f) } else { t._started && t._indent == depth(f) && t._out == before(b, f) + seq![123int] + inner(cur(f)) })
}
pub open spec fn proper(f: Fr) -> bool { true }
pub open spec fn fin(f: Fr) -> Mem decreases depth(f) via fin_dec { match f { Fr::Top(m) => m, Fr::Open(p, k, m) => fin(end_(f)) } }
#[via_fn] proof fn fin_dec(f: Fr) { depth_pos(f); if f is Open { let p = *f->Open_0; depth_add(p, f->Open_1, Node::O(Box::new(f->Open_2))); depth_pos(p); } }
proof fn depth_pos(f: Fr) ensures depth(f) >= 1 decreases f { match f { Fr::Top(m) => {}, Fr::Open(p, k, m) => { depth_pos(*p); } } }
proof fn depth_add(f: Fr, k: Seq<int>, n: Node) ensures depth(add(f, k, n)) == depth(f), forall|b: Seq<int>| #![trigger before(b, add(f, k, n))] before(b, add(f, k, n)) == before(b, f), cur(add(f, k, n)) == snoc(cur(f), k, n) { match f { Fr::Top(m) => {}, Fr::Open(p, kk, m) => { } } }
pub open spec fn finished(t: json_stream, b: Seq<int>, m: Mem) -> bool { t._indent == 0 && t._out == b + text(Node::O(Box::new(m))) }
pub open spec fn addall(f: Fr, ms: Seq<(Seq<int>, Json)>, n: int) -> Fr decreases n { if n <= 0 { f } else { addv(addall(f, ms, n - 1), ms[n - 1].0, ms[n - 1].1) } }
// entry_object: an object value is written as a nested object, any other value as it is
pub open spec fn obj(f: Fr, k: Seq<int>, j: Json) -> Fr { if is_obj(j) { end_(addall(open_(f, k), members(j), members(j).len() as int)) } else { addv(f, k, j) } }
pub open spec fn prog(t: json_stream, b: Seq<int>, m: Mem) -> bool { finished(t, b, m) || exists|g: Fr| #[trigger] rep(t, b, g) && !empty_doc(g) && fin(g) == m }
pub open spec fn empty_doc(f: Fr) -> bool { f matches Fr::Top(m) && m is Nil }
pub open spec fn same(a: json_stream, b: json_stream) -> bool { a._indent == b._indent && a._started == b._started && a._out == b._out }
"""
LEMMAS = r"""
proof fn l_before_cur(b: Seq<int>, f: Fr, m: Mem) ensures true {}
proof fn l_push(s: Seq<int>, c: int) ensures s.push(c) =~= s + seq![c] {}
proof fn l_assoc(a: Seq<int>, x: Seq<int>, s: Seq<int>, q: Seq<int>, c: Seq<int>, d: Seq<int>) ensures a + (x + s + q + c + d) == a + x + s + q + c + d
{ assert(a + (x + s) =~= a + x + s); assert(a + (x + s + q) =~= a + (x + s) + q); assert(a + (x + s + q + c) =~= a + (x + s + q) + c); assert(a + (x + s + q + c + d) =~= a + (x + s + q + c) + d); }
proof fn l_prog(o: json_stream, n: json_stream, b: Seq<int>, m: Mem)
    requires prog(o, b, m), o._indent > 0, forall|b: Seq<int>, f: Fr| #![trigger rep(o, b, f)] rep(o, b, f) && !empty_doc(f) ==> (f is Open ==> rep(n, b, end_(f))) && (f is Top ==> finished(n, b, cur(f))),
    ensures prog(n, b, m)
{ let g = choose|g: Fr| #[trigger] rep(o, b, g) && !empty_doc(g) && fin(g) == m; if g is Open { let p = *g->Open_0; let nd = Node::O(Box::new(g->Open_2)); depth_add(p, g->Open_1, nd); assert(cur(end_(g)) == snoc(cur(p), g->Open_1, nd)); assert(!empty_doc(end_(g))); assert(fin(end_(g)) == fin(g)); } }
proof fn l_stop(o: json_stream, b: Seq<int>, m: Mem) requires prog(o, b, m), o._indent <= 0, ensures finished(o, b, m)
{ if !finished(o, b, m) { let g = choose|g: Fr| #[trigger] rep(o, b, g) && !empty_doc(g) && fin(g) == m; depth_pos(g); if g is Open { depth_pos(*g->Open_0); } } }
// one more member after the given text
proof fn l_entry(o: json_stream, n: json_stream, b: Seq<int>, f: Fr, k: Seq<int>, j: Json)
    requires rep(o, b, f), n._started, n._indent == (if o._started { o._indent } else { o._indent + 1 }), n._out == (if o._started { o._out + seq![44int] } else { o._out + seq![123int] }) + dump(jstr(k)) + seq![58int] + dump(j),
    ensures rep(n, b, addv(f, k, j))
{ depth_add(f, k, Node::V(j)); assert(text(Node::V(j)) == dump(j)); assert(inner(snoc(cur(f), k, Node::V(j))) == inner(cur(f)) + sep(cur(f)) + dump(jstr(k)) + seq![58int] + dump(j)); l_assoc(before(b, f) + seq![123int], inner(cur(f)), sep(cur(f)), dump(jstr(k)), seq![58int], dump(j)); if cur(f) is Nil { assert(before(b, f) + seq![123int] + inner(cur(f)) + sep(cur(f)) =~= before(b, f) + seq![123int]); } }
proof fn l_begin(o: json_stream, n: json_stream, b: Seq<int>, f: Fr, k: Seq<int>)
    requires rep(o, b, f), !n._started, n._indent == (if o._started { o._indent } else { o._indent + 1 }), n._out == (if o._started { o._out + seq![44int] } else { o._out + seq![123int] }) + dump(jstr(k)) + seq![58int],
    ensures rep(n, b, open_(f, k))
{ assert(n._out =~= before(b, f) + seq![123int] + inner(cur(f)) + sep(cur(f)) + dump(jstr(k)) + seq![58int]); }
proof fn l_end(o: json_stream, n: json_stream, b: Seq<int>, f: Fr)
    requires rep(o, b, f), !empty_doc(f), n._started, n._indent == (if o._started { o._indent - 1 } else { o._indent }), n._out == (if o._started { o._out + seq![125int] } else { o._out + seq![123int] + seq![125int] }),
    ensures f is Open ==> rep(n, b, end_(f)), f is Top ==> finished(n, b, cur(f))
{ depth_pos(f);
  match f { Fr::Top(m) => { assert(n._out =~= b + text(Node::O(Box::new(m)))); },
    Fr::Open(p, k, m) => { let nd = Node::O(Box::new(m)); depth_add(*p, k, nd); depth_pos(*p); assert(inner(snoc(cur(*p), k, nd)) == inner(cur(*p)) + sep(cur(*p)) + dump(jstr(k)) + seq![58int] + text(nd)); assert(text(nd) == seq![123int] + inner(m) + seq![125int]); 
      assert(n._out =~= before(b, *p) + seq![123int] + inner(snoc(cur(*p), k, nd))); } } }
"""
KEEP = 'this1._indent_size == this0._indent_size'


def contracts():
    q = 'json_stream::'
    C = []
    C.append(dict(name='ctor', fn=q + 'json_stream', nparams=2, params=['indent_size', 'out'], ensures='rep(this1, out0, Fr::Top(Mem::Nil));; out1 == this1._out'))
    C.append(dict(name='begin_object', fn=q + 'begin_object', ensures='forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) ==> rep(this1, b, open_(f, key0))',
                  hints={'end': 'assert forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) implies rep(this_, b, open_(f, key0)) by { depth_pos(f); l_push(this0._out, 44); l_push(this0._out, 123); l_push(this0._out.push(44) + dump(jstr(key0)), 58); l_push(this0._out.push(123) + dump(jstr(key0)), 58); l_begin(this0, this_, b, f, key0); }'}))
    C.append(dict(name='end_object', fn=q + 'end_object', ensures='forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) && !empty_doc(f) ==> (f is Open ==> rep(this1, b, end_(f))) && (f is Top ==> finished(this1, b, cur(f)));; this0._indent > 0 ==> this1._indent >= 0',
                  hints={'end': 'assert forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) && !empty_doc(f) implies (f is Open ==> rep(this_, b, end_(f))) && (f is Top ==> finished(this_, b, cur(f))) by { depth_pos(f); assert(this0._out.push(123).push(125) =~= this0._out + seq![123int] + seq![125int]); assert(this0._out.push(125) =~= this0._out + seq![125int]); l_end(this0, this_, b, f); }'}))
    C.append(dict(name='entry', fn=q + 'entry', ensures='forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) ==> rep(this1, b, addv(f, key0, value0))',
                  hints={'end': 'assert forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) implies rep(this_, b, addv(f, key0, value0)) by { depth_pos(f); l_push(this0._out, 44); l_push(this0._out, 123); l_push(this0._out.push(44) + dump(jstr(key0)), 58); l_push(this0._out.push(123) + dump(jstr(key0)), 58); l_entry(this0, this_, b, f, key0, value0); }'}))
    C.append(dict(name='entry_object', fn=q + 'entry_object', ensures='forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) ==> rep(this1, b, obj(f, key0, value0))',
                  loops={1: 'forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) ==> rep(this_, b, addall(open_(f, key0), members(value0), k1)) && addall(open_(f, key0), members(value0), k1) is Open;; rng1_s == members(value0)'}))
    C.append(dict(name='close', fn=q + 'close', requires='0 <= this0._indent', loops={1: 'this_._indent >= 0;; this0._indent == 0 ==> this_._out == this0._out && this_._indent == 0;; forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) && !empty_doc(f) ==> prog(this_, b, fin(f))'}, hints={'loop 1 begin': 'raw:let ghost m_ = this_;', 'loop 1 end': 'assert forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) && !empty_doc(f) implies prog(this_, b, fin(f)) by { l_prog(m_, this_, b, fin(f)); }', 'after loop 1': 'assert forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) && !empty_doc(f) implies this_._out == b + text(Node::O(Box::new(fin(f)))) by { l_stop(this_, b, fin(f)); }'}, ensures='!this1._started && this1._indent == 0;; this0._indent == 0 ==> this1._out == this0._out;; forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) && !empty_doc(f) ==> this1._out == b + text(Node::O(Box::new(fin(f))));; rep(this1, this1._out, Fr::Top(Mem::Nil))'))
    C.append(dict(name='dtor', fn=q + '~json_stream', requires='0 <= this0._indent', ensures='this0._indent == 0 ==> this1._out == this0._out;; forall|b: Seq<int>, f: Fr| #![trigger rep(this0, b, f)] rep(this0, b, f) && !empty_doc(f) ==> this1._out == b + text(Node::O(Box::new(fin(f))))'))
    return C


def types():
    return [(r'(std::)?(basic_)?ostream(<char>)?', lambda T, m: OS), (r'(nlohmann::)?basic_json<.*>|json|nlohmann::json', lambda T, m: JS),
            (r'(nlohmann::detail::)?iteration_proxy<.*>', lambda T, m: Ty('seq', [Ty('tuple', [STR, JS])])), (r'string_type', lambda T, m: STR)]


def meth(nm):
    def f(fn, n, me, args, want):
        p = fn.objplace(me)
        if (p.ty or fn.ty(kids(me)[0])).name != 'Json': return None
        if any(x['kind'] != 'CXXDefaultArgExpr' for x in args): raise ExtractError('%s with arguments' % nm)
        return '%s(%s)' % (nm, fn.read(p))
    return f


def unit(ast):
    return Unit('jsons', 'json.cpp', contracts(), dict(types=types(), operators={'operator<<': put}, methods=dict(dump=meth('dump'), is_object=meth('is_obj'), items=meth('members')), raw_construct={'Json': ('Seq<int>', 'jstr')}), SPEC, LEMMAS, ast)
