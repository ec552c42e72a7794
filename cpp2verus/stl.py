"""Specification of the C++ standard library operations that occur in the extracted code (trusted; listed in the evidence)."""
import re
from cppast import ExtractError
from vtypes import Ty, vname
from c2v import Place, Var, kids, qt

INT = Ty('int', bits=64, name='unsigned long')
SINT = Ty('int', bits=64, signed=1, name='long')


def simple(v):
    return re.fullmatch(r'[\w.]+|t\d+_|-?\d+int', v) is not None


def _recname(fn, f):
    try: return fn.u.types.rec(fn.u.rec_of(f)).name
    except (ExtractError, KeyError, AttributeError): return None


class Stl:
    def __init__(self, unit): self.u = unit; self.used = set()

    def use(self, what): self.used.add(what)

    # ----- element order
    def less(self, fn, ta, tb=None):
        """operator< of a type as a specification closure"""
        tb = tb or ta
        return '|a_: %s, b_: %s| %s' % (ta.v(), tb.v(), self.less_expr(fn, ta, 'a_', 'b_', tb))

    def less_expr(self, fn, t, a, b, tb=None):
        if t.k in ('int', 'enum', 'bool', 'hptr', 'ptr'): return '(%s < %s)' % (a, b)
        if t.k == 'raw' and t.name in self.u.cfg.get('raw_less', {}): return '%s(%s, %s)' % (self.u.cfg['raw_less'][t.name], a, b)
        if t.k == 'tuple':
            out = 'false'
            for i in reversed(range(len(t.a))):
                l = self.less_expr(fn, t.a[i], '%s.%d' % (a, i), '%s.%d' % (b, i)); g = self.less_expr(fn, t.a[i], '%s.%d' % (b, i), '%s.%d' % (a, i))
                out = '(%s || (!%s && %s))' % (l, g, out)
            return out
        if t.k == 'rec':
            tb = tb or t
            d = self.find_operator(t, 'operator<', [t, tb])
            if d is None: raise ExtractError('no operator< for ' + t.name)
            c = fn.spec_fn_of(d, [t, tb], ('la_', 'lb_'))
            return '((%s)(%s, %s))' % (c, a, b)
        if t.k == 'seq':
            return 'std_lex(%s, %s, %s)' % (a, b, self.less(fn, t.a[0]))
        raise ExtractError('order on %r' % t)

    def op_params_fit(self, d, tys):
        if tys is None: return True
        f = self.u.body(d) or d
        ps = [y for y in kids(f) if y['kind'] == 'ParmVarDecl']
        pts = []
        try:
            for y in ps: pts.append(self.u.types.parse(y['type'].get('desugaredQualType', y['type']['qualType'])).v())
        except ExtractError: return False
        want = [x.v() for x in tys]
        return pts == want or (d['kind'] == 'CXXMethodDecl' and pts == want[1:])

    def find_operator(self, t, op, tys=None):
        for c in kids(t.rec):
            if c['kind'] == 'CXXMethodDecl' and c.get('name') == op and self.u.body(c) is not None and self.op_params_fit(c, tys): return c
            if c['kind'] == 'FriendDecl':
                for x in kids(c):
                    if x.get('name') == op and self.u.body(x) is not None and self.op_params_fit(x, tys): return self.u.body(x)
        for b in t.rec.get('bases', []):
            bt = self.u.types.parse(b['type'].get('desugaredQualType', b['type']['qualType']))
            if bt.k == 'rec':
                r = self.find_operator(bt, op, tys)
                if r is not None: return r
        if op != 'operator()' and tys is not None:
            for f in self.u.ast.funcs:
                if f['kind'] == 'FunctionDecl' and f.get('name') == op and f.get('mangledName') and self.u.body(f) is not None and self.op_params_fit(f, tys): return self.u.body(f)
        return None

    def eq(self, fn, ta, tb, x, y):
        if ta.k == 'rec':
            d = self.find_operator(ta, 'operator==', [ta, tb])
            if d is not None and not d.get('explicitlyDefaulted'):
                c = fn.spec_fn_of(d, [ta, tb], ('ea_', 'eb_'))
                return '((%s)(%s, %s))' % (c, x, y)
        return '(%s == %s)' % (x, y)

    def snapshot(self, fn, v, ty):
        return v if simple(v) or fn.pure else fn.snap(v, ty)

    # ----- methods
    def method(self, fn, n, me, name, args, want):
        cc = self.u.cfg.get('methods', {}).get(name)
        if cc:
            r = cc(fn, n, me, args, want)
            if r is not None: return r
        p = fn.objplace(me)
        ty = p.ty or fn.ty(kids(me)[0])
        if p.root == '!hit': raise ExtractError('method on map element pair')
        h = getattr(self, 'm_' + ty.k, None)
        if ty.k == 'bool' and name == 'operator bool': return fn.read(p)
        if h is None: raise ExtractError('method %s on %r' % (name, ty))
        self.use('std::%s::%s' % (ty.k, name))
        r = h(fn, n, p, ty, name, args, want)
        return r

    def ret_lv(self, fn, p, want): return p if want in ('lv', 'ptr') else fn.read(p)

    def m_seq(self, fn, n, p, ty, name, a, want):
        s = fn.read(p); et = ty.a[0]
        if name in ('size', 'length'): return '(%s.len() as int)' % s
        if name == 'empty': return '(%s.len() == 0)' % s
        if name in ('begin', 'cbegin', 'data'): return '0int'
        if name in ('end', 'cend'): return '(%s.len() as int)' % s
        if name in ('rbegin', 'crbegin'): return '(%s.len() as int)' % s      # reverse iterators: base position
        if name in ('rend', 'crend'): return '0int'
        if name in ('back', 'front'):
            fn.check('%s.len() > 0' % s, '%s() of a non-empty vector' % name)
            i = '(%s.len() - 1)' % s if name == 'back' else '0int'
            q = p.then(('i', i), et); return self.ret_lv(fn, q, want)
        if name == 'at':
            i = fn.rv(a[0]); fn.check('0 <= %s < %s.len()' % (i, s), 'at() index in range (no exception)')
            return self.ret_lv(fn, p.then(('i', i), et), want)
        if name == 'operator[]': return self.ret_lv(fn, fn.index_place(p, ty, a[0]), want)
        if name in ('push_back', 'emplace_back'):
            v = self.build(fn, et, a); s = fn.read(p)
            fn.write(p, '%s.push(%s)' % (s, v))
            if want in ('lv', 'ptr'): return p.then(('i', '(%s.len() - 1)' % fn.read(p)), et)
            return '()' if want == 'effect' else fn.read(p.then(('i', '(%s.len() - 1)' % fn.read(p)), et))
        if name == 'pop_back':
            fn.check('%s.len() > 0' % s, 'pop_back() of a non-empty vector'); fn.write(p, '%s.drop_last()' % s); return '()'
        if name == 'clear': fn.write(p, ty.default()); return '()'
        if name == 'fill':
            v = fn.rv(a[0]); fn.write(p, 'Seq::new(%s.len(), |i_: int| %s)' % (fn.read(p), v)); return '()'
        if name in ('reserve', 'shrink_to_fit'): return '()'
        if name == 'resize':
            k = fn.rv(a[0]); v = fn.rv(a[1]) if len(a) > 1 and a[1]['kind'] != 'CXXDefaultArgExpr' else self.default(fn, et)
            fn.write(p, 'std_resize(%s, %s, %s)' % (fn.read(p), k, v)); return '()'
        if name == 'assign' and len(a) == 2:
            x, y = fn.rvs(a)
            try: c = fn.iter_container(a[0])
            except ExtractError: c = None
            if c is not None: fn.write(p, '%s.subrange(%s, %s)' % (fn.read(c), x, y))
            else: fn.write(p, 'Seq::new((%s) as nat, |i_: int| %s)' % (x, y))
            return '()'
        if name in ('insert', 'emplace'):
            pos = fn.rv(a[0])
            pos = self.snapshot(fn, pos, INT)
            if len(a) == 3 and name == 'insert':
                c = fn.iter_container(a[1])
                if c.ty.k == 'set' and fn.callee_name(fn.strip_all(a[1])) in ('begin', 'cbegin') and fn.callee_name(fn.strip_all(a[2])) in ('end', 'cend'):
                    t = fn.t(); fn.emit('let Ghost(%s) = std_enum_set::<%s>(Ghost(%s));' % (t, c.ty.a[0].v(), fn.read(c))); s = fn.read(p); fn.obl('call')
                    fn.check('0 <= %s <= %s.len()' % (pos, s), 'insert position in range')
                    fn.write(p, 'std_insert_range(%s, %s, %s)' % (s, pos, t)); return pos
                x, y = fn.rvs(a[1:])
                src = fn.read(c); s = fn.read(p)
                fn.check('0 <= %s <= %s.len()' % (pos, s), 'insert position in range'); fn.check('0 <= %s <= %s <= %s.len()' % (x, y, src), 'inserted range is valid')
                fn.write(p, '%s.subrange(0, %s) + %s.subrange(%s, %s) + %s.subrange(%s, %s.len() as int)' % (s, pos, src, x, y, s, pos, s)); return pos
            v = self.build(fn, et, a[1:]); s = fn.read(p)
            fn.check('0 <= %s <= %s.len()' % (pos, s), 'insert position in range')
            fn.write(p, '%s.insert(%s, %s)' % (s, pos, v)); return pos
        if name == 'erase':
            if len(a) == 1:
                pos = self.snapshot(fn, fn.rv(a[0]), INT); fn.check('0 <= %s < %s.len()' % (pos, s), 'erase position in range')
                fn.write(p, '%s.remove(%s)' % (s, pos)); return pos
            x, y = fn.rvs(a); x = self.snapshot(fn, x, INT); y = self.snapshot(fn, y, INT); s = fn.read(p)
            fn.check('0 <= %s <= %s <= %s.len()' % (x, y, s), 'erased range is valid')
            fn.write(p, 'std_erase(%s, %s, %s)' % (s, x, y)); return x
        if name == 'swap':
            q = fn.lv(a[0]); t = fn.snap(fn.read(p), ty); fn.write(p, fn.read(q)); fn.write(q, t); return '()'
        raise ExtractError('vector method ' + name)

    def default(self, fn, t): return fn.default_rec(t) if t.k == 'rec' else t.default()

    def build(self, fn, et, a):
        """value of an element constructed in place from arguments"""
        if len(a) == 1:
            try: at = fn.ty(a[0])
            except ExtractError: at = None
            if at is not None and (at.k == et.k and (at.k != 'rec' or at.name == et.name)) : return fn.rv(a[0])
            if at is not None and et.k in ('int', 'bool', 'enum', 'iter', 'raw'): return fn.conv(fn.rv(a[0]), at, et)
            if at is not None and et.k == 'option': return 'Some(%s)' % fn.rv(a[0])
        if et.k == 'tuple':
            if len(a) == len(et.a): return '(%s)' % ', '.join(fn.rvs(a))
            if not a: return et.default()
            if a and self.is_tag(a[0], 'piecewise_construct'): raise ExtractError('piecewise construction')
        if et.k == 'rec':
            if not a: return fn.default_rec(et)
            return self.rec_from(fn, et, a)
        if et.k in ('seq', 'set', 'map', 'omap', 'oset') and not a: return et.default()
        if et.k == 'seq' and len(a) == 2:
            try: it = fn.ty(a[0]).k in ('iter', 'ptr', 'hiter')
            except ExtractError: it = False
            if it: return self.construct(fn, None, et, a)
            x, y = fn.rvs(a); return 'Seq::new((%s) as nat, |i_: int| %s)' % (x, y)
        if et.k == 'seq' and len(a) == 1: return fn.rv(a[0])
        if et.k == 'uptr': return fn.rv(a[0])
        if et.k in ('int', 'bool', 'raw') and not a: return et.default()
        if et.k == 'hptr': return fn.rv(a[0])
        raise ExtractError('in-place construction of %r from %d arguments' % (et, len(a)))

    def is_tag(self, a, nm):
        s = a
        while kids(s) and s['kind'] != 'DeclRefExpr': s = kids(s)[0]
        return s['kind'] == 'DeclRefExpr' and s['referencedDecl'].get('name') == nm

    def rec_from(self, fn, et, a):
        """pick the constructor by argument types (in-place construction does not record it)"""
        best = []
        for c in kids(et.rec):
            cs = [c] if c['kind'] == 'CXXConstructorDecl' else ([x for x in kids(c) if x['kind'] == 'CXXConstructorDecl' and x.get('mangledName')] if c['kind'] == 'FunctionTemplateDecl' else [])
            for x in cs:
                x = self.u.ast.body_of.get(x['id'], x)
                ps = [y for y in kids(x) if y['kind'] == 'ParmVarDecl']
                if len(ps) < len(a) or any(not kids(y) for y in ps[len(a):]): continue
                ok = True; score = 0
                for y, z in zip(ps, a):
                    try: pt = fn.T.parse(fn.ptype(y))
                    except ExtractError: ok = False; break
                    try: zt = fn.ty(z)
                    except ExtractError: ok = False; break
                    if pt.v() == zt.v():
                        score += 2
                        if qt(z).replace('const ', '').strip() == fn.ptype(y).replace('const ', '').rstrip('&').strip(): score += 1
                    elif pt.k == 'option' and pt.a[0].v() == zt.v(): score += 1
                    else: ok = False; break
                if ok and not x.get('explicitlyDeleted'): best.append((score, x))
        if not best: raise ExtractError('no constructor of %s matches' % et.name)
        best.sort(key=lambda b: -b[0])
        top = [b for b in best if b[0] == best[0][0]]
        seen = {}
        for b in top:
            k = b[1].get('mangledName', b[1]['id']); seen[k] = b[1]
        x = list(seen.values())[0]
        if x.get('isImplicit') or x.get('explicitlyDefaulted'):
            if len(a) == 1: return fn.rv(a[0])
            if not a: return fn.default_rec(et)
        c = self.u.contract_for(x)
        if c is not None: return fn.call_contract(None, x, c, a, 'rv', None, None)
        return fn.ctor_inline(et, x, a)

    def rec_from_value(self, fn, et, v, vt):
        """element constructed from one value, as a specification expression (converting constructor)"""
        for c in kids(et.rec):
            if c['kind'] != 'CXXConstructorDecl' or c.get('isImplicit'): continue
            x = self.u.ast.body_of.get(c['id'], c); ps = [y for y in kids(x) if y['kind'] == 'ParmVarDecl']
            if len(ps) != 1 or not [y for y in kids(x) if y['kind'] == 'CompoundStmt']: continue
            try:
                if fn.T.parse(fn.ptype(ps[0])).v() != vt.v(): continue
            except ExtractError: continue
            sp = fn.pure; fn.pure = True
            try:
                fn.env[ps[0]['id']] = Var('place', place=Place(v, [], vt), ty=vt)
                vals = fn.ctor_inits(et, x)
            finally: fn.pure = sp
            return '%s { %s }' % (et.name, ', '.join('%s: %s' % (vname(f), vals[f]) for f, _, _ in fn.T.fields(et)))
        raise ExtractError('converting constructor of ' + et.name)

    # hash sets and maps
    def m_set(self, fn, n, p, ty, name, a, want):
        s = fn.read(p)
        if name in ('contains', 'count'):
            v = fn.rv(a[0]); e = '%s.contains(%s)' % (fn.read(p), v)
            return e if name == 'contains' else '(if %s { 1int } else { 0int })' % e
        if name in ('insert', 'emplace') and len(a) == 1:
            v = self.snapshot(fn, self.build(fn, ty.a[0], a), ty.a[0]); s = fn.read(p)
            new = None
            if want != 'effect': new = fn.snap('!%s.contains(%s)' % (s, v), Ty('bool'))
            fn.write(p, '%s.insert(%s)' % (s, v))
            return '(Some(%s), %s)' % (v, new) if new else '()'
        if name == 'insert' and len(a) == 2:
            c = fn.iter_container(a[0]); x, y = fn.rvs(a)
            if c.ty.k == 'seq': fn.write(p, '%s.union(%s.subrange(%s, %s).to_set())' % (fn.read(p), fn.read(c), x, y))
            else: raise ExtractError('insert range')
            return '()'
        if name == 'erase':
            v = fn.rv(a[0]); fn.write(p, '%s.remove(%s)' % (fn.read(p), v)); return '()'
        if name == 'find':
            v = self.snapshot(fn, fn.rv(a[0]), ty.a[0]); return '(if %s.contains(%s) { Some(%s) } else { None })' % (fn.read(p), v, v)
        if name == 'end' or name == 'cend': return 'None'
        if name == 'empty': return '(%s =~= %s)' % (s, ty.default())
        if name == 'size': return '(%s.len() as int)' % s
        if name == 'clear': fn.write(p, ty.default()); return '()'
        if name == 'reserve': return '()'
        if name in ('begin', 'cbegin'): return '(if %s =~= %s { None } else { Some(%s.choose()) })' % (s, ty.default(), s)
        raise ExtractError('hash set method ' + name)

    def m_oset(self, fn, n, p, ty, name, a, want):
        """std::set: the strictly increasing sequence of its elements"""
        s = fn.read(p); et = ty.a[0]
        if name in ('contains', 'count'):
            v = fn.rv(a[0]); e = '%s.contains(%s)' % (fn.read(p), v)
            return e if name == 'contains' else '(if %s { 1int } else { 0int })' % e
        if name in ('insert', 'emplace') and len(a) == 1:
            v = self.snapshot(fn, self.build(fn, et, a), et); s = fn.read(p)
            new = None
            if want != 'effect': raise ExtractError('result of set insertion')
            t = fn.t(); fn.emit('let Ghost(%s) = std_oset_insert::<%s>(Ghost(%s), Ghost(%s), Ghost(%s));' % (t, et.v(), s, v, self.less(fn, et))); fn.obl('call')
            fn.write(p, t); return '()'
        if name == 'insert' and len(a) == 2:
            c = fn.iter_container(a[0]); x, y = fn.rvs(a[:2]); src = fn.read(c); s = fn.read(p)
            if c.ty.k not in ('seq', 'oset'): raise ExtractError('inserted range')
            fn.check('0 <= %s <= %s <= %s.len()' % (x, y, src), 'inserted range is valid')
            t = fn.t(); fn.emit('let Ghost(%s) = std_oset_insert_all::<%s>(Ghost(%s), Ghost(%s.subrange(%s, %s)), Ghost(%s));' % (t, et.v(), s, src, x, y, self.less(fn, et))); fn.obl('call')
            fn.write(p, t); return '()'
        if name == 'clear': fn.write(p, ty.default()); return '()'
        if name in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend'): return self.m_seq(fn, n, p, ty, name, a, want)
        raise ExtractError('ordered set method ' + name)

    def m_map(self, fn, n, p, ty, name, a, want):
        s = fn.read(p); kt, vt = ty.a
        if name in ('contains', 'count'):
            v = fn.rv(a[0]); e = '%s.dom().contains(%s)' % (fn.read(p), v)
            return e if name == 'contains' else '(if %s { 1int } else { 0int })' % e
        if name in ('emplace', 'try_emplace', 'insert', 'insert_or_assign'):
            if name == 'insert' or len(a) == 1 and name == 'emplace':
                try: at = fn.ty(a[0])
                except ExtractError: at = None
                if at is None or at.k != 'tuple': raise ExtractError('map insert')
                pr = fn.snap(fn.rv(a[0]), at); k = pr + '.0'; v = pr + '.1'
            else:
                k = fn.rv(a[0]); k = self.snapshot(fn, k, kt)
                v = self.build(fn, vt, a[1:])
            v = self.snapshot(fn, v, vt); s = fn.read(p)
            new = fn.snap('!%s.dom().contains(%s)' % (s, k), Ty('bool'))
            fn.write(p, '%s.insert(%s, %s)' % (s, k, v) if name == 'insert_or_assign' else '(if %s { %s.insert(%s, %s) } else { %s })' % (new, s, k, v, s))
            return '(Some(%s), %s)' % (k, new)
        if name == 'find':
            v = self.snapshot(fn, fn.rv(a[0]), kt); return '(if %s.dom().contains(%s) { Some(%s) } else { None })' % (fn.read(p), v, v)
        if name in ('end', 'cend'): return 'None'
        if name == 'empty': return '(%s =~= %s)' % (s, ty.default())
        if name == 'size': return '(%s.dom().len() as int)' % s
        if name == 'clear': fn.write(p, ty.default()); return '()'
        if name == 'reserve': return '()'
        if name == 'at':
            v = fn.rv(a[0]); fn.check('%s.dom().contains(%s)' % (fn.read(p), v), 'at() of a present key')
            return self.ret_lv(fn, p.then(('m', v), vt), want)
        if name == 'erase':
            at = fn.ty(a[0])
            v = fn.rv(a[0])
            if at.k == 'hiter': v = '(%s->0)' % v
            fn.write(p, '%s.remove(%s)' % (fn.read(p), v)); return '()'
        raise ExtractError('hash map method ' + name)

    m_omap = m_map

    def m_stack(self, fn, n, p, ty, name, a, want):
        s = fn.read(p); et = ty.a[0]
        if name in ('push', 'emplace'):
            v = self.build(fn, et, a); fn.write(p, '%s.push(%s)' % (fn.read(p), v)); return '()'
        if name == 'top':
            fn.check('%s.len() > 0' % s, 'top() of a non-empty stack'); return self.ret_lv(fn, p.then(('i', '(%s.len() - 1)' % s), et), want)
        if name == 'pop': fn.check('%s.len() > 0' % s, 'pop() of a non-empty stack'); fn.write(p, '%s.drop_last()' % s); return '()'
        if name == 'empty': return '(%s.len() == 0)' % s
        if name == 'size': return '(%s.len() as int)' % s
        raise ExtractError('stack method ' + name)

    def m_queue(self, fn, n, p, ty, name, a, want):
        s = fn.read(p); et = ty.a[0]
        if name in ('push', 'emplace'):
            v = self.build(fn, et, a); fn.write(p, '%s.push(%s)' % (fn.read(p), v)); return '()'
        if name == 'front':
            fn.check('%s.len() > 0' % s, 'front() of a non-empty queue'); return self.ret_lv(fn, p.then(('i', '0int'), et), want)
        if name == 'back':
            fn.check('%s.len() > 0' % s, 'back() of a non-empty queue'); return self.ret_lv(fn, p.then(('i', '(%s.len() - 1)' % s), et), want)
        if name == 'pop': fn.check('%s.len() > 0' % s, 'pop() of a non-empty queue'); fn.write(p, '%s.drop_first()' % s); return '()'
        if name == 'empty': return '(%s.len() == 0)' % s
        if name == 'size': return '(%s.len() as int)' % s
        raise ExtractError('queue method ' + name)

    def m_pq(self, fn, n, p, ty, name, a, want):
        """priority queue: a sequence used as a bag; top() is some element that is maximal in the comparator's order"""
        s = fn.read(p); et = ty.a[0]
        if name in ('push', 'emplace'):
            v = self.snapshot(fn, self.build(fn, et, a), et); s = fn.read(p)
            less = self.u.cfg['pq_less'](fn, ty) if 'pq_less' in self.u.cfg else self.pq_less(fn, ty)
            fn.emit('let _u = std_pq_push::<%s>(Ghost(%s), Ghost(%s), Ghost(%s));' % (et.v(), s, v, less)); fn.obl('call')
            fn.write(p, '%s.push(%s)' % (s, v)); return '()'
        if name in ('top', 'pop'):
            fn.check('%s.len() > 0' % s, '%s() of a non-empty priority queue' % name)
            less = self.u.cfg['pq_less'](fn, ty) if 'pq_less' in self.u.cfg else self.pq_less(fn, ty)
            i = 'std_pq_top(%s, %s)' % (s, less)
            if not fn.pure: fn.emit('let _u = std_pq_axiom::<%s>(Ghost(%s), Ghost(%s));' % (et.v(), s, less)); fn.obl('call')
            if name == 'top': return self.ret_lv(fn, p.then(('i', i), et), 'rv')
            fn.write(p, '%s.remove(%s)' % (s, i)); return '()'
        if name == 'empty': return '(%s.len() == 0)' % s
        if name == 'size': return '(%s.len() as int)' % s
        raise ExtractError('priority queue method ' + name)

    def pq_less(self, fn, ty):
        """the order of a priority queue: its comparator class (a default-constructed object of it), or operator<"""
        et = ty.a[0]
        if ty.name is None or re.match(r'(std::)?less<', ty.name): return self.less(fn, et)
        ct = fn.T.parse(ty.name)
        if ct.k != 'rec': raise ExtractError('priority queue order')
        d = self.find_operator(ct, 'operator()', [et, et])
        if d is None: raise ExtractError('priority queue order')
        c = fn.spec_fn_of(d, [ct, et, et], ('cmp_', 'a_', 'b_'))
        return re.sub(r'^\|cmp_: \w+, ', '|', c) if not re.search(r'\bcmp_\b', c[c.index('|', 1):]) else '|x_: %s, y_: %s| (%s)(%s, x_, y_)' % (et.v(), et.v(), c, fn.default_rec(ct))

    def m_option(self, fn, n, p, ty, name, a, want):
        s = fn.read(p)
        if name in ('has_value', 'operator bool'): return '%s.is_some()' % s
        if name == 'value': fn.check('%s.is_some()' % s, 'optional has a value'); return self.ret_lv(fn, p.then(('some',), ty.a[0]), want)
        if name == 'reset': fn.write(p, 'None'); return '()'
        if name == 'emplace': v = self.build(fn, ty.a[0], a); fn.write(p, 'Some(%s)' % v); return '()'
        raise ExtractError('optional method ' + name)

    def m_uptr(self, fn, n, p, ty, name, a, want):
        if name == 'get':
            # the address of an object owned by a vector element is that element's index
            if want not in ('lv', 'ptr') and p.path and p.path[-1][0] == 'i': return p.path[-1][1]
            return Place(p.root, p.path, ty.a[0])
        raise ExtractError('unique_ptr method ' + name)

    def m_hptr(self, fn, n, p, ty, name, a, want):
        v = fn.read(p)
        if name == 'get': return v
        if name == 'release':
            t = fn.snap(v, ty); fn.write(p, '0int'); return t
        raise ExtractError('pointer method ' + name)

    # ----- free functions
    def function(self, fn, n, name, a, want):
        h = self.u.cfg.get('functions', {}).get(name)
        if h: 
            r = h(fn, n, a, want)
            if r is not None: return r
        if name in ('move', 'forward', 'as_const', 'ref', 'cref', 'get') and len(a) == 1 and name != 'get':
            if want in ('lv', 'ptr') and fn.is_lv(a[0]): return fn.lv(a[0])
            return fn.rv(a[0])
        if name == 'addressof': return fn.lv(a[0])
        self.use('std::' + str(name))
        if name == 'get':
            p = fn.lv(a[0]); i = self.get_index(fn, n, p)
            return self.ret_lv(fn, p.then(('t', i, len(p.ty.a)), p.ty.a[i]), want)
        if name in ('make_pair', 'make_tuple', 'tie', 'forward_as_tuple'): return '(%s)' % ', '.join(fn.rvs(a)) if len(a) > 1 else '(%s,)' % fn.rv(a[0])
        if name in ('max', 'min'):
            if not a:
                ty = fn.ty(n)
                if ty.k != 'int': raise ExtractError('numeric_limits of %r' % ty)
                if ty.signed: return '%dint' % ((1 << (ty.bits - 1)) - 1 if name == 'max' else -(1 << (ty.bits - 1)))
                return '%dint' % ((1 << ty.bits) - 1 if name == 'max' else 0)
            if len(a) == 2:
                x, y = fn.rvs(a); return '(if %s %s %s { %s } else { %s })' % (x, '<' if name == 'max' else '>', y, y, x)
        if name in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty'):
            p = fn.lv(a[0])
            if p.ty.k == 'rec':
                # std::begin(c) etc. call the repository's own member function
                c = [f for f in fn.ast.funcs if f.get('name') == name and fn.u.body(f) is not None and _recname(fn, f) == p.ty.name]
                if not c: raise ExtractError('std::%s of %s' % (name, p.ty.name))
                k = qt(a[0]).startswith('const '); c.sort(key=lambda f: fn.u.const_method(f) != k)
                return fn.call_user(n, c[0], [], want, None, thisarg=a[0])
            h2 = getattr(self, 'm_' + p.ty.k)
            return h2(fn, n, p, p.ty, name, [], want)
        if name in ('lower_bound', 'upper_bound'):
            c = fn.iter_container(a[0]); x, y = fn.rvs(a[:2]); v = fn.rv(a[2]); vt = fn.ty(a[2])
            et = c.ty.a[0] if c.ty.k != 'omap' else Ty('tuple', c.ty.a)
            first, second = (et, vt) if name == 'lower_bound' else (vt, et)
            if len(a) > 3: lt = self.callable(fn, a[3], [first, second])
            else: lt = self.less(fn, first, second)
            t = fn.t('lb'); s = fn.read(c)
            fn.emit('let Ghost(%s) = std_%s::<%s, %s>(Ghost(%s), Ghost(%s), Ghost(%s), Ghost(%s), Ghost(%s));' % (t, name, et.v(), vt.v(), s, x, y, v, lt)); fn.obl('call')
            return t
        if name in ('distance',):
            x, y = fn.rvs(a); return '(%s - %s)' % (y, x)
        if name in ('next', 'prev'):
            x = fn.rv(a[0]); k = fn.rv(a[1]) if len(a) > 1 and a[1]['kind'] != 'CXXDefaultArgExpr' else '1int'
            return '(%s %s %s)' % (x, '+' if name == 'next' else '-', k)
        if name == 'swap':
            p, q = fn.lv(a[0]), fn.lv(a[1]); t = fn.snap(fn.read(p), p.ty); fn.write(p, fn.read(q)); fn.write(q, t); return '()'
        if name == 'sort':
            c = fn.iter_container(a[0]); x, y = fn.rvs(a[:2])
            lt = self.callable(fn, a[2], [c.ty.a[0]] * 2) if len(a) > 2 else self.less(fn, c.ty.a[0])
            s = fn.read(c); fn.check('%s == 0 && %s == %s.len()' % (x, y, s), 'whole range is sorted')
            t = fn.t(); fn.emit('let Ghost(%s) = std_sort::<%s>(Ghost(%s), Ghost(%s));' % (t, c.ty.a[0].v(), s, lt)); fn.obl('call'); fn.write(c, t); return '()'
        if name == 'is_sorted':
            c = fn.iter_container(a[0]); x, y = fn.rvs(a[:2])
            lt = self.callable(fn, a[2], [c.ty.a[0]] * 2) if len(a) > 2 else self.less(fn, c.ty.a[0])
            return 'std_is_sorted(%s, %s, %s, %s)' % (fn.read(c), x, y, lt)
        if name == 'unique':
            c = fn.iter_container(a[0]); x, y = fn.rvs(a[:2]); s = fn.read(c); et = c.ty.a[0]
            eq = self.callable(fn, a[2], [et, et]) if len(a) > 2 else '|a_: %s, b_: %s| %s' % (et.v(), et.v(), self.eq(fn, et, et, 'a_', 'b_'))
            fn.check('%s == 0 && %s == %s.len()' % (x, y, s), 'whole range is made unique')
            t, u = fn.t(), fn.t(); fn.emit('let (Ghost(%s), Ghost(%s)) = std_unique::<%s>(Ghost(%s), Ghost(%s));' % (t, u, et.v(), s, eq)); fn.obl('call'); fn.write(c, u); return t
        if name == 'inplace_merge':
            c = fn.iter_container(a[0]); x, m, y = fn.rvs(a[:3]); s = fn.read(c); et = c.ty.a[0]
            lt = self.callable(fn, a[3], [et, et]) if len(a) > 3 else self.less(fn, et)
            fn.check('%s == 0 && %s == %s.len() && 0 <= %s <= %s.len()' % (x, y, s, m, s), 'whole range is merged')
            t = fn.t(); fn.emit('let Ghost(%s) = std_inplace_merge::<%s>(Ghost(%s), Ghost(%s), Ghost(%s));' % (t, et.v(), s, m, lt)); fn.obl('call'); fn.write(c, t); return '()'
        if name == 'equal_range':
            c = fn.iter_container(a[0]); x, y = fn.rvs(a[:2]); v = fn.rv(a[2]); vt = fn.ty(a[2]); et = c.ty.a[0]; s = fn.read(c)
            l1, l2 = (self.callable(fn, a[3], [et, vt]), self.callable(fn, a[3], [vt, et])) if len(a) > 3 else (self.less(fn, et, vt), self.less(fn, vt, et))
            t, u = fn.t('lb'), fn.t('lb')
            fn.emit('let Ghost(%s) = std_lower_bound::<%s, %s>(Ghost(%s), Ghost(%s), Ghost(%s), Ghost(%s), Ghost(%s));' % (t, et.v(), vt.v(), s, x, y, v, l1)); fn.obl('call')
            fn.emit('let Ghost(%s) = std_upper_bound::<%s, %s>(Ghost(%s), Ghost(%s), Ghost(%s), Ghost(%s), Ghost(%s));' % (u, et.v(), vt.v(), s, x, y, v, l2)); fn.obl('call')
            return '(%s, %s)' % (t, u)
        if name in ('set_union', 'set_intersection', 'set_difference'):
            c1, c2 = fn.iter_container(a[0]), fn.iter_container(a[2]); x = fn.rvs(a[:4]); o = self.inserter(fn, a[4])
            lt = self.less(fn, c1.ty.a[0])
            t = fn.t(); fn.emit('let Ghost(%s) = std_%s::<%s>(Ghost(%s), Ghost(%s), Ghost(%s));' % (t, name, c1.ty.a[0].v(), '%s.subrange(%s, %s)' % (fn.read(c1), x[0], x[1]), '%s.subrange(%s, %s)' % (fn.read(c2), x[2], x[3]), lt)); fn.obl('call')
            fn.write(o, '%s + %s' % (fn.read(o), t)); return '()'
        if name in ('copy', 'transform', 'copy_if'):
            c1 = fn.iter_container(a[0]); x = fn.rvs(a[:2])
            if name == 'copy':
                o = self.inserter(fn, a[2])
                fn.write(o, '%s + %s.subrange(%s, %s)' % (fn.read(o), fn.read(c1), x[0], x[1])); return '()'
            if name == 'transform' and len(a) == 4:
                et = c1.ty.a[0]; f = self.callable(fn, a[3], [et]); o = self.inserter(fn, a[2])
                fn.check('0 <= %s <= %s <= %s.len()' % (x[0], x[1], fn.read(c1)), 'source range is valid')
                fn.write(o, '%s + Seq::new((%s - %s) as nat, |i_: int| (%s)(%s[%s + i_]))' % (fn.read(o), x[1], x[0], f, fn.read(c1), x[0])); return '()'
            if name == 'transform' and len(a) == 5:
                c2 = fn.iter_container(a[2]); o = fn.iter_container(a[3]); y, z = fn.rvs(a[2:4])
                f = self.callable(fn, a[4], [c1.ty.a[0], c2.ty.a[0]]); pre = self.callable_pre(fn, a[4])
                s1, s2, so = fn.read(c1), fn.read(c2), fn.read(o); cnt = '(%s - %s)' % (x[1], x[0])
                fn.check('0 <= %s <= %s <= %s.len()' % (x[0], x[1], s1), 'source range is valid'); fn.check('0 <= %s && %s + %s <= %s.len()' % (y, y, cnt, s2), 'second source range is valid')
                fn.check('0 <= %s && %s + %s <= %s.len()' % (z, z, cnt, so), 'destination range is valid')
                if pre: fn.check('forall|i_: int| #![trigger %s[%s + i_]] 0 <= i_ < %s ==> %s' % (s1, x[0], cnt, pre('%s[%s + i_]' % (s1, x[0]), '%s[%s + i_]' % (s2, y))), 'precondition of the applied function')
                fn.write(o, 'Seq::new(%s.len(), |i_: int| if %s <= i_ < %s + %s { (%s)(%s[%s + i_ - %s], %s[%s + i_ - %s]) } else { %s[i_] })' % (so, z, z, cnt, f, s1, x[0], z, s2, y, z, so)); return '()'
        if name == 'lexicographical_compare':
            c1, c2 = fn.iter_container(a[0]), fn.iter_container(a[2]); x = fn.rvs(a[:4]); et = c1.ty.a[0]
            lt = self.callable(fn, a[4], [et, et]) if len(a) > 4 else self.less(fn, et)
            return 'std_lex(%s.subrange(%s, %s), %s.subrange(%s, %s), %s)' % (fn.read(c1), x[0], x[1], fn.read(c2), x[2], x[3], lt)
        if name == 'minmax' and len(a) in (2, 3):
            x, y = fn.rvs(a[:2]); t = fn.ty(a[0])
            lt = self.callable(fn, a[2], [t, t]) if len(a) > 2 else self.less(fn, t)
            return '(if (%s)(%s, %s) { (%s, %s) } else { (%s, %s) })' % (lt, y, x, y, x, x, y)
        if name == 'accumulate':
            c1 = fn.iter_container(a[0]); x = fn.rvs(a[:2]); init = fn.rv(a[2]); at = fn.ty(n)
            f = self.callable(fn, a[3], [at, c1.ty.a[0]]) if len(a) > 3 else '|a_: %s, b_: %s| a_ + b_' % (at.v(), c1.ty.a[0].v())
            return '%s.subrange(%s, %s).fold_left(%s, %s)' % (fn.read(c1), x[0], x[1], init, f)
        if name == 'remove_if':
            c = fn.iter_container(a[0]); x, y = fn.rvs(a[:2]); s = fn.read(c); pr = self.callable(fn, a[2], [c.ty.a[0]])
            fn.check('%s == 0 && %s == %s.len()' % (x, y, s), 'whole range is filtered')
            t, u = fn.t(), fn.t(); fn.emit('let (Ghost(%s), Ghost(%s)) = std_remove_if::<%s>(Ghost(%s), Ghost(%s));' % (t, u, c.ty.a[0].v(), s, pr)); fn.obl('call'); fn.write(c, u); return t
        if name in ('find', 'find_if'):
            c = fn.iter_container(a[0]); x = fn.rvs(a[:2]); s = fn.read(c)
            if name == 'find':
                v = fn.rv(a[2]); pr = '|a_: %s| %s' % (c.ty.a[0].v(), self.eq(fn, c.ty.a[0], c.ty.a[0], 'a_', v))
            else: pr = self.callable(fn, a[2], [c.ty.a[0]])
            t = fn.t(); fn.emit('let Ghost(%s) = std_find_if::<%s>(Ghost(%s), Ghost(%s), Ghost(%s), Ghost(%s));' % (t, c.ty.a[0].v(), s, x[0], x[1], pr)); fn.obl('call')
            return t
        if name in ('all_of', 'any_of', 'none_of'):
            c = fn.iter_container(a[0]); x = fn.rvs(a[:2]); s = fn.read(c)
            pr = self.callable(fn, a[2], [c.ty.a[0]])
            if name == 'all_of': return '(forall|i_: int| #![trigger %s[i_]] %s <= i_ < %s ==> (%s)(%s[i_]))' % (s, x[0], x[1], pr, s)
            e = '(exists|i_: int| #![trigger %s[i_]] %s <= i_ < %s && (%s)(%s[i_]))' % (s, x[0], x[1], pr, s)
            return e if name == 'any_of' else '!' + e
        if name == 'fill':
            c = fn.iter_container(a[0]); x = fn.rvs(a)
            fn.write(c, 'Seq::new(%s.len(), |i_: int| if %s <= i_ < %s { %s } else { %s[i_] })' % (fn.read(c), x[0], x[1], x[2], fn.read(c))); return '()'
        if name in ('make_unique',):
            ty = fn.ty(n)
            if ty.k == 'hptr':
                H = self.u.cfg['heap'][ty.name]; v = self.build(fn, ty.a[0] if ty.a else fn.T.parse(H[1]), a); p = fn.t()
                fn.emit('let Ghost(%s) = std_alloc(Ghost(%s.dom()));' % (p, H[0])); fn.obl('call')
                fn.write(Place(H[0], [('m', p)], None), v); return p
            return self.u.cfg['make_unique'](fn, n, a, want) if 'make_unique' in self.u.cfg else self.build(fn, fn.ty(n).a[0], a)
        if name == 'make_optional': return 'Some(%s)' % fn.rv(a[0])
        if name in ('make_move_iterator',): return fn.rv(a[0])
        raise ExtractError('library function ' + str(name))

    def get_index(self, fn, n, p):
        # std::get<I>: the index is only visible through the result type
        t = fn.ty(n).v(); c = [i for i, x in enumerate(p.ty.a) if x.v() == t]
        s = fn.callee_ref(n)
        fq = s.get('foundReferencedDecl', {}).get('name')
        m = re.search(r'tuple_element<(\d+)', s['referencedDecl'].get('type', {}).get('qualType', '') + ' ' + s.get('type', {}).get('qualType', ''))
        if m: return int(m.group(1))
        m = re.search(r'__tuple_element_t<(\d+)', s['referencedDecl'].get('type', {}).get('qualType', '') + ' ' + s.get('type', {}).get('qualType', ''))
        if m: return int(m.group(1))
        if len(c) == 1: return c[0]
        raise ExtractError('std::get index')

    def inserter(self, fn, n):
        s = fn.strip_all(n)
        while s['kind'] == 'CXXConstructExpr': s = fn.strip_all(kids(s)[0])
        if s['kind'] == 'CallExpr' and fn.callee_name(s) == 'back_inserter': return fn.lv(kids(s)[1])
        raise ExtractError('output iterator')

    def fnref(self, fn, n):
        """contract of a function passed by name"""
        s = fn.strip_all(n)
        if s['kind'] == 'DeclRefExpr':
            d = self.u.ast.by_id.get(s['referencedDecl']['id'])
            if d is not None and d['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return self.u.contract_for(d), d
        return None, None

    def callable_pre(self, fn, n):
        c, d = self.fnref(fn, n)
        if c is None or not c.get('spec_pre'): return None
        return lambda *a: '%s(%s)' % (c['spec_pre'], ', '.join([c['spec_args']] + list(a)))

    def callable(self, fn, n, tys):
        c, d = self.fnref(fn, n)
        if c is not None and c.get('spec_call'):
            nm = ('a_', 'b_', 'c_')[:len(tys)]; self.u.used_contracts.add(c['name'])
            return '|%s| %s(%s)' % (', '.join('%s: %s' % (x, t.v()) for x, t in zip(nm, tys)), c['spec_call'], ', '.join(([c['spec_args']] if c.get('spec_args') else []) + list(nm)))
        if d is not None and self.u.body(d) is not None: return fn.spec_fn_of(d, tys)
        l = fn.lambda_of(n)
        if l is not None: return fn.spec_lambda(l[0], tys)
        # comparator object
        ty = fn.ty(n)
        if ty.k == 'rec':
            d = self.find_operator(ty, 'operator()', tys) or self.find_operator(ty, 'operator()')
            if d is not None: return fn.spec_fn_of(d, tys)
        raise ExtractError('callable argument')

    # ----- operators
    def operator(self, fn, n, op, a, want):
        h = self.u.cfg.get('operators', {}).get(op)
        if h:
            r = h(fn, n, a, want)
            if r is not None: return r
        if op == 'operator[]': return self.ret_lv(fn, fn.index(a[0], a[1]), want)
        if op == 'operator*' and len(a) == 1:
            p = fn.deref(a[0])
            if p.root == '!hit': return p if want in ('lv', 'ptr') else fn.hit_pair(p)
            return self.ret_lv(fn, p, want)
        if op == 'operator->': return self.ret_lv(fn, fn.deref(a[0]), want)
        if op == 'operator()' and self.u.cfg.get('call_fn'):
            r = self.u.cfg['call_fn'](fn, n, a, want)
            if r is not None: return r
        if op == 'operator()':
            m = re.match(r'(?:const )?(?:std::)?(less|greater|equal_to)<', qt(a[0]))
            if m and len(a) == 3:
                x, y = fn.rvs(a[1:]); t = fn.ty(a[1])
                return self.eq(fn, t, t, x, y) if m.group(1) == 'equal_to' else self.less_expr(fn, t, *((x, y) if m.group(1) == 'less' else (y, x)))
            raise ExtractError('call of an unknown function object')
        if op in ('operator<', 'operator>', 'operator<=', 'operator>=') and len(a) == 2:
            # rewritten comparison: (x <=> y) < 0 or 0 < (y <=> x)
            for i in (0, 1):
                s = fn.strip_all(a[i])
                if s['kind'] == 'CXXOperatorCallExpr' and fn.callee_name(s) == 'operator<=>':
                    l, r = fn.rvs(kids(s)[1:]); t = fn.ty(kids(s)[1])
                    if i == 1: op = {'operator<': 'operator>', 'operator>': 'operator<', 'operator<=': 'operator>=', 'operator>=': 'operator<='}[op]
                    if op == 'operator<': return self.less_expr(fn, t, l, r)
                    if op == 'operator>': return self.less_expr(fn, t, r, l)
                    if op == 'operator<=': return '!' + self.less_expr(fn, t, r, l)
                    return '!' + self.less_expr(fn, t, l, r)
        ta = fn.ty(a[0])
        if op == 'operator=':
            v = fn.rv(a[1]); p = fn.lv(a[0])
            pt = p.ty or ta
            try: vt = fn.ty(a[1])
            except ExtractError: vt = None
            if pt.k == 'option' and vt is not None and vt.k not in ('option', 'raw'): v = 'Some(%s)' % v
            fn.write(p, v); fn.track(a[0], a[1]); return self.ret_lv(fn, p, want)
        if op in ('operator++', 'operator--'):
            p = fn.lv(a[0]); rev = (p.ty or ta).name == 'reverse_iterator'
            old = fn.read(p)
            if (p.ty or ta).k != 'iter': raise ExtractError('increment of %r' % (p.ty or ta))
            d = '+' if (op == 'operator++') != rev else '-'
            if len(a) == 2:
                o = fn.snap(old, ta); fn.write(p, '(%s %s 1)' % (old, d)); return o
            fn.write(p, '(%s %s 1)' % (old, d)); return self.ret_lv(fn, p, want)
        if op in ('operator+=', 'operator-=') and ta.k == 'iter':
            v = fn.rv(a[1]); p = fn.lv(a[0]); o = op[8] if ta.name != 'reverse_iterator' else {'+': '-', '-': '+'}[op[8]]; fn.write(p, '(%s %s %s)' % (fn.read(p), o, v)); return self.ret_lv(fn, p, want)
        if op in ('operator+', 'operator-') and ta.k == 'iter':
            x, y = fn.rvs(a)
            if ta.name == 'reverse_iterator': return '(%s - %s)' % (y, x) if fn.ty(a[1]).k == 'iter' else '(%s %s %s)' % (x, {'+': '-', '-': '+'}[op[8]], y)
            return '(%s %s %s)' % (x, op[8], y)
        if op == 'operator+' and ta.k == 'seq':
            x, y = fn.rvs(a); return '(%s + %s)' % (x, y)
        if op in ('operator==', 'operator!='):
            x, y = fn.rvs(a); e = self.eq(fn, ta, fn.ty(a[1]), x, y)
            return e if op == 'operator==' else '!%s' % e
        if op == 'operator!' : return '!(%s)' % fn.rv(a[0])
        if op in ('operator<', 'operator>', 'operator<=', 'operator>='):
            x, y = fn.rvs(a)
            if ta.k == 'iter': return '(%s %s %s)' % ((y, op[8:], x) if ta.name == 'reverse_iterator' else (x, op[8:], y))
            if op == 'operator<': return self.less_expr(fn, ta, x, y)
            if op == 'operator>': return self.less_expr(fn, ta, y, x)
            if op == 'operator<=': return '!' + self.less_expr(fn, ta, y, x)
            return '!' + self.less_expr(fn, ta, x, y)
        raise ExtractError('library operator %s on %r' % (op, ta))

    # ----- construction of library types
    def construct(self, fn, n, ty, a):
        a = [x for x in a if x['kind'] != 'CXXDefaultArgExpr']
        if ty.k in ('lambda', 'fn'): return '()'
        if not a: return self.default(fn, ty)
        if len(a) == 1:
            at = None
            try: at = fn.ty(a[0])
            except ExtractError: pass
            if at is not None and at.k == ty.k and at.v() == ty.v(): return fn.rv(a[0])
            if ty.k == 'option':
                if at is not None and at.k == 'unit' or 'nullopt' in qt(a[0]): return 'None'
                return 'Some(%s)' % fn.rv(a[0])
            if ty.k == 'seq' and at is not None and at.k == 'int': return 'Seq::new((%s) as nat, |i_: int| %s)' % (fn.rv(a[0]), self.default(fn, ty.a[0]))
            if ty.k == 'seq' and at is not None and at.k == 'seq': return fn.rv(a[0])
            if ty.k == 'seq' and ty.a[0].k == 'int': return fn.rv(a[0])
            if ty.k in ('iter', 'hiter', 'int', 'bool'): return fn.rv(a[0])
            if ty.k == 'uptr': return fn.rv(a[0])
            if ty.k == 'raw' and at is not None and at.v() == self.u.cfg.get('raw_construct', {}).get(ty.name, ('',))[0]: return '%s(%s)' % (self.u.cfg['raw_construct'][ty.name][1], fn.rv(a[0]))
            if ty.k == 'hptr': return fn.rv(a[0])
            if ty.k == 'tuple' and at is not None and at.k == 'tuple': return fn.rv(a[0])
            if ty.k in ('set', 'oset') and at is not None and at.k == 'seq': return '%s.to_set()' % fn.rv(a[0])
        if ty.k == 'tuple' and len(a) == len(ty.a): return '(%s)' % ', '.join(self.conv_args(fn, ty, a))
        if ty.k == 'seq' and len(a) == 2:
            at = fn.ty(a[0])
            if at.k in ('iter', 'ptr') :
                c = fn.iter_container(a[0]); x, y = fn.rvs(a)
                fn.check('0 <= %s <= %s <= %s.len()' % (x, y, fn.read(c)), 'source range is valid')
                if at.name == 'reverse_iterator': return '%s.subrange(%s, %s).reverse()' % (fn.read(c), y, x)
                if c.ty.a and c.ty.a[0].v() != ty.a[0].v(): return self.convert_range(fn, ty, c, x, y)
                return '%s.subrange(%s, %s)' % (fn.read(c), x, y)
            if at.k == 'int':
                x, y = fn.rvs(a); return 'Seq::new((%s) as nat, |i_: int| %s)' % (x, y)
            if at.k == 'hiter':
                c = fn.iter_container(a[0])
                t = fn.t('enum'); fn.emit('let Ghost(%s) = std_enum_%s::<%s>(Ghost(%s));' % (t, c.ty.k if c.ty.k in ('set', 'map') else 'set', ', '.join(x.v() for x in c.ty.a), fn.read(c)))
                if c.ty.k == 'map' and ty.a[0].k == 'rec':
                    return 'Seq::new(%s.len(), |i_: int| %s)' % (t, self.rec_from_value(fn, ty.a[0], '%s[i_]' % t, Ty('tuple', c.ty.a)))
                return t
        if ty.k in ('set', 'oset') and len(a) == 2:
            c = fn.iter_container(a[0]); x, y = fn.rvs(a); return '%s.subrange(%s, %s).to_set()' % (fn.read(c), x, y)
        raise ExtractError('construction of %r from %d arguments' % (ty, len(a)))

    def convert_range(self, fn, ty, c, x, y):
        """range construction with a converting element constructor: one constructor call per element, in order"""
        for k in self.u.contracts:
            d = self.u.decl_of.get(k['name'])
            if d is None or d['kind'] != 'CXXConstructorDecl': continue
            i = self.u.in_sig(k, d); o = self.u.out_sig(k, d)
            if len(i) == 1 and i[0][2].v() == c.ty.a[0].v() and o[0][2].v() == ty.a[0].v(): break
        else: raise ExtractError('range construction of %r from %r' % (ty, c.ty))
        self.u.used_contracts.add(k['name']); fn.calls.add(k['name'])
        s = fn.snap('%s.subrange(%s, %s)' % (fn.read(c), x, y), c.ty); fn.nconv = getattr(fn, 'nconv', 0) + 1; m = fn.nconv
        fn.emit('let ghost mut conv%d_: %s = Seq::<%s>::empty(); let ghost mut cn%d: int = 0int;' % (m, ty.v(), ty.a[0].v(), m))
        fn.emit('while branch(Ghost(cn%d < %s.len()))' % (m, s))
        fn.used_loops.add('conv %d' % m); inv = ['0 <= cn%d <= %s.len()' % (m, s), 'conv%d_.len() == cn%d' % (m, m)] + [z.strip() for z in fn.spec.get('loops', {}).get('conv %d' % m, '').split(';;') if z.strip()]
        fn.emit('    invariant'); [(fn.emit('        %s, // CONVERSION LOOP %d' % (z, m)), fn.obl('invariant')) for z in inv]
        fn.emit('{ let Ghost(ce_) = %s(Ghost(%s[cn%d])); proof { conv%d_ = conv%d_.push(ce_); cn%d = cn%d + 1; } }' % (k['name'], s, m, m, m, m, m)); fn.obl('call')
        return 'conv%d_' % m

    def conv_args(self, fn, ty, a):
        return fn.rvs(a)

    def pointer(self, fn, s, ty):
        h = self.u.cfg.get('pointer_init')
        return h(fn, s, ty) if h else None


PRELUDE = r'''#![allow(warnings)]
use vstd::prelude::*;
#[allow(unused_imports)] use vstd::set_lib::*;
#[allow(unused_imports)] use vstd::seq_lib::*;
verus! {
global size_of usize == 8;
// ---- control flow on extracted conditions
#[verifier::external_body] fn branch(Ghost(c): Ghost<bool>) -> (b: bool) ensures b == c { unimplemented!() }
// ---- machine integers
pub open spec fn pow2w(k: int) -> int { if k == 8 { 0x100 } else if k == 16 { 0x1_0000 } else if k == 32 { 0x1_0000_0000 } else { 0x1_0000_0000_0000_0000 } }
pub open spec fn uwrap8(x: int) -> int { if 0 <= x < 0x100 { x } else { x % 0x100 } }
pub open spec fn uwrap16(x: int) -> int { if 0 <= x < 0x1_0000 { x } else { x % 0x1_0000 } }
pub open spec fn uwrap32(x: int) -> int { if 0 <= x < 0x1_0000_0000 { x } else { x % 0x1_0000_0000 } }
pub open spec fn uwrap64(x: int) -> int { if 0 <= x < 0x1_0000_0000_0000_0000 { x } else { x % 0x1_0000_0000_0000_0000 } }
pub open spec fn swrap8(x: int) -> int { if -0x80 <= x < 0x80 { x } else { (x + 0x80) % 0x100 - 0x80 } }
pub open spec fn swrap16(x: int) -> int { if -0x8000 <= x < 0x8000 { x } else { (x + 0x8000) % 0x1_0000 - 0x8000 } }
pub open spec fn swrap32(x: int) -> int { if -0x8000_0000 <= x < 0x8000_0000 { x } else { (x + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000 } }
pub open spec fn swrap64(x: int) -> int { if -0x8000_0000_0000_0000 <= x < 0x8000_0000_0000_0000 { x } else { (x + 0x8000_0000_0000_0000) % 0x1_0000_0000_0000_0000 - 0x8000_0000_0000_0000 } }
pub open spec fn usub8(a: int, b: int) -> int { if a >= b { a - b } else { a - b + 0x100 } }
pub open spec fn usub16(a: int, b: int) -> int { if a >= b { a - b } else { a - b + 0x1_0000 } }
pub open spec fn usub32(a: int, b: int) -> int { if a >= b { a - b } else { a - b + 0x1_0000_0000 } }
pub open spec fn usub64(a: int, b: int) -> int { if a >= b { a - b } else { a - b + 0x1_0000_0000_0000_0000 } }
pub open spec fn trunc_div(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trunc_mod(a: int, b: int) -> int { a - trunc_div(a, b) * b }
pub open spec fn ubor8(a: int, b: int) -> int { ((a as u64) | (b as u64)) as int }
pub open spec fn uband8(a: int, b: int) -> int { ((a as u64) & (b as u64)) as int }
pub open spec fn ubxor8(a: int, b: int) -> int { ((a as u64) ^ (b as u64)) as int }
pub open spec fn ubor16(a: int, b: int) -> int { ((a as u64) | (b as u64)) as int }
pub open spec fn uband16(a: int, b: int) -> int { ((a as u64) & (b as u64)) as int }
pub open spec fn ubxor16(a: int, b: int) -> int { ((a as u64) ^ (b as u64)) as int }
pub open spec fn ubor32(a: int, b: int) -> int { ((a as u64) | (b as u64)) as int }
pub open spec fn uband32(a: int, b: int) -> int { ((a as u64) & (b as u64)) as int }
pub open spec fn ubxor32(a: int, b: int) -> int { ((a as u64) ^ (b as u64)) as int }
pub open spec fn ubor64(a: int, b: int) -> int { ((a as u64) | (b as u64)) as int }
pub open spec fn uband64(a: int, b: int) -> int { ((a as u64) & (b as u64)) as int }
pub open spec fn ubxor64(a: int, b: int) -> int { ((a as u64) ^ (b as u64)) as int }
pub open spec fn ubshl32(a: int, b: int) -> int { ((a as u32) << (b as u32)) as int }
pub open spec fn ubshr32(a: int, b: int) -> int { ((a as u32) >> (b as u32)) as int }
pub open spec fn ubnot32(a: int) -> int { (!(a as u32)) as int }
pub open spec fn ubshl64(a: int, b: int) -> int { ((a as u64) << (b as u64)) as int }
pub open spec fn ubshr64(a: int, b: int) -> int { ((a as u64) >> (b as u64)) as int }
pub open spec fn ubnot64(a: int) -> int { (!(a as u64)) as int }
// ---- standard library (trusted contracts)
pub uninterp spec fn raw_default<T>() -> T;
pub open spec fn std_resize<T>(s: Seq<T>, n: int, v: T) -> Seq<T> { if n <= s.len() { s.subrange(0, n) } else { s + Seq::new((n - s.len()) as nat, |i: int| v) } }
pub open spec fn std_insert_range<T>(s: Seq<T>, x: int, t: Seq<T>) -> Seq<T> { if s.len() == 0 { t } else { s.subrange(0, x) + t + s.subrange(x, s.len() as int) } }
pub open spec fn std_erase<T>(s: Seq<T>, x: int, y: int) -> Seq<T> { if y == s.len() { s.subrange(0, x) } else { s.subrange(0, x) + s.subrange(y, s.len() as int) } }
#[verifier::external_body] fn std_lower_bound<T, U>(Ghost(s): Ghost<Seq<T>>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>, Ghost(x): Ghost<U>, Ghost(lt): Ghost<spec_fn(T, U) -> bool>) -> (r: Ghost<int>)
    requires 0 <= lo <= hi <= s.len(), forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i <= j < hi && lt(s[j], x) ==> lt(s[i], x), // lower_bound: range is partitioned
    ensures lo <= r@ <= hi, forall|i: int| #![trigger s[i]] lo <= i < r@ ==> lt(s[i], x), forall|i: int| #![trigger s[i]] r@ <= i < hi ==> !lt(s[i], x),
{ unimplemented!() }
#[verifier::external_body] fn std_upper_bound<T, U>(Ghost(s): Ghost<Seq<T>>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>, Ghost(x): Ghost<U>, Ghost(lt): Ghost<spec_fn(U, T) -> bool>) -> (r: Ghost<int>)
    requires 0 <= lo <= hi <= s.len(), forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i <= j < hi && lt(x, s[i]) ==> lt(x, s[j]),
    ensures lo <= r@ <= hi, forall|i: int| #![trigger s[i]] lo <= i < r@ ==> !lt(x, s[i]), forall|i: int| #![trigger s[i]] r@ <= i < hi ==> lt(x, s[i]),
{ unimplemented!() }
#[verifier::external_body] fn std_sort<T>(Ghost(s): Ghost<Seq<T>>, Ghost(lt): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<Seq<T>>)
    ensures r@.len() == s.len(), r@.to_multiset() == s.to_multiset(), forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < s.len() ==> !lt(r@[j], r@[i]),
        forall|x: T| #[trigger] r@.contains(x) == s.contains(x), s.no_duplicates() ==> r@.no_duplicates(),
{ unimplemented!() }
// priority_queue::top: some element that no other element precedes; the comparator must be a strict weak order
pub uninterp spec fn std_pq_top<T>(s: Seq<T>, lt: spec_fn(T, T) -> bool) -> int;
#[verifier::external_body] fn std_pq_axiom<T>(Ghost(s): Ghost<Seq<T>>, Ghost(lt): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<int>)
    requires s.len() > 0, forall|a: T| #[trigger] lt(a, a) ==> false, forall|a: T, b: T, c: T| #![trigger lt(a, b), lt(b, c)] !lt(a, b) && !lt(b, c) ==> !lt(a, c), forall|a: T, b: T| #[trigger] lt(a, b) ==> !lt(b, a),
    ensures r@ == std_pq_top(s, lt), 0 <= r@ < s.len(), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> !lt(s[r@], s[i]),
{ unimplemented!() }
#[verifier::external_body] pub proof fn std_pq_range<T>(s: Seq<T>, lt: spec_fn(T, T) -> bool) ensures s.len() > 0 ==> 0 <= std_pq_top(s, lt) < s.len() { }
// push: the top only changes to a new element that is greater (sift-up of the binary heap)
#[verifier::external_body] fn std_pq_push<T>(Ghost(s): Ghost<Seq<T>>, Ghost(x): Ghost<T>, Ghost(lt): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<int>)
    requires forall|a: T| #[trigger] lt(a, a) ==> false, forall|a: T, b: T, c: T| #![trigger lt(a, b), lt(b, c)] !lt(a, b) && !lt(b, c) ==> !lt(a, c), forall|a: T, b: T| #[trigger] lt(a, b) ==> !lt(b, a),
    ensures r@ == std_pq_top(s.push(x), lt), r@ == (if s.len() > 0 && !lt(s[std_pq_top(s, lt)], x) { std_pq_top(s, lt) } else { s.len() as int }), s.len() > 0 ==> 0 <= std_pq_top(s, lt) < s.len(),
{ unimplemented!() }
pub open spec fn std_is_sorted<T>(s: Seq<T>, lo: int, hi: int, lt: spec_fn(T, T) -> bool) -> bool { forall|i: int| #![trigger s[i]] lo <= i && i + 1 < hi ==> !lt(s[i + 1], s[i]) }
#[verifier::external_body] fn std_find_if<T>(Ghost(s): Ghost<Seq<T>>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: Ghost<int>)
    requires 0 <= lo <= hi <= s.len(),
    ensures lo <= r@ <= hi, r@ < hi ==> p(s[r@]), forall|i: int| #![trigger s[i]] lo <= i < r@ ==> !p(s[i]),
{ unimplemented!() }
#[verifier::external_body] fn std_alloc(Ghost(live): Ghost<Set<int>>) -> (r: Ghost<int>) ensures !live.contains(r@), r@ > 0 { unimplemented!() }
#[verifier::external_body] fn std_remove_if<T>(Ghost(s): Ghost<Seq<T>>, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: (Ghost<int>, Ghost<Seq<T>>))
    ensures r.1@.len() == s.len(), 0 <= r.0@ <= s.len(), forall|x: T| #[trigger] r.1@.subrange(0, r.0@).contains(x) <==> s.contains(x) && !p(x),
        forall|i: int, j: int| #![trigger r.1@.subrange(0, r.0@)[i], r.1@.subrange(0, r.0@)[j]] 0 <= i < j < r.0@ ==> exists|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() && s[a] == r.1@[i] && s[b] == r.1@[j], // the kept elements stay in order
{ unimplemented!() }
pub open spec fn std_lex<T>(a: Seq<T>, b: Seq<T>, lt: spec_fn(T, T) -> bool) -> bool { exists|k: int| #![trigger lexat(a, b, lt, k)] lexat(a, b, lt, k) }
pub open spec fn lexat<T>(a: Seq<T>, b: Seq<T>, lt: spec_fn(T, T) -> bool, k: int) -> bool {
    0 <= k <= a.len() && k <= b.len() && (forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < k ==> !lt(a[i], b[i]) && !lt(b[i], a[i])) && k < b.len() && (k == a.len() || lt(a[k], b[k]))
}
pub open spec fn ssorted<T>(s: Seq<T>, lt: spec_fn(T, T) -> bool) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> lt(s[i], s[j]) }
#[verifier::external_body] fn std_set_union<T>(Ghost(a): Ghost<Seq<T>>, Ghost(b): Ghost<Seq<T>>, Ghost(lt): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<Seq<T>>)
    requires ssorted(a, lt), ssorted(b, lt),
    ensures ssorted(r@, lt), forall|x: T| #[trigger] r@.contains(x) == (a.contains(x) || b.contains(x)),
{ unimplemented!() }
#[verifier::external_body] fn std_set_intersection<T>(Ghost(a): Ghost<Seq<T>>, Ghost(b): Ghost<Seq<T>>, Ghost(lt): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<Seq<T>>)
    requires ssorted(a, lt), ssorted(b, lt),
    ensures ssorted(r@, lt), forall|x: T| #[trigger] r@.contains(x) == (a.contains(x) && b.contains(x)),
{ unimplemented!() }
#[verifier::external_body] fn std_set_difference<T>(Ghost(a): Ghost<Seq<T>>, Ghost(b): Ghost<Seq<T>>, Ghost(lt): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<Seq<T>>)
    requires ssorted(a, lt), ssorted(b, lt),
    ensures ssorted(r@, lt), forall|x: T| #[trigger] r@.contains(x) == (a.contains(x) && !b.contains(x)),
{ unimplemented!() }
#[verifier::external_body] fn std_inplace_merge<T>(Ghost(s): Ghost<Seq<T>>, Ghost(m): Ghost<int>, Ghost(lt): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<Seq<T>>)
    requires 0 <= m <= s.len(), forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < m ==> !lt(s[j], s[i]), forall|i: int, j: int| #![trigger s[i], s[j]] m <= i < j < s.len() ==> !lt(s[j], s[i]),
    ensures r@.len() == s.len(), r@.to_multiset() == s.to_multiset(), forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < s.len() ==> !lt(r@[j], r@[i]), forall|x: T| #[trigger] r@.contains(x) == s.contains(x), s.no_duplicates() ==> r@.no_duplicates(),
{ unimplemented!() }
// the first element of every run of equal elements stays, in order (the equivalence must be transitive)
#[verifier::external_body] fn std_unique<T>(Ghost(s): Ghost<Seq<T>>, Ghost(eq): Ghost<spec_fn(T, T) -> bool>) -> (r: (Ghost<int>, Ghost<Seq<T>>))
    requires forall|a: T, b: T, c: T| #![trigger eq(a, b), eq(b, c)] eq(a, b) && eq(b, c) ==> eq(a, c),
    ensures r.1@.len() == s.len(), 0 <= r.0@ <= s.len(), s.len() > 0 ==> r.0@ > 0, forall|i: int| #![trigger r.1@[i]] 0 <= i && i + 1 < r.0@ ==> !eq(r.1@[i], r.1@[i + 1]),
        forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> exists|i: int| #![trigger r.1@[i]] 0 <= i < r.0@ && (r.1@[i] == s[k] || eq(r.1@[i], s[k])),
        forall|i: int| #![trigger r.1@[i]] 0 <= i < r.0@ ==> s.contains(r.1@[i]),
        forall|i: int, j: int| #![trigger r.1@[i], r.1@[j]] 0 <= i < j < r.0@ ==> exists|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() && s[a] == r.1@[i] && s[b] == r.1@[j],
{ unimplemented!() }
#[verifier::external_body] fn std_oset_insert<T>(Ghost(s): Ghost<Seq<T>>, Ghost(x): Ghost<T>, Ghost(lt): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<Seq<T>>)
    requires ssorted(s, lt),
    ensures ssorted(r@, lt), forall|y: T| #[trigger] r@.contains(y) == (s.contains(y) || y == x),
{ unimplemented!() }
#[verifier::external_body] fn std_oset_insert_all<T>(Ghost(s): Ghost<Seq<T>>, Ghost(x): Ghost<Seq<T>>, Ghost(lt): Ghost<spec_fn(T, T) -> bool>) -> (r: Ghost<Seq<T>>)
    requires ssorted(s, lt),
    ensures ssorted(r@, lt), forall|y: T| #[trigger] r@.contains(y) == (s.contains(y) || x.contains(y)),
{ unimplemented!() }
#[verifier::external_body] fn std_enum_set<T>(Ghost(s): Ghost<Set<T>>) -> (r: Ghost<Seq<T>>)
    ensures r@.no_duplicates(), forall|x: T| #[trigger] r@.contains(x) == s.contains(x), r@.to_set() =~= s, r@.len() == s.len(),
{ unimplemented!() }
#[verifier::external_body] fn std_enum_map<K, V>(Ghost(m): Ghost<Map<K, V>>) -> (r: Ghost<Seq<(K, V)>>)
    ensures r@.no_duplicates(), forall|k: K| #[trigger] m.dom().contains(k) ==> r@.contains((k, m[k])), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> m.dom().contains(r@[i].0) && m[r@[i].0] == r@[i].1,
        forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < r@.len() ==> r@[i].0 != r@[j].0, r@.len() == m.dom().len(),
{ unimplemented!() }
'''
