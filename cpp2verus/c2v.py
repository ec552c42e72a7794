"""Mechanical translation of instantiated C++ function bodies (clang AST of the real /repo sources) into ghost-mode
Verus functions.  Control flow, assignments, calls and conditions are taken from the AST one to one; data is mapped to
specification values (vector -> Seq, iterator -> index, struct -> struct, integers -> int with the wrap-around, range
and bounds checks emitted as obligations).  What is dropped: see DESIGN.md ("What the extraction drops")."""
import re
from cppast import ExtractError, body
from vtypes import Ty, vname, INTS


class Place:
    def __init__(s, root, path=(), ty=None): s.root = root; s.path = list(path); s.ty = ty
    def then(s, step, ty): return Place(s.root, s.path + [step], ty)


class Var:
    def __init__(s, kind, **k): s.kind = kind; s.__dict__.update(k)


class NeedStmt(Exception):
    pass


WRAP = ('ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr',
        'CXXConstCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'SubstNonTypeTemplateParmExpr', 'CXXRewrittenBinaryOperator', 'CXXStdInitializerListExpr', 'CXXReinterpretCastExpr', 'FullExpr')


def kids(n): return [c for c in n.get('inner', []) if isinstance(c, dict)]


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))


class FnGen:
    """Translates one function."""

    def __init__(self, unit, decl, spec, name):
        self.u = unit; self.ast = unit.ast; self.T = unit.types; self.decl = decl; self.spec = spec or {}; self.name = name
        self.env = {}; self.names = set(); self.lines = []; self.ind = 1; self.loops = {}; self.tmps = {}
        self.guards = []; self.pure = False; self.nobl = {}; self.this = None; self.inline_stack = []; self.loop_stack = []
        self.aliased = {}; self.nret = 0; self.outs = []; self.exact = self.spec.get('exact', False); self.stop_at = None; self.labels = []; self.cont = None
        self.used_loops = set(); self.calls = set(); self.hint_used = set(); self.ncall = {}

    # ---------- emission
    def emit(self, s):
        if self.pure: raise ExtractError('statement needed inside a pure expression: ' + s[:80])
        m = re.match(r'let \(?Ghost\((\w+)\)[^=]* = (std_\w+)', s)
        if m and self.spec.get('hints'):        # library call: annotation points "before/after std_x k", $R is its (first) result
            k = self.ncall[m.group(2)] = self.ncall.get(m.group(2), 0) + 1
            self.hint('before %s %d' % (m.group(2), k))
            self.lines.append('    ' * self.ind + s)
            self.hint('after %s %d' % (m.group(2), k), m.group(1))
            return
        self.lines.append('    ' * self.ind + s)

    def obl(self, kind):
        self.nobl[kind] = self.nobl.get(kind, 0) + 1

    def check(self, cond, label):
        if self.pure: return
        g = ' && '.join('(%s)' % x for x in self.guards)
        self.emit('assert(%s); // OBLIGATION %s' % (('(%s) ==> (%s)' % (g, cond)) if g else cond, label)); self.obl('safety')

    def hint(self, where, res=''):
        h = self.spec.get('hints', {}).get(where)
        if h:
            h = h.replace('$R', res)
            self.hint_used.add(where)
            self.emit('proof { ' + ' '.join(self.sub(h).split('\n')) + ' }' if not h.strip().startswith('raw:') else self.sub(h.strip()[4:]))

    def fresh(self, base):
        base = vname(base)
        n = base; k = 2
        while n in self.names:
            n = '%s_%d' % (base, k); k += 1
        self.names.add(n)
        return n

    def t(self, prefix='t'):
        self.tmps[prefix] = self.tmps.get(prefix, 0) + 1
        return '%s%d_' % (prefix, self.tmps[prefix])

    def let(self, name, ty, val):
        self.emit('let ghost mut %s: %s = %s;' % (name, ty.v(), val))

    def snap(self, val, ty):
        n = self.t()
        self.emit('let ghost %s: %s = %s;' % (n, ty.v(), val))
        return n

    def sub(self, text):
        return text

    # ---------- places
    def read(self, p):
        e = p.root
        for s in p.path:
            e = self.step(e, s)
        return e

    def step(self, e, s):
        k = s[0]
        if k == 'f': return '%s.%s' % (e, vname(s[1]))
        if k == 't': return '%s.%d' % (e, s[1])
        if k == 'i': return '%s[%s]' % (e, s[1])
        if k == 'some': return '%s->0' % e
        if k == 'm': return '%s[%s]' % (e, s[1])
        raise ExtractError('step')

    def upd(self, e, path, val, ty_chain=None):
        if not path: return val
        s = path[0]; inner = self.upd(self.step(e, s), path[1:], val)
        k = s[0]
        if k == 'f': return '%s { %s: %s, ..%s }' % (s[2], vname(s[1]), inner, e)
        if k == 't': return '(%s)' % ', '.join(inner if i == s[1] else '%s.%d' % (e, i) for i in range(s[2]))
        if k == 'i': return '%s.update(%s, %s)' % (e, s[1], inner)
        if k == 'some': return 'Some(%s)' % inner
        if k == 'm': return '%s.insert(%s, %s)' % (e, s[1], inner)

    def write(self, p, val):
        if p.root.startswith('!'): raise ExtractError('write to a read-only place ' + p.root)
        if p.root.startswith('('): raise ExtractError('write to a temporary')
        self.emit('proof { %s = %s; }' % (p.root, self.upd(p.root, p.path, val)))

    # ---------- types
    def ty(self, n): return self.T.parse(qt(n))

    # ---------- lvalues
    def strip(self, n):
        while n['kind'] in WRAP and kids(n) and n.get('castKind') not in ('IntegralCast', 'LValueToRValue', 'UserDefinedConversion', 'ConstructorConversion', 'FloatingToIntegral', 'IntegralToBoolean', 'PointerToBoolean', 'NullToPointer'):
            n = kids(n)[0]
        return n

    def strip_all(self, n):
        while n['kind'] in WRAP and kids(n): n = kids(n)[0]
        return n

    def is_lv(self, n):
        return n.get('valueCategory') in ('lvalue', 'xvalue')

    def lv(self, n):
        """place of an lvalue expression"""
        k = n['kind']
        if k in WRAP and kids(n):
            ck = n.get('castKind')
            if ck in ('ConstructorConversion', 'UserDefinedConversion', 'IntegralCast'):
                return self.tempplace(n)
            return self.lv(kids(n)[0])
        if k == 'DeclRefExpr':
            r = n['referencedDecl']; v = self.env.get(r['id'])
            if v is None:
                return self.tempplace(n)
            if v.kind == 'place': return v.place
            if v.kind == 'val': return Place(v.name, [], v.ty)
            if v.kind == 'iter': return Place(v.name, [], v.ty)
            raise ExtractError('lvalue of ' + str(r.get('name')))
        if k == 'CXXThisExpr':
            return self.this
        if k == 'MemberExpr':
            b = kids(n)[0]
            m = self.ast.by_id.get(n.get('referencedMemberDecl')) or {}
            try: bt = self.T.parse(re.sub(r'\s*\*(\s*const)?$', '', qt(b))) if n.get('isArrow') else self.ty(b)
            except ExtractError: bt = None
            if self.strip_all(b)['kind'] == 'CXXThisExpr':
                base = self.this
                bt = base.ty or bt
            elif n.get('isArrow'): base = self.deref(b)
            else: base = self.lv(b)
            bt2 = base.ty or bt
            if bt2 is None: raise ExtractError('member of an expression of unknown type: ' + qt(b))
            return self.member(base, bt2, n.get('name'), n)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return self.deref(kids(n)[0])
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            p = self.lv(kids(n)[0]); self.incdec(p, n['opcode'], self.ty(n)); return p
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='):
            return self.assign(n)
        if k == 'CXXOperatorCallExpr':
            op = self.callee_name(n); a = kids(n)[1:]
            if op == 'operator*' and len(a) == 1: return self.deref(a[0])
            if op == 'operator[]':
                d = self.callee_decl(n)
                if d is not None and self.u.body(d) is not None: return self.call_user(n, d, a[1:], want='lv', thisarg=a[0])
                return self.index(a[0], a[1])
            if op in ('operator=', 'operator+=', 'operator++', 'operator--'):
                return self.opcall(n, want='lv')
            d = self.callee_decl(n)
            if d is not None and self.u.body(d) is not None: return self.call_user(n, d, a, want='lv')
            if op in self.u.cfg.get('operators', {}):
                r = self.u.stl.operator(self, n, op, a, 'lv')
                if isinstance(r, Place): return r
        if k in ('CXXMemberCallExpr', 'CallExpr'):
            r = self.call(n, want='lv')
            if isinstance(r, Place): return r
            ty = self.ty(n)
            return Place(self.snap(r, ty), [], ty)
        if k == 'ConditionalOperator':
            return self.tempplace(n)
        if k == 'ArraySubscriptExpr':
            c = kids(n); return self.index(c[0], c[1])
        return self.tempplace(n)

    def tempplace(self, n):
        v = self.rv(n); ty = self.ty(n)
        if self.pure: return Place('(%s)' % v, [], ty)
        return Place(self.snap(v, ty), [], ty)

    def member(self, base, bt, name, n=None):
        if bt.k == 'rec':
            for f, ft, _ in self.T.fields(bt):
                if f == name: return base.then(('f', f, bt.name), ft)
            raise ExtractError('field %s of %s is outside the extracted part' % (name, bt.name))
        if bt.k == 'tuple':
            i = {'first': 0, 'second': 1}.get(name)
            if i is None: raise ExtractError('tuple member ' + str(name))
            return base.then(('t', i, len(bt.a)), bt.a[i])
        if bt.k == 'uptr': return self.member(base, bt.a[0], name, n)
        if bt.k == 'hpair':
            r = self.hit(base, name); return r if isinstance(r, Place) else Place(r, [], bt.a[0])
        raise ExtractError('member %s of %r' % (name, bt))

    def iter_container(self, n):
        """place of the container an iterator expression points into"""
        n = self.strip_all(n)
        if n['kind'] == 'DeclRefExpr':
            v = self.env.get(n['referencedDecl']['id'])
            if v is not None and getattr(v, 'cont', None) is not None: return v.cont
        if n['kind'] in ('CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr'):
            nm = self.callee_name(n)
            if n['kind'] == 'CXXMemberCallExpr':
                obj = kids(kids(n)[0])[0]
                if nm in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'insert', 'erase', 'find', 'lower_bound', 'upper_bound', 'emplace', 'try_emplace', 'insert_or_assign'):
                    d = self.callee_decl(n)
                    if d is not None and self.u.body(d) is not None:
                        return self.user_container(n, d)
                    return self.objplace(kids(n)[0])
                d = self.callee_decl(n)
                if d is not None: return self.user_container(n, d)
            a = kids(n)[1:]
            if nm in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend') and n['kind'] == 'CallExpr': return self.lv(a[0])
            if a: return self.iter_container(a[0])
        if n['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and kids(n): return self.iter_container(kids(n)[0])
        if n['kind'] == 'ConditionalOperator': return self.iter_container(kids(n)[1])
        if n['kind'] == 'UnaryOperator': return self.iter_container(kids(n)[0])
        if n['kind'] == 'MemberExpr':
            c = self.strip_all(kids(n)[0])
            if c['kind'] == 'DeclRefExpr':
                v = self.env.get(c['referencedDecl']['id'])
                if v is not None and getattr(v, 'cont', None) is not None: return v.cont
            return self.iter_container(kids(n)[0])
        raise ExtractError('cannot tell which container an iterator belongs to (%s)' % n['kind'])

    def user_container(self, n, d):
        """container a repository method's returned iterator points into: the sole container field, or as configured"""
        obj = self.objplace(kids(n)[0])
        ty = obj.ty
        if ty.k != 'rec': return obj
        fs = [f for f in self.T.fields(ty) if f[1].k in ('seq', 'map', 'set', 'oset')]
        if len(fs) == 1: return obj.then(('f', fs[0][0], ty.name), fs[0][1])
        raise ExtractError('container of iterator returned by ' + d.get('name', ''))

    def objplace(self, me):
        """object of a member call (MemberExpr)"""
        b = kids(me)[0]
        if self.strip_all(b)['kind'] == 'CXXThisExpr': return self.this
        if me.get('isArrow'): return self.deref(b)
        return self.lv(b)

    def deref(self, n):
        s = self.strip_all(n)
        if s['kind'] == 'CXXThisExpr': return self.this
        if s['kind'] == 'DeclRefExpr':
            v = self.env.get(s['referencedDecl']['id'])
            if v is not None and v.kind == 'place' and getattr(v, 'isptr', False): return v.place
        if s['kind'] == 'CXXOperatorCallExpr' and self.callee_name(s) == 'operator->':
            return self.deref(kids(s)[1])
        if s['kind'] == 'UnaryOperator' and s.get('opcode') == '&': return self.lv(kids(s)[0])
        ty = self.ty(s)
        if ty.k == 'uptr':
            p = self.lv(s); return Place(p.root, p.path, ty.a[0])
        if ty.k == 'hptr':
            v = self.rv(s); H = self.u.cfg['heap'][ty.name]
            self.check('%s.dom().contains(%s)' % (H[0], v), 'dereferenced pointer is valid')
            if not simple(v) and not self.pure: v = self.snap(v, ty)
            return Place(H[0], [('m', v)], ty.a[0] if ty.a else self.T.parse(H[1]))
        if ty.k == 'option':
            p = self.lv(s); self.check('%s.is_some()' % self.read(p), 'optional has a value'); return p.then(('some',), ty.a[0])
        if ty.k == 'hiter':
            c = self.iter_container(s); v = self.rv(s)
            self.check('%s.is_some()' % v, 'dereferenced iterator is valid')
            if c.ty.k == 'map':
                # pair (key, mapped) as a pseudo place
                return Place('!hit', [], Ty('hpair', [c.ty.a[0], c.ty.a[1]], name=(v, c)))
            return Place('(%s->0)' % v, [], c.ty.a[0])
        if ty.k == 'iter':
            c = self.iter_container(s); v = self.rv(s)
            if ty.name in ('reverse_iterator',): v = '(%s - 1)' % v   # base position
            self.check('0 <= %s < %s.len()' % (v, self.read(c)), 'dereferenced iterator is in range')
            if c.ty.k == 'omap': return c.then(('i', v), Ty('tuple', c.ty.a))
            return c.then(('i', v), c.ty.a[0] if c.ty.a else None)
        if ty.k == 'ptr':
            v = self.env.get(s['referencedDecl']['id']) if s['kind'] == 'DeclRefExpr' else None
            if v is not None and v.kind == 'place': return v.place
            if s['kind'] in ('CXXMemberCallExpr', 'CallExpr'):
                p = self.call(s, want='ptr')
                if isinstance(p, Place): return p
            if s['kind'] == 'CXXOperatorCallExpr' and self.u.cfg.get('member_ptr'):   # pointers kept in one member designate elements (by position) of another member of the same object
                p = self.lv(s)
                if len(p.path) >= 2 and p.path[-2][0] == 'f' and p.path[-2][1] in self.u.cfg['member_ptr']:
                    m = self.u.cfg['member_ptr'][p.path[-2][1]]; v = self.read(p); q = Place(p.root, p.path[:-2] + [('f', m) + tuple(p.path[-2][2:])], None)
                    self.check('0 <= %s < %s.len()' % (v, self.read(q)), 'dereferenced pointer is valid')
                    return Place(q.root, q.path + [('i', v)], ty.a[0])
        raise ExtractError('dereference of %s (%s)' % (s['kind'], qt(s)[:80]))

    def index(self, c, i):
        p = self.lv(c) if self.is_lv(c) or True else None
        ty = p.ty or self.ty(c)
        if ty.k == 'rec':
            # repository operator[]: inline
            raise ExtractError('index of record')
        v = self.rv(i)
        if ty.k == 'map':
            # operator[] inserts a default value
            if not self.pure:
                self.emit('proof { if !%s.dom().contains(%s) { %s = %s; } }' % (self.read(p), v, p.root, self.upd(p.root, p.path, '%s.insert(%s, %s)' % (self.read(p), v, ty.a[1].default()))))
            return p.then(('m', v), ty.a[1])
        if ty.k == 'iter':
            raise ExtractError('iterator indexing')
        self.check('0 <= %s < %s.len()' % (v, self.read(p)), 'index in range')
        return p.then(('i', v), ty.a[0])

    def index_place(self, p, ty, i):
        v = self.rv(i); self.check('0 <= %s < %s.len()' % (v, self.read(p)), 'index in range'); return p.then(('i', v), ty.a[0])

    def conv(self, v, ft, tt):
        if ft.k == 'int' and tt.k == 'int':
            if (not ft.signed and not tt.signed and ft.bits <= tt.bits) or (ft.signed and tt.signed and ft.bits <= tt.bits) or (not ft.signed and tt.signed and ft.bits < tt.bits): return v
            return self.wrap(v, tt)
        return v

    # ---------- rvalues
    def rv(self, n):
        k = n['kind']
        if k in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr', 'CXXRewrittenBinaryOperator', 'CXXStdInitializerListExpr'):
            return self.rv(kids(n)[-1] if k == 'SubstNonTypeTemplateParmExpr' else kids(n)[0])
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr'):
            return self.cast(n)
        if k == 'IntegerLiteral':
            return '%sint' % n['value']
        if k == 'CharacterLiteral': return '%sint' % n['value']
        if k == 'CXXBoolLiteralExpr': return 'true' if n['value'] else 'false'
        if k == 'CXXNullPtrLiteralExpr': return '0int'
        if k == 'StringLiteral':
            s = n['value'][1:-1]; s = bytes(s, 'utf-8').decode('unicode_escape')
            return 'Seq::<int>::empty()' + ''.join('.push(%dint)' % ord(c) for c in s)
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            if r['kind'] == 'EnumConstantDecl':
                v = self.T.enumerator(r['name'], None)
                if v is None: raise ExtractError('enumerator ' + r['name'])
                return '%dint' % v
            v = self.env.get(r['id'])
            if v is None:
                d = self.ast.by_id.get(r['id'])
                if d is not None and d['kind'] in ('VarDecl', 'VarTemplateSpecializationDecl') and kids(d):
                    init = [c for c in kids(d) if not c['kind'].endswith('Attr')]
                    if init:
                        sv = getattr(self, 'initvar', None); self.initvar = d
                        try: return self.rv(init[-1])
                        finally: self.initvar = sv
                if d is None and r.get('name') == 'is_signed' and getattr(self, 'initvar', None) is not None:
                    # std::numeric_limits<T>::is_signed in the initialiser of a member of a class template over the integer type T
                    from vtypes import top_template
                    args = top_template(self.ast.qual.get(self.ast.parent.get(self.initvar['id']), ''))[1] or []
                    if args and args[0] in INTS: return 'true' if INTS[args[0]][1] else 'false'
                raise ExtractError('unknown variable %s' % r.get('name'))
            if v.kind == 'const': return v.val
            if v.kind in ('val', 'iter'): return v.name
            if v.kind == 'place':
                if v.place.root == '!hit': return self.hit_pair(v.place)
                return self.read(v.place)
            raise ExtractError('value of ' + r.get('name', ''))
        if k == 'MemberExpr':
            b = kids(n)[0]
            m = self.ast.by_id.get(n.get('referencedMemberDecl'))
            if m is not None and m['kind'] == 'VarDecl':
                init = [c for c in kids(m)]
                if init: return self.rv(init[-1])
            p = self.hmember(n)
            if p is not None: return self.read(p) if isinstance(p, Place) else p
            return self.read(self.lv(n))
        if k == 'CXXThisExpr':
            if len(self.this.path) == 1 and self.this.path[0][0] == 'm' and self.this.root in self.u.cfg.get('heaps', {}): return self.this.path[0][1]
            return self.read(self.this)
        if k == 'UnaryOperator': return self.unary(n)
        if k == 'BinaryOperator': return self.binary(n)
        if k == 'CompoundAssignOperator': return self.read(self.assign(n))
        if k == 'ConditionalOperator': return self.cond(n)
        if k == 'CXXOperatorCallExpr': return self.opcall(n)
        if k in ('CXXMemberCallExpr', 'CallExpr'):
            r = self.call(n)
            return self.read(r) if isinstance(r, Place) else r
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): return self.construct(n)
        if k in ('CXXScalarValueInitExpr', 'ImplicitValueInitExpr'): return self.ty(n).default() if self.ty(n).k != 'rec' else self.default_rec(self.ty(n))
        if k == 'InitListExpr': return self.initlist(n)
        if k == 'CXXDefaultArgExpr': raise ExtractError('default argument')
        if k == 'CXXDefaultInitExpr':
            if kids(n): return self.rv(kids(n)[0])
            raise ExtractError('default member initialiser')
        if k == 'ArraySubscriptExpr': return self.read(self.lv(n))
        if k == 'UnaryExprOrTypeTraitExpr': raise ExtractError('sizeof')
        raise ExtractError('expression %s is not covered' % k)

    def hmember(self, n):
        """member of *it for hash-map iterators (key / mapped value)"""
        if not n.get('isArrow') and self.strip_all(kids(n)[0])['kind'] != 'DeclRefExpr' and self.strip_all(kids(n)[0])['kind'] not in ('CXXOperatorCallExpr',): return None
        b = kids(n)[0]
        s = self.strip_all(b)
        if n.get('isArrow') and s['kind'] == 'CXXOperatorCallExpr' and self.callee_name(s) == 'operator->':
            try: ty = self.ty(kids(s)[1])
            except ExtractError: return None
            if ty.k != 'hiter': return None
            p = self.deref(kids(s)[1])
        elif s['kind'] == 'DeclRefExpr':
            v = self.env.get(s['referencedDecl']['id'])
            if v is None or v.kind != 'place' or v.place.root != '!hit': return None
            p = v.place
        else: return None
        if p.root != '!hit': return None
        return self.hit(p, n['name'])

    def hit(self, p, name):
        v, c = p.ty.name
        return '(%s->0)' % v if name == 'first' else c.then(('m', '(%s->0)' % v), c.ty.a[1])

    def hit_pair(self, p):
        a = self.hit(p, 'first'); b = self.hit(p, 'second'); return '(%s, %s)' % (a, self.read(b))

    def cast(self, n):
        c = kids(n)[0]; ck = n.get('castKind')
        if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'UserDefinedConversion', None, 'BaseToDerived'):
            if ck == 'UserDefinedConversion' and self.ty(n).k == 'bool':
                try:
                    t = self.ty(self.strip_all(c))
                except ExtractError:
                    t = None
            return self.rv(c)
        if ck == 'ConstructorConversion': return self.rv(c)
        if ck in ('IntegralCast',):
            ft, tt = self.ty(c), self.ty(n)
            v = self.rv(c)
            if self.strip_all(c)['kind'] in ('IntegerLiteral', 'CharacterLiteral') and not (tt.k == 'int' and not tt.signed and v.startswith('-')): return v
            if ft.k == 'bool': return '(if %s { 1int } else { 0int })' % v
            if tt.k == 'enum' or ft.k == 'enum': return v
            if ft.k == 'int' and tt.k == 'int':
                if (not ft.signed and not tt.signed and ft.bits <= tt.bits) or (ft.signed and tt.signed and ft.bits <= tt.bits) or (not ft.signed and tt.signed and ft.bits < tt.bits): return v
                return self.wrap(v, tt)
            return v
        if ck == 'IntegralToBoolean':
            return '(%s != 0int)' % self.rv(c)
        if ck == 'PointerToBoolean':
            return self.ptr_nonnull(c)
        if ck == 'ToVoid':
            self.effect(c); return '()'
        if ck == 'NullToPointer': return 'None' if self.ty(n).k == 'option' else '0int'
        if ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral'): raise ExtractError('floating point')
        raise ExtractError('cast ' + str(ck))

    def ptr_nonnull(self, c):
        s = self.strip_all(c)
        if s['kind'] == 'DeclRefExpr':
            v = self.env.get(s['referencedDecl']['id'])
            if v is not None and getattr(v, 'nonnull', None): return v.nonnull
        return '(%s != 0int)' % self.rv(c)

    def wrap(self, v, tt):
        if tt.signed:
            if self.u.cfg.get('exact') or self.exact: return 'swrap%d(%s)' % (tt.bits, v)
            return v if tt.bits == 64 else 'swrap%d(%s)' % (tt.bits, v)
        return 'uwrap%d(%s)' % (tt.bits, v)

    def arith(self, op, a, b, ty, label='arithmetic'):
        if ty.k != 'int': return '(%s %s %s)' % (a, op, b)
        e = '(%s %s %s)' % (a, op, b)
        if op in ('/', '%'):
            self.check('%s != 0' % b, 'division by zero')
            return ('trunc_div(%s, %s)' if op == '/' else 'trunc_mod(%s, %s)') % (a, b) if ty.signed else e
        if ty.signed:
            lo = -(1 << (ty.bits - 1)); hi = (1 << (ty.bits - 1)) - 1
            if self.u.cfg.get('math_signed') and not self.exact: return e
            self.check('%dint <= %s <= %dint' % (lo, e, hi), 'signed %s does not overflow' % label)
            return e
        if op == '-': return 'usub%d(%s, %s)' % (ty.bits, a, b)
        if ty.bits == 64 and not self.exact: return e       # 64-bit unsigned sums are treated as mathematical (assumption)
        return 'uwrap%d%s' % (ty.bits, e)

    def incdec(self, p, op, ty):
        old = self.read(p)
        t = p.ty or ty
        new = self.arith('+' if op == '++' else '-', old, '1int', t) if t.k == 'int' else '(%s %s 1int)' % (old, '+' if op == '++' else '-')
        self.write(p, new)

    def unary(self, n):
        op = n['opcode']; c = kids(n)[0]
        if op == '!': return '!(%s)' % self.rv(c)
        if op == '-':
            v = self.rv(c); ty = self.ty(n)
            if ty.k == 'int' and not ty.signed: return 'usub%d(0int, %s)' % (ty.bits, v)
            return '(-%s)' % v
        if op == '+': return self.rv(c)
        if op in ('++', '--'):
            p = self.lv(c)
            if n.get('isPostfix'):
                o = self.snap(self.read(p), p.ty or self.ty(c)); self.incdec(p, op, self.ty(n)); return o
            self.incdec(p, op, self.ty(n)); return self.read(p)
        if op == '*': return self.read(self.deref(c))
        if op == '&':
            p = self.lv(c)
            a = self.u.cfg.get('address_of')
            if a:
                r = a(self, p)
                if r is not None: return r
            raise ExtractError('address-of')
        if op == '~': 
            ty = self.ty(n); v = self.rv(c)
            return '(-%s - 1)' % v if ty.signed else 'ubnot%d(%s)' % (ty.bits, v)
        if op == '__extension__': return self.rv(c)
        raise ExtractError('unary ' + op)

    def assign(self, n):
        op = n['opcode']; a, b = kids(n)
        if op == '=':
            p = None
            v = self.rv(b); m = len(self.lines)
            p = self.lv(a)
            if len(self.lines) != m and not all(' OBLIGATION ' in x or re.match(r'\s*let ghost (mut )?\w+_\b', x) for x in self.lines[m:]):
                del self.lines[m:]; v = self.snap(v, self.ty(b)); p = self.lv(a)   # the right operand is sequenced first
            if getattr(p, 'isptrvar', False): raise ExtractError('pointer assignment')
            self.write(p, v); self.track(a, b)
            return p
        v = self.rv(b); p = self.lv(a); old = self.read(p); o = op[:-1]; ty = p.ty or self.ty(a)
        if ty.k == 'bool' and o in ('|', '&', '^') and self.ty(b).k == 'int':
            m = re.fullmatch(r'\(if (.*) \{ 1int \} else \{ 0int \}\)', v)      # a promoted bool
            if not m: raise ExtractError('integer operand of a bool compound assignment')
            v = '(%s)' % m.group(1)
        if o in ('+', '-', '*', '/', '%'): nv = self.arith(o, old, v, ty)
        elif o in ('|', '&', '^') and ty.k == 'bool': nv = {'|': '(%s || %s)', '&': '(%s && %s)', '^': '(%s != %s)'}[o] % (old, v)
        elif o in ('|', '&', '^') and not ty.signed:
            # the operands are computed in a wider type and truncated: the same as the operation on the truncated operands
            bt = self.ty(b); nv = self.bits(o, old, v if bt.k == 'int' and not bt.signed and bt.bits <= ty.bits else 'uwrap%d(%s)' % (ty.bits, v), ty)
        elif o in ('|', '&', '^', '<<', '>>'): nv = self.bits(o, old, v, ty)
        else: raise ExtractError('operator ' + op)
        self.write(p, nv); return p

    def track(self, a, b):
        """iterator variables keep their container"""
        s = self.strip_all(a)
        if s['kind'] == 'DeclRefExpr':
            v = self.env.get(s['referencedDecl']['id'])
            if v is not None and v.ty is not None and v.ty.k in ('iter', 'hiter') and getattr(v, 'cont', None) is None:
                try: v.cont = self.iter_container(b)
                except ExtractError: pass

    def bits(self, o, a, b, ty):
        if o in ('<<', '>>'): self.check('0 <= %s < %d' % (b, ty.bits), 'shift amount in range')
        if ty.signed:
            self.check('0 <= %s && 0 <= %s' % (a, b), 'bit operation on non-negative values')
            if o == '<<': return 'swrap%d(ubshl%d(%s, %s))' % (ty.bits, ty.bits, a, b)
        return {'|': 'ubor', '&': 'uband', '^': 'ubxor', '<<': 'ubshl', '>>': 'ubshr'}[o] + '%d(%s, %s)' % (ty.bits, a, b)

    def shortcircuit(self, L, rn, isand):
        keep = self.lines; self.lines = []
        self.guards.append(L if isand else '!(%s)' % L)
        try: R = self.rv(rn)
        finally: self.guards.pop(); got = self.lines; self.lines = keep
        if all(' OBLIGATION ' in x for x in got):
            self.lines += got
            return '(%s %s %s)' % (L, '&&' if isand else '||', R)
        # the right operand has effects: evaluate it under a branch
        c = self.t(); self.emit('let ghost mut %s: bool = %s;' % (c, L))
        self.emit('if branch(Ghost(%s)) {' % (c if isand else '!' + c)); self.ind += 1
        R = self.rv(rn); self.emit('proof { %s = %s; }' % (c, R)); self.ind -= 1; self.emit('}')
        return c

    def binary(self, n):
        op = n['opcode']; a, b = kids(n)
        if op in ('&&', '||'):
            return self.shortcircuit(self.rv(a), b, op == '&&')
        if op == '=': return self.read(self.assign(n))
        if op == ',':
            self.effect(a); return self.rv(b)
        ta = self.ty(a)
        if op in ('==', '!=') and ta.k in ('ptr', 'uptr', 'unit'):
            for x, y in ((a, b), (b, a)):
                if self.strip_all(y)['kind'] == 'CXXNullPtrLiteralExpr':
                    r = self.ptr_nonnull(x); return r if op == '!=' else '!(%s)' % r
        if op in ('==', '!=') and self.u.cfg.get('same_obj'):
            for x, y in ((a, b), (b, a)):
                x, y = self.strip_all(x), self.strip_all(y)
                if x['kind'] == 'CXXThisExpr' and y['kind'] == 'UnaryOperator' and y.get('opcode') == '&' and self.strip_all(kids(y)[0]).get('referencedDecl', {}).get('kind') == 'ParmVarDecl':
                    return ('' if op == '==' else '!') + self.u.cfg['same_obj']
        x, y = self.rvs([a, b])
        if op in ('==', '!=', '<', '>', '<=', '>='): return '(%s %s %s)' % (x, op, y)
        ty = self.ty(n)
        if op in ('+', '-', '*', '/', '%'): return self.arith(op, x, y, ty)
        if op in ('&', '|', '^', '<<', '>>'): return self.bits(op, x, y, ty)
        raise ExtractError('operator ' + op)

    def rvs(self, ns):
        """evaluate left to right; a value is snapshotted when a later operand has effects"""
        out = []
        for n in ns:
            m = len(self.lines)
            v = self.rv(n)
            new = self.lines[m:]
            if out and new and not all(' OBLIGATION ' in x for x in new):
                # effects after earlier values were computed: snapshot those before the effects
                ins = []
                for j in range(len(out)):
                    if not re.fullmatch(r'[a-z]+\d+_|-?\d+int|true|false', out[j][0]):
                        t = self.t(); ins.append('    ' * self.ind + 'let ghost %s: %s = %s;' % (t, out[j][1], out[j][0])); out[j] = (t, out[j][1])
                self.lines[m:m] = ins
            try: tv = self.ty(n).v()
            except ExtractError: tv = '_'
            out.append((v, tv))
        return [o[0] for o in out]

    def cond(self, n):
        c, a, b = kids(n)
        f = self.strip_all(b)
        if f['kind'] == 'CallExpr' and self.callee_name(f) == '__assert_fail':
            self.check(self.rv(c), 'assertion'); return '()'
        C = self.rv(c)
        keep = self.lines; bufs = []; vals = []
        for g, x in ((C, a), ('!(%s)' % C, b)):
            self.lines = []; self.guards.append(g)
            try: vals.append(self.rv(x))
            finally: self.guards.pop()
            bufs.append(self.lines)
        self.lines = keep
        if all(' OBLIGATION ' in l for bf in bufs for l in bf):
            self.lines += bufs[0] + bufs[1]
            return '(if %s { %s } else { %s })' % (C, vals[0], vals[1])
        t = self.t(); ty = self.ty(n)
        c0 = self.snap(C, Ty('bool'))
        if ty.k != 'unit': self.emit('let ghost mut %s: %s = arbitrary();' % (t, ty.v()))
        self.emit('if branch(Ghost(%s)) {' % c0); self.ind += 1; v = self.rv(a)
        if ty.k != 'unit': self.emit('proof { %s = %s; }' % (t, v))
        self.ind -= 1; self.emit('} else {'); self.ind += 1; v = self.rv(b)
        if ty.k != 'unit': self.emit('proof { %s = %s; }' % (t, v))
        self.ind -= 1; self.emit('}')
        return t

    # ---------- calls
    def callee_ref(self, n):
        c = kids(n)[0]
        s = self.strip_all(c)
        return s

    def callee_name(self, n):
        s = self.callee_ref(n)
        if s['kind'] == 'DeclRefExpr': return s['referencedDecl'].get('name')
        if s['kind'] == 'MemberExpr': return s.get('name')
        return None

    def callee_decl(self, n):
        s = self.callee_ref(n)
        i = s['referencedDecl']['id'] if s['kind'] == 'DeclRefExpr' else s.get('referencedMemberDecl')
        return self.ast.by_id.get(i)

    def lambda_of(self, n):
        s = self.strip_all(n)
        while s['kind'] in ('CXXConstructExpr',) and kids(s): s = self.strip_all(kids(s)[0])
        if s['kind'] == 'LambdaExpr': return s, self.env
        if s['kind'] == 'DeclRefExpr':
            v = self.env.get(s['referencedDecl']['id'])
            if v is not None and v.kind == 'lambda': return v.node, self.env
            if v is None:
                d = self.ast.by_id.get(s['referencedDecl']['id'])
                if d is not None and d['kind'] == 'VarDecl' and kids(d):
                    e = self.strip_all(kids(d)[-1])
                    while e['kind'] in ('CXXConstructExpr',) and kids(e): e = self.strip_all(kids(e)[0])
                    if e['kind'] == 'LambdaExpr': return e, self.env
        return None

    def call(self, n, want='rv'):
        k = n['kind']
        if k == 'CXXMemberCallExpr':
            me = kids(n)[0]
            me = self.strip_all(me)
            d = self.ast.by_id.get(me.get('referencedMemberDecl'))
            args = kids(n)[1:]
            if d is not None and d['kind'] in ('CXXMethodDecl', 'CXXConversionDecl'):
                return self.call_user(n, d, args, want, me)
            return self.u.stl.method(self, n, me, me.get('name'), args, want)
        s = self.callee_ref(n)
        args = kids(n)[1:]
        if s['kind'] == 'DeclRefExpr':
            d = self.ast.by_id.get(s['referencedDecl']['id'])
            if d is not None and d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                return self.call_user(n, d, args, want)
            return self.u.stl.function(self, n, s['referencedDecl'].get('name'), args, want)
        raise ExtractError('call through ' + s['kind'])

    def opcall(self, n, want='rv'):
        op = self.callee_name(n); d = self.callee_decl(n); a = kids(n)[1:]
        if op == 'operator()':
            l = self.lambda_of(a[0])
            if l: return self.call_lambda(l[0], a[1:], want, n)
            o = self.strip_all(a[0]); v = self.env.get(o['referencedDecl']['id']) if o['kind'] == 'DeclRefExpr' else None
            if v is not None and v.kind == 'opaque' and '(lambda' in qt(o) and d is not None and d['kind'] == 'CXXMethodDecl' and body(d):   # a function object parameter whose type is the closure of a lambda: its body (captured variables are unknown here and fail)
                self.inline_enter(d)
                try:
                    for p, x in self.bind_args(d, a[1:]): self.env[p['id']] = self.bind_param(p, x)
                    return self.inline_body(body(d), want, n)
                finally: self.inline_stack.pop()
        if d is not None and d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            if op == 'operator=' and (d.get('isImplicit') or d.get('explicitlyDefaulted') or self.u.body(d) is None or (len(a) == 2 and not self.u.contract_for(d) and self.T.parse(qt(a[0])).k in ('rec',) and d.get('explicitlyDefaulted'))):
                v = self.rv(a[1]); p = self.lv(a[0]); self.write(p, v); return p if want == 'lv' else self.read(p)
            me = None
            if d['kind'] == 'CXXMethodDecl':
                return self.call_user(n, d, a[1:], want, None, thisarg=a[0])
            return self.call_user(n, d, a, want)
        return self.u.stl.operator(self, n, op, a, want)

    def bind_args(self, d, args):
        ps = [c for c in kids(d) if c['kind'] == 'ParmVarDecl']
        if len(args) < len(ps): args = args + [None] * (len(ps) - len(args))
        out = []
        for p, a in zip(ps, args):
            if a is None or a['kind'] == 'CXXDefaultArgExpr':
                init = kids(p)
                if not init: 
                    # take the default from another declaration
                    raise ExtractError('default argument of ' + d.get('name', ''))
                a = init[-1]
            out.append((p, a))
        return out

    def inline_enter(self, d):
        if d['id'] in self.inline_stack: raise ExtractError('recursive function without contract: ' + d.get('name', ''))
        if len(self.inline_stack) > 12: raise ExtractError('inlining too deep')
        self.inline_stack.append(d['id'])

    def ptype(self, p):
        return p['type'].get('desugaredQualType', p['type']['qualType'])

    def bind_param(self, p, a):
        """bind a parameter of an inlined function to its argument"""
        t = self.ptype(p)
        l = self.lambda_of(a)
        if l is not None: return Var('lambda', node=l[0], ty=None)
        try: ty = self.T.parse(t)
        except ExtractError:
            ty = None
        if ty is not None and ty.k in ('fn', 'lambda'): return Var('opaque', ty=ty)
        if t.rstrip().endswith('&') or (ty is not None and ty.k == 'ptr'):
            s = self.strip_all(a)
            if ty is not None and ty.k == 'ptr':
                return Var('place', place=self.deref(a), ty=ty, isptr=True)
            if ty.k in ('iter', 'hiter'):
                v = self.rv(a)
                return Var('place', place=(self.lv(a) if self.is_lv(self.strip_all(a)) else Place(v, [], ty)), ty=ty, cont=self.try_cont(a))
            if self.is_lv(a) or s['kind'] in ('DeclRefExpr', 'MemberExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr'):
                p2 = self.lv(a)
                if p2.ty is None: p2.ty = ty
                return Var('place', place=p2, ty=p2.ty, cont=self.try_cont(a) if ty.k == 'tuple' else None)
            v = self.rv(a)
            if self.pure: return Var('const', val='(%s)' % v, ty=ty)
            return Var('val', name=self.snap(v, ty), ty=ty)
        v = self.rv(a)
        if self.pure: return Var('const', val='(%s)' % v, ty=ty)
        nm = self.fresh(p.get('name') or 'arg'); self.let(nm, ty, v)
        return Var('val', name=nm, ty=ty, cont=self.try_cont(a) if ty.k in ('iter', 'hiter') else None)

    def try_cont(self, a):
        try: return self.iter_container(a)
        except ExtractError: return None

    def call_user(self, n, d, args, want='rv', me=None, thisarg=None):
        b = self.u.builtin(self, d, n, args, want, me, thisarg)
        if b is not None: return b
        c = self.u.contract_for(d)
        if c is not None: return self.call_contract(n, d, c, args, want, me, thisarg)
        f = self.u.body(d)
        if f is None:
            if d.get('explicitlyDefaulted') or d.get('isImplicit'):
                nm = d.get('name')
                if nm == 'operator=':
                    v = self.rv(args[0]); p = self.objplace(me) if me is not None else self.lv(thisarg); self.write(p, v); return p
                if nm == 'operator==':
                    ops = ([thisarg] if thisarg is not None else []) + args
                    x, y = self.rvs(ops); return '(%s == %s)' % (x, y)
            raise ExtractError('call of %s, which has neither contract nor body' % self.ast.qual.get(d['id'], d.get('name')))
        th = self.this
        if d['kind'] != 'FunctionDecl' and d.get('storageClass') != 'static':
            if thisarg is not None: th = self.lv(thisarg)
            elif me is not None: th = self.objplace(me)
        return self.inline(f, args, th, want, n)

    def inline(self, f, args, th, want, n):
        self.inline_enter(f)
        saved_this = self.this; saved = dict(self.env); sc = list(self.T.scope)
        try:
            binds = [(p, self.bind_param(p, a)) for p, a in self.bind_args(f, args)]
            for p, v in binds: self.env[p['id']] = v
            self.this = th
            q = self.ast.qual.get(f['id'], '')
            if '::' in q: self.T.scope.append(q.rsplit('::', 1)[0])
            b = body(f)
            return self.inline_body(b, want, n)
        finally:
            self.this = saved_this; self.T.scope = sc
            self.inline_stack.pop()
            for k in list(self.env):
                if k not in saved: pass
    
    def inline_body(self, b, want, n):
        st = [s for s in kids(b) if not self.trivial(s)]
        # a single return expression: translate in place
        if len(st) == 1 and st[0]['kind'] == 'ReturnStmt' and kids(st[0]):
            e = kids(st[0])[0]
            if want == 'ptr': return self.deref_ret(e)
            if want == 'lv': return self.lv(e)
            if self.is_lv(self.strip(e)) and self.strip(e)['kind'] in ('MemberExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr', 'DeclRefExpr', 'UnaryOperator') and want != 'rv': return self.lv(e)
            if want == 'effect': self.effect(e); return None
            return self.rv(e)
        if self.pure:
            return self.pure_body(st)
        # general case: structured inlining with a result variable
        rty = self.ret_type(b)
        rn = None
        if rty is not None and rty.k != 'unit':
            if want == 'lv':
                # statements, then a single return of a reference
                if st[-1]['kind'] == 'ReturnStmt' and not any(self.has_return(x) for x in st[:-1]):
                    self.stmts(st[:-1]); return self.lv(kids(st[-1])[0])
                raise ExtractError('inlining a reference-returning function with several statements')
            rn = self.t(); self.emit('let ghost mut %s: %s = arbitrary();' % (rn, rty.v()))
        self.block_inl(st, rn)
        return rn if rn is not None else '()'

    def deref_ret(self, e):
        return self.deref(e)

    def ret_type(self, b):
        out = []
        def w(x):
            if x.get('kind') in ('LambdaExpr',): return
            if x.get('kind') == 'ReturnStmt':
                out.append(kids(x)[0] if kids(x) else None); return
            for c in kids(x): w(c)
        w(b)
        for o in out:
            if o is not None: return self.ty(o)
        return None

    def has_return(self, s):
        if s.get('kind') == 'ReturnStmt': return True
        if s.get('kind') == 'LambdaExpr': return False
        return any(self.has_return(c) for c in kids(s))

    def block_inl(self, st, rn):
        """statements of an inlined body; 'return' becomes an assignment, early returns become else-branches"""
        i = 0
        while i < len(st):
            s = st[i]
            if s['kind'] == 'ReturnStmt':
                e = kids(s)
                if e:
                    if rn is None: self.effect(e[0])
                    else: self.emit('proof { %s = %s; }' % (rn, self.rv(e[0])))
                return
            if s['kind'] == 'CompoundStmt':
                return self.block_inl([x for x in kids(s)] + st[i + 1:], rn)
            if s['kind'] == 'IfStmt' and self.has_return(s):
                init, var, c, th, el = self.if_parts(s)
                if c is None:
                    return self.block_inl([th] + st[i + 1:], rn) if th else None
                if init: self.stmt(init)
                if var: self.stmt(var)
                k = self.const_cond(c)
                if k is not None:
                    pick = th if k else el
                    return self.block_inl(([pick] if pick else []) + st[i + 1:], rn)
                cv = self.rv(c)
                self.emit('if branch(Ghost(%s)) {' % cv); self.ind += 1
                self.block_inl([th] + st[i + 1:], rn); self.ind -= 1
                self.emit('} else {'); self.ind += 1
                self.block_inl(([el] if el else []) + st[i + 1:], rn); self.ind -= 1
                self.emit('}')
                return
            if self.has_return(s): raise ExtractError('return inside a loop or switch of an inlined function')
            self.stmt(s); i += 1

    def pure_body(self, st):
        if not st: raise ExtractError('pure body without return')
        s = st[0]
        if s['kind'] == 'ReturnStmt': return self.rv(kids(s)[0])
        if s['kind'] == 'CompoundStmt': return self.pure_body(kids(s) + st[1:])
        if s['kind'] == 'IfStmt':
            init, var, c, th, el = self.if_parts(s)
            k = self.const_cond(c)
            if k is not None: return self.pure_body(([th] if k else ([el] if el else [])) + st[1:])
            return '(if %s { %s } else { %s })' % (self.rv(c), self.pure_body([th] + st[1:]), self.pure_body(([el] if el else []) + st[1:]))
        if s['kind'] == 'DeclStmt':
            for v in kids(s):
                if v['kind'] == 'VarDecl' and kids(v):
                    try: ty = self.T.parse(self.ptype(v))
                    except ExtractError: continue
                    if self.ptype(v).rstrip().endswith('&'):
                        self.env[v['id']] = Var('place', place=self.lv(kids(v)[-1]), ty=ty)
                    else: self.env[v['id']] = Var('const', val='(%s)' % self.rv(kids(v)[-1]), ty=ty)
            return self.pure_body(st[1:])
        if self.trivial(s) or s['kind'] == 'ParenExpr': return self.pure_body(st[1:])
        raise ExtractError('pure body: ' + s['kind'])

    def lambda_parts(self, l):
        for c in kids(l):
            if c['kind'] == 'CXXRecordDecl':
                for m in kids(c):
                    if m['kind'] == 'CXXMethodDecl' and m.get('name') == 'operator()' and body(m): return m
                    if m['kind'] == 'FunctionTemplateDecl' and m.get('name') == 'operator()':
                        ms = [x for x in kids(m) if x['kind'] == 'CXXMethodDecl' and body(x)]
                        inst = [x for x in ms if x.get('mangledName')]
                        if inst: return inst[0] if len(inst) == 1 else inst
        raise ExtractError('lambda without body')

    def call_lambda(self, l, args, want, n=None):
        m = self.lambda_parts(l)
        if isinstance(m, list):
            d = self.callee_decl(n) if n is not None else None
            pick = [x for x in m if d is not None and x['id'] == d['id']]
            if not pick: raise ExtractError('generic lambda with several instantiations')
            m = pick[0]
        self.inline_enter(m)
        try:
            for p, a in self.bind_args(m, args): self.env[p['id']] = self.bind_param(p, a)
            return self.inline_body(body(m), want, n)
        finally: self.inline_stack.pop()

    def spec_lambda(self, l, tys, names=('a_', 'b_', 'c_')):
        """a lambda (or comparator) as a specification closure"""
        m = self.lambda_parts(l)
        if isinstance(m, list): m = m[0]
        ps = [c for c in kids(m) if c['kind'] == 'ParmVarDecl']
        sp = self.pure; self.pure = True
        try:
            for p, t, nm in zip(ps, tys, names): self.env[p['id']] = Var('place', place=Place(nm, [], t), ty=t)
            b = self.inline_body(body(m), 'rv', None)
        finally: self.pure = sp
        return '|%s| %s' % (', '.join('%s: %s' % (nm, t.v()) for nm, t in zip(names, tys)), b)

    def spec_fn_of(self, d, tys, names=('a_', 'b_', 'c_')):
        """a repository function/operator as a specification closure"""
        f = self.u.body(d); ps = [c for c in kids(f) if c['kind'] == 'ParmVarDecl']
        sp = self.pure; self.pure = True; st = self.this; sc = list(self.T.scope)
        try:
            q = self.ast.qual.get(f['id'], '')
            if '::' in q: self.T.scope.append(q.rsplit('::', 1)[0])
            tt = list(tys); nn = list(names)
            if d['kind'] == 'CXXMethodDecl' and d.get('storageClass') != 'static' and len(ps) == len(tys) - 1:
                self.this = Place(nn.pop(0), [], tt.pop(0))
            for p, t, nm in zip(ps, tt, nn): self.env[p['id']] = Var('place', place=Place(nm, [], t), ty=t)
            b = self.inline_body(body(f), 'rv', None)
        finally: self.pure = sp; self.this = st; self.T.scope = sc
        return '|%s| %s' % (', '.join('%s: %s' % (nm, t.v()) for nm, t in zip(names, tys)), b)

    def call_contract(self, n, d, c, args, want, me, thisarg):
        """modular call: the callee is represented by its contract"""
        if self.pure:
            if c.get('spec_call'):
                a = self.contract_args(d, c, args, me, thisarg)
                return '%s(%s)' % (c['spec_call'], ', '.join(([c['spec_args']] if c.get('spec_args') else []) + [x for x, _ in a]))
            raise ExtractError('contract call inside a pure expression: ' + c['name'])
        self.u.used_contracts.add(c['name']); self.calls.add(c['name'])
        a = self.contract_args(d, c, args, me, thisarg)
        outs = self.u.out_sig(c, d)        # list of (kind, name, ty)
        pats = []; post = []; ret = None; rty = None
        for kind, nm, ty in outs:
            t = self.t('c'); pats.append('Ghost(%s)' % t)
            if kind in ("ret", "ctor"): ret = t; rty = ty
            else: post.append((kind, nm, t))
        k = self.ncall[c['name']] = self.ncall.get(c['name'], 0) + 1
        self.hint('before %s %d' % (c['name'], k))
        callee = c['name']
        self.emit('let %s = %s(%s);' % ('(%s)' % ', '.join(pats) if len(pats) > 1 else (pats[0] if pats else '_u'), callee, ', '.join('Ghost(%s)' % x for x, _ in a)))
        self.obl('call'); 
        for kind, nm, t in post:
            if kind == 'this': self.write(self._cthis, t)
            elif kind == 'heap': self.emit('proof { %s = %s; }' % (nm, t))
            else: self.write(self._crefs[nm], t)
        self.hint('after %s %d' % (c['name'], k))
        if rty is not None and want in ('ptr', 'lv') and c.get('ret_place'):
            return c['ret_place'](self, ret)
        return ret if ret is not None else '()'

    def contract_args(self, d, c, args, me, thisarg):
        out = []; refs = {}; th = None
        sig = self.u.in_sig(c, d)
        if self.u.is_method(d):
            th = self.lv(thisarg) if thisarg is not None else self.objplace(me)
        vals = {}
        pa = self.bind_args(d, args)
        ns = []
        for p, a in pa:
            ns.append(a)
        m = len(self.lines)
        lamvals = {}
        for (p, a) in pa:
            l = self.lambda_of(a)
            if l is not None: lamvals[p['id']] = True
        plain = [a for p, a in pa if p['id'] not in lamvals and not self.u.is_opaque_param(p)]
        vs = iter(self.rvs(plain))
        for p, a in pa:
            if p['id'] in lamvals or self.u.is_opaque_param(p): vals[p['id']] = None
            else: vals[p['id']] = next(vs)
        for kind, nm, ty, p in sig:
            if kind == 'this': out.append((self.read(th), ty))
            elif kind == 'thisp':
                if not (len(th.path) == 1 and th.path[0][0] == 'm' and th.root in self.u.cfg['heaps']): raise ExtractError('object is not in the heap')
                out.append((th.path[0][1], ty))
            elif kind == 'heap': out.append((nm, ty))
            else:
                if kind == 'ref':
                    a = [y for x, y in pa if x['id'] == p['id']][0]
                    refs[nm] = self.lv(a)
                out.append((vals[p['id']], ty))
        self._cthis = th; self._crefs = refs
        return out

    # ---------- construction
    def default_rec(self, ty):
        vals = []
        for f, ft, fd in self.T.fields(ty):
            init = [x for x in kids(fd)] if fd else []
            init = [x for x in init if not x['kind'].endswith('Attr') and not x['kind'].endswith('Comment')]
            if init: v = self.rv(init[-1])
            elif ft.k == 'rec': v = self.default_rec(ft)
            elif ft.k == 'uptr': v = 'arbitrary()'
            else: v = ft.default()
            vals.append('%s: %s' % (vname(f), v))
        return '%s { %s }' % (ty.name, ', '.join(vals) or 'dummy_: 0int')

    def initlist(self, n):
        ty = self.ty(n); c = kids(n)
        if ty.k == 'seq' and (ty.name or '').startswith('array'):
            def flat(x): return [z for y in kids(x) for z in flat(y)] if x['kind'] == 'InitListExpr' else ([] if x['kind'] == 'ImplicitValueInitExpr' else [x])
            if 'array_filler' in n or not any(flat(x) for x in c): return 'Seq::new(%snat, |i_: int| %s)' % (ty.name[5:].rstrip('ULul'), ty.a[0].default())
            vs = [z for x in c for z in flat(x)]
            if str(len(vs)) == ty.name[5:].rstrip('ULul'): return ty.a[0].v() and 'Seq::<%s>::empty()' % ty.a[0].v() + ''.join('.push(%s)' % x for x in self.rvs(vs))
            raise ExtractError('array initialiser')
        if ty.k == 'rec':
            fs = self.T.fields(ty)
            # clang lists every field in order (bases first as nested lists)
            if n.get('array_filler'): raise ExtractError('array filler')
            if len(c) == 1 and self.safe_ty(c[0]) == ty.name and not fs[0][1].k == 'rec': return self.rv(c[0])
            if len(c) > len(fs): c = [x for x in c if not re.match(r'(const )?(std::)?(less|greater|equal_to)<', qt(x))]      # stateless functors are not data
            if not fs and not c: return '%s { dummy_: 0int }' % ty.name
            if len(c) > len(fs): raise ExtractError('aggregate with unextracted fields')
            vals = []
            for (f, ft, fd), x in zip(fs, c):
                if x['kind'] == 'CXXDefaultInitExpr' and not kids(x):
                    init = [y for y in kids(fd) if not y['kind'].endswith('Attr')]
                    vals.append('%s: %s' % (vname(f), self.rv(init[-1])))
                else: vals.append('%s: %s' % (vname(f), self.rv(x)))
            for f, ft, fd in fs[len(c):]: vals.append('%s: %s' % (vname(f), ft.default()))
            return '%s { %s }' % (ty.name, ', '.join(vals))
        if ty.k in ('int', 'bool', 'enum', 'iter', 'ptr', 'hptr'): return self.rv(c[0]) if c else ty.default()
        if ty.k == 'seq': return ty.default() + ''.join('.push(%s)' % x for x in self.rvs(c))
        if ty.k == 'tuple': return '(%s)' % ', '.join(self.rvs(c))
        raise ExtractError('initialiser list of %r' % ty)

    def safe_ty(self, n):
        try: return self.ty(n).name
        except ExtractError: return None

    def construct(self, n):
        ty = self.ty(n); a = [x for x in kids(n) if x['kind'] != 'CXXDefaultArgExpr' or True]
        if ty.k == 'rec':
            if len(a) == 1:
                try: at = self.ty(a[0])
                except ExtractError: at = None
                ct = n.get('ctorType', {}).get('qualType', '')
                if at is not None and at.k == 'rec' and at.name == ty.name: 
                    d = self.find_ctor(ty, ct)
                    if d is None or d.get('isImplicit') or d.get('explicitlyDefaulted') or body(d) is None: return self.rv(a[0])
            ct = n.get('ctorType', {}).get('qualType', '')
            d = self.find_ctor(ty, ct)
            if d is None or d.get('isImplicit') or d.get('explicitlyDefaulted'):
                if not a: return self.default_rec(ty)
                if len(a) == 1: return self.rv(a[0])
                raise ExtractError('constructor of %s' % ty.name)
            c = self.u.contract_for(d)
            if c is not None: return self.call_contract(n, d, c, a, 'rv', None, None)
            return self.ctor_inline(ty, d, a)
        return self.u.stl.construct(self, n, ty, a)

    def find_ctor(self, ty, ct):
        f = None
        norm = lambda s: re.sub(r'\s*noexcept(\(\w*\))?', '', s).strip()
        for c in kids(ty.rec):
            cs = [c] if c['kind'] == 'CXXConstructorDecl' else ([x for x in kids(c) if x['kind'] == 'CXXConstructorDecl'] if c['kind'] == 'FunctionTemplateDecl' else [])
            for x in cs:
                if norm(x['type']['qualType']) == norm(ct):
                    return self.ast.body_of.get(x['id'], x)
        # the class is represented by one of its bases (rec_types): look among the derived class's constructors
        for x in self.ast.funcs:
            if x['kind'] == 'CXXConstructorDecl' and not x.get('isImplicit') and norm(x['type']['qualType']) == norm(ct) and self.u.body(x) is not None:
                try:
                    if self.T.rec(self.u.rec_of(x)).name == ty.name: return self.u.body(x)
                except (ExtractError, KeyError, AttributeError): pass
        return None

    def ctor_inline(self, ty, d, a):
        """constructor: member initialisers, then the body on the new object"""
        self.inline_enter(d)
        saved_this = self.this; sc = list(self.T.scope); self.T.scope.append(self.ast.qual.get(ty.rec['id'], ''))
        try:
            for p, x in self.bind_args(d, a): self.env[p['id']] = self.bind_param(p, x)
            vals = self.ctor_inits(ty, d)
            obj = '%s { %s }' % (ty.name, ', '.join('%s: %s' % (vname(f), vals[f]) for f, _, _ in self.T.fields(ty)) or 'dummy_: 0int')
            b = body(d)
            st = [s for s in (kids(b) if b else []) if not self.trivial(s)]
            if not st: return obj
            if all(self.is_assert(s) for s in st) and self.pure: return obj
            t = self.fresh('obj'); self.let(t, ty, obj)
            self.this = Place(t, [], ty)
            self.block_inl(st, None)
            return t
        finally:
            self.this = saved_this; self.inline_stack.pop(); self.T.scope = sc

    def is_assert(self, s):
        x = self.strip_all(s)
        return x['kind'] == 'ConditionalOperator' and self.strip_all(kids(x)[2])['kind'] == 'CallExpr' and self.callee_name(self.strip_all(kids(x)[2])) == '__assert_fail'

    def captured(self, d, ty):
        """non-const reference members of a class that its constructor binds to a reference parameter: [(field, type, parameter)]"""
        out = []
        for c in kids(d):
            if c['kind'] == 'CXXCtorInitializer' and 'anyInit' in c:
                x = self.strip_all(kids(c)[0]) if kids(c) else None
                if x is None or x['kind'] != 'DeclRefExpr' or x['referencedDecl'].get('kind') != 'ParmVarDecl': continue
                for f, ft, fd in self.T.fields(ty):
                    t = (fd or {}).get('type', {}).get('qualType', '').strip()
                    if f == c['anyInit']['name'] and t.endswith('&') and not t.startswith('const '): out.append((f, ft, x['referencedDecl']['id']))
        return out

    def uses_this(self, n):
        return n.get('kind') == 'CXXThisExpr' or (n.get('kind') not in ('LambdaExpr', 'CXXDefaultInitExpr') and any(self.uses_this(c) for c in kids(n)))

    def ctor_inits(self, ty, d):
        # initialisers that read members initialised before them: build the object member by member
        step = None
        if not self.pure and any(c['kind'] == 'CXXCtorInitializer' and 'anyInit' in c and self.uses_this(c) for c in kids(d)):
            step = self.fresh('part'); self.emit('let ghost mut %s: %s = arbitrary();' % (step, ty.v())); saved = self.this; self.this = Place(step, [], ty)
            try:
                vals = self.ctor_inits_(ty, d, self.this)
                for f, ft, fd in self.T.fields(ty): self.write(self.this.then(('f', f, ty.name), ft), vals[f])
            finally: self.this = saved
            return {f: '%s.%s' % (step, vname(f)) for f, _, _ in self.T.fields(ty)}
        return self.ctor_inits_(ty, d, None)

    def ctor_inits_(self, ty, d, part):
        vals = {}
        for f, ft, fd in self.T.fields(ty):
            init = [x for x in kids(fd) if not x['kind'].endswith('Attr') and not x['kind'].endswith('Comment')] if fd else []
            vals[f] = (lambda ft=ft, init=init: self.rv(init[-1]) if init else (self.default_rec(ft) if ft.k == 'rec' else ('arbitrary()' if ft.k in ('uptr', 'int', 'ptr', 'hptr', 'raw') else ft.default())))
        done = {}
        for c in kids(d):
            if c['kind'] == 'CXXCtorInitializer':
                if 'anyInit' in c:
                    f = c['anyInit']['name']
                    if f not in vals: continue           # field outside the extracted part
                    e = kids(c)[0]
                    fld = [x for x in self.T.fields(ty) if x[0] == f][0]
                    if e['kind'] == 'CXXDefaultInitExpr': continue
                    done[f] = self.coerce(e, fld[1])
                    if part is not None: self.write(part.then(('f', f, ty.name), fld[1]), done[f]); done[f] = self.read(part.then(('f', f, ty.name), fld[1]))
                elif 'baseInit' in c:
                    bt = self.T.parse(c['baseInit'].get('desugaredQualType', c['baseInit']['qualType']))
                    e = kids(c)[0]
                    v = self.rv(e)
                    if bt.k == 'rec':
                        if not v.startswith(bt.name + ' {'): v = self.snap(v, bt) if not self.pure else '(%s)' % v
                        else: v = '(%s)' % v
                        for f, ft, fd in self.T.fields(bt): done[f] = '%s.%s' % (v, vname(f))
                    else: done['base_'] = v
                elif 'delegatingInit' in c:
                    v = self.rv(kids(c)[0]); v = self.snap(v, ty)
                    for f, ft, fd in self.T.fields(ty): done[f] = '%s.%s' % (v, vname(f))
        out = {}
        for f in vals: out[f] = done[f] if f in done else vals[f]()
        return out

    def coerce(self, e, ft):
        if e['kind'] == 'CXXConstructExpr' and not kids(e): return self.default_rec(ft) if ft.k == 'rec' else ft.default()
        if e['kind'] == 'ImplicitValueInitExpr': return self.default_rec(ft) if ft.k == 'rec' else ft.default()
        if e['kind'] == 'ParenListExpr' and len(kids(e)) == 1: return self.rv(kids(e)[0])
        return self.rv(e)

    # ---------- statements
    def trivial(self, s):
        k = s['kind']
        if k == 'NullStmt': return True
        if k == 'DeclStmt': return all(c['kind'] in ('TypedefDecl', 'UsingDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'UsingEnumDecl', 'NamespaceAliasDecl') for c in kids(s))
        if k == 'DoStmt':
            b, c = kids(s)
            return self.const_cond(c) is False and (b['kind'] == 'NullStmt' or (b['kind'] == 'CompoundStmt' and all(self.trivial(x) for x in kids(b))))
        if k in WRAP and s.get('castKind') == 'ToVoid':
            x = self.strip_all(s)
            return x['kind'] in ('DeclRefExpr', 'IntegerLiteral', 'MemberExpr', 'CXXBoolLiteralExpr', 'CXXThisExpr')
        if k == 'CompoundStmt': return all(self.trivial(x) for x in kids(s))
        return False

    def const_cond(self, c):
        x = c
        while x['kind'] in ('ConstantExpr', 'ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups') and kids(x):
            if x['kind'] == 'ConstantExpr' and 'value' in x: return str(x['value']).lower() in ('true', '1')
            x = kids(x)[0]
        if x['kind'] == 'CXXBoolLiteralExpr': return bool(x['value'])
        if x['kind'] == 'IntegerLiteral': return x['value'] != '0'
        return None

    def if_parts(self, s):
        c = kids_raw(s); i = 0; init = var = None
        if s.get('hasInit'): init = c[i]; i += 1
        if s.get('hasVar'): var = c[i]; i += 1
        cond = c[i]; th = c[i + 1] if len(c) > i + 1 else None; el = c[i + 2] if s.get('hasElse') and len(c) > i + 2 else None
        if s.get('isConstexpr'):
            k = self.const_cond(cond)
            if k is True: el = None
            if k is False:
                th = None
                if el is None and s.get('hasElse'): el = c[-1]
        return init, var, cond, th, el

    def effect(self, n):
        """evaluate for side effects only"""
        k = n['kind']
        if self.is_assert(n):
            x = self.strip_all(n); self.check(self.rv(kids(x)[0]), 'assertion'); return
        if k in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'CXXStaticCastExpr', 'ConstantExpr'):
            return self.effect(kids(n)[0])
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            p = self.lv(kids(n)[0]); self.incdec(p, n['opcode'], self.ty(n)); return
        if k == 'BinaryOperator' and n['opcode'] == '=': self.assign(n); return
        if k == 'CompoundAssignOperator': self.assign(n); return
        if k == 'BinaryOperator' and n['opcode'] == ',':
            for c in kids(n): self.effect(c)
            return
        if k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            a, b = kids(n); self.shortcircuit(self.rv(a), b, n['opcode'] == '&&'); return
        if k == 'CXXOperatorCallExpr': self.opcall(n, want='effect'); return
        if k in ('CXXMemberCallExpr', 'CallExpr'): self.call(n, want='effect'); return
        if k == 'ConditionalOperator': self.cond(n); return
        if k in ('DeclRefExpr', 'IntegerLiteral', 'MemberExpr', 'CXXBoolLiteralExpr', 'CXXThisExpr'): return
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): self.rv(n); return
        if k == 'LambdaExpr': return
        if k == 'CXXThrowExpr':
            self.emit('proof { assume(false); } // exception leaves the function'); return
        if k in ('UnaryOperator', 'BinaryOperator'): self.rv(n); return
        raise ExtractError('statement expression ' + k)

    def stmts(self, ss):
        for s in ss: self.stmt(s)

    def stmt(self, s):
        k = s['kind']
        if self.trivial(s): return
        if k == 'CompoundStmt': return self.stmts(kids(s))
        if k == 'DeclStmt':
            for d in kids(s): self.decl_stmt(d)
            return
        if k == 'IfStmt':
            init, var, c, th, el = self.if_parts(s)
            if init: self.stmt(init)
            if var: self.stmt(var)
            kc = self.const_cond(c)
            if kc is not None:
                if kc and th: self.stmt(th)
                elif not kc and el: self.stmt(el)
                return
            cv = self.rv(c)
            self.emit('if branch(Ghost(%s)) {' % cv); self.ind += 1; self.stmt(th); self.ind -= 1
            if el: self.emit('} else {'); self.ind += 1; self.stmt(el); self.ind -= 1
            self.emit('}')
            return
        if k in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'): return self.loop(s)
        if k == 'ReturnStmt':
            e = kids(s)
            self.ret(e[0] if e else None); return
        if k == 'BreakStmt':
            if self.loop_stack and self.loop_stack[-1][0] == 'switch': raise ExtractError('break inside nested switch')
            o = self.loop_stack[-1]
            self.hint('break %d' % o[1])
            self.emit('break;'); return
        if k == 'ContinueStmt':
            for o in reversed(self.loop_stack):
                if o[0] != 'switch': break
            if o[2]: o[2]()
            self.emit('continue;'); return
        if k == 'SwitchStmt': return self.switch(s)
        if k in ('CXXTryStmt', 'GotoStmt', 'LabelStmt'): raise ExtractError('statement ' + k)
        if k == 'AttributedStmt': return self.stmt(kids(s)[-1])
        return self.effect(s)

    def decl_stmt(self, d):
        k = d['kind']
        if k in ('TypedefDecl', 'UsingDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'UsingDirectiveDecl', 'EmptyDecl', 'UsingShadowDecl', 'NamespaceAliasDecl'): return
        if k == 'DecompositionDecl': return self.decomposition(d)
        if k != 'VarDecl': raise ExtractError('declaration ' + k)
        init = [c for c in kids(d) if not c['kind'].endswith('Attr')]
        e = init[-1] if init else None
        if e is not None:
            l = self.lambda_of(e)
            if l is not None: self.env[d['id']] = Var('lambda', node=l[0], ty=None); return
        t = self.ptype(d)
        try: ty = self.T.parse(t)
        except ExtractError:
            # reference to a dependent member type: the referenced object has the type
            if not t.rstrip().endswith('&') or e is None: raise
            p = self.freeze(self.lv(e))
            if p.ty is None: raise
            self.env[d['id']] = Var('place', place=p, ty=p.ty, cont=None); return
        if ty.k in ('fn', 'lambda'): self.env[d['id']] = Var('opaque', ty=ty); return
        if ty.k == 'ptr':
            self.env[d['id']] = self.ptr_var(d, e, ty); return
        if t.rstrip().endswith('&') and e is not None:
            p = self.lv(e)
            if p.ty is None: p.ty = ty
            # freeze index expressions so that later changes of the index do not move the reference
            p = self.freeze(p)
            self.env[d['id']] = Var('place', place=p, ty=p.ty if p.ty else ty, cont=self.try_cont(e) if ty.k in ('iter', 'hiter', 'tuple') else None); return
        if e is None or (e['kind'] == 'CXXConstructExpr' and not kids(e)):
            v = ('arbitrary()' if e is None and ty.k in ('int', 'bool', 'ptr', 'enum') else (self.default_rec(ty) if ty.k == 'rec' else self.rv(e) if e is not None and ty.k == 'rec' else ty.default()))
            if e is not None and ty.k == 'rec': v = self.rv(e)
        else: v = self.rv(e)
        nm = self.fresh(d['name']); self.let(nm, ty, v)
        cont = None
        if ty.k in ('iter', 'hiter') or (ty.k == 'tuple' and any(x.k in ('iter', 'hiter') for x in ty.a)):
            cont = self.try_cont(e) if e is not None else None
            if cont is not None: cont = self.freeze(cont)
        self.env[d['id']] = Var('iter' if ty.k in ('iter',) else 'val', name=nm, ty=ty, cont=cont)
        # an object that keeps a reference: from here on the referenced variable is the object's member
        x = self.strip_all(e) if e is not None and ty.k == 'rec' else None
        if x is not None and x['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and kids(x):
            cd = self.find_ctor(ty, x.get('ctorType', {}).get('qualType', ''))
            for f, ft, pid in (self.captured(cd, ty) if cd is not None else []):
                a = [self.strip_all(y) for q, y in self.bind_args(cd, kids(x)) if q['id'] == pid]
                if not a or a[0]['kind'] != 'DeclRefExpr' or self.ind > 1 or self.inline_stack: raise ExtractError('object keeping a reference to something other than a variable')
                v = self.env[a[0]['referencedDecl']['id']]
                if v.kind != 'val': raise ExtractError('object keeping a reference to ' + str(v.kind))
                self.env[a[0]['referencedDecl']['id']] = Var('place', place=Place(nm, [('f', f, ty.name)], ft), ty=ft)
                self.aliased[v.name] = '%s.%s' % (nm, vname(f))

    def ptr_var(self, d, e, ty):
        """pointer variable: a place plus a null test"""
        s = self.strip_all(e)
        r = self.u.stl.pointer(self, s, ty)
        if r is not None:
            place, nonnull = r
            nn = self.snap(nonnull, Ty('bool'))
            return Var('place', place=self.freeze(place), ty=ty, isptr=True, nonnull=nn)
        return Var('place', place=self.freeze(self.deref(e)), ty=ty, isptr=True, nonnull='true')

    def freeze(self, p):
        if self.pure: return p
        out = []
        for s in p.path:
            if s[0] in ('i', 'm') and not re.fullmatch(r'[a-z]+\d+_|\d+int', s[1]):
                t = self.t(); self.emit('let ghost %s = %s;' % (t, s[1])); out.append((s[0], t) + tuple(s[2:]))
            else: out.append(s)
        return Place(p.root, out, p.ty)

    def decomposition(self, d, place=None):
        c = kids(d)
        binds = [x for x in c if x['kind'] == 'BindingDecl']
        if place is None:
            e = [x for x in c if x['kind'] != 'BindingDecl'][0]
            t = self.ptype(d)
            cont = self.try_cont(e)
            if t.rstrip().endswith('&') and self.is_lv(self.strip(e)):
                place = self.freeze(self.lv(e))
            else:
                ty = self.ty(e); v = self.rv(e); n = self.fresh('sb'); self.let(n, ty, v); place = Place(n, [], ty)
            if cont is not None: cont = self.freeze(cont)
        else: cont = None
        ty = place.ty
        for i, b in enumerate(binds):
            if ty.k == 'hpair' or place.root == '!hit':
                v, cc = ty.name
                if i == 0: self.env[b['id']] = Var('const', val='(%s->0)' % v, ty=ty.a[0])
                else: self.env[b['id']] = Var('place', place=cc.then(('m', '(%s->0)' % v), cc.ty.a[1]), ty=cc.ty.a[1])
                continue
            if ty.k == 'tuple': p = place.then(('t', i, len(ty.a)), ty.a[i])
            elif ty.k == 'rec':
                f, ft, _ = self.T.fields(ty)[i]; p = place.then(('f', f, ty.name), ft)
            else: raise ExtractError('structured binding of %r' % ty)
            self.env[b['id']] = Var('place', place=p, ty=p.ty, cont=cont if p.ty.k in ('iter', 'hiter') else None)
            # binding decls may be referenced through their holding variable
            for h in kids(b):
                if h['kind'] == 'VarDecl': self.env[h['id']] = self.env[b['id']]

    def switch(self, s):
        c = kids(s); cond = c[-2]; b = c[-1]
        if s.get('hasInit') or s.get('hasVar'): raise ExtractError('switch with declaration')
        v = self.snap(self.rv(cond), Ty('int'))
        # flatten into groups (labels, statements)
        groups = []
        def add(x):
            if x['kind'] in ('CaseStmt', 'DefaultStmt'):
                cc = kids(x)
                lab = None if x['kind'] == 'DefaultStmt' else self.case_val(cc[0])
                if groups and not groups[-1][1]: groups[-1][0].append(lab)
                else: groups.append(([lab], []))
                add(cc[-1])
            else:
                if not groups: raise ExtractError('switch body')
                groups[-1][1].append(x)
        for x in kids(b): add(x)
        # fall-through: a group that does not end in break/return continues with the next one
        bodies = []
        for i in range(len(groups)):
            st = []; j = i; closed = False
            while j < len(groups) and not closed:
                for x in groups[j][1]:
                    if x['kind'] == 'BreakStmt': closed = True; break
                    if x['kind'] == 'CompoundStmt' and kids(x) and kids(x)[-1]['kind'] == 'BreakStmt':
                        st += kids(x)[:-1]; closed = True; break
                    st.append(x)
                    if x['kind'] == 'ReturnStmt' or (x['kind'] == 'CompoundStmt' and kids(x) and kids(x)[-1]['kind'] in ('ReturnStmt', 'ContinueStmt')) or x['kind'] == 'ContinueStmt': closed = True; break
                j += 1
            bodies.append(st)
        first = True; dflt = None
        alllabs = [l for g in groups for l in g[0] if l is not None]
        for (labs, _), st in zip(groups, bodies):
            if None in labs:
                dflt = st
                if labs == [None]: continue
            conds = '(%s)' % ' || '.join('%s == %s' % (v, l) for l in labs if l is not None)
            self.emit(('if' if first else '} else if') + ' branch(Ghost(%s)) {' % conds); first = False
            self.ind += 1; self.loop_stack.append(('switch', None, None)) if False else None
            self.stmts(st); self.ind -= 1
        if dflt is not None:
            if first: self.stmts(dflt); return
            self.emit('} else {'); self.ind += 1; self.stmts(dflt); self.ind -= 1
        if not first: self.emit('}')

    def case_val(self, n):
        return self.rv(n)

    def ret(self, e):
        self.nret += 1
        vals = []
        rv = None
        if e is not None:
            has = [o for o in self.outs if o[0] == 'ret']
            if not has: self.effect(e)
            else:
                rv = self.rv(e)
        for kind, nm, ty in self.outs:
            if kind == 'ret': vals.append(rv)
            elif kind in ("this", "ctor"): vals.append("this_")
            else: vals.append(self.aliased.get(nm, nm))
        if rv is not None and self.spec.get('hints', {}).get('return') or self.spec.get('hints', {}).get('return %d' % self.nret):
            if rv is not None:
                self.emit('let ghost result_ = %s;' % rv)
                vals = ['result_' if o[0] == 'ret' else v for o, v in zip(self.outs, vals)]
        self.hint('return'); self.hint('return %d' % self.nret)
        if getattr(self.u, 'probe', False): self.emit('assert(false); // PROBE')
        self.emit('return %s;' % self.pack(vals)); 

    def pack(self, vals):
        if len(vals) == 1: return 'Ghost(%s)' % vals[0]
        return '(%s)' % ', '.join('Ghost(%s)' % v for v in vals)

    # ---------- loops
    def loop_no(self, s):
        i = s['id']
        # the same statement inlined twice counts as two loops
        key = (i, tuple(self.inline_stack), self.ncallsite())
        if key not in self.loops: self.loops[key] = len(self.loops) + 1
        return self.loops[key]

    def ncallsite(self): return 0

    def loop_head(self, no, cond, pre):
        sp = self.spec.get('loops', {}).get(no, {})
        if isinstance(sp, str): sp = {'inv': sp}
        self.used_loops.add(no)
        lines = []
        inv = split_clauses(sp.get('inv', '')); xb = split_clauses(sp.get('except_break', '')); en = split_clauses(sp.get('ensures', ''))
        auto = self.spec.get('auto_inv', [])
        inv = [i for i in split_clauses(self.spec.get('loop_inv', ''))] + inv
        return inv, xb, en, sp

    def write_loop(self, no, condf, bodyf, incf, has_break):
        """condf() -> value (may emit); bodyf(); incf()"""
        keep = self.lines; self.lines = []; ind = self.ind
        self.ind = ind + 1
        c = condf()
        pre = self.lines; self.lines = keep; self.ind = ind
        inv, xb, en, sp = self.loop_head(no, c, pre)
        self.hint('before loop %d' % no)
        only_checks = all(' OBLIGATION ' in x for x in pre)
        if c is None or not only_checks:
            self.emit('loop')
        elif pre:
            self.emit('while ({ %s branch(Ghost(%s)) })' % (' '.join(strip_comment(x.strip()) for x in pre), c))
        else:
            self.emit('while branch(Ghost(%s))' % c)
        for kw, cl in (('invariant_except_break', xb), ('invariant', inv), ('ensures', en)):
            if cl:
                self.emit('    ' + kw)
                for x in cl: self.emit('        %s, // LOOP %d' % (self.sub(x), no)); self.obl('invariant' if kw != 'ensures' else 'loop-ensures')
        self.emit('{'); self.ind += 1
        self.hint('loop %d begin' % no)
        if c is not None and not only_checks:
            self.lines += pre
            self.emit('if !branch(Ghost(%s)) { break; }' % c)
            self.hint('loop %d entered' % no)
        def inc():
            self.hint('loop %d end' % no)
            if incf: incf()
        self.loop_stack.append(('loop', no, inc))
        bodyf()
        self.loop_stack.pop()
        self.hint('loop %d end' % no)
        if incf: incf()
        self.ind -= 1; self.emit('}')
        self.hint('after loop %d' % no)

    def loop(self, s):
        k = s['kind']; c = kids_raw(s)
        no = self.loop_no(s)
        if k == 'WhileStmt':
            if s.get('hasVar'): raise ExtractError('while with declaration')
            cond, b = c[-2], c[-1]
            kc = self.const_cond(cond)
            self.write_loop(no, (lambda: None) if kc is True else (lambda: self.rv(cond)), lambda: self.stmt(b), None, True)
        elif k == 'ForStmt':
            init, var, cond, inc, b = c
            if init: self.stmt(init)
            self.write_loop(no, (lambda: self.rv(cond)) if cond else (lambda: None), lambda: self.stmt(b), (lambda: self.effect(inc)) if inc else None, True)
        elif k == 'DoStmt':
            b, cond = c
            first = self.fresh('first%d' % no)
            self.let(first, Ty('bool'), 'true')
            def cf():
                v = self.shortcircuit('!(%s)' % first, cond, True)
                return '(%s || %s)' % (first, v)
            def bf():
                self.emit('proof { %s = false; }' % first); self.stmt(b)
            self.write_loop(no, cf, bf, None, True)
        else:
            self.range_for(s, no)

    def range_for(self, s, no):
        c = kids_raw(s)
        if c[0]: self.stmt(c[0])
        rng = None
        for x in c[1:]:
            if x and x['kind'] == 'DeclStmt' and kids(x)[0].get('name', '').startswith('__range'):
                rng = kids(kids(x)[0])[-1]; break
        var = [x for x in c if x and x['kind'] == 'DeclStmt'][-1]; b = c[-1]
        vd = kids(var)[0]
        t = self.ptype(vd)
        r = self.strip(rng)
        p = None
        if r['kind'] == 'InitListExpr' or not self.is_lv(r):
            ty = self.ty(r); v = self.rv(r); n = self.fresh('rng%d' % no); self.let(n, ty, v); p = Place(n, [], ty)
        else: p = self.freeze(self.lv(r))
        ty = p.ty or self.ty(r)
        if ty.k == 'rec':
            p, ty = self.u.iterable(self, p, ty)
        R = self.fresh('rng%d_s' % no); K = self.fresh('k%d' % no)
        if ty.k in ('seq', 'oset', 'omap'):
            self.emit('let ghost %s: %s = %s;' % (R, ty.v(), self.read(p))); ety = ty.a[0] if ty.k != 'omap' else Ty('tuple', ty.a)
        elif ty.k == 'set':
            self.emit('let Ghost(%s) = std_enum_set::<%s>(Ghost(%s));' % (R, ty.a[0].v(), self.read(p))); ety = ty.a[0]
        elif ty.k == 'map':
            self.emit('let Ghost(%s) = std_enum_map::<%s, %s>(Ghost(%s));' % (R, ty.a[0].v(), ty.a[1].v(), self.read(p))); ety = Ty('tuple', ty.a)
        else: raise ExtractError('range over %r' % ty)
        self.let(K, Ty('int', bits=64), '0int')
        mutable = t.rstrip().endswith('&') and not self.T_const(vd, t)
        if ty.k == 'seq' and ety.k == 'uptr' and t.rstrip().endswith('&') and not p.root.startswith('rng'): mutable = True    # the pointed-to objects may change
        def bf():
            if ty.k == 'map':
                el = '%s[%s].0' % (R, K)
                if vd['kind'] == 'DecompositionDecl':
                    bs = [x for x in kids(vd) if x['kind'] == 'BindingDecl']
                    e = self.t(); self.emit('let ghost %s = %s;' % (e, el))
                    self.env[bs[0]['id']] = Var('const', val=e, ty=ty.a[0])
                    pl = p.then(('m', e), ty.a[1]) if mutable and not self.is_const_elem(vd) else Place('%s[%s].1' % (R, K), [], ty.a[1])
                    if pl.path == []: e2 = self.t(); self.emit('let ghost %s = %s;' % (e2, pl.root)); pl = Place(e2, [], ty.a[1])
                    self.env[bs[1]['id']] = Var('place', place=pl, ty=ty.a[1])
                else:
                    e = self.t(); self.emit('let ghost %s = %s[%s];' % (e, R, K)); self.env[vd['id']] = Var('place', place=Place(e, [], ety), ty=ety)
            elif ty.k in ('seq',) and mutable and (ety.k == 'uptr' or not self.is_const_elem(vd)) and not p.root.startswith('rng'):
                e = self.t(); self.emit('let ghost %s = %s;' % (e, K))
                pl = p.then(('i', e), ety)
                if vd['kind'] == 'DecompositionDecl': self.decomposition(vd, pl)
                else: self.env[vd['id']] = Var('place', place=pl, ty=ety)
            else:
                nm = self.fresh(vd.get('name') or 'e%d' % no)
                if vd['kind'] == 'DecompositionDecl':
                    self.emit('let ghost %s: %s = %s[%s];' % (nm, ety.v(), R, K)); self.decomposition(vd, Place(nm, [], ety))
                else:
                    self.let(nm, ety, '%s[%s]' % (R, K)); self.env[vd['id']] = Var('val', name=nm, ty=ety)
            self.hint('loop %d elem' % no)
            self.stmt(b)
        def inc():
            if mutable and ty.k == 'seq' and not p.root.startswith('rng') and self.writes(b):
                self.check('%s.len() == %s.len()' % (self.read(p), R), 'range keeps its length while iterating')
            if not mutable and not p.root.startswith('rng') and no not in self.spec.get('no_invalidation', ()) and self.writes(b):
                self.check('%s == %s' % (self.read(p), R) if ty.k in ('seq', 'oset', 'omap') else 'true', 'range is not modified while iterating')
            self.emit('proof { %s = %s + 1; }' % (K, K))
        # index bounds are a mechanical invariant of a range loop
        sp = self.spec.setdefault('loops', {}); cur = sp.get(no, {})
        if isinstance(cur, str): cur = {'inv': cur}
        if not cur.get('_auto'):
            cur = dict(cur); cur['_auto'] = True; cur['inv'] = '0 <= %s <= %s.len();; ' % (K, R) + cur.get('inv', '')
            sp[no] = cur
        self.write_loop(no, lambda: '%s < %s.len()' % (K, R), bf, inc, True)

    def writes(self, b):
        """does the loop body call or assign anything?"""
        k = b.get('kind')
        if k in ('CXXMemberCallExpr', 'CallExpr', 'CompoundAssignOperator', 'CXXOperatorCallExpr') or (k == 'BinaryOperator' and b.get('opcode') == '='): return True
        return any(self.writes(c) for c in kids(b))

    def T_const(self, vd, t):
        return t.strip().startswith('const ')

    def is_const_elem(self, vd):
        return False

    # ---------- whole function
    def generate(self):
        d = self.decl; sp = self.spec
        q = self.ast.qual.get(d['id'], '')
        if '::' in q: self.T.scope.append(q.rsplit('::', 1)[0])
        try: return self._generate()
        finally:
            if '::' in q: self.T.scope.pop()

    def _generate(self):
        d = self.decl; sp = self.spec
        insig = self.u.in_sig(sp, d); self.outs = self.u.out_sig(sp, d)
        params = []; pre = []
        for kind, nm, ty, p in insig:
            if kind == 'this':
                params.append('Ghost(this0): Ghost<%s>' % ty.v()); self.emit('let ghost mut this_: %s = this0;' % ty.v()); self.this = Place('this_', [], ty); self.names |= {'this_', 'this0'}
            elif kind == 'thisp':
                params.append('Ghost(this0): Ghost<int>'); H = self.u.cfg['heap'][ty.name]; self.this = Place(H[0], [('m', 'this0')], self.T.parse(H[1])); self.names |= {'this_', 'this0'}
            elif kind == 'heap':
                params.append('Ghost(%s0): Ghost<%s>' % (nm, ty.v())); self.emit('let ghost mut %s: %s = %s0;' % (nm, ty.v(), nm)); self.names |= {nm, nm + '0'}
            elif kind == 'ref':
                params.append('Ghost(%s0): Ghost<%s>' % (nm, ty.v())); self.emit('let ghost mut %s: %s = %s0;' % (nm, ty.v(), nm)); self.names |= {nm, nm + '0'}
                self.env[p['id']] = Var('val', name=nm, ty=ty)
            elif nm in sp.get('alias', {}):       # the argument is the same object as another one
                params.append('Ghost(%s0): Ghost<%s>' % (nm, ty.v())); self.names |= {nm, nm + '0'}
                self.env[p['id']] = Var('place', place=self.this, ty=ty)
            else:
                params.append('Ghost(%s0): Ghost<%s>' % (nm, ty.v())); self.emit('let ghost mut %s: %s = %s0;' % (nm, ty.v(), nm)); self.names |= {nm, nm + '0'}
                self.env[p['id']] = Var('iter' if ty.k == 'iter' else 'val', name=nm, ty=ty, cont=None)
        if sp.get('iter_param'):
            for p in [c for c in kids(d) if c['kind'] == 'ParmVarDecl']:
                if p.get('name') in sp['iter_param']: self.env[p['id']].cont = sp['iter_param'][p['name']](self)
        for p in [c for c in kids(d) if c['kind'] == 'ParmVarDecl']:
            if self.u.is_opaque_param(p): self.env[p['id']] = Var('opaque', ty=None)
        self.hint('begin')
        if d['kind'] == 'CXXConstructorDecl':
            ty = self.T.parse(self.ast.qual[self.ast.parent[d['id']]]) if False else self.T.rec(self.u.rec_of(d))
            vals = self.ctor_inits(ty, d)
            obj = '%s { %s }' % (ty.name, ', '.join('%s: %s' % (vname(f), vals[f]) for f, _, _ in self.T.fields(ty)) or 'dummy_: 0int')
            self.emit('let ghost mut this_: %s = %s;' % (ty.v(), obj)); self.this = Place('this_', [], ty); self.names.add('this_')
            for f, ft, pid in self.captured(d, ty):
                self.aliased[self.env[pid].name] = 'this_.%s' % vname(f); self.env[pid] = Var('place', place=Place('this_', [('f', f, ty.name)], ft), ty=ft)
            self.hint('constructed')
        b = body(d)
        self.stmts(kids(b) if b else [])
        if not any(o[0] == 'ret' for o in self.outs):
            self.hint('end'); self.ret(None)
        else:
            self.emit('assert(false); // OBLIGATION control does not reach the end of a non-void function'); self.obl('safety')
            self.emit('return %s;' % self.pack(['arbitrary()' for _ in self.outs]))
        # unused annotations mean that the annotations no longer match the code
        for no in self.spec.get('loops', {}):
            if no not in self.used_loops: raise ExtractError('%s has no loop %s any more' % (self.name, no))
        for h in self.spec.get('hints', {}):
            if h not in self.hint_used and not h.startswith('opt '): raise ExtractError('%s: annotation point "%s" no longer exists' % (self.name, h))
        if self.spec.get('nloops') is not None and len(self.loops) != self.spec['nloops']:
            raise ExtractError('%s has %d loops, annotations are for %d' % (self.name, len(self.loops), self.spec['nloops']))
        rett = ', '.join('Ghost<%s>' % ty.v() for _, _, ty in self.outs)
        if len(self.outs) != 1: rett = '(%s)' % rett
        head = '#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n%sfn %s(%s) -> (r_: %s)\n' % (''.join(a + '\n' for a in sp.get('attrs', []) + (['#[verifier::allow_complex_invariants]'] if any(isinstance(l, dict) and (l.get('except_break') or l.get('ensures')) for l in sp.get('loops', {}).values()) else [])), self.name, ', '.join(params), rett)
        return head + self.u.contract_text(sp, d, self.nobl) + '{\n' + '\n'.join(self.lines) + '\n}\n'


def simple(v): return re.fullmatch(r'[\w.]+', v) is not None


def kids_raw(n):
    return [c if (isinstance(c, dict) and c.get('kind')) else None for c in n.get('inner', [])]


def strip_comment(s):
    i = s.find('//'); return s[:i].strip() if i >= 0 else s


def split_clauses(t):
    return [c.strip() for c in t.split(';;') if c.strip()]
