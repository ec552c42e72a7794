"""C++ types (as printed by clang) -> specification types."""
import re
from cppast import ExtractError

INTS = {'unsigned int': (32, 0), 'unsigned long': (64, 0), 'unsigned long long': (64, 0), 'int': (32, 1), 'long': (64, 1), 'long long': (64, 1),
        'uint32_t': (32, 0), 'size_t': (64, 0), 'std::size_t': (64, 0), 'uint64_t': (64, 0), 'int32_t': (32, 1), 'int64_t': (64, 1),
        'unsigned char': (8, 0), 'signed char': (8, 1), 'char': (8, 1), 'short': (16, 1), 'unsigned short': (16, 0), 'uint8_t': (8, 0), 'uint16_t': (16, 0),
        'size_type': (64, 0), 'difference_type': (64, 1), 'ptrdiff_t': (64, 1)}


class Ty:
    __slots__ = ('k', 'a', 'name', 'bits', 'signed', 'ref', 'const', 'rec')

    def __init__(s, k, a=(), name=None, bits=0, signed=0, rec=None):
        s.k = k; s.a = list(a); s.name = name; s.bits = bits; s.signed = signed; s.ref = False; s.const = False; s.rec = rec

    def v(s):
        k = s.k
        if k in ('int', 'iter', 'enum', 'ptr', 'hptr', 'float'): return 'int'
        if k == 'bool': return 'bool'
        if k in ('seq', 'oset', 'stack', 'queue', 'array'): return 'Seq<%s>' % s.a[0].v()
        if k == 'pq': return 'Seq<%s>' % s.a[0].v()
        if k == 'omap': return 'Seq<(%s, %s)>' % (s.a[0].v(), s.a[1].v())
        if k == 'set': return 'Set<%s>' % s.a[0].v()
        if k == 'map': return 'Map<%s, %s>' % (s.a[0].v(), s.a[1].v())
        if k == 'tuple':
            return '(%s)' % ', '.join(x.v() for x in s.a) if len(s.a) != 1 else '(%s,)' % s.a[0].v()
        if k == 'option': return 'Option<%s>' % s.a[0].v()
        if k == 'hiter': return 'Option<%s>' % s.a[0].v()
        if k == 'rec': return s.name
        if k == 'uptr': return s.a[0].v()
        if k == 'unit': return '()'
        if k == 'raw': return s.name
        raise ExtractError('type %s (%s) has no specification type' % (k, s.name))

    def default(s):
        k = s.k
        if k in ('int', 'enum', 'iter', 'ptr', 'hptr', 'float'): return '0int'
        if k == 'bool': return 'false'
        if k == 'seq' and (s.name or '').startswith('array'): return 'Seq::new(%snat, |i_: int| %s)' % (s.name[5:].rstrip('ULul'), 'arbitrary::<int>()' if s.a[0].k in ('int', 'enum', 'bool') else s.a[0].default())
        if k in ('seq', 'oset', 'stack', 'queue', 'pq', 'omap'): return 'Seq::<%s>::empty()' % (s.a[0].v() if k != 'omap' else '(%s, %s)' % (s.a[0].v(), s.a[1].v()))
        if k == 'set': return 'Set::<%s>::empty()' % s.a[0].v()
        if k == 'map': return 'Map::<%s, %s>::empty()' % (s.a[0].v(), s.a[1].v())
        if k == 'tuple': return '(%s)' % ', '.join(x.default() for x in s.a)
        if k in ('option', 'hiter'): return 'None'
        if k == 'unit': return '()'
        if k == 'raw': return 'raw_default::<%s>()' % s.name
        raise ExtractError('no default value for type ' + k + ' ' + str(s.name))

    def __repr__(s):
        return '%s%s%s' % (s.k, s.a or '', s.name or '')


def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


def top_template(s):
    """'a::b<x,y>::c<z>' -> ('a::b<x,y>::c', ['z'])"""
    if not s.endswith('>'):
        return s, None
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == '>': d += 1
        if s[i] == '<':
            d -= 1
            if d == 0:
                return s[:i], split_args(s[i + 1:-1])
    return s, None


def clean(s):
    s = s.strip()
    ref = const = False
    while True:
        t = s
        if s.endswith('&&'): s = s[:-2].strip(); ref = True
        elif s.endswith('&'): s = s[:-1].strip(); ref = True
        if re.match(r'^(const|volatile|struct|class|typename|enum|constexpr)\s', s):
            if s.startswith('const') and not s.startswith('constexpr'): const = True
            s = s.split(' ', 1)[1].strip()
        if s.endswith(' const'): s = s[:-6].strip()
        if s.endswith('*const'): s = s[:-5].strip()
        if s == t:
            return s, ref, const


class Types:
    def __init__(self, ast, cfg):
        self.ast = ast; self.cfg = cfg; self.recs = {}; self.order = []; self.used = set(); self.scope = []
        self.overrides = cfg.get('types', [])

    def parse(self, s):
        base, ref, const = clean(s)
        t = self._parse(base)
        t2 = Ty(t.k, t.a, t.name, t.bits, t.signed, t.rec); t2.ref = ref; t2.const = const
        return t2

    def _parse(self, s):
        for pat, fn in self.overrides:
            m = re.fullmatch(pat, s)
            if m:
                return fn(self, m) if callable(fn) else self._parse(fn)
        if s in INTS:
            b, g = INTS[s]; return Ty('int', bits=b, signed=g, name=s)
        if s in ('bool', '_Bit_reference', 'std::_Bit_reference'): return Ty('bool')
        if s in ('void', 'nullptr_t', 'std::nullptr_t'): return Ty('unit')
        if s in ('double', 'float', 'long double'): return Ty('float')
        if s in ('string', 'std::string', 'std::basic_string<char>', 'basic_string<char>', 'std::string_view', 'std::basic_string_view<char>'): return Ty('seq', [Ty('int', bits=8)])
        m = re.fullmatch(r'(.*?)\s*\[(\d+)\]', s)
        if m: return Ty('seq', [self.parse(m.group(1))])
        if s.endswith('*'):
            inner = s[:-1].strip(); return self._ptr(inner)
        head, args = top_template(s)
        h = head.split('::')[-1] if args is not None else s
        if args is not None and not head.startswith('pdaaal') and '::' not in head.replace('std::', '').replace('__gnu_cxx::', '').replace('__cxx11::', '').replace('__detail::', '').replace('absl::', '').replace('container_internal::', '').replace('__debug::', ''):
            p = self.parse
            if h in ('vector', 'deque', 'initializer_list'): return Ty('seq', [p(args[0])])
            if h == 'array': return Ty('seq', [p(args[0])], name='array%s' % args[1])
            if h == 'stack': return Ty('stack', [p(args[0])])
            if h == 'queue': return Ty('queue', [p(args[0])])
            if h == 'priority_queue': return Ty('pq', [p(args[0])], name=args[2] if len(args) > 2 else None)
            if h == 'set': return Ty('oset', [p(args[0])])
            if h == 'map': return Ty('omap', [p(args[0]), p(args[1])])
            if h in ('unordered_set', 'flat_hash_set'): return Ty('set', [p(args[0])])
            if h in ('unordered_map', 'flat_hash_map'): return Ty('map', [p(args[0]), p(args[1])])
            if h in ('pair', 'tuple'): return Ty('tuple', [p(x) for x in args])
            if h == 'optional': return Ty('option', [p(args[0])])
            if h in ('__normal_iterator',):
                return Ty('iter', [p(args[0].rstrip('*').strip())])
            if h == 'move_iterator': return p(args[0])
            if h in ('_Rb_tree_const_iterator', '_Rb_tree_iterator', 'reverse_iterator', 'back_insert_iterator'):
                t = p(args[0]) if h.startswith('_Rb') else None
                return Ty('iter', [t] if t else [], name=h)
            if h in ('_Node_iterator', '_Node_const_iterator', '_Node_iterator_base'):
                t = p(args[0])
                return Ty('hiter', [t.a[0]] if (t.k == 'tuple' and args[0].replace('std::', '').startswith('pair')) else [t], name=args[0])
            if h == 'unique_ptr':
                f = self.cfg.get('unique_ptr')
                inner = p(args[0])
                return (f(self, args[0], inner) if f else None) or Ty('uptr', [inner])
            if h == 'reference_wrapper': return p(args[0])
            if h == 'enable_if_t': return p(args[1]) if len(args) > 1 and args[1] != 'void' else Ty('unit')
            if h in ('remove_reference_t', 'decay_t', 'remove_cv_t', 'remove_const_t'): return p(args[0])
            if h in ('__decay_and_strip',): return p(args[0])
            if h == 'function': return Ty('fn', name=s)
        if s.endswith('::__type') or s.endswith('::type'):
            m = re.match(r'.*?__decay_and_strip<(.*)>::__type$', s)
            if m: return self.parse(m.group(1))
        if s.startswith('(lambda') or s.startswith('lambda'): return Ty('lambda')
        if re.fullmatch(r'\w+', s):   # the innermost scope that declares the name: an alias there hides a record elsewhere
            for sc in reversed(self.scope):
                if sc + '::' + s in self.ast.recs: break
                n = self.ast.recs.get(sc)
                t = self.alias_in(n, s) if n is not None else None
                if t is not None: return self.parse(t)
        r = self.find_rec(s)
        if r is not None: return self.rec(r)
        if re.fullmatch(r'\w+', s):
            for sc in reversed(self.scope):
                n = self.ast.recs.get(sc)
                t = self.alias_in(n, s) if n is not None else None
                if t is not None: return self.parse(t)
        e = self.find_enum(s)
        if e: return Ty('enum', name=s)
        raise ExtractError('unsupported type ' + s)

    def alias_in(self, n, name):
        """member type alias of a class or of its bases"""
        for c in n.get('inner', []):
            if c.get('kind') in ('TypeAliasDecl', 'TypedefDecl') and c.get('name') == name:
                t = c['type'].get('desugaredQualType', c['type']['qualType'])
                if t != name and not t.startswith('type-parameter'): return t
        for b in n.get('bases', []):
            bt = b['type'].get('desugaredQualType', b['type']['qualType'])
            r = self.find_rec(clean(bt)[0])
            if r is not None:
                t = self.alias_in(r, name)
                if t is not None: return t
        return None

    def _ptr(self, inner):
        i, _, _ = clean(inner)
        f = self.cfg.get('pointer')
        if f:
            t = f(self, i)
            if t: return t
        try:
            return Ty('ptr', [self.parse(i)], name=i)
        except ExtractError:
            return Ty('ptr', [], name=i)

    def find_enum(self, s):
        n = s.split('::')[-1]
        for i, d in self.ast.by_id.items():
            if d.get('kind') == 'EnumDecl' and d.get('name') == n: return d
        return None

    @staticmethod
    def _segs(q):
        out = []; d = 0; cur = ''
        i = 0
        while i < len(q):
            if q[i] in '<(': d += 1
            if q[i] in '>)': d -= 1
            if d == 0 and q.startswith('::', i):
                out.append(cur); cur = ''; i += 2; continue
            cur += q[i]; i += 1
        out.append(cur)
        return out

    def _argeq(self, a, b):
        a, _, _ = clean(a); b, _, _ = clean(b)
        if a == b: return True
        if re.fullmatch(r'-?\d+', b) and ('::' in a or a in ('true', 'false') or re.fullmatch(r'\(.*\)\d+', a) or a.startswith('fut::') or a.startswith('type::')):
            if a in ('true', 'false'): return b == {'true': '1', 'false': '0'}[a] or b == {'true': '-1', 'false': '0'}[a]
            m = re.fullmatch(r'\(.*\)(\d+)', a)
            if m: return m.group(1) == b
            v = self.enumerator(a.split('::')[-1], a)
            return v is None or str(v) == b
        if {a, b} <= {'true', 'false', '1', '0', '-1'}: return (a in ('true', '1', '-1')) == (b in ('true', '1', '-1'))
        ha, aa = top_template(a); hb, ab = top_template(b)
        if aa is not None and ab is not None and ha.split('::')[-1] == hb.split('::')[-1]:
            return all(self._argeq(x, y) for x, y in zip(aa, ab))
        if a in INTS and b in INTS: return INTS[a] == INTS[b]
        la, lb = a.split('::')[-1], b.split('::')[-1]
        return '::' in a + b and aa is None and ab is None and la == lb and not re.fullmatch(r'-?\d+', la)

    def enumerator(self, name, full=None):
        for i, d in self.ast.by_id.items():
            if d.get('kind') == 'EnumDecl':
                v = -1; names = {}
                for c in d.get('inner', []):
                    if c.get('kind') == 'EnumConstantDecl':
                        v += 1
                        es = list(c.get('inner', []))
                        while es:
                            e = es.pop(0)
                            if 'value' in e: v = int(e['value']); break
                            es = [x for x in e.get('inner', []) if isinstance(x, dict)] + es
                        names[c['name']] = v
                if name in names and (full is None or '::' not in full or full.split('::')[-2] in (d.get('name'), 'internal', 'pdaaal', 'fut')):
                    return names[name]
        return None

    def _same(self, s, q):
        a, b = self._segs(s), self._segs(q)
        if len(a) > len(b): return False
        b = b[len(b) - len(a):]
        for x, y in zip(a, b):
            hx, ax = top_template(x); hy, ay = top_template(y)
            if hx != hy: return False
            if ax is None and ay is None: continue
            if ax is None:
                return False
            if ay is None: return False
            if len(ax) > len(ay): return False
            if not all(self._argeq(u, v) for u, v in zip(ax, ay)): return False
        return True

    def find_rec(self, s):
        if s in self.recs and self.recs[s] is not None: return self.recs[s]
        if s in self.ast.recs:
            n = self.ast.recs[s]
            if '<' in s or n['kind'] == 'CXXRecordDecl':
                if not self._is_pattern(n): return n
        c = []
        for q, n in self.ast.recs.items():
            if self._same(s, q) and not self._is_pattern(n): c.append((q, n))
        for sc in reversed(self.scope):
            for q, n in c:
                if q.startswith(sc): return n
        if len(c) == 1: return c[0][1]
        full = [x for x in c if len(self._segs(x[0])) == len(self._segs(s))]
        if len(full) == 1: return full[0][1]
        if len(c) > 1:
            c.sort(key=lambda x: (len(self._segs(x[0])), len(x[0])))
            return c[0][1]
        return None

    def _is_pattern(self, n):
        """record inside an uninstantiated template"""
        i = n['id']
        while i:
            p = self.ast.parent.get(i)
            if p and self.ast.by_id[p]['kind'] in ('ClassTemplateDecl', 'ClassTemplatePartialSpecializationDecl') and self.ast.by_id[i]['kind'] == 'CXXRecordDecl':
                return True
            if self.ast.by_id[i]['kind'] == 'ClassTemplatePartialSpecializationDecl': return True
            i = p
        return False

    def rec(self, n):
        key = n['id']
        if key in self.recs: return self.recs[key][0]
        for pat, f in self.cfg.get('rec_types', []):
            if re.fullmatch(pat, self.ast.qual[key]): return f(self)
        base = re.sub(r'\W', '_', n.get('name') or 'anon')
        alias = self.cfg.get('rec_names', {})
        q = self.ast.qual[key]
        for pat, nm in alias.items():
            if re.fullmatch(pat, q): base = nm
        name = base; k = 2
        while name in self.used or name in ('Seq', 'Set', 'Map', 'Option'):
            name = '%s_%d' % (base, k); k += 1
        self.used.add(name)
        t = Ty('rec', name=name, rec=n)
        self.recs[key] = (t, None)
        fields = []
        for b in n.get('bases', []):
            bt = self.parse(b['type'].get('desugaredQualType', b['type']['qualType']))
            if bt.k == 'rec':
                fields += self.fields(bt)
            else:
                fields.append(('base_', bt, None))
        skip = self.cfg.get('skip_fields', {}).get(name, ())
        sc = list(self.scope); self.scope.append(q)
        for c in n.get('inner', []):
            if c.get('kind') == 'FieldDecl' and c.get('name'):
                if c['name'] in skip: continue
                ov = self.cfg.get('field_types', {}).get((name, c['name']))
                try:
                    ft = ov or self.parse(c['type'].get('desugaredQualType', c['type']['qualType']))
                    ft.v()
                except ExtractError:
                    if self.cfg.get('lenient_fields', True): continue
                    raise
                fields.append((c['name'], ft, c))
        self.scope = sc
        self.recs[key] = (t, fields)
        self.order.append((name, fields))
        return t

    def fields(self, t):
        return self.recs[t.rec['id']][1]

    def decls(self):
        out = []
        for name, fields in self.order:
            out.append('pub struct %s { %s }' % (name, ', '.join('pub %s: %s' % (vname(f), ty.v()) for f, ty, _ in fields) or 'pub dummy_: int'))
        return '\n'.join(out)


KW = {'type', 'match', 'ref', 'move', 'in', 'fn', 'loop', 'self', 'impl', 'use', 'mod', 'pub', 'let', 'mut', 'as', 'where', 'box', 'final', 'old', 'true', 'false', 'final', 'trace', 'proof', 'ghost', 'tracked', 'spec', 'assert', 'assume', 'forall', 'exists', 'choose', 'int', 'nat', 'priv', 'override', 'macro', 'abstract', 'become', 'yield', 'unsized', 'virtual', 'try', 'dyn', 'is', 'has', 'by', 'via', 'when', 'any', 'all', 'seq', 'set', 'map', 'this', 'result', 'ret', 'tuple'}


def vname(n):
    n = re.sub(r'\W', '_', n)
    return n + '_' if n in KW else n
