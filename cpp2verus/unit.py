"""One proof unit: an instantiation TU of the real sources, contracts for its functions, lemmas; run through Verus."""
import re, os, subprocess, time, json
from cppast import AST, ExtractError, body
from vtypes import Types, Ty, vname
from c2v import FnGen, Place, Var, kids, qt, split_clauses
from stl import Stl, PRELUDE


def same_object(c, par):
    """the same function called with parameter par bound to *this itself; the contract stays the same"""
    s = lambda t: {k: s(v) for k, v in t.items()} if isinstance(t, dict) else re.sub(r'\b%s\b' % par, 'this_', t)
    return dict(c, name=c['name'] + '_same', alias={par: 'this'}, requires=c.get('requires', '') + ';; %s0 == this0' % par, loops={k: s(v) for k, v in c.get('loops', {}).items()}, hints={k: s(v) for k, v in c.get('hints', {}).items()})


class Unit:
    def __init__(self, name, tu, contracts, cfg=None, spec='', lemmas='', astcache=None):
        self.name = name; self.cfg = cfg or {}; self.contracts = contracts; self.spec = spec; self.lemmas = lemmas
        self.ast = astcache(tu) if astcache else AST(tu)
        self.types = Types(self.ast, self.cfg); self.stl = Stl(self); self.used_contracts = set()
        self.bind()

    # ----- lookup
    def bind(self):
        self.by_mangled = {}; self.decl_of = {}
        for c in self.contracts:
            ds = self.ast.find(c['fn'], nparams=c.get('nparams'), params=c.get('sig'), const=c.get('const'))
            if c.get('pick') is not None: ds = [d for d in ds if c['pick'](self, d)]
            if len(ds) != 1:
                if c.get('optional') and not ds: continue
                raise ExtractError('contract %s: %d functions match %s%s' % (c['name'], len(ds), c['fn'], ''.join('\n   %s : %s' % (self.ast.qual[d['id']], d['type']['qualType']) for d in ds)))
            d = ds[0]
            if not c.get('alias'): self.by_mangled[d['mangledName']] = c
            self.decl_of[c['name']] = d

    def body(self, d):
        f = self.ast.body_of.get(d['id'])
        if f is None and body(d) is not None: f = d
        return f

    def contract_for(self, d):
        f = self.body(d) or d
        return self.by_mangled.get(f.get('mangledName'))

    def rec_of(self, d):
        i = self.ast.parent.get(d['id'])
        while i and i not in self.ast.recid: i = self.ast.parent.get(i)
        return self.ast.recid[i]

    def is_opaque_param(self, p):
        t = p['type'].get('desugaredQualType', p['type']['qualType'])
        try: ty = self.types.parse(t)
        except ExtractError: return '(lambda' in t or 'function<' in t
        return ty.k in ('fn', 'lambda') or '(lambda' in t

    def scoped(self, d, f):
        q = self.ast.qual.get(d['id'], ''); n = 0
        if '::' in q: self.types.scope.append(q.rsplit('::', 1)[0]); n = 1
        try: return f()
        finally:
            if n: self.types.scope.pop()

    def is_method(self, d): return d['kind'] in ('CXXMethodDecl', 'CXXConversionDecl', 'CXXDestructorDecl') and d.get('storageClass') != 'static' and (self.body(d) or d).get('storageClass') != 'static' and not self._static(d)

    def _static(self, d):
        # out-of-line definitions do not repeat 'static'
        i = d['id']
        while i in self.ast.prev:
            i = self.ast.prev[i]
            x = self.ast.by_id.get(i)
            if x is not None and x.get('storageClass') == 'static': return True
        return False

    def const_method(self, d): return re.search(r'\)\s*const\b[^()]*$', d['type']['qualType']) is not None

    def params(self, c, d):
        ps = [x for x in kids(d) if x['kind'] == 'ParmVarDecl']
        out = []
        for i, p in enumerate(ps):
            if self.is_opaque_param(p): continue
            nm = c.get('params', [None] * len(ps))[i] if i < len(c.get('params', [])) else None
            out.append((p, nm or vname(p.get('name') or 'arg%d' % i)))
        return out

    def in_sig(self, c, d):
        d = self.decl_of.get(c['name'], d)
        def f():
            out = []
            for h in c.get('heap', ()): out.append(('heap', h, self.cfg['heaps'][h], None))
            if self.is_method(d) and c.get('heap_this'): out.append(('thisp', 'this', Ty('hptr', [], name=c['heap_this']), None))
            elif self.is_method(d): out.append(('this', 'this', self.types.rec(self.rec_of(d)), None))
            for p, nm in self.params(c, d):
                t = p['type'].get('desugaredQualType', p['type']['qualType']); ty = self.types.parse(t)
                if nm in c.get('drop', ()): continue
                ref = t.rstrip().endswith('&') and not t.rstrip().endswith('&&') and not t.strip().startswith('const ') and not self._const_ref(t)
                if nm in c.get('byval', ()): ref = False
                out.append(('ref' if ref else 'val', nm, ty, p))
            return out
        return self.scoped(d, f)

    def _const_ref(self, t): return re.search(r'\bconst\s*&$', t) is not None

    def out_sig(self, c, d):
        d = self.decl_of.get(c['name'], d)
        def f():
            out = []
            if d['kind'] == 'CXXConstructorDecl':
                out.append(('ctor', 'this', self.types.rec(self.rec_of(d))))
            else:
                rt = self.ret_type(c, d)
                if rt is not None and rt.k != 'unit': out.append(('ret', 'result', rt))
                if self.is_method(d) and not self.const_method(d) and not c.get('const_this') and not c.get('heap_this'): out.append(('this', 'this', self.types.rec(self.rec_of(d))))
            for h in c.get('heap', ()):
                if h not in c.get('heap_const', ()): out.append(('heap', h, self.cfg['heaps'][h]))
            for k, nm, ty, p in self.in_sig(c, d):
                if k == 'ref': out.append(('ref', nm, ty))
            return out
        return self.scoped(d, f)

    def ret_type(self, c, d):
        if 'ret' in c: return c['ret'](self) if callable(c['ret']) else self.types.parse(c['ret'])
        t = d['type'].get('desugaredQualType', d['type']['qualType'])
        r = t[:t.index('(')].strip() if '(' in t else t
        if r == 'void': return None
        out = []
        def w(x):
            if x.get('kind') == 'LambdaExpr': return
            if x.get('kind') == 'ReturnStmt' and kids(x): out.append(kids(x)[0]); return
            for y in kids(x): w(y)
        w(d)
        for o in out:
            try:
                ty = self.types.parse(qt(o))
                if ty.k == 'unit': continue
                return ty
            except ExtractError: continue
        return self.types.parse(r)

    def builtin(self, fn, d, n, args, want, me, thisarg):
        q = self.ast.qual.get(d['id'], '')
        for pat, h in self.cfg.get('builtins', []):
            if re.fullmatch(pat, q): return h(fn, d, n, args, want, me, thisarg)
        return None

    def iterable(self, fn, place, ty):
        h = self.cfg.get('iterable', {}).get(ty.name)
        if h: return h(fn, place, ty)
        fs = [f for f in self.types.fields(ty) if f[1].k in ('seq', 'map', 'set', 'oset', 'omap')]
        if len(fs) == 1:
            q = place.then(('f', fs[0][0], ty.name), fs[0][1]); return q, fs[0][1]
        if len(self.types.fields(ty)) == 1 and self.types.fields(ty)[0][1].k == 'rec':
            f = self.types.fields(ty)[0]; return self.iterable(fn, place.then(('f', f[0], ty.name), f[1]), f[1])
        raise ExtractError('range over ' + ty.name)

    # ----- text
    def sub_outs(self, c, d, text):
        outs = self.out_sig(c, d)
        for i, (k, nm, ty) in enumerate(outs):
            e = 'r_.%d@' % i if len(outs) > 1 else 'r_@'
            text = re.sub(r'\b%s\b' % ('result' if k == 'ret' else nm + '1'), e, text)
        return text

    def contract_text(self, c, d, nobl):
        out = ''
        req = split_clauses(c.get('requires', '')); ens = split_clauses(c.get('ensures', ''))
        if req: out += '    requires\n' + ''.join('        %s,\n' % x for x in req)
        if ens: out += '    ensures\n' + ''.join('        %s, // ENSURES %s\n' % (self.sub_outs(c, d, x), x) for x in ens)
        nobl['ensures'] = len(ens)
        return out

    def trusted_text(self, c):
        """contract of a function proved in another unit"""
        d = self.decl_of[c['name']]; ins = self.in_sig(c, d); outs = self.out_sig(c, d); nobl = {}
        ps = ', '.join('Ghost(%s0): Ghost<%s>' % ('this' if k == 'this' else nm, ty.v()) for k, nm, ty, p in ins)
        rt = ', '.join('Ghost<%s>' % ty.v() for _, _, ty in outs)
        if len(outs) != 1: rt = '(%s)' % rt
        return '#[verifier::external_body]\nfn %s(%s) -> (r_: %s)\n' % (c['name'], ps, rt) + self.contract_text(c, d, nobl) + '{ unimplemented!() }\n'

    def generate(self, probe=False):
        self.probe = probe; fns = []; self.obl = {}; self.fnlines = {}
        for c in self.contracts:
            if c['name'] not in self.decl_of: continue
            if c.get('proved_in'): continue
            d = self.decl_of[c['name']]
            g = FnGen(self, d, dict(c), c['name'])
            g.spec['loops'] = dict(c.get('loops', {}))
            try: text = g.generate()
            except ExtractError as e: raise ExtractError('%s: %s' % (c['name'], e))
            self.obl[c['name']] = dict(g.nobl)
            fns.append((c['name'], text))
        text = PRELUDE
        # contracts of functions proved elsewhere
        ext = [self.trusted_text(c) for c in self.contracts if c.get('proved_in') and c['name'] in self.decl_of]
        text += '// ---- extracted types\n' + self.types.decls() + '\n// ---- specification\n' + self.spec + '\n// ---- lemmas\n' + self.lemmas + '\n// ---- contracts proved in other units\n' + '\n'.join(ext) + '\n// ---- extracted functions\n'
        for nm, t in fns:
            start = text.count('\n') + 1
            text += t + '\n'
            self.fnlines[nm] = (start, text.count('\n'))
        text += '\nfn main() {}\n}\n'
        return text


def run_verus(path, rlimit=60, extra=(), timeout=800):
    t = time.time()
    try:
        r = subprocess.run(['verus', path, '--rlimit', str(rlimit), '--multiple-errors', '8', '--num-threads', '8', '--time-expanded', '--output-json', '--triggers-mode', 'silent'] + list(extra), capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path) or '.')
    except subprocess.TimeoutExpired:
        return None, '', 'verus timed out', time.time() - t
    try: j = json.loads(r.stdout[r.stdout.index('{'):])
    except Exception: j = None
    return j, r.stdout, r.stderr, time.time() - t
