"""Loads the clang AST of an instantiation TU (which includes the real /repo sources) and indexes its declarations."""
import json, os, re, subprocess, hashlib

FLAGS = ['-std=gnu++20', '-w', '-I/repo/src/include', '-I/repo/src/pdaaal-bin', '-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'proofs/stub'), '-fsyntax-only',
         '-Xclang', '-ast-dump=json', '-Xclang']


class ExtractError(Exception):
    """The current source is outside what the extractor or the annotations cover (not a violation)."""


def _parse(s):
    d = json.JSONDecoder(); i = 0; out = []
    while True:
        i = s.find('{', i) if i < len(s) else -1
        # skip 'Dumping xyz:' headers: a document always starts at the beginning of a line
        while i > 0 and s[i - 1] != '\n':
            i = s.find('{', i + 1)
        if i < 0:
            return out
        o, i = d.raw_decode(s, i); out.append(o)


FUNCS = ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
RECS = ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl')


class AST:
    def __init__(self, tu):
        self.tu = tu
        m = re.search(r'^// AST-FILTER: (\w+)', open(tu).read())      # code outside namespace pdaaal
        r = subprocess.run(['/usr/bin/clang++'] + FLAGS + ['-ast-dump-filter=' + (m.group(1) if m else 'pdaaal'), tu], capture_output=True, text=True)
        if r.returncode:
            raise ExtractError('the extraction unit does not compile: ' + r.stderr[:1500])
        self.by_id = {}; self.parent = {}; self.qual = {}; self.funcs = []; self.recs = {}; self.recid = {}
        self.prev = {}
        for doc in _parse(r.stdout):
            self._walk(doc, None, '')
        # out-of-line definitions: body lookup through previousDecl
        self.body_of = {}
        for f in self.funcs:
            if body(f) is not None or f.get('inits') is not None:
                if body(f) is not None:
                    i = f['id']; self.body_of[i] = f
                    while i in self.prev:
                        i = self.prev[i]; self.body_of[i] = f
        bymang = {}
        for f in self.funcs:
            m = f.get('mangledName')
            if m and body(f) is not None:
                bymang.setdefault(m, f)
        for f in self.funcs:
            m = f.get('mangledName')
            if f['id'] not in self.body_of and m in bymang:
                self.body_of[f['id']] = bymang[m]
        for f in self.funcs:
            if 'parentDeclContextId' in f:
                p = f['parentDeclContextId']
                if p in self.recid:
                    self.parent[f['id']] = p
                    self.qual[f['id']] = self.qual[p] + '::' + f.get('name', '')

    def _targs(self, n):
        a = []
        for c in n.get('inner', []):
            if c.get('kind') == 'TemplateArgument':
                if 'type' in c:
                    a.append(c['type'].get('desugaredQualType', c['type']['qualType']))
                elif 'value' in c:
                    a.append(str(c['value']))
                elif c.get('inner'):
                    for d in c['inner']:
                        if d.get('kind') == 'TemplateArgument':
                            a.append(str(d['type']['qualType']) if 'type' in d else str(d.get('value', d.get('decl', {}).get('name', '?'))))
                        else:
                            a.append(str(d.get('value', '?')))
                else:
                    a.append('?')
        return a

    def _walk(self, n, parent, q):
        if not isinstance(n, dict) or 'kind' not in n:
            return
        k = n['kind']; i = n.get('id')
        q2 = q
        if k.endswith('Decl') and i:
            name = n.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                name += '<' + ', '.join(self._targs(n)) + '>'
            old = self.qual.get(i)
            if parent is None and old and '::' in old and k == 'ClassTemplateSpecializationDecl' and n.get('inner'):
                q = old[:old.rindex('::' + n.get('name', ''))]       # dumped again at top level by its explicit instantiation
            nq = (q + '::' + name) if q else name
            if old and old.endswith('<>') and n.get('inner'):
                self.qual[i] = nq
            if i not in self.by_id or (self.by_id[i].get('inner') is None):
                self.by_id[i] = n
            self.parent.setdefault(i, parent)
            self.qual.setdefault(i, nq)
            if 'previousDecl' in n:
                self.prev[i] = n['previousDecl']
            if k in FUNCS:
                if k == 'FunctionDecl' and not q and parent is None:
                    self.qual[i] = n.get('name', '')
                self.funcs.append(n)
            if k in RECS:
                self.recid[i] = n
                if n.get('completeDefinition'):
                    self.recs.setdefault(self.qual[i], n)
            if k in RECS + ('NamespaceDecl',):
                q2 = self.qual[i]
            if k == 'NamespaceDecl' and parent is None:
                q2 = n.get('name', '')
                self.qual[i] = q2
        for c in n.get('inner', []) or []:
            self._walk(c, i if (i and k.endswith('Decl')) else parent, q2)

    def find(self, pat, nparams=None, params=None, const=None):
        """instantiated function definitions whose qualified name matches the regular expression"""
        out = []; seen = set()
        for f in self.funcs:
            q = self.qual.get(f['id'], '')
            if not re.fullmatch(pat, q):
                continue
            d = self.body_of.get(f['id'])
            if d is None or not d.get('mangledName') or d['mangledName'] in seen:
                continue
            ps = [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            if nparams is not None and len(ps) != nparams:
                continue
            sig = d['type']['qualType']
            if params is not None and not re.search(params, sig):
                continue
            if const is not None and (re.search(r'\)\s*const\b[^()]*(noexcept)?$', sig) is not None) != const:
                continue
            seen.add(d['mangledName']); out.append(d)
        return out


def body(f):
    for c in f.get('inner', []) or []:
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None


def source_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(open(f, 'rb').read())
    return h.hexdigest()
