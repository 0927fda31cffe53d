"""Mechanical extraction: clang's own AST (JSON) of every function and record defined in /repo.

All sources are compiled in one translation unit inside one namespace, after the system headers they
include, so that one filtered dump holds exactly the repository's declarations. Nothing is rewritten;
the extraction drops comments and source formatting only."""
import os, re, glob, json, subprocess, tempfile
NS = 'REPO__'

class Unsupported(Exception): pass

def repo_files(repo):
    hs = sorted(glob.glob(repo + '/cpp/*.h') + glob.glob(repo + '/utils/*.h'))
    cs = sorted(glob.glob(repo + '/cpp/*.cpp') + glob.glob(repo + '/utils/*.cpp'))
    return hs, cs

def dump(repo, wdir):
    hs, cs = repo_files(repo)
    base = {os.path.basename(s) for s in hs}
    sysinc = []
    for s in hs + cs:
        for l in open(s, errors='replace'):
            m = re.match(r'\s*#\s*include\s*<([^>]+)>', l)
            if m and m.group(1) not in base and m.group(1) not in sysinc: sysinc.append(m.group(1))
    os.makedirs(wdir, exist_ok=True)
    src = os.path.join(wdir, 'all.cpp')
    with open(src, 'w') as f:
        for i in sysinc: f.write('#include <%s>\n' % i)
        f.write('namespace %s {\n' % NS)
        for s in cs + hs: f.write('#include "%s"\n' % s)
        f.write('}\n')
    p = subprocess.run(['clang++', '-std=gnu++17', '-w', '-I' + repo + '/cpp', '-I' + repo + '/utils', '-fsyntax-only',
                        '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + NS, src],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: raise Unsupported('clang: ' + p.stderr[:2000])
    s = p.stdout
    i = s.find('{')
    if i < 0: raise Unsupported('clang printed no tree')
    return json.JSONDecoder().raw_decode(s, i)[0]

# ---- types
class T:
    __slots__ = ('k', 'a', 'b', 'n')
    def __init__(self, k, a=None, b=None, n=None): self.k, self.a, self.b, self.n = k, a, b, n
    def __repr__(self): return '%s(%s)' % (self.k, ','.join(repr(x) for x in (self.a, self.b, self.n) if x is not None))
    def key(self):
        f = lambda x: x.key() if isinstance(x, T) else x
        return (self.k, f(self.a), f(self.b), self.n)
    def __eq__(self, o): return isinstance(o, T) and self.key() == o.key()
    def __hash__(self): return hash(self.key())

INTS = {'char': (True, 8), 'signed char': (True, 8), 'unsigned char': (False, 8), 'short': (True, 16), 'unsigned short': (False, 16),
        'int': (True, 32), 'unsigned int': (False, 32), 'unsigned': (False, 32), 'long': (True, 64), 'unsigned long': (False, 64),
        'long long': (True, 64), 'unsigned long long': (False, 64), 'size_t': (False, 64), 'std::size_t': (False, 64),
        'ptrdiff_t': (True, 64), 'size_type': (False, 64), 'difference_type': (True, 64)}
for _w in (8, 16, 32, 64):
    INTS['int%d_t' % _w] = INTS['std::int%d_t' % _w] = (True, _w); INTS['uint%d_t' % _w] = INTS['std::uint%d_t' % _w] = (False, _w)
_cache = {}
def parse_type(s):
    t = _cache.get(s)
    if t is None: t = _cache[s] = _parse(s)
    return t

def _split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([': d += 1
        elif c in '>)]': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def _parse(s):
    s = s.strip()
    s = re.sub(r'\b(const|volatile|struct|class|typename|noexcept)\b', ' ', s)
    s = s.replace(NS + '::', '').replace('std::__cxx11::', 'std::').replace('__gnu_cxx::', '')
    s = re.sub(r'\s+', ' ', s).strip()
    if s.endswith('&&'): return T('ref', _parse(s[:-2]))
    if s.endswith('&'): return T('ref', _parse(s[:-1]))
    if s.endswith('*'): return T('ptr', _parse(s[:-1]))
    m = re.match(r'^(.*?)((?:\[\d*\])+)$', s)
    if m and '<' not in m.group(2):
        dims = re.findall(r'\[(\d*)\]', m.group(2))
        t = _parse(m.group(1))
        for d in reversed(dims): t = T('arr', t, n=int(d) if d else None)
        return t
    if '(*' in s or s.endswith(')'): return T('fun', s)
    if s in INTS: return T('int', INTS[s])
    if s in ('double', 'float', 'long double'): return T('real')
    if s == 'bool': return T('bool')
    if s == 'void': return T('void')
    if s in ('std::string', 'string', 'std::basic_string<char>', 'basic_string<char>'): return T('str')
    m = re.match(r'^(?:std::)?([\w:]+)<(.*)>((?:::\w+)?)$', s)
    if m:
        name, args, suf = m.group(1), _split_args(m.group(2)), m.group(3)
        a = lambda i: _parse(args[i])
        if suf in ('::const_iterator', '::iterator', '::reverse_iterator', '::const_reverse_iterator'):
            base = _parse(s[:-len(suf)])
            if base.k == 'vec': return T('riter' if 'reverse' in suf else 'ptr', base.a)
            if base.k in ('map', 'set'): return T('mapit', base)
        if suf in ('::value_type', '::reference', '::const_reference'):
            base = _parse(s[:-len(suf)])
            if base.k in ('vec', 'set'): return base.a
            if base.k == 'map': return T('pair', base.a, base.b)
        if suf in ('::size_type',): return T('int', (False, 64))
        if suf: return T('opaque', s)
        if name == 'vector': return T('vec', a(0))
        if name == 'array': return T('arr', a(0), n=int(re.sub(r'[uUlL]+$', '', args[1])))
        if name == 'map': return T('map', a(0), a(1))
        if name == 'set': return T('set', a(0))
        if name == 'pair': return T('pair', a(0), a(1))
        if name in ('__normal_iterator',): return T('ptr', _parse(args[0]).a)
        if name in ('_Rb_tree_const_iterator', '_Rb_tree_iterator'):
            e = a(0)
            return T('mapit', T('map', e.a, e.b)) if e.k == 'pair' else T('mapit', T('set', e))
        if name == 'reverse_iterator': return T('riter', a(0).a)
        if name == 'basic_string': return T('str')
        if name == 'initializer_list': return T('vec', a(0))
        if name == 'allocator': return T('opaque', s)
        return T('opaque', s)
    if re.match(r'^[\w:]+$', s): return T('rec', s.split('::')[-1])
    return T('opaque', s)

class Prog:
    """functions and records of the repository"""
    def __init__(self, root):
        self.fns, self.recs, self.byid, self.globals = {}, {}, {}, {}
        self.bodies, self.fields, self.parent = {}, {}, {}
        self.loc_file, self.cur_file = {}, None
        self._walk(root, [])
        self.methods = {}
        for q, fs in self.fns.items(): pass
    def _walk(self, n, scope):
        for c in n.get('inner', []):
            if not isinstance(c, dict): continue
            k = c.get('kind')
            if k in ('NamespaceDecl', 'LinkageSpecDecl', 'FunctionTemplateDecl'):
                self._walk(c, scope)
            elif k == 'CXXRecordDecl':
                self.byid[c['id']] = c
                if c.get('completeDefinition') or c.get('inner'):
                    name = c.get('name', '?')
                    if c.get('completeDefinition'):
                        self.recs[name] = c
                        self.fields[name] = [f for f in c.get('inner', []) if f.get('kind') == 'FieldDecl']
                        for f in self.fields[name]: self.byid[f['id']] = f
                        if c.get('bases'): c['_bases'] = True
                    self._walk(c, scope + [name])
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                cls = scope[-1] if scope else None
                self.byid[c['id']] = c
                if cls is None and 'previousDecl' in c and c['previousDecl'] in self.byid:
                    cls = self.byid[c['previousDecl']].get('_cls')
                if cls is None and k == 'CXXMethodDecl' and c.get('parentDeclContextId') in self.byid:
                    cls = self.byid[c['parentDeclContextId']].get('name')
                c['_cls'] = cls
                c['_params'] = [p for p in c.get('inner', []) if p.get('kind') == 'ParmVarDecl']
                for p in c['_params']: self.byid[p['id']] = p
                b = [x for x in c.get('inner', []) if x.get('kind') == 'CompoundStmt']
                c['_body'] = b[-1] if b else None
                c['_inits'] = [x for x in c.get('inner', []) if x.get('kind') == 'CXXCtorInitializer']
                c['_sig'] = c.get('mangledName') or (c.get('name', '') + c['type']['qualType'])
                q = (cls + '::' if cls else '') + c.get('name', '?')
                c['_q'] = q
                if c['_body'] is not None or k == 'CXXConstructorDecl':
                    self.fns.setdefault(q, []).append(c)
                if c['_body'] is not None: self.bodies[(cls, c['_sig'])] = c
            elif k == 'VarDecl':
                self.globals[c['id']] = c; self.byid[c['id']] = c
            elif k == 'EnumDecl':
                v = -1
                for e in c.get('inner', []):
                    if e.get('kind') == 'EnumConstantDecl':
                        init = _find_value(e); v = init if init is not None else v + 1
                        e['_value'] = v; self.byid[e['id']] = e
    def body_of(self, decl):
        if decl.get('_body') is not None: return decl
        return self.bodies.get((decl.get('_cls'), decl.get('_sig')))
    def find(self, q, nparams=None, suffix=None):
        fs = [f for f in self.fns.get(q, []) if f['_body'] is not None and (nparams is None or len(f['_params']) == nparams)]
        if suffix: fs = [f for f in fs if suffix in f['type']['qualType']]
        if not fs: raise Unsupported('no function ' + q)
        return fs[0]

def _find_value(n):
    if 'value' in n and n.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
        try: return int(n['value'])
        except ValueError: return None
    for c in n.get('inner', []):
        v = _find_value(c)
        if v is not None: return v
    return None

def ty(n):
    t = n.get('type', {})
    return parse_type(t.get('desugaredQualType') or t.get('qualType', 'void'))

def line(n):
    def get(l):
        if not isinstance(l, dict): return None
        for k in ('expansionLoc', 'spellingLoc'):
            if k in l: return get(l[k])
        return l.get('line')
    r = n.get('range', {})
    return get(r.get('begin', {})) or get(n.get('loc', {}))

def load(repo, wdir): return Prog(dump(repo, wdir))
