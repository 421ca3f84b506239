"""Reads the clang JSON ASTs and indexes the function bodies of the library."""
import json, re, functools

def load_docs(f):
    s = open(f).read(); dec = json.JSONDecoder(); i = 0; out = []
    while True:
        i = s.find('{', i)
        if i < 0: return out
        o, i = dec.raw_decode(s, i); out.append(o)

@functools.lru_cache(None)
def strip_targs(t):
    out = []; d = 0; i = 0
    while i < len(t):
        c = t[i]
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out)

@functools.lru_cache(None)
def unqual(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for q in ('const ', 'volatile ', 'typename ', 'struct ', 'class ', 'constexpr '):
            if t.startswith(q): t = t[len(q):].strip(); ch = True
        for q in ('&&', '&', ' const'):
            if t.endswith(q): t = t[:-len(q)].strip(); ch = True
    return t

@functools.lru_cache(None)
def clsname(t):
    """'const smart_dnn::BroadcastView<float>::Iterator &' -> 'BroadcastView::Iterator'"""
    t = unqual(t)
    while t.endswith('*'): t = unqual(t[:-1])
    t = strip_targs(t)
    for ns in ('smart_dnn::', 'std::__cxx11::', 'std::', '__gnu_cxx::', '__cxx11::', 'TensorFactory::', 'detail::', 'internal::'):
        t = t.replace(ns, '')
    return t.strip()

@functools.lru_cache(None)
def targs(t):
    t = unqual(t)
    i = t.find('<')
    if i < 0: return ()
    d = 0; cur = ''; out = []
    for c in t[i:]:
        if c == '<':
            d += 1
            if d == 1: continue
        elif c == '>':
            d -= 1
            if d == 0: break
        if c == ',' and d == 1: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return tuple(out)

def qt(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''
def qt0(n):
    return (n.get('type') or {}).get('qualType') or ''

class Fun:
    __slots__ = ('node', 'cls', 'name', 'params', 'body', 'sig', 'kind', 'inits', 'virtual', 'static', 'line', 'file', 'ret', 'decl', 'deleted', 'implicit')
    def __repr__(s): return '%s%s' % (s.cls + '::' if s.cls else '', s.name)

class Program:
    def __init__(s, d):
        s.byid = {}; s.members = {}; s.free = {}; s.bases = {}; s.fields = {}; s.static_vars = {}; s.nodes = {}
        s.aliases = {}
        for f in ('smart_dnn', 'Shape', 'RandomEngine'):
            s.dump = f
            for o in load_docs('%s/%s.json' % (d, f)):
                s.walk(o, (), False)
        # definitions for declarations without body
        for lst in list(s.members.values()) + list(s.free.values()):
            lst.sort(key=lambda f: f.body is None)
    CLS = ('ClassTemplateSpecializationDecl', 'CXXRecordDecl')
    FUN = ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl')
    def walk(s, n, path, intmpl):
        k = n.get('kind')
        if k in s.FUN:
            s.fun(n, path); return
        if k == 'VarDecl':
            s.static_vars[n['id']] = n
            if n.get('name'): s.static_vars[(path[-1] if path else '', n['name'])] = n
            return
        if k == 'NamespaceDecl' or k == 'LinkageSpecDecl':
            for c in n.get('inner', []): s.walk(c, path, intmpl)
        elif k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl': s.walk(c, path, intmpl)
                elif c.get('kind') == 'CXXRecordDecl' and False: pass
        elif k == 'FunctionTemplateDecl':
            first = True
            for c in n.get('inner', []):
                if c.get('kind') in s.FUN:
                    if first: first = False; continue     # the pattern itself
                    s.fun(c, path)
        elif k in s.CLS:
            nm = n.get('name') or ''
            if k == 'ClassTemplateSpecializationDecl' and not any(c.get('kind') in s.FUN + ('FieldDecl',) for c in n.get('inner', [])): return
            cls = (path[-1] + '::' + nm) if path else nm
            bs = [clsname(b['type'].get('desugaredQualType') or b['type']['qualType']) for b in n.get('bases', [])]
            if bs or cls not in s.bases: s.bases[cls] = bs
            fl = []
            for c in n.get('inner', []):
                if c.get('kind') == 'FieldDecl':
                    init = [x for x in c.get('inner', []) if x.get('kind') != 'FullComment' and 'type' in x]
                    fl.append((c.get('name', ''), qt(c), init[0] if init else None, c['id']))
            if fl or cls not in s.fields: s.fields[cls] = fl
            for c in n.get('inner', []): s.walk(c, path + (cls,), intmpl)
    def fun(s, n, path):
        f = Fun()
        f.node = n; f.cls = path[-1] if path else ''; f.name = n.get('name', ''); f.kind = n['kind']
        f.params = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        b = [c for c in n.get('inner', []) if c.get('kind') == 'CompoundStmt']
        f.body = b[0] if b else None
        f.inits = [c for c in n.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        f.sig = qt0(n); f.virtual = n.get('virtual', False); f.static = n.get('storageClass') == 'static'
        f.ret = f.sig.split('(')[0].strip()
        f.deleted = n.get('explicitlyDeleted', False); f.implicit = n.get('isImplicit', False)
        loc = n.get('loc', {})
        f.line = loc.get('line') or (loc.get('expansionLoc') or {}).get('line') or (loc.get('spellingLoc') or {}).get('line')
        f.file = None
        s.byid[n['id']] = f
        if n.get('previousDecl'): s.byid.setdefault(n['previousDecl'], f)
        if f.cls: s.members.setdefault((f.cls, f.name if f.kind != 'CXXConstructorDecl' else '$ctor'), []).append(f)
        else: s.free.setdefault(f.name, []).append(f)
        s.scan(n)
    def scan(s, n):
        """nested classes and functions inside function bodies (lambdas are found on the fly)"""
    def is_user(s, cls): return cls in s.fields or cls in s.bases
    def method(s, cls, name):
        r = s.members.get((cls, name))
        if r: return r
        for b in s.bases.get(cls, []):
            r = s.method(b, name)
            if r: return r
        return []
    def isvirtual(s, cls, name, sig):
        """declared virtual in the class or in one of its bases"""
        key = lambda x: ''.join(x.split()).replace('noexcept', '')
        if any(g.virtual and key(g.sig) == key(sig) for g in s.members.get((cls, name), [])): return True
        return any(s.isvirtual(b, name, sig) for b in s.bases.get(cls, []))
    def ctors(s, cls): return s.members.get((cls, '$ctor'), [])
