"""Symbolic execution of the library's function bodies, straight from the clang AST.

Memory is a map from addresses to immutable values.  Every loop is either
executed iteration by iteration (when its condition is decided by constants) or
summarised for all iterations (module loops).  Integers are mathematical
integers (unsigned subtraction and negative-to-unsigned casts wrap), floating
point numbers are reals.
"""
import sys
from fractions import Fraction
from terms import *
from terms import _mk
import terms
from prover import CTX, prove_eq, STATS
from astload import qt, qt0, unqual, clsname, targs, strip_targs

sys.setrecursionlimit(20000)
SIZE_MAX = 2 ** 64

class CppThrow(Exception):
    def __init__(s, ty, where=''): s.ty = ty; s.where = where
class ReturnEx(Exception):
    def __init__(s, v): s.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class Infeasible(Exception): pass
class NeedSymbolic(Exception): pass
class Undefined(Exception):
    """undefined behaviour on this path"""
    def __init__(s, what): s.what = what

class Elem:
    __slots__ = ('base', 'off')
    def __init__(s, base, off): s.base = base; s.off = off
    def __repr__(s): return 'Elem(%s,%s)' % (s.base, s.off)
class Ptr:
    __slots__ = ('base', 'off')
    def __init__(s, base, off=ZERO): s.base = base; s.off = off
    def __eq__(s, o): return isinstance(o, Ptr) and s.base == o.base and s.off == o.off
    def __hash__(s): return hash((s.base, s.off))
    def __repr__(s): return 'Ptr(%s,%s)' % (s.base, s.off)
NULL = Ptr(None)
class Obj:
    __slots__ = ('cls', 'f')
    def __init__(s, cls, f): s.cls = cls; s.f = f
    def __repr__(s): return 'Obj(%s,%s)' % (s.cls, s.f)
class Vec:
    __slots__ = ('e', 'et')
    def __init__(s, e, et=''): s.e = tuple(e); s.et = et
    def __eq__(s, o): return isinstance(o, Vec) and s.e == o.e
    def __hash__(s): return hash(s.e)
    def __repr__(s): return 'Vec%s' % (s.e,)
class SVec(Vec):
    """list of objects of symbolic length: segments
    ('one', address), ('tmpl', count, variable, paths) written by a loop, ('pend', count) not readable yet, ('fun', count, f)"""
    __slots__ = ('segs',)
    def __init__(s, segs, et=''): s.segs = tuple(segs); s.et = et
    @property
    def e(s): raise Unsupported('list of symbolic length')
    def __eq__(s, o): return isinstance(o, SVec) and len(s.segs) == len(o.segs) and all(x is y or x == y for x, y in zip(s.segs, o.segs))
    def __hash__(s): return hash(len(s.segs))
    def __repr__(s): return 'SVec(%s)' % ([x[:2] for x in s.segs],)
    def size(s):
        n = ZERO
        for x in s.segs: n = n + (ONE if x[0] == 'one' else x[1])
        return n
def segs_of(v): return v.segs if isinstance(v, SVec) else tuple(('one', e) for e in v.e)

class Opt:
    __slots__ = ('a', 'et')
    def __init__(s, a, et=''): s.a = a; s.et = et
    def __eq__(s, o): return isinstance(o, Opt) and s.a == o.a
    def __hash__(s): return hash(s.a)
    def __repr__(s): return 'Opt(%s)' % s.a
class Lam:
    __slots__ = ('node', 'env', 'this', 'builtin')
    def __init__(s, node, env, this, builtin=None): s.node = node; s.env = env; s.this = this; s.builtin = builtin
class Map:
    """associative container: tuple of (key, address of the pair)"""
    __slots__ = ('kv', 'kt', 'vt')
    def __init__(s, kv, kt='', vt=''): s.kv = tuple(kv); s.kt = kt; s.vt = vt
    def __eq__(s, o): return isinstance(o, Map) and s.kv == o.kv
    def __hash__(s): return hash(s.kv)
class Str:
    def __init__(s, v=None): s.v = v
class Opaque:
    __slots__ = ('tag', 'data')
    def __init__(s, tag, data=None): s.tag = tag; s.data = data
    def __eq__(s, o): return isinstance(o, Opaque) and s.tag == o.tag and s.data == o.data
    def __hash__(s): return hash((s.tag, str(s.data)))
class Layer:
    __slots__ = ('kind', 'bv', 'guard', 'idx', 'val')
    def __init__(s, kind, bv, guard, idx, val): s.kind = kind; s.bv = bv; s.guard = guard; s.idx = idx; s.val = val
    def __repr__(s): return '%s{%s | %s: [%s] %s}' % (s.kind, ', '.join('%s<%s' % b for b in s.bv), s.guard, s.idx, s.val)
class Buf:
    __slots__ = ('base', 'layers', 'n', 'isint', 'isvec')
    def __init__(s, base, layers, n, isint=False, isvec=False): s.base = base; s.layers = layers; s.n = n; s.isint = isint; s.isvec = isvec
    def __repr__(s): return 'Buf(%s,%s,%s)' % (s.base, s.layers, s.n)
class Stream:
    __slots__ = ('name', 'pos', 'fail', 'open')
    def __init__(s, name, pos, fail, open_): s.name = name; s.pos = pos; s.fail = fail; s.open = open_
    def __eq__(s, o): return isinstance(o, Stream) and (s.name, s.pos, s.fail, s.open) == (o.name, o.pos, o.fail, o.open)
    def __hash__(s): return hash(s.name)

INTT = {'int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'short', 'unsigned char', 'char', 'signed char', 'long long',
        'unsigned long long', 'unsigned short', 'uintptr_t', 'std::size_t', 'uint8_t', 'uint32_t', 'int32_t', 'ptrdiff_t',
        'std::ptrdiff_t', 'difference_type', 'uint64_t', 'int64_t'}
UNSIGNED = {'unsigned int': 32, 'unsigned long': 64, 'size_t': 64, 'unsigned char': 8, 'unsigned long long': 64, 'unsigned short': 16,
            'std::size_t': 64, 'uintptr_t': 64, 'uint8_t': 8, 'uint32_t': 32, 'uint64_t': 64, 'size_type': 64}
REALT = {'float', 'double', 'long double'}

def is_int_t(t): return unqual(t) in INTT
def is_real_t(t): return unqual(t) in REALT
def is_scalar_t(t):
    t = unqual(t)
    return t in INTT or t in REALT or t == 'bool' or t.endswith('*') or t.endswith('nullptr_t')

class Hoist(Exception):
    """a condition decided inside a loop that does not depend on the loop: split before the loop instead"""
    def __init__(s, key, b): s.key = key; s.b = b

class Chooser:
    def __init__(s, prefix, memo=None, hoist=None): s.dec = list(prefix); s.pos = 0; s.alts = []; s.pcs = []; s.memo = memo if memo is not None else {}; s.hoist = hoist

class Frame:
    __slots__ = ('env', 'this', 'fun', 'outer')
    def __init__(s, fun, this, outer=None): s.env = {}; s.this = this; s.fun = fun; s.outer = outer

class Machine:
    def __init__(s, prog):
        s.prog = prog; s.mem = {}; s.next = 100; s.frames = []; s.ch = []; s.wlog = None
        s.symbolic = set(); s.files = {}; s.guess = {}; s.noforks = 0; s.visited = {}; s.hooks = {}; s.used = set(); s.statics = {}; s.kept = set()
        s.assumed = []          # in-range accesses that were not proved
        s.unproved_acc = {}
        s.trace = None
        s.steps = 0
        s.deadline = None
        s.omp = 0
        s.rng = 0
        s.throw_cache = {}
        s.loops_done = 0
        s.access_ok = 0
    # ------------------------------------------------------------ memory
    def new(s, v=None):
        a = s.next; s.next += 1
        s.mem[a] = v
        return a
    def load(s, lv):
        if isinstance(lv, int): 
            if lv not in s.mem: raise Unsupported('bad address')
            return s.mem[lv]
        if isinstance(lv, Elem):
            b = s.mem[lv.base]
            if isinstance(b, Vec): return s.mem[s.vec_elem(lv)]
            if isinstance(b, Buf):
                s.access(lv, b)
                return s.buf_read(b, lv.off)
            raise Unsupported('load from %s' % type(b))
        raise Unsupported('load %r' % (lv,))
    def store(s, lv, v):
        if isinstance(lv, Elem):
            b = s.mem[lv.base]
            if isinstance(b, Vec): lv = s.vec_elem(lv)
            elif isinstance(b, Buf):
                s.access(lv, b)
                idx = CTX.norm(lv.off)
                ls = b.layers
                if ls and not ls[-1].bv and ls[-1].kind == 'set' and ls[-1].idx == idx and ls[-1].guard.k == 'T': ls = ls[:-1]
                s.put(lv.base, Buf(b.base, ls + (Layer('set', (), TRUE, idx, v),), b.n, b.isint, b.isvec))
                return
            else: raise Unsupported('store to %s' % type(b))
        s.put(lv, v)
    def put(s, a, v):
        if s.wlog is not None: s.wlog.add(a)
        s.mem[a] = v
    def vec_elem(s, lv):
        b = s.mem[lv.base]
        o = CTX.norm(lv.off)
        if isinstance(b, SVec): return s.svec_elem(b, o)
        if o.isconst():
            k = o.const()
            if not 0 <= k < len(b.e): raise Undefined('vector index %s of %d' % (k, len(b.e)))
            return b.e[k]
        for k in range(len(b.e)):
            if s.choose(eq(o, P(k))): return b.e[k]
        raise Undefined('vector index out of range')
    def svec_elem(s, b, o):
        n = b.size()
        if not s.choose(and_(ge0(o), ge0(n - 1 - o))): raise Undefined('vector index %s of %s' % (o, n))
        st = ZERO
        for j, x in enumerate(b.segs):
            c = ONE if x[0] == 'one' else x[1]
            if j == len(b.segs) - 1 or s.choose(lt(o, st + c)): break
            st = st + c
        if x[0] == 'one': return x[1]
        i = CTX.norm(o - st)
        if x[0] == 'fun': return x[2](i)
        if x[0] == 'pend': raise Unsupported('reads a list that the loop builds')
        for t, (g, root, graph) in enumerate(x[3]):
            if t == len(x[3]) - 1 or s.choose(subst_bool(g, {x[2]: i})): return s.materialise(root, graph, {x[2]: i})
    def materialise(s, root, graph, sub):
        """a fresh copy of an object graph with a variable replaced"""
        new = {a: s.new() for a in graph}
        ad = lambda a: new.get(a, a)
        def val(v):
            if isinstance(v, (Poly, Bool)): return B_or_P_subst(v, sub)
            if isinstance(v, ObjPtr): return ObjPtr(ad(v.base)) if isinstance(v.base, int) else v
            if isinstance(v, Ptr): return Ptr(ad(v.base) if isinstance(v.base, int) else v.base, subst(v.off, sub))
            if isinstance(v, Obj): return Obj(v.cls, {k: ad(x) if isinstance(x, int) else x for k, x in v.f.items()})
            if isinstance(v, SVec): raise Unsupported('list of lists')
            if isinstance(v, Vec): return Vec([ad(x) for x in v.e], v.et)
            if isinstance(v, Opt): return Opt(ad(v.a) if v.a is not None else None, v.et)
            if isinstance(v, Buf): return buf_subst(v, sub)
            if v is None or isinstance(v, (Str, Opaque, Lam)): return v
            raise Unsupported('list element holding a %s' % type(v).__name__)
        for a, v in graph.items(): s.mem[new[a]] = val(v)
        return ad(root)
    def access(s, lv, b):
        i = lv.off
        ok = and_(ge0(i), ge0(b.n - 1 - i))
        if s.prove(ok): s.access_ok += 1; return
        # not proved: fork so that the failing side is examined on its own
        if not s.choose(ok): raise Undefined('access at %s of a buffer of %s' % (i, b.n))
    def prove(s, b): return CTX.prove(b)
    # ------------------------------------------------------------ choices
    def choose(s, b, split=False):
        b = B(b)
        if b.k == 'T': return True
        if b.k == 'F': return False
        b = CTX.norm_bool(b)
        if b.k == 'T': return True
        if b.k == 'F': return False
        n = not_(b)
        if CTX.quick(b): return True
        if CTX.quick(n): return False
        if b.k == 'and':
            return all(s.choose(x, split) for x in b.a)
        if b.k == 'or':
            return any(s.choose(x, split) for x in b.a)
        if not split and not _barr(b):
            if CTX.prove(b, 250): return True
            if CTX.prove(n, 250): return False
        if s.noforks: raise NeedSymbolic()
        c = s.ch[-1]
        if c.hoist is not None and not any('#' in v for v in b.fv) and not any(a.startswith(('H#', 'unk#')) for a in terms._barrs(b)): raise Hoist(c.hoist, b)
        if c.pos < len(c.dec): d = c.dec[c.pos]
        else:
            d = True
            c.alts.append(c.dec + [False])
            c.dec.append(True)
        c.pos += 1
        f = b if d else n
        c.pcs.append(f)
        CTX.add(f)
        if CTX.infeasible(60 if split else 150): raise Infeasible()
        return d
    def explore(s, fn, limit=400, hoist=None):
        """run fn on every path from the current state; yields (pcs, kind, value, mem)"""
        mem0 = s.mem; nx = s.next; mk = CTX.mark(); nfr = len(s.frames)
        out = []; todo = [[]]
        nf = s.noforks; s.noforks = 0; memo = {}
        envs = [(f, dict(f.env)) for f in s.frames]
        try:
            while todo:
                if len(out) > limit: raise Unsupported('too many paths')
                s.tick()
                pre = todo.pop()
                s.mem = dict(mem0); s.next = nx; CTX.reset(mk); del s.frames[nfr:]
                for f, e in envs: f.env = dict(e)
                c = Chooser(pre, memo, hoist or (s.ch[-1].hoist if s.ch else None)); s.ch.append(c)
                try:
                    try: r = ('ok', fn())
                    except CppThrow as e: r = ('throw', e)
                    except BreakEx: r = ('break', None)
                    except ContinueEx: r = ('ok', None)
                    except ReturnEx as e: r = ('return', e.v)
                    except Undefined as e: r = ('ub', e)
                    except Infeasible: r = None
                finally: s.ch.pop()
                todo.extend(c.alts)
                if r is not None: out.append((tuple(c.pcs), r[0], r[1], s.mem, s.next))
        finally:
            s.mem = mem0; s.next = nx; CTX.reset(mk); s.noforks = nf; del s.frames[nfr:]
            for f, e in envs: f.env = e
        return out
    def tick(s):
        s.steps += 1
        if s.deadline is not None:
            import time
            if time.time() > s.deadline: raise Unsupported('time limit')
    # ------------------------------------------------------------ buffers
    def solve_layer(s, L, q):
        """(condition, bindings) such that L writes q exactly when condition, with bvars bound; None if not solvable"""
        rem = q - L.idx
        # order the bound variables by their coefficient
        todo = [v for v, N in L.bv]
        Ns = dict(L.bv)
        cond = []
        sub = {}
        coefs = {}
        base = L.idx
        for v in todo:
            c = coeff(L.idx, v)
            if c is None: return None
            coefs[v] = c
            base = base - c * V(v)
        hid = ZERO; hmax = 0
        if base.fv & set(todo):
            # a bounded offset that depends on the position: one more digit
            for m, k in base.d.items():
                if not any(ATOMS[a].fv & set(todo) for a, e in m): continue
                if len(m) != 1 or m[0][1] != 1 or k <= 0: return None
                at = ATOMS[m[0][0]]
                if at.kind != 'f' or not at.args[0].startswith('byte:'): return None
                top = int(at.args[0].split(':')[1])
                # the write happens only where its guard holds, which may bound the digit further
                for g in (L.guard.a if L.guard.k == 'and' else (L.guard,)):
                    if g.k == 'ge0':
                        r = g.a + Poly({m: 1})
                        if r.isconst() and 0 <= r.const() < top: top = int(r.const())
                hid = hid + Poly({m: k}); hmax += k * top
            base = base - hid
        unused = [v for v in todo if not coefs[v].d]
        todo = [v for v in todo if coefs[v].d]
        for v in todo:
            if coefs[v].fv & set(Ns): return None
        rem = q - base
        with CTX.ranges(L.bv):
            order = []
            left = list(todo)
            while left:
                # the innermost: 0 <= sum of the others inside its coefficient
                for v in left:
                    others = [w for w in left if w != v]
                    tot = P(hmax)
                    okc = True
                    for w in others:
                        tot = tot + coefs[w] * (Ns[w] - 1)
                        if Ns[w].fv & set(Ns): okc = False
                    if okc and CTX.quick(ge0(coefs[v] - 1)) and all(CTX.quick(ge0(coefs[w])) for w in others) and CTX.quick(ge0(coefs[v] - 1 - tot)):
                        order.append(v); left.remove(v); break
                else: return None
        for v in order:
            x = idiv(rem, coefs[v])
            sub[v] = x
            rem = rem - coefs[v] * x
        conds = [eq0(rem - subst(hid, sub))]
        for v in order:
            conds.append(ge0(sub[v])); conds.append(ge0(subst(Ns[v], sub) - 1 - sub[v]))
        return and_(*conds), sub, unused
    def buf_read(s, b, q):
        q = CTX.norm(q)
        if len(b.layers) > 200: raise Unsupported('too many layers')
        return s.read_layers(b, len(b.layers), q)
    def read_base(s, b, q):
        k = b.base[0]
        if k == 'const': return b.base[1]
        if k in ('arr', 'H'):
            if b.isint: return fn('el:' + b.base[1], q, isint=True)
            return rd(b.base[1], q)
        if k == 'fun': return b.base[1](q)
        if k == 'list':
            if q.isconst(): return b.base[1][q.const()]
            r = b.base[1][-1]
            for i in range(len(b.base[1]) - 2, -1, -1): r = ite(eq(q, P(i)), b.base[1][i], r)
            return r
        raise Unsupported(k)
    def read_layers(s, b, n, q):
        if n == 0: return s.read_base(b, q)
        L = b.layers[n - 1]
        if L.kind == 'set':
            r = s.solve_layer(L, q)
            if r is None: raise Unsupported('read through layer %r at %s' % (L, q))
            c, sub, unused = r
            if unused:
                raise Unsupported('unused bound variable')
            c = and_(CTX.norm_bool(c), subst_bool(L.guard, sub))
            k = s.decide(c)
            if k is False: return s.read_layers(b, n - 1, q)
            v = L.val
            v = B_or_P_subst(v, sub)
            if k is True: return v
            rest = s.read_layers(b, n - 1, q)
            if isinstance(v, Bool) or isinstance(rest, Bool):
                v = B(v); rest = B(rest)
                return or_(and_(c, v), and_(not_(c), rest))
            return ite(c, v, rest)
        prev = s.read_layers(b, n - 1, q)
        rn = {v: fresh('s') for v, N in L.bv}
        bv = [(varname(rn[v]), subst(N, rn)) for v, N in L.bv]
        with CTX.ranges(bv):
            body = ind(eq(subst(L.idx, rn), q)) * ind(subst_bool(L.guard, rn)) * subst(L.val, rn)
        return prev + (mk_sum(bv, body) if bv else body)
    def decide(s, c):
        if c.k == 'T': return True
        if c.k == 'F': return False
        if c.k == 'and':
            r = True
            for x in c.a:
                k = s.decide(x)
                if k is False: return False
                if k is None: r = None
            return r
        if c.k == 'or':
            r = False
            for x in c.a:
                k = s.decide(x)
                if k is True: return True
                if k is None: r = None
            return r
        if CTX.quick(c): return True
        if CTX.quick(not_(c)): return False
        if not _barr(c):
            if CTX.prove(c, 400): return True
            if CTX.prove(not_(c), 200): return False
        return None
    # ------------------------------------------------------------ objects
    def default_value(s, t):
        t = unqual(t)
        if t == 'bool': return FALSE
        if t in INTT or t in REALT: return ZERO
        if t.endswith('*') or t.endswith('nullptr_t'): return NULL
        c = clsname(t)
        if c in ('vector', 'initializer_list', 'deque'): return Vec((), (targs(t) or ('',))[0])
        if c == 'optional': return Opt(None, targs(t)[0])
        if c in ('unique_ptr', 'shared_ptr'): return NULL
        if c in ('unordered_map', 'map'): return Map((), *targs(t)[:2])
        if c in ('basic_string', 'string'): return Str('')
        if c == 'pair':
            a = targs(t)
            return Obj('pair', {'first': s.default(a[0]), 'second': s.default(a[1])})
        if c == 'tuple':
            return Obj('tuple', {str(i): s.default(x) for i, x in enumerate(targs(t))})
        if c in ('plus', 'minus', 'multiplies', 'divides', 'greater', 'less', 'negate', 'equal_to'): return Lam(None, None, None, c)
        if c == 'function': return NULL
        if c.endswith('stringstream') or c in ('basic_ostream', 'ostream'): return Opaque('sstream')
        if c in ('random_device', 'mersenne_twister_engine', 'mt19937'): return Opaque(c)
        raise Unsupported('default value of ' + t)
    def default(s, t):
        c = clsname(t)
        if not unqual(t).endswith('*') and s.prog.is_user(c): return s.construct(c, [], None)
        return s.new(s.default_value(t))
    def unbox(s, v): return v
    def copy_of(s, a, move=False):
        """copy (or move) construct a new object from the one at address a"""
        if isinstance(a, Elem): 
            b = s.mem[a.base]
            if isinstance(b, Vec): a = s.vec_elem(a)
            else: return s.new(s.load(a))
        v = s.mem[a]
        if isinstance(v, Obj) and s.prog.is_user(v.cls):
            want = '&&' if move else 'const'
            for f in s.prog.ctors(v.cls):
                if len(f.params) >= 1 and clsname(qt(f.params[0])) == v.cls and not f.deleted:
                    t = qt(f.params[0]).strip()
                    ismove = t.endswith('&&')
                    if f.body is not None and ismove == move and not f.implicit and not _defaulted(f):
                        return s.construct_with(v.cls, f, [a])
            return s.memberwise(v, move)
        return s.new(s.copy_value(a, v, move))
    def memberwise(s, v, move):
        o = {}
        for k, x in v.f.items():
            if k.startswith('&'): o[k] = x
            elif isinstance(x, int): o[k] = s.copy_of(x, move)
            else: o[k] = x
        return s.new(Obj(v.cls, o))
    def copy_value(s, a, v, move):
        if isinstance(v, Vec):
            if move:
                s.put(a, Vec((), v.et)); return v
            if isinstance(v, SVec): return SVec([('one', s.copy_of(x[1])) if x[0] == 'one' else x for x in v.segs], v.et)
            return Vec([s.copy_of(e) for e in v.e], v.et)
        if isinstance(v, Opt):
            if v.a is None: return v
            return Opt(s.copy_of(v.a, move), v.et)
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Obj):
            return s.mem[s.memberwise(v, move)]
        if isinstance(v, Map):
            if move: s.put(a, Map((), v.kt, v.vt)); return v
            return Map([(k, s.copy_of(p)) for k, p in v.kv], v.kt, v.vt)
        if isinstance(v, Buf) and move and v.isvec:
            s.put(a, Buf(('const', ZERO), (), ZERO, v.isint, True))
        return v
    def assign(s, dst, src, move=False):
        """assignment of whatever is at src to dst (class types without a user operator=)"""
        v = s.load(src)
        if isinstance(v, Obj):
            if s.prog.is_user(v.cls):
                for f in s.prog.members.get((v.cls, 'operator='), []):
                    t = qt(f.params[0]).strip()
                    if f.body is not None and t.endswith('&&') == move and not _defaulted(f) and not f.implicit:
                        s.invoke(f, dst, [src]); return
                for f in s.prog.members.get((v.cls, 'operator='), []):
                    t = qt(f.params[0]).strip()
                    if move and f.body is not None and not t.endswith('&&') and not _defaulted(f) and not f.implicit and not any(_defaulted(g) and qt(g.params[0]).strip().endswith('&&') for g in s.prog.members.get((v.cls, 'operator='), [])):
                        s.invoke(f, dst, [src]); return
            d = s.load(dst)
            if not isinstance(d, Obj) or d.cls != v.cls:
                if isinstance(dst, int): s.put(dst, v)
                return
            for k, x in v.f.items():
                if k.startswith('&'): raise Unsupported('assignment of an object with a reference member')
                s.assign(d.f[k], x, move)
            return
        if dst == src: return
        if isinstance(v, Ptr) and move:
            s.store(dst, v)
            return
        if isinstance(v, Opt):
            d = s.load(dst)
            if v.a is None: s.store(dst, v); return
            if isinstance(d, Opt) and d.a is not None:
                s.assign(d.a, v.a, move); return
            s.store(dst, Opt(s.copy_of(v.a, move), v.et)); return
        if isinstance(v, Vec):
            d = s.load(dst)
            if not move and isinstance(d, Vec) and len(d.e) == len(v.e) and v.e and isinstance(s.mem[v.e[0]], (Poly, Bool)):
                vals = [s.mem[e] for e in v.e]
                for e, x in zip(d.e, vals): s.put(e, x)
                return
        s.store(dst, s.copy_value(src, v, move))
    # ------------------------------------------------------------ calls
    def construct(s, cls, args, sig):
        f = s.find_ctor(cls, args, sig)
        if f is None:
            if len(args) == 1 and isinstance(args[0], int) and isinstance(s.mem[args[0]], Obj) and s.mem[args[0]].cls == cls:
                return s.copy_of(args[0], sig is not None and '&&' in sig)
            if args: raise Unsupported('no constructor %s(%s)' % (cls, sig))
            return s.construct_with(cls, None, [])
        if len(f.params) == 1 and clsname(qt(f.params[0])) == cls and (f.body is None or _defaulted(f) or f.implicit):
            return s.copy_of(args[0], qt(f.params[0]).strip().endswith('&&'))
        return s.construct_with(cls, f, args)
    def find_ctor(s, cls, args, sig):
        cs = [f for f in s.prog.ctors(cls) if not f.deleted]
        if sig is not None:
            for f in cs:
                if f.sig == sig: return f
            n = sigkey(sig)
            m = [f for f in cs if sigkey(f.sig) == n]
            if m: return m[0]
            ar = len(n)
            m = [f for f in cs if len(f.params) == ar]
            if len(m) == 1: return m[0]
        m = [f for f in cs if s.match(f, args)]
        if m: return max(m, key=lambda f: s.match(f, args))
        return None
    def match(s, f, args):
        """rank how well run time arguments fit the parameters (0: not)"""
        ps = f.params
        if len(args) > len(ps): return 0
        for p in ps[len(args):]:
            if not p.get('init') and not [c for c in p.get('inner', []) if 'type' in c]: return 0
        sc = 1
        for p, a in zip(ps, args):
            t = unqual(qt(p)); c = clsname(t)
            v = a if isinstance(a, (Poly, Bool, Ptr)) else s.mem.get(a) if isinstance(a, int) else s.load(a)
            if isinstance(v, Obj):
                if c == v.cls or v.cls in s.subclasses(c): sc += 2
                else: return 0
            elif isinstance(v, Vec) or (isinstance(v, Buf) and v.isvec):
                if c in ('vector', 'initializer_list'): sc += 2
                else: return 0
            elif isinstance(v, Poly):
                if t in INTT: sc += 2 if v.isint() else 1
                elif t in REALT or t == 'bool': sc += 1 if v.isint() else 2
                else: return 0
            elif isinstance(v, Bool):
                if t in INTT or t == 'bool': sc += 1
                else: return 0
            elif isinstance(v, Ptr):
                if not (t.endswith('*') or c in ('unique_ptr', 'shared_ptr')): return 0
                sc += 1
            elif isinstance(v, Lam):
                sc += 1
        return sc
    def subclasses(s, c):
        return {k for k in s.prog.bases if s.derives(k, c)}
    def derives(s, k, c):
        return any(b == c or s.derives(b, c) for b in s.prog.bases.get(k, []))
    def alloc_fields(s, cls, o):
        for b in s.prog.bases.get(cls, []): s.alloc_fields(b, o)
        return o
    def construct_with(s, cls, f, args, into=None, fields=None):
        o = fields if fields is not None else {}
        a = into if into is not None else s.new(None)
        if into is None: s.mem[a] = Obj(cls, o)
        fr = Frame(f, a); s.frames.append(fr)
        s.note(f)
        try:
            if f is not None: s.bind_params(f, args, fr)
            inits = {}; deleg = None; bases = {}
            for i in (f.inits if f is not None else []):
                if 'anyInit' in i: inits[i['anyInit'].get('name')] = i
                elif 'baseInit' in i: bases[clsname(i['baseInit'].get('desugaredQualType') or i['baseInit']['qualType'])] = i
                else: deleg = i
            if deleg is not None:
                e = deleg['inner'][0]
                e = peel(e)
                sig = e['ctorType']['qualType']
                ar = [s.arg(x) for x in e.get('inner', [])]
                g = s.find_ctor(cls, ar, sig)
                s.construct_with(cls, g, ar, into=a, fields=o)
            else:
                for b in s.prog.bases.get(cls, []):
                    g = None; ar = []
                    if b in bases and bases[b].get('inner'):
                        e = peel(bases[b]['inner'][0])
                        if e.get('kind') == 'CXXConstructExpr':
                            ar = [s.arg(x) for x in e.get('inner', [])]
                            g = s.find_ctor(b, ar, e['ctorType']['qualType'])
                            if g is not None and (g.body is None or _defaulted(g)) and not g.inits: g = None
                    s.construct_with(b, g, ar, into=a, fields=o)
                for (nm, t, init, fid) in s.prog.fields.get(cls, []):
                    ini = inits.get(nm)
                    e = ini['inner'][0] if ini and ini.get('inner') else init
                    if e is not None and e.get('kind') == 'CXXDefaultInitExpr': e = init if init is not None else (e.get('inner') or [None])[0]
                    isref = t.strip().endswith('&')
                    if e is not None:
                        if isref: o['&' + nm] = s.lval(e)
                        else: o[nm] = s.init_from(e, t)
                    else:
                        if is_scalar_t(t): o[nm] = s.new(s.uninit(t))
                        else: o[nm] = s.default(t)
                if f is not None and f.body is not None:
                    try: s.stmt(f.body)
                    except ReturnEx: pass
        finally: s.frames.pop()
        return a
    def uninit(s, t):
        if unqual(t) == 'bool': return boolvar('unk#%d' % next_id())
        if unqual(t).endswith('*'): return NULL
        return V('unk#%d' % next_id(), is_int_t(t))
    def init_from(s, e, t):
        """address of a new object of type t initialised by expression e"""
        if is_scalar_t(t):
            return s.new(s.convert(s.rval(e), t))
        v = s.eval(e)
        if isinstance(v, int):
            k = e.get('valueCategory')
            return v if k == 'prvalue' or k is None else s.copy_of(v)
        if isinstance(v, Elem): return s.copy_of(v)
        return s.new(v)
    def convert(s, v, t):
        t = unqual(t)
        if t == 'bool' and not isinstance(v, Bool):
            if isinstance(v, Ptr): return TRUE if v.base is not None else FALSE
            return B(v)
        if isinstance(v, Bool) and t != 'bool': return ind(v)
        return v
    def bind_params(s, f, args, fr):
        ps = f.params
        for i, p in enumerate(ps):
            t = qt(p)
            ref = t.strip().endswith('&')
            if i < len(args): a = args[i]
            else:
                ini = [c for c in p.get('inner', []) if 'type' in c]
                if not ini:
                    ini = s.default_arg(f, i)
                if not ini: raise Unsupported('missing argument')
                a = s.lval(ini[0]) if ref else s.eval(ini[0])
            if isinstance(a, (Poly, Bool, Ptr, Lam)):
                a = s.new(s.convert(a, t) if not isinstance(a, Lam) else a)
            elif isinstance(a, Elem) and not ref:
                a = s.new(s.load(a)) if is_scalar_t(t) else s.copy_of(a)
            fr.env[p['id']] = a
    def default_arg(s, f, i):
        for g in s.prog.members.get((f.cls, f.name if f.kind != 'CXXConstructorDecl' else '$ctor'), []) + s.prog.free.get(f.name, []):
            if len(g.params) > i:
                ini = [c for c in g.params[i].get('inner', []) if 'type' in c]
                if ini: return ini
        return None
    def note(s, f):
        if f is not None and f.cls + f.name:
            k = (f.cls, f.name, f.sig)
            s.visited[k] = s.visited.get(k, 0) + 1
    def invoke(s, f, this, args):
        s.tick()
        h = s.hooks.get((f.cls, f.name))
        if h is not None:
            r = h(s, f, this, args)
            if r is not NotImplemented:
                s.used.add('%s::%s' % (f.cls, f.name) if f.cls else f.name)
                return r
        if f.body is None:
            g = [x for x in s.prog.members.get((f.cls, f.name), []) + s.prog.free.get(f.name, []) if x.body is not None and x.sig == f.sig]
            if not g: raise Unsupported('no body for %r' % f)
            f = g[0]
        if len(s.frames) > 60: raise Unsupported('recursion too deep')
        s.note(f)
        fr = Frame(f, this)
        s.bind_params(f, args, fr)
        s.frames.append(fr)
        try:
            s.stmt(f.body)
            r = None
        except ReturnEx as e: r = e.v
        finally: s.frames.pop()
        return r
    def call(s, cls, name, this, args, sig=None):
        """entry point of scenarios: call a member (or free) function by name"""
        c = s.prog.method(cls, name) if cls else s.prog.free.get(name, [])
        c = [f for f in c if f.body is not None and not (cls == '' and f.cls)]
        if sig is not None: c = [f for f in c if sig in f.sig] or c
        c = [f for f in c if s.match(f, args)] or c
        if not c: raise Unsupported('no function %s::%s' % (cls, name))
        return s.invoke(max(c, key=lambda f: s.match(f, args)), this, args)
    # ------------------------------------------------------------ statements
    def stmt(s, n):
        k = n.get('kind')
        m = getattr(s, 'st_' + str(k), None)
        if m is not None: return m(n)
        if 'valueCategory' in n or 'type' in n: s.eval(n); return
        raise Unsupported('statement ' + str(k))
    def st_CompoundStmt(s, n):
        for c in n.get('inner', []): s.stmt(c)
    def st_NullStmt(s, n): pass
    def st_StaticAssertDecl(s, n): pass
    def st_None(s, n): pass
    def st_ExprWithCleanups(s, n): s.eval(n['inner'][0])
    def st_ReturnStmt(s, n):
        if not n.get('inner'): raise ReturnEx(None)
        e = n['inner'][0]
        f = s.frames[-1].fun
        rt = s.ret_type(e)
        isref = rt is not None and rt.strip().endswith('&')
        if e.get('valueCategory') in ('lvalue', 'xvalue') and (isref or rt is None): raise ReturnEx(s.lval(e))
        v = s.eval(e)
        if rt is not None and isinstance(v, (Poly, Bool, Ptr)): v = s.convert(v, rt)
        raise ReturnEx(v)
    def ret_type(s, e):
        return None
    def st_BreakStmt(s, n): raise BreakEx()
    def st_ContinueStmt(s, n): raise ContinueEx()
    def st_DeclStmt(s, n):
        for d in n.get('inner', []):
            k = d.get('kind')
            if k == 'VarDecl': s.vardecl(d)
            elif k == 'DecompositionDecl':
                s.vardecl(d)
                for b in d.get('inner', []):
                    if b.get('kind') == 'BindingDecl':
                        vd = [c for c in b.get('inner', []) if c.get('kind') == 'VarDecl']
                        for v in vd: s.vardecl(v)
                        ex = [c for c in b.get('inner', []) if c.get('kind') != 'VarDecl' and 'type' in c]
                        s.frames[-1].env[b['id']] = s.frames[-1].env[vd[0]['id']] if vd else s.lval(ex[-1])
            elif k in ('StaticAssertDecl', 'TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'EmptyDecl', 'UsingDirectiveDecl'): pass
            else: raise Unsupported('declaration ' + str(k))
    def vardecl(s, d):
        t = qt(d)
        ini = [c for c in d.get('inner', []) if 'type' in c and c.get('kind') not in ('BindingDecl', 'VarDecl')]
        stat = d.get('storageClass') == 'static' or d.get('tls')
        if stat:
            s.keep_static(d)
            a = s.static_addr(d['id'])
            if a in s.mem: s.frames[-1].env[d['id']] = a; return
            if t.strip().endswith('&'): raise Unsupported('static reference')
        if t.strip().endswith('&'): a = s.lval(ini[0])
        elif ini: a = s.init_from(ini[0], t)
        elif is_scalar_t(t): a = s.new(s.uninit(t))
        else: a = s.new_array(t) if strip_arr(t) else s.default(t)
        if stat: a = s.make_static(d['id'], a)
        s.frames[-1].env[d['id']] = a      # a loop in the initialiser may have replaced the environment
    def keep_static(s, d):
        """a variable that carries state from one call to the next"""
        t = d['type'].get('desugaredQualType') or qt(d)
        if d.get('constexpr') or t.strip().startswith('const ') or 'mersenne_twister' in t or 'mt19937' in t: return
        s.kept.add(d.get('name', '?'))
    def static_addr(s, did):
        """a variable with static storage keeps its address on every path"""
        return s.statics.setdefault(did, -1 - len(s.statics))
    def make_static(s, did, a):
        b = s.static_addr(did)
        s.mem[b] = s.mem[a]
        return b
    def new_array(s, t):
        import re
        m = re.match(r'(.*)\[(\d+)\]$', unqual(t))
        et, n = m.group(1).strip(), int(m.group(2))
        return s.new(Vec([s.new(s.uninit(et)) for _ in range(n)], et))
    def st_IfStmt(s, n):
        inner = list(n['inner'])
        if n.get('hasInit'): s.stmt(inner.pop(0))
        if n.get('hasVar'): s.stmt(inner.pop(0))
        c = inner[0]
        if n.get('isConstexpr'):
            v = const_value(c)
            if v is None:
                b = s.boolv(c)
                if b.k not in ('T', 'F'): raise Unsupported('if constexpr')
                v = b.k == 'T'
            if v: s.stmt(inner[1])
            elif len(inner) > 2: s.stmt(inner[2])
            return
        if s.choose(s.boolv(c)): s.stmt(inner[1])
        elif len(inner) > 2: s.stmt(inner[2])
    def st_SwitchStmt(s, n):
        inner = [c for c in n['inner'] if c]
        v = s.rval(inner[-2]); body = inner[-1]
        items = []
        def flat(x):
            if x.get('kind') == 'CaseStmt':
                items.append(('case', x['inner'][0])); flat(x['inner'][-1])
            elif x.get('kind') == 'DefaultStmt':
                items.append(('default', None)); flat(x['inner'][-1])
            else: items.append(('s', x))
        for x in body.get('inner', []): flat(x)
        start = None
        for i, (k, e) in enumerate(items):
            if k == 'case' and s.choose(eq(v, s.rval(e))): start = i; break
        if start is None:
            for i, (k, e) in enumerate(items):
                if k == 'default': start = i; break
        if start is None: return
        try:
            for k, e in items[start:]:
                if k == 's': s.stmt(e)
        except BreakEx: pass
    def st_ForStmt(s, n):
        init, cv, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        if init and init.get('kind'): s.stmt(init)
        s.loop(n['id'], (lambda: s.boolv(cond)) if cond and cond.get('kind') else (lambda: TRUE),
               lambda: s.stmt(body), (lambda: s.eval(inc)) if inc and inc.get('kind') else None)
    def st_WhileStmt(s, n):
        inner = [c for c in n['inner'] if c]
        s.loop(n['id'], lambda: s.boolv(inner[-2]), lambda: s.stmt(inner[-1]), None)
    def st_DoStmt(s, n):
        s.loop(n['id'], lambda: s.boolv(n['inner'][1]), lambda: s.stmt(n['inner'][0]), None, True)
    def st_CXXForRangeStmt(s, n):
        inner = n['inner']
        decls = [c for c in inner[:-1] if c and c.get('kind') == 'DeclStmt']
        # __range, __begin, __end, loop variable ; cond, inc
        body = inner[-1]; var = inner[-2]; inc = inner[-3]; cond = inner[-4]
        for d in inner[:-4]:
            if d and d.get('kind'): s.stmt(d)
        def b():
            s.stmt(var)
            s.stmt(body)
        s.loop(n['id'], lambda: s.boolv(cond), b, lambda: s.eval(inc))
    def st_CXXTryStmt(s, n):
        body = n['inner'][0]; hs = n['inner'][1:]
        try: s.stmt(body)
        except CppThrow as e:
            for h in hs:
                v = [c for c in h.get('inner', []) if c.get('kind') == 'VarDecl']
                t = clsname(qt(v[0])) if v else None
                if t is None or t == e.ty or t in ('exception',) or (t == 'runtime_error' and e.ty in ('overflow_error', 'range_error', 'underflow_error')) or (t == 'logic_error' and e.ty in ('invalid_argument', 'out_of_range', 'domain_error', 'length_error')):
                    if v: s.frames[-1].env[v[0]['id']] = s.new(Opaque('exception', e.ty))
                    s.cur_exc = e
                    s.stmt(h['inner'][-1]); return
            raise
    def omp(s, n): pass
    def st_OMPParallelForDirective(s, n):
        cs = [c for c in n['inner'] if c.get('kind') == 'CapturedStmt'][0]
        cd = [c for c in cs['inner'] if c.get('kind') == 'CapturedDecl'][0]
        f = [c for c in cd['inner'] if c.get('kind') in ('ForStmt', 'CXXForRangeStmt', 'CompoundStmt')][0]
        s.omp_for(n, f)
    def omp_for(s, n, f):
        s.ompflag = f['id']; s.omp_info = (s.next, s.clause_vars(n))
        s.omp_depth = getattr(s, 'omp_depth', 0) + 1
        try: s.stmt(f)
        finally: s.omp_depth -= 1
    def clause_vars(s, n):
        """addresses of the variables named in a clause (the AST does not say which clause)"""
        out = set()
        for c in n.get('inner', []):
            if 'kind' in c: continue
            for x in c.get('inner', []):
                if x.get('kind') == 'DeclRefExpr':
                    a = s.lookup(x['referencedDecl']['id'])
                    if a is not None: out.add(a)
        return out
    def st_OMPSimdDirective(s, n):
        cs = [c for c in n['inner'] if c.get('kind') in ('CapturedStmt', 'ForStmt')][0]
        if cs['kind'] == 'CapturedStmt':
            cd = [c for c in cs['inner'] if c.get('kind') == 'CapturedDecl'][0]
            cs = [c for c in cd['inner'] if c.get('kind') in ('ForStmt', 'CompoundStmt')][0]
        s.stmt(cs)
    st_OMPForDirective = st_OMPParallelForSimdDirective = st_OMPParallelForDirective
    # ------------------------------------------------------------ expressions
    def boolv(s, n):
        v = s.rval(n)
        if isinstance(v, Bool): return v
        if isinstance(v, Poly): return B(v)
        if isinstance(v, Ptr): return TRUE if v.base is not None else FALSE
        if isinstance(v, Lam): return TRUE
        raise Unsupported('condition value %r' % (v,))
    def rval(s, n):
        v = s.eval(n)
        if isinstance(v, (int, Elem)):
            x = s.load(v)
            if n.get('valueCategory') in ('lvalue', 'xvalue') or isinstance(v, Elem) or not isinstance(x, (Obj, Vec, Opt, Map)): return x
            return x
        return v
    def lval(s, n):
        v = s.eval(n)
        if isinstance(v, (int, Elem)): return v
        return s.new(v)
    def arg(s, n):
        """argument of a call: an address for references and classes, else a value"""
        return s.eval(n)
    def eval(s, n):
        m = getattr(s, 'ex_' + n['kind'], None)
        if m is None: raise Unsupported('expression ' + n['kind'])
        return m(n)
    def ex_ParenExpr(s, n): return s.eval(n['inner'][0])
    def first(s, n): return s.eval(n['inner'][0])
    ex_ExprWithCleanups = ex_CXXBindTemporaryExpr = ex_SubstNonTypeTemplateParmExpr = first
    def ex_ConstantExpr(s, n): return s.eval(n['inner'][0])
    def ex_MaterializeTemporaryExpr(s, n):
        v = s.eval(n['inner'][0])
        return v if isinstance(v, (int, Elem)) else s.new(v)
    def ex_IntegerLiteral(s, n): return P(int(n['value']))
    def ex_CharacterLiteral(s, n): return P(int(n['value']))
    def ex_FloatingLiteral(s, n): return P(Fraction(repr(float(n['value']))))
    def ex_CXXBoolLiteralExpr(s, n): return TRUE if n['value'] in (True, 'true') else FALSE
    def ex_CXXNullPtrLiteralExpr(s, n): return NULL
    def ex_GNUNullExpr(s, n): return NULL
    def ex_StringLiteral(s, n): return s.new(Str(n.get('value')))
    def ex_CXXThisExpr(s, n): return Ptr(s.frames[-1].this)
    def ex_CXXDefaultArgExpr(s, n):
        if n.get('inner'): return s.eval(n['inner'][0])
        return None
    def ex_CXXDefaultInitExpr(s, n):
        if n.get('inner'): return s.eval(n['inner'][0])
        raise Unsupported('default init')
    def ex_PredefinedExpr(s, n): return s.new(Str())
    def ex_SourceLocExpr(s, n): return P(0)
    def ex_CXXTypeidExpr(s, n): return s.new(Opaque('typeid'))
    def ex_CXXScalarValueInitExpr(s, n): return s.default_value(qt(n))
    def ex_ImplicitValueInitExpr(s, n): return s.default_value(qt(n)) if is_scalar_t(qt(n)) else s.default(qt(n))
    def ex_UnaryExprOrTypeTraitExpr(s, n): 
        raise Unsupported('sizeof')
    def ex_CXXNoexceptExpr(s, n): return TRUE
    def ex_TypeTraitExpr(s, n): return TRUE if n.get('value') else FALSE
    def ex_CXXThrowExpr(s, n):
        if not n.get('inner'):
            raise s.cur_exc
        t = clsname(qt(n['inner'][0]))
        raise CppThrow(t)
    def lookup(s, did):
        fr = s.frames[-1]
        if did in fr.env: return fr.env[did]
        o = fr.outer
        while o is not None:
            if did in o.env: return o.env[did]
            o = o.outer
        if did in s.statics and s.statics[did] in s.mem: return s.statics[did]
        v = s.prog.static_vars.get(did)
        if v is None: return None
        s.keep_static(v)
        ini = [c for c in v.get('inner', []) if 'type' in c]
        a = s.init_from(ini[0], qt(v)) if ini else s.default(qt(v))
        return s.make_static(did, a)
    def ex_DeclRefExpr(s, n):
        d = n['referencedDecl']
        k = d['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'DecompositionDecl', 'ImplicitParamDecl', 'OMPCapturedExprDecl'):
            a = s.lookup(d['id'])
            if a is None:
                v = [x for kk, x in s.prog.static_vars.items() if isinstance(kk, tuple) and kk[1] == d.get('name')]
                if k == 'VarDecl' and len(v) >= 1:
                    x = v[-1]
                    for y in v:
                        if [c for c in y.get('inner', []) if 'type' in c]: x = y
                    s.keep_static(x)
                    ini = [c for c in x.get('inner', []) if 'type' in c]
                    a = s.init_from(ini[0], qt(x)) if ini else s.default(qt(x))
                    return s.make_static(d['id'], a)
                if d.get('name') in ('cout', 'cerr', 'clog', 'endl'): return s.new(Opaque('ostream'))
                raise Unsupported('variable ' + str(d.get('name')))
            return a
        if k in ('FunctionDecl', 'CXXMethodDecl'): return Lam(None, None, None, ('fun', d))
        if k == 'EnumConstantDecl':
            if d.get('name') in ('binary', 'in', 'out', 'beg', 'end', 'cur'): return P(0)
        if k == 'NonTypeTemplateParmDecl': raise Unsupported('template parameter')
        raise Unsupported('reference to ' + k + ' ' + str(d.get('name')))
    def deref_obj(s, v):
        """address of the object a Ptr value points to"""
        if isinstance(v, Ptr):
            if v.base is None: raise Undefined('null pointer dereferenced')
            b = s.mem.get(v.base)
            if isinstance(b, (Buf, Vec)) and v.off is not None and getattr(v, 'off', ZERO) is not None and s.is_array_ptr(v): return Elem(v.base, v.off)
            return v.base
        raise Unsupported('dereference of %r' % (v,))
    def is_array_ptr(s, v):
        return not isinstance(v, ObjPtr)
    def member(s, a, name):
        if isinstance(a, Elem):
            b = s.mem[a.base]
            a = s.vec_elem(a) if isinstance(b, Vec) else a
        o = s.load(a)
        if not isinstance(o, Obj): raise Unsupported('member %s of %r' % (name, type(o)))
        if name in o.f: return o.f[name]
        if '&' + name in o.f: return o.f['&' + name]
        raise Unsupported('no member %s in %s' % (name, o.cls))
    def ex_MemberExpr(s, n):
        b = n['inner'][0]
        if n.get('isArrow'):
            a = s.arrow(b)
        else: a = s.lval(b)
        nm = n.get('name')
        if isinstance(a, int) and isinstance(s.mem.get(a), Obj):
            o = s.mem[a]
            if nm not in o.f and '&' + nm not in o.f:
                v = s.prog.static_vars.get(n.get('referencedMemberDecl'))
                if v is not None: return s.lookup(n['referencedMemberDecl'])
        return s.member(a, nm)
    def arrow(s, b):
        v = s.rval(b)
        if isinstance(v, Ptr): return s.deref_obj(v)
        if isinstance(v, Obj): return s.eval(b)
        raise Unsupported('-> on %r' % (v,))
    def ex_ArraySubscriptExpr(s, n):
        b = s.rval(n['inner'][0]); i = s.rval(n['inner'][1])
        if isinstance(b, Ptr):
            if b.base is None: raise Undefined('null pointer subscripted')
            return Elem(b.base, b.off + i)
        if isinstance(b, Vec): return Elem(s.lval(n['inner'][0]), i)
        raise Unsupported('subscript of %r' % (b,))
    # casts
    def ex_ImplicitCastExpr(s, n):
        ck = n['castKind']; e = n['inner'][0]
        if ck == 'LValueToRValue':
            v = s.eval(e)
            if isinstance(v, (int, Elem)): return s.load(v)
            return v
        if ck in ('NoOp', 'ConstructorConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'UserDefinedConversion', 'BitCast'):
            return s.eval(e)
        if ck == 'ArrayToPointerDecay':
            a = s.lval(e)
            return Ptr(a, ZERO) if isinstance(s.mem.get(a), (Vec, Buf)) else Ptr(a)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral', 'PointerToIntegral', 'IntegralToPointer'):
            v = s.rval(e)
            return s.cast(ck, v, qt(e), qt(n))
        if ck == 'NullToPointer': return NULL
        if ck == 'ToVoid': s.eval(e); return None
        if ck == 'LValueBitCast': return s.eval(e)
        raise Unsupported('cast ' + ck)
    def cast(s, ck, v, ft, tt):
        tt = unqual(tt)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean') or tt == 'bool':
            return s.convert(v, 'bool')
        if isinstance(v, Bool): v = ind(v)
        if isinstance(v, Ptr): return v
        if ck == 'IntegralCast': return s.wrap(v, tt)
        if ck == 'FloatingToIntegral':
            if v.isint(): return v
            if s.decide(not_(gt0(-v))) is True: return fn('trunc', v, isint=True)
            return fn('trunc', v, isint=True)
        return v
    def wrap(s, v, t):
        t = unqual(t)
        if t in UNSIGNED:
            if v.isconst():
                return P(v.const() % (1 << UNSIGNED[t]))
            if UNSIGNED[t] >= 32:
                if s.choose(ge0(v)): return v
                return v + (1 << UNSIGNED[t])
            return s.narrow(v, 0, 1 << UNSIGNED[t])
        if t in ('char', 'signed char') and not v.isconst(): return s.narrow(v, 128, 256)
        if v.isconst() and t in ('int', 'long'):
            b = 32 if t == 'int' else 64
            k = v.const()
            if isinstance(k, int) and not -(1 << b - 1) <= k < (1 << b - 1): k = (k + (1 << b - 1)) % (1 << b) - (1 << b - 1)
            return P(k)
        return v
    def narrow(s, v, lo, m):
        """v modulo m in [-lo, m - lo)"""
        from terms import _cases
        cs = _cases(v) or [(ONE, v)]
        r = ZERO
        for f, x in cs:
            inn = ge0(x + lo); 
            if CTX.quick(inn) and CTX.quick(ge0(P(m - lo - 1) - x)): y = x
            elif CTX.quick(inn) and CTX.quick(ge0(P(2 * m - lo - 1) - x)): y = x - m * ind(ge0(x - (m - lo)))
            elif CTX.quick(ge0(x + lo + m)) and CTX.quick(ge0(P(m - lo - 1) - x)): y = x + m * ind(not_(inn))
            else: y = imod(x + lo, P(m)) - lo
            r = r + f * y
        return r
    def explicit(s, n):
        ck = n.get('castKind'); e = n['inner'][0]
        if ck in ('ConstructorConversion', 'NoOp', 'UserDefinedConversion', 'DerivedToBase', 'LValueBitCast', 'BitCast', 'BaseToDerived', 'Dynamic', None):
            return s.eval(e)
        if ck == 'ToVoid': s.eval(e); return None
        return s.ex_ImplicitCastExpr(n)
    ex_CXXStaticCastExpr = ex_CXXFunctionalCastExpr = ex_CStyleCastExpr = ex_CXXReinterpretCastExpr = ex_CXXConstCastExpr = ex_CXXDynamicCastExpr = explicit
    # operators
    def ex_UnaryOperator(s, n):
        op = n['opcode']; e = n['inner'][0]
        if op in ('++', '--'):
            a = s.lval(e); v = s.load(a)
            if isinstance(v, Ptr): w = Ptr(v.base, v.off + (1 if op == '++' else -1))
            else:
                w = s.wrap(v + (1 if op == '++' else -1), qt(e)) if unqual(qt(e)) in UNSIGNED and op == '--' else v + (1 if op == '++' else -1)
            s.store(a, w)
            return v if n.get('isPostfix') else a
        if op == '*':
            v = s.rval(e)
            if isinstance(v, Lam): return v
            return s.deref_obj(v)
        if op == '&':
            a = s.lval(e)
            if isinstance(a, Elem): return Ptr(a.base, a.off)
            return ObjPtr(a)
        v = s.rval(e)
        if op == '-': return -s.num(v)
        if op == '+': return s.num(v)
        if op == '!': return not_(s.convert(v, 'bool'))
        if op == '~' and v.isconst(): return P(~v.const())
        raise Unsupported('unary ' + op)
    def num(s, v):
        if isinstance(v, Bool): return ind(v)
        if isinstance(v, Poly): return v
        raise Unsupported('number expected: %r' % (v,))
    def ex_ConditionalOperator(s, n):
        c, a, b = n['inner']
        cv = s.boolv(c)
        k = s.decide(CTX.norm_bool(cv)) if cv.k not in 'TF' else cv.k == 'T'
        if k is True: return s.eval(a)
        if k is False: return s.eval(b)
        if is_real_t(qt(n)) or (is_int_t(qt(n)) and _barr(cv)):
            # both arms as terms when they have no effect
            m = s.mem; w = s.wlog; s.wlog = set(); nx = s.next
            s.noforks += 1
            try:
                with CTX.assume(cv): va = s.num(s.rval(a))
                with CTX.assume(not_(cv)): vb = s.num(s.rval(b))
                ok = not [x for x in s.wlog if x < nx]
            except (NeedSymbolic, CppThrow, Undefined): ok = False
            finally:
                s.noforks -= 1
                w2 = s.wlog; s.wlog = w
                if w is not None: w |= w2
            if ok: return ite(cv, va, vb)
        return s.eval(a) if s.choose(cv) else s.eval(b)
    def ex_BinaryOperator(s, n):
        op = n['opcode']; l, r = n['inner']
        if op == ',':
            s.eval(l); return s.eval(r)
        if op == '=':
            # right operand first (C++17)
            v = s.rval(r); a = s.lval(l)
            s.store(a, s.convert(v, qt(l)))
            return a
        if op == '&&':
            a = s.boolv(l)
            k = s.decide(CTX.norm_bool(a)) if a.k not in 'TF' else a.k == 'T'
            if k is False: return FALSE
            if k is True: return s.boolv(r)
            if pure(r):
                with CTX.assume(a): b = s.boolv(r)
                return and_(a, b)
            return s.boolv(r) if s.choose(a) else FALSE
        if op == '||':
            a = s.boolv(l)
            k = s.decide(CTX.norm_bool(a)) if a.k not in 'TF' else a.k == 'T'
            if k is True: return TRUE
            if k is False: return s.boolv(r)
            if pure(r):
                with CTX.assume(not_(a)): b = s.boolv(r)
                return or_(a, b)
            return TRUE if s.choose(a) else s.boolv(r)
        return s.binop(op, s.rval(l), s.rval(r), qt(n), qt(l))
    def ex_CompoundAssignOperator(s, n):
        op = n['opcode'][:-1]; l, r = n['inner']
        v = s.rval(r); a = s.lval(l)
        rt = (n.get('computeResultType') or {})
        rt = rt.get('desugaredQualType') or rt.get('qualType') or qt(l)
        x = s.binop(op, s.load(a), v, rt, qt(l))
        if is_int_t(qt(l)) and isinstance(x, Poly) and not x.isint(): x = fn('trunc', x, isint=True)
        s.store(a, x)
        return a
    def binop(s, op, a, b, t, ot):
        if isinstance(a, Ptr) or isinstance(b, Ptr): return s.ptrop(op, a, b)
        if op in ('==', '!='):
            if isinstance(a, Bool) or isinstance(b, Bool):
                a = B(a); b = B(b)
                if a.k in 'TF' and b.k in 'TF': r = TRUE if a.k == b.k else FALSE
                elif b.k in 'TF': r = a if b.k == 'T' else not_(a)
                elif a.k in 'TF': r = b if a.k == 'T' else not_(b)
                elif a == b: r = TRUE
                else: r = or_(and_(a, b), and_(not_(a), not_(b)))
            else: r = eq(a, b)
            return r if op == '==' else not_(r)
        a = s.num(a); b = s.num(b)
        if op in ('<', '>', '<=', '>='):
            f = {'<': lt, '>': gt, '<=': le, '>=': ge}[op]
            return s.cmp_norm(f(a, b))
        if op == '+': r = a + b
        elif op == '-':
            r = a - b
            if unqual(t) in UNSIGNED: r = s.wrap(r, t)
            return r
        elif op == '*': r = a * b
        elif op == '/':
            if is_int_t(t) or unqual(t) in UNSIGNED: return s.intdiv(a, b)
            return s.realdiv(a, b)
        elif op == '%':
            q = s.intdiv(a, b)
            return a - b * q
        elif op in ('&', '|', '^', '<<', '>>'):
            return s.bitop(op, a, b, unqual(t) == 'int')
        else: raise Unsupported('operator ' + op)
        return r
    def bitop(s, op, a, b, is32=False):
        if a.isconst() and b.isconst():
            x, y = a.const(), b.const()
            return P({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if y >= 0 else 0, '>>': x >> y if y >= 0 else 0}[op])
        if op == '<<' and b.isconst():
            r = a * (1 << b.const())
            if not is32: return r
            if s.choose(ge0(P(2 ** 31 - 1) - r)): return r
            if CTX.prove(ge0(P(2 ** 32 - 1) - r)): return r - 2 ** 32      # into the sign bit
            raise Unsupported('shift out of range')
        if op == '>>' and b.isconst(): return idiv(a, P(1 << b.const()))
        if op == '|':
            # disjoint bits: the sum
            for x, y in ((a, b), (b, a)):
                g = 0
                for m, c in x.d.items():
                    import math
                    g = math.gcd(g, c)
                if g and g & (g - 1) == 0 and CTX.quick(ge0(y)) and CTX.quick(ge0(P(g - 1) - y)): return a + b
        if op == '&' and b.isconst() and (b.const() + 1) & b.const() == 0: return imod(a, P(b.const() + 1))
        return fn('bit' + op, a, b, isint=True)
    def cmp_norm(s, b):
        """comparisons against a quotient become comparisons of products"""
        if b.k == 'ge0':
            q = [(m, c) for m, c in b.a.d.items() if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'f' and ATOMS[m[0][0]].args[0] == 'idiv']
            if len(q) == 1 and q[0][1] in (1, -1):
                m, c = q[0]; x, y = ATOMS[m[0][0]].args[1]
                rest = b.a - Poly({m: c})
                if not any(a == m[0][0] for mm in rest.d for a, e in mm) and CTX.quick(ge0(y - 1)):
                    # c=1: x/y >= -rest ; c=-1: rest >= x/y
                    if c == 1: return ge0(x + rest * y)
                    return ge0((rest + 1) * y - 1 - x)
        return b
    def intdiv(s, a, b):
        if not a.isint() or not b.isint(): raise Unsupported('integer division of reals')
        if b.isconst() and b.const() == 0: raise Undefined('division by zero')
        if not CTX.prove(ge0(b - 1)):
            if s.choose(eq0(b)): raise Undefined('integer division by zero')
            if not s.choose(ge0(b - 1)):
                return -s.intdiv(a, -b)
        if a.isconst() and b.isconst():
            x, y = a.const(), b.const()
            q = abs(x) // abs(y)
            return P(q if (x < 0) == (y < 0) else -q)
        if s.choose(ge0(a)): return idiv(a, b)
        return -idiv(-a, b)
    def realdiv(s, a, b):
        if not b.d: return V('unk#div0_%d' % next_id(), False)
        return a.div(b)
    def ptrop(s, op, a, b):
        if op in ('+', '-') and isinstance(a, Ptr) and isinstance(b, Poly):
            return Ptr(a.base, a.off + b if op == '+' else a.off - b)
        if op == '+' and isinstance(b, Ptr): return Ptr(b.base, b.off + a)
        if not isinstance(a, Ptr): a = NULL
        if not isinstance(b, Ptr): b = NULL
        if op == '-':
            if a.base != b.base: raise Unsupported('difference of pointers into different objects')
            return a.off - b.off
        if op in ('==', '!='):
            r = eq(a.off, b.off) if a.base == b.base else FALSE
            return r if op == '==' else not_(r)
        if a.base != b.base: raise Unsupported('comparison of pointers')
        f = {'<': lt, '>': gt, '<=': le, '>=': ge}[op]
        return f(a.off, b.off)
    # ------------------------------------------------------------ construction
    def ex_CXXConstructExpr(s, n):
        t = qt(n); c = clsname(t)
        args = [x for x in n.get('inner', []) if x.get('kind') != 'CXXDefaultArgExpr' or x.get('inner')]
        sig = (n.get('ctorType') or {}).get('qualType', '')
        if s.prog.is_user(c):
            av = [s.arg(x) for x in args]
            if n.get('elidable') and len(av) == 1 and isinstance(av[0], int) and n['inner'][0].get('valueCategory') == 'xvalue' and n['inner'][0].get('kind') == 'MaterializeTemporaryExpr': return av[0]
            return s.construct(c, av, sig)
        return s.std_construct(c, t, args, sig, n)
    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr
    def ex_InitListExpr(s, n):
        t = qt(n); c = clsname(t)
        inner = n.get('inner', [])
        if is_scalar_t(t):
            return s.rval(inner[0]) if inner else s.default_value(t)
        import re
        m = re.match(r'(.*)\[(\d+)\]$', unqual(t))
        if m:
            et = m.group(1).strip()
            el = [s.init_from(x, et) for x in inner]
            while len(el) < int(m.group(2)): el.append(s.default(et))
            return s.new(Vec(el, et))
        if s.prog.is_user(c):
            o = {}
            for i, (nm, ft, init, fid) in enumerate(s.prog.fields[c]):
                if i < len(inner): o[nm] = s.init_from(inner[i], ft)
                elif init is not None: o[nm] = s.init_from(init, ft)
                else: o[nm] = s.default(ft)
            return s.new(Obj(c, o))
        if c in ('pair',):
            a = targs(t)
            return s.new(Obj('pair', {'first': s.init_from(inner[0], a[0]), 'second': s.init_from(inner[1], a[1])}))
        raise Unsupported('initializer list of ' + t)
    def ex_CXXStdInitializerListExpr(s, n): return s.eval(n['inner'][0])
    def ex_CXXNewExpr(s, n):
        if n.get('isArray'):
            inner = n.get('inner', [])
            cnt = s.rval(inner[0])
            et = unqual(qt(n))[:-1].strip()
            if len(inner) > 1: base = ('const', ZERO)
            else: base = ('arr', 'unk#new%d' % next_id())
            return Ptr(s.new(Buf(base, (), cnt, is_int_t(et))), ZERO)
        inner = n.get('inner', [])
        v = s.eval(inner[0]) if inner else s.default(unqual(qt(n))[:-1])
        return ObjPtr(v if isinstance(v, int) else s.new(v))
    def ex_CXXDeleteExpr(s, n): s.eval(n['inner'][0]); return None
    def ex_LambdaExpr(s, n):
        rec = [c for c in n['inner'] if c.get('kind') == 'CXXRecordDecl'][0]
        op = [c for c in rec['inner'] if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()']
        if not op:
            ft = [c for c in rec['inner'] if c.get('kind') == 'FunctionTemplateDecl']
            if not ft: raise Unsupported('lambda')
            op = [c for c in ft[0]['inner'] if c.get('kind') == 'CXXMethodDecl'][-1:]
        fr = s.frames[-1]
        outer = Frame(fr.fun, fr.this, fr.outer)
        outer.env = fr.env
        # by-copy captures
        fl = [c for c in rec['inner'] if c.get('kind') == 'FieldDecl']
        bycopy = [f for f in fl if not qt(f).strip().endswith('&') and not qt(f).strip().endswith('*')]
        byref = [f for f in fl if qt(f).strip().endswith('&')]
        if bycopy:
            caps = [c for c in n['inner'] if c.get('kind') not in ('CXXRecordDecl', 'CompoundStmt')]
            env = dict(fr.env)
            for f, c in zip(fl, caps):
                did = find_ref(c)
                if did and not qt(f).strip().endswith('&') and did in env:
                    env[did] = s.copy_of(env[did])
                elif did is None and not qt(f).strip().endswith('*'): raise Unsupported('lambda capture')
            outer.env = env
        return s.new(Lam(op[0], outer, fr.this))
    def apply_fn(s, f, args):
        """call a callable value with argument values"""
        if isinstance(f, int): f = s.load(f)
        if isinstance(f, Ptr) and f.base is not None: f = s.load(f.base)
        if not isinstance(f, Lam): raise Unsupported('call of %r' % (f,))
        if f.builtin is not None:
            b = f.builtin
            if isinstance(b, tuple):
                if b[0] == 'py': return b[1](s, *args)
                return s.call_function(b[1], args, None, None)
            vals = [s.load(a) if isinstance(a, (int, Elem)) else a for a in args]
            if b in ('plus', 'minus', 'multiplies', 'divides'):
                op = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/'}[b]
                return s.binop(op, vals[0], vals[1], 'float', 'float')
            if b == 'greater': return gt(vals[0], vals[1])
            if b == 'less': return lt(vals[0], vals[1])
            if b == 'equal_to': return eq(vals[0], vals[1])
            if b == 'negate': return -vals[0]
            raise Unsupported('functor ' + str(b))
        op = f.node
        ps = [c for c in op['inner'] if c.get('kind') == 'ParmVarDecl']
        body = [c for c in op['inner'] if c.get('kind') == 'CompoundStmt'][0]
        fr = Frame(None, f.this, f.env)
        for p, a in zip(ps, args):
            if isinstance(a, (Poly, Bool, Ptr, Lam)): a = s.new(a)
            elif not qt(p).strip().endswith('&'): a = s.new(s.load(a)) if is_scalar_t(qt(p)) else s.copy_of(a)
            fr.env[p['id']] = a
        s.frames.append(fr)
        try: s.stmt(body); r = None
        except ReturnEx as e: r = e.v
        finally: s.frames.pop()
        return r
    # ------------------------------------------------------------ calls
    def ex_CallExpr(s, n):
        cal = peel(n['inner'][0])
        args = n['inner'][1:]
        if cal['kind'] == 'DeclRefExpr' and cal['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return s.call_function(cal['referencedDecl'], None, args, n, cal)
        v = s.rval(n['inner'][0])
        if isinstance(v, Lam): return s.apply_fn(v, [s.arg(x) for x in args])
        raise Unsupported('call of ' + cal['kind'])
    def call_function(s, d, vals, args, n, cal=None):
        f = s.prog.byid.get(d['id'])
        if f is None or (f.body is None and not s.prog.members.get((f.cls, f.name))):
            # another dump's function?
            c = [g for g in s.prog.free.get(d.get('name'), []) if g.body is not None and g.sig == d.get('type', {}).get('qualType')]
            if not c:
                c = [g for (cl, nm), l in s.prog.members.items() if nm == d.get('name') and cl not in ('',) for g in l if g.body is not None and g.static and g.sig == d.get('type', {}).get('qualType')]
            f = c[0] if c and d.get('name') not in s.stdnames() else None
        if f is not None:
            if vals is None: vals = [s.arg(x) for x in args if x.get('kind') != 'CXXDefaultArgExpr' or x.get('inner')]
            return s.invoke(f, None, vals)
        return s.std_call(d.get('name'), vals, args, n, cal)
    def ex_CXXMemberCallExpr(s, n):
        m = peel(n['inner'][0]); args = n['inner'][1:]
        if m['kind'] != 'MemberExpr': raise Unsupported('member call through ' + m['kind'])
        b = m['inner'][0]
        a = s.arrow(b) if m.get('isArrow') else s.lval(b)
        if isinstance(a, Elem) and isinstance(s.mem[a.base], Vec): a = s.vec_elem(a)
        o = s.load(a)
        nm = m.get('name')
        if isinstance(o, Obj) and s.prog.is_user(o.cls):
            return s.method_call(o, a, nm, m.get('referencedMemberDecl'), args, n)
        return s.std_method(a, o, nm, args, n, m)
    def method_call(s, o, a, nm, did, args, n):
        f = s.prog.byid.get(did)
        if f is not None and f.cls in s.prog.fields and f.name == nm:
            if f.cls != o.cls and s.derives(o.cls, f.cls) and s.prog.isvirtual(f.cls, nm, f.sig):
                c = [g for g in s.prog.members.get((o.cls, nm), []) if sigkey(g.sig) == sigkey(f.sig)]
                if not c: c = [g for g in s.prog.method(o.cls, nm) if sigkey(g.sig) == sigkey(f.sig)]
                if c: f = c[0]
            av = s.args_for(f, args)
            return s.invoke(f, a, av)
        c = [g for g in s.prog.method(o.cls, nm)]
        av = [s.arg(x) for x in args if x.get('kind') != 'CXXDefaultArgExpr' or x.get('inner')]
        c = [g for g in c if s.match(g, av)]
        if not c: raise Unsupported('no method %s::%s' % (o.cls, nm))
        return s.invoke(max(c, key=lambda g: s.match(g, av)), a, av)
    def args_for(s, f, args):
        return [s.arg(x) for x in args if x.get('kind') != 'CXXDefaultArgExpr' or x.get('inner')]
    def ex_CXXOperatorCallExpr(s, n):
        cal = peel(n['inner'][0]); args = n['inner'][1:]
        if cal['kind'] != 'DeclRefExpr': raise Unsupported('operator call')
        d = cal['referencedDecl']; nm = d['name']
        op = nm[len('operator'):].strip()
        f = s.prog.byid.get(d['id'])
        t0 = clsname(qt(args[0]))
        if op == '<<' and ('ostream' in qt(args[0]) or 'stringstream' in qt(args[0])): 
            if s.hooks.get('ostream'): s.hooks['ostream'](s, args)
            return s.lval(args[0])
        if f is not None:
            if f.kind == 'CXXMethodDecl' and not f.static:
                a = s.lval(args[0])
                if isinstance(a, Elem) and isinstance(s.mem[a.base], Vec): a = s.vec_elem(a)
                if op == '=' and (_defaulted(f) or f.implicit or f.body is None):
                    src = s.lval(args[1])
                    s.assign(a, src, qt(f.params[0]).strip().endswith('&&')); return a
                return s.invoke(f, a, [s.arg(x) for x in args[1:] if x.get('kind') != 'CXXDefaultArgExpr'])
            return s.invoke(f, None, [s.arg(x) for x in args])
        a = s.eval(args[0])
        if isinstance(a, Elem) and isinstance(s.mem[a.base], Vec): a = s.vec_elem(a)
        o = s.load(a) if isinstance(a, (int, Elem)) else a
        if isinstance(o, Obj) and s.prog.is_user(o.cls) and not isinstance(a, (Poly,)):
            c = [g for g in s.prog.method(o.cls, nm)]
            av = [s.arg(x) for x in args[1:]]
            if op == '=':
                src = av[0] if isinstance(av[0], (int, Elem)) else s.new(av[0])
                t = sigkey((d.get('type') or {}).get('qualType', ''))
                mv = (d.get('type') or {}).get('qualType', '').rstrip(') ').replace('noexcept', '').strip().endswith('&&')
                s.assign(a, src, mv); return a
            c = [g for g in c if s.match(g, av)]
            if c:
                isconst = unqual(qt(args[0])) != qt(args[0]).strip()
                return s.invoke(max(c, key=lambda g: s.match(g, av)), a, av)
        return s.std_operator(op, a, o, args, n, d)

def buf_subst(v, sub):
    k = v.base[0]
    if k == 'const': base = ('const', B_or_P_subst(v.base[1], sub))
    elif k == 'fun':
        f = v.base[1]
        base = ('fun', lambda q: B_or_P_subst(f(q), sub))
    elif k == 'list': base = ('list', [B_or_P_subst(x, sub) for x in v.base[1]])
    else: base = v.base
    return Buf(base, tuple(Layer(l.kind, tuple((w, subst(n, sub)) for w, n in l.bv), subst_bool(l.guard, sub), subst(l.idx, sub), B_or_P_subst(l.val, sub)) for l in v.layers), subst(v.n, sub), v.isint, v.isvec)
class ObjPtr(Ptr):
    """pointer to an object (not into an array)"""
    __slots__ = ()

_ids = [0]
def next_id():
    _ids[0] += 1
    return _ids[0]

def strip_arr(t): return unqual(t).endswith(']')

def _barr(b): return bool(terms._barrs(b))

def B_or_P_subst(v, sub):
    if isinstance(v, Bool): return subst_bool(v, sub)
    if isinstance(v, Poly): return subst(v, sub)
    return v

def _defaulted(f): return bool(f.node.get('explicitlyDefaulted'))

def sigkey(sig):
    """parameter types of a signature, reduced for comparison"""
    i = sig.find('(')
    if i < 0: return ()
    d = 0; cur = ''; out = []
    for c in sig[i + 1:]:
        if c in '(<': d += 1
        elif c in ')>':
            if c == ')' and d == 0: break
            d -= 1
        if c == ',' and d == 0: out.append(cur); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur)
    r = []
    for x in out:
        x = x.strip()
        suf = '&&' if x.endswith('&&') else '&' if x.endswith('&') else '*' if x.endswith('*') else ''
        cst = 'c' if x.startswith('const') else ''
        r.append(cst + (clsname(x)) + suf)
    return tuple(r)

def peel(e):
    while e.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ConstantExpr'):
        e = e['inner'][0]
    return e

def find_ref(e):
    if e.get('kind') == 'DeclRefExpr': return e['referencedDecl']['id']
    for c in e.get('inner', []):
        r = find_ref(c)
        if r: return r
    return None

def const_value(e):
    while True:
        if 'value' in e and e.get('kind') == 'ConstantExpr':
            v = e['value']
            return v not in ('false', '0', False)
        if e.get('kind') == 'CXXBoolLiteralExpr': return e['value'] in (True, 'true')
        if not e.get('inner'): return None
        e = e['inner'][0]

PUREK = {'DeclRefExpr', 'IntegerLiteral', 'FloatingLiteral', 'ImplicitCastExpr', 'ParenExpr', 'CXXBoolLiteralExpr', 'MemberExpr', 'CXXThisExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr'}
def pure(e):
    k = e.get('kind')
    if k in PUREK: return all(pure(c) for c in e.get('inner', []))
    if k == 'BinaryOperator' and e['opcode'] in ('+', '-', '*', '<', '>', '<=', '>=', '==', '!=', '&&', '||'): return all(pure(c) for c in e['inner'])
    if k == 'UnaryOperator' and e['opcode'] in ('-', '!'): return pure(e['inner'][0])
    if k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CallExpr'):
        # calls of const accessors: no side effect, may fork inside
        c = peel(e['inner'][0])
        if k == 'CXXMemberCallExpr' and c.get('kind') == 'MemberExpr' and c.get('name') in ('size', 'rank', 'getShape', 'shape', 'empty', 'end', 'begin', 'has_value', 'getDimensions', 'getData', 'data'):
            return all(pure(x) for x in c.get('inner', []))
    return False
