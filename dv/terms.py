"""Terms of the verifier: Laurent polynomials over interned atoms.

A Poly is a sum of coefficient * product of atoms ** exponent.  Integers are
mathematical integers, floating point values are reals.  Atoms:
  v     (name, isint)          a variable
  rd    (array, index)         the element of a named array (a real)
  f     (name, args)           a function application
  ind   (bool)                 1 if the Bool holds, else 0
  sum   (Ns, body)             sum over 0 <= $D.i < Ns[i] of body
  pol   (poly)                 a polynomial, used with negative exponents only
  fold  (op, j, Ns, guard, body)  max / argmax over 0 <= $D.i < Ns[i]
Two equal normal forms denote equal values; the converse is tried by prove_eq.
"""
import itertools, math, mpmath
from fractions import Fraction
from functools import lru_cache

class Unsupported(Exception):
    pass

_intern = {}
ATOMS = []

class Atom:
    __slots__ = ('id', 'kind', 'args', 'isint', 'fv', 'depth', 'arrs')
    def __repr__(self): return fmt_atom(self)

def _mk(kind, args, isint, fv, depth, arrs):
    k = (kind, args)
    a = _intern.get(k)
    if a is None:
        a = Atom(); a.id = len(ATOMS); a.kind = kind; a.args = args; a.isint = isint
        a.fv = fv; a.depth = depth; a.arrs = arrs
        _intern[k] = a; ATOMS.append(a)
    return a

EMPTY = frozenset()

class Poly:
    __slots__ = ('d', '_k', '_fv', '_h')
    def __init__(s, d):
        s.d = d; s._k = None; s._fv = None; s._h = None
    @property
    def key(s):
        if s._k is None: s._k = tuple(sorted(s.d.items()))
        return s._k
    def __hash__(s):
        if s._h is None: s._h = hash(s.key)
        return s._h
    def __eq__(s, o): return isinstance(o, Poly) and (s is o or s.key == o.key)
    def __ne__(s, o): return not s == o
    @property
    def fv(s):
        if s._fv is None:
            r = EMPTY
            for m in s.d:
                for a, e in m: r = r | ATOMS[a].fv
            s._fv = r
        return s._fv
    def arrs(s):
        r = EMPTY
        for m in s.d:
            for a, e in m: r = r | ATOMS[a].arrs
        return r
    def depth(s):
        r = 0
        for m in s.d:
            for a, e in m: r = max(r, ATOMS[a].depth)
        return r
    def isconst(s): return not s.d or (len(s.d) == 1 and () in s.d)
    def const(s): return s.d.get((), 0)
    def isint(s):
        for m, c in s.d.items():
            if not isinstance(c, int): return False
            for a, e in m:
                if e < 0 or not ATOMS[a].isint: return False
        return True
    def __add__(s, o):
        o = P(o)
        if not o.d: return s
        if not s.d: return o
        d = dict(s.d)
        for m, c in o.d.items():
            n = d.get(m, 0) + c
            if n: d[m] = n
            else: d.pop(m, None)
        return Poly(d)
    __radd__ = __add__
    def __neg__(s): return Poly({m: -c for m, c in s.d.items()})
    def __sub__(s, o): return s + (-P(o))
    def __rsub__(s, o): return P(o) + (-s)
    def scale(s, k):
        if k == 0: return ZERO
        if k == 1: return s
        return Poly({m: _c(c * k) for m, c in s.d.items()})
    def __mul__(s, o):
        o = P(o)
        if s.isconst(): return o.scale(s.const())
        if o.isconst(): return s.scale(o.const())
        acc = {}
        extra = []
        for m1, c1 in s.d.items():
            for m2, c2 in o.d.items():
                r = mono_mul(m1, m2)
                if r.__class__ is tuple:
                    n = acc.get(r, 0) + c1 * c2
                    if n: acc[r] = n
                    else: acc.pop(r, None)
                else:
                    extra.append(r.scale(c1 * c2))
        res = Poly({m: _c(c) for m, c in acc.items()})
        for e in extra: res = res + e
        return res
    __rmul__ = __mul__
    def __pow__(s, n):
        if n == 0: return ONE
        if n < 0: return ONE.div(s ** (-n))
        r = ONE; b = s
        while n:
            if n & 1: r = r * b
            b = b * b if n > 1 else b
            n >>= 1
        return r
    def div(s, o):
        o = P(o)
        if o.isconst():
            c = o.const()
            if c == 0: raise Unsupported('division by constant zero')
            return s.scale(Fraction(1) / Fraction(c))
        return s * recip(o)
    def __repr__(s): return fmt(s)

def _c(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, int): return Poly({(): x}) if x else ZERO
    if isinstance(x, Fraction): return Poly({(): _c(x)}) if x else ZERO
    if isinstance(x, Bool): return ind(x)
    if isinstance(x, float):
        return P(Fraction(x))
    raise Unsupported('not a term: %r' % (x,))

ZERO = Poly({})
ONE = Poly({(): 1})

def atom_poly(a): return Poly({((a.id, 1),): 1})

_mm = {}
def mono_mul(m1, m2):
    """product of monomials: a monomial, or a Poly if it had to be expanded"""
    if not m1: return m2
    if not m2: return m1
    k = (m1, m2)
    r = _mm.get(k)
    if r is not None: return r
    d = dict(m1)
    for a, e in m2: d[a] = d.get(a, 0) + e
    r = _fix(d)
    _mm[k] = r
    return r

def _fix(d):
    expand = None
    out = {}
    for a, e in d.items():
        if e == 0: continue
        at = ATOMS[a]
        k = at.kind
        if k == 'ind' and e > 1: e = 1
        elif k == 'pol' and e > 0:
            expand = (expand or ONE) * at.args[0] ** e
            continue
        elif k == 'f' and at.args[0] == 'sqrt' and abs(e) >= 2:
            q, r = divmod(abs(e), 2)
            x = at.args[1][0] ** q
            if e < 0: x = recip(x)
            expand = (expand or ONE) * x
            e = r if e > 0 else -r
            if e == 0: continue
        out[a] = e
    m = tuple(sorted(out.items()))
    if expand is None: return m
    return Poly({m: 1}) * expand

def recip(p):
    """1 / p for a non-constant p"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if not any(ATOMS[a].kind == 'ind' for a, e in m):
            r = _fix({a: -e for a, e in m})
            k = _c(Fraction(1) / Fraction(c))
            return Poly({r: k}) if r.__class__ is tuple else r.scale(k)
    # factor out the common monomial and the leading coefficient
    ms = list(p.d)
    g = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for a in list(g):
            e = dm.get(a, 0)
            if (e > 0) != (g[a] > 0) or e == 0: g.pop(a)
            else: g[a] = min(g[a], e) if e > 0 else max(g[a], e)
    # negative exponents present in only some monomials: clear them
    for m in ms:
        for a, e in m:
            if e < 0 and a not in g: g[a] = min(g.get(a, 0), e)
            elif e < 0 and g[a] > e: g[a] = e
    g = {a: e for a, e in g.items() if ATOMS[a].kind != 'ind'}
    lead = max(p.d.items())[1]
    if g:
        q = p * Poly({tuple(sorted((a, -e) for a, e in g.items())): 1})
        if len(q.d) < 2 or any(e < 0 for m in q.d for a, e in m):
            q = p; g = {}
    else: q = p
    if len(q.d) == 1: return recip(q) * (recip(Poly({tuple(sorted(g.items())): 1})) if g else ONE)
    lead = max(q.d.items())[1]
    q = q.scale(Fraction(1) / Fraction(lead))
    a = _mk('pol', (q,), False, q.fv, q.depth(), q.arrs())
    r = Poly({((a.id, -1),): _c(Fraction(1) / Fraction(lead))})
    if g: r = r * Poly({tuple(sorted((x, -e) for x, e in g.items())): 1})
    return r

# ---------------------------------------------------------------- variables
def V(name, isint=True):
    return atom_poly(_mk('v', (name, isint), isint, frozenset([name]), 0, EMPTY))

_cnt = [0]
def fresh(base='x', isint=True):
    _cnt[0] += 1
    return V('%s#%d' % (base, _cnt[0]), isint)

def varname(p):
    """the variable name if p is exactly a variable, else None"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'v':
            return ATOMS[m[0][0]].args[0]
    return None

def rd(arr, idx):
    return atom_poly(_mk('rd', (arr, idx), False, idx.fv, idx.depth(), idx.arrs() | {arr}))

INTF = {'idiv', 'trunc'}
def _cases(x, fuel=3):
    """the values of x under each consistent choice of the indicators it adds up: [(factor, value)], None if there are none or too many"""
    from prover import resimplify
    c = None
    for m in x.d:
        for a, e in m:
            if ATOMS[a].kind == 'ind' and c is None: c = ATOMS[a].args[0]
    if c is None: return [(ONE, x)]
    if not fuel: return None
    out = []
    for br in (c, not_(c)):
        i = ind(br)
        if i == ZERO: continue
        with CTX.assume(br): y = resimplify(x)
        if y == x: return None
        with CTX.assume(br): r = _cases(y, fuel - 1)
        if r is None: return None
        out += [(i * f, v) for f, v in r]
    return out

def fn(name, *args, isint=None):
    args = tuple(P(a) for a in args)
    if name in ('log', 'sqrt') and len(args[0].d) > 1:
        r = _cases(args[0])
        if r is not None and len(r) > 1:
            t = ZERO
            for f, v in r: t = t + f * fn(name, v, isint=isint)
            return t
    if name == 'sqrt':
        x = args[0]
        if x.isconst():
            c = Fraction(x.const())
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator: return P(Fraction(n, d))
        if len(x.d) == 1:
            (m, c), = x.d.items()
            if m and all(ATOMS[a].kind == 'f' and ATOMS[a].args[0] == 'exp' for a, e in m) and c == 1 and all(e % 2 == 0 for a, e in m):
                return Poly({tuple((a, e // 2) for a, e in m): 1})
    elif name == 'exp':
        x = args[0]
        r = ONE; rest = ZERO
        for m, c in x.d.items():
            if isinstance(c, int) and m:
                t = Poly({m: 1})
                if len(m) == 1 and m[0][1] == 1:
                    a = ATOMS[m[0][0]]
                    if a.kind == 'f' and a.args[0] == 'log':
                        r = r * a.args[1][0] ** c
                        continue
                at = _mk('f', ('exp', (t,)), False, t.fv, t.depth(), t.arrs())
                r = r * Poly({((at.id, c),): 1})
            else: rest = rest + Poly({m: c})
        if rest.d:
            at = _mk('f', ('exp', (rest,)), False, rest.fv, rest.depth(), rest.arrs())
            r = r * atom_poly(at)
        return r
    elif name == 'log':
        x = args[0]
        if x == ONE: return ZERO
        if len(x.d) == 1:
            (m, c), = x.d.items()
            if c == 1 and m and all(ATOMS[a].kind == 'f' and ATOMS[a].args[0] == 'exp' for a, e in m):
                r = ZERO
                for a, e in m: r = r + ATOMS[a].args[1][0].scale(e)
                return r
    elif name == 'tanh':
        e2 = fn('exp', args[0]) ** 2
        return (e2 - 1).div(e2 + 1)
    elif name == 'abs':
        return absv(args[0])
    elif name == 'pow':
        b = args[1]
        if b.isconst() and isinstance(b.const(), int): return args[0] ** b.const()
        if args[0] == ONE: return ONE
    elif name == 'idiv':
        return idiv(*args)
    fv = EMPTY; dp = 0; ar = EMPTY
    for a in args:
        fv |= a.fv; dp = max(dp, a.depth()); ar |= a.arrs()
    if isint is None: isint = name in INTF or name.startswith('byte:')
    return atom_poly(_mk('f', (name, args), isint, fv, dp, ar))

def absv(x):
    if x.isint(): return ite(ge0(x), x, -x)
    return ite(gt0(x), x, -x)

def monos_div(p, q):
    """p = a*q + r for a single-monomial q with coefficient 1 or const: (a, r) collecting divisible monomials"""
    (qm, qc), = q.d.items()
    dq = dict(qm)
    a = {}; r = {}
    for m, c in p.d.items():
        dm = dict(m)
        ok = all(dm.get(x, 0) >= e for x, e in dq.items())
        if ok and isinstance(qc, int) and isinstance(c, int) and c % qc != 0:
            # split the coefficient
            k = c // qc
            if qm == ():
                if m == ():
                    if k: a[()] = k
                    r[()] = c - k * qc
                    continue
                ok = False
            else: ok = False
        if ok:
            for x, e in dq.items(): dm[x] -= e
            mm = tuple(sorted((x, e) for x, e in dm.items() if e))
            a[mm] = _c(Fraction(c) / Fraction(qc)) if not (isinstance(c, int) and isinstance(qc, int)) else c // qc
        else: r[m] = c
    return Poly(a), Poly(r)

def idiv(a, b):
    """floor(a / b), b > 0"""
    a = P(a); b = P(b)
    if CTX.sub: a = CTX.norm(a); b = CTX.norm(b)
    if b == ONE: return a
    if a.isconst() and b.isconst(): return P(a.const() // b.const())
    if a == b: return ONE
    if len(b.d) == 1:
        q, r = monos_div(a, b)
        if q.d: return q + idiv(r, b)
    if not a.d: return ZERO
    if CTX.quick(ge0(a)) and CTX.quick(ge0(b - a - 1)): return ZERO
    if len(b.d) == 1:
        # (c*x + r) / (c*y) with 0 <= r < c
        (bm, bc), = b.d.items()
        for (at, e) in bm:
            c = Poly({((at, 1),): 1})
            q, r = monos_div(a, c)
            if q.d and CTX.quick(ge0(r)) and CTX.quick(ge0(c - r - 1)):
                return idiv(q, monos_div(b, c)[0])
    if len(a.d) == 1:
        (m, c), = a.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.kind == 'f' and at.args[0] == 'idiv':
                return idiv(at.args[1][0], at.args[1][1] * b)
    if CTX.names:
        r = CTX.names.get((a, b))
        if r is not None: return r
    return atom_poly(_mk('f', ('idiv', (a, b)), True, a.fv | b.fv, max(a.depth(), b.depth()), a.arrs() | b.arrs()))

def imod(a, b): return P(a) - P(b) * idiv(a, b)

# ---------------------------------------------------------------- Bools
class Bool:
    __slots__ = ('k', 'a', '_h', 'fv')
    def __init__(s, k, a, fv):
        s.k = k; s.a = a; s.fv = fv; s._h = hash((k, a))
    def __hash__(s): return s._h
    def __eq__(s, o): return s is o or (isinstance(o, Bool) and s.k == o.k and s.a == o.a)
    def __ne__(s, o): return not s == o
    def __repr__(s): return fmt_bool(s)
    def __bool__(s): raise Unsupported('symbolic Bool used as python bool')

TRUE = Bool('T', (), EMPTY)
FALSE = Bool('F', (), EMPTY)
def B(x):
    if isinstance(x, Bool): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, int): return TRUE if x else FALSE
    if isinstance(x, Poly): return not_(eq0(x))
    raise Unsupported('not a Bool: %r' % (x,))

def ge0(p):
    p = P(p)
    if p.isconst(): return TRUE if p.const() >= 0 else FALSE
    if not p.isint(): return not_(gt0(-p))
    g = 0
    for m, c in p.d.items():
        if m: g = math.gcd(g, c)
    if g > 1:
        p = Poly({m: (c // g) for m, c in p.d.items() if c // g})
    return Bool('ge0', p, p.fv)

def gt0(p):
    p = P(p)
    if p.isconst(): return TRUE if p.const() > 0 else FALSE
    if p.isint(): return ge0(p - 1)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        # drop positive factors
        r = tuple((a, e) for a, e in m if not (ATOMS[a].kind == 'f' and ATOMS[a].args[0] == 'exp'))
        if not r: return TRUE if c > 0 else FALSE
        if c < 0 and all(e % 2 == 0 or ATOMS[a].kind == 'f' and ATOMS[a].args[0] in ('sqrt', 'exp') for a, e in r): return FALSE
        p = Poly({r: c})
    lead = abs(Fraction(max(p.d.items())[1]))
    if lead != 1: p = p.scale(1 / lead)
    return Bool('gt0', p, p.fv)

def ge(a, b):
    a, b = P(a), P(b)
    d = a - b
    if d.isint() : return ge0(d)
    if d.isconst(): return TRUE if d.const() >= 0 else FALSE
    return not_(gt0(-d))
def gt(a, b): return gt0(P(a) - P(b))
def le(a, b): return ge(b, a)
def lt(a, b): return gt(b, a)

def eq0(p):
    p = P(p)
    if p.isconst(): return TRUE if p.const() == 0 else FALSE
    if len(p.d) == 1 and not p.isint():
        (m, c), = p.d.items()
        m2 = tuple((a, 1) for a, e in m if e > 0 and not (ATOMS[a].kind == 'f' and ATOMS[a].args[0] == 'exp'))
        if not m2: return FALSE
        p = Poly({m2: 1})
    lead = max(p.d.items())[1]
    if p.isint():
        g = 0
        for m, c in p.d.items():
            if m: g = math.gcd(g, c)
        if p.const() % g: return FALSE
        if lead < 0: g = -g
        p = Poly({m: c // g for m, c in p.d.items()})
    elif lead != 1: p = p.scale(Fraction(1) / Fraction(lead))
    return Bool('eq0', p, p.fv)
def eq(a, b): return eq0(P(a) - P(b))
def ne(a, b): return not_(eq(a, b))

def not_(b):
    b = B(b)
    if b.k == 'T': return FALSE
    if b.k == 'F': return TRUE
    if b.k == 'not': return b.a
    if b.k == 'ge0': return ge0(-b.a - 1)
    if b.k == 'and': return or_(*[not_(x) for x in b.a])
    if b.k == 'or': return and_(*[not_(x) for x in b.a])
    return Bool('not', b, b.fv)

def and_(*bs):
    out = []
    for b in bs:
        b = B(b)
        if b.k == 'F': return FALSE
        if b.k == 'T': continue
        for x in (b.a if b.k == 'and' else (b,)):
            if x not in out: out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    for x in out:
        if not_(x) in out: return FALSE
    fv = EMPTY
    for x in out: fv |= x.fv
    return Bool('and', tuple(out), fv)

def or_(*bs):
    out = []
    for b in bs:
        b = B(b)
        if b.k == 'T': return TRUE
        if b.k == 'F': continue
        for x in (b.a if b.k == 'or' else (b,)):
            if x not in out: out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    for x in out:
        if not_(x) in out: return TRUE
    fv = EMPTY
    for x in out: fv |= x.fv
    return Bool('or', tuple(out), fv)

def boolvar(name): return Bool('bv', name, frozenset([name]))

def _barrs(b):
    if b.k in ('ge0', 'gt0', 'eq0'): return b.a.arrs()
    if b.k in ('and', 'or'):
        r = EMPTY
        for x in b.a: r |= _barrs(x)
        return r
    if b.k == 'not': return _barrs(b.a)
    return EMPTY
def _bdepth(b):
    if b.k in ('ge0', 'gt0', 'eq0'): return b.a.depth()
    if b.k in ('and', 'or'): return max([_bdepth(x) for x in b.a] or [0])
    if b.k == 'not': return _bdepth(b.a)
    return 0

def ind(b):
    b = B(b)
    if b.k == 'T': return ONE
    if b.k == 'F': return ZERO
    if b.k == 'and':
        r = ONE
        for x in b.a: r = r * ind(x)
        return r
    if b.k == 'or':
        r = ONE
        for x in b.a: r = r * (ONE - ind(x))
        return ONE - r
    if b.k == 'not': return ONE - ind(b.a)
    t = CTX.known(b)
    if t is True: return ONE
    if t is False: return ZERO
    if b.k in ('ge0', 'eq0'):
        d = digit_rule(b)
        if d is not None: return ind(d)
    if b.k == 'ge0' and max(b.a.d.items(), key=lambda mc: (mc[0] != (), mc))[1] < 0:
        return ONE - ind(not_(b))
    return atom_poly(_mk('ind', (b,), True, b.fv, _bdepth(b), _barrs(b)))

def _digit_split(p):
    """(c, s, r) with p = c*s + r for a single-monomial c, terms grouped by divisibility"""
    out = []
    seen = set()
    for m in p.d:
        for k in range(1, 1 << min(len(m), 4)):
            c = tuple((a, 1) for i, (a, e) in enumerate(m[:4]) if k >> i & 1)
            if not c or c in seen or any(ATOMS[a].kind != 'v' for a, e in c): continue
            seen.add(c)
            need = dict(c)
            s = {}; r = {}
            for m2, co in p.d.items():
                d = dict(m2)
                if all(d.get(a, 0) >= e for a, e in c):
                    for a, e in c:
                        d[a] -= e
                        if not d[a]: del d[a]
                    s[tuple(sorted(d.items()))] = co
                else: r[m2] = co
            if len(s) < 2 or not r: continue
            out.append((len(c), Poly({c: 1}), Poly(s), Poly(r)))
    out.sort(key=lambda x: -x[0])
    return [x[1:] for x in out]
def digit_rule(b):
    p = b.a
    if len(p.d) < 3 or len(p.d) > 14 or not p.isint(): return None
    for c, s, r in _digit_split(p):
        if not CTX.quick(ge0(c - 1)): continue
        if b.k == 'ge0':
            if CTX.quick(ge0(r)):
                if CTX.quick(ge0(c - 1 - r)): return ge0(s)
            elif CTX.quick(ge0(-1 - r)) and CTX.quick(ge0(r + c)): return ge0(s - 1)
        elif CTX.quick(ge0(c - 1 - r)) and CTX.quick(ge0(c - 1 + r)): return and_(eq0(s), eq0(r))
    return None

def ite(c, a, b):
    c = B(c)
    if c.k == 'T': return P(a)
    if c.k == 'F': return P(b)
    a = P(a); b = P(b)
    if a == b: return a
    i = ind(c)
    return b + i * (a - b)

def pmax(a, b):
    a = P(a); b = P(b)
    return ite(lt(a, b), b, a)
def pmin(a, b):
    a = P(a); b = P(b)
    return ite(lt(b, a), b, a)

# ---------------------------------------------------------------- substitution
def subst(p, s):
    """s: dict name -> Poly (int/real variables), or name -> Bool for bool variables"""
    if not s: return p
    if not (p.fv & s.keys()): return p
    cache = {}
    return _subst(p, s, cache)

def _subst(p, s, cache):
    ks = s.keys()
    if not (p.fv & ks): return p
    r = cache.get(p)
    if r is not None: return r
    acc = {}
    res = ZERO
    for m, c in p.d.items():
        keep = []
        prod = None
        for a, e in m:
            at = ATOMS[a]
            if at.fv & ks:
                v = subst_atom(at, s, cache)
                if e < 0 : v = ONE.div(v ** (-e)) if not (v.isconst() and v.const() == 0) else _div0()
                elif e > 1: v = v ** e
                prod = v if prod is None else prod * v
                if not prod.d: break
            else: keep.append((a, e))
        if prod is None: acc[m] = acc.get(m, 0) + c
        elif prod.d:
            res = res + (prod * Poly({tuple(keep): c}) if keep else prod.scale(c))
    res = res + Poly({m: c for m, c in acc.items() if c})
    cache[p] = res
    return res

def _div0(): raise Unsupported('division by zero after substitution')

def subst_atom(at, s, cache):
    r = cache.get(at.id)
    if r is not None: return r
    k = at.kind
    if at.id in s: return s[at.id]
    if k == 'v':
        r = s[at.args[0]]
        r = P(r)
    elif k == 'rd':
        r = rd(at.args[0], _subst(at.args[1], s, cache))
        if READ_HOOK: r = READ_HOOK[-1](r)
    elif k == 'f':
        xs = [_subst(x, s, cache) for x in at.args[1]]
        r = fn(at.args[0], *xs, isint=at.isint) if any(x != y for x, y in zip(xs, at.args[1])) else atom_poly(at)
    elif k == 'ind': r = ind(subst_bool(at.args[0], s))
    elif k == 'pol':
        r = _subst(at.args[0], s, cache)
    elif k == 'sum':
        Ns, body, vs = open_sum(at)
        nb = None
        N2 = [subst(n, s) for n in Ns]
        with CTX.ranges(list(zip(vs, N2))):
            nb = subst(body, s)
        r = mk_sum(list(zip(vs, N2)), nb)
    elif k == 'fold':
        op, j, Ns, g, body = at.args
        vs = [fresh('f') for _ in Ns]
        ren = {'$%d.%d' % (at.depth, i): v for i, v in enumerate(vs)}
        g2 = subst_bool(subst_bool(g, ren), s); b2 = subst(subst(body, ren), s)
        r = mk_fold(op, j, [(varname(v), subst(n, s)) for v, n in zip(vs, Ns)], g2, b2)
    else: raise Unsupported(k)
    cache[at.id] = r
    return r

READ_HOOK = []

def subst_bool(b, s):
    if not s or not (b.fv & s.keys()): return b
    if b.k == 'ge0': return ge0(subst(b.a, s))
    if b.k == 'gt0': return gt0(subst(b.a, s))
    if b.k == 'eq0': return eq0(subst(b.a, s))
    if b.k == 'and': return and_(*[subst_bool(x, s) for x in b.a])
    if b.k == 'or': return or_(*[subst_bool(x, s) for x in b.a])
    if b.k == 'not': return not_(subst_bool(b.a, s))
    if b.k == 'bv': return B(s[b.a])
    return b

def map_reads(p, arrs, f):
    """replace every rd(A, idx) with A in arrs by f(A, idx) (idx already mapped)"""
    if not (p.arrs() & arrs): return p
    res = ZERO
    for m, c in p.d.items():
        t = P(c)
        for a, e in m:
            at = ATOMS[a]
            if at.arrs & arrs: v = _map_atom(at, arrs, f)
            else: v = atom_poly(at) if at.kind != 'pol' else at.args[0]
            t = t * (v ** e if e > 0 else ONE.div(v ** -e))
        res = res + t
    return res

def map_reads_bool(b, arrs, f):
    if b.k in ('ge0', 'gt0', 'eq0'):
        if not (b.a.arrs() & arrs): return b
        return {'ge0': ge0, 'gt0': gt0, 'eq0': eq0}[b.k](map_reads(b.a, arrs, f))
    if b.k in ('and', 'or'):
        return (and_ if b.k == 'and' else or_)(*[map_reads_bool(x, arrs, f) for x in b.a])
    if b.k == 'not': return not_(map_reads_bool(b.a, arrs, f))
    return b

def _map_atom(at, arrs, f):
    k = at.kind
    if k == 'rd':
        i = map_reads(at.args[1], arrs, f)
        if at.args[0] in arrs: return f(at.args[0], i)
        return rd(at.args[0], i)
    if k == 'f': return fn(at.args[0], *[map_reads(x, arrs, f) for x in at.args[1]], isint=at.isint)
    if k == 'ind': return ind(map_reads_bool(at.args[0], arrs, f))
    if k == 'pol': return map_reads(at.args[0], arrs, f)
    if k == 'sum':
        Ns, body, vs = open_sum(at)
        with CTX.ranges(list(zip(vs, Ns))): body = map_reads(body, arrs, f)
        return mk_sum(list(zip(vs, Ns)), body)
    if k == 'fold':
        op, j, Ns, g, body = at.args
        vs = [fresh('f') for _ in Ns]
        ren = {'$%d.%d' % (at.depth, i): v for i, v in enumerate(vs)}
        vr = [(varname(v), n) for v, n in zip(vs, Ns)]
        with CTX.ranges(vr):
            g2 = map_reads_bool(subst_bool(g, ren), arrs, f); b2 = map_reads(subst(body, ren), arrs, f)
        return mk_fold(op, j, vr, g2, b2)
    raise Unsupported(k)

# ---------------------------------------------------------------- sums
def open_sum(at):
    Ns, body = at.args
    vs = [fresh('s') for _ in Ns]
    ren = {'$%d.%d' % (at.depth, i): v for i, v in enumerate(vs)}
    return Ns, _raw_subst(body, ren), [varname(v) for v in vs]

def _raw_subst(p, ren): return subst(p, ren)

def Sum(N, f):
    """spec-level: sum over 0 <= v < N of f(v)"""
    v = fresh('s')
    with CTX.ranges([(varname(v), P(N))]): b = P(f(v))
    return mk_sum([(varname(v), P(N))], b)

def mk_sum(vs, body):
    if not body.d: return ZERO
    vs = list(vs)
    # constant ranges are unrolled
    for i, (v, N) in enumerate(vs):
        if N.isconst():
            n = N.const()
            if n <= 0: return ZERO
            if n <= 4 and not any(v in M.fv for _, M in vs):
                rest = vs[:i] + vs[i+1:]
                t = ZERO
                for k in range(n): t = t + subst(body, {v: P(k)})
                return mk_sum(rest, t) if rest else t
    if not vs: return body
    res = ZERO
    body = fuse(body, set(v for v, N in vs))
    with CTX.ranges(vs):
        for m, c in body.d.items():
            res = res + _sum_mono(vs, m).scale(c)
    return res

def fuse(body, names):
    """[Q>=0]*[Q-k>=0] = [Q-k>=0]   and   X*[Q>=0] - X*[Q-1>=0] = X*[Q==0]"""
    def ges(m): return [(a, ATOMS[a].args[0].a) for a, e in m if ATOMS[a].kind == 'ind' and ATOMS[a].args[0].k == 'ge0' and ATOMS[a].fv & names]
    if not any(ges(m) for m in body.d): return body
    d = {}
    for m, c in body.d.items():
        g = ges(m)
        drop = set()
        for i in range(len(g)):
            for j in range(len(g)):
                if i != j and g[j][0] not in drop:
                    t = g[i][1] - g[j][1]
                    if t.isconst() and t.const() >= 0 and g[i][0] not in drop: drop.add(g[i][0])
        if drop: m = tuple(x for x in m if x[0] not in drop)
        d[m] = d.get(m, 0) + c
    d = {m: c for m, c in d.items() if c}
    res = Poly(d)
    for m, c in list(d.items()):
        if m not in d or d[m] != c: continue
        for a, Q in ges(m):
            rest = tuple(x for x in m if x[0] != a)
            lo = None
            for m2, c2 in d.items():
                if c2 != -c or m2 == m: continue
                for a2, Q2 in ges(m2):
                    if tuple(x for x in m2 if x[0] != a2) == rest and (Q - Q2) == ONE: lo = m2; break
                if lo: break
            if lo:
                X = Poly({rest: c}) if rest else P(c)
                res = res - Poly({m: c}) - Poly({lo: -c}) + X * ind(eq0(Q))
                del d[m]; del d[lo]
                break
    return res

def solve_for(E, v):
    """if E = +-v + rest with rest free of v: rest' such that E==0 iff v==rest'"""
    va = V(v)
    (vm, _), = va.d.items()
    c = E.d.get(vm)
    if c not in (1, -1): return None
    rest = E - va.scale(c)
    if v in rest.fv: return None
    return -rest if c == 1 else rest

def primitive(E, names):
    """E without the positive factors common to all its monomials (E is compared with zero)"""
    if len(E.d) < 2: return E
    com = set.intersection(*[set(a for a, e in m if e > 0) for m in E.d])
    for a in com:
        A = ATOMS[a]
        if A.fv & names: continue
        if CTX.quick(ge0(atom_poly(A) - 1)): E = Poly({tuple((x, e - 1 if x == a else e) for x, e in m if x != a or e > 1): c for m, c in E.d.items()})
    return E

def _sum_mono(vs, m):
    names = set(v for v, N in vs)
    # equations between positions split into equations between indices
    for a, e in m:
        at = ATOMS[a]
        if at.kind == 'ind' and at.args[0].k == 'eq0' and len(at.args[0].a.d) > 3 and at.args[0].fv & names:
            others = [ATOMS[x].args[0] for x, _ in m if x != a and ATOMS[x].kind == 'ind' and ATOMS[x].args[0].k == 'ge0']
            args = arg_atoms(at.args[0].a)
            if not others and not args: continue
            with CTX.assume(*others):
                for x in args.values():
                    for f in arg_facts(x): CTX.add(f)
                d = digit_rule(at.args[0])
                if d is not None: d = ind(d)
            if d is not None:
                rest = tuple(x for x in m if x[0] != a)
                return mk_sum(vs, (Poly({rest: 1}) if rest else ONE) * d)
    # delta elimination
    for a, e in m:
        at = ATOMS[a]
        if at.kind == 'ind' and at.args[0].k == 'eq0' and at.args[0].fv & names:
            E = primitive(at.args[0].a, names)
            for i, (v, N) in enumerate(vs):
                if v in E.fv and not any(v in M.fv for _, M in vs):
                    sol = solve_for(E, v)
                    if sol is None: continue
                    restm = tuple(x for x in m if x[0] != a)
                    rvs = vs[:i] + vs[i+1:]
                    with CTX.forget({v}):
                        b = subst(Poly({restm: 1}), {v: sol}) if restm else ONE
                        b = b * ind(ge0(sol)) * ind(ge0(N - 1 - sol))
                        return mk_sum(rvs, b) if rvs else b
    out = []; dep = []
    for a, e in m:
        (dep if ATOMS[a].fv & names else out).append((a, e))
    res = Poly({tuple(out): 1}) if out else ONE
    # indicators decided by the ranges (those with products of variables; the others are met elsewhere)
    for a, e in list(dep):
        at = ATOMS[a]
        if at.kind == 'ind' and at.args[0].k == 'ge0':
            Q = at.args[0].a
            if not any(len(mm) > 1 and any(ATOMS[x].kind == 'v' and ATOMS[x].args[0] in names for x, _ in mm) for mm in Q.d): continue
            if CTX.quick(ge0(-Q - 1)): return ZERO
            if CTX.quick(at.args[0]): dep.remove((a, e))
    # indicators implied by an equation of the same product
    eqs = [ATOMS[a].args[0].a for a, e in dep if ATOMS[a].kind == 'ind' and ATOMS[a].args[0].k == 'eq0']
    if eqs:
        for a, e in list(dep):
            at = ATOMS[a]
            if at.kind == 'ind' and at.args[0].k == 'ge0':
                Q = at.args[0].a
                done = False
                for E in eqs:
                    for s in (1, -1):
                        R = Q + E.scale(s)
                        if len(R.d) <= len(Q.d) + 1:
                            if CTX.quick(ge0(R)):
                                dep.remove((a, e)); done = True; break
                            if CTX.quick(ge0(-R - 1)): return ZERO
                    if done: break
    # connected components
    comps = []
    for a, e in dep:
        fvs = ATOMS[a].fv & names
        # ranges that depend on other variables connect them
        new = [set(fvs), [(a, e)]]
        rest = []
        for cset, cat in comps:
            if cset & new[0]: new[0] |= cset; new[1] = cat + new[1]
            else: rest.append([cset, cat])
        comps = rest + [new]
    for v, N in vs:
        dv = N.fv & names
        if dv:
            new = [set(dv) | {v}, []]
            rest = []
            for cset, cat in comps:
                if cset & new[0]: new[0] |= cset; new[1] = cat + new[1]
                else: rest.append([cset, cat])
            comps = rest + [new]
    used = set()
    for cset, cat in comps:
        used |= cset
        res = res * _sum_comp([(v, N) for v, N in vs if v in cset], tuple(sorted(cat)))
    for v, N in vs:
        if v not in used:
            if CTX.quick(ge0(N)): res = res * N
            else: res = res * N * ind(ge0(N))
    return res

MERGE = [True]
def _sum_comp(vs, m):
    body = Poly({m: 1})
    # flatten nested sums
    names = set(x for x, _ in vs)
    for a, e in m:
        at = ATOMS[a]
        if at.kind == 'sum' and e >= 1 and not any(N.fv & names for N in at.args[0]):
            Ns, ib, iv = open_sum(at)
            rest = Poly({tuple((x, (y if x != a else y - 1)) for x, y in m if x != a or y > 1): 1})
            nvs = vs + list(zip(iv, Ns))
            with CTX.ranges(nvs): nb = rest * ib
            return mk_sum(nvs, nb)
    # dependent ranges: sum the innermost variables first
    for i, (v, N) in enumerate(vs):
        if not any(v in M.fv for _, M in vs) and N.fv & set(x for x, _ in vs):
            rest = vs[:i] + vs[i+1:]
            inner = _close([(v, N)], body)
            return mk_sum(rest, inner)
    # split a variable used through idiv
    for v, N in vs:
        for at in find_idiv(body, v):
            dvs = at.args[1][1]
            if at.args[1][0] == V(v) and len(dvs.d) == 1 and v not in dvs.fv and not (dvs.fv & set(x for x, _ in vs)):
                q, r = monos_div(N, dvs) if len(N.d) == 1 else (None, ONE)
                if not r.d:
                    hi, lo = fresh('s'), fresh('s')
                    nvs = [(x, n) for x, n in vs if x != v] + [(varname(hi), q), (varname(lo), dvs)]
                    with CTX.ranges(nvs): nb = subst(body, {v: hi * dvs + lo})
                    return mk_sum(nvs, nb)
    # merge two variables that only occur as i*N_j + j
    if MERGE[0] and len(vs) >= 2:
        for i, (v, N) in enumerate(vs):
            for j, (w, M) in enumerate(vs):
                if i == j or M.fv & set(x for x, _ in vs): continue
                k = fresh('s')
                if not _only_through(body, v, w, M): continue
                nvs = [x for t, x in enumerate(vs) if t not in (i, j)] + [(varname(k), N * M)]
                with CTX.ranges(nvs):
                    nb = subst(body, {v: ZERO, w: k})
                return mk_sum(nvs, nb)
    return _close(vs, body)

def _only_through(p, v, w, M):
    """does p depend on v, w only through v*M + w ?"""
    ks = {v, w}
    for m in p.d:
        for a, e in m:
            at = ATOMS[a]
            if not (at.fv & ks): continue
            if at.kind == 'v': return _poly_through(p, v, w, M)
            if at.kind == 'rd':
                if not _poly_through(at.args[1], v, w, M): return False
            elif at.kind == 'f':
                if not all(_only_through(x, v, w, M) for x in at.args[1]): return False
            elif at.kind == 'ind': 
                if not _bool_through(at.args[0], v, w, M): return False
            elif at.kind == 'pol':
                if not _only_through(at.args[0], v, w, M): return False
            elif at.kind == 'sum':
                if any((n.fv & ks) for n in at.args[0]) or not _only_through(at.args[1], v, w, M): return False
            else: return False
    return True
def _bool_through(b, v, w, M):
    if not (b.fv & {v, w}): return True
    if b.k in ('ge0', 'gt0', 'eq0'): return _only_through(b.a, v, w, M)
    if b.k in ('and', 'or'): return all(_bool_through(x, v, w, M) for x in b.a)
    if b.k == 'not': return _bool_through(b.a, v, w, M)
    return False
def _poly_through(p, v, w, M):
    if not (p.fv & {v, w}): return True
    # p linear in v and w, coefficient of v = M * coefficient of w
    cv = coeff(p, v); cw = coeff(p, w)
    if cv is None or cw is None: return False
    if cv - M * cw != ZERO: return False
    rest = p - cv * V(v) - cw * V(w)
    if rest.fv & {v, w}: return _only_through(rest, v, w, M) if not any(ATOMS[a].kind == 'v' and ATOMS[a].args[0] in (v, w) for m in rest.d for a, e in m) else False
    return True

def coeff(p, v):
    """coefficient poly of variable v if p is linear in it (None if not, ZERO if absent at top level)"""
    va = ((V(v).key)[0][0][0])[0]
    d = {}
    for m, c in p.d.items():
        for a, e in m:
            if a == va:
                if e != 1: return None
                mm = tuple(x for x in m if x[0] != va)
                d[mm] = d.get(mm, 0) + c
    r = Poly({m: c for m, c in d.items() if c})
    if v in r.fv: return None
    return r

def _close(vs, body):
    depth = body.depth() + 1
    for _, N in vs: depth = max(depth, N.depth() + 1)
    vs = sorted(vs, key=lambda x: x[1].key)
    groups = []
    for v, N in vs:
        if groups and groups[-1][0] == N: groups[-1][1].append(v)
        else: groups.append((N, [v]))
    perms = [[]]
    n = 1
    for N, g in groups: n *= math.factorial(len(g))
    if n <= 24:
        for N, g in groups:
            perms = [p + list(q) for p in perms for q in itertools.permutations(g)]
    else:
        perms = [[v for N, g in groups for v in sorted(g, key=lambda v: _sig(body, v))]]
    best = None
    for p in perms:
        ren = {v: V('$%d.%d' % (depth, i)) for i, v in enumerate(p)}
        NOIND[0] += 1
        try: b = subst(body, ren)
        finally: NOIND[0] -= 1
        if best is None or b.key < best.key: best = b
    Ns = tuple(N for N, g in groups for _ in g)
    fv = EMPTY
    for x in Ns: fv |= x.fv
    fv |= frozenset(x for x in best.fv if not x.startswith('$%d.' % depth))
    ar = best.arrs()
    return atom_poly(_mk('sum', (Ns, best), best.isint(), fv, depth, ar))

NOIND = [0]

def _sig(p, v):
    out = []
    for m, c in p.d.items():
        for a, e in m:
            if v in ATOMS[a].fv:
                at = ATOMS[a]
                if at.kind == 'rd':
                    cf = coeff(at.args[1], v)
                    out.append((at.kind, at.args[0], str(cf)))
                else: out.append((at.kind, '', ''))
    return sorted(out)

def find_idiv(p, v, acc=None):
    if acc is None: acc = []
    if v not in p.fv: return acc
    for m in p.d:
        for a, e in m:
            at = ATOMS[a]
            if v not in at.fv: continue
            if at.kind == 'f':
                if at.args[0] == 'idiv': acc.append(at)
                for x in at.args[1]: find_idiv(x, v, acc)
            elif at.kind == 'rd': find_idiv(at.args[1], v, acc)
            elif at.kind == 'ind': find_idiv_bool(at.args[0], v, acc)
            elif at.kind == 'pol': find_idiv(at.args[0], v, acc)
            elif at.kind == 'sum': find_idiv(at.args[1], v, acc)
    return acc
def find_idiv_bool(b, v, acc):
    if b.k in ('ge0', 'gt0', 'eq0'): find_idiv(b.a, v, acc)
    elif b.k in ('and', 'or'):
        for x in b.a: find_idiv_bool(x, v, acc)
    elif b.k == 'not': find_idiv_bool(b.a, v, acc)
    return acc

def mk_fold(op, j, vs, guard, body):
    """op 'max': the largest body over the ranges where guard holds; 'arg': component j of the
    first (lexicographic) position of the maximum"""
    vs = list(vs)
    depth = max([body.depth(), _bdepth(guard)] + [N.depth() for _, N in vs]) + 1
    ren = {v: V('$%d.%d' % (depth, i)) for i, (v, N) in enumerate(vs)}
    with CTX.ranges(vs):
        pass
    b = subst(body, ren); g = subst_bool(guard, ren)
    Ns = tuple(N for _, N in vs)
    fv = frozenset(x for x in b.fv | g.fv if not x.startswith('$%d.' % depth))
    for x in Ns: fv |= x.fv
    return atom_poly(_mk('fold', (op, j, Ns, g, b), op == 'arg', fv, depth, b.arrs() | _barrs(g)))

def fold_nonempty(space, g):
    """some element of the ranges satisfies the guard"""
    conj = list(g.a) if g.k == 'and' else [g]
    names = {x for x, _ in space}
    def pick(i, sub):
        if i == len(space):
            for v, N in space:
                if not CTX.prove(ge0(subst(N, sub) - 1 - sub[v])) or not CTX.prove(ge0(sub[v])): return False
            return CTX.prove(subst_bool(g, sub))
        v, N = space[i]
        lows = [ZERO]
        for c in conj:
            if c.k == 'ge0' and v in c.fv and coeff(c.a, v) == ONE:
                r = V(v) - c.a
                if not (r.fv & names) and r not in lows: lows.append(r)
        # case by case: which of the lower bounds is the largest
        def rest(w, k):
            if k == len(lows): return pick(i + 1, dict(sub, **{v: w}))
            b = ge0(w - lows[k])
            if CTX.quick(b): return rest(w, k + 1)
            if CTX.quick(not_(b)): return rest(lows[k], k + 1)
            for c, x in ((b, w), (not_(b), lows[k])):
                with CTX.assume(c):
                    if not rest(x, k + 1): return False
            return True
        return rest(lows[0], 1)
    return pick(0, {})
ARGF = {}
def arg_facts(at):
    """what is known about component j of the position of a maximum: it lies in its range and the guard holds there"""
    op, j, Ns, g, body = at.args
    k = (CTX.ver, at.id)
    if k in ARGF: return ARGF[k]
    vs = [fresh('f') for _ in Ns]
    ren = {'$%d.%d' % (at.depth, i): v for i, v in enumerate(vs)}
    space = [(varname(v), subst(N, ren)) for v, N in zip(vs, Ns)]
    g2 = subst_bool(g, ren)
    r = ()
    if fold_nonempty(space, g2):
        A = [mk_fold('arg', i, space, g2, subst(body, ren)) for i in range(len(space))]
        full = {varname(v): a for v, a in zip(vs, A)}
        out = []
        for (v, N), a in zip(space, A): out += [ge0(a), ge0(subst(N, full) - 1 - a)]
        x = subst_bool(g2, full)
        out += list(x.a) if x.k == 'and' else [x]
        r = tuple(out)
    if len(ARGF) > 5000: ARGF.clear()
    ARGF[k] = r
    return r
def arg_atoms(p, out=None):
    if out is None: out = {}
    for m in p.d:
        for a, e in m:
            if ATOMS[a].kind == 'fold' and ATOMS[a].args[0] == 'arg': out[a] = ATOMS[a]
    return out

def simplify_fold(at):
    """the fold without the conjuncts of its guard that the facts in force imply"""
    op, j, Ns, g, body = at.args
    if g.k == 'T': return None
    vs = [fresh('f') for _ in Ns]
    ren = {'$%d.%d' % (at.depth, i): v for i, v in enumerate(vs)}
    names = [varname(v) for v in vs]
    conj = [subst_bool(c, ren) for c in (g.a if g.k == 'and' else (g,))]
    keep = []; ch = False
    with CTX.ranges([(n, subst(N, ren)) for n, N in zip(names, Ns)]):
        for c in conj:
            if CTX.quick(c): ch = True
            else: keep.append(c)
    if not ch: return None
    return mk_fold(op, j, [(n, subst(N, ren)) for n, N in zip(names, Ns)], and_(*keep), subst(body, ren))

# ---------------------------------------------------------------- printing
def fmt(p):
    if not p.d: return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda x: (len(x[0]), x)):
        s = '*'.join((fmt_atom(ATOMS[a]) + ('' if e == 1 else '^%d' % e)) for a, e in m)
        if not s: s = str(c)
        elif c == -1: s = '-' + s
        elif c != 1: s = '%s*%s' % (c if not isinstance(c, Fraction) else '(%s)' % (c if c.denominator < 10**6 else '%g' % float(c)), s)
        out.append(s)
    r = out[0]
    for s in out[1:]: r += (' - ' + s[1:]) if s.startswith('-') else ' + ' + s
    return r
def fmt_atom(at):
    k = at.kind
    if k == 'v': return at.args[0]
    if k == 'rd': return '%s[%s]' % (at.args[0], fmt(at.args[1]))
    if k == 'f': return '%s(%s)' % (at.args[0], ', '.join(fmt(x) for x in at.args[1]))
    if k == 'ind': return '[%s]' % fmt_bool(at.args[0])
    if k == 'pol': return '(%s)' % fmt(at.args[0])
    if k == 'sum': return 'SUM{%s: %s}' % (', '.join('$%d.%d<%s' % (at.depth, i, fmt(n)) for i, n in enumerate(at.args[0])), fmt(at.args[1]))
    if k == 'fold': return '%s%s{%s | %s: %s}' % (at.args[0], at.args[1], ', '.join('$%d.%d<%s' % (at.depth, i, fmt(n)) for i, n in enumerate(at.args[2])), fmt_bool(at.args[3]), fmt(at.args[4]))
    return '?'
def fmt_bool(b):
    if b.k == 'T': return 'true'
    if b.k == 'F': return 'false'
    if b.k == 'ge0':
        pos = Poly({m: c for m, c in b.a.d.items() if c > 0}); neg = Poly({m: -c for m, c in b.a.d.items() if c < 0})
        return '%s >= %s' % (fmt(pos), fmt(neg))
    if b.k == 'gt0': return '%s > 0' % fmt(b.a)
    if b.k == 'eq0':
        pos = Poly({m: c for m, c in b.a.d.items() if c > 0}); neg = Poly({m: -c for m, c in b.a.d.items() if c < 0})
        return '%s == %s' % (fmt(pos), fmt(neg))
    if b.k == 'and': return '(' + ' && '.join(fmt_bool(x) for x in b.a) + ')'
    if b.k == 'or': return '(' + ' || '.join(fmt_bool(x) for x in b.a) + ')'
    if b.k == 'not': return '!(%s)' % fmt_bool(b.a)
    return str(b.a)

# ---------------------------------------------------------------- derivative
def diff(p, arr, idx):
    """derivative of p with respect to element idx of array arr"""
    if arr not in p.arrs(): return ZERO
    res = ZERO
    for m, c in p.d.items():
        for i, (a, e) in enumerate(m):
            at = ATOMS[a]
            if arr not in at.arrs: continue
            rest = m[:i] + m[i+1:]
            r = Poly({rest: c}) if rest else P(c)
            base = at.args[0] if at.kind == 'pol' else atom_poly(at)
            outer = P(e)
            if e != 1:
                outer = outer * (base ** (e - 1) if e > 1 else ONE.div(base ** (1 - e)))
            res = res + r * outer * _diff_atom(at, arr, idx)
    return res
def _diff_atom(at, arr, idx):
    k = at.kind
    if k == 'rd':
        if at.args[0] == arr: return ind(eq(at.args[1], idx))
        return ZERO
    if k == 'f':
        n = at.args[0]; x = at.args[1][0]
        d = diff(x, arr, idx)
        if n == 'exp': return atom_poly(at) * d
        if n == 'log': return d.div(x)
        if n == 'sqrt': return d.div(atom_poly(at).scale(2))
        raise Unsupported('derivative of ' + n)
    if k == 'ind': return ZERO
    if k == 'pol': return diff(at.args[0], arr, idx)
    if k == 'sum':
        Ns, body, vs = open_sum(at)
        with CTX.ranges(list(zip(vs, Ns))): d = diff(body, arr, idx)
        return mk_sum(list(zip(vs, Ns)), d)
    raise Unsupported('derivative of ' + k)

# ---------------------------------------------------------------- evaluation
class Env:
    def __init__(s, vars, arrays, bools=None, funs=None):
        s.v = vars; s.arr = arrays; s.b = bools or {}; s.funs = funs or {}
        s.budget = 400000; s.hp = False
def ev(p, env):
    t = 0
    for m, c in p.d.items():
        x = c if isinstance(c, int) else mpmath.mpf(c.numerator) / c.denominator if env.hp else float(c)
        # indicators first: they may guard the rest
        z = False
        for a, e in m:
            if ATOMS[a].kind == 'ind' and not evb(ATOMS[a].args[0], env): z = True; break
        if z: continue
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'ind': continue
            y = ev_atom(at, env)
            x = x * y ** e if e != 1 else x * y
        t = t + x
    return t
def hp(x, env): return mpmath.mpf(x) if env.hp and isinstance(x, float) else x
def ev_atom(at, env):
    k = at.kind
    if k == 'v': return hp(env.v[at.args[0]], env)
    if k == 'rd':
        i = ev(at.args[1], env)
        return hp(env.arr(at.args[0], i if isinstance(i, int) else float(i)), env)
    if k == 'pol': return ev(at.args[0], env)
    if k == 'ind': return 1 if evb(at.args[0], env) else 0
    if k == 'f':
        n = at.args[0]; a = [ev(x, env) for x in at.args[1]]
        if n == 'idiv': return a[0] // a[1]
        M = mpmath if env.hp else math
        if n in ('log', 'sqrt') and a[0] < 0: raise ValueError
        if n == 'exp': return M.exp(a[0])
        if n == 'log': return M.log(a[0])
        if n == 'sqrt': return M.sqrt(a[0])
        if n == 'pow': return a[0] ** a[1]
        if n == 'trunc': return int(a[0])
        return hp(env.arr('fn:' + n, tuple(float(x) if env.hp and not isinstance(x, int) else x for x in a)), env)
    if k in ('sum', 'fold'):
        Ns = at.args[0] if k == 'sum' else at.args[2]
        names = ['$%d.%d' % (at.depth, i) for i in range(len(Ns))]
        saved = {n: env.v.get(n) for n in names}
        try:
            rng = [range(int(ev(n, env))) for n in Ns]
            if k == 'sum':
                t = 0
                for tup in itertools.product(*rng):
                    env.budget -= 1
                    if env.budget < 0: raise OverflowError
                    for n, x in zip(names, tup): env.v[n] = x
                    t = t + ev(at.args[1], env)
                return t
            best = None; bt = None
            for tup in itertools.product(*rng):
                env.budget -= 1
                if env.budget < 0: raise OverflowError
                for n, x in zip(names, tup): env.v[n] = x
                if not evb(at.args[3], env): continue
                x = ev(at.args[4], env)
                if best is None or x > best: best = x; bt = tup
            if at.args[0] == 'max': return -math.inf if best is None else best
            return bt[at.args[1]] if bt is not None else 0
        finally:
            for n, x in saved.items():
                if x is None: env.v.pop(n, None)
                else: env.v[n] = x
    raise Unsupported(k)
def evb(b, env):
    k = b.k
    if k == 'T': return True
    if k == 'F': return False
    if k == 'ge0': return ev(b.a, env) >= 0
    if k == 'gt0': return ev(b.a, env) > 0
    if k == 'eq0':
        x = ev(b.a, env)
        return x == 0 if isinstance(x, int) else abs(x) < 1e-12
    if k == 'and': return all(evb(x, env) for x in b.a)
    if k == 'or': return any(evb(x, env) for x in b.a)
    if k == 'not': return not evb(b.a, env)
    if k == 'bv': return env.b[b.a]
    raise Unsupported(k)

from prover import CTX  # noqa: E402  (the context uses the functions above)
