"""Facts in force and the two provers: a quick syntactic one and z3."""
import contextlib, time
import sys

STATS = {'quick': 0, 'z3_calls': 0, 'z3_time': 0.0, 'z3_unknown': 0}
Z3_TIMEOUT = [1500]
NB = [200]
import os
DEBUG = os.environ.get('DVDEBUG')

class Ctx:
    def __init__(s):
        s.facts = []; s.fset = set(); s.lb = {}; s.ub = {}; s.sub = {}
        s.ver = 0; s.nver = 0; s.cache = {}; s.undo = []
        s.vertab = {}
        s.depth = 0; s.ncache = {}; s.nb = 0; s.names = {}
    # -- facts
    def mark(s): return (len(s.undo), s.ver)
    def reset(s, m):
        n, ver = m
        while len(s.undo) > n: s.undo.pop()()
        s.ver = ver
    def add(s, b):
        from terms import B
        b = B(b)
        if b.k == 'and':
            for x in b.a: s.add(x)
            return
        if b.k == 'T' or b in s.fset: return
        k = (s.ver, b)
        v = s.vertab.get(k)
        if v is None:
            s.nver += 1; v = s.vertab[k] = s.nver
        s.ver = v
        s.facts.append(b); s.fset.add(b)
        def u():
            s.facts.pop(); s.fset.discard(b)
        s.undo.append(u)
        if b.k == 'ge0':
            s._bounds(b.a)
            from terms import ge0
            o = ge0(-b.a)
            if o in s.fset: s._eq(b.a)
        elif b.k == 'eq0': s._eq(b.a); s._remainder(b.a, True)
        elif b.k == 'not' and b.a.k == 'eq0': s._remainder(b.a.a, False)
    def _remainder(s, p, zero):
        """p is +-(x - y * floor(x / y)) with 0 < x <= y: it is 0 exactly when x == y"""
        from terms import ATOMS, ge0, eq0, atom_poly, V, ZERO
        for m in p.d:
            for a, e in m:
                at = ATOMS[a]
                if at.kind == 'f' and at.args[0] == 'idiv' and e == 1:
                    x, y = at.args[1]
                    r = x - y * atom_poly(at)
                    if (p == r or p == -r) and s.quick(ge0(x - 1)) and s.quick(ge0(y - x)):
                        s.add(eq0(y - x) if zero else ge0(y - x - 1))
                        v = min(x.fv | y.fv)
                        if not zero and v not in s.sub:
                            # floor(x / y) is 0 in the terms built before, too
                            old = s.sub; s.sub = dict(old); s.sub[v] = V(v); s.sub[at.id] = ZERO
                            def u(): s.sub = old
                            s.undo.append(u)
                        return
    def _bounds(s, p):
        from terms import ATOMS, Poly, P
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                at = ATOMS[m[0][0]]
                if at.kind not in ('v', 'f', 'rd', 'fold'): continue
                rest = p - Poly({m: c})
                nm = at.id
                if any(a == nm for mm in rest.d for a, e in mm) or (at.kind == 'v' and at.args[0] in rest.fv): continue
                tab, val = (s.lb, -rest) if c == 1 else (s.ub, rest)
                tab.setdefault(nm, []).append(val)
                s.undo.append(lambda tab=tab, nm=nm: tab[nm].pop())
    def _eq(s, p):
        from terms import ATOMS, Poly, solve_for, subst
        p = s.norm(p)
        best = None
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and ATOMS[m[0][0]].kind == 'v':
                v = ATOMS[m[0][0]].args[0]
                r = solve_for(p, v)
                if r is not None and (best is None or ATOMS[m[0][0]].id > best[0]): best = (ATOMS[m[0][0]].id, v, r)
        if best is None: return
        _, v, r = best
        old = dict(s.sub)
        new = {k: subst(x, {v: r}) for k, x in s.sub.items()}
        new[v] = r
        s.sub = new
        def u(): s.sub = old
        s.undo.append(u)
        # bounds of v carry over to r
        from terms import ge0
        vid = best[0]
        for b in s.lb.get(vid, []): s._addraw(ge0(r - b))
        for b in s.ub.get(vid, []): s._addraw(ge0(b - r))
    def _addraw(s, b):
        from terms import subst_bool
        if b.k in ('T', 'F'): return
        s.add(b)
    @contextlib.contextmanager
    def ranges(s, vs):
        from terms import V, ge0
        m = s.mark()
        try:
            for v, N in vs:
                s.add(ge0(V(v))); s.add(ge0(N - 1 - V(v)))
            yield
        finally: s.reset(m)
    @contextlib.contextmanager
    def assume(s, *bs):
        m = s.mark()
        try:
            for b in bs: s.add(b)
            yield
        finally: s.reset(m)
    @contextlib.contextmanager
    def forget(s, names):
        yield
    def norm(s, p):
        if not s.sub: return p
        from terms import subst
        return subst(p, s.sub)
    def norm_bool(s, b):
        if not s.sub: return b
        from terms import subst_bool
        return subst_bool(b, s.sub)
    # -- quick
    def known(s, b):
        from terms import not_, B
        if b.k == 'T': return True
        if b.k == 'F': return False
        if b in s.fset: return True
        k = ('k', s.ver, b)
        r = s.cache.get(k, 0)
        if r != 0: return r
        n = not_(b)
        if n in s.fset: r = False
        elif s.depth > 2: return None
        else:
            r = None
            if s.quick(b): r = True
            elif s.quick(n): r = False
        s.cache[k] = r
        return r
    def nfacts(s):
        """the facts, rewritten with the equalities in force"""
        k = ('nf', s.ver)
        r = s.cache.get(k)
        if r is None: r = s.cache[k] = frozenset(s.norm_bool(f) for f in s.facts)
        return r
    def quick(s, b):
        if b.k == 'T': return True
        if b.k == 'F': return False
        if b in s.fset: return True
        k = (s.ver, b)
        r = s.cache.get(k)
        if r is not None: return r
        if s.sub and s.norm_bool(b) in s.nfacts(): 
            s.cache[k] = True
            return True
        if s.depth > 3: return False
        s.depth += 1
        if s.depth == 1: s.nb = NB[0]
        try: r = s._quick(b)
        finally: s.depth -= 1
        s.cache[k] = r
        return r
    def _quick(s, b):
        from terms import not_, ge0, gt0
        if b.k == 'ge0':
            p = s.norm(b.a)
            # a fact about the same product takes it away
            prods = [(m, c) for m, c in p.d.items() if len(m) > 1]
            if prods:
                nb = s.nb
                for f in s.facts:
                    if f.k == 'ge0' and any(f.a.d.get(m, 0) * c > 0 for m, c in prods):
                        r = p - s.norm(f.a)
                        if len(r.d) < len(p.d):
                            s.nb = 40
                            if s.nonneg(r, 6): return True
                s.nb = nb
            if s.nonneg(p, 14): return True
            for f in s.facts:
                if f.k == 'ge0' and f.fv & p.fv:
                    r = p - s.norm(f.a)
                    if len(r.d) < len(p.d) + 2 and s.nonneg(r, 8): return True
            for f in s.facts:
                if f.k == 'or' and all(ge0(p) == s.norm_bool(x) or s.implies1(x, b) for x in f.a): return True
            return False
        if b.k == 'gt0':
            p = s.norm(b.a)
            return s.sign(p) == 1
        if b.k == 'and': return all(s.quick(x) for x in b.a)
        if b.k == 'or': return any(s.quick(x) for x in b.a)
        if b.k == 'eq0':
            p = s.norm(b.a)
            return not p.d
        if b.k == 'not':
            c = b.a
            if c.k == 'eq0':
                p = s.norm(c.a)
                if p.isconst(): return p.const() != 0
                if p.isint():
                    return s.nonneg(p - 1, 10) or s.nonneg(-p - 1, 10)
                return s.sign(p) in (1, -1)
            if c.k == 'gt0':
                return s.sign(s.norm(-c.a)) in (1, 2, 0)
            if c.k == 'and': return any(s.quick(not_(x)) for x in c.a)
        return False
    def implies1(s, x, b):
        if x.k == 'ge0' and b.k == 'ge0': return s.nonneg(s.norm(b.a - x.a), 6)
        return False
    def atom_nonneg(s, at):
        k = at.kind
        if k == 'ind': return True
        if k in ('v', 'fold'):
            for l in s.lb.get(at.id, ()):
                if l.isconst() and l.const() >= 0: return True
            return False
        if k == 'f' and at.args[0] == 'idiv':
            return s.nonneg(at.args[1][0], 6) and s.nonneg(at.args[1][1], 6)
        if k == 'f' and at.args[0].startswith('byte:'): return True
        if k == 'sum': return at.isint and False
        return False
    def nonneg(s, p, fuel):
        """is the integer polynomial p >= 0 under the facts (sufficient test)"""
        from terms import ATOMS, Poly, V, coeff, subst, P, atom_poly
        if p.isconst(): return p.const() >= 0
        key = (s.ver, p)
        r = s.ncache.get(key)
        if r is not None and (r is True or r >= fuel): return r is True
        s.nb -= 1
        if s.nb < 0: return False
        r = s._nonneg(p, fuel)
        if r: s.ncache[key] = True
        elif s.nb >= 0: s.ncache[key] = fuel
        return r
    def _nonneg(s, p, fuel):
        from terms import ATOMS, Poly, V, coeff, subst, P, atom_poly
        ok = True
        cand = {}
        for m, c in p.d.items():
            if m == ():
                if c < 0: ok = False
                continue
            if c < 0: ok = False
            for a, e in m:
                at = ATOMS[a]
                if e < 0: return False
                if ok and not (e % 2 == 0 or s.atom_nonneg(at)): ok = False
                cand[a] = at
        if ok: return True
        if fuel <= 0: return False
        # eliminate, latest variable first
        for a in sorted(cand, reverse=True):
            at = cand[a]
            los = s.lb.get(a, []); his = s.ub.get(a, [])
            if at.kind == 'f' and at.args[0].startswith('byte:'): los = [P(0)] + list(los); his = list(his) + [P(byte_max(at))]
            C = {}
            lin = True
            for m, c in p.d.items():
                for x, e in m:
                    if x == a:
                        if e != 1: lin = False
                        mm = tuple(y for y in m if y[0] != a)
                        C[mm] = C.get(mm, 0) + c
            if not lin: continue
            Cp = Poly(C)
            if a in [x for m in Cp.d for x, e in m]: continue
            R = p - Cp * atom_poly(at)
            if at.kind == 'f' and at.args[0] == 'idiv':
                x, y = at.args[1]
                # y*q <= x : use when the coefficient is -k*y ; q >= 0
                if len(Cp.d) <= 3 and len(y.d) == 1:
                    from terms import monos_div
                    q, r = monos_div(Cp, y)
                    if q.d and not r.d:
                        if s.nonneg(-q, fuel - 3) and s.nonneg(R + q * x, fuel - 2): return True
                        if s.nonneg(q, fuel - 3) and s.nonneg(R + q * (x - y + 1), fuel - 2): return True
                if Cp.isconst() and Cp.const() == 1 and s.nonneg(y - 1, fuel - 3) and s.nonneg(x + R * y, fuel - 2): return True     # floor(x / y) >= c when x >= c * y
                if s.nonneg(Cp, fuel - 3):
                    if s.atom_nonneg(at) and s.nonneg(R, fuel - 2): return True
                elif s.nonneg(-Cp, fuel - 3) and s.nonneg(x, fuel - 3) and s.nonneg(y - 1, fuel - 3):
                    if s.nonneg(R + Cp * x, fuel - 2): return True
                continue
            if at.kind == 'ind':
                if s.nonneg(R, fuel - 2) and s.nonneg(R + Cp, fuel - 2): return True
                continue
            if at.kind == 'v' and at.args[0] in R.fv | Cp.fv: continue
            bounds = []
            if los and s.nonneg(Cp, fuel - 3): bounds = los
            elif his and s.nonneg(-Cp, fuel - 3): bounds = his
            seen = []
            # a huge constant asks for the constant bounds first
            if abs(p.d.get((), 0)) >= 1048576: bounds = sorted(bounds, key=lambda x: not x.isconst())
            for bd in bounds:
                bd = s.norm(bd)
                if bd in seen: continue
                seen.append(bd)
                if at.kind == 'v' and at.args[0] in bd.fv: continue
                if s.nonneg(R + Cp * bd, fuel - 1 - len(seen) // 3): return True
            if bounds and all(b.isconst() for b in bounds): 
                continue
        # shift every variable by its constant lower bound
        # (terms that contain such a variable would be rewritten under facts about the unshifted one)
        sh = {}
        inner = set()
        for at in cand.values():
            if at.kind != 'v': inner |= atom_poly(at).fv
        for a, at in cand.items():
            if at.kind != 'v' or at.args[0] in inner: continue
            ls = [l.const() for l in s.lb.get(a, ()) if l.isconst()]
            if ls and max(ls) != 0: sh[at.args[0]] = V(at.args[0]) + max(ls)
        if sh:
            q = subst(p, sh)
            for m, c in q.d.items():
                if c < 0: return False
                for a, e in m:
                    at = ATOMS[a]
                    if at.kind == 'v' and at.args[0] in sh: continue
                    if e % 2 and not s.atom_nonneg(at): return False
            return True
        return False
    # sign of a real polynomial: 1 positive, 2 nonnegative, 0 zero, -1, -2, None
    def sign(s, p, fuel=6):
        from terms import ATOMS, ge0, gt0
        if not p.d: return 0
        if p.isint():
            if s.nonneg(p - 1, 8): return 1
            if s.nonneg(p, 8): return 2
            if s.nonneg(-p - 1, 8): return -1
            if s.nonneg(-p, 8): return -2
            return None
        f = gt0(p)
        if f in s.fset: return 1
        from terms import not_
        if not_(gt0(-p)) in s.fset: return 2
        if fuel <= 0: return None
        pos = neg = zero = False
        tot = None
        for m, c in p.d.items():
            sg = 1 if c > 0 else -1
            for a, e in m:
                t = s.asign(ATOMS[a], e, fuel - 1)
                if t is None: return s.sign_fact(p, fuel)
                sg = {(1, 1): 1, (1, -1): -1, (-1, 1): -1, (-1, -1): 1}.get((1 if sg > 0 else -1, 1 if t > 0 else -1)) * (2 if (abs(sg) == 2 or abs(t) == 2) else 1)
            if tot is None: tot = sg
            elif (tot > 0) != (sg > 0): return s.sign_fact(p, fuel)
            else: tot = (1 if tot > 0 else -1) * min(abs(tot), abs(sg))
        return tot
    def sign_fact(s, p, fuel):
        from terms import ATOMS
        if fuel < 3: return None
        for f in s.facts:
            if f.k == 'gt0' and f.fv & p.fv or f.k == 'gt0' and f.a.arrs() & p.arrs():
                # p = c*f + rest, c > 0
                lead = max(f.a.d.items())
                c = p.d.get(lead[0])
                if c:
                    from fractions import Fraction
                    k = Fraction(c) / Fraction(lead[1])
                    r = s.sign(p - f.a.scale(k), 1)
                    if k > 0 and r in (0, 1, 2): return 1
                    if k < 0 and r in (0, -1, -2): return -1
        return None
    def asign(s, at, e, fuel):
        from terms import atom_poly, ge0, gt0, not_
        k = at.kind
        if k == 'ind': return 2
        if k == 'pol':
            t = s.sign(at.args[0], fuel)
            if t in (1, 2): return 1     # a denominator is not zero
            if t in (-1, -2): return 1 if e % 2 == 0 else -1
            return 1 if e % 2 == 0 else None
        if k == 'f':
            n = at.args[0]
            if n == 'exp': return 1
            if n == 'sqrt':
                if e < 0: return 1
                t = s.sign(at.args[1][0], fuel)
                return 1 if t == 1 else 2
            if n == 'idiv':
                return 2 if s.atom_nonneg(at) else None
        if k == 'v' and at.isint:
            for l in s.lb.get(at.id, ()):
                if l.isconst() and l.const() > 0: return 1
            if s.atom_nonneg(at): return 2 if e > 0 else 1
        if k in ('v', 'rd', 'fold', 'f'):
            p = atom_poly(at)
            if gt0(p) in s.fset: return 1
            if gt0(-p) in s.fset: return 1 if e % 2 == 0 else -1
            if not_(gt0(-p)) in s.fset: return 2 if e > 0 else 1
        if k == 'sum':
            from terms import open_sum
            Ns, body, vs = open_sum(at)
            with s.ranges(list(zip(vs, Ns))): t = s.sign(body, fuel - 1)
            if t == 1 and all(s.nonneg(N - 1, 6) for N in Ns): return 1
            if t in (0, 1, 2): return 2 if e > 0 else 1
        if e % 2 == 0: return 2 if e > 0 else 1
        return None
    # -- full
    def prove(s, b, timeout=None):
        b = s.norm_bool(b)
        if s.quick(b): STATS['quick'] += 1; return True
        if b.k == 'and': return all(s.prove(x, timeout) for x in b.a)
        if s.known(b) is False: return False
        k = ('z', s.ver, b)
        r = s.cache.get(k)
        if r is None:
            r = z3_valid(s.facts, b, timeout or Z3_TIMEOUT[0])
            s.cache[k] = r
        return r
    def contra(s):
        old = NB[0]; NB[0] = min(old, 150)
        try: return any(s.quick(_neg(f)) for f in s.facts[-6:])
        finally: NB[0] = old
    def infeasible(s, timeout=300):
        from terms import FALSE
        k = ('inf', s.ver)
        r = s.cache.get(k)
        if r is None and timeout < 100:
            lin = [f for f in s.facts if linear(f)]
            if len(lin) < len(s.facts):
                k = ('infl', s.ver)
                r = s.cache.get(k)
                if r is None: r = s.cache[k] = s.contra() or z3_valid(lin, FALSE, timeout)
                return r
        if r is None:
            r = s.contra() or z3_valid(s.facts, FALSE, timeout)
            s.cache[k] = r
        return r

def byte_max(at):
    """byte:MAX:FILE is a function with values in 0..MAX"""
    return int(at.args[0].split(':')[1])
def big(b):
    if b.k in ('ge0', 'gt0', 'eq0'):
        if any(abs(c) >= 1048576 for c in b.a.d.values()): return True
        from terms import ATOMS
        return any(ATOMS[a].kind == 'f' and ATOMS[a].args[0] == 'idiv' and any(abs(c) >= 1048576 for c in ATOMS[a].args[1][0].d.values()) for m in b.a.d for a, e in m)
    if b.k in ('and', 'or'): return any(big(x) for x in b.a)
    if b.k == 'not': return big(b.a)
    return False

def linear(f):
    if f.k in ('ge0', 'gt0', 'eq0'):
        return all(len(m) <= 1 and (not m or m[0][1] == 1) for m in f.a.d) and not f.a.arrs()
    if f.k in ('and', 'or'): return all(linear(x) for x in f.a)
    if f.k == 'not': return linear(f.a)
    return True

def _neg(f):
    from terms import not_
    return not_(f)

CTX = Ctx()

_z3 = None
def z3_valid(facts, b, timeout):
    global _z3
    import z3
    from terms import Unsupported
    t0 = time.time()
    STATS['z3_calls'] += 1
    try:
        rel = relevant(facts, b)
        if not big(b):
            rel = [f for f in rel if not (f.k == 'ge0' and f.a.d.get((), 0) >= 1048576)]
        lin = [f for f in rel if linear(f)]
        if b.k != 'F' and linear(b) and len(lin) < len(rel):
            tr = Z3T(z3)
            s = z3.Solver()
            s.set('rlimit', timeout * 1000)
            goal = tr.b(b)
            for f in lin: s.add(tr.b(f))
            s.add(z3.Not(goal))
            for x in tr.side: s.add(x)
            if s.check() == z3.unsat: return True
        near = [f for f in rel if f.fv <= b.fv]
        if b.k != 'F' and not linear(b) and len(b.fv) <= 4 and 0 < len(near) < len(rel):
            # products: first with the facts about the same variables only
            tr = Z3T(z3)
            s = z3.Solver()
            s.set('rlimit', timeout * 300)
            goal = tr.b(b)
            for f in near: s.add(tr.b(f))
            s.add(z3.Not(goal))
            for x in tr.side: s.add(x)
            if s.check() == z3.unsat: return True
        tr = Z3T(z3)
        s = z3.Solver()
        s.set('rlimit', timeout * 2500)
        s.set('timeout', timeout * 12)
        # only facts connected to the goal
        goal = tr.b(b)
        for f in rel: s.add(tr.b(f))
        s.add(z3.Not(goal))
        for x in tr.side: s.add(x)
        r = s.check()
        if r == z3.unknown: STATS['z3_unknown'] += 1
        if DEBUG and time.time() - t0 > 0.3: print('   slow z3 %.2f %s %s' % (time.time() - t0, r, b), [str(f) for f in rel][:40])
        return r == z3.unsat
    except z3.Z3Exception:
        return False
    finally:
        STATS['z3_time'] += time.time() - t0

def relevant(facts, b):
    if not b.fv and b.k != 'F':
        return list(facts)
    if b.k == 'F': return list(facts)
    # facts about auxiliary variables (h@...) only where the goal mentions one: leaving facts out is sound
    names = set(b.fv); rest = list(facts); out = []
    if not any(x.startswith('h@') for x in names): rest = [f for f in rest if not any(x.startswith('h@') for x in f.fv)]
    ch = True
    while ch:
        ch = False
        keep = []
        for f in rest:
            if f.fv & names or not f.fv: out.append(f); names |= f.fv; ch = ch or bool(f.fv)
            else: keep.append(f)
        rest = keep
    return out

class Z3T:
    def __init__(s, z3):
        s.z3 = z3; s.side = []; s.memo = {}; s.arr = {}
    def p(s, p, real=False):
        z3 = s.z3
        t = None
        isint = p.isint()
        for m, c in p.d.items():
            x = z3.IntVal(c) if isint else z3.RealVal(str(c))
            for a, e in m:
                y = s.atom(a)
                if not isint and y.is_int(): y = z3.ToReal(y)
                for _ in range(abs(e)):
                    x = x * y if e > 0 else x / y
            t = x if t is None else t + x
        if t is None: t = z3.IntVal(0)
        return t
    def atom(s, a):
        from terms import ATOMS
        r = s.memo.get(a)
        if r is not None: return r
        z3 = s.z3
        at = ATOMS[a]
        k = at.kind
        if k == 'ind':
            r = z3.If(s.b(at.args[0]), z3.IntVal(1), z3.IntVal(0))
        elif k == 'f' and at.args[0] == 'idiv':
            x, y = s.p(at.args[1][0]), s.p(at.args[1][1])
            q = z3.Int('q!%d' % a)
            s.side.append(z3.Implies(y > 0, z3.And(q * y <= x, x < q * y + y)))
            r = q
        elif k == 'rd':
            f = s.arr.setdefault(at.args[0], z3.Function('A!' + at.args[0], z3.IntSort(), z3.RealSort()))
            r = f(s.p(at.args[1]))
        elif k == 'pol': r = s.p(at.args[0])
        elif k == 'f' and at.args[0].startswith('byte:') and len(at.args[1]) == 1 and at.args[1][0].isint():
            f = s.arr.setdefault(at.args[0], z3.Function('B!' + at.args[0], z3.IntSort(), z3.IntSort()))
            r = f(s.p(at.args[1][0]))
            s.side.append(z3.And(r >= 0, r <= byte_max(at)))
        else:
            r = z3.Int('a!%d' % a) if at.isint else z3.Real('a!%d' % a)
            if k == 'f' and at.args[0] == 'exp': s.side.append(r > 0)
            if k == 'f' and at.args[0] == 'sqrt': s.side.append(r >= 0)
        s.memo[a] = r
        return r
    def b(s, b):
        z3 = s.z3
        k = b.k
        if k == 'T': return z3.BoolVal(True)
        if k == 'F': return z3.BoolVal(False)
        if k == 'ge0': return s.p(b.a) >= 0
        if k == 'gt0': return s.p(b.a) > 0
        if k == 'eq0': return s.p(b.a) == 0
        if k == 'and': return z3.And(*[s.b(x) for x in b.a])
        if k == 'or': return z3.Or(*[s.b(x) for x in b.a])
        if k == 'not': return z3.Not(s.b(b.a))
        if k == 'bv': return z3.Bool(b.a)
        raise ValueError(k)

# ---------------------------------------------------------------- equality
def prove_eq(a, b, depth=0, budget=None):
    """True if a == b is proved under the facts in force"""
    from terms import (P, ATOMS, Poly, ONE, ZERO, subst, open_sum, mk_sum, ind, not_, atom_poly, V, eq0, gt0)
    if budget is None: budget = [200]
    budget[0] -= 1
    if budget[0] < 0: return False
    a = CTX.norm(P(a)); b = CTX.norm(P(b))
    D = a - b
    if not D.d: return True
    D = resimplify(D)
    if not D.d: return True
    # clear denominators
    D2 = clear_denominators(D)
    if D2 is not D:
        D = resimplify(D2)
        if not D.d: return True
    if CTX.infeasible(): return True
    D = recombine(D)
    if not D.d: return True
    # pointwise: merge sums with equal ranges and equal cofactors
    D3 = merge_sums(D, depth, budget)
    if D3 is not None:
        D = D3
        if not D.d: return True
    # case split on an indicator
    for m in sorted(D.d, key=len):
        for at_, e in m:
            at = ATOMS[at_]
            if at.kind == 'ind':
                c = at.args[0]
                if depth > 10: return False
                for br in (c, not_(c)):
                    with CTX.assume(br):
                        if CTX.infeasible(): continue
                        if not prove_eq(D, ZERO, depth + 1, budget): return False
                return True
    # idiv atoms or equal reads at provably equal indices
    D4 = unify_reads(D)
    if D4 is not None:
        return prove_eq(D4, ZERO, depth + 1, budget)
    if D.isint(): return CTX.prove(eq0(D))
    return False

def resimplify(p):
    """re-evaluate every indicator under the facts in force"""
    from terms import ATOMS, Poly, ONE, ZERO, ind, P, simplify_fold
    res = ZERO
    ch = False
    for m, c in p.d.items():
        t = None
        keep = []
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'ind':
                k = CTX.known(at.args[0])
                if k is True: t = t or ONE; continue
                if k is False: t = ZERO; break
            elif at.kind == 'fold':
                f = simplify_fold(at)
                if f is not None: t = (t or ONE) * f ** e; continue
            keep.append((a, e))
        if t is ZERO: ch = True; continue
        if t is not None: ch = True
        x = Poly({tuple(keep): c})
        res = res + (x * t if t is not None else x)
    return res if ch else p

def clear_denominators(D):
    from terms import ATOMS, Poly, atom_poly
    neg = {}
    for m in D.d:
        for a, e in m:
            if e < 0: neg[a] = min(neg.get(a, 0), e)
    if not neg: return D
    for a, e in neg.items():
        at = ATOMS[a]
        base = at.args[0] if at.kind == 'pol' else atom_poly(at)
        # multiply each monomial by base^(-e): cancel exactly where possible
        from terms import ZERO
        r = ZERO
        for m, c in D.d.items():
            dm = dict(m)
            x = dm.pop(a, 0) - e
            t = Poly({tuple(sorted(dm.items())): c})
            r = r + (t * base ** x if x else t)
        D = r
    return D

def recombine(D):
    """add up sums over the same range that are multiplied by the same factor"""
    from terms import ATOMS, Poly, mk_sum, ZERO, V, subst, fresh, varname
    for _ in range(4):
        groups = {}
        for m, c in D.d.items():
            for a, e in m:
                if ATOMS[a].kind == 'sum' and e == 1:
                    rest = tuple(x for x in m if x[0] != a)
                    groups.setdefault((rest, ATOMS[a].args[0]), []).append((a, c, m))
        ch = False
        for (rest, Ns), lst in groups.items():
            if len(lst) < 2 or any(m not in D.d for a, c, m in lst): continue
            vs = [fresh('u') for _ in Ns]
            tot = ZERO
            rng = [(varname(v), N) for v, N in zip(vs, Ns)]
            with CTX.ranges(rng):
                for a, c, m in lst:
                    at = ATOMS[a]
                    tot = tot + subst(at.args[1], {'$%d.%d' % (at.depth, i): v for i, v in enumerate(vs)}).scale(c)
            new = mk_sum(rng, tot)
            if rest: new = new * Poly({rest: 1})
            old = ZERO
            for a, c, m in lst: old = old + Poly({m: D.d[m]})
            if new != old:
                D = D - old + new; ch = True
        if not ch: break
    return D

def merge_sums(D, depth, budget):
    from terms import ATOMS, Poly, open_sum, ZERO, mk_sum, atom_poly, V, subst, fresh, varname
    import itertools
    groups = {}
    for m, c in D.d.items():
        sums = [(a, e) for a, e in m if ATOMS[a].kind == 'sum' and e == 1]
        for a, e in sums:
            rest = tuple(x for x in m if x[0] != a)
            groups.setdefault((rest, ATOMS[a].args[0]), []).append((a, c))
    for (rest, Ns), lst in groups.items():
        if len(lst) < 1: continue
        vs = [fresh('u') for _ in Ns]
        names = [varname(v) for v in vs]
        bodies = []
        for a, c in lst:
            at = ATOMS[a]
            opts = []
            idx = list(range(len(Ns)))
            perms = [q for q in itertools.permutations(idx) if all(Ns[q[i]] == Ns[i] for i in idx)]
            for q in perms[:6]:
                ren = {'$%d.%d' % (at.depth, i): vs[q[i]] for i in idx}
                opts.append((subst(at.args[1], ren), c))
            bodies.append(opts)
        n = 1
        for o in bodies[1:]: n *= len(o)
        if n > 48: continue
        for combo in itertools.product([bodies[0][0]], *bodies[1:]):
            tot = ZERO
            for bd, c in combo: tot = tot + bd.scale(c)
            with CTX.ranges(list(zip(names, Ns))):
                if prove_eq(tot, ZERO, depth + 3, budget):
                    out = D
                    for a, c in lst:
                        mm = tuple(sorted(rest + ((a, 1),)))
                        out = out - Poly({mm: c})
                    if not out.d: return out
                    r = merge_sums(out, depth, budget)
                    return r if r is not None else out
    return None

def unify_reads(D):
    """replace atoms by provably equal ones (reads at equal indices, equal function arguments)"""
    from terms import ATOMS, Poly, ZERO, eq0, atom_poly
    ats = []
    for m in D.d:
        for a, e in m:
            at = ATOMS[a]
            if at.kind in ('rd', 'f') and at not in ats: ats.append(at)
    for i in range(len(ats)):
        for j in range(i):
            x, y = ats[i], ats[j]
            if x.kind != y.kind or x.args[0] != y.args[0]: continue
            if x.kind == 'rd': prs = [(x.args[1], y.args[1])]
            else:
                if len(x.args[1]) != len(y.args[1]): continue
                prs = list(zip(x.args[1], y.args[1]))
            if all(p == q or (p.isint() and q.isint() and CTX.prove(eq0(p - q), 500)) or (not p.isint() and p.depth() + q.depth() == 0 and prove_eq(p, q, 6, [20])) for p, q in prs):
                r = ZERO
                for m, c in D.d.items():
                    d = dict(m)
                    if x.id in d:
                        e = d.pop(x.id); d[y.id] = d.get(y.id, 0) + e
                        from terms import _fix
                        f = _fix(d)
                        r = r + (Poly({f: c}) if f.__class__ is tuple else f.scale(c))
                    else: r = r + Poly({m: c})
                return r
    return None
