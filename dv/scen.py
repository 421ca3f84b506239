"""Scenarios: a contract of a library entry point, checked on every path.

A scenario builds arbitrary (symbolic) arguments with the library's own
constructors, calls the code under verification through the machine and states
what must hold afterwards.  Each statement is one obligation.
"""
import itertools, random, math, time, zlib, mpmath
from terms import *
from terms import _barrs, atom_poly, ATOMS
import terms
from prover import CTX, prove_eq, STATS
from interp import *
from interp import next_id
from machine import Machine

INT_MAX = 2 ** 31 - 1
CLIP = 400

class Oblig:
    def __init__(s, name): s.name = name; s.proved = 0; s.refuted = []; s.open = []; s.time = 0.0

class Failed(Exception): pass

class Run:
    def __init__(s, prog, seed=1, tier='quick', deadline=None):
        s.prog = prog; s.obl = {}; s.unsupported = []; s.visited = {}; s.rng = random.Random(seed); s.paths = 0; s.seed = seed
        s.tier = tier; s.deadline = deadline; s.scen = []; s.acc = 0; s.loops = 0; s.trace = False; s.used = set(); s.stateful = set()
    def ob(s, name): return s.obl.setdefault(name, Oblig(name))
    def scenario(s, name, fn, budget=60.0, after=None):
        t0 = time.time()
        mk = CTX.mark()
        m = Machine(s.prog)
        m.trace = s.trace
        m.deadline = t0 + budget
        if s.deadline is not None: m.deadline = min(m.deadline, s.deadline)
        n0 = len(s.unsupported)
        sn = {k: (v.proved, len(v.refuted), len(v.open)) for k, v in s.obl.items()}
        npaths = 0
        try:
            if m.deadline <= t0: raise Unsupported('time limit')
            if after: res = m.explore(lambda: s.one(m, '%s, after %s' % (name, after[0]), fn, after[1]), limit=3000)
            else: res = m.explore(lambda: s.one(m, name, fn), limit=3000)
            npaths = len(res)
            if m.kept and not after:
                # the code keeps state between calls: the same contract after one earlier, unrelated call
                s.stateful |= m.kept
                t0 = time.time(); m.deadline = t0 + budget
                if s.deadline is not None: m.deadline = min(m.deadline, s.deadline)
                res = m.explore(lambda: s.one(m, name + ', called again', fn, fn), limit=3000)
                npaths += len(res)
            s.paths += npaths
        except Unsupported as e:
            s.unsupported.append((name, str(e)))
            if s.trace: import traceback; traceback.print_exc()
        except RecursionError:
            s.unsupported.append((name, 'recursion limit'))
        except (KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError, ZeroDivisionError) as e:
            # the engine met code it does not understand
            s.unsupported.append((name, 'engine: %s: %s' % (type(e).__name__, e)))
            if s.trace: import traceback; traceback.print_exc()
        finally:
            CTX.reset(mk)
            CTX.cache.clear(); CTX.ncache.clear()
        for k, c in m.visited.items(): s.visited[k] = s.visited.get(k, 0) + c
        s.used |= m.used
        s.acc += m.access_ok; s.loops += m.loops_done
        s.scen.append((name, npaths, time.time() - t0, len(s.unsupported) == n0))
    def one(s, m, name, fn, before=None):
        c = Case(s, m, name)
        terms._cnt[0] = 0
        CTX.add(ge(V('INF', False), P(10) ** 39)); 
        m.rng_addr = m.new(ZERO)
        if before:
            try: before(Warm(s, m, name))
            except CppThrow: pass
            except (Failed, Undefined): raise Infeasible()      # judged where it is the call under verification
            m.hooks.clear()
        try:
            fn(c)
        except CppThrow as e:
            c.refute('no exception', 'throws std::%s' % e.ty)
        except Undefined as e:
            c.refute('no undefined behaviour', e.what)
        except Failed: pass

class Case:
    def __init__(s, run, m, name): s.run = run; s.m = m; s.name = name; s.arrays = {}
    # ---------------------------------------------------------- arguments
    def dims(s, base, r, lo=1):
        out = []
        for i in range(r):
            v = V('%s%d' % (base, i))
            CTX.add(ge0(v - lo))
            out.append(v)
        s.bound(out)
        return out
    def bound(s, dims):
        """the number of elements fits an int (every prefix and suffix product)"""
        for rev in (False, True):
            p = ONE
            for d in (reversed(dims) if rev else dims):
                p = p * d
                CTX.add(ge0(P(INT_MAX) - p))
    def var(s, name, lo=None, hi=None, isint=True):
        v = V(name, isint)
        if lo is not None: CTX.add(ge0(v - lo))
        if hi is not None: CTX.add(ge0(P(hi) - v))
        return v
    def quotient(s, a, b, q):
        """q stands for floor(a / b), b > 0"""
        a, b = CTX.norm(P(a)), CTX.norm(P(b))
        p = fn('idiv', a, b)
        if len(p.d) != 1: raise Unsupported('quotient')
        CTX.names[(a, b)] = q
        CTX.undo.append(lambda: CTX.names.pop((a, b), None))
        CTX.add(ge0(a - b * q)); CTX.add(ge0(b * q + b - 1 - a))
    def fact(s, b):
        CTX.add(B(b))
        if CTX.infeasible(): raise Infeasible()
    def choose(s, b): return s.m.choose(b, True)
    def instantiate(s, *vals):
        """sums of nonnegative terms with total 0 have only terms that are 0: take them at the given positions"""
        done = set()
        for _ in range(3):
            new = []
            for f in list(CTX.facts):
                if f in done or f.k != 'eq0': continue
                done.add(f)
                g = s.one_sum(f.a)
                if g is None: continue
                N, v, body = g
                with CTX.ranges([(v, N)]):
                    if CTX.sign(body) not in (0, 1, 2) and not CTX.prove(ge0(body), 2000) and not CTX.prove(ge0(-body), 2000): continue
                for x in vals:
                    x = P(x)
                    if CTX.prove(ge0(x)) and CTX.prove(ge0(N - 1 - x)): new.append(s.settle(CTX.norm(subst(body, {v: x}))))
            if not new: return
            if s.m.trace:
                for f in new: print('  instance', f)
            for f in new: CTX.add(f)
    def settle(s, p):
        """p == 0; for one indicator this is its condition or the negation"""
        at = [a for m in p.d for a, e in m]
        if len(set(at)) == 1 and ATOMS[at[0]].kind == 'ind':
            x = Poly({((at[0], 1),): 1}); k = p.d[((at[0], 1),)] if ((at[0], 1),) in p.d else None
            if k is not None:
                if p == x * k: return not_(ATOMS[at[0]].args[0])
                if p == x * k - k: return ATOMS[at[0]].args[0]
        return eq0(p)
    def one_sum(s, p):
        """p as one sum over a range: (length, variable, body), if it is a combination of sums of the same range and a multiple of its length"""
        N = None; v = None; body = ZERO; rest = ZERO
        for m, k in p.d.items():
            sm = [a for a, e in m if e == 1 and ATOMS[a].kind == 'sum']
            c = Poly({m: k})
            if len(sm) == 1:
                Ns, b, vs = open_sum(ATOMS[sm[0]])
                if len(Ns) == 1 and (N is None or CTX.norm(Ns[0] - N) == ZERO):
                    if N is None: N, v = Ns[0], vs[0]
                    body = body + Poly({tuple(x for x in m if x[0] != sm[0]): k}) * subst(b, {vs[0]: V(v)})
                    continue
            rest = rest + c
        if N is None: return None
        if rest != ZERO:
            ms = [m for m in N.d if m and m in rest.d]
            if not ms: return None
            c = rest.d[ms[0]] * Fraction(1) / N.d[ms[0]]
            if CTX.norm(rest - N * c) != ZERO: return None
            body = body + c
        return N, v, body
    def intvec(s, vals, et='int'):
        return s.m.new(Vec([s.m.new(P(v)) for v in vals], et))
    def boxed(s, v): return s.m.new(v)
    def objvec(s, addrs, et):
        return s.m.new(Vec(list(addrs), et))
    def shape(s, dims):
        return s.m.construct('Shape', [s.intvec(dims)], 'void (std::vector<int>)')
    def tensor(s, name, dims, fixed=False):
        """an arbitrary tensor of the given shape"""
        sh = s.shape(dims)
        t = s.m.construct('Tensor', [sh], None)
        if name is not None: s.fill(t, name)
        return t
    def data_ptr(s, t):
        d = s.m.call('Tensor', 'getData', t, [])
        p = s.m.call('TensorData', 'data', d, [])
        if not isinstance(p, Ptr): raise Unsupported('data pointer')
        return p
    def fill(s, t, name):
        p = s.data_ptr(t)
        b = s.m.mem[p.base]
        if not isinstance(b, Buf): raise Unsupported('tensor storage')
        s.m.put(p.base, Buf(('arr', name), (), b.n, b.isint, b.isvec))
        s.arrays[name] = t
        return t
    def fill_fun(s, t, f):
        p = s.data_ptr(t)
        b = s.m.mem[p.base]
        s.m.put(p.base, Buf(('fun', f), (), b.n, b.isint, b.isvec))
    # ---------------------------------------------------------- observation
    def shape_of(s, t):
        sh = s.m.call('Tensor', 'getShape', t, [])
        return s.dims_of(sh)
    def dims_of(s, sh):
        if isinstance(sh, Ptr): sh = sh.base
        d = s.m.call('Shape', 'getDimensions', sh, [])
        v = s.m.load(d)
        if not isinstance(v, Vec): raise Unsupported('dimension list')
        return [s.m.mem[e] for e in v.e]
    def size_of(s, t):
        sh = s.m.call('Tensor', 'getShape', t, [])
        return s.m.call('Shape', 'size', sh, [])
    def strides_of(s, sh):
        d = s.m.call('Shape', 'getStride', sh, [])
        v = s.m.load(d)
        return [s.m.mem[e] for e in v.e]
    def at(s, t, q, dims):
        """element at multi-index q (in range), in row-major order"""
        p = s.data_ptr(t)
        b = s.m.mem[p.base]
        f = flat(q, dims)
        return s.m.buf_read(b, p.off + f)
    def index(s, dims, base='q'):
        q = []
        for i, d in enumerate(dims):
            if CTX.norm(P(d)) == ONE: q.append(ZERO); continue
            v = V('%s%d' % (base, i))
            CTX.add(ge0(v)); CTX.add(ge0(d - 1 - v))
            q.append(v)
        return q
    def objget(s, a):
        """address of an object from a call result"""
        if isinstance(a, Ptr): return a.base
        return a
    # ---------------------------------------------------------- obligations
    def full(s, what): return '%s: %s' % (s.name, what)
    def eq(s, what, a, b):
        o = s.run.ob(s.full(what))
        t0 = time.time()
        a = P(a) if not isinstance(a, Poly) else a
        b = P(b) if not isinstance(b, Poly) else b
        try:
            ok = prove_eq(a, b)
        finally: o.time += time.time() - t0
        if ok: o.proved += 1; return True
        c = s.search(lambda env: differ(ev(a, env), ev(b, env)), [a, b])
        if c is not None:
            o.refuted.append('%s; code gives %s, contract says %s' % (c[0], short(ev(a, c[1])), short(ev(b, c[1]))))
            s.keep(o, c)
        else: o.open.append('%s =?= %s' % (clip(a), clip(b)))
        return False
    def holds(s, what, b):
        o = s.run.ob(s.full(what))
        b = B(b)
        t0 = time.time()
        ok = CTX.prove(b)
        o.time += time.time() - t0
        if ok: o.proved += 1; return True
        c = s.search(lambda env: not evb(b, env), [b])
        if c is not None: o.refuted.append(c[0]); s.keep(o, c)
        else: o.open.append(clip(b))
        return False
    def keep(s, o, c):
        o.values = c[2]
    def refute(s, what, detail):
        """this path must not exist"""
        o = s.run.ob(s.full(what))
        if CTX.infeasible(): o.proved += 1; return
        c = s.search(lambda env: True, [])
        if c is not None: o.refuted.append('%s: %s' % (detail, c[0])); s.keep(o, c)
        else: o.open.append('%s on a path that was not refuted: %s' % (detail, [clip(x) for x in CTX.facts[-4:]]))
    def check(s, what, cond, detail=''):
        """a fact about the concrete structure of the result"""
        if cond: s.run.ob(s.full(what)).proved += 1; return True
        s.refute(what, detail or 'structure differs')
        return False
    def shape_is(s, what, got, want):
        if not s.check(what + ' rank', len(got) == len(want), 'rank %d instead of %d' % (len(got), len(want))): raise Failed()
        ok = True
        for i, (g, w) in enumerate(zip(got, want)): ok = s.eq('%s dimension %d' % (what, i), g, w) and ok
        if not ok: raise Failed()
    def tensor_is(s, what, t, dims, f, base='q'):
        """t has these dimensions and f(q) at every index q"""
        s.shape_is(what + ' shape', s.shape_of(t), dims)
        s.eq(what + ' size', s.size_of(t), prod(dims))
        q = s.index(dims, base + str(next_id()) + '_')
        # constant dimensions index by index
        cs = [i for i, d in enumerate(dims) if P(d).isconst() and P(d).const() > 1]
        n = 1
        for i in cs: n *= P(dims[i]).const()
        if cs and n <= 16:
            for v in itertools.product(*[range(P(dims[i]).const()) for i in cs]):
                r = list(q)
                for i, x in zip(cs, v): r[i] = P(x)
                s.eq(what + ' element', s.at(t, r, dims), f(r))
            return
        s.eq(what + ' element', s.at(t, q, dims), f(q))
    def unchanged(s, what, t, name, dims):
        s.tensor_is(what, t, dims, lambda q: rd(name, flat(q, dims)))
    def throws(s, what, fn, types=None):
        try: fn()
        except CppThrow as e:
            s.run.ob(s.full(what)).proved += 1
            return e
        except Undefined as e:
            s.refute(what, 'undefined behaviour (%s) instead of an exception' % e.what); raise Failed()
        s.refute(what, 'no exception')
        raise Failed()
    ANYMODE = {'ActivationLayer', 'FullyConnectedLayer', 'Conv2DLayer', 'MaxPooling2DLayer', 'FlattenLayer'}
    def call(s, cls, name, this, args, sig=None):
        # what these layers do must not depend on the mode: each pass runs in an arbitrary one
        if cls in s.ANYMODE and name in ('forward', 'backward', 'updateWeights'):
            s.nmode = getattr(s, 'nmode', 0) + 1
            s.m.call(cls, 'setTrainingMode', this, [boolvar('mode%d' % s.nmode)])
        return s.m.call(cls, name, this, args, sig)
    # ---------------------------------------------------------- refutation
    def search(s, test, terms_, tries=None):
        """an assignment that satisfies every fact and makes test true"""
        facts = list(CTX.facts)
        fv = set(); arrs = set()
        for f in facts: fv |= f.fv; arrs |= _barrs(f)
        for t in terms_:
            fv |= t.fv
            arrs |= t.arrs() if isinstance(t, Poly) else _barrs(t)
        if any(v.startswith('unk#') or v.startswith('hb#') for v in fv) or any(a.startswith('unk#') or a.startswith('H#') for a in arrs): return None
        rng = random.Random(s.run.seed * 7919 + len(facts))
        bvs = set()
        def bools(b):
            if b.k == 'bv': bvs.add(b.a)
            elif b.k in ('and', 'or'):
                for x in b.a: bools(x)
            elif b.k == 'not': bools(b.a)
        for f in facts: bools(f)
        for t in terms_:
            if isinstance(t, Bool): bools(t)
        names = sorted(v for v in fv if v not in bvs)
        real = set()
        for f in facts: reals(f, real)
        for t in terms_: reals(t, real)
        facts.sort(key=lambda f: len(f.fv) + (100 if _barrs(f) else 0))
        models = s.models(facts, [n for n in names if n not in real], rng)
        t0 = time.time()
        cap = tries or 600
        for k in range(cap):
            if time.time() - t0 > 12: return None
            mode = k % 3
            seed = rng.getrandbits(30)
            vs = {}
            if models and k % 2 == 0:
                vs.update(models[(k // 2) % len(models)])
            hi = rng.choice((1, 2, 2, 3, 3, 4, 6))
            for n in names:
                if n in vs: continue
                if n == 'INF': vs[n] = math.inf
                elif n == 'FLT_MAX': vs[n] = 3.4e38
                elif n == 'FLT_MIN': vs[n] = 1.2e-38
                elif n in real: vs[n] = rng.choice((0.0, 0.5, 1.0, rng.random(), rng.random() * 3 - 1.5, rng.random() * 3 - 1.5))
                else: vs[n] = rng.choice((0, 1, 1, 2, 2, 3, rng.randint(0, hi)))
            # ranges: index variables under their limits
            fixups(vs, facts, rng, set(names) - real, models and k % 2 == 0)
            def arr(name, idx, seed=seed, mode=mode):
                h = zlib.crc32(repr((name, idx, seed)).encode()) / 2 ** 32
                if name == 'U01': return h
                if name.startswith('fn:byte:'): return int(h * (min(12, 1 + int(name.split(':')[2])) if mode == 0 else 1 + int(name.split(':')[2])))
                if name.startswith('el:') or name.startswith('fn:el:'): return int(h * 256)
                if name == 'fn:tanh': return math.tanh(idx[0])
                if name.startswith('fn:bit') and len(idx) == 2:
                    x, y = int(idx[0]), int(idx[1]); return {'|': x | y, '&': x & y, '^': x ^ y}.get(name[6:], h)
                if name.startswith('fn:'):
                    g = {'cos': math.cos, 'sin': math.sin, 'log1p': math.log1p, 'expm1': math.expm1, 'floor': math.floor, 'ceil': math.ceil}.get(name[3:])
                    return g(idx[0]) if g else h
                if mode == 0: return (int(h * 7) - 3) / 1.0
                if mode == 1: return h * 4 - 2
                return h * 2 + 0.1
            env = Env(dict(vs), arr, {b: rng.random() < 0.5 for b in bvs})
            try:
                if all(evb(f, env) for f in facts) and test(env):
                    if real or arrs:
                        # the difference must not be cancellation
                        env.hp = True; env.budget = 400000
                        with mpmath.workdps(80): ok = all(evb(f, env) for f in facts) and test(env)
                        env.hp = False; env.budget = 400000
                        if not ok: continue
                    keep = {n: v for n, v in vs.items() if n not in ('INF', 'FLT_MAX', 'FLT_MIN')}
                    return '; '.join('%s=%s' % (n, short(v)) for n, v in sorted(keep.items())), env, keep
            except (ZeroDivisionError, OverflowError, ValueError, KeyError, Unsupported, TypeError): continue
        return None
    def models(s, facts, names, rng, n=6):
        """integer solutions of the facts that speak about integers only"""
        import z3
        from prover import Z3T
        out = []
        try:
            tr = Z3T(z3)
            so = z3.Solver(); so.set('rlimit', 3000000); so.set('timeout', 4000)
            nm = set(names)
            for f in facts:
                if f.fv and f.fv <= nm and not _barrs(f): so.add(tr.b(f))
            for x in tr.side: so.add(x)
            av = {v: tr.atom(next(iter(V(v).d))[0][0]) for v in names}
            for k in range(n):
                so.push()
                for v in names:
                    if rng.random() < 0.5 and k: so.push(); so.add(av[v] == rng.randint(1, 4)); 
                    if k and so.check() != z3.sat: so.pop()
                if so.check() == z3.sat:
                    m = so.model()
                    out.append({v: m.eval(av[v], model_completion=True).as_long() for v in names})
                while so.num_scopes() > 0: so.pop()
                if k == 0 and not out: break
        except Exception: return out
        return [m for m in out if all(abs(x) < 200 for x in m.values())] or []

class Warm(Case):
    """the same calls on other arguments; nothing is claimed about them"""
    def n(s, x): return 'w' + x
    def dims(s, base, r, lo=1): return Case.dims(s, s.n(base), r, lo)
    def var(s, name, lo=None, hi=None, isint=True): return Case.var(s, s.n(name), lo, hi, isint)
    def quotient(s, a, b, q): return Case.quotient(s, a, b, q)
    def tensor(s, name, dims, fixed=False): return Case.tensor(s, None if name is None else s.n(name), dims, fixed)
    def fill(s, t, name): return Case.fill(s, t, name if name.startswith('w') else s.n(name))
    def eq(s, *a): return True
    def holds(s, *a): return True
    def check(s, what, cond, detail=''):
        if not cond: raise Failed()
        return True
    def refute(s, what, detail): raise Failed()
    def shape_is(s, what, got, want): pass
    def tensor_is(s, *a, **k): pass
    def unchanged(s, *a): pass
    def instantiate(s, *a): pass
    def throws(s, what, fn, types=None):
        try: fn()
        except CppThrow as e: return e
        raise Failed()

def fixups(vs, facts, rng, ints, modeled):
    """push integer variables into simple bounds lo <= v and v <= hi"""
    if modeled: return
    env = Env(vs, lambda a, i: 0.5)
    for rnd in range(3):
        ch = False
        for f in facts:
            if f.k not in ('ge0', 'eq0') or len(f.fv) > 4 or _barrs(f): continue
            try:
                x = ev(f.a, env)
            except Exception: continue
            if (f.k == 'ge0' and x >= 0) or (f.k == 'eq0' and x == 0): continue
            cand = [v for v in f.fv if v in ints]
            if not cand: continue
            v = max(cand)
            c = coeff(f.a, v)
            if c is None or not c.isconst() or c.const() not in (1, -1): continue
            vs[v] = vs[v] - x * c.const(); ch = True
        if not ch: return

def reals(t, out):
    seen = set()
    def pol(p):
        for m in p.d:
            for a, e in m: at(a)
    def at(a):
        if a in seen: return
        seen.add(a)
        A = ATOMS[a]
        if A.kind == 'v':
            if not A.isint: out.add(A.args[0])
        elif A.kind == 'ind': bo(A.args[0])
        elif A.kind == 'rd': pol(A.args[1])
        elif A.kind == 'pol': pol(A.args[0])
        elif A.kind == 'f':
            for x in A.args[1]: pol(x)
        elif A.kind == 'sum':
            for x in A.args[0]: pol(x)
            pol(A.args[1])
        elif A.kind == 'fold':
            for x in A.args[2]: pol(x)
            bo(A.args[3]); pol(A.args[4])
    def bo(b):
        if b.k in ('ge0', 'gt0', 'eq0'): pol(b.a)
        elif b.k in ('and', 'or'):
            for x in b.a: bo(x)
        elif b.k == 'not': bo(b.a)
    bo(t) if isinstance(t, Bool) else pol(t)

def differ(x, y):
    if isinstance(x, int) and isinstance(y, int): return x != y
    x = float(x); y = float(y)
    if math.isnan(x) or math.isnan(y): return False
    if x == y: return False
    if math.isinf(x) or math.isinf(y): return True
    return abs(x - y) > 1e-6 * (1 + abs(x) + abs(y))
def short(v): return '%.6g' % v if isinstance(v, float) else str(v)
def clip(x):
    t = str(x)
    return t if len(t) < CLIP else t[:CLIP] + '...'
def prod(ds):
    r = ONE
    for d in ds: r = r * d
    return r
def flat(q, dims):
    """row-major position, written out as the sum of index times stride"""
    r = ZERO; st = ONE
    for x, d in zip(reversed(q), reversed(dims)):
        r = r + P(x) * st; st = st * d
    return r
