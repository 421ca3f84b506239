"""Contracts of the standard library functions the code under verification calls.

Each entry is the (trusted) meaning of a std:: function on the machine's values;
algorithms over ranges run as loops of the machine, so they are summarised like
hand-written loops.
"""
from fractions import Fraction
from terms import *
from prover import CTX
from astload import qt, unqual, clsname, targs
from interp import *
from interp import next_id

MATH = {'exp': 'exp', 'expf': 'exp', 'log': 'log', 'logf': 'log', 'sqrt': 'sqrt', 'sqrtf': 'sqrt', 'tanh': 'tanh', 'tanhf': 'tanh',
        'cos': 'cos', 'sin': 'sin', 'log1p': 'log1p', 'expm1': 'expm1', 'floor': 'floor', 'ceil': 'ceil', 'round': 'round'}
EXC = {'invalid_argument', 'out_of_range', 'runtime_error', 'logic_error', 'overflow_error', 'domain_error', 'length_error', 'range_error', 'underflow_error', 'exception', 'bad_alloc', 'ios_base::failure', 'bad_optional_access'}
NAMES = set(MATH) | set('''abs fabs max min copy copy_n copy_backward move forward fill fill_n transform equal find find_if any_of all_of none_of
 accumulate reduce inner_product max_element min_element sort stable_sort swap reverse iota make_shared make_unique infinity lowest epsilon
 get pow ref cref to_string move_backward for_each generate generate_n distance advance next prev begin end size clamp make_pair make_tuple tie
 exchange isnan isinf isfinite signbit fmax fmin fabsf getline data cbegin cend __assert_fail count count_if adjacent_find iter_swap
 minmax_element lower_bound upper_bound unique remove remove_if rotate partial_sum adjacent_difference operator== operator!= operator< addressof memcpy memset'''.split())

class Std:
    def stdnames(s): return NAMES
    # ------------------------------------------------------------ helpers
    def v(s, a):
        return s.load(a) if isinstance(a, (int, Elem)) else a
    def scalar(s, a):
        x = s.v(a)
        return x
    def is_class_elem(s, p):
        b = s.mem.get(p.base)
        if isinstance(b, Vec) and b.e: return not isinstance(s.mem[b.e[0]], (Poly, Bool))
        return False
    def rng_loop(s, key, body, n):
        """run body(i) for i = 0..n-1 as a loop"""
        i = s.new(ZERO)
        def cond(): return lt(s.mem[i], n)
        def step(): s.put(i, s.mem[i] + 1)
        s.loop(key, cond, lambda: body(s.mem[i]), step)
    def it_get(s, c):
        """dereference an iterator held in cell c"""
        v = s.mem[c]
        if isinstance(v, Ptr): return s.deref_obj(v)
        if isinstance(v, Obj): return s.call(v.cls, 'operator*', c, [])
        raise Unsupported('iterator %r' % (v,))
    def it_inc(s, c):
        v = s.mem[c]
        if isinstance(v, Ptr): s.put(c, Ptr(v.base, v.off + 1))
        elif isinstance(v, Obj):
            if v.cls == '$reverse':
                p = v.f['p']; q = s.mem[p]; s.put(p, Ptr(q.base, q.off - 1)); return
            f = [g for g in s.prog.method(v.cls, 'operator++') if not g.params and g.body is not None]
            if not f: raise Unsupported('iterator increment')
            s.invoke(f[0], c, [])
        else: raise Unsupported('iterator %r' % (v,))
    def it_ne(s, a, b):
        x, y = s.mem[a], s.mem[b]
        if isinstance(x, Ptr) and isinstance(y, Ptr): return s.ptrop('!=', x, y)
        if isinstance(x, Obj):
            f = [g for g in s.prog.method(x.cls, 'operator!=') if g.body is not None]
            if f: return B(s.invoke(f[0], a, [b]))
            f = [g for g in s.prog.method(x.cls, 'operator==') if g.body is not None]
            if f: return not_(B(s.invoke(f[0], a, [b])))
        raise Unsupported('iterator comparison')
    def cell(s, a):
        """a private copy of an iterator argument"""
        if isinstance(a, (Poly, Bool, Ptr, Lam)): c = s.new(a)
        else:
            x = s.load(a)
            if isinstance(x, Obj): return s.copy_of(a)
            c = s.new(x)
        s.temps.append(c)
        return c
    def itres(s, c):
        v = s.mem[c]
        return v if isinstance(v, Ptr) else c
    def fnarg(s, a):
        x = s.v(a)
        if isinstance(x, Ptr) and x.base is not None: x = s.mem[x.base]
        if isinstance(x, Obj): # user functor
            o = a if isinstance(a, int) else s.new(x)
            return Lam(None, None, None, ('py', lambda m, *r: m.call(x.cls, 'operator()', o, list(r))))
        return x
    def put_elem(s, c, val):
        """*it = val"""
        lv = s.it_get(c)
        if isinstance(val, (int, Elem)):
            x = s.load(val)
            if isinstance(x, (Poly, Bool, Ptr)): val = x
            else:
                s.assign(lv, val); return
        s.store(lv, s.num(val) if isinstance(val, Bool) and not isinstance(s.peek(lv), Bool) else val)
    def peek(s, lv):
        try:
            b = s.mem[lv.base] if isinstance(lv, Elem) else None
            return s.mem[lv] if b is None else None
        except KeyError: return None
    # ------------------------------------------------------------ free functions
    def std_call(s, name, vals, args, n, cal):
        key = ('std', name, n['id'] if n is not None else id(cal))
        if vals is None:
            vals = [s.arg(x) for x in args if x.get('kind') != 'CXXDefaultArgExpr' or x.get('inner')]
        t = qt(n) if n is not None else ''
        if name in MATH and len(vals) == 1:
            return fn(MATH[name], s.num(s.v(vals[0])), isint=False)
        m = getattr(s, 'sf_' + name, None)
        if m is None:
            if name and name.startswith('operator'):
                return s.std_operator(name[8:], vals[0], s.v(vals[0]), None, n, None)
            raise Unsupported('call of %s' % name)
        k = len(s.temps)
        r = m(vals, key, n, t, cal)
        for c in s.temps[k:]:
            # iterators of the algorithm do not outlive it
            if not (isinstance(r, int) and r == c): s.mem.pop(c, None)
        del s.temps[k:]
        return r
    temps = []
    def sf___assert_fail(s, v, key, n, t, cal): raise Undefined('assertion failed')
    def sf_abs(s, v, key, n, t, cal): return absv(s.num(s.v(v[0])))
    sf_fabs = sf_fabsf = sf_abs
    def sf_pow(s, v, key, n, t, cal):
        a, b = s.num(s.v(v[0])), s.num(s.v(v[1]))
        if b.isconst() and isinstance(b.const(), int):
            k = b.const()
            if k >= 0: return a ** k
            return ONE.div(a ** (-k))
        if b.isconst() and b.const() == Fraction(1, 2): return fn('sqrt', a, isint=False)
        return s.powterm(a, b)
    def powterm(s, a, b):
        return fn('pow', a, b, isint=False)
    def minmax(s, v, n, ismax, t):
        if len(v) == 1:
            x = s.v(v[0])
            if isinstance(x, Vec):
                r = s.num(s.mem[x.e[0]])
                for e in x.e[1:]: r = s.mm2(r, s.num(s.mem[e]), ismax)
                return r
        if len(v) == 0:
            return s.limit(t, ismax)
        if len(v) == 3:
            c = s.fnarg(v[2])
            less = B(s.apply_fn(c, [v[0], v[1]] if ismax else [v[1], v[0]]))
            return v[1] if s.choose(less) else v[0]
        a, b = s.num(s.v(v[0])), s.num(s.v(v[1]))
        if a.isint() and b.isint() and not is_real_t(t):
            w = lt(a, b) if ismax else lt(b, a)
            hi, lo = (0, 1) if ismax else (1, 0)
            if CTX.quick(CTX.norm_bool(ge0(a - b))): return v[hi] if isinstance(v[hi], (int, Elem)) else s.new(v[hi])
            if CTX.quick(CTX.norm_bool(ge0(b - a))): return v[lo] if isinstance(v[lo], (int, Elem)) else s.new(v[lo])
            if getattr(s, 'mm_symbolic', False): return s.new(ite(w, b, a))
            try:
                r = v[1] if s.choose(w) else v[0]
                return r if isinstance(r, (int, Elem)) else s.new(r)
            except NeedSymbolic:
                return s.new(ite(w, b, a))
        return s.new(s.mm2(a, b, ismax))
    def mm2(s, a, b, ismax):
        d = s.decide(CTX.norm_bool(ge0(a - b)))
        if d is True: return a if ismax else b
        d = s.decide(CTX.norm_bool(ge0(b - a)))
        if d is True: return b if ismax else a
        if ismax: return ite(lt(a, b), b, a)
        return ite(lt(b, a), b, a)
    def limit(s, t, ismax):
        t = unqual(t)
        if t in REALT: return V('FLT_MAX', False) if ismax else V('FLT_MIN', False)
        w = {'int': 31, 'long': 63, 'unsigned int': 32, 'unsigned long': 64, 'unsigned char': 8, 'short': 15, 'long long': 63, 'unsigned long long': 64, 'unsigned short': 16, 'size_t': 64, 'bool': 1}.get(t)
        if w is None: raise Unsupported('numeric_limits of ' + t)
        if ismax: return P(2 ** w - 1)
        return ZERO if t.startswith('unsigned') or t == 'size_t' else P(-2 ** w)
    def sf_max(s, v, key, n, t, cal): return s.minmax(v, n, True, t)
    def sf_min(s, v, key, n, t, cal): return s.minmax(v, n, False, t)
    def sf_fmax(s, v, key, n, t, cal): return s.mm2(s.num(s.v(v[0])), s.num(s.v(v[1])), True)
    def sf_fmin(s, v, key, n, t, cal): return s.mm2(s.num(s.v(v[0])), s.num(s.v(v[1])), False)
    def sf_clamp(s, v, key, n, t, cal):
        x, lo, hi = [s.num(s.v(a)) for a in v[:3]]
        return s.new(s.mm2(s.mm2(x, lo, True), hi, False))
    def sf_lowest(s, v, key, n, t, cal):
        return -V('FLT_MAX', False) if unqual(t) in REALT else s.limit(t, False)
    def sf_infinity(s, v, key, n, t, cal): return V('INF', False)
    def sf_epsilon(s, v, key, n, t, cal): return P(Fraction(1, 2 ** 23))
    def sf_isnan(s, v, key, n, t, cal): return FALSE
    def sf_isinf(s, v, key, n, t, cal): return FALSE
    def sf_isfinite(s, v, key, n, t, cal): return TRUE
    def sf_to_string(s, v, key, n, t, cal): return s.new(Str())
    def sf_ref(s, v, key, n, t, cal): return ObjPtr(v[0]) if isinstance(v[0], int) else v[0]
    sf_cref = sf_addressof = sf_ref
    def sf_forward(s, v, key, n, t, cal): return v[0]
    def sf_move(s, v, key, n, t, cal):
        if len(v) == 3: return s.sf_copy(v, key, n, t, cal, True)
        return v[0]
    def sf_exchange(s, v, key, n, t, cal):
        old = s.copy_of(v[0], True) if isinstance(v[0], int) and not isinstance(s.mem[v[0]], (Poly, Bool, Ptr)) else s.v(v[0])
        x = s.v(v[1])
        if isinstance(x, (Poly, Bool, Ptr)): s.store(v[0], x)
        else: s.assign(v[0], v[1], True)
        return old
    def sf_swap(s, v, key, n, t, cal):
        a, b = v
        if isinstance(a, Elem) and isinstance(s.mem[a.base], Vec): a = s.vec_elem(a)
        if isinstance(b, Elem) and isinstance(s.mem[b.base], Vec): b = s.vec_elem(b)
        x, y = s.load(a), s.load(b)
        if isinstance(x, (Poly, Bool, Ptr)): s.store(a, y); s.store(b, x); return None
        if isinstance(x, Obj) and s.prog.is_user(x.cls):
            tmp = s.copy_of(a, True); s.assign(a, b, True); s.assign(b, tmp, True); return None
        if isinstance(x, Obj):
            for k in x.f: s.sf_swap([x.f[k], y.f[k]], key, n, t, cal)
            return None
        s.put(a, y); s.put(b, x)
    def sf_iter_swap(s, v, key, n, t, cal):
        return s.sf_swap([s.deref_obj(s.v(v[0])), s.deref_obj(s.v(v[1]))], key, n, t, cal)
    def loop_range(s, key, a, b, body):
        """for (it = a; it != b; ++it) body(it)"""
        c = s.cell(a); e = s.cell(b)
        x, y = s.mem[c], s.mem[e]
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.base == y.base:
            if s.decide(CTX.norm_bool(ge0(y.off - x.off))) is False: raise Undefined('invalid range')
        s.loop(key, lambda: s.it_ne(c, e), lambda: body(c), lambda: s.it_inc(c))
        return c
    def sf_copy(s, v, key, n, t, cal, move=False):
        d = s.cell(v[2])
        def body(c):
            lv = s.it_get(c); x = s.load(lv)
            if isinstance(x, (Poly, Bool, Ptr)): s.put_elem(d, x)
            else: s.assign(s.it_get(d), lv, move)
            s.it_inc(d)
        dv = s.mem[d]
        if isinstance(dv, Obj) and dv.cls == '$inserter':
            def body(c): s.vec_push(dv.f['v'], s.copy_of_elem(s.it_get(c)))
        s.loop_range(key, v[0], v[1], body)
        return s.itres(d)
    def copy_of_elem(s, lv):
        x = s.load(lv)
        if isinstance(x, (Poly, Bool, Ptr)): return s.new(x)
        if isinstance(lv, Elem): lv = s.vec_elem(lv)
        return s.copy_of(lv)
    def sf_copy_n(s, v, key, n, t, cal):
        a = s.cell(v[0]); d = s.cell(v[2]); cnt = s.num(s.v(v[1]))
        def body(i):
            s.put_elem(d, s.load(s.it_get(a))); s.it_inc(a); s.it_inc(d)
        s.rng_loop(key, body, cnt)
        return s.itres(d)
    def sf_fill(s, v, key, n, t, cal):
        x = v[2]
        def body(c): s.put_elem(c, x)
        s.loop_range(key, v[0], v[1], body)
    def sf_fill_n(s, v, key, n, t, cal):
        a = s.cell(v[0]); cnt = s.num(s.v(v[1]))
        def body(i): s.put_elem(a, v[2]); s.it_inc(a)
        s.rng_loop(key, body, cnt)
        return s.itres(a)
    def sf_iota(s, v, key, n, t, cal):
        x = s.new(s.num(s.v(v[2])))
        def body(c): s.put_elem(c, s.mem[x]); s.put(x, s.mem[x] + 1)
        s.loop_range(key, v[0], v[1], body)
    def sf_generate(s, v, key, n, t, cal):
        f = s.fnarg(v[2])
        def body(c): s.put_elem(c, s.apply_fn(f, []))
        s.loop_range(key, v[0], v[1], body)
    def sf_generate_n(s, v, key, n, t, cal):
        f = s.fnarg(v[2]); a = s.cell(v[0])
        def body(i): s.put_elem(a, s.apply_fn(f, [])); s.it_inc(a)
        s.rng_loop(key, body, s.num(s.v(v[1])))
        return s.itres(a)
    def sf_for_each(s, v, key, n, t, cal):
        f = s.fnarg(v[2])
        s.loop_range(key, v[0], v[1], lambda c: s.apply_fn(f, [s.it_get(c)]))
        return f
    def sf_transform(s, v, key, n, t, cal):
        if len(v) == 4:
            d = s.cell(v[2]); f = s.fnarg(v[3])
            def body(c):
                s.put_elem(d, s.apply_fn(f, [s.it_get(c)])); s.it_inc(d)
        else:
            b = s.cell(v[2]); d = s.cell(v[3]); f = s.fnarg(v[4])
            def body(c):
                x = s.it_get(c); y = s.it_get(b)
                s.put_elem(d, s.apply_fn(f, [x, y])); s.it_inc(b); s.it_inc(d)
        s.loop_range(key, v[0], v[1], body)
        return s.itres(d)
    def sf_accumulate(s, v, key, n, t, cal):
        x0 = s.v(v[2])
        if not isinstance(x0, Poly): raise Unsupported('accumulate')
        acc = s.new(x0); f = s.fnarg(v[3]) if len(v) > 3 else None
        # the accumulator has the type of the initial value
        def body(c):
            y = s.load(s.it_get(c))
            r = s.mem[acc] + s.num(y) if f is None else s.v(s.apply_fn(f, [s.mem[acc], y]))
            if is_int_t(t) and not r.isint(): r = fn('trunc', r, isint=True)
            s.put(acc, r)
        s.loop_range(key, v[0], v[1], body)
        return s.mem[acc]
    sf_reduce = sf_accumulate
    def sf_inner_product(s, v, key, n, t, cal):
        acc = s.new(s.v(v[3])); b = s.cell(v[2])
        f = s.fnarg(v[4]) if len(v) > 4 else None; g = s.fnarg(v[5]) if len(v) > 5 else None
        def body(c):
            x = s.load(s.it_get(c)); y = s.load(s.it_get(b))
            m = x * y if g is None else s.v(s.apply_fn(g, [x, y]))
            s.put(acc, s.mem[acc] + m if f is None else s.v(s.apply_fn(f, [s.mem[acc], m])))
            s.it_inc(b)
        s.loop_range(key, v[0], v[1], body)
        return s.mem[acc]
    def sf_equal(s, v, key, n, t, cal):
        if len(v) >= 4:
            # the four-iterator form compares the lengths first
            if isinstance(s.v(v[3]), Ptr):
                if not s.choose(eq(s.dist(v[0], v[1]), s.dist(v[2], v[3]))): return FALSE
            else: raise Unsupported('equal with a predicate')
        b = s.cell(v[2])
        # no early exit matters: the comparison has no effect
        res = s.new(TRUE)
        x0 = s.cell(v[0]); e0 = s.cell(v[1])
        acc = s.new(ZERO)
        def body(c):
            x = s.it_get(c); y = s.it_get(b)
            xv, yv = s.load(x), s.load(y)
            if isinstance(xv, (Poly, Bool)): r = ne(s.num(xv), s.num(yv))
            else: r = not_(s.equal_values(xv, yv, x, y))
            s.put(acc, s.mem[acc] + ind(r))
            s.it_inc(b)
        s.loop_range(key, v[0], v[1], body)
        return eq0(s.mem[acc])
    def dist(s, a, b):
        x, y = s.v(a), s.v(b)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.base == y.base: return y.off - x.off
        raise Unsupported('distance')
    def sf_distance(s, v, key, n, t, cal): return s.dist(v[0], v[1])
    def sf_next(s, v, key, n, t, cal):
        p = s.v(v[0]); k = s.num(s.v(v[1])) if len(v) > 1 else ONE
        return Ptr(p.base, p.off + k)
    def sf_prev(s, v, key, n, t, cal):
        p = s.v(v[0]); k = s.num(s.v(v[1])) if len(v) > 1 else ONE
        return Ptr(p.base, p.off - k)
    def sf_advance(s, v, key, n, t, cal):
        p = s.v(v[0]); s.store(v[0], Ptr(p.base, p.off + s.num(s.v(v[1]))))
    def sf_begin(s, v, key, n, t, cal): return Ptr(v[0], ZERO)
    sf_cbegin = sf_begin
    def sf_end(s, v, key, n, t, cal): return Ptr(v[0], s.vec_size(s.mem[v[0]]))
    sf_cend = sf_end
    def sf_size(s, v, key, n, t, cal): return s.vec_size(s.mem[v[0]])
    def sf_data(s, v, key, n, t, cal): return Ptr(v[0], ZERO)
    def vlist(s, a, b):
        """addresses of the elements of a concrete range"""
        x, y = s.v(a), s.v(b)
        if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.base == y.base and isinstance(s.mem[x.base], Vec)): return None
        i, j = CTX.norm(x.off), CTX.norm(y.off)
        if not (i.isconst() and j.isconst()): return None
        return x.base, i.const(), s.mem[x.base].e[i.const():j.const()]
    def sf_find(s, v, key, n, t, cal):
        l = s.vlist(v[0], v[1])
        if l is None: raise Unsupported('find in a symbolic range')
        want = s.v(v[2])
        for k, e in enumerate(l[2]):
            if s.choose(eq(s.mem[e], want)): return Ptr(l[0], P(l[1] + k))
        return s.v(v[1])
    def sf_find_if(s, v, key, n, t, cal):
        l = s.vlist(v[0], v[1])
        if l is None: raise Unsupported('find_if in a symbolic range')
        f = s.fnarg(v[2])
        for k, e in enumerate(l[2]):
            if s.choose(B(s.apply_fn(f, [e]))): return Ptr(l[0], P(l[1] + k))
        return s.v(v[1])
    def quant(s, v, key, pos):
        l = s.vlist(v[0], v[1]); f = s.fnarg(v[2])
        if l is None:
            acc = s.new(ZERO)
            def body(c):
                r = B(s.v(s.apply_fn(f, [s.it_get(c)])))
                s.put(acc, s.mem[acc] + ind(r if pos else not_(r)))
            s.loop_range(key, v[0], v[1], body)
            return not_(eq0(s.mem[acc]))
        for e in l[2]:
            r = B(s.v(s.apply_fn(f, [e])))
            if s.choose(r if pos else not_(r)): return TRUE
        return FALSE
    def sf_any_of(s, v, key, n, t, cal): return s.quant(v, key, True)
    def sf_none_of(s, v, key, n, t, cal): return not_(s.quant(v, key, True))
    def sf_all_of(s, v, key, n, t, cal): return not_(s.quant(v, key, False))
    def sf_count_if(s, v, key, n, t, cal):
        f = s.fnarg(v[2]); acc = s.new(ZERO)
        def body(c): s.put(acc, s.mem[acc] + ind(B(s.v(s.apply_fn(f, [s.it_get(c)])))))
        s.loop_range(key, v[0], v[1], body)
        return s.mem[acc]
    def sf_count(s, v, key, n, t, cal):
        w = s.v(v[2]); acc = s.new(ZERO)
        def body(c): s.put(acc, s.mem[acc] + ind(eq(s.load(s.it_get(c)), w)))
        s.loop_range(key, v[0], v[1], body)
        return s.mem[acc]
    def extreme(s, v, key, ismax):
        if len(v) > 2: raise Unsupported('max_element with a comparator')
        x, y = s.v(v[0]), s.v(v[1])
        if not isinstance(x, Ptr) or x.base != y.base: raise Unsupported('max_element')
        l = s.vlist(v[0], v[1])
        if l is not None:
            if not l[2]: return y
            b = 0
            for k in range(1, len(l[2])):
                p, q = s.mem[l[2][b]], s.mem[l[2][k]]
                if s.choose(lt(p, q) if ismax else lt(q, p)): b = k
            return Ptr(l[0], P(l[1] + b))
        nn = y.off - x.off
        if s.choose(eq0(nn)): return y
        best = s.new(s.load(Elem(x.base, x.off))); at = s.new(ZERO)
        def body(i):
            z = s.load(Elem(x.base, x.off + i + 1))
            if s.choose(gt(z, s.mem[best]) if ismax else lt(z, s.mem[best])):
                s.put(best, z); s.put(at, i + 1)
        s.rng_loop(key, body, nn - 1)
        p = s.new(None)
        r = Ptr(x.base, x.off + s.mem[at])
        s.extremes = getattr(s, 'extremes', {})
        s.extremes[(x.base, r.off)] = s.mem[best]
        return r
    def sf_max_element(s, v, key, n, t, cal): return s.extreme(v, key, True)
    def sf_min_element(s, v, key, n, t, cal): return s.extreme(v, key, False)
    def sf_sort(s, v, key, n, t, cal):
        l = s.vlist(v[0], v[1])
        if l is None: raise Unsupported('sort of a symbolic range')
        es = l[2]; f = s.fnarg(v[2]) if len(v) > 2 else None
        vals = []
        for e in es:
            x = s.mem[e]
            k = len(vals)
            while k > 0:
                y = vals[k - 1]
                if s.choose(B(s.apply_fn(f, [x, y])) if f is not None else lt(x, y)): k -= 1
                else: break
            vals.insert(k, x)
        for e, x in zip(es, vals): s.put(e, x)
    sf_stable_sort = sf_sort
    def sf_reverse(s, v, key, n, t, cal):
        l = s.vlist(v[0], v[1])
        if l is None: raise Unsupported('reverse of a symbolic range')
        vals = [s.mem[e] for e in l[2]]
        for e, x in zip(l[2], reversed(vals)): s.put(e, x)
    def sf_make_unique(s, v, key, n, t, cal):
        if '[]' in t or '_array' in t:
            et = (targs(t) or ('float',))[0].replace('[]', '').strip()
            return Ptr(s.new(Buf(('const', ZERO), (), s.num(s.v(v[0])), is_int_t(et))), ZERO)
        et = targs(t)[0]
        return s.make_obj(et, v)
    def make_obj(s, et, v):
        m = re_inner(et)
        c = clsname(m)
        if s.prog.is_user(c):
            sig = None
            if len(v) == 1 and isinstance(v[0], int) and isinstance(s.mem[v[0]], Obj) and s.mem[v[0]].cls == c: return ObjPtr(s.copy_of(v[0], True))
            return ObjPtr(s.construct(c, v, sig))
        raise Unsupported('make_unique of ' + et)
    def sf_make_shared(s, v, key, n, t, cal):
        return s.make_obj(targs(t)[0], v)
    def sf_get(s, v, key, n, t, cal):
        import re
        m = re.search(r'tuple_element(?:_t)?<(\d+)U?L?', (n.get('type') or {}).get('qualType', '') + ' ' + qt(cal or {}) + ' ' + str((cal or {}).get('referencedDecl', {}).get('type', {}).get('qualType', '')))
        if not m: raise Unsupported('std::get')
        o = s.load(v[0]); k = m.group(1)
        return o.f[k] if k in o.f else o.f[('first', 'second')[int(k)]]
    def sf_make_pair(s, v, key, n, t, cal):
        return s.new(Obj('pair', {'first': s.fromarg(v[0]), 'second': s.fromarg(v[1])}))
    def sf_make_tuple(s, v, key, n, t, cal):
        return s.new(Obj('tuple', {str(i): s.fromarg(a) for i, a in enumerate(v)}))
    def fromarg(s, a, move=False):
        """a new object initialised from an argument"""
        if isinstance(a, (int, Elem)):
            x = s.load(a)
            if isinstance(x, (Poly, Bool, Ptr, Lam)): return s.new(x)
            if isinstance(a, Elem): a = s.vec_elem(a)
            return s.copy_of(a, move)
        return s.new(a)
    # ------------------------------------------------------------ constructors
    def std_construct(s, c, t, args, sig, n):
        if c in EXC:
            for x in args:
                pass
            return s.new(Opaque('exception', c))
        if c in ('basic_string', 'string'):
            if args and len(args) <= 2:
                try: x = s.eval(args[0])
                except Unsupported: x = None
                x = s.mem.get(x) if isinstance(x, int) else x
                if isinstance(x, Str): return s.new(Str(x.v))
            return s.new(Str())
        if c in ('basic_ostringstream', 'basic_stringstream', 'ostringstream', 'stringstream'): return s.new(Opaque('sstream'))
        if c in ('basic_ifstream', 'ifstream'):
            return s.open_stream(s.eval(args[0]) if args else None)
        if c in ('plus', 'minus', 'multiplies', 'divides', 'greater', 'less', 'negate', 'equal_to'):
            if args and clsname(qt(args[0])) == c: return s.eval(args[0])
            return s.new(Lam(None, None, None, c))
        if c in ('random_device', 'mersenne_twister_engine'):
            for x in args: s.eval(x)
            return s.new(Opaque(c))
        v = [s.arg(x) for x in args]
        one = len(v) == 1 and isinstance(v[0], (int, Elem))
        if c in ('uniform_real_distribution', 'normal_distribution', 'bernoulli_distribution', 'uniform_int_distribution'):
            if one and isinstance(s.v(v[0]), Obj): return s.copy_of(v[0])
            if c == 'bernoulli_distribution': return s.new(Obj(c, {'a': s.new(s.num(s.v(v[0])) if v else P(Fraction(1, 2)))}))
            d = [s.num(s.v(x)) for x in v] + [ZERO, ONE][len(v):]
            return s.new(Obj(c, {'a': s.new(d[0]), 'b': s.new(d[1])}))
        if c == 'function':
            if not v: return NULL
            x = s.v(v[0])
            if isinstance(x, Obj): return s.fnarg(v[0])
            return x
        if c == 'optional':
            et = targs(t)[0]
            if not v: return s.new(Opt(None, et))
            x = s.v(v[0])
            if isinstance(x, Opt): return s.copy_of(v[0], '&&' in sig)
            if isinstance(x, Opaque): return s.new(Opt(None, et))
            return s.new(Opt(s.fromarg(v[0], '&&' in sig), et))
        if c in ('unique_ptr', 'shared_ptr'):
            if not v: return s.new(NULL)
            x = s.v(v[0])
            if isinstance(v[0], (int, Elem)) and c == 'unique_ptr' and '&&' in sig: s.store(v[0], NULL)
            elif isinstance(v[0], (int, Elem)) and '&&' in sig: s.store(v[0], NULL)
            return s.new(x)
        if c == 'reference_wrapper':
            x = s.v(v[0])
            return s.new(x) if isinstance(x, Ptr) else s.new(ObjPtr(v[0]))
        if c == '__normal_iterator' or c == '_Node_iterator' or c == '_Node_const_iterator':
            return s.new(s.v(v[0])) if v else s.new(NULL)
        if c == 'reverse_iterator':
            x = s.v(v[0])
            if isinstance(x, Obj): return s.copy_of(v[0])
            return s.new(Obj('$reverse', {'p': s.new(x)}))
        if c in ('initializer_list',):
            if not v: return s.new(Vec((), targs(t)[0]))
            return s.new(s.v(v[0]))
        if c == 'pair':
            if one and isinstance(s.v(v[0]), Obj): return s.copy_of(v[0], '&&' in sig)
            if not v: return s.new(s.default_value(t))
            return s.new(Obj('pair', {'first': s.fromarg(v[0], '&&' in sig), 'second': s.fromarg(v[1], '&&' in sig)}))
        if c == 'tuple':
            if one and isinstance(s.v(v[0]), Obj) and s.v(v[0]).cls == 'tuple': return s.copy_of(v[0], '&&' in sig)
            if not v: return s.new(s.default_value(t))
            return s.new(Obj('tuple', {str(i): s.fromarg(a) for i, a in enumerate(v)}))
        if c in ('unordered_map', 'map'):
            if not v: return s.new(s.default_value(t))
            if isinstance(s.v(v[0]), Map): return s.copy_of(v[0], '&&' in sig)
            raise Unsupported('map from a list')
        if c in ('vector', 'deque'):
            return s.vec_construct(t, v, sig, args)
        if c == 'allocator' or c == 'error_code': return s.new(Opaque(c))
        if c == 'array':
            if one: return s.copy_of(v[0])
        raise Unsupported('construction of ' + t)
    def vec_construct(s, t, v, sig, args):
        et = targs(t)[0]
        if not v: return s.new(Vec((), et))
        x = s.v(v[0])
        if isinstance(x, Vec) and ('initializer_list' in sig):
            return s.new(Vec([s.fromarg(e) for e in x.e], et))
        if isinstance(x, Vec) or (isinstance(x, Buf) and x.isvec):
            return s.copy_of(v[0], '&&' in sig)
        if isinstance(x, Poly):
            cnt = CTX.norm(x)
            if len(v) > 1 and not isinstance(s.v(v[1]), Opaque): val = s.v(v[1]); a1 = v[1]
            else: val = None
            if cnt.isconst():
                k = cnt.const()
                if k < 0 or k > 2 ** 40: raise CppThrow('length_error')
                if k > 4096: raise Unsupported('long vector')
                out = []
                for _ in range(k):
                    if val is None: out.append(s.default(et) if not is_scalar_t(et) else s.new(s.default_value(et)))
                    elif isinstance(val, (Poly, Bool, Ptr)): out.append(s.new(val if not (isinstance(val, Bool) and unqual(et) != 'bool') else ind(val)))
                    else: out.append(s.copy_of(a1))
                return s.new(Vec(out, et))
            if val is None and is_scalar_t(et): val = s.default_value(et)
            if isinstance(val, (Poly, Bool)):
                return s.new(Buf(('const', val), (), cnt, is_int_t(et) or unqual(et) == 'bool', True))
            raise Unsupported('vector of symbolic length of objects')
        if isinstance(x, Ptr):
            y = s.v(v[1])
            l = s.vlist(v[0], v[1])
            if l is not None: return s.new(Vec([s.fromarg(e) for e in l[2]], et))
            if isinstance(y, Ptr) and x.base == y.base:
                b = s.mem[x.base]
                r = s.new(Buf(('const', ZERO), (), CTX.norm(y.off - x.off), b.isint, True))
                s.sf_copy([x, y, Ptr(r, ZERO)], ('vecctor', r), None, '', None)
                return r
        raise Unsupported('vector construction')
    # a file stream: where it reads (None when closed), the position and whether the state is good;
    # which files exist and what they hold is given by the scenario in s.files[name] = (exists, length, byte)
    def open_stream(s, name, into=None):
        x = s.mem.get(name) if isinstance(name, int) else name
        f = None
        ok = TRUE
        if name is not None:
            if not isinstance(x, Str) or x.v not in s.files: raise Unsupported('file name')
            f = s.files[x.v]; ok = TRUE if f[0] else FALSE
        if into is None: return s.new(Obj('$ifstream', {'file': s.new(Str(x.v if name is not None and f[0] else None)), 'pos': s.new(ZERO), 'ok': s.new(ok)}))
        s.put(into.f['file'], Str(x.v if f[0] else None)); s.put(into.f['pos'], ZERO); s.put(into.f['ok'], ok)
    def stream_method(s, a, o, nm, args, n):
        v = [s.arg(x) for x in args if x.get('kind') != 'CXXDefaultArgExpr']
        ok, pos, name = o.f['ok'], o.f['pos'], s.mem[o.f['file']].v
        good = s.mem[ok]
        if nm == 'is_open': return TRUE if name is not None else FALSE
        if nm in ('operator bool', 'good'): return good
        if nm in ('operator!', 'fail', 'eof') : return not_(good)
        if nm == 'bad': return FALSE
        if nm == 'close': s.put(o.f['file'], Str(None)); return None
        if nm == 'exceptions': raise Unsupported('stream exceptions')
        if nm == 'open':
            if name is not None: raise Unsupported('stream opened twice')
            s.open_stream(v[0], o); return None
        if nm in ('get', 'read', 'ignore'):
            if not s.choose(good) or name is None:
                if nm == 'get' and not v: s.put(ok, FALSE); return P(-1)
                raise Unsupported('reading from a failed stream')
            ex, size, byte = s.files[name]
            p = s.mem[pos]
            if nm == 'get':
                if s.choose(gt0(size - p)):
                    s.put(pos, p + 1)
                    if not v: return byte(p)
                    s.assign_num(v[0], s.narrow(byte(p), 128, 256)); return a
                s.put(ok, FALSE)
                return a if v else P(-1)
            n_ = s.num(s.v(v[-1])) if v else ONE
            if nm == 'ignore' and len(v) > 1: raise Unsupported('ignore')
            if s.choose(ge0(size - p - n_)):
                s.put(pos, p + n_)
                if nm == 'read':
                    d = s.v(v[0]); et = ''
                    raw = lambda i: byte(p + i)
                    s.write_bytes(d, n_, raw, n, elem_type(args[0]))
                return a
            s.put(pos, size); s.put(ok, FALSE)
            if nm == 'read': s.garble(s.v(v[0]))
            return a
        raise Unsupported('stream ' + nm)
    def write_bytes(s, d, n, raw, key, t):
        if not isinstance(d, Ptr): raise Unsupported('read into ' + str(type(d)))
        if t == 'unsigned char': conv = lambda b: b
        elif t == 'char': conv = lambda b: s.narrow(b, 128, 256)
        else: raise Unsupported('read into an array of ' + t)
        c = s.new(d)
        if isinstance(s.mem.get(d.base), (Vec, Buf)) and not isinstance(d, ObjPtr):
            if n.isconst() and n.const() <= 16:
                for i in range(n.const()): s.put_elem(c, conv(raw(P(i)))); s.it_inc(c)
            else:
                def body(i): s.put_elem(c, conv(raw(i))); s.it_inc(c)
                s.rng_loop(key, body, n)
        else:
            if not (n == ONE): raise Undefined('read past the end of a variable')
            s.store(s.deref_obj(d), conv(raw(ZERO)))
    def garble(s, d):
        """the destination after a read that failed: nothing is known about its content"""
        if not isinstance(d, Ptr): raise Unsupported('read into ' + str(type(d)))
        b = s.mem.get(d.base)
        if isinstance(b, Buf): s.put(d.base, Buf(('none',), (), b.n, b.isint, b.isvec))
        elif isinstance(b, Vec):
            for e in b.e: s.put(e, fresh('unk', True))
        else: s.store(s.deref_obj(d), fresh('unk', True))
    # ------------------------------------------------------------ methods
    def vec_size(s, o):
        if isinstance(o, SVec): return o.size()
        if isinstance(o, Vec): return P(len(o.e))
        if isinstance(o, Buf): return o.n
        raise Unsupported('size of %r' % (o,))
    def vec_push(s, a, e):
        o = s.mem[a]
        if isinstance(o, SVec): s.put(a, SVec(o.segs + (('one', e),), o.et)); return
        if isinstance(o, Vec): s.put(a, Vec(o.e + (e,), o.et)); return
        x = s.mem[e]
        s.put(a, Buf(o.base, o.layers + (Layer('set', (), TRUE, o.n, x),), o.n + 1, o.isint, True))
    def av(s, args): return [s.arg(x) for x in args if x.get('kind') != 'CXXDefaultArgExpr' or x.get('inner')]
    def std_method(s, a, o, nm, args, n, m):
        if isinstance(o, (Vec, Buf)): return s.vec_method(a, o, nm, args, n, m)
        if isinstance(o, Opt):
            if nm in ('has_value', 'operator bool'): return TRUE if o.a is not None else FALSE
            if nm == 'value':
                if o.a is None: raise CppThrow('bad_optional_access')
                return o.a
            if nm == 'reset': s.put(a, Opt(None, o.et)); return None
            if nm == 'emplace':
                v = s.av(args)
                c = clsname(o.et)
                if s.prog.is_user(c): x = s.construct(c, v, None)
                else: x = s.fromarg(v[0]) if v else s.default(o.et)
                s.put(a, Opt(x, o.et)); return x
            if nm == 'value_or':
                v = s.av(args)
                return s.fromarg(o.a if o.a is not None else v[0])
            if nm == 'operator=': pass
        if isinstance(o, Ptr):
            if nm == 'get':
                if o.base is not None and 'reference_wrapper' in qt(m['inner'][0]): return o.base if isinstance(o.base, int) else s.deref_obj(o)
                return o
            if nm == 'operator bool': return TRUE if o.base is not None else FALSE
            if nm == 'reset':
                v = s.av(args); s.store(a, s.v(v[0]) if v else NULL); return None
            if nm == 'release':
                s.store(a, NULL); return o
            if nm in ('operator=',):
                v = s.av(args); s.store(a, s.v(v[0])); return a
            if nm == 'base': return o
            if nm.startswith('operator ') and 'reference_wrapper' in qt(m['inner'][0]): return o.base
            if nm == 'swap':
                v = s.av(args); return s.sf_swap([a, v[0]], None, None, '', None)
        if isinstance(o, Map): return s.map_method(a, o, nm, args, n)
        if isinstance(o, Obj) and o.cls == '$ifstream': return s.stream_method(a, o, nm, args, n)
        if isinstance(o, Str) and nm == 'c_str': return s.new(Str(o.v))
        if isinstance(o, (Str, Opaque)):
            for x in args:
                try: s.eval(x)
                except Unsupported: pass
            if nm in ('str', 'c_str', 'name', 'what', 'append', 'substr'): return s.new(Str())
            if nm in ('seed',): return None
            if nm in ('clear', 'flush', 'precision', 'put', 'write', 'setf', 'width', 'push_back', 'reserve'): return None
        if isinstance(o, Lam):
            if nm == 'operator bool': return TRUE
        if isinstance(o, Obj) and o.cls in ('uniform_real_distribution', 'normal_distribution'):
            if nm == 'reset': return None
            if nm in ('a', 'min', 'mean'): return s.mem[o.f['a']]
            if nm in ('b', 'max', 'stddev'): return s.mem[o.f['b']]
        if isinstance(o, Bool) and nm == 'operator bool': return o
        if isinstance(o, Poly) and nm.startswith('operator '): return o
        if isinstance(o, Obj) and nm == 'swap':
            v = s.av(args); return s.sf_swap([a, v[0]], None, None, '', None)
        raise Unsupported('method %s of %s' % (nm, type(o).__name__))
    def vec_method(s, a, o, nm, args, n, m):
        if nm == 'size': return s.vec_size(o)
        if nm in ('begin', 'cbegin', 'data'): return Ptr(a, ZERO)
        if nm in ('end', 'cend'): return Ptr(a, s.vec_size(o))
        if nm in ('rbegin', 'crbegin'): return s.new(Obj('$reverse', {'p': s.new(Ptr(a, s.vec_size(o) - 1))}))
        if nm in ('rend', 'crend'): return s.new(Obj('$reverse', {'p': s.new(Ptr(a, P(-1)))}))
        if nm == 'empty':
            r = eq0(s.vec_size(o))
            return CTX.norm_bool(r)
        if nm == 'front': return Elem(a, ZERO)
        if nm == 'back': return Elem(a, s.vec_size(o) - 1)
        if nm in ('reserve', 'shrink_to_fit'):
            s.av(args); return None
        if nm == 'capacity': return s.vec_size(o)
        v = s.av(args)
        o = s.mem[a]
        if nm == 'at':
            i = s.num(s.v(v[0]))
            if not s.choose(and_(ge0(i), lt(i, s.vec_size(o)))): raise CppThrow('out_of_range')
            return Elem(a, i)
        if nm == 'clear': s.put(a, Vec((), getattr(o, 'et', ''))); return None
        if nm in ('push_back', 'emplace_back'):
            if nm == 'emplace_back' and isinstance(o, Vec) and s.prog.is_user(clsname(o.et)) and not (len(v) == 1 and isinstance(v[0], int) and isinstance(s.mem[v[0]], Obj) and s.mem[v[0]].cls == clsname(o.et)):
                e = s.construct(clsname(o.et), v, None)
            else:
                mv = '&&' in sig_of(m) if nm == 'push_back' else '&&' in sig_of(m)
                e = s.fromarg(v[0], args[0].get('valueCategory') == 'xvalue')
                if isinstance(v[0], int) and isinstance(s.mem[v[0]], Ptr) and args[0].get('valueCategory') == 'xvalue' and 'unique_ptr' in qt(args[0]): s.put(v[0], NULL)
            if isinstance(o, Vec) and o.et and is_scalar_t(o.et): s.mem[e] = s.convert(s.mem[e], o.et)
            s.vec_push(a, e)
            return e
        if nm == 'pop_back':
            if isinstance(o, Vec):
                if not o.e: raise Undefined('pop_back of an empty vector')
                s.put(a, Vec(o.e[:-1], o.et)); return None
            s.put(a, Buf(o.base, o.layers, o.n - 1, o.isint, True)); return None
        if nm == 'resize':
            k = CTX.norm(s.num(s.v(v[0])))
            if isinstance(o, Vec) and k.isconst():
                e = list(o.e[:k.const()])
                while len(e) < k.const():
                    e.append(s.fromarg(v[1]) if len(v) > 1 else s.new(s.default_value(o.et)) if is_scalar_t(o.et) else s.default(o.et))
                s.put(a, Vec(e, o.et)); return None
            if isinstance(o, Vec) and not o.e and is_scalar_t(o.et):
                s.put(a, Buf(('const', s.v(v[1]) if len(v) > 1 else s.default_value(o.et)), (), k, is_int_t(o.et), True)); return None
            raise Unsupported('resize')
        if nm == 'insert':
            p = s.v(v[0])
            if isinstance(o, Vec):
                i = CTX.norm(p.off)
                if not i.isconst(): raise Unsupported('insert at a symbolic position')
                i = i.const()
                if not 0 <= i <= len(o.e): raise Undefined('insert position outside the vector')
                if len(v) == 2: new = [s.fromarg(v[1])]
                elif len(v) == 3 and isinstance(s.v(v[1]), Ptr):
                    l = s.vlist(v[1], v[2])
                    if l is None: raise Unsupported('insert of a symbolic range')
                    new = [s.fromarg(e) for e in l[2]]
                elif len(v) == 3:
                    k = CTX.norm(s.num(s.v(v[1])))
                    if not k.isconst(): raise Unsupported('insert of a symbolic count')
                    if not 0 <= k.const() < 4096: raise Unsupported('insert of many')
                    new = [s.fromarg(v[2]) for _ in range(k.const())]
                else: raise Unsupported('insert')
                o = s.mem[a]
                s.put(a, Vec(o.e[:i] + tuple(new) + o.e[i:], o.et))
                return Ptr(a, P(i))
        if nm == 'erase' and isinstance(o, Vec):
            i = CTX.norm(s.v(v[0]).off)
            if not i.isconst():
                for k in range(len(o.e)):
                    if s.choose(eq(i, P(k))): i = P(k); break
                else: raise Undefined('erase position outside the vector')
            i = i.const()
            if len(v) == 1: j = i + 1
            else:
                j = CTX.norm(s.v(v[1]).off)
                if not j.isconst(): raise Unsupported('erase')
                j = j.const()
            if not (0 <= i <= j <= len(o.e)): raise Undefined('erase position outside the vector')
            s.put(a, Vec(o.e[:i] + o.e[j:], o.et))
            return Ptr(a, P(i))
        if nm == 'assign' and isinstance(o, Vec):
            x = s.v(v[0])
            if isinstance(x, Poly):
                k = CTX.norm(x)
                if not k.isconst(): raise Unsupported('assign')
                s.put(a, Vec([s.fromarg(v[1]) for _ in range(k.const())], o.et)); return None
            if isinstance(x, Vec):
                s.put(a, Vec([s.fromarg(e) for e in x.e], o.et)); return None
            l = s.vlist(v[0], v[1])
            if l is None: raise Unsupported('assign')
            s.put(a, Vec([s.fromarg(e) for e in l[2]], o.et)); return None
        if nm == 'swap':
            s.sf_swap([a, v[0]], None, None, '', None); return None
        raise Unsupported('vector::' + nm)
    # ------------------------------------------------------------ maps
    def key_eq(s, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr): return x.base == y.base and x.off == y.off
            return False
        return s.choose(eq(x, y))
    def map_find(s, o, k):
        for kk, p in o.kv:
            if s.key_eq(kk, k): return p
        return None
    def map_add(s, a, k, valaddr):
        o = s.mem[a]
        p = s.new(Obj('pair', {'first': s.new(k), 'second': valaddr}))
        s.put(a, Map(o.kv + ((k, p),), o.kt, o.vt))
        return p
    def map_method(s, a, o, nm, args, n):
        if nm == 'size': return P(len(o.kv))
        if nm == 'empty': return TRUE if not o.kv else FALSE
        if nm in ('end', 'cend'): return NULL
        if nm in ('begin', 'cbegin'): raise Unsupported('iteration over a map')
        v = s.av(args)
        if nm == 'clear': s.put(a, Map((), o.kt, o.vt)); return None
        if nm == 'reserve': return None
        k = s.v(v[0]) if v else None
        if nm == 'find':
            p = s.map_find(o, k)
            return ObjPtr(p) if p is not None else NULL
        if nm in ('count', 'contains'):
            r = s.map_find(o, k) is not None
            return (ONE if r else ZERO) if nm == 'count' else (TRUE if r else FALSE)
        if nm == 'at':
            p = s.map_find(o, k)
            if p is None: raise CppThrow('out_of_range')
            return s.mem[p].f['second']
        if nm == 'erase':
            if isinstance(s.v(v[0]), ObjPtr) and any(p == s.v(v[0]).base for kk, p in o.kv):
                t = s.v(v[0]).base
                s.put(a, Map([(kk, p) for kk, p in o.kv if p != t], o.kt, o.vt)); return NULL
            p = s.map_find(o, k)
            if p is None: return ZERO
            s.put(a, Map([(kk, q) for kk, q in o.kv if q != p], o.kt, o.vt)); return ONE
        if nm in ('insert_or_assign', 'emplace', 'try_emplace', 'insert'):
            if nm == 'insert':
                x = s.load(v[0]); k = s.mem[x.f['first']]; src = x.f['second']
            else: src = v[1] if len(v) > 1 else None
            p = s.map_find(o, k)
            new = p is None
            if p is None:
                if src is None: val = s.default(o.vt)
                elif len(v) > 2 or (s.prog.is_user(clsname(o.vt)) and not (isinstance(src, int) and isinstance(s.mem[src], Obj) and s.mem[src].cls == clsname(o.vt))):
                    val = s.construct(clsname(o.vt), v[1:], None)
                else: val = s.fromarg(src, len(args) > 1 and args[1].get('valueCategory') == 'xvalue' and 'const ' not in qt(args[1]))
                p = s.map_add(a, k, val)
            elif nm == 'insert_or_assign': 
                x = s.v(src)
                if isinstance(x, (Poly, Bool, Ptr)): s.store(s.mem[p].f['second'], x)
                else: s.assign(s.mem[p].f['second'], src if isinstance(src, int) else s.new(src), args[1].get('valueCategory') != 'lvalue' and 'const ' not in qt(args[1]))
            return s.new(Obj('pair', {'first': s.new(ObjPtr(p)), 'second': s.new(TRUE if new else FALSE)}))
        raise Unsupported('map::' + nm)
    # ------------------------------------------------------------ operators
    def equal_values(s, x, y, ax, ay):
        if isinstance(x, (Poly, Bool)):
            return s.binop('==', x, y, 'bool', 'int')
        if isinstance(x, Vec):
            if isinstance(y, Buf):
                if not s.choose(eq(P(len(x.e)), y.n)): return FALSE
                return and_(*[eq(s.mem[e], s.load(Elem(ay, P(i)))) for i, e in enumerate(x.e)])
            if len(x.e) != len(y.e): return FALSE
            return and_(*[s.equal_values(s.mem[a], s.mem[b], a, b) for a, b in zip(x.e, y.e)])
        if isinstance(x, Buf):
            if isinstance(y, Vec): return s.equal_values(y, x, ay, ax)
            if not s.choose(eq(x.n, y.n)): return FALSE
            return s.sf_equal([Ptr(ax, ZERO), Ptr(ax, x.n), Ptr(ay, ZERO)], ('veq', ax, ay), None, '', None)
        if isinstance(x, Obj) and s.prog.is_user(x.cls):
            return B(s.v(s.call(x.cls, 'operator==', ax, [ay])))
        if isinstance(x, Ptr): return s.ptrop('==', x, y)
        if isinstance(x, Opt):
            if (x.a is None) != (y.a is None): return FALSE
            return TRUE if x.a is None else s.equal_values(s.mem[x.a], s.mem[y.a], x.a, y.a)
        if isinstance(x, Obj):
            return and_(*[s.equal_values(s.mem[x.f[k]], s.mem[y.f[k]], x.f[k], y.f[k]) for k in x.f])
        if isinstance(x, Opaque): return TRUE if x == y else FALSE
        raise Unsupported('equality of %r' % type(x))
    def opnd(s, args, i):
        return s.eval(args[i]) if args is not None else None
    def std_operator(s, op, a, o, args, n, d):
        if args is not None and len(args) > 1 and op not in ('()', '='):
            b = s.eval(args[1]); bv = s.v(b)
        else: b = bv = None
        if op == '[]':
            if isinstance(o, (Vec, Buf)):
                return Elem(a, s.num(bv))
            if isinstance(o, Ptr): 
                if o.base is None: raise Undefined('null pointer subscripted')
                return Elem(o.base, o.off + s.num(bv))
            if isinstance(o, Map):
                p = s.map_find(o, bv)
                if p is None: p = s.map_add(a, bv, s.default(o.vt) if not is_scalar_t(o.vt) else s.new(s.default_value(o.vt)))
                return s.mem[p].f['second']
        if op in ('==', '!='):
            if isinstance(o, Obj) and o.cls == '$reverse': r = s.ptrop('==', s.mem[o.f['p']], s.mem[bv.f['p']])
            elif isinstance(o, Ptr) and isinstance(bv, Ptr): r = s.ptrop('==', o, bv)
            elif isinstance(o, Opt) and isinstance(bv, Opaque): r = TRUE if o.a is None else FALSE
            else: r = s.equal_values(o, bv, a, b)
            return r if op == '==' else not_(r)
        if op == '*':
            if isinstance(o, Opt):
                if o.a is None: raise Undefined('empty optional dereferenced')
                return o.a
            if isinstance(o, Obj) and o.cls == '$reverse': return s.deref_obj(s.mem[o.f['p']])
            if isinstance(o, Ptr): 
                return s.deref_obj(o)
        if op == '->':
            if isinstance(o, Opt):
                if o.a is None: raise Undefined('empty optional dereferenced')
                return ObjPtr(o.a)
            if isinstance(o, Ptr):
                if o.base is None: raise Undefined('null pointer dereferenced')
                if not isinstance(o, ObjPtr) and isinstance(s.mem[o.base], Vec): return ObjPtr(s.vec_elem(Elem(o.base, o.off)))
                return o
        if op in ('++', '--'):
            post = args is not None and len(args) > 1
            if isinstance(o, Ptr):
                s.store(a, Ptr(o.base, o.off + (1 if op == '++' else -1)))
                return s.new(o) if post else a
            if isinstance(o, Obj) and o.cls == '$reverse':
                p = o.f['p']; q = s.mem[p]
                old = s.copy_of(a) if post else a
                s.put(p, Ptr(q.base, q.off + (-1 if op == '++' else 1)))
                return old
        if op in ('+', '-'):
            if isinstance(o, Ptr): return s.ptrop(op, o, bv)
            if isinstance(bv, Ptr): return s.ptrop(op, o, bv)
            if isinstance(o, (Str, Opaque)) or isinstance(bv, (Str, Opaque)): return s.new(Str())
            if op == '+' and (isinstance(o, Poly) and isinstance(bv, Str)): return s.new(Str())
        if op == '+=':
            if isinstance(o, Ptr): s.store(a, s.ptrop('+', o, bv)); return a
            if isinstance(o, (Str, Opaque)): return a
        if op == '-=' and isinstance(o, Ptr): s.store(a, s.ptrop('-', o, bv)); return a
        if op in ('<', '>', '<=', '>=') and isinstance(o, Ptr): return s.ptrop(op, o, bv)
        if op in ('<', '>', '<=', '>=') and isinstance(o, Poly): return s.binop(op, o, bv, 'bool', 'int')
        if op == '!' and isinstance(o, Obj) and o.cls == '$ifstream': return not_(s.mem[o.f['ok']])
        if op == '<<' : return a
        if op == '>>': return a
        if op == '()':
            if isinstance(o, Lam) or isinstance(o, Ptr):
                return s.apply_fn(o, [s.arg(x) for x in args[1:]])
            if isinstance(o, Obj) and o.cls in ('uniform_real_distribution', 'normal_distribution', 'bernoulli_distribution', 'uniform_int_distribution'):
                for x in args[1:]: s.eval(x)
                return s.draw(o)
            if isinstance(o, Opaque):
                return s.draw_raw(o)
        if op == '=':
            src = s.eval(args[1])
            return s.std_assign(a, o, src, args[1])
        raise Unsupported('operator %s on %s' % (op, type(o).__name__))
    def std_assign(s, a, o, src, e):
        x = s.v(src)
        mv = e.get('valueCategory') in ('xvalue', 'prvalue')
        if isinstance(o, Opt):
            if isinstance(x, Opt): s.assign(a, src, mv)
            elif isinstance(x, Opaque): s.put(a, Opt(None, o.et))
            else:
                if isinstance(x, (Poly, Bool, Ptr)):
                    if o.a is None: s.put(a, Opt(s.new(x), o.et))
                    else: s.put(o.a, x)
                elif o.a is None: s.put(a, Opt(s.fromarg(src, mv), o.et))
                else: s.assign(o.a, src, mv)
            return a
        if isinstance(o, Ptr):
            if isinstance(x, Ptr):
                s.store(a, x)
                if mv and isinstance(src, (int, Elem)) and 'ptr<' in qt(e): s.store(src, NULL)
                return a
            if isinstance(x, Lam): s.store(a, x); return a
        if isinstance(o, (Poly, Bool)):
            s.store(a, x); return a
        if isinstance(o, (Vec, Map, Buf)):
            if isinstance(x, (Vec, Map, Buf)):
                if isinstance(x, Vec) and clsname(qt(e)) == 'initializer_list' : s.store(a, Vec([s.fromarg(y) for y in x.e], getattr(o, 'et', x.et)))
                else: s.assign(a, src if isinstance(src, int) else s.new(x), mv)
                return a
        if isinstance(o, Lam): s.store(a, x); return a
        if isinstance(o, (Str, Opaque)): return a
        if isinstance(o, Obj):
            s.assign(a, src, mv); return a
        raise Unsupported('assignment to %s' % type(o).__name__)
    # ------------------------------------------------------------ random numbers
    def rngcell(s):
        a = getattr(s, 'rng_addr', None)
        if a is None: raise Unsupported('random numbers not set up')
        return a
    def draw_raw(s, o):
        c = s.rngcell(); k = s.mem[c]; s.put(c, k + 1)
        return fn('el:RAW', k, isint=True)
    def draw(s, o):
        c = s.rngcell(); k = s.mem[c]; s.put(c, k + 1)
        if o.cls == 'uniform_real_distribution':
            a, b = s.mem[o.f['a']], s.mem[o.f['b']]
            return a + (b - a) * rd('U01', k)
        if o.cls == 'normal_distribution':
            return s.mem[o.f['a']] + s.mem[o.f['b']] * rd('N01', k)
        if o.cls == 'bernoulli_distribution':
            return lt(rd('U01', k), s.mem[o.f['a']])
        raise Unsupported(o.cls)

def sig_of(m):
    return qt0(m)
from astload import qt0

def re_inner(t):
    """the pointee out of a deduced alias such as _NonArray<Tensor<float>>"""
    for w in ('_NonArray', 'std::_NonArray'):
        if t.startswith(w + '<'): return targs(t)[0]
    return t

def elem_type(e):
    """element type of the array a char pointer argument points into"""
    t = ''
    while True:
        x = unqual(qt(e)).strip()
        if x.endswith('*') or x.endswith(']'):
            y = x[:x.rindex('*')] if x.endswith('*') else x[:x.index('[')]
            y = unqual(y.replace('const ', '').strip())
            if y != 'void': t = {'uint8_t': 'unsigned char', 'std::uint8_t': 'unsigned char'}.get(y, y)
        if not (e['kind'].endswith('CastExpr') or e['kind'] in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr')): return t
        if e.get('castKind') == 'ArrayToPointerDecay' or e['kind'] == 'ParenExpr' or e['kind'].endswith('CastExpr'): e = e['inner'][0]
        else: return t
