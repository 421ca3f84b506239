"""Contracts of lower layers, used in place of their bodies when higher layers are verified.
Each is the postcondition that the specs of C04-C07 prove about the real function."""
from scen import *
from interp import CppThrow, qt
from spec_arith import rdiv, fn_sqrt, fn_of, OPS

def unflat(p, dims):
    q = []
    for i in range(len(dims) - 1, 0, -1):
        q.append(imod(p, dims[i])); p = idiv(p, dims[i])
    q.append(p)
    return q[::-1]

class View:
    """the content of a tensor at this moment"""
    def __init__(s, c, t):
        s.c = c; s.t = t
        s.dims = c.shape_of(t)
        p = c.data_ptr(t)
        s.base = p.base; s.off = p.off
        s.buf = c.m.mem[p.base]
    def flat(s, f): return s.c.m.buf_read(s.buf, s.off + f)
    def at(s, q): return s.flat(flat(q, s.dims))

def result(c, dims, f, byflat=False):
    t = c.tensor(None, dims)
    c.fill_fun(t, f if byflat else (lambda p: f(unflat(p, dims))))
    return t

def same_dim(c, x, y):
    d = CTX.norm(x - y)
    if not d.d: return True
    if d.isconst(): return False
    return c.choose(eq(x, y))
def is_one(c, x):
    d = CTX.norm(P(x))
    if d.isconst(): return d.const() == 1
    return c.choose(eq(d, ONE))

def same_shape(c, a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if not same_dim(c, x, y): return False
    return True

def stretched(a, b):
    """some dimension is known to be one on one side only"""
    return len(a) == len(b) and any((CTX.norm(P(x)) == ONE) != (CTX.norm(P(y)) == ONE) for x, y in zip(a, b))

def broadcast(c, a, b):
    """(dims, pick_a, pick_b) or None; pick maps an index of the result to one of the operand"""
    n = max(len(a), len(b)); out = []; ua = []; ub = []
    for i in range(n):
        x = a[len(a) - 1 - i] if i < len(a) else None
        y = b[len(b) - 1 - i] if i < len(b) else None
        if x is None: out.append(y); ub.append(True); continue
        if y is None: out.append(x); ua.append(True); continue
        # a dimension known to be one is stretched (also to a dimension that happens to be one)
        if CTX.norm(P(x)) == ONE: out.append(y); ua.append(False); ub.append(True); continue
        if CTX.norm(P(y)) == ONE: out.append(x); ua.append(True); ub.append(False); continue
        if same_dim(c, x, y): out.append(x); ua.append(True); ub.append(True)
        elif is_one(c, x): out.append(y); ua.append(False); ub.append(True)
        elif is_one(c, y): out.append(x); ua.append(True); ub.append(False)
        else: return None
    out = out[::-1]
    def pick(use):
        use = use[::-1]; k = n - len(use)
        return lambda q: [q[k + i] if u else ZERO for i, u in enumerate(use)]
    return out, pick(ua), pick(ub)


def _throw(what): raise CppThrow('invalid_argument', what)

def binop(c, op):
    f = OPS[op]
    def run(a, b):
        A = View(c, a); B_ = View(c, b)
        if not stretched(A.dims, B_.dims) and same_shape(c, A.dims, B_.dims):
            return A.dims, (lambda p: f(A.flat(p), B_.flat(p))), True
        r = broadcast(c, A.dims, B_.dims)
        if r is None: _throw('shapes cannot be broadcast')
        out, pa, pb = r
        return out, (lambda q: f(A.at(pa(q)), B_.at(pb(q)))), False
    return run

def istensor(f, i=0):
    t = qt(f.params[i]) if len(f.params) > i else ''
    return 'Tensor' in t

def arith(c):
    m = c.m
    def member(op):
        run = binop(c, op)
        def h(s, f, this, args):
            if not f.params:
                if op != '-': return NotImplemented
                A = View(c, this); return result(c, A.dims, lambda p: ZERO - A.flat(p), True)
            if len(f.params) != 1: return NotImplemented
            if istensor(f):
                out, g, byflat = run(this, args[0])
                return result(c, out, g, byflat)
            k = P(s.v(args[0]))
            A = View(c, this)
            if op == '/' and c.choose(eq(k, ZERO)): _throw('division by zero')
            return result(c, A.dims, lambda p: OPS[op](A.flat(p), k), True)
        return h
    def free(op):
        def h(s, f, this, args):
            if len(f.params) != 2 or istensor(f) or not istensor(f, 1): return NotImplemented
            k = P(s.v(args[0])); A = View(c, args[1])
            return result(c, A.dims, lambda p: OPS[op](k, A.flat(p)), True)
        return h
    def inplace(op):
        run = binop(c, op)
        def h(s, f, this, args):
            if len(f.params) != 1: return NotImplemented
            A = View(c, this)
            if istensor(f):
                out, g, byflat = run(this, args[0])
                if len(out) != len(A.dims) or not byflat and not same_shape(c, out, A.dims): return NotImplemented
                c.fill_fun(this, g if byflat else (lambda p: g(unflat(p, out))))
            else:
                k = P(s.v(args[0]))
                if op == '/' and c.choose(eq(k, ZERO)): _throw('division by zero')
                c.fill_fun(this, lambda p: OPS[op](A.flat(p), k))
            return this
        return h
    for op in '+-*/':
        m.hooks[('Tensor', 'operator' + op)] = member(op)
        m.hooks[('', 'operator' + op)] = free(op)
        m.hooks[('Tensor', 'operator' + op + '=')] = inplace(op)
    def sqrt_(s, f, this, args):
        A = View(c, this); return result(c, A.dims, lambda p: fn_sqrt(A.flat(p)), True)
    m.hooks[('Tensor', 'sqrt')] = sqrt_

def axfun(dims, axes, g):
    """sum over the axes as a function of the flat position in the result"""
    keep = [i for i in range(len(dims)) if i not in axes]
    kd = [dims[i] for i in keep]
    def f(p):
        idx = [None] * len(dims)
        for i, x in zip(keep, unflat(p, kd) if kd else []): idx[i] = x
        def go(k):
            if k == len(axes): return g(flat(idx, dims))
            def h(v): idx[axes[k]] = v; return go(k + 1)
            return Sum(dims[axes[k]], h)
        return go(0)
    return f

def reduce(c):
    m = c.m
    ATO = 'AdvancedTensorOperations'
    def axes_of(s, a):
        v = s.load(a)
        if not isinstance(v, Vec): raise Unsupported('axis list')
        r = [CTX.norm(P(s.mem[e])) for e in v.e]
        if not all(x.isconst() for x in r): return None
        return [x.const() for x in r]
    def sum_(s, f, this, args):
        if f.cls == 'TensorOperations': return NotImplemented
        A = View(c, args[0]); n = prod(A.dims)
        if len(f.params) == 1: return result(c, [ONE], lambda p: Sum(n, lambda v: A.flat(v)), True)
        if 'vector' in f.sig:
            ax = axes_of(s, args[1])
            if ax is None: return NotImplemented
        else:
            k = CTX.norm(P(s.v(args[1])))
            if not k.isconst(): return NotImplemented
            ax = [k.const()]
        if any(x >= len(A.dims) or x < 0 for x in ax): _throw('invalid axis')
        ax = sorted(set(ax))
        # an axis list leaves out axes of length one only where they were summed
        out = [d for i, d in enumerate(A.dims) if i not in ax] or [ONE]
        return result(c, out, axfun(A.dims, ax, A.flat), True)
    def mean_(s, f, this, args):
        A = View(c, args[0]); n = prod(A.dims)
        ax = None
        if len(f.params) > 1:
            ax = axes_of(s, args[1])
            if ax is None: return NotImplemented
            if any(x >= len(A.dims) or x < 0 for x in ax): _throw('invalid axis')
            if len(set(ax)) != len(ax): return NotImplemented
        if not ax or len(ax) == len(A.dims): return result(c, [ONE], lambda p: Sum(n, lambda v: A.flat(v)) * recip(n), True)
        ax = sorted(ax)
        n = prod([A.dims[i] for i in ax])
        out = [ONE if i in ax else d for i, d in enumerate(A.dims)]
        g = axfun(A.dims, ax, A.flat)
        return result(c, out, lambda p: g(p) * recip(n), True)
    m.hooks[(ATO, 'sum')] = sum_
    m.hooks[(ATO, 'mean')] = mean_
    def variance_(s, f, this, args):
        A = View(c, args[0]); M = View(c, args[1])
        if len(f.params) < 3:
            if len(M.dims) != 1 or not CTX.norm(M.dims[0]) == ONE: return NotImplemented
            n = prod(A.dims)
            return result(c, [ONE], lambda p: Sum(n, lambda v: (A.flat(v) - M.flat(ZERO)) ** 2) * recip(n), True)
        ax = axes_of(s, args[2])
        if not ax or len(set(ax)) != len(ax) or any(x >= len(A.dims) for x in ax): return NotImplemented
        ax = sorted(ax)
        if len(ax) == len(A.dims):
            want = [ONE]
        else: want = [ONE if i in ax else d for i, d in enumerate(A.dims)]
        if len(want) != len(M.dims) or any(CTX.norm(x - y).d for x, y in zip(want, M.dims)): return NotImplemented
        n = prod([A.dims[i] for i in ax])
        kd = [d for i, d in enumerate(A.dims) if i not in ax]
        def g(p):
            mu = M.flat(p)
            return axfun(A.dims, ax, lambda v: (A.flat(v) - mu) ** 2)(p) * recip(n)
        return result(c, want, g, True)
    m.hooks[(ATO, 'variance')] = variance_

def matmul(c):
    from spec_matmul import matmul_shape
    def h(s, f, this, args):
        A = View(c, args[0]); B_ = View(c, args[1])
        r = matmul_shape(A.dims, B_.dims)
        if r is None: return NotImplemented
        shared, out, g = r
        if len(A.dims) == len(B_.dims) >= 3 and any(CTX.norm(x - y).d for x, y in zip(A.dims[:-2], B_.dims[:-2])): return NotImplemented
        if not all(same_dim(c, x, y) for x, y in shared): _throw('shared dimensions differ')
        return result(c, out, lambda q: g(q, A.at, B_.at))
    c.m.hooks[('AdvancedTensorOperations', 'matmul')] = h

def install(c, *groups):
    for g in groups: globals()[g](c)
    c.m.used_contracts = groups
