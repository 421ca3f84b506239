from scen import *
from spec_tensor import bpairs, bindex
from itertools import combinations, permutations
import contracts

def axsum(name, dims, axes, q, g=None):
    """sum of A over the axes, the other coordinates given in order"""
    g = g or (lambda p: rd(name, p))
    idx = [None] * len(dims)
    k = 0
    for i in range(len(dims)):
        if i not in axes: idx[i] = q[k]; k += 1
    def go(i):
        if i == len(axes): return g(flat(idx, dims))
        def f(v): idx[axes[i]] = v; return go(i + 1)
        return Sum(dims[axes[i]], f)
    return go(0)

def without(dims, axes):
    r = [d for i, d in enumerate(dims) if i not in axes]
    return r or [ONE]

def c05(R):
    def total(r):
        def fn(c):
            a = c.dims('a', r); x = c.tensor('A', a)
            t = c.call('AdvancedTensorOperations', 'sum', None, [x], '(const Tensor<float> &)')
            c.tensor_is('sum of everything', t, [ONE], lambda q: Sum(prod(a), lambda v: rd('A', v)))
            c.unchanged('operand', x, 'A', a)
        return fn
    for r in (1, 2, 3, 4): R.scenario('total rank %d' % r, total(r), 30)
    def one(r, ax):
        def fn(c):
            a = c.dims('a', r); x = c.tensor('A', a)
            t = c.call('AdvancedTensorOperations', 'sum', None, [x, P(ax)], 'size_t)')
            c.tensor_is('sum over one axis', t, without(a, [ax]), lambda q: axsum('A', a, [ax], q))
            c.unchanged('operand', x, 'A', a)
        return fn
    for r in (1, 2, 3, 4):
        for ax in range(r): R.scenario('sum rank %d axis %d' % (r, ax), one(r, ax), 60)
    def many(r, axes):
        def fn(c):
            a = c.dims('a', r); x = c.tensor('A', a)
            t = c.call('AdvancedTensorOperations', 'sum', None, [x, c.intvec(axes, 'unsigned long')], 'vector')
            c.tensor_is('sum over axes', t, without(a, axes), lambda q: axsum('A', a, sorted(axes), q))
            c.unchanged('operand', x, 'A', a)
        return fn
    for r in (1, 2, 3):
        for k in range(0, r + 1):
            for axes in combinations(range(r), k): R.scenario('sum rank %d axes %s' % (r, list(axes)), many(r, axes), 60)
    for axes in ((0, 2, 3), (2, 3), (0, 1), (1, 3), (0, 1, 2, 3), (3,)): R.scenario('sum rank 4 axes %s' % list(axes), many(4, axes), 90)
    R.scenario('sum rank 3 axes [2, 0]', many(3, (2, 0)), 60)
    def bad(r):
        def fn(c):
            a = c.dims('a', r); x = c.tensor('A', a)
            k = c.var('k', r, INT_MAX)
            c.throws('sum over a missing axis', lambda: c.call('AdvancedTensorOperations', 'sum', None, [x, k], 'size_t)'))
            c.throws('sum over axes with a missing one', lambda: c.call('AdvancedTensorOperations', 'sum', None, [x, c.intvec([P(0), k], 'unsigned long')], 'vector'))
            c.throws('mean over a missing axis', lambda: c.call('AdvancedTensorOperations', 'mean', None, [x, c.intvec([k], 'unsigned long')], 'vector'))
            c.throws('mean over axes with a missing one', lambda: c.call('AdvancedTensorOperations', 'mean', None, [x, c.intvec([P(0), k], 'unsigned long')], 'vector'))
            c.unchanged('operand', x, 'A', a)
        return fn
    for r in (1, 2, 3, 4): R.scenario('missing axis rank %d' % r, bad(r), 30)
    def uses(c, *names):
        """contracts proved elsewhere (C04) or by other scenarios here"""
        contracts.install(c, 'arith', 'reduce')
        for n in ('sum', 'mean', 'variance'):
            if n not in names: del c.m.hooks[('AdvancedTensorOperations', n)]
    def means(r, axes):
        def fn(c):
            uses(c, 'sum')
            a = c.dims('a', r); x = c.tensor('A', a)
            full = len(axes) in (0, r)
            ax = list(range(r)) if full else sorted(axes)
            out = [ONE] if full else [ONE if i in ax else a[i] for i in range(r)]
            n = prod([a[i] for i in ax])
            t = c.call('AdvancedTensorOperations', 'mean', None, [x, c.intvec(axes, 'unsigned long')], 'vector')
            if full: c.tensor_is('mean over axes', t, out, lambda q: Sum(prod(a), lambda v: rd('A', v)) * recip(prod(a)))
            else: c.tensor_is('mean over axes', t, out, lambda q: axsum('A', a, ax, [q[i] for i in range(r) if i not in ax]) * recip(n))
            c.unchanged('operand', x, 'A', a)
        return fn
    def vars_(r, axes):
        def fn(c):
            uses(c, 'sum')
            a = c.dims('a', r); x = c.tensor('A', a)
            full = len(axes) == r
            ax = sorted(axes)
            out = [ONE] if full else [ONE if i in ax else a[i] for i in range(r)]
            n = prod([a[i] for i in ax])
            mu = c.tensor('M', out)
            t = c.call('AdvancedTensorOperations', 'variance', None, [x, mu, c.intvec(axes, 'unsigned long')], 'vector')
            def want(q):
                idx = [None if i in ax else (q[i] if not full else ZERO) for i in range(r)]
                mean = rd('M', flat(q, out))
                def go(k):
                    if k == len(ax): return (rd('A', flat(idx, a)) - mean) ** 2
                    def f(v): idx[ax[k]] = v; return go(k + 1)
                    return Sum(a[ax[k]], f)
                return go(0) * recip(n)
            c.tensor_is('variance over axes', t, out, want)
            c.unchanged('operand', x, 'A', a); c.unchanged('mean', mu, 'M', out)
        return fn
    for r in (1, 2, 3):
        for k in range(1, r + 1):
            for axes in combinations(range(r), k):
                R.scenario('mean rank %d axes %s' % (r, list(axes)), means(r, axes), 60)
                R.scenario('variance rank %d axes %s' % (r, list(axes)), vars_(r, axes), 60)
    R.scenario('mean rank 2 axes []', means(2, ()), 60)
    for axes in ((2, 0), (1, 0), (2, 1), (2, 1, 0), (1, 2, 0)): R.scenario('mean rank 3 axes %s' % list(axes), means(3, axes), 60)
    R.scenario('variance rank 3 axes [2, 0]', vars_(3, (2, 0)), 60)
    for axes in permutations((0, 1, 3)): R.scenario('mean rank 4 axes %s' % list(axes), means(4, axes), 100)
    R.scenario('mean rank 4 axes [3, 1, 2]', means(4, (3, 1, 2)), 100)
    R.scenario('mean rank 4 axes [3, 0]', means(4, (3, 0)), 100)
    R.scenario('mean rank 5 axes [4, 0, 2]', means(5, (4, 0, 2)), 100)
    R.scenario('variance rank 4 axes [3, 0, 2]', vars_(4, (3, 0, 2)), 100)
    for axes in ((0, 2, 3), (2, 3), (0,), (1, 3)):
        R.scenario('mean rank 4 axes %s' % list(axes), means(4, axes), 100)
        R.scenario('variance rank 4 axes %s' % list(axes), vars_(4, axes), 100)
    def total2(r):
        def fn(c):
            uses(c, 'sum')
            a = c.dims('a', r); x = c.tensor('A', a)
            n = prod(a)
            t = c.call('AdvancedTensorOperations', 'mean', None, [x], '(const Tensor<float> &)')
            c.tensor_is('mean of everything', t, [ONE], lambda q: Sum(n, lambda v: rd('A', v)) * recip(n))
            mu = c.tensor('M', [ONE])
            t = c.call('AdvancedTensorOperations', 'variance', None, [x, mu], '(const Tensor<float> &, const Tensor<float> &)')
            c.tensor_is('variance of everything', t, [ONE], lambda q: Sum(n, lambda v: (rd('A', v) - rd('M', ZERO)) ** 2) * recip(n))
            c.unchanged('operand', x, 'A', a)
        return fn
    for r in (1, 2, 3, 4): R.scenario('total mean and variance rank %d' % r, total2(r), 40)
