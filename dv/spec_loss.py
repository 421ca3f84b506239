from fractions import Fraction
from scen import *
import contracts
MSE = 'MSELoss'; CCE = 'CategoricalCrossEntropyLoss'
def T(n, d): return lambda q: rd(n, flat(q, d))
def fn_log(x): return fn('log', x, isint=False)
def clamp(x):
    lo = P(Fraction(1, 10 ** 7)); hi = 1 - lo
    return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))
def total(d, f, q=()):
    """sum of f over all indices"""
    if not d: return f(list(q))
    return Sum(d[0], lambda i: total(d[1:], f, list(q) + [i]))

def c18(R):
    def start(c, cls, pd, td):
        c.bound(pd); c.bound(td)
        L = c.m.construct(cls, [], 'void ()')
        return L, c.tensor('P', pd), c.tensor('T', td)
    def both(c, cls, L, p, t, pd, td, value, grad, n=''):
        v = c.call(cls, 'compute', L, [p, t])
        g = c.call(cls, 'gradient', L, [p, t])
        c.eq('loss' + n + ' has one element', c.size_of(v), ONE)
        c.eq('loss' + n, c.at(v, [ZERO], [ONE]), value)
        c.tensor_is('gradient' + n, g, pd, grad)
        c.unchanged('prediction' + n, p, 'P' + n, pd)
        c.unchanged('target' + n, t, 'T' + n, td)
    def mse(r, column=False, one=False):
        def fn(c):
            contracts.install(c, 'arith', 'reduce')
            if column:
                a = c.var('a', 1); pd = [a] + [ONE] * (r - 1); td = [a]
            else: pd = td = c.dims('a', r)
            L, p, t = start(c, MSE, pd, td)
            X, Y = T('P', pd), T('T', td)
            D = lambda q: X(q) - Y(q[:1] if column else q)
            n = prod(pd)
            both(c, MSE, L, p, t, pd, td, total(pd, lambda q: D(q) ** 2) * recip(n), lambda q: 2 * D(q) * recip(n))
        return fn
    for r in (1, 2, 3, 4, 5): R.scenario('mean squared error, rank %d' % r, mse(r), 30)
    for r in (2, 3, 4): R.scenario('mean squared error, one value per row, rank %d' % r, mse(r, True), 30)
    def cce(passes):
        def fn(c):
            contracts.install(c, 'arith')
            L = None
            for k in range(passes):
                s = str(k) if k else ''
                d = c.dims('a' + s, 2)
                c.bound(d)
                if L is None: L = c.m.construct(CCE, [], 'void ()')
                p, t = c.tensor('P' + s, d), c.tensor('T' + s, d)
                X, Y = T('P' + s, d), T('T' + s, d)
                both(c, CCE, L, p, t, d, d, -total(d, lambda q: Y(q) * fn_log(clamp(X(q)))) * recip(d[0]), lambda q: -Y(q) * recip(clamp(X(q))) * recip(d[0]), s)
        return fn
    R.scenario('cross entropy', cce(1), 60)
    R.scenario('cross entropy, twice', cce(2), 60)
    def history(cls, r):
        """one loss object used on several pairs, and on tensors whose content changed in between"""
        def fn(c):
            contracts.install(c, 'arith', 'reduce')
            L = c.m.construct(cls, [], 'void ()')
            ds = [c.dims('a', r), c.dims('b', r)]
            for d in ds: c.bound(d)
            ts = [[c.tensor('P%d' % k, d), c.tensor('T%d' % k, d)] for k, d in enumerate(ds)]
            cur = [(('P%d' % k), ('T%d' % k)) for k in (0, 1)]
            n = 0
            for op in ('v0', 'g1', 'w1', 'g1', 'v1', 'g0', 'w0', 'v0', 'g0'):
                k = int(op[1]); d = ds[k]; n += 1
                if op[0] == 'w':
                    cur[k] = ('P%d_%d' % (k, n), 'T%d_%d' % (k, n))
                    for t, x in zip(ts[k], cur[k]): c.fill(t, x)
                    continue
                X, Y = (T(x, d) for x in cur[k])
                if op[0] == 'v':
                    v = c.call(cls, 'compute', L, ts[k])
                    want = total(d, lambda q: (X(q) - Y(q)) ** 2) * recip(prod(d)) if cls == MSE else -total(d, lambda q: Y(q) * fn_log(clamp(X(q)))) * recip(d[0])
                    c.eq('call %d: loss' % n, c.at(v, [ZERO], [ONE]), want)
                else:
                    g = c.call(cls, 'gradient', L, ts[k])
                    c.tensor_is('call %d: gradient' % n, g, d, (lambda q: 2 * (X(q) - Y(q)) * recip(prod(d))) if cls == MSE else (lambda q: -Y(q) * recip(clamp(X(q))) * recip(d[0])))
        return fn
    for r in (1, 2): R.scenario('mean squared error, calls in any order, rank %d' % r, history(MSE, r), 60)
    R.scenario('cross entropy, calls in any order', history(CCE, 2), 90)
    def bad(cls, rp, rt, f):
        def fn(c):
            contracts.install(c, 'arith', 'reduce')
            pd, td = c.dims('p', rp), c.dims('t', rt)
            c.fact(f(pd, td))
            L, p, t = start(c, cls, pd, td)
            for n in ('compute', 'gradient'):
                c.throws('%s rejects' % n, lambda: c.call(cls, n, L, [p, t]))
                c.unchanged('prediction after ' + n, p, 'P', pd)
                c.unchanged('target after ' + n, t, 'T', td)
        return fn
    differ = lambda p, t: or_(*[not_(eq(x, y)) for x, y in zip(p, t)])
    yes = lambda p, t: TRUE
    for r in (1, 2, 3, 4): R.scenario('mean squared error, other shape of rank %d is rejected' % r, bad(MSE, r, r, differ), 30)
    for rp, rt in ((1, 2), (1, 3), (2, 3), (3, 2), (2, 4), (4, 2)): R.scenario('mean squared error, ranks %d and %d are rejected' % (rp, rt), bad(MSE, rp, rt, yes), 30)
    for rp in (2, 3): R.scenario('mean squared error, rank %d prediction with a list of another length is rejected' % rp, bad(MSE, rp, 1, lambda p, t: not_(eq(prod(p), prod(t)))), 30)
    R.scenario('cross entropy, other shape is rejected', bad(CCE, 2, 2, differ), 30)
    for rp, rt in ((2, 1), (1, 2), (2, 3), (3, 2), (1, 1), (3, 3), (4, 4)): R.scenario('cross entropy, ranks %d and %d are rejected' % (rp, rt), bad(CCE, rp, rt, yes), 30)
