from scen import *
from terms import mk_fold, fresh, varname
import contracts
MP = 'MaxPooling2DLayer'

class Pool:
    """a layer with arbitrary options and its mathematical map"""
    def __init__(s, c, ctor=3, fixed=None):
        s.c = c; m = c.m; m.mm_symbolic = True
        s.P = P(fixed) if fixed else c.var('pool', 1, INT_MAX)
        s.st = c.var('st', 1, INT_MAX) if ctor > 1 else s.P
        s.pd = c.var('pd', 0, INT_MAX) if ctor > 2 else ZERO
        if ctor > 2: c.fact(ge0(s.P - 1 - s.pd))
        sig = 'void (%s)' % ', '.join(['int'] * ctor)
        s.L = m.construct(MP, [s.P, s.st, s.pd][:ctor], sig)
    def dims(s, k, fits=True):
        c = s.c
        n, ch, h, w = c.var('n%d' % k, 1), c.var('c%d' % k, 1), c.var('h%d' % k, 1), c.var('w%d' % k, 1)
        xd = [n, ch, h, w]
        c.bound(xd)
        if not fits: return xd
        sh, sw = h + 2 * s.pd - s.P, w + 2 * s.pd - s.P
        c.fact(ge0(sh)); c.fact(ge0(sw))
        oh, ow = c.var('u%d' % k, 1), c.var('v%d' % k, 1)
        if s.st == s.P: c.quotient(h, s.P, oh); c.quotient(w, s.P, ow)
        else: c.quotient(sh, s.st, oh - 1); c.quotient(sw, s.st, ow - 1)
        yd = [n, ch, oh, ow]
        c.bound(yd)
        return xd, yd
    def window(s, X, xd, q, what='max', j=0):
        """largest element of the window of output position q; its first position in row-major order"""
        n, ch, y, x = q
        k, l = fresh('k'), fresh('l')
        r, t = y * s.st - s.pd + k, x * s.st - s.pd + l
        with CTX.ranges([(varname(k), s.P), (varname(l), s.P)]): g = and_(*[b for b in (ge0(r), ge0(xd[2] - 1 - r), ge0(t), ge0(xd[3] - 1 - t)) if not CTX.prove(b)])
        vs = [(list(k.fv)[0], s.P), (list(l.fv)[0], s.P)]
        return mk_fold(what, j, vs, g, X([n, ch, r, t]))

def arr(name, d): return lambda q: rd(name, flat(q, d))
def c13(R):
    def forward(ctor):
        def fn(c):
            K = Pool(c, ctor)
            xd, yd = K.dims(0)
            x = c.tensor('X', xd)
            y = c.call(MP, 'forward', K.L, [x])
            c.tensor_is('output', y, yd, lambda q: K.window(arr('X', xd), xd, q))
            c.unchanged('input', x, 'X', xd)
        return fn
    for k in (3, 2, 1): R.scenario('forward, %d options' % k, forward(k), 90)
    def grad(K, X, G, q, xd, yd):
        n, ch, r, t = q
        def term(y, x):
            p = [n, ch, y, x]
            row = y * K.st - K.pd + K.window(X, xd, p, 'arg', 0)
            col = x * K.st - K.pd + K.window(X, xd, p, 'arg', 1)
            return ind(eq(row, r)) * ind(eq(col, t)) * G(p)
        return Sum(yd[2], lambda y: Sum(yd[3], lambda x: term(y, x)))
    def backward(passes, repeat=1, ctor=3):
        def fn(c):
            K = Pool(c, ctor)
            for k in range(passes):
                xd, yd = K.dims(k)
                xn, gn = 'X%d' % k, 'G%d' % k
                x = c.tensor(xn, xd)
                c.call(MP, 'forward', K.L, [x])
                c.fill(x, 'Z%d' % k)
                g = c.tensor(gn, yd)
                for j in range(repeat): d = c.call(MP, 'backward', K.L, [g])
                if k < passes - 1: continue
                c.tensor_is('input gradient', d, xd, lambda q: grad(K, arr(xn, xd), arr(gn, yd), q, xd, yd))
                c.unchanged('upstream gradient', g, gn, yd)
        return fn
    R.scenario('backward', backward(1), 120)
    R.scenario('backward, two passes', backward(2), 150)
    R.scenario('backward, repeated', backward(1, 2), 150)
    R.scenario('backward, 2 options', backward(1, 1, 2), 120)
    R.scenario('backward, 1 options', backward(1, 1, 1), 120)
    def bad_rank(r):
        def fn(c):
            K = Pool(c)
            d = c.dims('d', r)
            x = c.tensor('X', d)
            c.throws('input of rank %d' % r, lambda: c.call(MP, 'forward', K.L, [x]))
        return fn
    for r in (1, 2, 3, 5): R.scenario('input of rank %d is rejected' % r, bad_rank(r), 30)
    def early(c):
        K = Pool(c)
        xd, yd = K.dims(0)
        g = c.tensor('G', yd)
        c.throws('backward before any forward', lambda: c.call(MP, 'backward', K.L, [g]))
    R.scenario('backward before forward is rejected', early, 30)
    def nofit(i):
        def fn(c):
            K = Pool(c)
            xd = K.dims(0, False)
            c.fact(gt0(K.P - xd[i] - 2 * K.pd))
            x = c.tensor('X', xd)
            c.throws('window larger than the padded input', lambda: c.call(MP, 'forward', K.L, [x]))
        return fn
    R.scenario('window taller than the padded input is rejected', nofit(2), 30)
    R.scenario('window wider than the padded input is rejected', nofit(3), 30)
