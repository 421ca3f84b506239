from scen import *
from spec_fc import recorder
import contracts

CV = 'Conv2DLayer'

class Conv:
    """a layer with arbitrary options and content, and its mathematical map"""
    def __init__(s, c, small=False):
        s.c = c; m = c.m; s.small = small
        s.ci = c.var('ci', 1); s.co = c.var('co', 1)
        if small: s.kh = s.kw = P(2); s.st, s.pd, s.dl = ONE, ZERO, ONE
        else:
            s.kh = c.var('kh', 1); s.kw = c.var('kw', 1)
            s.st = c.var('st', 1, INT_MAX); s.pd = c.var('pd', 0, INT_MAX); s.dl = c.var('dl', 1, INT_MAX)
        s.wd = [s.co, s.ci, s.kh, s.kw]
        c.bound(s.wd)
        if small: s.L = m.construct(CV, [s.ci, s.co, s.kh], 'void (int, int, int, int, int, int)')
        else: s.L = m.construct(CV, [s.ci, s.co, s.kh, s.kw, s.st, s.pd, s.dl], 'void (int, int, int, int, int, int, int)')
        c.call(CV, 'setWeights', s.L, [c.tensor('W', s.wd)])
        c.call(CV, 'setBiases', s.L, [c.tensor('B', [s.co, ONE])])
    def span(s, n, k): return n + 2 * s.pd - s.dl * (k - 1) - 1
    def dims(s, k, fits=True):
        """an input shape and the shape of its output"""
        c = s.c
        n = c.var('n%d' % k, 1)
        if s.small:
            xd, yd = [n, s.ci, P(3), P(2)], [n, s.co, P(2), P(1)]
            c.bound(xd); c.bound(yd)
            return xd, yd
        h, w = c.var('h%d' % k, 1), c.var('w%d' % k, 1)
        xd = [n, s.ci, h, w]
        c.bound(xd)
        if not fits: return xd
        sh, sw = s.span(h, s.kh), s.span(w, s.kw)
        c.fact(ge0(sh)); c.fact(ge0(sw))
        # the quotients of the shape formula are named through the rows and columns of the output
        oh, ow = c.var('u%d' % k, 1), c.var('v%d' % k, 1)
        c.quotient(sh, s.st, oh - 1); c.quotient(sw, s.st, ow - 1)
        yd = [n, s.co, oh, ow]
        c.bound(yd)
        return xd, yd
    def W(s, q): return rd('W', flat(q, s.wd))
    def inside(s, y, x, xd): return and_(ge0(y), lt(y, xd[2]), ge0(x), lt(x, xd[3]))
    def out(s, X, q, xd):
        b, o, y, x = q
        def term(i, k, l):
            r, t = y * s.st + k * s.dl - s.pd, x * s.st + l * s.dl - s.pd
            return ind(s.inside(r, t, xd)) * X([b, i, r, t]) * s.W([o, i, k, l])
        return Sum(s.ci, lambda i: Sum(s.kh, lambda k: Sum(s.kw, lambda l: term(i, k, l)))) + rd('B', o)
    def grad_in(s, G, q, xd, yd):
        b, i, r, t = q
        def term(o, y, x, k, l): return ind(eq(y * s.st + k * s.dl - s.pd, r)) * ind(eq(x * s.st + l * s.dl - s.pd, t)) * s.W([o, i, k, l]) * G([b, o, y, x])
        return Sum(s.co, lambda o: Sum(yd[2], lambda y: Sum(yd[3], lambda x: Sum(s.kh, lambda k: Sum(s.kw, lambda l: term(o, y, x, k, l))))))
    def grad_w(s, X, G, q, xd, yd):
        o, i, k, l = q
        def term(b, y, x):
            r, t = y * s.st + k * s.dl - s.pd, x * s.st + l * s.dl - s.pd
            return ind(s.inside(r, t, xd)) * X([b, i, r, t]) * G([b, o, y, x])
        return Sum(xd[0], lambda b: Sum(yd[2], lambda y: Sum(yd[3], lambda x: term(b, y, x))))
    def grad_b(s, G, o, yd): return Sum(yd[0], lambda b: Sum(yd[2], lambda y: Sum(yd[3], lambda x: G([b, o, y, x]))))

def arr(name, d): return lambda q: rd(name, flat(q, d))

def c12(R):
    def forward(small):
        def fn(c):
            K = Conv(c, small)
            xd, yd = K.dims(0)
            x = c.tensor('X0', xd)
            y = c.call(CV, 'forward', K.L, [x])
            c.tensor_is('output', y, yd, lambda q: K.out(arr('X0', xd), q, xd))
            c.unchanged('input', x, 'X0', xd)
            c.tensor_is('weights', c.call(CV, 'getWeights', K.L, []), K.wd, lambda q: K.W(q))
            c.tensor_is('biases', c.call(CV, 'getBiases', K.L, []), [K.co, ONE], lambda q: rd('B', q[0]))
        return fn
    R.scenario('forward', forward(False), 90)
    R.scenario('forward 2x2 kernel with default options', forward(True), 90)
    def backward(what, passes, small=False):
        def fn(c):
            K = Conv(c, small)
            for k in range(passes):
                xd, yd = K.dims(k)
                xn, gn = 'X%d' % k, 'G%d' % k
                x = c.tensor(xn, xd); g = c.tensor(gn, yd)
                c.call(CV, 'forward', K.L, [x])
                c.fill(x, 'Z%d' % k)
                X, G = arr(xn, xd), arr(gn, yd)
                for again in range(2 if passes == 1 and small else 1):
                    d = c.call(CV, 'backward', K.L, [g])
                if k < passes - 1: continue
                if 'i' in what: c.tensor_is('input gradient', d, xd, lambda q: K.grad_in(G, q, xd, yd))
                if 'w' in what: c.tensor_is('weight gradient', c.call(CV, 'getWeightGradients', K.L, []), K.wd, lambda q: K.grad_w(X, G, q, xd, yd))
                if 'b' in what: c.tensor_is('bias gradient', c.call(CV, 'getBiasGradients', K.L, []), [K.co, ONE], lambda q: K.grad_b(G, q[0], yd))
                c.unchanged('upstream gradient', g, gn, yd)
            c.tensor_is('weights', c.call(CV, 'getWeights', K.L, []), K.wd, lambda q: K.W(q))
            c.tensor_is('biases', c.call(CV, 'getBiases', K.L, []), [K.co, ONE], lambda q: rd('B', q[0]))
        return fn
    for w, nm in (('i', 'input'), ('w', 'weight'), ('b', 'bias')): R.scenario('backward %s gradient' % nm, backward(w, 1), 120)
    R.scenario('backward after two forward passes', backward('iwb', 2), 180)
    R.scenario('backward 2x2 kernel, repeated', backward('iwb', 1, True), 180)
    R.scenario('two passes 2x2 kernel', backward('iwb', 2, True), 180)
    def early(c):
        K = Conv(c)
        for r in (4, 2): c.throws('backward pass before any forward pass rejected (rank %d)' % r, lambda: c.call(CV, 'backward', K.L, [c.tensor('G', c.dims('g%d_' % r, r))]))
    R.scenario('backward first', early, 30)
    def nofit(axis):
        def fn(c):
            K = Conv(c)
            xd = K.dims(0, fits=False)
            x = c.tensor('X', xd)
            sh, sw = K.span(xd[2], K.kh), K.span(xd[3], K.kw)
            c.fact(lt(sh, ZERO) if axis == 0 else and_(ge0(sh), lt(sw, ZERO)))
            c.throws('kernel larger than the padded input rejected', lambda: c.call(CV, 'forward', K.L, [x]))
            c.unchanged('input', x, 'X', xd)
            c.tensor_is('weights', c.call(CV, 'getWeights', K.L, []), K.wd, lambda q: K.W(q))
        return fn
    for a in (0, 1): R.scenario('kernel does not fit, axis %d' % a, nofit(a), 40)
    def update(c):
        m = c.m
        K = Conv(c, True)
        calls = recorder(c)
        opt = m.construct('SGDOptimizer', [m.construct('SGDOptions', [], None)], None)
        xd, yd = K.dims(0)
        X, G = arr('X0', xd), arr('G0', yd)
        c.call(CV, 'forward', K.L, [c.tensor('X0', xd)])
        c.call(CV, 'backward', K.L, [c.tensor('G0', yd)])
        c.call(CV, 'updateWeights', K.L, [opt])
        c.check('the optimizer is called once', len(calls) == 1)
        ws, gs, lr, this = calls[0]
        c.check('the given optimizer', this == opt)
        c.check('two weights and two gradients', len(ws) == 2 and len(gs) == 2)
        if lr is not None: c.eq('no learning rate given', lr, P(-1))
        # which of the two is the kernel: told by the layer
        W = contracts.View(c, c.call(CV, 'getWeights', K.L, []))
        q = [c.var('p0', 0), c.var('p1', 0), ZERO, ONE]; c.fact(and_(ge0(K.co - 1 - q[0]), ge0(K.ci - 1 - q[1])))
        i = 0 if CTX.prove(eq(W.at(q), rd('N1_0', flat(q, K.wd)))) else 1
        c.tensor_is('weights written by the optimizer', c.call(CV, 'getWeights', K.L, []), K.wd, lambda q: rd('N1_%d' % i, flat(q, K.wd)))
        c.tensor_is('biases written by the optimizer', c.call(CV, 'getBiases', K.L, []), [K.co, ONE], lambda q: rd('N1_%d' % (1 - i), q[0]))
        c.tensor_is('gradient paired with the weights', gs[i], K.wd, lambda q: K.grad_w(X, G, q, xd, yd))
        c.tensor_is('gradient paired with the biases', gs[1 - i], [K.co, ONE], lambda q: K.grad_b(G, q[0], yd))
    R.scenario('update', update, 60)
    def exact(what):
        def fn(c):
            """the gradients stated above are the derivatives of the forward map"""
            K = Conv(c); xd, yd = K.dims(0)
            X, G = arr('X', xd), arr('G', yd)
            def total(): return Sum(yd[0], lambda b: Sum(yd[1], lambda o: Sum(yd[2], lambda y: Sum(yd[3], lambda x: K.out(X, [b, o, y, x], xd) * G([b, o, y, x])))))
            if what == 'input': d = xd; n = 'X'
            elif what == 'weight': d = K.wd; n = 'W'
            else: d = [K.co, ONE]; n = 'B'
            q = c.index(d)
            g = diff(total(), n, flat(q, d))
            c.eq('%s gradient is the derivative' % what, g, {'input': lambda: K.grad_in(G, q, xd, yd), 'weight': lambda: K.grad_w(X, G, q, xd, yd), 'bias': lambda: K.grad_b(G, q[0], yd)}[what]())
        return fn
    for w in ('input', 'weight', 'bias'): R.scenario('lemma %s' % w, exact(w), 60)
