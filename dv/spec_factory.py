from scen import *
T = 'Tensor'; OPS = 'TensorOperations'; FC = 'FullyConnectedLayer'; CV = 'Conv2DLayer'

def c21(R):
    ranks = (1, 2, 3, 4, 5) if R.tier == 'quick' else (1, 2, 3, 4, 5, 6)
    def filled(r):
        def fn(c):
            m = c.m
            d = c.dims('a', r); v = V('v', False)
            def S(): return c.shape(d)
            K = lambda x: (lambda q: P(x))
            c.tensor_is('tensor of a value', m.construct(T, [S(), v], 'void (Shape, float) noexcept'), d, K(v))
            c.tensor_is('tensor of a shape', m.construct(T, [S()], 'void (Shape) noexcept'), d, K(0))
            c.tensor_is('zeros', c.call(T, 'zeros', None, [S()], '(Shape)'), d, K(0))
            c.tensor_is('ones', c.call(T, 'ones', None, [S()], '(Shape)'), d, K(1))
            sh = S()
            t = m.construct(T, [c.call(OPS, 'createFill', None, [sh, v])], 'void (TensorData<float, CPUDevice> &&) noexcept')
            c.tensor_is('createFill', t, d, K(v))
            c.eq('shape argument unchanged', c.call('Shape', 'size', sh, []), prod(d))
            # filling a tensor's data afterwards replaces every element
            u = c.tensor('U', d)
            c.call('TensorData', 'fill', c.call(T, 'getData', u, []), [v])
            c.tensor_is('fill', u, d, K(v))
        return fn
    for r in ranks: R.scenario('filled tensors, rank %d' % r, filled(r), 60)
    def sized(c):
        n = c.var('n', 1, INT_MAX)
        c.tensor_is('zeros', c.call(T, 'zeros', None, [n], '(int)'), [n], lambda q: ZERO)
        c.tensor_is('ones', c.call(T, 'ones', None, [n], '(int)'), [n], lambda q: ONE)
    R.scenario('filled tensors of a size', sized, 30)
    def identity(c):
        n = c.var('n', 1, INT_MAX); c.bound([n, n])
        delta = lambda q: ind(eq(q[0], q[1]))
        c.tensor_is('identity', c.call(T, 'identity', None, [n]), [n, n], delta)
        c.tensor_is('createIdentity', c.m.construct(T, [c.call(OPS, 'createIdentity', None, [n])], 'void (TensorData<float, CPUDevice> &&) noexcept'), [n, n], delta)
    R.scenario('identity', identity, 60)
    def inrange(c, what, t, d, lo, hi):
        c.shape_is(what + ' shape', c.shape_of(t), d)
        q = c.index(d, what[0] + str(next_id()) + '_')
        x = c.at(t, q, d)
        c.holds(what + ' not below its range', ge0(x - lo))
        c.holds(what + ' not above its range', ge0(hi - x))
    def rand(r):
        def fn(c):
            d = c.dims('a', r); lo, hi = V('lo', False), V('hi', False)
            c.fact(ge0(hi - lo))
            inrange(c, 'rand', c.call(T, 'rand', None, [c.shape(d)], '(Shape)'), d, ZERO, ONE)
            inrange(c, 'randn', c.call(T, 'randn', None, [c.shape(d), lo, hi], '(Shape, float, float)'), d, lo, hi)
            inrange(c, 'createRandom', c.m.construct(T, [c.call(OPS, 'createRandom', None, [c.shape(d), lo, hi])], 'void (TensorData<float, CPUDevice> &&) noexcept'), d, lo, hi)
        return fn
    for r in ranks: R.scenario('random tensors, rank %d' % r, rand(r), 60)
    def randsized(c):
        n = c.var('n', 1, INT_MAX); lo, hi = V('lo', False), V('hi', False)
        c.fact(ge0(hi - lo))
        inrange(c, 'rand', c.call(T, 'rand', None, [n], '(int)'), [n], ZERO, ONE)
        inrange(c, 'randn', c.call(T, 'randn', None, [n, lo, hi], '(int, float, float)'), [n], lo, hi)
    R.scenario('random tensors of a size', randsized, 60)
    def fc(c):
        a, b = c.dims('n', 2)
        L = c.m.construct(FC, [a, b], 'void (int, int)')
        inrange(c, 'weights', c.call(FC, 'getWeights', L, []), [a, b], ZERO, ONE)
        c.tensor_is('biases', c.call(FC, 'getBiases', L, []), [ONE, b], lambda q: ZERO)
    R.scenario('new fully connected layer', fc, 60)
    def conv(k):
        def fn(c):
            i, o, kh, kw = c.dims('n', 4)
            args = [i, o, kh, kw] if k > 3 else [i, o, kh]
            if k == 3: kw = kh; c.bound([i, o, kh, kw])
            if k > 3: args = [i, o, kh, kw] + [c.var('s', 1, INT_MAX), c.var('p', 0, INT_MAX), c.var('d', 1, INT_MAX)]
            L = c.m.construct(CV, args, 'void (%s)' % ', '.join(['int'] * len(args)))
            inrange(c, 'weights', c.call(CV, 'getWeights', L, []), [o, i, kh, kw], ZERO, ONE)
            c.tensor_is('biases', c.call(CV, 'getBiases', L, []), [o, ONE], lambda q: ZERO)
        return fn
    R.scenario('new convolution layer', conv(7), 60)
    R.scenario('new convolution layer, square kernel', conv(3), 60)
    def engine(c):
        lo, hi, n = V('lo', False), V('hi', False), c.var('n', 1)
        c.fact(gt0(hi - lo))
        # contract of std::uniform_real_distribution: lo <= lo + (hi - lo) * U <= hi
        for k in range(2):
            u = rd('U01', P(k))
            for b in (ge0(u), ge0(1 - u), ge0((hi - lo) * u), ge0((hi - lo) * (1 - u))): CTX.add(b)
        for nm, args, l, h in (('getRandRange', [lo, hi], lo, hi), ('getRand', [], ZERO, ONE), ('getHeRandRange', [n, lo, hi], lo, hi)):
            x = c.m.v(c.call('RandomEngine', nm, None, args))
            c.holds(nm + ' not below its range', ge0(x - l)); c.holds(nm + ' not above its range', ge0(h - x))
    R.scenario('random engine', engine, 30)
