from scen import *
import contracts

def c14(R):
    FL = 'FlattenLayer'
    def flat_of(a): return [a[0], prod(a[1:])]
    def once(c, L, k, r, again=1):
        xn = 'X%d' % k
        a = c.dims('d%d_' % k, r); x = c.tensor(xn, a)
        y = c.call(FL, 'forward', L, [x])
        c.tensor_is('output %d' % k, y, flat_of(a), lambda q: rd(xn, q[0] * prod(a[1:]) + q[1]))
        c.unchanged('input %d' % k, x, xn, a)
        c.fill(x, 'Z%d' % k)
        for i in range(again):
            gn = 'G%d_%d' % (k, i)
            g = c.tensor(gn, flat_of(a))
            d = c.call(FL, 'backward', L, [g])
            c.tensor_is('gradient %d' % k, d, a, lambda q: rd(gn, flat(q, a)))
            c.unchanged('upstream gradient %d' % k, g, gn, flat_of(a))
    def seq(rs):
        def fn(c):
            L = c.m.construct(FL, [], None)
            for k, r in enumerate(rs): once(c, L, k, r, 2 if k == 0 else 1)
        return fn
    for r in (2, 3, 4, 5): R.scenario('rank %d' % r, seq([r]), 30)
    for r1 in (2, 3, 4, 5):
        for r2 in (2, 3, 4, 5): R.scenario('rank %d then rank %d' % (r1, r2), seq([r1, r2]), 30)
    R.scenario('four passes', seq([4, 2, 3, 4]), 40)
    def forwards(r1, r2):
        """two forward passes before the backward pass"""
        def fn(c):
            L = c.m.construct(FL, [], None)
            c.call(FL, 'forward', L, [c.tensor('Y', c.dims('y', r1))])
            once(c, L, 0, r2)
        return fn
    for r1, r2 in ((2, 4), (4, 2), (3, 3), (4, 4), (4, 3)): R.scenario('rank %d not followed by a backward pass, then rank %d' % (r1, r2), forwards(r1, r2), 30)
    def reject(c):
        L = c.m.construct(FL, [], None)
        a = c.dims('a', 1); x = c.tensor('X', a)
        c.throws('input of rank 1 rejected', lambda: c.call(FL, 'forward', L, [x])); c.unchanged('input', x, 'X', a)
        for r in (2, 3):
            b = c.dims('b%d_' % r, r)
            c.throws('backward pass before any forward pass rejected', lambda: c.call(FL, 'backward', L, [c.tensor('G%d' % r, b)]))
        once(c, L, 0, 3)
        c.throws('input of rank 1 rejected after others', lambda: c.call(FL, 'forward', L, [x])); c.unchanged('input', x, 'X', a)
    R.scenario('rejections', reject, 20)
    def upstream(r):
        """the upstream gradient may have any shape with the right number of elements"""
        def fn(c):
            L = c.m.construct(FL, [], None)
            a = c.dims('a', r)
            c.call(FL, 'forward', L, [c.tensor('X', a)])
            d = c.call(FL, 'backward', L, [c.tensor('G', a)])
            c.tensor_is('gradient', d, a, lambda q: rd('G', flat(q, a)))
        return fn
    for r in (3, 4): R.scenario('upstream gradient of rank %d' % r, upstream(r), 20)

def c16(R):
    DL = 'DropoutLayer'
    def history(ops, r):
        """ops: T/I switch the mode, f/b run a pass (F: forward on another shape, B: backward on another shape)"""
        def fn(c):
            m = c.m
            contracts.install(c, 'arith')
            rate = V('rate', False)
            c.fact(ge0(rate)); c.fact(gt0(1 - rate))
            L = m.construct(DL, [rate], None)
            m.put(m.rng_addr, c.var('draws', 0))
            train = True; mask = None
            scale = recip(1 - rate)
            shapes = [c.dims('a', r), c.dims('b', r)]
            for k, o in enumerate(ops):
                if o in 'TI':
                    train = o == 'T'
                    c.call(DL, 'setTrainingMode', L, [TRUE if train else FALSE]); continue
                a = shapes[0] if o in 'fb' else shapes[1]
                xn = 'X%d' % k
                x = c.tensor(xn, a)
                k0 = m.mem[m.rng_addr]
                if o in 'fF':
                    y = c.call(DL, 'forward', L, [x])
                    if train:
                        mask = (a, k0)
                        c.tensor_is('training output %d' % k, y, a, lambda q: ite(lt(rd('U01', k0 + flat(q, a)), rate), ZERO, rd(xn, flat(q, a)) * scale))
                        c.holds('one draw per element %d' % k, ge0(m.mem[m.rng_addr] - k0 - prod(a)))
                    else: c.tensor_is('inference output %d' % k, y, a, lambda q: rd(xn, flat(q, a)))
                else:
                    go = lambda: c.call(DL, 'backward', L, [x])
                    if not train: c.tensor_is('inference gradient %d' % k, go(), a, lambda q: rd(xn, flat(q, a)))
                    elif mask is None: c.throws('training backward pass without a training forward pass rejected %d' % k, go)
                    elif mask[0] is not a and not contracts.same_shape(c, mask[0], a): c.throws('gradient of another shape rejected %d' % k, go)
                    else:
                        kk = mask[1]
                        c.tensor_is('training gradient %d' % k, go(), a, lambda q: ite(lt(rd('U01', kk + flat(q, a)), rate), ZERO, rd(xn, flat(q, a)) * scale))
                c.unchanged('argument %d' % k, x, xn, a)
        return fn
    for r in (1, 2, 3, 4):
        R.scenario('training passes rank %d' % r, history('fbb', r), 40)
        R.scenario('inference passes rank %d' % r, history('IfbTb', r), 40)
    for h in ('b', 'Ib', 'IfTb', 'IFbTfb', 'ffb', 'fFb', 'fFB', 'fIfTb', 'fIFTb', 'fIfbTb', 'fbfb', 'fIbTb', 'fIbTfb', 'fITb', 'fB', 'FfB', 'fbIfTbfb', 'IfTfIfTb'):
        R.scenario('history %s' % h, history(h, 2), 60)
    for r in (1, 3, 4):
        for h in ('ffb', 'fbfb', 'fFB', 'fIfTb'): R.scenario('history %s rank %d' % (h, r), history(h, r), 60)
    for r1, r2 in ((2, 1), (2, 3), (1, 2)):
        def ranks(c):
            contracts.install(c, 'arith')
            rate = V('rate', False); c.fact(ge0(rate)); c.fact(gt0(1 - rate))
            L = c.m.construct(DL, [rate], None)
            c.call(DL, 'forward', L, [c.tensor('X', c.dims('x', r1))])
            c.throws('gradient of another rank rejected', lambda: c.call(DL, 'backward', L, [c.tensor('G', c.dims('g', r2))]))
        R.scenario('input rank %d, gradient rank %d' % (r1, r2), ranks, 20)
