from scen import *
import contracts

def recorder(c, cls='SGDOptimizer'):
    """an optimizer that records what it is given and writes new content into every weight"""
    m = c.m
    calls = []
    def h(s, f, this, args):
        def lst(a):
            v = s.load(a)
            if not isinstance(v, Vec): raise Unsupported('weight list')
            out = []
            for e in v.e:
                x = s.mem[e]
                if isinstance(x, ObjPtr): x = x.base
                out.append(x if isinstance(x, int) else e)
            return out
        ws, gs = lst(args[0]), lst(args[1])
        lr = s.v(args[2]) if len(args) > 2 else None
        calls.append((ws, gs, lr, this))
        for i, w in enumerate(ws): c.fill(w, 'N%d_%d' % (len(calls), i))
        return None
    m.hooks[(cls, 'optimize')] = h
    return calls

def new_fc(c, n_in, n_out, w='W', b='B'):
    m = c.m
    L = m.construct('FullyConnectedLayer', [n_in, n_out], 'void (int, int)')
    c.call('FullyConnectedLayer', 'setWeights', L, [c.tensor(w, [n_in, n_out])])
    c.call('FullyConnectedLayer', 'setBiases', L, [c.tensor(b, [ONE, n_out])])
    return L

FC = 'FullyConnectedLayer'
def c11(R):
    def run(rank, passes):
        def fn(c):
            m = c.m
            contracts.install(c, 'arith', 'reduce', 'matmul')
            I, O = c.dims('n', 2)
            L = new_fc(c, I, O)
            W = lambda i, j: rd('W', i * O + j)
            if passes == 0:
                g = c.tensor('G', c.dims('g', rank))
                c.throws('backward pass before any forward pass rejected', lambda: c.call(FC, 'backward', L, [g])); return
            for k in range(passes):
                xn, gn = 'X%d' % k, 'G%d' % k
                N = c.var('b%d' % k, 1) if rank == 2 else ONE
                c.bound([N, I]); c.bound([N, O])
                xd = [N, I] if rank == 2 else [I]; od = [N, O] if rank == 2 else [O]
                X = lambda r, i: rd(xn, r * I + i)
                G = lambda r, j: rd(gn, r * O + j)
                x = c.tensor(xn, xd); g = c.tensor(gn, od)
                y = c.call(FC, 'forward', L, [x])
                c.tensor_is('output %d' % k, y, od, lambda q: Sum(I, lambda i: X(q[0] if rank == 2 else ZERO, i) * W(i, q[-1])) + rd('B', q[-1]))
                c.unchanged('input %d' % k, x, xn, xd)
                c.fill(x, 'Z%d' % k)      # the caller may reuse its tensor
                for again in range(2 if k == 0 else 1):
                    d = c.call(FC, 'backward', L, [g])
                    c.tensor_is('input gradient %d' % k, d, xd, lambda q: Sum(O, lambda j: G(q[0] if rank == 2 else ZERO, j) * W(q[-1], j)))
                    c.tensor_is('weight gradient %d' % k, c.call(FC, 'getWeightGradients', L, []), [I, O], lambda q: Sum(N, lambda r: X(r, q[0]) * G(r, q[1])))
                    c.tensor_is('bias gradient %d' % k, c.call(FC, 'getBiasGradients', L, []), [ONE, O], lambda q: Sum(N, lambda r: G(r, q[1])))
                    c.unchanged('upstream gradient %d' % k, g, gn, od)
            c.tensor_is('weights', c.call(FC, 'getWeights', L, []), [I, O], lambda q: W(q[0], q[1]))
            c.tensor_is('biases', c.call(FC, 'getBiases', L, []), [ONE, O], lambda q: rd('B', q[1]))
        return fn
    for rank in (1, 2):
        for p in (0, 1, 2): R.scenario('rank %d, %d forward passes' % (rank, p), run(rank, p), 60)
    def mixed(c):
        """a batch, then a single sample, then a batch"""
        contracts.install(c, 'arith', 'reduce', 'matmul')
        I, O = c.dims('n', 2); L = new_fc(c, I, O); N = c.var('b', 1)
        c.bound([N, I]); c.bound([N, O])
        for k, (xd, od, n) in enumerate((([N, I], [N, O], N), ([I], [O], ONE), ([N, I], [N, O], N))):
            xn, gn = 'X%d' % k, 'G%d' % k
            c.call(FC, 'forward', L, [c.tensor(xn, xd)])
            d = c.call(FC, 'backward', L, [c.tensor(gn, od)])
            row = lambda q: q[0] if len(xd) == 2 else ZERO
            c.tensor_is('input gradient %d' % k, d, xd, lambda q: Sum(O, lambda j: rd(gn, row(q) * O + j) * rd('W', q[-1] * O + j)))
            c.tensor_is('weight gradient %d' % k, c.call(FC, 'getWeightGradients', L, []), [I, O], lambda q: Sum(n, lambda r: rd(xn, r * I + q[0]) * rd(gn, r * O + q[1])))
            c.tensor_is('bias gradient %d' % k, c.call(FC, 'getBiasGradients', L, []), [ONE, O], lambda q: Sum(n, lambda r: rd(gn, r * O + q[1])))
    R.scenario('batch, sample, batch', mixed, 60)
    def rowgrad(c):
        """a single sample whose gradient comes as one row"""
        contracts.install(c, 'arith', 'reduce', 'matmul')
        I, O = c.dims('n', 2); L = new_fc(c, I, O)
        c.bound([I]); c.bound([O])
        x = c.tensor('X', [I]); c.call(FC, 'forward', L, [x])
        d = c.call(FC, 'backward', L, [c.tensor('G', [ONE, O])])
        c.tensor_is('input gradient', d, [I], lambda q: Sum(O, lambda j: rd('G', j) * rd('W', q[0] * O + j)))
        c.tensor_is('weight gradient', c.call(FC, 'getWeightGradients', L, []), [I, O], lambda q: rd('X', q[0]) * rd('G', q[1]))
        c.tensor_is('bias gradient', c.call(FC, 'getBiasGradients', L, []), [ONE, O], lambda q: rd('G', q[1]))
    R.scenario('sample with a gradient row', rowgrad, 60)
    def width(rank):
        def fn(c):
            contracts.install(c, 'arith', 'reduce', 'matmul')
            I, O = c.dims('n', 2); L = new_fc(c, I, O)
            xd = c.dims('x', rank)
            x = c.tensor('X', xd)
            c.fact(not_(eq(xd[-1], I)))
            c.throws('input of another width rejected', lambda: c.call(FC, 'forward', L, [x]))
            c.unchanged('input', x, 'X', xd)
            c.tensor_is('weights', c.call(FC, 'getWeights', L, []), [I, O], lambda q: rd('W', q[0] * O + q[1]))
        return fn
    for rank in (1, 2): R.scenario('width rank %d' % rank, width(rank), 30)
    def update(rank):
        def fn(c):
            m = c.m
            contracts.install(c, 'arith', 'reduce', 'matmul')
            I, O = c.dims('n', 2); L = new_fc(c, I, O); N = c.var('b', 1) if rank == 2 else ONE
            c.bound([N, I]); c.bound([N, O])
            calls = recorder(c)
            opt = m.construct('SGDOptimizer', [m.construct('SGDOptions', [], None)], None)
            for k in range(2):
                xn, gn = 'X%d' % k, 'G%d' % k
                c.call(FC, 'forward', L, [c.tensor(xn, [N, I] if rank == 2 else [I])])
                c.call(FC, 'backward', L, [c.tensor(gn, [N, O] if rank == 2 else [O])])
                before = [('W', 'B'), None][k] if k == 0 else names
                c.call(FC, 'updateWeights', L, [opt])
                c.check('the optimizer is called once', len(calls) == k + 1)
                ws, gs, lr, this = calls[k]
                c.check('the model\'s optimizer', this == opt)
                c.check('two weights and two gradients', len(ws) == 2 and len(gs) == 2)
                if lr is not None: c.eq('no learning rate given', lr, P(-1))
                # which of the two is the weights: told by the shape seen through the layer
                W = contracts.View(c, c.call(FC, 'getWeights', L, []))
                q = c.index([I, O], 'p')
                w = W.at(q)
                f = flat(q, [I, O])
                i = 0 if CTX.prove(eq(w, rd('N%d_0' % (k + 1), f))) else 1
                names = ('N%d_%d' % (k + 1, i), 'N%d_%d' % (k + 1, 1 - i))
                c.tensor_is('weights written by the optimizer', c.call(FC, 'getWeights', L, []), [I, O], lambda q: rd(names[0], flat(q, [I, O])))
                c.tensor_is('biases written by the optimizer', c.call(FC, 'getBiases', L, []), [ONE, O], lambda q: rd(names[1], q[1]))
                c.tensor_is('gradient paired with the weights', gs[i], [I, O], lambda q: Sum(N, lambda r: rd(xn, r * I + q[0]) * rd(gn, r * O + q[1])))
                c.tensor_is('gradient paired with the biases', gs[1 - i], [ONE, O], lambda q: Sum(N, lambda r: rd(gn, r * O + q[1])))
        return fn
    for rank in (1, 2): R.scenario('update rank %d' % rank, update(rank), 60)
