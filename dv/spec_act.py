from scen import *
from spec_arith import fn_sqrt
import contracts

def F(name, x): return fn(name, x, isint=False)
def sigm(x): return recip(1 + F('exp', -x))
ACT = {
    'ReLU': lambda x, al: ite(gt0(x), x, ZERO),
    'LeakyReLU': lambda x, al: ite(gt0(x), x, al * x),
    'Sigmoid': lambda x, al: sigm(x),
    'Tanh': lambda x, al: (F('exp', 2 * x) - 1) * recip(F('exp', 2 * x) + 1),
    'Swish': lambda x, al: x * sigm(x),
    'Mish': lambda x, al: x * F('tanh', F('log', 1 + F('exp', x))),
}
def make(c, n):
    """an activation of this class; LeakyReLU with an arbitrary slope"""
    if n == 'LeakyReLU':
        al = V('alpha', False)
        return c.m.construct(n, [al], 'void (float)'), al
    return c.m.construct(n, [], None), None

def softmax(name, dims):
    """probability at a flat position; dims[0] samples of prod(dims[1:]) positions"""
    n = prod(dims[1:])
    def at(b, i):
        return F('exp', rd(name, b * n + i)) * recip(Sum(n, lambda j: F('exp', rd(name, b * n + j))))
    return at

def c09(R):
    def forward(n, r):
        def fn(c):
            contracts.install(c, 'arith')
            a = c.dims('a', r); x = c.tensor('A', a)
            act, al = make(c, n)
            for k in ('', ' again'):
                t = c.call(n, 'forward', act, [x])
                c.tensor_is('output' + k, t, a, lambda q: ACT[n](rd('A', flat(q, a)), al))
                c.unchanged('input' + k, x, 'A', a)
        return fn
    for n in ACT:
        for r in (1, 2, 3, 4): R.scenario('%s rank %d' % (n, r), forward(n, r), 30)
    def history(n, r):
        """one activation object used on several tensors, and on a tensor whose content changed"""
        def fn(c):
            contracts.install(c, 'arith')
            act, al = make(c, n)
            ds = [c.dims('a', r), c.dims('b', r)]
            x = [c.tensor('A0', ds[0]), c.tensor('A1', ds[1])]
            for i, (k, nm, w) in enumerate(((0, 'A0', False), (1, 'A1', False), (0, 'A2', True), (1, 'A1', False))):
                if w: c.fill(x[k], nm)
                d = ds[k]
                t = c.call(n, 'forward', act, [x[k]])
                if n == 'Softmax':
                    p = softmax(nm, d)
                    c.tensor_is('output %d' % i, t, d, lambda q: p(q[0], flat(q[1:], d[1:])))
                else: c.tensor_is('output %d' % i, t, d, lambda q: ACT[n](rd(nm, flat(q, d)), al))
                c.unchanged('input %d' % i, x[k], nm, d)
        return fn
    for n in list(ACT) + ['Softmax']: R.scenario('%s on several tensors' % n, history(n, 2), 60)
    def default(c):
        a = c.dims('a', 1); x = c.tensor('A', a)
        act = c.m.construct('LeakyReLU', [P(Fraction(1, 100))], 'void (float)')
        c.tensor_is('output', c.call('LeakyReLU', 'forward', act, [x]), a, lambda q: ACT['LeakyReLU'](rd('A', q[0]), P(Fraction(1, 100))))
    R.scenario('LeakyReLU slope 0.01', default, 20)
    def ranges(n):
        def fn(c):
            a = c.dims('a', 1); x = c.tensor('A', a)
            act, al = make(c, n)
            t = c.call(n, 'forward', act, [x])
            q = c.index(a)
            v = c.at(t, q, a)
            c.holds('at most 1', ge0(1 - v))
            c.holds('at least %s' % ('0' if n == 'Sigmoid' else '-1'), ge0(v) if n == 'Sigmoid' else ge0(v + 1))
        return fn
    for n in ('Sigmoid', 'Tanh'): R.scenario('range of %s' % n, ranges(n), 20)
    def soft(r):
        def fn(c):
            a = c.dims('a', r); x = c.tensor('A', a)
            act, _ = make(c, 'Softmax')
            t = c.call('Softmax', 'forward', act, [x])
            p = softmax('A', a); n = prod(a[1:])
            c.tensor_is('output', t, a, lambda q: p(q[0], flat(q[1:], a[1:])))
            c.unchanged('input', x, 'A', a)
            b = c.index(a[:1], 'b')[0]
            tot = Sum(n, lambda i: c.m.buf_read(c.m.mem[c.data_ptr(t).base], b * n + i))
            c.eq('sum of a sample', tot, ONE)
            q = c.index(a, 'u'); v = c.at(t, q, a)
            c.holds('at least 0', ge0(v))
        return fn
    for r in (2, 3, 4): R.scenario('Softmax rank %d' % r, soft(r), 60)
    def rank1(c):
        a = c.dims('a', 1); x = c.tensor('A', a)
        act, _ = make(c, 'Softmax')
        c.throws('rank 1 rejected', lambda: c.call('Softmax', 'forward', act, [x]))
        c.unchanged('input', x, 'A', a)
    R.scenario('Softmax rank 1', rank1, 20)

def c10(R):
    def backward(n, r):
        def fn(c):
            contracts.install(c, 'arith')
            a = c.dims('a', r); x = c.tensor('A', a); g = c.tensor('G', a)
            act, al = make(c, n)
            t = c.call(n, 'backward', act, [x, g])
            c.shape_is('gradient shape', c.shape_of(t), a)
            c.eq('gradient size', c.size_of(t), prod(a))
            q = c.index(a); f = flat(q, a); v = rd('A', f)
            if n in ('ReLU', 'LeakyReLU'): c.fact(not_(eq(v, ZERO)))
            c.eq('gradient element', c.at(t, q, a), diff(ACT[n](v, al), 'A', f) * rd('G', f))
            c.unchanged('input', x, 'A', a); c.unchanged('upstream gradient', g, 'G', a)
        return fn
    for n in ACT:
        for r in (1, 2, 3, 4): R.scenario('%s rank %d' % (n, r), backward(n, r), 40)
    def soft(r):
        def fn(c):
            a = c.dims('a', r); x = c.tensor('A', a); g = c.tensor('G', a)
            act, _ = make(c, 'Softmax')
            t = c.call('Softmax', 'backward', act, [x, g])
            p = softmax('A', a); n = prod(a[1:])
            # transposed Jacobian: sum over j of d p_j / d x_i * g_j
            def want(q):
                b, i = q[0], flat(q[1:], a[1:])
                return Sum(n, lambda j: diff(p(b, j), 'A', b * n + i) * rd('G', b * n + j))
            c.tensor_is('gradient', t, a, want)
            c.unchanged('input', x, 'A', a); c.unchanged('upstream gradient', g, 'G', a)
        return fn
    for r in (2, 3, 4): R.scenario('Softmax rank %d' % r, soft(r), 90)
    def history(n, r):
        """gradients of one activation object on several tensors, between and after forward passes of others"""
        def fn(c):
            contracts.install(c, 'arith')
            act, al = make(c, n)
            ds = [c.dims('a', r), c.dims('b', r)]
            x = [c.tensor('A0', ds[0]), c.tensor('A1', ds[1])]; g = [c.tensor('G0', ds[0]), c.tensor('G1', ds[1])]
            for i, (op, k, nm, w) in enumerate((('f', 0, 'A0', False), ('b', 1, 'A1', False), ('f', 1, 'A1', False), ('b', 0, 'A0', False), ('b', 1, 'A2', True))):
                if w: c.fill(x[k], nm)
                d = ds[k]; h = 'G%d' % k
                if op == 'f': c.call(n, 'forward', act, [x[k]]); continue
                t = c.call(n, 'backward', act, [x[k], g[k]])
                c.shape_is('gradient shape %d' % i, c.shape_of(t), d)
                if n == 'Softmax':
                    p = softmax(nm, d); m = prod(d[1:])
                    def want(q):
                        b, j0 = q[0], flat(q[1:], d[1:])
                        return Sum(m, lambda j: diff(p(b, j), nm, b * m + j0) * rd(h, b * m + j))
                    c.tensor_is('gradient %d' % i, t, d, want)
                else:
                    q = c.index(d, 'q%d_' % i); f = flat(q, d); v = rd(nm, f)
                    if n in ('ReLU', 'LeakyReLU'): c.fact(not_(eq(v, ZERO)))
                    c.eq('gradient element %d' % i, c.at(t, q, d), diff(ACT[n](v, al), nm, f) * rd(h, f))
        return fn
    for n in list(ACT) + ['Softmax']: R.scenario('%s on several tensors' % n, history(n, 2), 90)
    def layer(k, hooked):
        """k forward passes, then a backward pass"""
        def fn(c):
            m = c.m
            act = c.m.construct('ReLU', [], None)
            seen = []
            if hooked:
                def fw(s, f, this, args):
                    seen.append(('f', contracts.View(c, args[0]))); A = seen[-1][1]
                    return contracts.result(c, A.dims, lambda p: terms_fn('act', A.flat(p)), True)
                def bw(s, f, this, args):
                    A = contracts.View(c, args[0]); G = contracts.View(c, args[1]); seen.append(('b', A, G))
                    return contracts.result(c, A.dims, lambda p: terms_fn('grad', A.flat(p), G.flat(p)), True)
                m.hooks[('ReLU', 'forward')] = fw; m.hooks[('ReLU', 'backward')] = bw
            else: contracts.install(c, 'arith')
            L = m.construct('ActivationLayer', [act], 'ReLU<float> &&')
            g0 = c.tensor('G', c.dims('g', 2))
            if k == 0:
                c.throws('backward pass before any forward pass rejected', lambda: c.call('ActivationLayer', 'backward', L, [g0])); return
            for i in range(k):
                nm = 'A%d' % i
                a = c.dims('d%d_' % i, 2); x = c.tensor(nm, a)
                n0 = len(seen)
                t = c.call('ActivationLayer', 'forward', L, [x])
                if hooked:
                    c.check('forward pass %d runs the activation once' % i, [e[0] for e in seen[n0:]] == ['f'])
                    c.tensor_is('output %d' % i, t, a, lambda q: terms_fn('act', rd(nm, flat(q, a))))
                else: c.tensor_is('output %d' % i, t, a, lambda q: ACT['ReLU'](rd(nm, flat(q, a)), None))
                c.unchanged('input %d' % i, x, nm, a)
                # the caller may reuse its tensor
                c.fill(x, 'Z%d' % i)
                for j in range(2 if i == k - 1 else 1):
                    h = 'H%d_%d' % (i, j)
                    g = c.tensor(h, a)
                    n0 = len(seen)
                    t = c.call('ActivationLayer', 'backward', L, [g])
                    if hooked:
                        c.check('backward pass %d.%d runs the gradient once' % (i, j), [e[0] for e in seen[n0:]] == ['b'])
                        c.tensor_is('gradient %d.%d' % (i, j), t, a, lambda q: terms_fn('grad', rd(nm, flat(q, a)), rd(h, flat(q, a))))
                    else:
                        q = c.index(a, 'w%d_%d_' % (i, j)); v = rd(nm, flat(q, a))
                        c.shape_is('gradient %d.%d' % (i, j), c.shape_of(t), a)
                        m_ = CTX.mark(); c.fact(not_(eq(v, ZERO)))
                        c.eq('gradient %d.%d' % (i, j), c.at(t, q, a), diff(ACT['ReLU'](v, None), nm, flat(q, a)) * rd(h, flat(q, a)))
                    c.unchanged('upstream gradient %d.%d' % (i, j), g, h, a)
        return fn
    for k in (0, 1, 2, 3): R.scenario('layer after %d forward passes' % k, layer(k, True), 60)
    R.scenario('layer with ReLU', layer(2, False), 60)

def terms_fn(n, *a): return fn('u_' + n, *a, isint=False)
