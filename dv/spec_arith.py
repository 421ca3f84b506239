from scen import *
from spec_tensor import bpairs, bindex

OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: rdiv(a, b)}
def rdiv(a, b): return P(a) * recip(P(b))
def fn_sqrt(x): return fn('sqrt', x, isint=False)
def fn_of(g, *a): return fn('u_' + g, *a, isint=False)
def mapfun(m, g, n=1):
    """an arbitrary function, given as a std::function"""
    return m.new(Lam(None, None, None, ('py', lambda s, *a: fn_of(g, *[s.v(x) for x in a]))))

def c04(R):
    def binary(op, r1, r2, self=False):
        def fn(c):
            m = c.m
            a = c.dims('a', r1); b = c.dims('b', r2) if not self else a
            x = c.tensor('A', a); y = c.tensor('B', b) if not self else x
            nb = 'B' if not self else 'A'
            out = bpairs(c, a, b) if not self else a
            if out is None:
                c.throws('shapes that do not fit rejected', lambda: c.call('Tensor', 'operator' + op, x, [y])); return
            c.bound(out)
            r = c.call('Tensor', 'operator' + op, x, [y], 'const Tensor')
            f = OPS[op]
            c.tensor_is('result', r, out, lambda q: f(rd('A', flat(bindex(c, q, a, out), a)), rd(nb, flat(bindex(c, q, b, out), b))))
            c.unchanged('left operand', x, 'A', a)
            if not self: c.unchanged('right operand', y, 'B', b)
        return fn
    def inplace(op, r1, r2, self=False):
        def fn(c):
            m = c.m
            a = c.dims('a', r1); b = c.dims('b', r2) if not self else a
            x = c.tensor('A', a); y = c.tensor('B', b) if not self else x
            nb = 'B' if not self else 'A'
            out = bpairs(c, a, b) if not self else a
            call = lambda: c.call('Tensor', 'operator' + op + '=', x, [y], 'const Tensor')
            if out is None:
                c.throws('shapes that do not fit rejected', call); c.unchanged('left operand of a rejected operation', x, 'A', a); return
            c.bound(out)
            if not c.choose(eq(prod(out), prod(a))):
                c.throws('a result with more elements rejected', call); return
            r = call()
            f = OPS[op]
            want = lambda q: f(rd('A', flat(bindex(c, q, a, out), a)), rd(nb, flat(bindex(c, q, b, out), b)))
            if r1 >= r2: c.tensor_is('left operand', x, a, want)
            else:
                q = c.index(out); c.eq('left operand element', c.at(x, q, out), want(q))
            if not self: c.unchanged('right operand', y, 'B', b)
        return fn
    ranks = [(1, 1), (1, 2), (2, 1), (2, 2)]
    for op in '+-*/':
        for r1, r2 in ranks: R.scenario('%d %s %d' % (r1, op, r2), binary(op, r1, r2), 60)
        for r1, r2 in ranks: R.scenario('%d %s= %d' % (r1, op, r2), inplace(op, r1, r2), 60)
        for r in (1, 2): R.scenario('%s with itself rank %d' % (op, r), binary(op, r, r, True), 40); R.scenario('%s= with itself rank %d' % (op, r), inplace(op, r, r, True), 40)
    def scalar(r):
        def fn(c):
            m = c.m
            a = c.dims('a', r)
            k = V('k', False)
            x = c.tensor('A', a)
            el = lambda q: rd('A', flat(q, a))
            for op in '+-*':
                t = c.call('Tensor', 'operator' + op, x, [k], '(float)')
                c.tensor_is('tensor %s scalar' % op, t, a, lambda q: OPS[op](el(q), k))
            for op in '+-*/':
                fs = [f for f in m.prog.free.get('operator' + op, []) if f.body is not None and len(f.params) == 2 and 'Tensor<float' in f.sig]
                if not fs: raise Unsupported('scalar %s tensor' % op)
                t = m.invoke(fs[0], None, [c.boxed(k), x])
                c.tensor_is('scalar %s tensor' % op, t, a, lambda q: OPS[op](k, el(q)))
            c.tensor_is('negation', c.call('Tensor', 'operator-', x, [], 'Tensor<float, CPUDevice> () const'), a, lambda q: ZERO - el(q))
            c.unchanged('operand', x, 'A', a)
            for op in '+-*':
                y = c.tensor('B', a)
                c.call('Tensor', 'operator' + op + '=', y, [k], '(float)')
                c.tensor_is('tensor %s= scalar' % op, y, a, lambda q: OPS[op](rd('B', flat(q, a)), k))
            y = c.tensor('B', a)
            if c.choose(eq(k, ZERO)):
                c.throws('tensor / 0 rejected', lambda: c.call('Tensor', 'operator/', x, [k], '(float)'))
                c.throws('tensor /= 0 rejected', lambda: c.call('Tensor', 'operator/=', y, [k], '(float)'))
                c.unchanged('operand of a rejected division', y, 'B', a)
            else:
                t = c.call('Tensor', 'operator/', x, [k], '(float)')
                c.tensor_is('tensor / scalar', t, a, lambda q: rdiv(el(q), k))
                c.call('Tensor', 'operator/=', y, [k], '(float)')
                c.tensor_is('tensor /= scalar', y, a, lambda q: rdiv(rd('B', flat(q, a)), k))
            c.unchanged('operand', x, 'A', a)
        return fn
    def maps(r):
        def fn(c):
            m = c.m
            a = c.dims('a', r)
            x = c.tensor('A', a)
            el = lambda q: rd('A', flat(q, a))
            q0 = c.index(a, 's')
            t = c.call('Tensor', 'sqrt', x, [])
            c.tensor_is('square root', t, a, lambda q: fn_sqrt(el(q)))
            g = mapfun(m, 'g')
            t = c.call('AdvancedTensorOperations', 'apply', None, [x, g])
            c.tensor_is('mapped copy', t, a, lambda q: fn_of('g', el(q)))
            c.unchanged('operand', x, 'A', a)
            r_ = c.call('Tensor', 'apply', x, [g])
            c.tensor_is('mapped in place', x, a, lambda q: fn_of('g', el(q)))
            b = c.dims('b', r)
            y = c.tensor('Y', a); z = c.tensor('Z', b)
            same = True
            for i, j in zip(a, b):
                if not c.choose(eq(i, j)): same = False; break
            ap = lambda: c.call('AdvancedTensorOperations', 'applyPair', None, [y, z, mapfun(m, 'h', 2)])
            if not same: c.throws('pairwise map of other shapes rejected', ap); return
            t = ap()
            c.tensor_is('pairwise map', t, a, lambda q: fn_of('h', rd('Y', flat(q, a)), rd('Z', flat(q, a))))
        return fn
    for r in (1, 2, 3, 4):
        R.scenario('scalar rank %d' % r, scalar(r), 60)
        R.scenario('map rank %d' % r, maps(r), 60)
