from scen import *

def matmul_shape(a, b):
    """(shared pairs, output dims, fn(q, rdA, rdB)) for every supported rank pair"""
    r1, r2 = len(a), len(b)
    if (r1, r2) == (1, 1): return [(a[0], b[0])], [ONE], lambda q, A, B_: Sum(a[0], lambda k: A([k]) * B_([k]))
    if (r1, r2) == (2, 2): return [(a[1], b[0])], [a[0], b[1]], lambda q, A, B_: Sum(a[1], lambda k: A([q[0], k]) * B_([k, q[1]]))
    if (r1, r2) == (1, 2): return [(a[0], b[0])], [b[1]], lambda q, A, B_: Sum(a[0], lambda k: A([k]) * B_([k, q[0]]))
    if (r1, r2) == (2, 1): return [(a[1], b[0])], [a[0]], lambda q, A, B_: Sum(a[1], lambda k: A([q[0], k]) * B_([k]))
    if (r1, r2) == (3, 2): return [(a[2], b[0])], [a[0], a[1], b[1]], lambda q, A, B_: Sum(a[2], lambda k: A([q[0], q[1], k]) * B_([k, q[2]]))
    if (r1, r2) == (2, 3): return [(a[1], b[1])], [b[0], a[0], b[2]], lambda q, A, B_: Sum(a[1], lambda k: A([q[1], k]) * B_([q[0], k, q[2]]))
    if r1 == r2 and r1 >= 3:
        return [(a[-1], b[-2])], a[:-1] + [b[-1]], lambda q, A, B_: Sum(a[-1], lambda k: A(q[:-1] + [k]) * B_(q[:-2] + [k, q[-1]]))
    return None

def c06(R):
    def mm(r1, r2, self=False):
        def fn(c):
            a = c.dims('a', r1); b = c.dims('b', r2) if not self else a
            if r1 == r2 >= 3 and not self: b = a[:-2] + b[-2:]; c.bound(b)
            x = c.tensor('A', a); y = c.tensor('B', b) if not self else x
            nb = 'A' if self else 'B'
            shared, out, f = matmul_shape(a, b)
            go = lambda: c.call('AdvancedTensorOperations', 'matmul', None, [x, y])
            if not all(c.choose(eq(i, j)) for i, j in shared):
                c.throws('operands whose shared dimensions differ rejected', go)
            else:
                c.bound(out)
                t = go()
                c.tensor_is('product', t, out, lambda q: f(q, lambda p: rd('A', flat(p, a)), lambda p: rd(nb, flat(p, b))))
            c.unchanged('left operand', x, 'A', a)
            if not self: c.unchanged('right operand', y, 'B', b)
        return fn
    for r1, r2 in ((1, 1), (2, 2), (1, 2), (2, 1), (3, 2), (2, 3), (3, 3), (4, 4), (5, 5)):
        R.scenario('%d x %d' % (r1, r2), mm(r1, r2), 90)
    if R.tier == 'thorough': R.scenario('6 x 6', mm(6, 6), 200)
    for r in (1, 2, 3): R.scenario('rank %d with itself' % r, mm(r, r, True), 60)
