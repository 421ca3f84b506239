from scen import *

def c01(R):
    def construct(r):
        def fn(c):
            m = c.m
            ds = [c.var('d%d' % i, -5, INT_MAX) for i in range(r)]
            good = True
            for d in ds:
                if not c.choose(ge0(d - 1)): good = False; break
            if not good:
                c.throws('non-positive dimension rejected', lambda: c.shape(ds)); return
            fits = True; p = ONE
            for d in ds:
                p = p * d
                if not c.choose(lt(p, P(2 ** 64 - 1))): fits = False; break
            if not fits:
                # a product of exactly SIZE_MAX may be accepted or rejected
                if not c.choose(gt(p, P(2 ** 64 - 1))): return
                c.throws('overflowing size rejected', lambda: c.shape(ds)); return
            sh = c.shape(ds)
            c_shape(c, 'constructed', sh, ds)
            cp = m.construct('Shape', [sh], 'void (const Shape &)')
            c_shape(c, 'copied', cp, ds); c_shape(c, 'copied from', sh, ds)
            il = m.construct('Shape', [c.intvec(ds)], 'void (std::initializer_list<int>)')
            c_shape(c, 'constructed from a list', il, ds)
            mv = m.construct('Shape', [cp], 'void (Shape &&) noexcept')
            c_shape(c, 'moved', mv, ds)
            o = c.shape([P(7)])
            m.assign(o, sh); c_shape(c, 'assigned', o, ds)
            if r <= 4:
                e = c.dims('e', r)
                o3 = c.shape(e); m.assign(o3, sh); c_shape(c, 'assigned over an equal rank', o3, ds)
                o4 = c.shape(e); m.assign(o4, il, True); c_shape(c, 'move-assigned over an equal rank', o4, ds)
            m.assign(o, o); c_shape(c, 'self-assigned', o, ds)
            o2 = c.shape([P(3), P(2)])
            m.assign(o2, mv, True); c_shape(c, 'move-assigned', o2, ds)
            for i in range(r):
                x = c.call('Shape', 'operator[]', sh, [P(i)])
                c.eq('subscript', m.load(x) if not isinstance(x, Poly) else x, ds[i])
            c.holds('equal to its copy', B(m.v(c.call('Shape', 'operator==', sh, [o]))))
        return fn
    for r in (1, 2, 3, 4, 5, 6): R.scenario('Shape rank %d' % r, construct(r), 25)
    def empty(c):
        c.throws('shape without dimensions rejected', lambda: c.shape([]))
        s1 = c.shape([P(4)])
        c.throws('reshape to no dimensions rejected', lambda: c.call('Shape', 'reshape', s1, [c.intvec([])]))
        c_shape(c, 'unchanged', s1, [P(4)])
    R.scenario('Shape rank 0', empty)
    def reshape(r1, r2):
        def fn(c):
            m = c.m
            a = c.dims('a', r1)
            b = [c.var('b%d' % i, -5, INT_MAX) for i in range(r2)]
            sh = c.shape(a)
            good = True; p = ONE
            for d in b:
                if not c.choose(ge0(d - 1)): good = False; break
                p = p * d
                if not c.choose(ge0(P(2 ** 62) - p)): return
            if good: good = c.choose(eq(p, prod(a)))
            if good:
                c.call('Shape', 'reshape', sh, [c.intvec(b)])
                c_shape(c, 'reshaped', sh, b)
                sh2 = c.shape(a)
                c.call('Shape', 'reshape', sh2, [sh])
                c_shape(c, 'reshaped to a shape', sh2, b)
            else:
                c.throws('mismatching reshape rejected', lambda: c.call('Shape', 'reshape', sh, [c.intvec(b)]))
                c_shape(c, 'unchanged by a rejected reshape', sh, a)
        return fn
    for r1, r2 in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (2, 3), (3, 2), (4, 2), (2, 4), (3, 3), (4, 4), (3, 4), (4, 3)):
        R.scenario('reshape %d to %d' % (r1, r2), reshape(r1, r2), 25)
    def equality(r1, r2):
        def fn(c):
            a = c.dims('a', r1); b = c.dims('b', r2)
            x = c.shape(a); y = c.shape(b)
            same = r1 == r2
            if same:
                for p, q in zip(a, b):
                    if not c.choose(eq(p, q)): same = False; break
            r = B(c.m.v(c.call('Shape', 'operator==', x, [y])))
            n = B(c.m.v(c.call('Shape', 'operator!=', x, [y])))
            c.holds('equality', r if same else not_(r))
            c.holds('inequality', not_(n) if same else n)
        return fn
    for r1, r2 in ((1, 1), (2, 2), (3, 3), (4, 4), (1, 2), (3, 2)): R.scenario('compare %d %d' % (r1, r2), equality(r1, r2), 15)

def c_shape(c, what, sh, ds):
    c.shape_is(what + ' dimensions', c.dims_of(sh), ds)
    c.eq(what + ' rank', c.call('Shape', 'rank', sh, []), P(len(ds)))
    c.eq(what + ' size', c.call('Shape', 'size', sh, []), prod(ds))
    st = c.strides_of(sh)
    if not c.check(what + ' stride count', len(st) == len(ds)): return
    w = ONE
    for i in range(len(ds) - 1, -1, -1):
        c.eq(what + ' stride', st[i], w)
        w = w * ds[i]
