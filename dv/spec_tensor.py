from scen import *

def c02(R):
    def access(r, r2):
        def fn(c):
            m = c.m
            ds = c.dims('d', r)
            t = c.tensor('A', ds)
            q = [c.var('q%d' % i, -3, INT_MAX) for i in range(r2)]
            ok = r == r2
            if ok:
                for x, d in zip(q, ds):
                    if not c.choose(ge0(x)) or not c.choose(lt(x, d)): ok = False; break
            fs = [f for f in m.prog.method('Tensor', 'at') if f.body is not None]
            if not fs: raise Unsupported('Tensor::at')
            for f in fs:
                kind = 'const at' if f.sig.rstrip().endswith('const') else 'at'
                if not ok:
                    c.throws(kind + ' rejects', lambda: m.invoke(f, t, [c.intvec(q)])); continue
                a = m.invoke(f, t, [c.intvec(q)])
                p = c.data_ptr(t)
                if not isinstance(a, Elem):
                    c.eq(kind + ' value', m.v(a), rd('A', flat(q, ds))); continue
                c.check(kind + ' refers to the data', a.base == p.base)
                c.eq(kind + ' position', a.off - p.off, flat(q, ds))
            d = c.call('Tensor', 'getData', t, [])
            for f in [f for f in m.prog.method('TensorData', 'at') if f.body is not None]:
                if not ok:
                    c.throws('TensorData::at rejects', lambda: m.invoke(f, d, [c.intvec(q)])); continue
                a = m.invoke(f, d, [c.intvec(q)])
                if isinstance(a, Elem):
                    c.check('TensorData::at refers to the data', a.base == c.data_ptr(t).base)
                    c.eq('TensorData::at position', a.off, flat(q, ds))
                else: c.eq('TensorData::at value', m.v(a), rd('A', flat(q, ds)))
            sh = c.call('Tensor', 'getShape', t, [])
            if not ok: c.throws('computeFlatIndex rejects', lambda: c.call('', 'computeFlatIndex', None, [sh, c.intvec(q)]))
            else: c.eq('computeFlatIndex', c.call('', 'computeFlatIndex', None, [sh, c.intvec(q)]), flat(q, ds))
            if ok:
                # writing changes this element only
                a = m.invoke(fs[0], t, [c.intvec(q)])
                for g in fs:
                    if not g.sig.rstrip().endswith('const'): a = m.invoke(g, t, [c.intvec(q)])
                x = V('x', False)
                if isinstance(a, Elem):
                    m.store(a, x)
                    q2 = c.index(ds, 'p')
                    same = and_(*[eq(i, j) for i, j in zip(q, q2)])
                    c.shape_is('shape after a write', c.shape_of(t), ds)
                    k = c.m.choose(same, True)
                    c.eq('element after a write', c.at(t, q2, ds), x if k else rd('A', flat(q2, ds)))
        return fn
    for r in (1, 2, 3, 4):
        R.scenario('access rank %d' % r, access(r, r))
    for r, r2 in ((1, 2), (2, 1), (3, 2), (2, 3), (4, 3), (1, 0)):
        R.scenario('access rank %d with %d' % (r, r2), access(r, r2), 20)
    def fl(c):
        m = c.m
        n = c.dims('d', 2); t = c.tensor('A', n)
        i = c.var('i', 0); CTX.add(lt(i, prod(n)))
        for f in [f for f in m.prog.method('Tensor', 'operator[]') if f.body is not None]:
            a = m.invoke(f, t, [i])
            c.eq('subscript position', m.v(a) if not isinstance(a, Elem) else a.off, i if isinstance(a, Elem) else rd('A', i))
    R.scenario('flat access', fl)
    def cover(r):
        # every position below the size is the position of some index
        def fn(c):
            ds = c.dims('d', r)
            sh = c.shape(ds)
            p = c.var('p', 0); CTX.add(lt(p, prod(ds)))
            q = []; rem = p; st = prod(ds)
            for d in ds:
                st = prod(ds[len(q) + 1:])
                x = idiv(rem, st); q.append(x); rem = rem - x * st
            v = [c.var('i%d' % k) for k in range(r)]
            for k, d in enumerate(ds):
                CTX.add(ge0(v[k])); CTX.add(ge0(d - 1 - v[k]))
            CTX.add(eq(flat(v, ds), p))
            c.eq('position reached', c.call('', 'computeFlatIndex', None, [sh, c.intvec(v)]), p)
        return fn
    for r in (1, 2, 3): R.scenario('cover rank %d' % r, cover(r), 20)

def bpairs(c, a, b):
    """fork on how the aligned dimensions relate; None when not broadcastable, else the target dims"""
    n = max(len(a), len(b)); out = []
    for i in range(n):
        x = a[len(a) - 1 - i] if i < len(a) else None
        y = b[len(b) - 1 - i] if i < len(b) else None
        if x is None: out.append(y); continue
        if y is None: out.append(x); continue
        if c.choose(eq(x, y)): out.append(x)
        elif c.choose(eq(x, ONE)): out.append(y)
        elif c.choose(eq(y, ONE)): out.append(x)
        else: return None
    return out[::-1]

def bindex(c, q, dims, out):
    """index into an operand for index q of the target"""
    k = len(out) - len(dims)
    r = []
    for i, d in enumerate(dims):
        if CTX.quick(eq(d, out[k + i])) or CTX.norm(d) == CTX.norm(out[k + i]): r.append(q[k + i])
        else: r.append(ZERO)
    return r

def c03(R):
    def shapes(r1, r2):
        def fn(c):
            m = c.m
            a = c.dims('a', r1); b = c.dims('b', r2)
            x = c.shape(a); y = c.shape(b)
            out = bpairs(c, a, b)
            if out is not None: c.bound(out)
            ab = c.call('ShapeOperations', 'areBroadcastable', None, [x, y])
            c.holds('areBroadcastable', B(ab) if out is not None else not_(B(ab)))
            if out is None:
                c.throws('broadcastShapes rejects', lambda: c.call('ShapeOperations', 'broadcastShapes', None, [x, y]))
            else:
                r = c.call('ShapeOperations', 'broadcastShapes', None, [x, y])
                c.shape_is('broadcastShapes', c.dims_of(r), out)
            c.shape_is('first shape unchanged', c.dims_of(x), a)
            c.shape_is('second shape unchanged', c.dims_of(y), b)
        return fn
    for r1, r2 in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (1, 4), (4, 4), (3, 4), (4, 3), (2, 5), (5, 3)):
        R.scenario('shapes %d %d' % (r1, r2), shapes(r1, r2), 40)
    def view(r1, r2, pattern=None, iterate=True):
        def fn(c):
            m = c.m
            b = c.dims('b', r2)
            if pattern is None: a = c.dims('a', r1)
            else:
                # s: the dimension of the target, 1: a stretched one
                a = [ONE if o == '1' else b[r2 - r1 + i] for i, o in enumerate(pattern)]
                for i, o in enumerate(pattern):
                    if o == '1': c.fact(ge0(b[r2 - r1 + i] - 2))
            t = c.tensor('A', a); y = c.shape(b)
            # a target: every dimension of the tensor is stretched or equal
            out = bpairs(c, a, b)
            if out is None:
                d = c.call('Tensor', 'getData', t, [])
                c.throws('view onto a shape that does not fit', lambda: m.construct('BroadcastView', [d, y], None)); return
            same = [o == w for o, w in zip(map(CTX.norm, out), map(CTX.norm, b))]
            if len(out) != len(b) or not all(same): return
            v = m.construct('BroadcastView', [c.call('Tensor', 'getData', t, []), y], None)
            c.shape_is('view shape', c.dims_of(c.call('BroadcastView', 'shape', v, [])), b)
            q = c.index(b)
            e = m.v(c.call('BroadcastView', 'operator[]', v, [c.intvec(q)]))
            want = lambda q: rd('A', flat(bindex(c, q, a, out), a))
            c.eq('view element', e, want(q))
            if not iterate: return
            # iteration
            n = prod(b)
            buf = m.new(Buf(('const', V('none', False)), (), n))
            it = c.objget(c.call('BroadcastView', 'begin', v, []))
            en = c.objget(c.call('BroadcastView', 'end', v, []))
            it = m.cell(it); en = m.cell(en)
            k = m.new(ZERO)
            def body():
                lv = m.it_get(it)
                m.store(Elem(buf, m.mem[k]), m.v(lv))
                m.put(k, m.mem[k] + 1)
            m.loop(('spec', 'iterate'), lambda: m.it_ne(it, en), body, lambda: m.it_inc(it))
            c.eq('number of elements visited', m.mem[k], n)
            p = c.index(b, 'p')
            c.eq('row-major order', m.buf_read(m.mem[buf], flat(p, b)), want(p))
        return fn
    for r1, r2 in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 3)) + (((3, 4), (4, 4)) if R.tier == 'thorough' else ()):
        R.scenario('view %d on %d' % (r1, r2), view(r1, r2), 60 if r2 < 4 else 600)
    for r2, ps in ((4, ('s1s1', '1ss1', '11s', 's1', '1', 'ssss')), (5, ('1s1s1', 's11s', 'sss')), (6, ('1s1ss1',))):
        for o in ps: R.scenario('view %s on %d' % (o, r2), view(len(o), r2, o), 100)
    # reads through a view: every pattern of stretched and equal dimensions, every number of missing ones
    def reads(r1, r2):
        def fn(c):
            k = [i for i in range(2 ** r1)]
            for i in range(r1 - 1):
                if c.choose(boolvar('pat%d' % i)): k = k[:len(k) // 2]
                else: k = k[len(k) // 2:]
            pat = ''.join('1s'[k[0] >> i & 1] for i in range(r1))
            if len(k) == 2 and c.choose(boolvar('patl')): pat = ''.join('1s'[k[1] >> i & 1] for i in range(r1))
            view(r1, r2, pat, False)(c)
        return fn
    for r1, r2 in ((1, 5), (2, 4), (2, 5), (2, 6), (3, 4), (3, 5), (3, 6), (4, 4), (4, 5), (4, 6)) + (((5, 5), (5, 6), (3, 7), (4, 7)) if R.tier == 'thorough' else ()):
        R.scenario('reads of a view of rank %d on %d' % (r1, r2), reads(r1, r2), 60)
