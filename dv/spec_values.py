from scen import *

def ctor(c, sig):
    """a constructor of Tensor by its parameter list"""
    fs = [f for f in c.m.prog.ctors('Tensor') if f.sig.startswith('void (' + sig) and not f.deleted]
    if not fs: raise Unsupported('constructor ' + sig)
    return fs[0].sig
COPY = 'const Tensor<float, CPUDevice> &)'
MOVE = 'Tensor<float, CPUDevice> &&)'

def c07(R):
    def poke(c, t, name, dims, tag):
        """a write to one element of t changes that element only"""
        i = c.var('w' + tag, 0); CTX.add(lt(i, prod(dims)))
        x = V('x' + tag, False)
        fs = [f for f in c.m.prog.method('Tensor', 'operator[]') if not f.sig.rstrip().endswith('const')]
        a = c.m.invoke(fs[0], t, [i])
        c.m.store(a, x)
        p = c.data_ptr(t); b = c.m.mem[p.base]
        return i, x
    def copies(r, r2):
        def fn(c):
            m = c.m
            a = c.dims('a', r); x = c.tensor('A', a)
            y = m.construct('Tensor', [x], ctor(c, COPY))
            c.unchanged('copy', y, 'A', a); c.unchanged('copied tensor', x, 'A', a)
            b = c.dims('b', r2); z = c.tensor('B', b)
            m.assign(z, x); c.unchanged('assigned tensor', z, 'A', a); c.unchanged('source of an assignment', x, 'A', a)
            m.assign(z, z); c.unchanged('self-assigned tensor', z, 'A', a)
            c.check('storage of the copy is its own', len({c.data_ptr(t).base for t in (x, y, z)}) == 3)
            poke(c, y, 'A', a, '1')
            c.unchanged('source after a write to its copy', x, 'A', a); c.unchanged('another copy', z, 'A', a)
            poke(c, z, 'A', a, '2')
            c.unchanged('source after a write to an assigned tensor', x, 'A', a)
            u = c.tensor('U', a); w = m.construct('Tensor', [u], ctor(c, COPY))
            poke(c, u, 'U', a, '3'); c.unchanged('copy after a write to its source', w, 'U', a)
        return fn
    def moves(r, r2):
        def fn(c):
            m = c.m
            a = c.dims('a', r); x = c.tensor('A', a)
            y = m.construct('Tensor', [x], ctor(c, MOVE)); c.unchanged('moved tensor', y, 'A', a)
            d = c.shape_of(x)
            c.check('a moved-from tensor has a shape', len(d) >= 1)
            c.eq('size of the moved-from tensor', c.size_of(x), prod(d))
            p = c.data_ptr(x); buf = m.mem[p.base]
            c.holds('the moved-from tensor has storage for its shape', ge0(buf.n - prod(d)))
            w = m.construct('Tensor', [x], ctor(c, COPY)); c.shape_is('copy of a moved-from tensor', c.shape_of(w), d)
            b = c.dims('b', r2); z = c.tensor('B', b)
            m.assign(x, z); c.unchanged('moved-from tensor assigned to', x, 'B', b); c.unchanged('moved tensor afterwards', y, 'A', a)
            m.assign(z, y, True); c.unchanged('move-assigned tensor', z, 'A', a)
            m.assign(y, x); c.unchanged('tensor moved from by assignment, assigned to', y, 'B', b); c.unchanged('move-assigned tensor afterwards', z, 'A', a)
        return fn
    for r in (1, 2, 3, 4):
        for r2 in ((r, 1) if r > 1 else (1, 2)):
            R.scenario('copy rank %d over %d' % (r, r2), copies(r, r2), 40)
            R.scenario('move rank %d over %d' % (r, r2), moves(r, r2), 40)
    def values(r):
        def fn(c):
            m = c.m
            a = c.dims('a', r)
            n = c.var('n', 1, INT_MAX)
            vec = lambda: m.new(Buf(('arr', 'W'), (), n, False, True))
            mk = lambda sig, arg: m.construct('Tensor', [c.shape(a), arg], ctor(c, sig))
            if not c.choose(eq(n, prod(a))):
                c.throws('another number of values rejected', lambda: mk('Shape, const std::vector<float> &)', vec()))
                c.throws('another number of moved values rejected', lambda: mk('Shape, std::vector<float> &&)', vec()))
                return
            v = vec()
            t = mk('Shape, const std::vector<float> &)', v); c.unchanged('tensor from values', t, 'W', a)
            poke(c, t, 'W', a, '1')
            c.eq('values given afterwards', m.buf_read(m.mem[v], V('j')), rd('W', V('j')))
            t = mk('Shape, std::vector<float> &&)', vec()); c.unchanged('tensor from moved values', t, 'W', a)
            src = m.new(Buf(('arr', 'W'), (), n, False, False))
            t = mk('Shape, const float *)', Ptr(src, ZERO)); c.unchanged('tensor from an array', t, 'W', a)
            c.check('the array is copied', c.data_ptr(t).base != src)
            k = V('k', False)
            t = mk('Shape, float)', k); c.tensor_is('filled tensor', t, a, lambda q: k)
            t = m.construct('Tensor', [c.shape(a)], ctor(c, 'Shape)')); c.tensor_is('tensor without values', t, a, lambda q: ZERO)
            x = c.tensor('A', a); d = c.objget(c.call('Tensor', 'getData', x, []))
            t = m.construct('Tensor', [d], ctor(c, 'const TensorData<float, CPUDevice> &)')); c.unchanged('tensor from data', t, 'A', a); c.unchanged('data', x, 'A', a)
            poke(c, t, 'A', a, '2'); c.unchanged('data after a write', x, 'A', a)
        return fn
    for r in (1, 2, 3, 4): R.scenario('values rank %d' % r, values(r), 30)
    def lists(c):
        m = c.m
        for dims, n in (((2, 3), 6), ((2, 3), 5), ((2, 3), 7), ((1,), 1), ((1,), 0), ((2, 1, 2), 4), ((2, 1, 2), 3)):
            sh = c.shape([P(d) for d in dims])
            vs = [V('l%d' % i, False) for i in range(n)]
            lst = m.new(Vec([m.new(v) for v in vs], 'float'))
            go = lambda: m.construct('Tensor', [sh, lst], ctor(c, 'Shape, std::initializer_list<float>)'))
            if n != prod([P(d) for d in dims]).const(): c.throws('a list of another length rejected', go); continue
            t = go()
            for i in range(n): c.eq('listed element', m.buf_read(m.mem[c.data_ptr(t).base], P(i)), vs[i])
            c.shape_is('listed tensor', c.shape_of(t), [P(d) for d in dims])
    R.scenario('value lists', lists, 20)
    def reshape(r1, r2, which):
        def fn(c):
            m = c.m
            a = c.dims('a', r1); x = c.tensor('A', a)
            b = c.dims('b', r2)
            same = c.choose(eq(prod(a), prod(b)))
            if which == 'copy':
                go = lambda: c.call('AdvancedTensorOperations', 'reshape', None, [x, c.shape(b)])
                if not same: c.throws('another element count rejected', go)
                else: t = go(); c.unchanged('reshaped copy', t, 'A', b)
                c.unchanged('source', x, 'A', a); return
            sig = {'shape': 'Shape', 'vector': 'vector', 'list': 'initializer_list'}[which]
            arg = c.shape(b) if which == 'shape' else c.intvec(b)
            go = lambda: c.call('Tensor', 'reshape', x, [arg], sig)
            if not same: c.throws('another element count rejected', go); c.unchanged('tensor after a rejected reshape', x, 'A', a)
            else: go(); c.unchanged('reshaped tensor', x, 'A', b)
        return fn
    for r1, r2 in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (4, 2), (1, 4), (3, 3)):
        for w in ('copy', 'shape', 'vector', 'list'): R.scenario('reshape %d to %d %s' % (r1, r2, w), reshape(r1, r2, w), 30)
    def transpose(r, i, j):
        def fn(c):
            a = c.dims('a', r); x = c.tensor('A', a)
            b = list(a); b[i], b[j] = b[j], b[i]
            t = c.call('AdvancedTensorOperations', 'transpose', None, [x, P(i), P(j)])
            def want(q):
                q = list(q); q[i], q[j] = q[j], q[i]
                return rd('A', flat(q, a))
            c.tensor_is('transposed', t, b, want)
            c.unchanged('source', x, 'A', a)
        return fn
    for r in (1, 2, 3, 4):
        for i in range(r):
            for j in range(r): R.scenario('transpose rank %d: %d and %d' % (r, i, j), transpose(r, i, j), 60)
    def slice_(r, k):
        def fn(c):
            a = c.dims('a', r); x = c.tensor('A', a)
            i = c.var('i', -5, INT_MAX)
            ok = c.choose(ge0(i)) and c.choose(lt(i, a[k]))
            go = lambda: c.call('Tensor', 'slice', x, [P(k), i])
            if not ok: c.throws('an index that does not exist rejected', go)
            else:
                out = a[:k] + a[k + 1:] or [ONE]
                t = go()
                c.tensor_is('slice', t, out, lambda q: rd('A', flat((q[:k] + [i] + q[k:]) if r > 1 else [i], a)))
            c.unchanged('source', x, 'A', a)
        return fn
    for r in (1, 2, 3, 4):
        for k in range(r): R.scenario('slice rank %d dimension %d' % (r, k), slice_(r, k), 40)
    def baddim(r):
        def fn(c):
            a = c.dims('a', r); x = c.tensor('A', a)
            k = c.var('k', r, INT_MAX); n = c.var('n', 1, INT_MAX)
            for lo in (0, 1):
                c.throws('transpose with a first dimension that does not exist', lambda: c.call('AdvancedTensorOperations', 'transpose', None, [x, k, P(0)]))
                c.throws('transpose with a second dimension that does not exist', lambda: c.call('AdvancedTensorOperations', 'transpose', None, [x, P(0), k]))
            c.throws('slice of a dimension that does not exist', lambda: c.call('Tensor', 'slice', x, [k, P(0)]))
            c.throws('slice of a negative dimension', lambda: c.call('Tensor', 'slice', x, [-n, P(0)]))
            c.unchanged('source', x, 'A', a)
        return fn
    for r in (1, 2, 3, 4): R.scenario('missing dimension rank %d' % r, baddim(r), 30)
    def equality(r1, r2):
        def fn(c):
            m = c.m
            a = c.dims('a', r1); b = c.dims('b', r2)
            x = c.tensor('A', a); y = c.tensor('B', b)
            same = r1 == r2 and all(c.choose(eq(i, j)) for i, j in zip(a, b))
            e = B(m.v(c.call('Tensor', 'operator==', x, [y]))); n = B(m.v(c.call('Tensor', 'operator!=', x, [y])))
            want = eq0(Sum(prod(a), lambda v: ind(ne(rd('A', v), rd('B', v))))) if same else FALSE
            c.eq('equal exactly when shapes and elements are', ind(e), ind(want))
            c.eq('different exactly when not equal', ind(n), ONE - ind(want))
            z = m.construct('Tensor', [x], ctor(c, COPY))
            c.holds('equal to its copy', B(m.v(c.call('Tensor', 'operator==', x, [z]))))
            c.unchanged('left', x, 'A', a); c.unchanged('right', y, 'B', b)
        return fn
    for r1, r2 in ((1, 1), (2, 2), (3, 3), (4, 4), (1, 2), (2, 1), (3, 2), (2, 4)): R.scenario('equality rank %d and %d' % (r1, r2), equality(r1, r2), 30)
