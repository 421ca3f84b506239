from scen import *

def pairs(c, ps):
    return c.objvec([c.m.new(Obj('pair', {'first': c.boxed(P(a)), 'second': c.boxed(P(b))})) for a, b in ps], 'std::pair<int, int>')

def clampdim(c, s, e, d):
    """[start, end) after counting from the end and clamping; forks on the cases"""
    if not c.choose(ge0(s)):
        s = s + d
        if not c.choose(ge0(s)): s = ZERO
    elif not c.choose(ge0(d - s)): s = d
    if not c.choose(ge0(e)):
        e = e + d
        if not c.choose(ge0(e)): e = ZERO
    elif not c.choose(ge0(d - e)): e = d
    return s, e

def counts(c, r):
    return [c.var('n%d' % i, 1) for i in range(r)], [c.var('r%d' % i, 0) for i in range(r)]
def name_counts(c, nr, st, sp, a):
    """every non-empty range has n = ceil((end - start) / step) elements: end - start = step * (n - 1) + 1 + r with
    0 <= r < step, for exactly one pair (n, r)"""
    for n, r, (s, e), k, d in zip(nr[0], nr[1], st, sp, a):
        c.fact(ge0(k - 1 - r)); c.fact(eq(e - s, k * (n - 1) + 1 + r))
        c.fact(ge0(e - s - n)); c.fact(ge0(d - n))
    c.bound(nr[0])

def view_holds(c, v, t, a, st, sp, out, iterate=True):
    m = c.m
    c.shape_is('view shape', c.dims_of(c.call('SliceView', 'shape', v, [])), out)
    src = lambda q: flat([s + x * k for x, (s, e), k in zip(q, st, sp)], a)
    q = c.index(out)
    for x, (s, e), k, d in zip(q, st, sp, a): c.fact(ge0(d - 1 - s - x * k))
    c.eq('view element', m.v(c.call('SliceView', 'operator[]', v, [c.intvec(q)])), rd('A', src(q)))
    if iterate:
        N = prod(out)
        buf = m.new(Buf(('const', V('none', False)), (), N))
        it = m.cell(c.objget(c.call('SliceView', 'begin', v, [])))
        en = m.cell(c.objget(c.call('SliceView', 'end', v, [])))
        k = m.new(ZERO)
        def body():
            m.store(Elem(buf, m.mem[k]), m.v(m.it_get(it)))
            m.put(k, m.mem[k] + 1)
        m.loop(('spec', 'iterate'), lambda: m.it_ne(it, en), body, lambda: m.it_inc(it))
        c.eq('number of elements visited', m.mem[k], N)
        p = c.index(out, 'p')
        c.eq('row-major order', m.buf_read(m.mem[buf], flat(p, out)), rd('A', src(p)))
    x = V('x', False)
    c.call('SliceView', 'set', v, [c.intvec(q), c.boxed(x)])
    c.shape_is('shape after a write', c.shape_of(t), a)
    w = c.index(a, 'w')
    # inside the addressed element, or any other one
    same = and_(*[eq(i, s + y * k) for i, y, (s, e), k in zip(w, q, st, sp)])
    c.eq('element after a write', c.at(t, w, a), x if c.choose(same) else rd('A', flat(w, a)))

def c08(R):
    def rng(r, free, iterate):
        """ranges and steps: any integers in the dimensions listed in free, inside the tensor elsewhere"""
        def fn(c):
            m = c.m
            nr = counts(c, r)
            a = c.dims('a', r); t = c.tensor('A', a)
            s = []; e = []; k = []
            for i, d in enumerate(a):
                if i in free:
                    s.append(c.var('s%d' % i, -INT_MAX, INT_MAX)); e.append(c.var('e%d' % i, -INT_MAX, INT_MAX)); k.append(c.var('k%d' % i, -INT_MAX, INT_MAX))
                else:
                    s.append(c.var('s%d' % i, 0)); k.append(c.var('k%d' % i, 1, INT_MAX))
                    e.append(s[i] + k[i] * (nr[0][i] - 1) + 1 + nr[1][i])
                    c.fact(ge0(d - e[i]))
            go = lambda: m.construct('SliceView', [c.call('Tensor', 'getData', t, []), pairs(c, zip(s, e)), c.intvec(k)], None)
            for i in free:
                if not c.choose(ge0(k[i] - 1)):
                    c.throws('step that is not positive rejected', go); c.unchanged('tensor', t, 'A', a); return
            st = [clampdim(c, s[i], e[i], a[i]) if i in free else (s[i], e[i]) for i in range(r)]
            for i in free:
                if not c.choose(ge0(st[i][1] - st[i][0] - 1)):
                    c.throws('empty range rejected', go); c.unchanged('tensor', t, 'A', a); return
            name_counts(c, nr, st, k, a)
            v = go()
            view_holds(c, v, t, a, st, k, nr[0], iterate)
        return fn
    for r in (1, 2, 3):
        for i in range(r): R.scenario('any range in dimension %d of rank %d' % (i, r), rng(r, [i], r == 1), 120)
    if R.tier == 'thorough': R.scenario('any ranges rank 2', rng(2, [0, 1], False), 900)
    for r in (1, 2, 3) + ((4,) if R.tier == 'thorough' else ()): R.scenario('ranges inside rank %d' % r, rng(r, [], True), 120)
    def lengths(r, n1, n2):
        def fn(c):
            a = c.dims('a', r); t = c.tensor('A', a)
            go = lambda: c.m.construct('SliceView', [c.call('Tensor', 'getData', t, []), pairs(c, [(ZERO, ONE)] * n1), c.intvec([ONE] * n2)], None)
            c.throws('wrong number of ranges or steps rejected', go)
            c.unchanged('tensor', t, 'A', a)
        return fn
    for r, n1, n2 in ((1, 0, 1), (1, 2, 1), (1, 1, 2), (1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 1, 1), (2, 3, 3), (2, 0, 0), (3, 2, 3), (3, 3, 2), (3, 4, 3), (3, 3, 4)):
        R.scenario('rank %d with %d ranges and %d steps' % (r, n1, n2), lengths(r, n1, n2), 20)
