from fractions import Fraction
from scen import *
from spec_arith import fn_sqrt
from spec_fc import recorder
import contracts

BN = 'BatchNormalizationLayer'

class Stat:
    """mean and variance of each feature of a named tensor"""
    def __init__(s, name, a):
        s.name = name; s.a = a
        s.n = prod(a) if len(a) == 2 else a[0] * a[2] * a[3]
        if len(a) == 2: s.n = a[0]
    def at(s, f, r, g=None):
        """element r of feature f, r = positions other than the feature"""
        q = [r[0], f] + r[1:]
        return (g or (lambda p: rd(s.name, p)))(flat(q, s.a))
    def sum(s, body):
        a = s.a
        if len(a) == 2: return Sum(a[0], lambda b: body([b]))
        return Sum(a[0], lambda b: Sum(a[2], lambda h: Sum(a[3], lambda w: body([b, h, w]))))
    def mean(s, f): return s.sum(lambda r: s.at(f, r)) * recip(s.n)
    def var(s, f):
        m = s.mean(f)
        return s.sum(lambda r: (s.at(f, r) - m) ** 2) * recip(s.n)

def c15(R):
    def setup(c):
        m = c.m
        contracts.install(c, 'arith', 'reduce')
        # variance(x, mean) is proved against its contract in C05
        F = c.var('F', 1, INT_MAX)
        eps = V('eps', False); mom = V('mom', False)
        c.fact(gt0(eps - P(Fraction(1, 10 ** 24)))); c.fact(ge0(mom)); c.fact(ge0(1 - mom))
        L = m.construct(BN, [F, eps, mom], 'void (int, float, float)')
        return F, eps, mom, L
    def dims(c, k, r, F):
        if r == 2: a = [c.var('n%d' % k, 1), F]
        else: a = [c.var('n%d' % k, 1), F, c.var('h%d' % k, 1), c.var('w%d' % k, 1)]
        c.bound(a)
        return a
    def positive(c, st, eps, f):
        """the variance of feature f is not negative, so the deviation is at least 1e-12"""
        # a sum of squares is a sum of terms that are not negative
        r = [c.var(str(next_id()) + 'r%d' % i) for i in range(len(st.a) - 1)]
        M = V('M', False)
        c.holds('lemma: a square is not negative', ge0((st.at(f, r) - M) ** 2))
        va = st.var(f)
        CTX.add(ge0(va))
        # std::sqrt is monotone
        c.holds('lemma: variance plus epsilon', ge0(va + eps - P(Fraction(1, 10 ** 24))))
        CTX.add(gt0(fn_sqrt(va + eps) - P(Fraction(1, 10 ** 12))))
    def norm(x, mu, var, eps, ga, be): return ga * ((x - mu) * recip(fn_sqrt(var + eps))) + be
    def history(ops):
        """ops: pairs of mode and rank: T2, T4 training passes, I2, I4 inference passes; then b runs a backward pass, u an update"""
        def fn(c):
            m = c.m
            F, eps, mom, L = setup(c)
            calls = recorder(c)
            opt = m.construct('SGDOptimizer', [m.construct('SGDOptions', [], None)], None)
            ga = lambda f: ONE
            be = lambda f: ZERO
            rm = lambda f: ZERO
            rv = lambda f: ONE
            last = None; grads = None
            k = 0
            toks = []
            i = 0
            while i < len(ops):
                if ops[i] in 'TI': toks.append(ops[i:i + 2]); i += 2
                else: toks.append(ops[i]); i += 1
            for o in toks:
                k += 1
                if o[0] in 'TI':
                    tr = o[0] == 'T'
                    c.call(BN, 'setTrainingMode', L, [TRUE if tr else FALSE])
                    xn = 'X%d' % k
                    a = dims(c, k, int(o[1]), F); x = c.tensor(xn, a)
                    y = c.call(BN, 'forward', L, [x])
                    st = Stat(xn, a)
                    mu, va = (st.mean, st.var) if tr else (rm, rv)
                    c.tensor_is('%s output %d' % ('training' if tr else 'inference', k), y, a, lambda q: norm(rd(xn, flat(q, a)), mu(q[1]), va(q[1]), eps, ga(q[1]), be(q[1])))
                    c.unchanged('input %d' % k, x, xn, a)
                    if tr:
                        last = (xn, a, st)
                        rm = lambda f, rm=rm, st=st: mom * rm(f) + (1 - mom) * st.mean(f)
                        rv = lambda f, rv=rv, st=st: mom * rv(f) + (1 - mom) * st.var(f)
                    c.fill(x, 'Z%d' % k)
                elif o == 'b':
                    xn, a, st = last
                    gn = 'G%d' % k
                    g = c.tensor(gn, a)
                    d = c.call(BN, 'backward', L, [g])
                    G = Stat(gn, a)
                    # the derivative of sum_p y_p * g_p with respect to one input element
                    def want(q):
                        f = q[1]
                        positive(c, st, eps, f)
                        inv = recip(fn_sqrt(st.var(f) + eps))
                        xh = lambda r: (st.at(f, r) - st.mean(f)) * inv
                        r0 = [q[0]] + q[2:]
                        sg = G.sum(lambda r: G.at(f, r)); sgx = G.sum(lambda r: G.at(f, r) * xh(r))
                        return ga(f) * inv * (rd(gn, flat(q, a)) - sg * recip(st.n) - xh(r0) * sgx * recip(st.n))
                    c.tensor_is('input gradient %d' % k, d, a, want)
                    c.unchanged('upstream gradient %d' % k, g, gn, a)
                    grads = (G, st)
                elif o == 'u':
                    G, st = grads
                    n0 = len(calls)
                    c.call(BN, 'updateWeights', L, [opt])
                    c.check('the optimizer is called once', len(calls) == n0 + 1)
                    ws, gs, lr, this = calls[-1]
                    c.check('the given optimizer', this == opt)
                    c.check('two weights and two gradients', len(ws) == 2 and len(gs) == 2)
                    if lr is not None: c.eq('no learning rate given', lr, P(-1))
                    f = c.var('f%d' % k, 0); c.fact(ge0(F - 1 - f))
                    flatview = lambda t: contracts.View(c, t).flat(f)
                    xh = lambda r: (st.at(f, r) - st.mean(f)) * recip(fn_sqrt(st.var(f) + eps))
                    wg = G.sum(lambda r: G.at(f, r) * xh(r)); wb = G.sum(lambda r: G.at(f, r))
                    for j in (0, 1):
                        c.eq('number of weights', c.size_of(ws[j]), F); c.eq('number of gradients', c.size_of(gs[j]), F)
                    # found out by the next pass: which weight is gamma
                    i0 = 0 if prove_eq(flatview(gs[0]), wg) else 1
                    c.eq('gamma gradient', flatview(gs[i0]), wg)
                    c.eq('beta gradient', flatview(gs[1 - i0]), wb)
                    gname, bname = 'N%d_%d' % (len(calls), i0), 'N%d_%d' % (len(calls), 1 - i0)
                    ga = lambda f, n=gname: rd(n, f)
                    be = lambda f, n=bname: rd(n, f)
        return fn
    for h in ('T2', 'T4', 'I2', 'I4', 'T2I2', 'T2I4', 'T4I4', 'T2T2I2', 'T4T4I4', 'T2T4I2', 'I2T2I2'): R.scenario('passes %s' % h, history(h), 60)
    for h in ('T2b', 'T4b', 'T2bb', 'T2T2b', 'T4T4b', 'T2T4b', 'T4T2b', 'T2I2b', 'T4I4b', 'T2bubT2b', 'T2buT2bu', 'T4buT4b', 'T2buI2', 'T4buI4', 'T2bT2bu'): R.scenario('gradients %s' % h, history(h), 90)
    def exact(r):
        """the closed form of the gradient used above is the derivative"""
        def fn(c):
            F = c.var('F', 1); a = dims(c, 0, r, F)
            eps = V('eps', False); c.fact(gt0(eps))
            st = Stat('X', a); G = Stat('G', a)
            q = c.index(a); f = q[1]; r0 = [q[0]] + q[2:]
            y = lambda r: rd('A', f) * ((st.at(f, r) - st.mean(f)) * recip(fn_sqrt(st.var(f) + eps)))
            inv = recip(fn_sqrt(st.var(f) + eps))
            xh = lambda r: (st.at(f, r) - st.mean(f)) * inv
            sg = G.sum(lambda r: G.at(f, r)); sgx = G.sum(lambda r: G.at(f, r) * xh(r))
            closed = rd('A', f) * inv * (rd('G', flat(q, a)) - sg * recip(st.n) - xh(r0) * sgx * recip(st.n))
            c.eq('closed form is the derivative', diff(st.sum(lambda r: y(r) * G.at(f, r)), 'X', flat(q, a)), closed)
        return fn
    for r in (2, 4): R.scenario('lemma rank %d' % r, exact(r), 60)
    def rank(r):
        def fn(c):
            F, eps, mom, L = setup(c)
            a = c.dims('a', r); x = c.tensor('X', a)
            for mode in (TRUE, FALSE):
                c.call(BN, 'setTrainingMode', L, [mode])
                c.throws('input of rank %d rejected' % r, lambda: c.call(BN, 'forward', L, [x]))
                c.unchanged('input', x, 'X', a)
        return fn
    for r in (1, 3, 5): R.scenario('rank %d' % r, rank(r), 20)
    def early(ops):
        def fn(c):
            F, eps, mom, L = setup(c)
            if ops:
                c.call(BN, 'setTrainingMode', L, [FALSE])
                c.call(BN, 'forward', L, [c.tensor('X', dims(c, 0, ops, F))])
            for r in (2, 4): c.throws('backward pass before any training pass rejected', lambda: c.call(BN, 'backward', L, [c.tensor('G%d' % r, dims(c, r, r, F))]))
        return fn
    for o in (0, 2, 4): R.scenario('backward first%s' % (' after inference rank %d' % o if o else ''), early(o), 30)
