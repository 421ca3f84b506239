from fractions import Fraction
from scen import *
from spec_arith import fn_sqrt
from interp import ObjPtr, Obj, Ptr
import contracts
DEF = {
    'SGD': dict(learningRate=Fraction(1, 100), momentum=Fraction(9, 10), dampening=0, weightDecay=0, nesterov=0),
    'RMSProp': dict(learningRate=Fraction(1, 100), alpha=Fraction(99, 100), epsilon=Fraction(1, 10 ** 8), momentum=0, centered=0, weightDecay=0),
    'Adam': dict(learningRate=Fraction(1, 1000), beta1=Fraction(9, 10), beta2=Fraction(999, 1000), epsilon=Fraction(1, 10 ** 8), l1Strength=0, l2Strength=0, decay=0, batchSize=1),
}

class Opt:
    """an optimizer with the given options; a value 'any' stands for an arbitrary real"""
    def __init__(s, c, kind, **o):
        s.c = c; s.kind = kind; m = c.m
        s.cls = kind + 'Optimizer'
        s.o = {}
        opts = m.construct(kind + 'Options', [], 'void ()')
        ob = m.mem[opts]
        for k, d in DEF[kind].items():
            v = o.get(k)
            if v is None: s.o[k] = P(d); continue
            if v == 'any': v = V('o' + k, False)
            elif v == 'pos': v = V('o' + k, False); c.fact(gt0(v))
            elif v == 'nonzero': v = V('o' + k, False); c.fact(not_(eq(v, ZERO)))
            elif v == 'count': v = c.var('o' + k, 1, INT_MAX)
            elif v == 'unit': v = V('o' + k, False); c.fact(gt0(v)); c.fact(gt0(1 - v))
            s.o[k] = P(v)
            if k not in ob.f: raise Unsupported('option ' + k)
            m.put(ob.f[k], P(v))
        s.L = m.construct(s.cls, [opts], 'void (const %sOptions<float> &)' % kind)
        s.iter = 0; s.log = []
        s.state = {}
        s.t = {}
    def tensor(s, name, dims):
        """a weight with its mathematical value and zero history"""
        c = s.c
        a = c.tensor(name, dims)
        s.t[name] = [a, dims, lambda q: rd(name, flat(q, dims))]
        s.state[name] = [lambda q: ZERO, lambda q: ZERO, 0]
        return a
    def wvec(s, addrs): return s.c.objvec([s.c.m.new(ObjPtr(a)) for a in addrs], 'std::reference_wrapper<Tensor<float>>')
    def call(s, names, lr=None, given=None):
        c = s.c; m = c.m
        gs = []
        s.iter = s.iter + 1; s.log.append(names)
        for n in names:
            g = 'G%s%s' % (len(s.log), n)
            gs.append((g, c.tensor(g, s.t[n][1])))
        args = [s.wvec([s.t[n][0] for n in names]), s.wvec([a for g, a in gs])]
        rate = s.o['learningRate']
        if lr is not None or given is not None: args.append(m.new(given if lr is None else lr))
        c.call(s.cls, 'optimize', s.L, args)
        for n, (g, a) in zip(names, gs): s.step(n, g, lr)
        s.check()
        for n, (g, a) in zip(names, gs): c.unchanged('gradient of %s in call %d' % (n, len(s.log)), a, g, s.t[n][1])
    def check(s):
        """every weight is as specified; the next call meets arbitrary new contents"""
        for n, (a, d, w) in s.t.items():
            s.c.tensor_is('weight %s after call %d' % (n, len(s.log)), a, d, w)
            k = '%s%d' % (n, len(s.log))
            s.c.fill(a, k)
            s.t[n][2] = lambda q, k=k, d=d: rd(k, flat(q, d))
    def step(s, n, g, lr):
        o = s.o; a, d, w = s.t[n]; st = s.state[n]
        u, v, k = st
        G = lambda q: rd(g, flat(q, d))
        lrv = lr if lr is not None else o['learningRate']
        if s.kind == 'SGD':
            gr = lambda q: G(q) + o['weightDecay'] * w(q)
            if o['momentum'] == ZERO: up = gr
            else:
                u2 = lambda q: o['momentum'] * u(q) + (1 - o['dampening']) * gr(q)
                st[0] = u2
                up = (lambda q: gr(q) + o['momentum'] * u2(q)) if o['nesterov'] == ONE else u2
            s.t[n][2] = lambda q: w(q) - lrv * up(q)
        elif s.kind == 'RMSProp':
            gr = lambda q: G(q) + o['weightDecay'] * w(q)
            sq, mean, vel = st[0], st[1], st[2] or (lambda q: ZERO)
            sq2 = lambda q: o['alpha'] * sq(q) + (1 - o['alpha']) * gr(q) ** 2
            st[0] = sq2; var = sq2
            if o['centered'] == ONE:
                me2 = lambda q: o['alpha'] * mean(q) + (1 - o['alpha']) * gr(q)
                st[1] = me2; var = lambda q: sq2(q) - me2(q) ** 2
            up = lambda q: gr(q) * recip(fn_sqrt(var(q) + o['epsilon']))
            if o['momentum'] != ZERO:
                ve2 = lambda q: o['momentum'] * vel(q) + up(q)
                st[2] = ve2; up2 = ve2
            else: up2 = up
            s.t[n][2] = lambda q: w(q) - lrv * up2(q)
        else:
            if lr is None and o['decay'] != ZERO: lrv = lrv * recip(1 + o['decay'] * s.iter)
            av = lambda q: G(q) * recip(o['batchSize'])
            m2 = lambda q: o['beta1'] * u(q) + (1 - o['beta1']) * av(q)
            v2 = lambda q: o['beta2'] * v(q) + (1 - o['beta2']) * av(q) ** 2
            k += 1
            s.state[n] = [m2, v2, k]
            def up(q):
                mh = m2(q) * recip(1 - power(o['beta1'], k)); vh = v2(q) * recip(1 - power(o['beta2'], k))
                r = lrv * mh * recip(fn_sqrt(vh) + o['epsilon'])
                if o['l1Strength'] != ZERO: r = r + lrv * o['l1Strength'] * (ind(gt0(w(q))) - ind(lt(w(q), ZERO)))
                return r + lrv * o['l2Strength'] * w(q)
            s.t[n][2] = lambda q: w(q) - up(q)
def power(b, k):
    return b ** k if isinstance(k, int) else fn('pow', b, k, isint=False)

PATTERNS = [
    ('SGD', 'defaults', {}),
    ('SGD', 'momentum', dict(momentum='nonzero', learningRate='any', dampening='any', weightDecay='nonzero')),
    ('SGD', 'nesterov', dict(momentum='nonzero', learningRate='any', dampening='any', nesterov=ONE)),
    ('SGD', 'no momentum', dict(momentum=ZERO, learningRate='any', dampening='any', weightDecay='nonzero')),
    ('RMSProp', 'defaults', {}),
    ('RMSProp', 'plain', dict(learningRate='any', alpha='unit', epsilon='pos', weightDecay='nonzero')),
    ('RMSProp', 'momentum', dict(learningRate='any', alpha='unit', epsilon='pos', weightDecay='nonzero', momentum='pos')),
    ('RMSProp', 'centered', dict(learningRate='any', alpha='unit', epsilon='pos', weightDecay='nonzero', centered=ONE)),
    ('RMSProp', 'centered momentum', dict(learningRate='any', alpha='unit', epsilon='pos', centered=ONE, momentum='pos')),
    ('Adam', 'defaults', {}),
    ('Adam', 'general', dict(learningRate='any', beta1='unit', beta2='unit', epsilon='pos', batchSize='count')),
    ('Adam', 'decay', dict(learningRate='any', beta1='unit', beta2='unit', epsilon='pos', decay='pos')),
    ('Adam', 'L1 L2', dict(learningRate='any', beta1='unit', beta2='unit', epsilon='pos', l1Strength='pos', l2Strength='pos')),
]
def c17(R):
    def single(kind, o, r):
        def fn(c):
            K = Opt(c, kind, **o)
            d = c.dims('a', r); K.tensor('A', d)
            K.call(['A'])
        return fn
    for kind, name, o in PATTERNS: R.scenario('%s %s, one update' % (kind, name), single(kind, o, 2), 30)
    def history(kind, o, calls, ranks=(2, 1)):
        """calls: (names, override); A has rank 2, B rank 1; each call gets fresh gradients"""
        def fn(c):
            K = Opt(c, kind, **o)
            for n, r in zip('AB', ranks): K.tensor(n, c.dims(n.lower(), r))
            for names, over in calls:
                lr = None
                if over: lr = V('lr%d' % len(K.log), False); c.fact(gt0(lr) if over == 'pos' else ge0(-lr))
                if over == 'neg':
                    # not a positive rate: the configured one applies
                    K.call(list(names), None, lr)
                else: K.call(list(names), lr)
        return fn
    HIST = [
        ('three updates', [('A', 0), ('A', 0), ('A', 0)]),
        ('two tensors interleaved', [('AB', 0), ('A', 0), ('BA', 0)]),
        ('rate for one call', [('AB', 'pos'), ('AB', 0), ('B', 'pos'), ('B', 'neg')]),
    ]
    for kind, name, o in PATTERNS:
        for h, calls in HIST: R.scenario('%s %s, %s' % (kind, name, h), history(kind, o, calls), 60)
    def two(kind, o):
        """two optimizers that take turns on the same tensors keep their histories apart"""
        def fn(c):
            K = Opt(c, kind, **o); K2 = Opt(c, kind, **o)
            for n, r in zip('AB', (2, 1)): K.tensor(n, c.dims(n.lower(), r))
            K2.t = K.t; K2.log = K.log; K2.state = {n: [lambda q: ZERO, lambda q: ZERO, 0] for n in K.t}
            K.call(['A', 'B']); K2.call(['A']); K.call(['A']); K2.call(['B', 'A'])
        return fn
    for kind, name, o in PATTERNS: R.scenario('%s %s, two optimizers' % (kind, name), two(kind, o), 60)
    for kind, name, o in [p for p in PATTERNS if p[1] in ('momentum', 'general')]:
        for r in (1, 3, 4): R.scenario('%s %s, rank %d' % (kind, name, r), history(kind, o, [('A', 0), ('A', 0)], (r,)), 30)
    def bad(kind, o, w, g):
        def fn(c):
            K = Opt(c, kind, **o)
            m = c.m
            A = [K.tensor('W%d' % i, c.dims('a%d' % i, 2)) for i in range(w)]
            G = [c.tensor('G%d' % i, K.t['W%d' % i][1] if 'W%d' % i in K.t else c.dims('g%d' % i, 2)) for i in range(g)]
            args = [K.wvec(A), K.wvec(G)]
            c.throws('lists of lengths %d and %d' % (w, g), lambda: c.call(K.cls, 'optimize', K.L, args))
            K.check()
        return fn
    def badsize(kind, o, rw, rg):
        def fn(c):
            K = Opt(c, kind, **o)
            a = K.tensor('A', c.dims('a', rw)); gd = c.dims('g', rg)
            c.fact(not_(eq(prod(K.t['A'][1]), prod(gd))))
            g = c.tensor('G', gd)
            args = [K.wvec([a]), K.wvec([g])]
            c.throws('gradient with another number of elements', lambda: c.call(K.cls, 'optimize', K.L, args))
            K.check()
        return fn
    for kind in DEF:
        for w, g in ((1, 2), (2, 1), (0, 1), (1, 0)): R.scenario('%s, %d weights and %d gradients are rejected' % (kind, w, g), bad(kind, {}, w, g), 30)
        for rw, rg in ((1, 1), (2, 2), (2, 1), (1, 2)): R.scenario('%s, gradient of another size is rejected (ranks %d, %d)' % (kind, rw, rg), badsize(kind, {}, rw, rg), 30)
    FIELDS = {'SGD': [('momentumBuffers', 0)], 'RMSProp': [('squaredGrads', 0), ('meanGrads', 1), ('velocityBuffers', 2)], 'Adam': [('m', 0), ('v', 1)]}
    def entry(K, field):
        """address of the only value of a map member of the optimizer"""
        m = K.c.m
        o = m.mem[K.L]
        if field not in o.f: raise Unsupported('member ' + field)
        v = m.load(o.f[field])
        if not hasattr(v, 'kv'): raise Unsupported('member %s is not a map' % field)
        if not v.kv: return None
        if len(v.kv) != 1: raise Unsupported('several entries')
        a = m.mem[v.kv[0][1]].f['second']
        x = m.mem[a]
        return x.base if isinstance(x, Ptr) else a
    def induction(kind, o, r):
        """one update from an arbitrary history: any content of the tensor's state, any number of earlier updates"""
        def fn(c):
            K = Opt(c, kind, **o)
            d = c.dims('a', r); K.tensor('A', d)
            K.call(['A'])
            st = K.state['A']
            for f, i in FIELDS[kind]:
                e = entry(K, f)
                if e is None: continue
                c.fill(e, 'H%d' % i)
                st[i] = lambda q, i=i: rd('H%d' % i, flat(q, d))
            if kind == 'Adam':
                k = c.var('k', 1, INT_MAX - 1)
                e = entry(K, 'steps')
                if e is None or not isinstance(c.m.mem[e], Poly): raise Unsupported('update counter')
                c.m.put(e, k); st[2] = k
                e = c.m.mem[K.L].f.get('iterations')
                if e is None or not isinstance(c.m.mem[e], Poly): raise Unsupported('update counter')
                n = c.var('n', 1, INT_MAX - 1)
                c.m.put(e, n); K.iter = n
            K.call(['A'])
            for f, i in FIELDS[kind]:
                e = entry(K, f)
                if e is not None: c.tensor_is('state %s' % f, e, d, K.state['A'][i])
            if kind == 'Adam': c.eq('update counter', c.m.mem[entry(K, 'steps')], k + 1)
        return fn
    for kind, name, o in PATTERNS: R.scenario('%s %s, one update after any history' % (kind, name), induction(kind, o, 2), 60)
    for r in (1, 3, 4): R.scenario('Adam general, one update after any history, rank %d' % r, induction('Adam', dict(beta1='unit', beta2='unit', epsilon='pos'), r), 60)
