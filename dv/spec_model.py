"""C19: the order in which the model calls its layers, loss and optimizer, and on what."""
from scen import *
import contracts
from contracts import View

M = 'SmartDNN'
class Log:
    """an arbitrary layer, loss and optimizer: every call is recorded, its argument is checked when it is
    made, and it gives an arbitrary tensor of an arbitrary shape"""
    def __init__(g, c):
        g.c = c; g.ev = []; g.n = 0; g.want = None; g.ranks = (1, 2, 3)
        h = c.m.hooks
        h[('DvLayer', 'forward')] = lambda s, f, this, a: g.call('forward', g.id(this), [a[0]])
        h[('DvLayer', 'backward')] = lambda s, f, this, a: g.call('backward', g.id(this), [a[0]])
        h[('DvLayer', 'updateWeights')] = g.update
        h[('DvLayer', 'setTrainingMode')] = g.mode
        h[('DvLoss', 'compute')] = lambda s, f, this, a: g.call('loss', ZERO, [a[0], a[1]], [ONE])
        h[('DvLoss', 'gradient')] = lambda s, f, this, a: g.call('gradient', ZERO, [a[0], a[1]])
    def id(g, a): return g.c.m.load(g.c.m.load(a).f['id'])
    def fresh(g, dims=None):
        g.n += 1
        nm = 'R%d' % g.n
        d = dims if dims is not None else g.c.dims('r%d_' % g.n, g.ranks[g.n % len(g.ranks)])
        t = g.c.tensor(nm, d)
        return t, (nm, d)
    def call(g, kind, i, args, dims=None):
        got = [g.same(a) for a in args]
        t, r = g.fresh(dims)
        g.ev.append((kind, i, got, r))
        return t
    def same(g, a):
        v = View(g.c, a); return v.dims, v.flat
    def update(g, s, f, this, a):
        x = a[0]
        g.ev.append(('update', g.id(this), x.base if isinstance(x, Ptr) else x, None))
    def mode(g, s, f, this, a):
        g.ev.append(('mode', g.id(this), s.v(a[0]), None))
    # ---- what was recorded, in order
    def take(g, what, kind, i, args=()):
        """the next event is this call on these tensors (name, dimensions); what it gave"""
        c = g.c
        if not c.check('%s: %s is called' % (what, kind), bool(g.ev), 'nothing is called'): raise Failed()
        k, j, got, r = g.ev.pop(0)
        if not c.check('%s: %s is called' % (what, kind), k == kind, '%s is called' % k): raise Failed()
        if not c.eq('%s: of layer' % what, j, P(i)): raise Failed()
        for n, ((d, f), (nm, want)) in enumerate(zip(got, args)):
            w = '%s: argument %d' % (what, n + 1)
            c.shape_is(w, d, want)
            p = V('p%d' % g.n); g.n += 1
            CTX.add(ge0(p)); CTX.add(ge0(prod(want) - 1 - p))
            if not c.eq(w + ' element', f(p), rd(nm, p)): raise Failed()
        return r
    def forward(g, what, nl, x):
        for k in range(nl): x = g.take('%s, layer %d forward' % (what, k), 'forward', k, [x])
        return x
    def backward(g, what, nl, x):
        for k in reversed(range(nl)): x = g.take('%s, layer %d backward' % (what, k), 'backward', k, [x])
        return x
    def updates(g, what, nl, opt):
        for k in range(nl):
            g.ev and g.c.check('%s, layer %d: the model\'s optimizer' % (what, k), g.ev[0][0] == 'update' and g.ev[0][2] == opt)
            g.ev[:1] = [(e[0], e[1], [], e[3]) for e in g.ev[:1]]
            g.take('%s, layer %d update' % (what, k), 'update', k)
    def done(g, what): 
        g.c.check('%s: nothing else is called' % what, not g.ev, str([e[0] for e in g.ev]))
        g.ev.clear()

def model(c, nl, compiled=True):
    m = c.m
    M_ = m.construct(M, [], None)
    for k in range(nl): c.call(M, 'addLayer', M_, [m.construct('DvLayer', [P(k)], 'void (int)')], 'DvLayer')
    if compiled: c.call(M, 'compile', M_, [m.construct('DvLoss', [], 'void ()'), m.construct('DvOptimizer', [], 'void ()')], 'DvLoss')
    return M_
def optimizer(c, M_):
    """the optimizer object that the model owns"""
    o = c.m.load(M_)
    for n, a in o.f.items():
        p = c.m.load(a)
        b = getattr(p, 'base', None)
        if isinstance(b, int) and isinstance(c.m.mem.get(b), Obj) and c.m.mem[b].cls == 'DvOptimizer': return b
    return None
def tensors(c, base, n, ranks=(2, 1, 3)):
    out = []
    for i in range(n):
        nm = '%s%d' % (base, i); d = c.dims('%s%d_' % (base.lower(), i), ranks[i % len(ranks)])
        out.append((c.tensor(nm, d), (nm, d)))
    return out
def lst(c, ts): return c.objvec([t for t, _ in ts], 'Tensor<float>')
def untouched(c, what, ts):
    for t, (nm, d) in ts: c.unchanged(what, t, nm, d)

def c19(R):
    def predict(nl):
        def fn(c):
            g = Log(c); M_ = model(c, nl, nl % 2 == 0); xs = tensors(c, 'X', 1)
            y = c.call(M, 'predict', M_, [xs[0][0]], 'const Tensor<float> &')
            r = g.forward('predict', nl, xs[0][1])
            g.done('predict')
            c.unchanged('prediction', y, r[0], r[1])
            untouched(c, 'input', xs)
        return fn
    for nl in range(5): R.scenario('predict, %d layers' % nl, predict(nl), 30)
    def plist(nl, ns):
        def fn(c):
            g = Log(c); M_ = model(c, nl); xs = tensors(c, 'X', ns)
            y = c.call(M, 'predict', M_, [lst(c, xs)], 'const std::vector')
            y = c.m.load(y) if not isinstance(y, Vec) else y
            c.check('as many predictions as inputs', len(y.e) == ns, '%d' % len(y.e))
            for i in range(ns):
                r = g.forward('input %d' % i, nl, xs[i][1])
                c.unchanged('prediction %d' % i, y.e[i], r[0], r[1])
            g.done('predict')
            untouched(c, 'input', xs)
        return fn
    for nl in (0, 1, 2):
        for ns in (0, 1, 2, 3): R.scenario('predict, %d layers, %d inputs' % (nl, ns), plist(nl, ns), 30)
    def train(nl, ns, ne):
        def fn(c):
            contracts.install(c, 'arith')
            g = Log(c); M_ = model(c, nl); xs = tensors(c, 'X', ns); ts = tensors(c, 'T', ns, (1, 3, 2))
            opt = optimizer(c, M_)
            c.call(M, 'train', M_, [lst(c, xs), lst(c, ts), P(ne)])
            for e in range(ne):
                for i in range(ns):
                    w = 'epoch %d, sample %d' % (e, i)
                    p = g.forward(w, nl, xs[i][1])
                    # the loss and its gradient in either order
                    if len(g.ev) > 1 and g.ev[0][0] == 'gradient' and g.ev[1][0] == 'loss': g.ev[:2] = [g.ev[1], g.ev[0]]
                    g.take(w, 'loss', 0, [p, ts[i][1]])
                    d = g.take(w, 'gradient', 0, [p, ts[i][1]])
                    g.backward(w, nl, d)
                    g.updates(w, nl, opt)
            g.done('train')
            untouched(c, 'input', xs); untouched(c, 'target', ts)
        return fn
    for nl, ns, ne in [(0, 1, 1), (1, 0, 0), (1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 2), (3, 1, 1), (3, 3, 2), (4, 2, 1), (1, 3, 3), (2, 2, 0)]:
        R.scenario('train, %d layers, %d samples, %d epochs' % (nl, ns, ne), train(nl, ns, ne), 60)
    def step(nl):
        def fn(c):
            g = Log(c); M_ = model(c, nl); gs = tensors(c, 'G', 1); opt = optimizer(c, M_)
            c.call(M, 'backward', M_, [gs[0][0]])
            g.backward('backward', nl, gs[0][1]); g.done('backward')
            untouched(c, 'gradient', gs)
            c.call(M, 'updateWeights', M_, [])
            g.updates('updateWeights', nl, opt); g.done('updateWeights')
        return fn
    for nl in range(4): R.scenario('backward and update, %d layers' % nl, step(nl), 30)
    def uncompiled(nl, ns):
        def fn(c):
            g = Log(c); M_ = model(c, nl, False); xs = tensors(c, 'X', ns); ts = tensors(c, 'T', ns)
            ne = c.var('epochs', 0, INT_MAX)
            c.throws('training before compile rejected', lambda: c.call(M, 'train', M_, [lst(c, xs), lst(c, ts), ne]))
            g.done('train')
            untouched(c, 'input', xs); untouched(c, 'target', ts)
        return fn
    for nl, ns in ((0, 0), (0, 1), (2, 0), (2, 2)): R.scenario('uncompiled, %d layers, %d samples' % (nl, ns), uncompiled(nl, ns), 30)
    def mismatch(nl, a, b):
        def fn(c):
            g = Log(c); M_ = model(c, nl); xs = tensors(c, 'X', a); ts = tensors(c, 'T', b)
            ne = c.var('epochs', 0, INT_MAX)
            c.throws('different numbers of inputs and targets rejected', lambda: c.call(M, 'train', M_, [lst(c, xs), lst(c, ts), ne]))
            g.done('train')
            untouched(c, 'input', xs); untouched(c, 'target', ts)
        return fn
    for nl, a, b in ((0, 0, 1), (1, 1, 0), (2, 2, 1), (2, 1, 2), (1, 3, 1), (1, 0, 2)): R.scenario('%d inputs, %d targets, %d layers' % (a, b, nl), mismatch(nl, a, b), 30)
    def modes(nl, seq):
        def fn(c):
            g = Log(c); M_ = model(c, nl, nl % 2 == 1)
            for x in seq:
                c.call(M, 'trainingMode' if x else 'evalMode', M_, [])
                last = {}
                for k, i, v, r in g.ev:
                    c.check('only the mode is set', k == 'mode', k)
                    last[CTX.norm(i).const()] = v
                g.ev.clear()
                for k in range(nl):
                    if not c.check('mode reaches layer %d' % k, k in last): continue
                    c.holds('layer %d is told the mode' % k, last[k] if x else not_(last[k]))
        return fn
    for nl in range(1, 4):
        for seq in ((True,), (False,), (True, False), (False, True)): R.scenario('%s, %d layers' % (' then '.join('training' if x else 'inference' for x in seq), nl), modes(nl, seq), 30)
    symbolic(R)

class Ghost:
    """any number of layers: counters of the calls so far say which call must come next, and on what.
    All tensors here have n elements; the k-th call gives content A(k, .)"""
    def __init__(g, c, nl, n, ns=ONE):
        g.c = c; g.L = nl; g.n = n; g.S = ns
        m = c.m
        g.cnt = {k: c.boxed(ZERO) for k in ('forward', 'backward', 'update', 'loss', 'gradient', 'mode', 'clock')}
        g.opt = None; g.inp = lambda i, p: fn('X', i, p); g.tgt = lambda i, p: fn('T', i, p)
        h = m.hooks
        h[('DvLayer', 'forward')] = g.forward
        h[('DvLayer', 'backward')] = g.backward
        h[('DvLayer', 'updateWeights')] = g.update
        h[('DvLayer', 'setTrainingMode')] = g.setmode
        h[('DvLoss', 'compute')] = g.loss
        h[('DvLoss', 'gradient')] = g.gradient
    def __getitem__(g, k): return g.c.m.mem[g.cnt[k]]
    def inc(g, k): g.c.m.put(g.cnt[k], g[k] + 1)
    def demand(g, what, b):
        s = g.c.m
        if s.prove(b): s.access_ok += 1; return
        if not s.choose(b): raise Undefined('contract: ' + what)
    def id(g, a): return g.c.m.load(g.c.m.load(a).f['id'])
    def made(g):
        k = g['clock']
        g.inc('clock')
        t = g.c.tensor(None, [g.n])
        g.c.fill_fun(t, lambda p: fn('A', k, p))
        return t
    def arg(g, what, a, f):
        v = View(g.c, a)
        if len(v.dims) != 1: raise Undefined('contract: rank of ' + what)
        g.demand('size of ' + what, eq(v.dims[0], g.n))
        p = fresh('p'); 
        mk = CTX.mark()
        CTX.add(ge0(p)); CTX.add(ge0(g.n - 1 - p))
        x, y = v.flat(p), f(p)
        ok = prove_eq(x, y)
        CTX.reset(mk)
        if ok: g.c.m.access_ok += 1
        else: g.demand(what, eq(x - y, ZERO))
    def sample(g, k): return imod(k, g.S)
    def forward(g, s, f, this, a):
        done = g['loss'] if g.mode == 'train' else idiv(g['forward'], g.L)
        k = g['forward'] - done * g.L
        g.demand('forward pass before the loss', and_(ge0(k), ge0(g.L - 1 - k)))
        g.demand('forward pass in layer order', eq(g.id(this), k))
        if g.mode == 'train':
            g.demand('forward pass after the update of the sample before', and_(eq(g['update'], g['loss'] * g.L), eq(g['gradient'], g['loss'])))
        i = g.sample(done); c = g['clock']
        first = CTX.norm(k) == ZERO
        g.arg('input of a layer', a[0], lambda p: g.inp(i, p) if first else ite(eq(k, ZERO), g.inp(i, p), fn('A', c - 1, p)))
        r = g.made(); g.inc('forward'); return r
    mode = 'train'
    def loss(g, s, f, this, a): return g.lossgrad('loss', a)
    def gradient(g, s, f, this, a): return g.lossgrad('gradient', a)
    def lossgrad(g, kind, a):
        n = g[kind]
        g.demand(kind + ' after the whole forward pass', eq(g['forward'], (n + 1) * g.L))
        g.demand(kind + ' before the backward pass', and_(eq(g['backward'], n * g.L), eq(g['update'], n * g.L)))
        i = g.sample(n)
        # the last call of the forward pass; the other of loss and gradient may come in between
        other = g['gradient' if kind == 'loss' else 'loss']
        last = g['clock'] - 1 - (other - n)
        g.arg('prediction given to the ' + kind, a[0], lambda p: fn('A', last, p) if g.L.d else g.inp(i, p))
        g.arg('target given to the ' + kind, a[1], lambda p: g.tgt(i, p))
        if kind == 'gradient': g.c.m.put(g.cnt['mode'], g['clock'])
        r = g.made(); g.inc(kind); return r
    def backward(g, s, f, this, a):
        base = (g['gradient'] - 1) * g.L if g.mode == 'train' else ZERO
        k = g['backward'] - base
        g.demand('backward pass after loss and gradient', and_(ge0(k), ge0(g.L - 1 - k)))
        if g.mode == 'train': g.demand('backward pass after loss and gradient', and_(eq(g['loss'], g['gradient']), eq(g['update'], base)))
        g.demand('backward pass in reverse order', eq(g.id(this), g.L - 1 - k))
        c = g['clock']; start = g['mode']
        if g.mode == 'train': g.arg('gradient given to a layer', a[0], lambda p: ite(eq(k, ZERO), fn('A', start, p), fn('A', c - 1, p)))
        else: g.arg('gradient given to a layer', a[0], lambda p: ite(eq(k, ZERO), fn('G', ZERO, p), fn('A', c - 1, p)))
        r = g.made(); g.inc('backward'); return r
    def update(g, s, f, this, a):
        base = (g['gradient'] - 1) * g.L if g.mode == 'train' else ZERO
        k = g['update'] - base
        g.demand('update after the whole backward pass', eq(g['backward'], base + g.L))
        g.demand('every layer is updated once', eq(g.id(this), k))
        x = a[0].base if isinstance(a[0], Ptr) else a[0]
        if x != g.opt: raise Undefined('contract: the update is given another optimizer')
        g.inc('update')
    def setmode(g, s, f, this, a):
        g.demand('every layer is told the mode', eq(g.id(this), g['mode']))
        g.demand('the mode', B(s.v(a[0])) if g.want else not_(B(s.v(a[0]))))
        g.inc('mode')
    def total(g, what, **kw):
        for k, v in kw.items(): g.c.eq('%s: number of %s calls' % (what, k), g[k], v)

def any_model(c, nl):
    m = c.m
    M_ = m.construct(M, [], None)
    c.call('', 'dv_model', None, [M_, nl])
    c.call(M, 'compile', M_, [m.construct('DvLoss', [], 'void ()'), m.construct('DvOptimizer', [], 'void ()')], 'DvLoss')
    return M_
def vec_of(c, n, name, d):
    def f(i):
        t = c.tensor(None, [d]); c.fill_fun(t, lambda p: fn(name, i, p)); return t
    return c.m.new(SVec([('fun', n, f)], 'Tensor<float>'))

def symbolic(R):
    def predict(c):
        L = c.var('L', 1, INT_MAX); n = c.var('n', 1, INT_MAX)
        g = Ghost(c, L, n); g.mode = 'predict'; M_ = any_model(c, L)
        x = c.tensor(None, [n]); c.fill_fun(x, lambda p: fn('X', ZERO, p))
        y = c.call(M, 'predict', M_, [x], 'const Tensor<float> &')
        g.total('predict', forward=L, backward=ZERO, update=ZERO, loss=ZERO, gradient=ZERO)
        c.tensor_is('prediction', y, [n], lambda q: fn('A', L - 1, q[0]))
        c.tensor_is('input', x, [n], lambda q: fn('X', ZERO, q[0]))
    R.scenario('predict, any number of layers', predict, 60)
    def predict_list(layers):
        def fn_(c):
            L = c.var('L', 1, INT_MAX) if layers else ZERO
            n = c.var('n', 1, INT_MAX); S = c.var('S', 1, INT_MAX)
            g = Ghost(c, L, n, S); g.mode = 'predict'; M_ = any_model(c, L)
            xs = vec_of(c, S, 'X', n)
            y = c.call(M, 'predict', M_, [xs], 'const std::vector')
            g.total('predict', forward=S * L, backward=ZERO, update=ZERO, loss=ZERO, gradient=ZERO)
            if isinstance(y, Vec): y = c.m.new(y)
            c.eq('as many predictions as inputs', c.m.vec_size(c.m.load(y)), S)
            i = c.index([S], 'i')[0]
            e = c.m.vec_elem(Elem(y, i))
            c.tensor_is('prediction', e, [n], lambda q: fn('A', i * L + L - 1, q[0]) if layers else fn('X', i, q[0]))
        return fn_
    for l in (0, 1): R.scenario('predict, any number of inputs, %s layers' % ('any number of' if l else 'no'), predict_list(l), 60)
    def train(layers):
        def fn_(c):
            m = c.m
            L = c.var('L', 1, INT_MAX) if layers else ZERO
            n = c.var('n', 1, INT_MAX); S = c.var('S', 1, INT_MAX); E = c.var('E', 1, INT_MAX)
            g = Ghost(c, L, n, S); M_ = any_model(c, L); g.opt = optimizer(c, M_)
            # the sum of the losses is only printed: its content is left unknown
            def total(s, f, this, a):
                p = c.data_ptr(this); b = m.mem[p.base]
                m.put(p.base, Buf(('none',), (), b.n, b.isint, b.isvec))
                return this
            m.hooks[('Tensor', 'operator+=')] = total
            xs = vec_of(c, S, 'X', n); ts = vec_of(c, S, 'T', n)
            c.call(M, 'train', M_, [xs, ts, E])
            g.total('train', forward=E * S * L, backward=E * S * L, update=E * S * L, loss=E * S, gradient=E * S)
        return fn_
    for l in (0, 1): R.scenario('train, any number of epochs and samples, %s layers' % ('any number of' if l else 'no'), train(l), 120)
    def step(c):
        L = c.var('L', 1, INT_MAX); n = c.var('n', 1, INT_MAX)
        g = Ghost(c, L, n); g.mode = 'step'; M_ = any_model(c, L); g.opt = optimizer(c, M_)
        x = c.tensor(None, [n]); c.fill_fun(x, lambda p: fn('G', ZERO, p))
        c.call(M, 'backward', M_, [x])
        g.total('backward', forward=ZERO, backward=L, update=ZERO)
        c.call(M, 'updateWeights', M_, [])
        g.total('updateWeights', forward=ZERO, backward=L, update=L)
    R.scenario('backward and update, any number of layers', step, 60)
    def modes(on):
        def fn_(c):
            L = c.var('L', 1, INT_MAX); n = ONE
            g = Ghost(c, L, n); g.want = on; M_ = any_model(c, L)
            c.call(M, 'trainingMode' if on else 'evalMode', M_, [])
            g.total('mode', mode=L, forward=ZERO, backward=ZERO, update=ZERO)
        return fn_
    for on in (True, False): R.scenario('%s mode, any number of layers' % ('training' if on else 'inference'), modes(on), 60)
    def rejected(layers):
        def fn_(c):
            L = c.var('L', 1, INT_MAX)
            n = c.var('n', 1, INT_MAX); S = c.var('S', 0, INT_MAX); Z = c.var('Z', 0, INT_MAX); E = c.var('E', 0, INT_MAX)
            g = Ghost(c, L, n, S); M_ = any_model(c, L)
            c.fact(not_(eq(S, Z)))
            xs = vec_of(c, S, 'X', n); ts = vec_of(c, Z, 'T', n)
            c.throws('different numbers of inputs and targets rejected', lambda: c.call(M, 'train', M_, [xs, ts, E]))
            g.total('train', forward=ZERO, backward=ZERO, update=ZERO, loss=ZERO, gradient=ZERO)
        return fn_
    R.scenario('different numbers of inputs and targets, any numbers', rejected(1), 30)
