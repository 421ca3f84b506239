from scen import *
from interp import Vec, SVec, Elem, Ptr
import interp

def pair(c, p):
    o = c.m.load(p)
    return o.f['first'], o.f['second']
def count(c, v): return c.m.vec_size(c.m.load(v))
def element(c, v, i):
    return c.m.vec_elem(Elem(v, P(i)))

def one(c, what, t):
    c.shape_is(what + ' shape', c.shape_of(t), [ONE])
    return t
def reads(p, name):
    out = []
    def pol(p):
        for m in p.d:
            for a, e in m:
                A = ATOMS[a]
                if A.kind == 'rd' and A.args[0] == name: out.append(A.args[1])
                elif A.kind == 'f':
                    for x in A.args[1]: pol(x)
                elif A.kind == 'pol': pol(A.args[0])
    pol(p)
    return out
def sample(c, x, y, noise):
    """y is 2x + 3 plus a normal draw with deviation noise; the number of that draw"""
    ks = reads(CTX.norm(y), 'N01')
    k = ks[0] if ks else ZERO
    c.eq('target minus 2x + 3', y - 2 * x - 3, noise * rd('N01', k))
    return k

def c22(R):
    def single(default):
        def fn(c):
            m = c.m
            n = c.var('n', 0, INT_MAX); noise = ONE
            args = [n]
            if not default:
                noise = V('noise', False); c.fact(gt0(noise)); args.append(noise)
            m.rng_addr = c.boxed(ZERO)
            r = c.call('', 'generateLinearDataset', None, args)
            xs, ys = pair(c, r)
            c.eq('number of inputs', count(c, xs), n)
            c.eq('number of targets', count(c, ys), n)
            c.fact(gt0(n))
            ks = []
            for t in 'ij':
                i = c.index([n], t)[0]
                ks.append((i, sample(c, c.at(one(c, 'input', element(c, xs, i)), [ZERO], [ONE]), c.at(one(c, 'target', element(c, ys, i)), [ZERO], [ONE]), noise)))
            c.fact(not_(eq(ks[0][0], ks[1][0])))
            c.holds('every sample has its own noise', not_(eq(ks[0][1], ks[1][1])))
        return fn
    R.scenario('samples', single(False), 30)
    R.scenario('samples, default noise', single(True), 30)
    def batched(default):
        def fn(c):
            m = c.m
            n = c.var('n', 0, INT_MAX); B = c.var('B', 1, INT_MAX); noise = ONE
            c.fact(ge0(P(INT_MAX) - n - B))
            args = [n, B]
            if not default:
                noise = V('noise', False); c.fact(gt0(noise)); args.append(noise)
            m.rng_addr = c.boxed(ZERO)
            r = c.call('', 'generateBatchedLinearDataset', None, args)
            xs, ys = pair(c, r)
            nb = c.var('nb', 0)      # number of batches: the last one starts before n and ends at n or later
            c.fact(ge0(nb * B - n)); c.fact(ge0(n - 1 - (nb - 1) * B))
            c.eq('number of input batches', count(c, xs), nb)
            c.eq('number of target batches', count(c, ys), nb)
            c.fact(gt0(n))
            ks = []
            for t in 'ij':
                b = c.index([nb], 'b' + t)[0]
                # lemma, from (nb - 1) * B < n
                c.holds('a batch begins before the end', ge0(n - 1 - b * B)); c.fact(ge0(n - 1 - b * B))
                last = c.choose(eq(b, nb - 1))
                d = [n - b * B if last else B, ONE]
                x = element(c, xs, b); y = element(c, ys, b)
                c.shape_is('input batch', c.shape_of(x), d)
                c.shape_is('target batch', c.shape_of(y), d)
                i = c.index([d[0]], 'i' + t)[0]
                ks.append((b, i, sample(c, c.at(x, [i, ZERO], d), c.at(y, [i, ZERO], d), noise)))
                # lemma: position of the sample in the sequence
                if t == 'i': continue
                (b1, i1, k1), (b2, i2, k2) = ks
                same = c.choose(eq(b1, b2))
                if same: c.fact(not_(eq(i1, i2)))
                c.holds('every sample has its own noise', not_(eq(k1, k2)))
        return fn
    R.scenario('batches', batched(False), 60)
    R.scenario('batches, default noise', batched(True), 60)
