from scen import *
from spec_gen import pair, count, element
ML = 'MNISTLoader'
IM, LM = 2051, 2049

class Files:
    """two IDX files of arbitrary content; header fields are big-endian"""
    def __init__(s, c, label_max=9):
        s.c = c; s.hdr = {'img': [], 'lab': []}; s.lmax = label_max
        s.exists = {'img': True, 'lab': True}
    def word(s, f, v):
        """the next four header bytes, which are those of the number v"""
        c = s.c; k = '%s%d' % (f[0], len(s.hdr[f]))
        if isinstance(v, int): hs = [P(v >> 24 & 255), P(v >> 16 & 255), P(v >> 8 & 255), P(v & 255)]
        else:
            h = [c.var('h@%s%d' % (k, j), 0, 127 if j == 0 else 255) for j in range(3)]
            low = v - h[0] * 2 ** 24 - h[1] * 2 ** 16 - h[2] * 2 ** 8
            c.fact(ge0(low)); c.fact(ge0(255 - low))
            hs = h + [low]
        s.hdr[f] += hs
    def byte(s, f, i):
        return fn('byte:%d:%s' % (s.lmax if f == 'lab' else 255, f), i)
    def install(s, size):
        def rd_(f):
            def g(i):
                i = CTX.norm(P(i)); h = s.hdr[f]
                if i.isconst() and 0 <= i.const() < len(h): return h[i.const()]
                if CTX.quick(ge0(i - len(h))) or CTX.prove(ge0(i - len(h))): return s.byte(f, i)
                return fresh('unkb')      # not known whether it is in the header: any value
            return g
        for f in s.hdr: s.c.m.files[f] = (s.exists[f], size[f], rd_(f))
    def loader(s, args=()):
        c = s.c
        sig = 'void (const std::string &, const std::string &, int, int)'
        full = list(args) + [ONE, P(-1)][len(args):]
        return c.m.construct(ML, [c.boxed(Str('img')), c.boxed(Str('lab'))] + full, sig)
    def load(s, args=(), again=False):
        L = s.loader(args)
        if again: s.c.call(ML, 'loadData', L, [])
        return s.c.call(ML, 'loadData', L, [])

def c20(R):
    def setup(c, label_max=9, tiny=False):
        F = Files(c, label_max)
        N = c.var('N', 0, INT_MAX)
        H, W = (ONE, ONE) if tiny else (c.var('H', 1, INT_MAX), c.var('W', 1, INT_MAX))
        c.bound([N, H, W])
        F.word('img', IM); F.word('img', N); F.word('img', H); F.word('img', W)
        F.word('lab', LM); F.word('lab', N)
        return F, N, H, W
    def good(limit, default=False, again=False):
        def fn(c):
            F, N, H, W = setup(c, 9, again and R.tier == 'quick')
            B = ONE if default else c.var('B', 1, INT_MAX)
            args = [] if default else [B]
            M = N
            if limit:
                M = c.var('M', 0, INT_MAX); c.fact(ge0(N - M)); c.bound([M, H, W]); args.append(M)
            c.fact(ge0(P(INT_MAX) - N - B)); c.bound([B, H, W]); 
            F.install({'img': 16 + N * H * W, 'lab': 8 + N})
            r = F.load(args, again)
            xs, ys = pair(c, r)
            nb = M if default else c.var('nb', 0)
            if not default: c.fact(ge0(nb * B - M)); c.fact(ge0(M - 1 - (nb - 1) * B))
            c.eq('number of image batches', count(c, xs), nb)
            c.eq('number of label batches', count(c, ys), nb)
            c.fact(gt0(M))
            b = c.index([nb], 'b')[0]
            c.holds('a batch begins before the end', ge0(M - 1 - b * B)); c.fact(ge0(M - 1 - b * B))
            last = c.choose(eq(b, nb - 1))
            n = M - b * B if last else B
            x, y = element(c, xs, b), element(c, ys, b)
            c.tensor_is('images', x, [n, ONE, H, W], lambda q: F.byte('img', 16 + ((b * B + q[0]) * H + q[2]) * W + q[3]) * Fraction(1, 255))
            c.tensor_is('labels', y, [n, P(10)], lambda q: ind(eq(F.byte('lab', 8 + b * B + q[0]), q[1])))
        return fn
    R.scenario('well-formed files', good(False), 200)
    R.scenario('well-formed files, limit', good(True), 200)
    R.scenario('well-formed files, default batch size', good(False, True), 100)
    R.scenario('well-formed files, loaded again', good(False, False, True), 200)
    R.scenario('well-formed files, limit, loaded again', good(True, False, True), 200)
    def rejected(prepare, lmax=9, img=False):
        """prepare(c, F, N, H, W) gives (loader arguments, positions to look at if the call returns); what is wrong with the label file
           is checked on images of one pixel in the quick tier"""
        def fn(c):
            F, N, H, W = setup(c, lmax, not img and R.tier == 'quick')
            size = {'img': 16 + N * H * W, 'lab': 8 + N}
            args, at = prepare(c, F, N, H, W, size)
            F.install(size)
            def go():
                F.load(args)
                c.instantiate(*at)
                if CTX.infeasible(): raise Infeasible()
            c.throws('rejected', go)
        return fn
    def batches(c, M):
        B = c.var('B', 1, INT_MAX); nb = c.var('nb', 0)
        c.fact(ge0(P(INT_MAX) - M - B))
        c.fact(ge0(nb * B - M)); c.fact(ge0(M - 1 - (nb - 1) * B))
        return B, nb
    def batch_size(c, F, N, H, W, size):
        B = V('B'); c.fact(ge0(-B))
        return [B], []
    def missing(f):
        def p(c, F, N, H, W, size):
            F.exists[f] = False
            return [batches(c, N)[0]], []
        return p
    def magic(f, neg):
        def p(c, F, N, H, W, size):
            h = [c.var('h@m%d' % j, 128 if neg and j == 0 else 0, 127 if j == 0 and not neg else 255) for j in range(4)]
            c.fact(not_(eq(h[0] * 2 ** 24 + h[1] * 2 ** 16 + h[2] * 2 ** 8 + h[3], P(IM if f == 'img' else LM))))
            F.hdr[f][:4] = h
            return [batches(c, N)[0]], []
        return p
    def short(f, limit=False):
        def p(c, F, N, H, W, size):
            M = N
            c.fact(gt0(N))
            if limit: M = c.var('M', 0, INT_MAX); c.bound([M, H, W]); c.fact(gt0(M)); c.fact(ge0(N - M))
            B, nb = batches(c, M)
            n = c.var('len', 0)
            c.fact(gt0((16 + M * H * W if f == 'img' else 8 + M) - n))
            size[f] = n
            return [B] + ([M] if limit else []), [nb - 1, M - 1 - (nb - 1) * B]
        return p
    def label(c, F, N, H, W, size):
        B, nb = batches(c, N)
        c.fact(gt0(N))
        b = c.index([nb], 'b')[0]; i = c.index([B], 'i')[0]
        c.choose(ge0((b + 1) * B - N - 1))
        c.fact(ge0(N - 1 - (b * B + i)))
        c.fact(ge0(F.byte('lab', 8 + b * B + i) - 10))
        return [B], [b, i]
    def huge(f, k):
        def p(c, F, N, H, W, size):
            F.hdr[f][4 * k:4 * k + 4] = [c.var('h@b%d' % j, 128 if j == 0 else 0, 255) for j in range(4)]
            n = c.var('len', 0); size[f] = n       # no file of the length the header asks for is meant
            c.fact(ge0(P(2 ** 31) - n))
            return [batches(c, N)[0]], []
        return p
    R.scenario('batch size not positive', rejected(batch_size), 20)
    for f, n in (('img', 'image'), ('lab', 'label')):
        R.scenario('%s file cannot be opened' % n, rejected(missing(f), img=f == 'img'), 60)
        R.scenario('%s file with wrong magic number' % n, rejected(magic(f, False), img=f == 'img'), 60)
        R.scenario('%s file with wrong magic number, high bit set' % n, rejected(magic(f, True), img=f == 'img'), 60)
        R.scenario('%s file ends early' % n, rejected(short(f), img=f == 'img'), 120)
        R.scenario('%s file ends before the limit' % n, rejected(short(f, True), img=f == 'img'), 120)
    for f, k, n in (('img', 1, 'images'), ('img', 2, 'rows'), ('img', 3, 'columns'), ('lab', 1, 'labels')):
        R.scenario('header asks for 2^31 or more %s' % n, rejected(huge(f, k), img=f == 'img'), 60)
    R.scenario('label above 9', rejected(label, 255), 200)
