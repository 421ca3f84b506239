"""Loops: executed when their condition is constant, otherwise summarised for all iterations.

A summary is a guessed inductive invariant (one descriptor per written cell) that is
checked by executing one generic iteration on every path; only a summary whose
invariant is preserved and whose exit condition matches is used.
"""
from terms import *
from terms import _barrs
from prover import CTX
from interp import (SVec, segs_of, Hoist, Elem, Ptr, ObjPtr, Obj, Vec, Opt, Lam, Map, Str, Opaque, Layer, Buf, Stream, CppThrow, ReturnEx,
                    BreakEx, ContinueEx, Infeasible, NeedSymbolic, Undefined, next_id, B_or_P_subst, NULL)

MAXC = 64

class GPath:
    __slots__ = ('pcs', 'kind', 'val', 'mem', 'cond')
    def __init__(s, pcs, kind, val, mem, cond): s.pcs = pcs; s.kind = kind; s.val = val; s.mem = mem; s.cond = cond

def fvof(v):
    return v.fv if isinstance(v, (Poly, Bool)) else frozenset()

class Loops:
    # ---------------------------------------------------------------- entry
    def loop(s, lid, cond, body, step, do_while=False):
        s.tick()
        par = None
        if getattr(s, 'ompflag', None) == lid:
            par = s.omp_info; s.ompflag = None
        if lid not in s.forced and (lid not in s.symbolic or not do_while):
            if s.concrete(lid, cond, body, step, do_while): return
        if s.noforks and s.noforks_strict: raise NeedSymbolic()
        # what was learnt about this loop on an earlier run of the same path prefix is kept, so that a
        # replay makes the same decisions in the same order
        mode = None
        for attempt in range(12):
            c = s.ch[-1] if s.ch else None
            key = (lid, tuple(c.dec[:c.pos]), s.next) if c else None
            if c and key in c.memo: mode = c.memo[key]
            if isinstance(mode, Bool): s.choose(mode, True); mode = 'hoist'; continue
            if isinstance(mode, Exception):
                s.unroll(lid, cond, body, step, do_while, mode); return
            snap = s.snapshot()
            try:
                s.summarise(lid, cond, body, step, do_while, par, mode == 'hoist')
                return
            except Hoist as h:
                if h.key != (lid, s.ch_depth(snap)): raise
                s.restore(snap)
                if s.trace: print('  hoist', h.b)
                mode = h.b
            except Unsupported as e:
                s.restore(snap)
                if s.trace: print('  summary failed: %s' % e)
                mode = 'hoist' if mode is None and s.ch else e
            if c: c.memo[key] = mode
        raise Unsupported('no invariant found for a loop')
    def ch_depth(s, snap): return len(s.ch)
    noforks_strict = False
    def snapshot(s):
        c = s.ch[-1] if s.ch else None
        return (dict(s.mem), s.next, CTX.mark(), (c.pos, len(c.dec), len(c.alts), len(c.pcs)) if c else None, len(s.frames), [(f, dict(f.env)) for f in s.frames[-2:]])
    def restore(s, snap):
        m, nx, mk, cc, nf, envs = snap
        s.mem = dict(m); s.next = nx; CTX.reset(mk)
        if cc:
            c = s.ch[-1]
            c.pos = cc[0]; del c.dec[cc[1]:]; del c.alts[cc[2]:]; del c.pcs[cc[3]:]
        del s.frames[nf:]
        for f, e in envs: f.env = dict(e)
    def one(s, body, step):
        """run one iteration; False when it left the loop"""
        try: s_body = body()
        except ContinueEx: pass
        except BreakEx: return False
        if step: step()
        return True
    def concrete(s, lid, cond, body, step, do_while):
        snap = None
        n = 0
        while True:
            if n or not do_while:
                s.noforks += 1
                if n == 0: snap = s.snapshot()
                try: c = CTX.norm_bool(cond())
                except NeedSymbolic: c = None
                finally: s.noforks -= 1
                if c is None or c.k not in 'TF':
                    s.restore(snap)
                    s.symbolic.add(lid)
                    return False
                if c.k == 'F': return True
            elif snap is None: snap = s.snapshot()
            n += 1
            if n > 6 and s.ch and snap[3] and len(s.ch[-1].pcs) > snap[3][3] + 2 and n > 2:
                # decided by case distinctions in the body: not a loop with a known number of iterations
                s.restore(snap); s.forced.add(lid)
                return False
            if n > MAXC: raise Unsupported('long concrete loop')
            if not s.one(body, step): return True
    def unroll(s, lid, cond, body, step, do_while, why):
        """last resort: run the loop with a decision per iteration, a few iterations only"""
        n = 0
        s.unrolled = getattr(s, 'unrolled', 0) + 1
        while True:
            if n or not do_while:
                if not s.choose(cond()): return
            n += 1
            if n > s.unroll_limit: raise why
            if not s.one(body, step): return
    unroll_limit = 4
    forced = set()
    # ---------------------------------------------------------------- summary
    def summarise(s, lid, cond, body, step, do_while, par, hoist=False):
        if not do_while:
            m1 = dict(s.mem); n1 = s.next
            c = CTX.norm_bool(cond())
            if c.k == 'F': return
            if not s.choose(c): return
            s.mem = m1; s.next = n1
        mem0 = s.mem; next0 = s.next
        key = (lid, next0)
        desc = s.guess.get(key); cached = desc is not None
        for rnd in range(9):
            L = Summary(s, mem0, next0, desc, cond, body, step, do_while)
            L.hoist = (lid, len(s.ch)) if hoist else None
            L.run()
            try: ok, desc = L.analyse()
            except Unsupported:
                if not cached: raise
                ok = False
            if s.trace: print('  ' * len(s.ch), 'loop %s round %d ok=%s %s' % (lid, rnd, ok, {a: d[0] for a, d in desc.items()}))
            if ok: break
            if cached: desc = None; cached = False
        else: raise Unsupported('no invariant found for a loop')
        w = L.window(desc)
        if w is not None:
            L2 = Summary(s, mem0, next0, desc, cond, body, step, do_while)
            L2.hoist = L.hoist; L2.shift = w
            try:
                L2.run()
                ok, d2 = L2.analyse()
                if ok and all(d2[a][0] in WINDOW for a in d2) and all(p.kind == "ok" for p in L2.paths): L = L2; desc = d2
            except Unsupported: pass
            if s.trace: print('  ' * len(s.ch), 'loop %s over a window: %s %s' % (lid, L is L2, w))
        if not L.do_while and L.shift is None: L.radix()
        L.check_ub()
        s.guess[key] = {a: tuple(d) for a, d in desc.items()}
        if par is not None: L.check_parallel(par)
        L.finish()
        s.loops_done += 1

# kinds of cells a loop over a clipped window may change
WINDOW = ('aff', 'const', 'acc', 'fold', 'arg', 'buf')

def pieces(p):
    """the polynomials p can be, one for each outcome of the conditions in it"""
    inds = sorted({a for m in p.d for a, e in m if ATOMS[a].kind == 'ind'})
    if len(inds) > 3: return None
    out = []
    for bits in range(1 << len(inds)):
        val = {a: bits >> i & 1 for i, a in enumerate(inds)}
        r = ZERO
        for m, c in p.d.items():
            if all(val.get(a, 1) for a, e in m): r = r + Poly({tuple((a, e) for a, e in m if a not in val): c})
        if r not in out: out.append(r)
    return out

class Summary:
    shift = None
    def window(L, desc):
        """a loop whose counter runs from the largest of several numbers to the smallest of several others, i.e. over
        a window clipped to a range: (first number of the unclipped window - start, its length, condition).  The loop
        then does the same as one over the whole window with that condition around its body."""
        if L.do_while or L.space is not None or L.brk or L.exits or any(d[0] not in WINDOW for d in desc.values()): return None
        cs = {p.cond for p in L.ok}
        if len(cs) != 1: return None
        c = cs.pop()
        if c is None or c.k != 'ge0' or coeff(c.a, L.kn) != P(-1): return None
        for a, d in desc.items():
            lo = L.mem0[a]
            if d[0] != 'aff' or d[1] != ONE or not isinstance(lo, Poly): continue
            lows = pieces(lo)
            if not lows: continue
            b = c.a + L.k
            if L.kn in b.fv or b.fv & set(L.ph): return None
            hi = lo + b + 1
            his = pieces(hi)
            if not his: return None
            if len(lows) < 2 and (len(his) < 2 or not any(d[0] == 'fold' for d in desc.values())): continue
            if not all(CTX.prove(ge0(lo - x)) for x in lows) or not all(CTX.prove(ge0(x - hi)) for x in his): continue
            ln, x, y = min(((y - x, x, y) for x in lows for y in his), key=lambda t: (len(t[0].d), len(t[0].fv), -len(t[1].d), fmt(t[0])))
            return lo - x, ln, tuple([x + V('$k') - z for z in lows if z != x] + [z - 1 - x - V('$k') for z in his if z != y]), b + 1
        return None
    def __init__(L, s, mem0, next0, desc, cond, body, step, do_while):
        L.s = s; L.mem0 = mem0; L.next0 = next0; L.desc = dict(desc) if desc is not None else None
        L.cond = cond; L.body = body; L.step = step; L.do_while = do_while
    # -- one generic iteration on every path
    def run(L):
        s = L.s
        L.k = fresh('k')
        L.kn = varname(L.k)
        pre = dict(L.mem0)
        facts = [ge0(L.k)]
        L.pre = {}; L.ph = {}; L.H = {}
        L.space = None; L.flat = L.k
        if L.shift:
            off, ln, gs, n = L.shift
            L.flat = L.k - off
            L.guards = [ge0(subst(g, {'$k': L.k})) for g in gs]
            facts += [ge0(ln - 1 - L.k)] + L.guards
        desc = L.desc or {}
        dig = [a for a, d in desc.items() if d[0] == 'digit']
        L.dv = {}
        for a in dig:
            v = fresh('d'); L.dv[a] = v
            facts.append(ge0(v))
        if dig and all(len(desc[a]) > 1 and desc[a][1] is not None for a in dig):
            order = sorted(dig, key=lambda a: desc[a][2])
            L.space = [(varname(L.dv[a]), desc[a][1]) for a in order]
            L.flat = ZERO
            for v, D in L.space:
                facts.append(ge0(D - 1 - V(v)))
                L.flat = L.flat * D + V(v)
            facts = facts[1:]
            L.order = order
        for a, d in desc.items():
            v0 = L.mem0[a]
            k = d[0]
            if k in ('aff', 'affl'): v = v0 + L.flat * d[1]
            elif k == 'ptr': v = type(v0)(v0.base, v0.off + L.flat * d[1]) if not isinstance(v0, ObjPtr) else v0
            elif k == 'digit': v = L.dv[a]
            elif k == 'copy': v = L.dv[d[1]]
            elif k == 'const' or k == 'flag': v = v0
            elif k in ('acc', 'fold', 'arg', 'last'):
                v = fresh('h' if k != 'last' else 'unk', v0.isint()); L.ph[varname(v)] = a
            elif k in ('orflag', 'blast'):
                nm = 'hb#%d' % next_id(); v = boolvar(nm); L.ph[nm] = a
            elif k == 'svec':
                v = SVec(segs_of(v0) + (('pend', L.flat * d[1]),), v0.et)
            elif k == 'prev':
                qn, e, kn = d[1], d[2], d[3]
                def f(q, v0=v0, e=e, qn=qn, kn=kn, k=L.k, s=s):
                    z = CTX.norm(k)
                    if z == ZERO: return s.buf_read(v0, q)
                    last = subst(e, {qn: q, kn: k - 1})
                    return last if CTX.prove(gt0(k), 300) else ite(eq(k, ZERO), s.buf_read(v0, q), last)
                v = Buf(('fun', f) if e is not None else ('none',), (), v0.n, v0.isint, v0.isvec)
            elif k == 'buf':
                nm = 'H#%d' % next_id(); L.H[nm] = a
                v = Buf(('H', nm), (), v0.n, v0.isint, v0.isvec)
            else: raise Unsupported(k)
            pre[a] = v; L.pre[a] = v
        L.facts = facts
        w0 = s.wlog; s.wlog = set()
        conds = {}
        sm = s.mem; snx = s.next
        s.mem = pre
        mk = CTX.mark()
        for f in facts: CTX.add(f)
        def it():
            c = None
            if L.shift: c = TRUE
            elif not L.do_while:
                c = CTX.norm_bool(B(L.cond()))
                if c.k == 'F': raise BreakEx()
                if c.k != 'T': CTX.add(c); L.below(c)
            try:
                try: L.body()
                except ContinueEx: pass
                if L.step: L.step()
            except Undefined as e:
                e.cond = c
                raise
            if L.do_while: c = CTX.norm_bool(B(L.cond()))
            return c
        try:
            res = s.explore(it, hoist=L.hoist)
            L.written = {a for a in s.wlog if a < L.next0 and a in L.mem0}
        finally:
            CTX.reset(mk); s.mem = sm; s.next = snx
            w1 = s.wlog; s.wlog = w0
            if w0 is not None: w0 |= {a for a in w1 if a < L.next0}
        L.paths = [GPath(list(p), k, v, m, v if k == 'ok' else None) for p, k, v, m, nx in res]
        L.ok = [p for p in L.paths if p.kind == 'ok']
        L.exits = [p for p in L.paths if p.kind in ('return', 'throw')]
        L.brk = [p for p in L.paths if p.kind == 'break']
        for p in L.ok: L.relocate(p)
        if not L.ok and not L.exits: raise Unsupported('loop without a continuing path')
    def relocate(L, p):
        """an iteration that replaces an object owned by a surviving variable by a fresh one: when nothing else
        refers to the old object, the fresh one is renamed to the old one's address"""
        mem = p.mem; n0 = L.next0; sigma = {}
        def old(a): return isinstance(a, int) and 0 <= a < n0 and a in L.mem0
        def pair(new, o, src):
            if new == o: return True
            if not (isinstance(new, int) and new >= n0 and old(o)) or sigma.get(new, o) != o or (o in sigma.values() and sigma.get(new) != o): return False
            if new in sigma: return True
            sigma[new] = o
            return walk(mem[new], L.mem0[o])
        def walk(v, w):
            if isinstance(v, ObjPtr) or isinstance(w, ObjPtr) or isinstance(v, SVec) or isinstance(w, SVec): return v == w
            if isinstance(v, Ptr) and isinstance(w, Ptr):
                if v.base == w.base: return True
                return v.off == w.off and isinstance(v.base, int) and pair(v.base, w.base, None)
            if isinstance(v, Vec) and isinstance(w, Vec): return len(v.e) == len(w.e) and all(pair(x, y, None) for x, y in zip(v.e, w.e))
            if isinstance(v, Obj) and isinstance(w, Obj): return v.cls == w.cls and v.f.keys() == w.f.keys() and all(pair(v.f[k], w.f[k], None) if isinstance(v.f[k], int) else v.f[k] == w.f[k] for k in v.f)
            if isinstance(v, Opt) and isinstance(w, Opt): return (v.a is None and w.a is None) or (v.a is not None and w.a is not None and pair(v.a, w.a, None))
            return type(v) is type(w)
        for a in sorted(L.written):
            v, w = mem.get(a), L.mem0[a]
            if not isinstance(v, (Ptr, Vec, Obj, Opt)) or type(v) is not type(w) or v == w: continue
            keep = dict(sigma)
            if not walk(v, w):
                if L.s.trace: print("   not relocated", a, v, w)
                sigma = keep
        if not sigma: return
        dead = set(sigma.values())
        def refs(v):
            if isinstance(v, Ptr): return [v.base]
            if isinstance(v, SVec): return [x[1] for x in v.segs if x[0] == 'one']
            if isinstance(v, Vec): return v.e
            if isinstance(v, Obj): return list(v.f.values())
            if isinstance(v, Opt): return [v.a]
            if isinstance(v, Map): return [a for k, a in v.kv]
            if isinstance(v, Lam): return [x.base if isinstance(x, (Elem, Ptr)) else x for x in (v.env or {}).values()] + [v.this]
            return []
        roots = [a for a in mem if isinstance(a, int) and a < n0 and a not in dead]
        for f in L.s.frames:
            for x in list(f.env.values()) + [f.this]:
                x = x.base if isinstance(x, (Elem, Ptr)) else x
                if isinstance(x, int): roots.append(x)
        seen = set(); todo = roots
        while todo:
            a = todo.pop()
            if a in seen or not isinstance(a, int): continue
            seen.add(a)
            if a in dead:
                if L.s.trace: print("   not relocated: %s still referred to" % a)
                return
            if a in mem: todo.extend(refs(mem[a]))
        ad = lambda a: sigma.get(a, a) if isinstance(a, int) else a
        def val(v):
            if isinstance(v, ObjPtr): return ObjPtr(ad(v.base))
            if isinstance(v, Ptr): return Ptr(ad(v.base), v.off)
            if isinstance(v, SVec): return SVec([('one', ad(x[1])) if x[0] == 'one' else x for x in v.segs], v.et)
            if isinstance(v, Vec): return Vec([ad(x) for x in v.e], v.et)
            if isinstance(v, Obj): return Obj(v.cls, {k: ad(x) for k, x in v.f.items()})
            if isinstance(v, Opt): return Opt(ad(v.a), v.et)
            if isinstance(v, Map): return Map([(k, ad(x)) for k, x in v.kv], v.kt, v.vt)
            return v
        out = {}
        for a, v in mem.items():
            if a in dead: continue
            out[ad(a)] = v if v == L.mem0.get(a) and a < n0 and not any(x in sigma for x in refs(v) if isinstance(x, int)) else val(v)
        p.mem = out
        L.written |= dead
    def replaced(L, a, p):
        """content of a buffer after the iteration when it does not depend on what was there before, else None"""
        b = p.mem[a]
        if not isinstance(b, Buf) or (b.base[0] == 'H' and b.base == getattr(L.pre.get(a), 'base', None)): return None
        b0 = L.mem0[a]
        mk = CTX.mark()
        for f in L.facts + list(p.pcs): CTX.add(f)
        try:
            if not (b.n == b0.n or CTX.prove(eq(b.n, b0.n))): raise Unsupported('buffer resized in a loop')
        finally: CTX.reset(mk)
        if b.base[0] == 'none': return None, None
        q = fresh('q')
        e = L.s.buf_read(b, q)
        if fvof(e) & set(L.ph) or any(h in e.arrs() for h in L.H): raise Unsupported('buffer replaced by something that depends on its content')
        return varname(q), e
    def below(L, c):
        """k != b held in all earlier iterations, so k < b"""
        if L.space is not None: return
        for x in (c.a if c.k == 'and' else (c,)):
            if x.k == 'not' and x.a.k == 'eq0':
                p = x.a.a; cf = coeff(p, L.kn)
                if cf is None or not cf.d: continue
                b = p - cf * L.k
                if L.kn in b.fv or b.fv & set(L.ph) or L.hreads(b): continue
                if cf == ONE: b = -b
                elif cf != P(-1):
                    q, r = monos_div_ok(b, -cf)
                    if q is None or (q.d == {} and b.d): continue
                    b = q
                if CTX.quick(ge0(b)) or CTX.prove(ge0(b), 300): CTX.add(ge0(b - 1 - L.k))
    rsub = None
    def radix(L):
        """an index that is taken apart by division and remainder: iterate over its digits instead"""
        if L.space is not None or L.brk or not L.ok: return
        k = V(L.kn)
        divs = set()
        def look(p):
            for m in p.d:
                for a, e in m: atom(ATOMS[a])
        def atom(at):
            if L.kn not in at.fv: return
            if at.kind == 'f':
                if at.args[0] == 'idiv' and at.args[1][0] == k and L.kn not in at.args[1][1].fv: divs.add(at.args[1][1])
                for x in at.args[1]: look(x)
            elif at.kind == 'rd': look(at.args[1])
            elif at.kind == 'ind': lookb(at.args[0])
            elif at.kind == 'pol': look(at.args[0])
            elif at.kind == 'sum': look(at.args[1])
        def lookb(b):
            if b.k in ('ge0', 'gt0', 'eq0'): look(b.a)
            elif b.k in ('and', 'or'):
                for x in b.a: lookb(x)
            elif b.k == 'not': lookb(b.a)
        for p in L.paths:
            for c in p.pcs: lookb(c)
            if p.kind != 'ok': continue
            for a, d in L.final_desc.items():
                v = p.mem[a]
                if isinstance(v, Poly): look(v)
                elif isinstance(v, Bool): lookb(v)
                elif isinstance(v, Buf):
                    for l in v.layers:
                        look(l.idx); lookb(l.guard)
                        if isinstance(l.val, Poly): look(l.val)
        divs = {d for d in divs if len(d.d) == 1 and not d.isconst()}
        if not divs: return
        try: N = L.trip_count()
        except Unsupported: return
        if len(N.d) != 1: return
        chain = [ONE]
        for d in sorted(divs, key=lambda d: sum(e for m in d.d for a, e in m)) + [N]:
            q, r = monos_div(d, chain[-1])
            if r.d or len(q.d) != 1: return
            if q != ONE: chain.append(d)
        space = []; flat = ZERO
        for lo, hi in reversed(list(zip(chain, chain[1:]))):
            v = fresh('k')
            space.append((varname(v), monos_div(hi, lo)[0]))
            flat = flat + v * lo
        if len(space) < 2: return
        sub = {L.kn: flat}
        def val(v):
            if isinstance(v, Poly): return subst(v, sub)
            if isinstance(v, Bool): return subst_bool(v, sub)
            if isinstance(v, Buf): return Buf(v.base, tuple(Layer(l.kind, tuple((w, subst(n, sub)) for w, n in l.bv), subst_bool(l.guard, sub), subst(l.idx, sub), B_or_P_subst(l.val, sub)) for l in v.layers), v.n, v.isint, v.isvec)
            if isinstance(v, Ptr) and not isinstance(v, ObjPtr): return Ptr(v.base, subst(v.off, sub))
            return v
        with CTX.ranges(space):
            for p in L.paths:
                p.pcs = [subst_bool(c, sub) for c in p.pcs]
                p.pcs = [c for c in p.pcs if c.k != 'T']
                if isinstance(p.cond, Bool): p.cond = TRUE
                if p.kind == 'ok': p.mem = dict(p.mem, **{}) if False else {**p.mem, **{a: val(p.mem[a]) for a in L.final_desc}}
            L.pre = {a: val(v) for a, v in L.pre.items()}
        L.space = space; L.order = []; L.rsub = sub
        if L.s.trace: print('   radix', space)
    def check_ub(L):
        """an iteration with undefined behaviour, under the invariant"""
        for p in L.paths:
            if p.kind == 'ub':
                s = L.s
                # make the failing iteration part of the path so that it can be examined
                if (and_(*p.pcs).fv & set(L.ph)): raise Unsupported('possibly undefined: ' + p.val.what)
                mk = CTX.mark()
                try:
                    for v, D in (L.space or []):
                        CTX.add(ge0(V(v))); CTX.add(ge0(D - 1 - V(v)))
                    for c in p.pcs:
                        if CTX.quick(not_(c)): raise Infeasible()
                        CTX.add(c)
                    if CTX.infeasible(): raise Infeasible()
                except Infeasible: continue
                finally: CTX.reset(mk)
                for v, D in (L.space or []):
                    CTX.add(ge0(V(v))); CTX.add(ge0(D - 1 - V(v)))
                if not L.space: CTX.add(ge0(L.k))
                for c in p.pcs: CTX.add(c)
                pc = getattr(p.val, 'cond', None)
                if pc is not None: CTX.add(subst_bool(pc, L.rsub) if L.rsub else pc)
                raise Undefined(p.val.what)
    # -- is the guess inductive?  otherwise a refined guess
    def analyse(L):
        s = L.s
        desc = dict(L.desc) if L.desc is not None else {}
        first = L.desc is None
        changed = False
        new = {}
        for a in sorted(L.written):
            v0 = L.mem0[a]
            posts = [p.mem[a] for p in L.ok]
            if a not in desc:
                d = L.classify(a, v0, posts)
                if d is not None: new[a] = d; changed = True
        if first:
            desc = new
            if not desc and not L.written: pass
            if desc: return False, desc
        elif new:
            desc.update(new); return False, desc
        for a, d in list(desc.items()):
            if d[0] == 'aff' and not L.mem0[a].d and L.mem0[a].isint() and d[1] in (ONE, ZERO):
                if any(not isinstance(p.mem[a], Poly) or not L.same(p.mem[a] - L.pre[a], d[1], p) for p in L.ok):
                    desc[a] = ('digit', None, 0); changed = True
        if changed:
            for a, d in list(desc.items()):
                if d[0] == 'digit': desc[a] = ('digit', None, 0)
                elif d[0] == 'copy': desc[a] = ('digit', None, 0)
            return False, desc
        # digits first
        dig = [a for a in desc if desc[a][0] == 'digit']
        if dig:
            r = L.odometer(dig, desc)
            if r is not None: return False, r
        # lockstep copies, constants, flags
        with_space = CTX.ranges(L.space) if L.space else CTX.ranges([])
        with with_space:
            stage = {'aff': 0, 'ptr': 0, 'copy': 0, 'digit': 0, 'const': 0, 'buf': 0, 'prev': 2}
            ORD = sorted(desc.items(), key=lambda x: stage.get(x[1][0], 1 if x[1][0] == 'flag' else 2))
            st = 0
            for a, d in ORD:
                k = d[0]; pre = L.pre[a]
                bad = False
                n_ = stage.get(k, 1 if k == 'flag' else 2)
                if n_ > st:
                    if changed: return False, desc
                    st = n_
                for p in L.ok:
                    post = p.mem[a]
                    if k == 'aff':
                        if not isinstance(post, Poly) or not L.same(post - pre, d[1], p): bad = True
                    elif k == 'ptr':
                        if not isinstance(post, Ptr) or post.base != pre.base or not L.same(post.off - pre.off, d[1], p): bad = True
                    elif k == 'svec':
                        n = len(pre.segs)
                        if not isinstance(post, SVec) or post.segs[:n] != pre.segs or len(post.segs) != n + d[1] or any(x[0] != 'one' for x in post.segs[n:]): bad = True
                    elif k == 'const':
                        if not (post == pre or (isinstance(post, Poly) and L.same(post, pre, p))): bad = True
                    elif k == 'flag':
                        if p in L.last_paths() : continue
                        if post != pre: bad = True
                    elif k == 'buf':
                        if post.base != ('H', pre.base[1]):
                            r = L.replaced(a, p)
                            if r is not None:
                                if dig: raise Unsupported('buffer replaced in a loop')
                                desc[a] = ('prev', r[0], r[1], L.kn); changed = True; break
                    elif k == 'prev':
                        r = L.replaced(a, p)
                        if r is None or dig: raise Unsupported('buffer replaced in a loop')
                        if d[2] is None: continue
                        if r[1] is None: desc[a] = ('prev', None, None, L.kn); changed = True; break
                        e = subst(r[1], {r[0]: V(d[1])}); w = subst(d[2], {d[3]: L.k})
                        if not L.same(e, w, p): raise Unsupported('content of a buffer is not known from the iteration number')
                    elif k == 'copy':
                        x = L.dv[d[1]]
                        if p.mem[a] != p.mem[d[1]] and not (isinstance(post, Poly) and L.same(post, p.mem[d[1]], p)): bad = True
                if k == 'affl':
                    for p in L.ok:
                        post = p.mem[a]
                        if not isinstance(post, Poly) or not (L.same(post - pre, d[1], p) or L.lastit(p)): bad = True
                if k == 'acc':
                    h = varname(pre)
                    for p in L.ok:
                        post = p.mem[a]
                        if not isinstance(post, Poly): raise Unsupported('cell changes type')
                        if h in (post - pre).fv: bad = True
                    if any(h in fvof(c) for p in L.paths for c in p.pcs): bad = True
                elif k == 'fold':
                    r = L.find_fold(a)
                    if r is None: bad = True
                elif k == 'arg':
                    ok = any(desc[f][0] == 'fold' and L.is_arg(a, f) for f in desc)
                    if not ok: bad = True
                elif k == 'last':
                    h = varname(pre)
                    for p in L.ok:
                        if p.mem[a] != pre and h in fvof(p.mem[a]): bad = True
                elif k == 'blast': pass
                if bad:
                    nd = L.even(a) if k == 'acc' and not dig else None
                    nd = nd or L.downgrade(a, d)
                    if nd is None: raise Unsupported('no invariant for a cell (%s)' % k)
                    desc[a] = nd; changed = True
        if changed: return False, desc
        # placeholders of 'last' cells must not be read anywhere
        L.final_desc = desc
        return True, desc
    def classify(L, a, v0, posts):
        if L.s.trace: print('    classify', a, v0, posts)
        if isinstance(v0, Buf):
            return ('buf',) if any(p is not v0 for p in posts) or not posts else None
        if isinstance(v0, Vec) and posts and all(isinstance(p, Vec) for p in posts):
            sv = segs_of(v0); ns = set()
            for p in posts:
                sp = segs_of(p)
                if sp[:len(sv)] != sv: raise Unsupported('loop changes a list')
                ns.add(len(sp) - len(sv))
            if ns == {0}: return None
            if len(ns) > 1: raise Unsupported('loop extends a list unevenly')
            return ('svec', ns.pop())
        if all(p == v0 for p in posts):
            if isinstance(v0, Poly):
                if v0.isint(): return ('digit', None, 0) if not v0.d else ('aff', ZERO)
                return ('acc',)
            if isinstance(v0, Bool): return ('flag',)
            if isinstance(v0, (Vec, Obj, Opt, Map, Lam, Ptr)): return None
            return None
        if isinstance(v0, Poly):
            if v0.isint() and all(isinstance(p, Poly) and p.isint() for p in posts):
                ds = {p - v0 for p in posts}
                if len(ds) == 1: return ('aff', ds.pop())
                if not v0.d and all(p == ZERO or p == ONE for p in posts): return ('digit', None, 0)
                return ('acc',)
            return ('acc',)
        if isinstance(v0, Bool): return ('flag',)
        if isinstance(v0, Ptr) and not isinstance(v0, ObjPtr):
            if all(isinstance(p, Ptr) and p.base == v0.base for p in posts):
                ds = {p.off - v0.off for p in posts}
                if len(ds) == 1: return ('ptr', ds.pop())
        raise Unsupported('loop changes a %s' % type(v0).__name__)
    def lastit(L, p):
        """the path is only taken in the last iteration"""
        c = p.cond
        if L.space is not None or L.do_while or not isinstance(c, Bool) or c.fv & set(L.ph): return False
        nx = subst_bool(c, {L.kn: L.k + 1})
        mk = CTX.mark()
        try:
            for f in L.facts: CTX.add(f)
            for f in p.pcs: CTX.add(f)
            CTX.add(c)
            return CTX.prove(not_(nx), 500)
        finally: CTX.reset(mk)
    def even(L, a):
        """the same step in every iteration but possibly the last one"""
        if L.brk or not L.mem0[a].isint(): return None
        pre = L.pre[a]
        for p in L.ok:
            if not isinstance(p.mem[a], Poly): return None
            t = p.mem[a] - pre
            if t.fv & (set(L.ph) | {L.kn}) or L.hreads(t) or L.lastit(p): continue
            if all(p2 is p or L.lastit(p2) or L.same(p2.mem[a] - pre, t, p2) for p2 in L.ok): return ('affl', t)
        return None
    def downgrade(L, a, d):
        k = d[0]; v0 = L.mem0[a]
        if k == 'aff':
            if v0.isint() and not v0.d and d[1] in (ONE, ZERO): return ('digit', None, 0)
            return ('acc',)
        if k == 'const': return ('acc',) if isinstance(v0, Poly) else None
        if k == 'digit' or k == 'copy': return ('acc',)
        if k == 'acc': return ('fold',)
        if k == 'affl': return ('fold',)
        if k == 'fold': return ('arg',)
        if k == 'arg': return ('last',)
        if k == 'flag': return ('orflag',)
        return None
    def same(L, x, y, p):
        d = x - y
        if not d.d: return True
        d = CTX.norm(d)
        if not d.d: return True
        mk = CTX.mark()
        try:
            for f in L.facts: CTX.add(f)
            for f in p.pcs: CTX.add(f)
            if p.cond is not None and not L.do_while: CTX.add(p.cond)
            return CTX.prove(eq0(d), 500)
        finally: CTX.reset(mk)
    # -- odometers
    def action(L, a, p):
        x = L.dv[a] if a in L.dv else L.pre[a]
        post = p.mem[a]
        if post == x: return 'keep'
        if not isinstance(post, Poly): return '?'
        if post == x + 1: return 'inc'
        if not post.d: return 'reset'
        return '?'
    def odometer(L, dig, desc):
        """a refined guess, or None when the digits already are consistent"""
        s = L.s
        act = {a: [L.action(a, p) for p in L.ok] for a in dig}
        out = dict(desc); ch = False
        for a in list(dig):
            acts = act[a]
            if '?' in acts or not ('reset' in acts):
                if set(acts) <= {'inc', 'keep'} and set(acts) == {'inc'}: out[a] = ('aff', ONE)
                else: out[a] = ('acc',)
                ch = True
            elif 'inc' not in acts:
                out[a] = ('const',); ch = True
        if ch: return out
        if L.space is not None:
            # consistency: lexicographic successor on every path
            n = len(L.order)
            for i, p in enumerate(L.ok):
                t = [act[a][i] for a in L.order]
                j = n - 1
                while j >= 0 and t[j] == 'reset': j -= 1
                if j >= 0 and not (t[j] == 'inc' and all(x == 'keep' for x in t[:j])): raise Unsupported('not an odometer %s' % [[act[a][i], L.ok[i].pcs] for i in range(len(L.ok)) for a in L.order])
                # reset only at the last value, increment only below it
                mk = CTX.mark()
                try:
                    for f in L.facts: CTX.add(f)
                    for f in p.pcs: CTX.add(f)
                    for q in range(n):
                        v, D = L.space[q]
                        if q > j and not CTX.prove(ge0(V(v) + 1 - D), 500): raise Unsupported('odometer resets early')
                        if q == j and not CTX.prove(ge0(D - 2 - V(v)), 500): raise Unsupported('odometer overruns')
                finally: CTX.reset(mk)
            return None
        ext = {}
        for a in dig:
            x = varname(L.dv[a])
            for p, t in zip(L.ok, act[a]):
                for c in p.pcs:
                    if c.k in ('ge0', 'eq0') and x in c.fv:
                        cf = coeff(c.a, x)
                        if cf is None: continue
                        if (t == 'reset' and cf == ONE) or (c.k == 'eq0' and t == 'reset' and cf == P(-1)):
                            D = L.dv[a] + 1 - c.a if cf == ONE else L.dv[a] + 1 + c.a
                        elif t == 'inc' and c.k == 'ge0' and cf == P(-1):
                            D = c.a + L.dv[a] + 2
                        else: continue
                        if x in D.fv or any(varname(v) in D.fv for v in L.dv.values()): continue
                        ext.setdefault(a, []).append(D)
        if s.trace: print('   digits', [(a, act[a], [str(D) for D in ext.get(a, ())]) for a in dig])
        def fits(a, D):
            for p, t in zip(L.ok, act[a]):
                if t == 'keep': continue
                mk = CTX.mark()
                try:
                    for f in L.facts: CTX.add(f)
                    for f in p.pcs: CTX.add(f)
                    g = ge0(L.dv[a] + 1 - D) if t == 'reset' else ge0(D - 2 - L.dv[a])
                    if not CTX.quick(g) and not CTX.prove(g, 300): return False
                finally: CTX.reset(mk)
            return True
        # digits that move together: one of them carries the comparison
        cls = {}
        for a in dig: cls.setdefault(tuple(act[a]), []).append(a)
        locked = {}
        for c in cls.values():
            if len(c) < 2: continue
            good = [a for a in c if any(fits(a, D) for D in dict.fromkeys(ext.get(a, ())))]
            if not good or len(good) == len(c): continue
            for a in c:
                if a not in good: locked[a] = good[0]
        if locked:
            for a, b in locked.items(): out[a] = ('copy', b)
            dig = [a for a in dig if a not in locked]
        for a in dig:
            ds = list(dict.fromkeys(ext.get(a, ())))
            if len(ds) > 1: ds = [D for D in ds if fits(a, D)]
            if not ds: out[a] = ('acc',); ch = True
            else: ext[a] = ds[0]
        if ch: return out
        def outer(a, b):
            some = False
            for ta, tb in zip(act[a], act[b]):
                if ta == 'inc': some = True
                if ta in ('inc', 'reset') and tb != 'reset': return False
                if tb == 'inc' and ta != 'keep': return False
            return some
        comps = []
        for a in dig:
            for c in comps:
                if any(outer(a, b) or outer(b, a) for b in c): c.append(a); break
            else: comps.append([a])
        lists = []
        for c in comps:
            c[:] = sorted(c, key=lambda a: sum(1 for b in c if b != a and outer(b, a)))
            lists.append([ext[a] for a in c])
        main = max(range(len(comps)), key=lambda i: len(comps[i]))
        for i, c in enumerate(comps):
            if i == main:
                for j, a in enumerate(c): out[a] = ('digit', ext[a], j)
                continue
            # lockstep with the main one
            if lists[i] == lists[main]:
                for a, b in zip(c, comps[main]): out[a] = ('copy', b)
            else:
                # a subset of the digits
                used = 0
                for a in c:
                    js = [j for j in range(used, len(comps[main])) if lists[main][j] == ext[a] and L.lock(act, a, comps[main][j])]
                    if not js: js = [j for j in range(used, len(comps[main])) if lists[main][j] == ext[a]]
                    if not js: raise Unsupported('two different odometers')
                    out[a] = ('copy', comps[main][js[0]]); used = js[0] + 1
        return out
    def lock(L, act, a, b): return act[a] == act[b]
    def last_paths(L):
        """paths of the last iteration of an odometer"""
        if L.space is None or L.rsub: return []
        return [p for p in L.ok if all(L.action(a, p) == 'reset' for a in L.order)]
    # -- maxima
    def find_fold(L, a):
        pre = L.pre[a]; h = varname(pre)
        val = None; guards = []
        for p in L.ok:
            post = p.mem[a]
            if post == pre: continue
            if h in fvof(post):
                v = L.ite_max(post, pre)
                if v is None: return None
                g = [c for c in p.pcs]
            else:
                v = post
                g = [c for c in p.pcs if not (h in c.fv)]
                hc = [c for c in p.pcs if h in c.fv]
                if len(hc) != 1 or hc[0] != gt(v, pre): return None
            if val is not None and v != val: return None
            val = v
            guards.append(and_(*g))
        if val is None: return None
        for p in L.ok:
            if p.mem[a] == pre:
                for c in p.pcs:
                    if h in c.fv and c != not_(gt(val, pre)): return None
        if fvof(val) & set(L.ph): return None
        return val, or_(*guards), h
    def ite_max(L, post, pre):
        h = varname(pre)
        for m in post.d:
            for at, e in m:
                A = ATOMS[at]
                if A.kind == 'ind' and A.args[0].k == 'gt0' and h in A.args[0].fv:
                    v = A.args[0].a + pre
                    if h in v.fv: continue
                    if post == ite(gt(v, pre), v, pre): return v
        return None
    def is_arg(L, a, f):
        pre = L.pre[a]
        hf = varname(L.pre[f])
        for p in L.ok:
            if (p.mem[a] != pre) and p.mem[f] == L.pre[f]: return False
            if p.mem[a] != pre and varname(pre) in fvof(p.mem[a]): return False
        return True
    # -- data races
    def check_parallel(L, par):
        lim, listed = par
        for a, d in L.final_desc.items():
            if a >= lim: continue
            if a in listed:
                # reduction(+: x): the sum of the contributions, whichever thread adds them
                if d[0] in ('acc', 'aff', 'affl', 'copy', 'const'): continue
                raise Unsupported('a variable in a clause of a parallel loop')
            if d[0] != 'buf': raise Undefined('data race: a shared variable is written in a parallel loop')
        L.par = True
    par = False
    # -- the state after the loop
    def finish(L):
        s = L.s; desc = L.final_desc
        # trip count
        hasbrk = bool(L.brk)
        if L.shift:
            off, ln, gs, N = L.shift
            L.space = [(L.kn, ln)]
            last = {L.kn: off + N - 1}
            L.order = []
            with CTX.ranges(L.space): gs = [g for g in L.guards if not CTX.prove(g)]
            for p in L.ok: p.pcs += [g for g in gs if g not in p.pcs]
        elif L.space is None:
            N = L.trip_count()
            L.space = [(L.kn, N)]
            last = {L.kn: N - 1}
            L.order = []
        elif L.rsub:
            N = ONE
            for v, D in L.space: N = N * D
            last = {v: D - 1 for v, D in L.space}
        else:
            N = ONE
            for v, D in L.space: N = N * D
            last = {v: D - 1 for v, D in L.space}
            lp = L.last_paths()
            with CTX.ranges(L.space):
                for p in L.ok:
                    c = p.cond
                    if L.do_while:
                        want = FALSE if p in lp else TRUE
                        if p in lp and hasattr(p.cond, 'k') and p.cond.k not in 'TF':
                            mk = CTX.mark()
                            for f in p.pcs: CTX.add(f)
                            okc = CTX.prove(not_(p.cond)); CTX.reset(mk)
                            if not okc: raise Unsupported('odometer loop condition')
                        elif c.k not in 'TF':
                            mk = CTX.mark()
                            for f in p.pcs: CTX.add(f)
                            okc = CTX.prove(c); CTX.reset(mk)
                            if not okc: raise Unsupported('odometer loop condition')
                        elif c != want: raise Unsupported('odometer loop ends early')
                    elif c is not None and c.k != 'T' and not CTX.prove(c): raise Unsupported('odometer loop condition')
        L.names = {v for v, _ in L.space}
        # paths that leave the loop by return or throw
        for p in L.brk: L.monotone(p)
        ex = L.exits
        fn_ = None
        if ex:
            with CTX.ranges(L.space):
                e = or_(*[and_(*[c for c in p.pcs]) for p in ex])
            if e.fv & set(L.ph): raise Unsupported('exit condition depends on the loop state')
            for nm in L.H:
                if nm in _barrs(e): raise Unsupported('exit condition reads a written buffer')
            if e.k == 'T': noex = FALSE
            elif not (e.fv & L.names): noex = not_(e)
            elif len(L.space) == 1 and L.rising(e): noex = not_(subst_bool(e, last))
            else:
                with CTX.ranges(L.space): body = ind(e)
                noex = eq0(mk_sum(L.space, body))
            if not s.choose(noex):
                kinds = {(p.kind, p.val.ty if p.kind == 'throw' else repr(p.val)) for p in ex}
                L.taint(desc)
                p = ex[0]
                if len(kinds) > 1: raise Unsupported('several ways to leave a loop')
                if p.kind == 'throw': raise p.val
                v = p.val
                if isinstance(v, (Poly, Bool)) and not (v.fv & L.names): raise ReturnEx(v)
                if v is None: raise ReturnEx(None)
                if isinstance(v, int) and v < L.next0: raise ReturnEx(v)
                raise Unsupported('value returned from inside a loop')
            for p in L.ok:
                for x in ex:
                    if x.pcs and all(c in p.pcs for c in x.pcs[:-1]) and not_(x.pcs[-1]) in p.pcs and not bytes_in(x.pcs[-1]): p.pcs.remove(not_(x.pcs[-1]))
        if not L.ok:
            # no continuing path and no exit: not reachable
            raise Infeasible()
        ok = L.merge_digit_paths()
        # prefix sums for accumulators that are read
        accs = {a: L.pre[a] for a, d in desc.items() if d[0] == 'acc'}
        psub = {}
        used = set()
        for p in ok:
            for c in p.pcs: used |= c.fv
            for a in desc:
                v = p.mem[a]
                if isinstance(v, Poly): used |= (v - L.pre[a]).fv if desc[a][0] in ('acc',) else v.fv
                elif isinstance(v, Buf):
                    for l in v.layers: used |= l.guard.fv | l.idx.fv | fvof(l.val)
        graphs = {}
        for a, d in desc.items():
            if d[0] != 'svec': continue
            if len(L.space) != 1 or L.rsub or L.order or hasbrk or d[1] != 1: raise Unsupported('loop that builds a list')
            graphs[a] = [(p, p.mem[a].segs[-1][1], L.graph(p.mem[a].segs[-1][1], p.mem)) for p in ok]
            for p, r, g in graphs[a]:
                for v in g.values():
                    if isinstance(v, (Poly, Bool)): used |= v.fv
                    elif isinstance(v, Buf):
                        used |= v.n.fv
                        if v.base[0] == 'const': used |= fvof(v.base[1])
                        for l in v.layers: used |= l.guard.fv | l.idx.fv | fvof(l.val)
        if len(L.space) == 1:
            for a, pre in accs.items():
                h = varname(pre)
                if h in used:
                    e = ZERO
                    bad = False
                    kv, N1 = L.space[0]
                    with CTX.ranges(L.space):
                        for p in ok:
                            t = p.mem[a] - pre
                            g = and_(*p.pcs)
                            if (t.fv | g.fv) & set(L.ph) or L.hreads(t) or L.hreads(g): bad = True; break
                            e = e + ind(g) * t
                    if bad or hasbrk: continue
                    j = fresh('s')
                    with CTX.ranges(L.space):
                        psub[h] = L.mem0[a] + mk_sum([(varname(j), V(kv))], subst(e, {kv: j}))
        L.psub = psub
        # buffers
        final = {}
        for a, d in desc.items():
            if d[0] == 'buf': final[a] = L.lift(a, ok)
        fold = None
        for a, d in desc.items():
            v0 = L.mem0[a]; k = d[0]
            if k in ('aff', 'ptr'):
                if hasbrk:
                    final[a] = L.unk(v0)
                elif k == 'aff': final[a] = v0 + N * d[1]
                else: final[a] = Ptr(v0.base, v0.off + N * d[1])
            elif k == 'affl':
                if hasbrk or L.rsub or L.order: raise Unsupported('uneven step')
                t = ZERO
                for p in ok:
                    e = L.res(p.mem[a] - L.pre[a]); g = and_(*[L.res_b(c) for c in p.pcs])
                    if (e.fv | g.fv) & set(L.ph): raise Unsupported('uneven step')
                    t = t + subst(e, last) * ind(subst_bool(g, last))
                final[a] = v0 + (N - 1) * d[1] + t
            elif k == 'prev':
                if hasbrk or L.rsub or L.order: raise Unsupported('buffer replaced in a loop')
                def f(q, d=d, N=N): return subst(d[2], {d[1]: q, d[3]: N - 1})
                final[a] = Buf(('fun', f) if d[2] is not None else ('none',), (), v0.n, v0.isint, v0.isvec)
            elif k == 'svec':
                ps = []
                with CTX.ranges(L.space):
                    for p, r, g in graphs[a]:
                        gd = L.res_b(and_(*p.pcs))
                        if gd.fv & set(L.ph): raise Unsupported('list element depends on the loop state')
                        ps.append((gd, r, {x: L.gval(v) for x, v in g.items()}))
                final[a] = SVec(segs_of(v0) + (('tmpl', N, L.space[0][0], ps),), v0.et)
            elif k in ('digit', 'copy'): final[a] = ZERO if not hasbrk else L.unk(v0)
            elif k == 'const': final[a] = v0
            elif k == 'flag':
                lp = L.last_paths()
                vs = [p.mem[a] for p in lp] if lp else [v0]
                if any(v != vs[0] for v in vs): final[a] = L.unk(v0)
                else: final[a] = vs[0]
            elif k == 'acc':
                tot = v0
                bad = False
                with CTX.ranges(L.space):
                    body = ZERO
                    for p in ok:
                        e = p.mem[a] - L.pre[a]
                        if not e.d: continue
                        g = and_(*[L.res_b(c) for c in p.pcs])
                        e = L.res(e)
                        if (e.fv | g.fv) & set(L.ph): bad = True; break
                        mk = CTX.mark()
                        body = body + ind(g) * e
                if bad: final[a] = L.unk(v0)
                else: final[a] = v0 + mk_sum(L.space, body)
            elif k == 'last':
                vs = []
                for p in ok:
                    v = p.mem[a]
                    vs.append(v)
                if hasbrk or any(v != vs[0] for v in vs) or vs[0] == L.pre[a] or (vs[0].fv & set(L.ph)) or L.hreads(vs[0]): final[a] = L.unk(v0)
                else: final[a] = subst(vs[0], last)
            elif k == 'orflag':
                final[a] = L.orflag(a, ok)
            elif k == 'blast': final[a] = L.unk(v0)
        # maxima, with the cells that remember their position
        for a, d in desc.items():
            if d[0] != 'fold': continue
            val, g, h = L.find_fold(a)
            args = [b for b in desc if desc[b][0] == 'arg' and L.is_arg(b, a)]
            L.finish_fold(a, val, g, args, ok, final)
        for a in desc:
            if a not in final: final[a] = L.unk(L.mem0[a])
        for a, v in final.items(): s.put(a, v)
        # the condition must now be false
        if not L.do_while and not hasbrk:
            c = CTX.norm_bool(B(L.cond()))
            if not (c.k == 'F' or CTX.prove(not_(c))): raise Unsupported('loop exit condition')
    def graph(L, root, mem):
        """the objects reachable from root that the iteration created"""
        out = {}; todo = [root]
        while todo:
            a = todo.pop()
            if not isinstance(a, int) or a < L.next0 or a in out: continue
            v = mem[a]; out[a] = v
            if isinstance(v, Obj): todo.extend(x for x in v.f.values() if isinstance(x, int))
            elif isinstance(v, SVec): raise Unsupported('list of lists')
            elif isinstance(v, Vec): todo.extend(v.e)
            elif isinstance(v, Opt): todo.append(v.a)
            elif isinstance(v, Ptr): todo.append(v.base)
            elif isinstance(v, Map): raise Unsupported('list of maps')
        return out
    def gval(L, v):
        """a value of the generic iteration in terms of the iteration number"""
        def num(x):
            x = L.res_b(x) if isinstance(x, Bool) else L.res(x)
            if x.fv & set(L.ph) or L.hreads(x): raise Unsupported('list element depends on the loop state')
            return x
        if isinstance(v, (Poly, Bool)): return num(v)
        if isinstance(v, Ptr) and not isinstance(v, ObjPtr): return Ptr(v.base, num(v.off))
        if isinstance(v, Buf):
            b = v.base
            if b[0] == 'const': b = ('const', num(b[1]))
            elif b[0] == 'list': b = ('list', [num(x) for x in b[1]])
            elif b[0] == 'fun':
                f = b[1]; b = ('fun', lambda q: num(f(q)))
            elif b[0] == 'H': raise Unsupported('list element shares a written buffer')
            return Buf(b, tuple(Layer(l.kind, tuple((w, num(n)) for w, n in l.bv), num(l.guard), num(l.idx), num(l.val)) for l in v.layers), num(v.n), v.isint, v.isvec)
        return v
    def taint(L, desc):
        for a in desc:
            L.s.put(a, L.unk(L.mem0[a]))
    def unk(L, v0):
        if isinstance(v0, Poly): return V('unk#%d' % next_id(), v0.isint())
        if isinstance(v0, Bool): return boolvar('unk#%d' % next_id())
        if isinstance(v0, Ptr) and not isinstance(v0, ObjPtr): return Ptr(v0.base, V('unk#%d' % next_id()))
        if isinstance(v0, Buf): return Buf(('arr', 'unk#%d' % next_id()), (), v0.n, v0.isint, v0.isvec)
        return v0
    def trip_count(L):
        cs = {p.cond for p in L.ok if p.cond is not None}
        if not cs: 
            if L.exits: raise Unsupported('loop always leaves')
            raise Unsupported('loop without condition')
        if len(cs) > 1:
            cs = {CTX.norm_bool(c) for c in cs}
            if len(cs) > 1: raise Unsupported('loop condition differs between paths')
        c = cs.pop()
        if c.k == 'T': raise Unsupported('endless loop')
        return L.count(c)
    def count(L, c):
        s = L.s; k = L.kn
        if c.k == 'and':
            ns = [L.count(x) for x in c.a if k in x.fv]
            for x in c.a:
                if k not in x.fv and not CTX.prove(x): raise Unsupported('loop condition')
            r = ns[0]
            for n in ns[1:]:
                r = r if s.choose(ge0(n - r)) else n
            return r
        if c.k == 'ge0':
            p = c.a
            cf = coeff(p, k)
            if cf is None or not cf.d: raise Unsupported('loop condition not linear')
            b = p - cf * L.k
            st = -cf
            if k in b.fv: raise Unsupported('loop condition not linear')
            if (b.fv | st.fv) & set(L.ph): raise Unsupported('loop condition depends on the loop state')
            if not CTX.prove(ge0(st - 1)): raise Unsupported('loop does not advance')
            # holds iff k <= b / st
            if L.do_while:
                if not s.choose(ge0(b)): return ONE
                return idiv(b, st) + 2
            return idiv(b, st) + 1       # the condition held at k = 0
        if c.k == 'not' and c.a.k == 'eq0':
            p = c.a.a
            cf = coeff(p, k)
            if cf is None or not cf.d: raise Unsupported('loop condition not linear')
            b = p - cf * L.k
            if k in b.fv or b.fv & set(L.ph): raise Unsupported('loop condition not linear')
            if cf == ONE: b = -b
            elif cf != P(-1):
                q, r = monos_div_ok(b, -cf)
                if r is None: raise Unsupported('loop condition step')
                b = q
            if not CTX.prove(ge0(b)): raise Unsupported('loop may run past its end')
            return b if not L.do_while else b + 1
        raise Unsupported('loop condition %s' % c.k)
    def rising(L, e):
        """once it holds it holds in all later iterations"""
        v, N = L.space[0]
        if e.k in ('and', 'or'): return all(v not in c.fv or L.rising(c) for c in e.a)
        if e.k != 'ge0': return False
        cf = coeff(e.a, v)
        if cf is None or v in (e.a - cf * V(v)).fv: return False
        with CTX.ranges(L.space): return CTX.quick(ge0(cf)) or CTX.prove(ge0(cf), 300)
    def monotone(L, p):
        """once the break condition holds it holds for all later iterations; nothing was changed"""
        if len(L.space) > 1: raise Unsupported('break in an odometer loop')
        k = L.kn
        for a in L.final_desc:
            if p.mem[a] != L.pre[a] and not (isinstance(p.mem[a], Buf) and p.mem[a].layers == L.pre[a].layers):
                raise Unsupported('break after a change')
        def mono(c):
            if k not in c.fv: return True
            if c.k == 'ge0':
                cf = coeff(c.a, k)
                return cf is not None and k not in (c.a - cf * L.k).fv and CTX.prove(ge0(cf))
            if c.k in ('and', 'or'): return all(mono(x) for x in c.a)
            return False
        for c in p.pcs:
            if c.fv & set(L.ph) or L.hreads(c): raise Unsupported('break depends on the loop state')
            if not mono(c): raise Unsupported('break condition not monotone')
    def merge_digit_paths(L):
        """join paths with equal effects and complementary conditions"""
        desc = L.final_desc
        if any(d[0] == 'svec' for d in desc.values()): return L.ok
        skip = {a for a, d in desc.items() if d[0] in ('digit', 'copy', 'flag')} if L.order else set()
        def eff(p):
            out = []
            for a in sorted(desc):
                if a in skip: continue
                v = p.mem[a]
                if isinstance(v, Buf): out.append((a, tuple(layer_key(l) for l in v.layers)))
                else: out.append((a, v))
            return tuple(out)
        items = [(list(p.pcs), p, eff(p)) for p in L.ok]
        if L.order:
            # conditions that only speak about digits and loop-invariant terms
            dn = set(L.names)
        ch = True
        while ch:
            ch = False
            for i in range(len(items)):
                for j in range(i + 1, len(items)):
                    if items[i][2] != items[j][2]: continue
                    r = join(items[i][0], items[j][0])
                    if r is not None:
                        items[i] = (r, items[i][1], items[i][2]); del items[j]
                        ch = True; break
                if ch: break
        out = []
        for pcs, p, e in items:
            out.append(GPath(pcs, 'ok', p.val, p.mem, p.cond))
        return out
    # -- reads of buffers written in the loop
    def hreads(L, e):
        ar = e.arrs() if isinstance(e, Poly) else _barrs(e) if isinstance(e, Bool) else frozenset()
        return bool(ar & set(L.H))
    def res(L, e):
        """e with reads of written buffers resolved to the content before the loop"""
        if L.psub: e = subst(e, L.psub)
        hs = frozenset(h for h in L.H if h in e.arrs())
        if not hs: return e
        return map_reads(e, hs, L.res_read)
    def res_b(L, b):
        if L.psub: b = subst_bool(b, L.psub)
        hs = frozenset(h for h in L.H if h in _barrs(b))
        if not hs: return b
        return map_reads_bool(b, hs, L.res_read)
    def res_read(L, h, idx):
        a = L.H[h]
        lay = [l for p in L.ok for l in p.mem[a].layers]
        for l in lay:
            if l.idx == idx and not l.bv: break
        else:
            if lay and not L.owned(a, idx, lay): raise Unsupported('reads an element another iteration may write')
        L.need_disjoint.add(a)
        return L.s.buf_read(L.mem0[a], idx)
    need_disjoint = set()
    def owned(L, a, idx, lay):
        """idx belongs to this iteration: for every layer, another iteration cannot write it"""
        return all(L.disjoint(l.idx, l.bv, idx, ()) for l in lay)
    def disjoint(L, i1, bv1, i2, bv2):
        """i1 at iteration x and i2 at another iteration x' are different"""
        s = L.s
        if i1 == i2 and not bv1 and not bv2:
            # injective in the space variables?
            l = Layer('set', tuple(L.space), TRUE, i1, ZERO)
            r = s.solve_layer(l, V('q!'))
            return r is not None and not r[2]
        # equal coefficients, remainders inside the innermost coefficient
        names = [v for v, _ in L.space]
        rest1, rest2 = i1, i2
        cs = []
        for v in names:
            c1, c2 = coeff(i1, v), coeff(i2, v)
            if c1 is None or c2 is None or c1 != c2 or not c1.d: return False
            rest1 = rest1 - c1 * V(v); rest2 = rest2 - c2 * V(v)
            cs.append((v, c1))
        if (rest1.fv | rest2.fv) & set(names): return False
        common = rest2 if not bv2 and not (rest2.fv & {v for v, _ in bv1}) else None
        b1 = {v for v, _ in bv1}; b2 = {v for v, _ in bv2}
        base1 = subst(rest1, {v: ZERO for v in b1})
        base2 = subst(rest2, {v: ZERO for v in b2})
        with CTX.ranges(list(L.space) + list(bv1) + list(bv2)):
            # order by size; the smallest coefficient must exceed both remainders
            for m in (base1, base2):
                r1 = rest1 - m; r2 = rest2 - m
                def fits(c):
                    return CTX.quick(ge0(r1)) and CTX.quick(ge0(r2)) and CTX.quick(ge0(c - 1 - r1)) and CTX.quick(ge0(c - 1 - r2))
                for v, c in cs:
                    if not fits(c): continue
                    # the other coefficients form a chain above c
                    l = Layer('set', tuple(L.space), TRUE, i1 - rest1, ZERO)
                    q = s.solve_layer(l, V('q!'))
                    if q is not None and not q[2]:
                        return True
        return False
    def lift(L, a, ok):
        s = L.s
        b0 = L.mem0[a]
        L.need_disjoint = set()
        h = L.pre[a].base[1]
        new = []
        nset = nadd = 0
        per = []
        for p in ok:
            b = p.mem[a]
            if b.base != ('H', h):
                raise Unsupported('buffer replaced in a loop')
            if b.n != b0.n: raise Unsupported('buffer resized in a loop')
            for l in b.layers: per.append((p, l))
        before = {id(l): Buf(p.mem[a].base, p.mem[a].layers[:k], b0.n, b0.isint, b0.isvec) for p in ok for k, l in enumerate(p.mem[a].layers)}
        sets = []
        for p, l in per:
            kind = l.kind; val = l.val; bv = tuple(L.space) + tuple(l.bv)
            with CTX.ranges(bv):
                guard = and_(*[L.res_b(c) for c in p.pcs], L.res_b(l.guard))
                idx = l.idx
                if L.psub: idx = subst(idx, L.psub)
                if idx.fv & set(L.ph) or guard.fv & set(L.ph): raise Unsupported('written index depends on the loop state')
                if L.hreads(idx): raise Unsupported('index read from the buffer')
                if isinstance(val, Poly):
                    if kind == 'set' and h in val.arrs():
                        # an accumulation?
                        # relative to what this iteration itself left there before
                        prev = before[id(l)]
                        with CTX.ranges(l.bv):
                            with CTX.assume(*p.pcs, l.guard): own = s.buf_read(prev, l.idx) if prev.layers else rd(h, l.idx)
                        e = val - own
                        if h not in e.arrs() and not L.injective(idx, bv):
                            kind = 'add'; val = e
                    val = L.res(val)
                elif isinstance(val, Bool): val = L.res_b(val)
                if fvof(val) & set(L.ph): raise Unsupported('written value depends on the loop state')
            if s.trace: print('   layer', kind, bv, guard, idx, p.pcs, p.cond)
            new.append(Layer(kind, bv, guard, idx, val))
        # several layers: iterations must not overlap each other
        if any(l.kind == 'set' for l in new):
            for i, l in enumerate(new):
                if l.kind == 'set' and not L.injective(l.idx, l.bv, l.guard):
                    # the same element in every iteration: the last one wins
                    free = [v for v, N in l.bv if v not in l.idx.fv]
                    if len(new) == 1 and not L.par and free and all(v not in l.guard.fv for v in free) and not (set(free) & {x for v, N in l.bv for x in N.fv}):
                        sub = {v: N - 1 for v, N in l.bv if v in free}
                        keep = tuple((v, N) for v, N in l.bv if v not in free)
                        nl = Layer('set', keep, l.guard, l.idx, B_or_P_subst(l.val, sub))
                        if keep and not L.injective(nl.idx, keep): raise Unsupported('elements written more than once')
                        new[i] = nl
                    elif L.par: raise Undefined('data race: one element written by several iterations')
                    else: raise Unsupported('elements written more than once')
            if len(new) > 1 or L.need_disjoint:
                for i in range(len(new)):
                    for j in range(len(new)):
                        if i == j and len(per) == 1: continue
                        x, y = per[i][1], per[j][1]
                        if new[i].kind == 'add' and new[j].kind == 'add': continue
                        if i != j and excl(new[i].guard, new[j].guard) and x.idx == y.idx and not x.bv and not y.bv:
                            if L.injective(x.idx, tuple(L.space)): continue
                        if not L.disjoint(x.idx, x.bv, y.idx, y.bv): raise Unsupported('iterations overlap')
        elif L.par and any(l.kind == 'add' for l in new):
            raise Undefined('data race: one element updated by several iterations')
        if s.trace: print('   lifted', new)
        return Buf(b0.base, b0.layers + tuple(new), b0.n, b0.isint, b0.isvec)
    def injective(L, idx, bv, guard=TRUE):
        r = L.s.solve_layer(Layer('set', tuple(bv), guard, idx, ZERO), V('q!'))
        return r is not None and not r[2]
    def orflag(L, a, ok):
        v0 = L.mem0[a]
        pre = L.pre[a]
        hit = []
        val = None
        for p in ok:
            v = p.mem[a]
            if v == pre: continue
            if v.k not in 'TF' or (val is not None and v != val): return L.unk(v0)
            val = v
            g = and_(*p.pcs)
            if g.fv & set(L.ph) or L.hreads(g): return L.unk(v0)
            hit.append(g)
        if val is None: return v0
        with CTX.ranges(L.space): body = ind(or_(*hit))
        if L.s.choose(eq0(mk_sum(L.space, body))): return v0
        return val
    def finish_fold(L, a, val, g, args, ok, final):
        s = L.s
        v0 = L.mem0[a]
        with CTX.ranges(L.space):
            val = L.res(val); g = L.res_b(g)
        if val.fv & set(L.ph) or g.fv & set(L.ph): raise Unsupported('maximum depends on the loop state')
        space = list(L.space)
        inner = None
        # nested maximum: flatten
        t = None
        if len(val.d) == 1:
            (m, c), = val.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fold' and ATOMS[m[0][0]].args[0] == 'max': t = ATOMS[m[0][0]]
        argsub = None
        if t is not None and not args == None:
            op, j, Ns, gi, bi = t.args
            vs = [fresh('f') for _ in Ns]
            ren = {'$%d.%d' % (t.depth, i): v for i, v in enumerate(vs)}
            n0 = len(space)
            space = space + [(varname(v), n) for v, n in zip(vs, Ns)]
            inner = (t, n0)
            g2 = and_(g, subst_bool(gi, ren)); val2 = subst(bi, ren)
        else: g2 = g; val2 = val
        M = mk_fold('max', 0, space, g2, val2)
        # initial value is the element before the first one, or the first one
        if g2.k == 'T' and len(space) == 1 and not args:
            kv, N = space[0]
            if subst(val2, {kv: ZERO}) == v0: final[a] = M; return
            if subst(val2, {kv: P(-1)}) == v0:
                j = fresh('f')
                with CTX.ranges([(varname(j), N + 1)]): b2 = subst(val2, {kv: j - 1})
                final[a] = mk_fold('max', 0, [(varname(j), N + 1)], TRUE, b2); return
        mi = -V('INF', False)
        if v0 == mi:
            if not L.nonempty(space, g2): raise Unsupported('maximum over a possibly empty range')
            took = True
        else: took = s.choose(gt(M, v0))
        if not took:
            final[a] = v0
            for b in args: final[b] = L.mem0[b]
            return
        final[a] = M
        A = [mk_fold('arg', i, space, g2, val2) for i in range(len(space))]
        sub = {v: A[i] for i, (v, N) in enumerate(L.space)}
        # the maximum is taken inside the (non-empty) range
        full = {v: A[i] for i, (v, N) in enumerate(space)}
        for i, (v, N) in enumerate(space):
            CTX.add(ge0(A[i])); CTX.add(ge0(subst(N, full) - 1 - A[i]))
        CTX.add(subst_bool(g2, full))
        for b in args:
            vs = [p.mem[b] for p in ok if p.mem[b] != L.pre[b]]
            if any(v != vs[0] for v in vs): final[b] = L.unk(L.mem0[b]); continue
            v = vs[0]
            if inner is not None:
                t, n0 = inner
                v = repl_atoms(v, lambda at: A[n0 + at.args[1]] if at.kind == 'fold' and at.args[0] == 'arg' and at.args[2:] == t.args[2:] else None)
            final[b] = subst(v, sub)
    def nonempty(L, space, g): return fold_nonempty(space, g)

def monos_div_ok(b, c):
    from terms import monos_div
    if len(c.d) != 1: return None, None
    q, r = monos_div(b, c)
    return (q, r) if not r.d else (None, None)

def repl_atoms(p, f):
    r = ZERO
    for m, c in p.d.items():
        t = P(c)
        for a, e in m:
            x = f(ATOMS[a])
            t = t * ((x if x is not None else atom_poly(ATOMS[a])) ** e)
        r = r + t
    return r

def layer_key(l):
    ren = {v: V('bv%d' % i) for i, (v, N) in enumerate(l.bv)}
    return (l.kind, tuple(subst(N, ren) for v, N in l.bv), subst_bool(l.guard, ren), subst(l.idx, ren), B_or_P_subst(l.val, ren))

def excl(a, b):
    xs = list(a.a) if a.k == 'and' else [a]
    ys = list(b.a) if b.k == 'and' else [b]
    return any(not_(x) in ys for x in xs)

def join(p, q):
    """one conjunction equivalent to p or q when they differ in complementary conditions, else None"""
    sp, sq = set(p), set(q)
    if sp == sq: return p
    dp = [c for c in p if c not in sq]; dq = [c for c in q if c not in sp]
    if not dp: return p            # p is weaker
    if not dq: return q
    if len(dp) == 1 and len(dq) == 1 and not_(dp[0]) == dq[0]: return [c for c in p if c != dp[0]]
    # p = C and x ; q = C and not x and y : becomes C and (x or y)
    for a, b, full in ((dp, dq, p), (dq, dp, q)):
        if len(a) == 1 and not_(a[0]) in b:
            rest = [c for c in b if c != not_(a[0])]
            return [c for c in full if c != a[0]] + [or_(a[0], and_(*rest))]
    return None
def bytes_in(b):
    """a condition on a byte that was read: kept as a guard, it bounds the position written"""
    return b.k == 'ge0' and any(ATOMS[a].kind == 'f' and ATOMS[a].args[0].startswith('byte:') for m in b.a.d for a, e in m)
