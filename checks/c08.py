from env import *

def run(ck, P):
    ck.rule('product', 'y <- a*M*x + b*y block by block for symbolic and special a, b', 25)
    ck.rule('overwrite', 'with b = 0 the result does not depend on the previous contents of y', 5)
    ck.rule('axpy', 'y <- y + a*w', 3)
    ck.rule('forcing-norm', 'ForcingNorm() is the norm of (f, h, b)', 1)
    ck.attempt('product', 'DenseData', dense, ck, P)
    for N in ([1, 2, 3] if ck.tier == 'quick' else [1, 2, 3, 4, 5, 6]):
        ck.attempt('product', 'MpcData, N=%d' % N, mpc, ck, P, N)

SCAL = [('a', 'b'), (1, 'b'), (-1, 'b'), (0, 'b'), ('a', 0), ('a', 1), ('a', -1), (1, 0), (-1, 0), (1, 1), (-1, 1), (1, -1), (-1, -1), (0, 0), (0, 1)]

def scal(h):
    """the pairs, plus the symbolic values"""
    a, b = h.real('a'), h.real('b')
    for x, y in SCAL:
        yield (a if x == 'a' else poly(x)), (b if y == 'b' else poly(y)), 'a=%s, b=%s' % (x, y)

def blocks_eq(ck, rule, fn, got, want, parts, what):
    """compare part by part; got and want are vectors"""
    for nm, off, n, w in parts:
        vec_zero(ck, rule, fn, window(got, off, n), w, '%s, rows of %s' % (what, nm))

def products(ck, E, cls, ops, vecs, tag):
    """ops: name -> (in size, out size, spec(x) -> list of (part, off, len, vec))"""
    h = E.h; P = E.P
    base = h.e.st
    for m, (ni, no, spec) in ops.items():
        fn = where_fn(P, 'fbstab::%s::%s' % (cls, m))
        def one():
            h.e.st = base.copy()
            X, Y = h.vec('x_' + m, ni), h.vec('y_' + m, no)
            x, y = h.letter('x_' + m, ni, 1), h.letter('y_' + m, no, 1)
            parts = spec(x)
            st = h.e.st
            for a, b, t in scal(h):
                rs = h.call(E.D, m, [h.ref(X), a, b, Ptr(Y)], st.copy())
                if not rs: ck.bad('product', fn, 'never returns for conforming vectors (%s)' % t)
                for s, _ in rs:
                    got = h.content(Y, s)
                    for nm, off, n, w in parts:
                        vec_zero(ck, 'product', fn, window(got, off, n), w.scale(a).add(window(y, off, n).scale(b)), '%s%s rows of %s, %s' % (m, tag, nm, t), s.facts.fs)
                    if not b.t:
                        ck.put('overwrite', fn, not mentions_letter(got, 'y_' + m), '%s%s with b = 0 ignores the old contents of y (%s)' % (m, tag, t))
                    for q in ('x_' + m,):
                        vec_zero(ck, 'product', fn, h.content(X, s), x, '%s%s leaves its input vector unchanged (%s)' % (m, tag, t))
        ck.attempt('product', fn + tag, one)
    for m, (no, parts) in vecs.items():
        fn = where_fn(P, 'fbstab::%s::%s' % (cls, m))
        def two():
            h.e.st = base.copy()
            Y = h.vec('y_' + m, no); y = h.letter('y_' + m, no, 1)
            st = h.e.st
            for a in (h.real('a'), ONE, poly(-1), ZERO):
                for s, _ in h.call(E.D, m, [a, Ptr(Y)], st.copy()):
                    got = h.content(Y, s)
                    for nm, off, n, w in parts:
                        vec_zero(ck, 'axpy', fn, window(got, off, n), window(y, off, n).add(w.scale(a)), '%s%s rows of %s, a=%s' % (m, tag, nm, a), s.facts.fs)
        ck.attempt('axpy', fn + tag, two)
    h.e.st = base.copy()
    fn = where_fn(P, 'fbstab::%s::ForcingNorm' % cls)
    def three():
        for s, v in h.call(E.D, 'ForcingNorm', [], base.copy()):
            want = ZERO
            for m in vecs:
                for nm, off, n, w in vecs[m][1]: want = want + sumsq(w)
            num_eq(ck, 'forcing-norm', fn, v * v, want, 'ForcingNorm()^2%s' % tag)
    ck.attempt('forcing-norm', fn + tag, three)
    ck.saw(h.e)

def letters_in(w):
    for s in w:
        yield s
        for a in s.args:
            if isinstance(a, Sym): yield from letters_in((a,))
def mentions_letter(m, name):
    seen = []
    class L(Subst):
        def __bool__(self): return True
        def _letter(self, s):
            if s.kind == 'in' and s.name == name: seen.append(s)
            return Subst._letter(self, s)
    L().mat(m)
    return bool(seen)

def dense(ck, P):
    E = DenseEnv(P); nz, nl, nv = E.nz, E.nl, E.nv
    one = lambda M, n: (lambda x: [('y', ZERO, n, M.mul(x))])
    ops = {'gemvH': (nz, nz, one(E.H, nz)), 'gemvA': (nz, nv, one(E.A, nv)), 'gemvG': (nz, nl, one(E.G, nl)),
           'gemvAT': (nv, nz, one(E.A.T(), nz)), 'gemvGT': (nl, nz, one(E.G.T(), nz))}
    vecs = {'axpyf': (nz, [('f', ZERO, nz, E.f)]), 'axpyh': (nl, [('h', ZERO, nl, E.hh)]), 'axpyb': (nv, [('b', ZERO, nv, E.b)])}
    products(ck, E, 'DenseData', ops, vecs, '')

def mpc_ops(E):
    N, nx, nu, nc = E.N, E.nx, E.nu, E.nc; S = E.stage; nt = nx + nu
    xs = lambda z, i: window(z, nt * i, nx)
    us = lambda z, i: window(z, nt * i + nx, nu)
    ls = lambda l, i: window(l, nx * i, nx)
    vs = lambda v, i: window(v, nc * i, nc)
    R = range(N + 1)
    def H(z):
        out = []
        for i in R:
            out.append(('x(%d)' % i, nt * i, nx, S('Q', i).mul(xs(z, i)).add(S('S', i).T().mul(us(z, i)))))
            out.append(('u(%d)' % i, nt * i + nx, nu, S('S', i).mul(xs(z, i)).add(S('R', i).mul(us(z, i)))))
        return out
    def A(z): return [('stage %d' % i, nc * i, nc, S('E', i).mul(xs(z, i)).add(S('L', i).mul(us(z, i)))) for i in R]
    def G(z):
        out = [('stage 0', ZERO, nx, xs(z, 0).scale(poly(-1)))]
        for i in range(1, N + 1):
            out.append(('stage %d' % i, nx * i, nx, S('A', i - 1).mul(xs(z, i - 1)).add(S('B', i - 1).mul(us(z, i - 1))).add(xs(z, i), poly(-1))))
        return out
    def AT(v):
        out = []
        for i in R:
            out.append(('x(%d)' % i, nt * i, nx, S('E', i).T().mul(vs(v, i))))
            out.append(('u(%d)' % i, nt * i + nx, nu, S('L', i).T().mul(vs(v, i))))
        return out
    def GT(l):
        out = []
        for i in R:
            w = ls(l, i).scale(poly(-1))
            if i < N: w = w.add(S('A', i).T().mul(ls(l, i + 1)))
            out.append(('x(%d)' % i, nt * i, nx, w))
            out.append(('u(%d)' % i, nt * i + nx, nu, S('B', i).T().mul(ls(l, i + 1)) if i < N else zeros(nu, ONE)))
        return out
    f, hh, b = [], [('h(0)', ZERO, nx, window(E.h.letter('x0', nx, 1), ZERO, nx).scale(poly(-1)))], []
    for i in R:
        f += [('q(%d)' % i, nt * i, nx, S('q', i)), ('r(%d)' % i, nt * i + nx, nu, S('r', i))]
        if i: hh.append(('h(%d)' % i, nx * i, nx, S('c', i - 1).scale(poly(-1))))
        b.append(('b(%d)' % i, nc * i, nc, S('d', i).scale(poly(-1))))
    return dict(gemvH=(E.nz, E.nz, H), gemvA=(E.nz, E.nv, A), gemvG=(E.nz, E.nl, G), gemvAT=(E.nv, E.nz, AT), gemvGT=(E.nl, E.nz, GT)), \
        dict(axpyf=(E.nz, f), axpyh=(E.nl, hh), axpyb=(E.nv, b))

def mpc(ck, P, N):
    E = MpcEnv(P, N)
    ops, vecs = mpc_ops(E)
    products(ck, E, 'MpcData', ops, vecs, ' (N=%d)' % N)
