"""Environments shared by the checks: problem data, component objects."""
from solver import *
from report import *
import alg
alg_zt = zero_test

def where_fn(P, name, pred=None):
    """file:line of a function, for reports"""
    fs = P.find(name, pred)
    f = next((g for g in fs if g.get('body') is not None), fs[0] if fs else None)
    return '%s:%s %s' % (rel(f['file']), f['l'], name) if f else name

class Env:
    def access(self, loc, q, st=None, const=False):
        """the storage behind accessor q() of a component object"""
        h = self.h; e = h.e
        saved = e.st
        if st is not None: e.st = st
        try:
            cls = e.st.mem[loc].cls
            try: f = h.method(cls, q, 0, lambda f: bool(f.get('const')) == const)
            except Broken: f = h.method(cls, q, 0)
            e.stack.append(h.fr)
            try: v = e.call_fn(f, loc, [], h.fr, h.node(), bound=[])
            finally: e.stack.pop()
            if isinstance(v, Ptr): v = e.lval(v.loc)
            if isinstance(v, Ref): v = v.t
            return v
        finally: e.st = saved
    def set(self, loc, q, m, st=None):
        h = self.h; e = h.e
        saved = e.st
        if st is not None: e.st = st
        try:
            v = self.access(loc, q)
            if isinstance(v, SLoc): v = e.rval(v, h.node())
            e.eig_assign(v, EV(m), '=', h.node())
        finally: e.st = saved
    def get(self, loc, q, st=None):
        """full content of the vector returned by accessor q()"""
        h = self.h; e = h.e
        saved = e.st
        if st is not None: e.st = st
        try:
            v = self.access(loc, q)
            if isinstance(v, SLoc): v = e.rval(v, h.node())
            return full(e.mat(v, h.node()))
        finally: e.st = saved
    def num(self, loc, meth, st, args=()):
        """scalar result of a method with one outcome"""
        r = self.h.call(loc, meth, list(args), st)
        return r
    def comp(self, cls, name, args=None):
        return self.h.new1('fbstab::' + cls, name, args or [self.nz, self.nl, self.nv])
    def link(self, *locs):
        for l in locs: self.h.call1(l, 'LinkData', [Ptr(self.D)])
    def letters(self, loc, sfx, qs='zlv', y=None):
        """give the object's vectors fresh letters"""
        dims = dict(z=self.nz, l=self.nl, v=self.nv, y=self.nv)
        out = {}
        for q in qs:
            out[q] = self.h.letter(q + sfx, dims[q], 1)
            self.set(loc, q, out[q])
        return out

class DenseEnv(Env):
    def __init__(self, P, nl_min=0, contract=False):
        self.P = P; h = self.h = Harness(P); self.kind = 'dense'
        self.nz, self.nl, self.nv = h.int('nz'), h.int('nl', nl_min), h.int('nv')
        nz, nl, nv = self.nz, self.nl, self.nv
        L = {}
        for k, (r, c, s) in dict(H=(nz, nz, 1), G=(nl, nz, 0), A=(nv, nz, 0)).items(): L[k] = h.matrix(k, r, c, symm=bool(s))
        for k, n in dict(f=nz, h=nl, b=nv).items(): L[k] = h.vec(k, n)
        self.src = L
        self.H, self.G, self.A = [h.letter(k, *d) for k, d in (('H', (nz, nz, True)), ('G', (nl, nz)), ('A', (nv, nz)))]
        self.f, self.hh, self.b = h.letter('f', nz, 1), h.letter('h', nl, 1), h.letter('b', nv, 1)
        f = h.one('fbstab::DenseData::DenseData', lambda F: F.get('ctor') and not F.get('copy') and len(F['p']) == 6 and 'Map' not in F['p'][0]['t'])
        self.D = h.new1('fbstab::DenseData', 'D', [Ptr(L[k]) for k in parts(f)], pred=lambda F: F is f)
        if contract: self.c = Contracts(h, nz, nl, nv); h.e.contracts = self.c

MPC_SEQ = ['Q', 'R', 'S', 'q', 'r', 'A', 'B', 'c', 'E', 'L', 'd']
def mpc_dims(N, nx, nu, nc):
    return dict(Q=(N+1,nx,nx),R=(N+1,nu,nu),S=(N+1,nu,nx),q=(N+1,nx,1),r=(N+1,nu,1),A=(N,nx,nx),B=(N,nx,nu),c=(N,nx,1),E=(N+1,nc,nx),L=(N+1,nc,nu),d=(N+1,nc,1))

class MpcEnv(Env):
    def __init__(self, P, N):
        self.P = P; h = self.h = Harness(P); self.kind = 'mpc'; self.N = N
        self.nx, self.nu, self.nc = h.int('nx'), h.int('nu'), h.int('nc')
        nx, nu, nc = self.nx, self.nu, self.nc
        self.nz, self.nl, self.nv = (nx + nu) * (N + 1), nx * (N + 1), nc * (N + 1)
        self.dims = mpc_dims(N, nx, nu, nc)
        self.src = {}; self.seq = {}; self.seqrows = {}
        for k, (n, r, c) in self.dims.items():
            loc = h.new1('fbstab::MatrixSequence', k, [poly(n), poly(r), poly(c)])
            p = h.call1(loc, 'data', pred=lambda f: f['rt'].startswith('const'))
            if k in 'QR': SYMM_STORE.add(k)
            n = self.seqrows[k] = h.mem[p.loc].rows
            h.mem[p.loc] = Arr(n, ONE, mat_of(sym('in', k, rows=n, cols=ONE, name=k)), (), True)
            self.src[k] = loc; self.seq[k] = p.loc
        self.src['x0'] = h.vec('x0', nx)
        f = h.one('fbstab::MpcData::MpcData', lambda F: F.get('ctor') and not F.get('copy') and len(F['p']) == 12 and 'MapMatrix' not in F['p'][0]['t'])
        self.D = h.new1('fbstab::MpcData', 'D', [Ptr(self.src[k]) for k in parts(f)], pred=lambda F: F is f)
    def stage(self, k, i):
        """the ith matrix of sequence k, as a matrix over the input letters"""
        n, r, c = self.dims[k]
        r, c = poly(r), poly(c)
        L = sym('in', k, rows=self.seqrows[k], cols=ONE, name=k)
        if c == ONE: return mapblk(mat_of(L), r * i, r, ONE)
        return mapblk(mat_of(L), r * c * i, r, c)

def window(m, off, n):
    """rows off .. off+n-1 of m"""
    return sel(poly(off), poly(n), m.rows).mul(m)

def vec_zero(ck, rule, where, got, want, what, assume=()):
    """obligation: two matrices are equal"""
    if got.rows != want.rows or got.cols != want.cols:
        ck.bad(rule, where, '%s: has shape %sx%s instead of %sx%s' % (what, got.rows, got.cols, want.rows, want.cols)); return False
    r = mat_zero_test(got.add(want, poly(-1)), assume)
    ck.put(rule, where, r, what, None if r else '%s: computed %s, required %s%s' % (what, str(got)[:500], str(want)[:500], ' (case %s)' % alg.zero_test.witness if r is False and alg.zero_test.witness else ''))
    return r
def num_eq(ck, rule, where, got, want, what, assume=()):
    d = poly(got) - poly(want)
    r = zero_test(d, assume)
    ck.put(rule, where, r, what, None if r else '%s: computed %s, required %s%s' % (what, str(got)[:500], str(want)[:500], ' (case %s)' % alg.zero_test.witness if r is False and alg.zero_test.witness else ''))
    return r
def pmax(a, b): return ite(lt(poly(a), poly(b)), poly(b), poly(a))
def pmin(a, b): return ite(lt(poly(b), poly(a)), poly(b), poly(a))
def phi_pfb(a, b, al):
    a, b = poly(a), poly(b)
    return al * (a + b - mk_sqrt(a * a + b * b)) + (ONE - al) * pmax(ZERO, a) * pmax(ZERO, b)
def natural(env, z, l, v, y, al=None):
    """blocks of the (penalized) natural residual, from the KKT conditions"""
    c = env
    rz = c.H.mul(z).add(c.f).add(c.G.T().mul(l)).add(c.A.T().mul(v))
    rl = c.hh.add(c.G.mul(z), poly(-1))
    yi, vi = elem(y, PIDX), elem(v, PIDX)
    e = pmin(yi, vi)
    if al is not None: e = al * e + (ONE - al) * pmax(ZERO, yi) * pmax(ZERO, vi)
    return dict(z=rz, l=rl, v=elemwise(e, v.rows))
def sumsq(m): return dot(m, m) if m.t else ZERO
def norm_is(ck, rule, where, got, blocks, what, half=False):
    """got is the 2-norm of the stacked blocks (or half its square)"""
    want = ZERO
    for m in blocks: want = want + sumsq(m)
    g = poly(got)
    return num_eq(ck, rule, where, g * 2 if half else g * g, want, what)
