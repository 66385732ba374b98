"""Mapped, owned and copied problem data mean the same problem."""
from graph import *
from c08 import mpc_ops, products
from c06 import *

def run(ck, P):
    ck.rule('stage-read', 'stage k of a sequence is its kth contiguous column-major block', 4)
    ck.rule('stage-write', 'writing stage k changes exactly that block', 3)
    ck.rule('map', 'a mapped sequence refers to the memory it is made from', 4)
    ck.rule('copy', 'a copy of an owned sequence has the same contents and its own memory', 10)
    ck.rule('sizes', 'length, rows, columns and size agree between a sequence and its maps and copies', 5)
    ck.rule('fill', 'VariableRef::fill sets every component of every part', 2)
    ck.rule('blocks', 'the data object of a solve presents every block given under its name, at the time of the call', 60)
    ck.rule('guess', 'the solve starts from the caller\'s z, l and v', 4)
    ck.rule('solution', 'the solution is written into the memory of the variable given, all four parts from one iterate', 12)
    for n, r in (('stage-read', reads), ('stage-write', writes), ('map', maps), ('copy', copies), ('sizes', sizes), ('fill', fills), ('blocks', solves)): ck.attempt(n, n, r, ck, P)

class Seq:
    """a sequence of len = k + d + 2 matrices, k and another stage in it"""
    def __init__(self, P):
        h = self.h = Harness(P); self.P = P
        self.r, self.c, self.k = h.int('r'), h.int('c'), h.int('k', 0)
        self.d, self.e = h.int('d', 0), h.int('e', 0)
        self.j = self.k + self.d + 1
        self.len = self.j + self.e + 1
        self.s = h.new1('fbstab::MatrixSequence', 's', [self.len, self.r, self.c])
        p = h.call1(self.s, 'data', pred=lambda f: f['rt'].startswith('const'))
        self.store = p.loc
        self.n = self.len * self.r * self.c
        h.mem[p.loc] = Arr(h.mem[p.loc].rows, ONE, mat_of(sym('in', 'S', rows=self.n, cols=ONE, name='S')), (), True)
        self.S = mat_of(sym('in', 'S', rows=self.n, cols=ONE, name='S'))
        self.W = h.letter('W', self.r, self.c)
        self.w = h.matrix('w', self.r, self.c, self.W)
        self.o = h.matrix('o', ZERO, ZERO, zeros(ZERO, ZERO)); self.o2 = h.matrix('o2', ZERO, ZERO, zeros(ZERO, ZERO))
    def block(self, k): return mapblk(self.S, self.r * self.c * k, self.r, self.c)
    def fn(self, name): return self.h.one('vdriver::' + name)
    def run(self, name, args, st=None):
        return self.h.invoke(self.fn(name), None, args, (st or self.h.e.st).copy())
    def out(self, st, which=None): return self.h.content(which or self.o, st)

WHERE = 'fbstab::MatrixSequence::operator()'
def same(ck, rule, P, s, st, got, want, what, fn='fbstab::MatrixSequence::operator()'):
    vec_zero(ck, rule, where_fn(P, fn), got, want, what, st.facts.fs)

def returns(ck, rule, P, rs, what, fn):
    if not rs: ck.bad(rule, where_fn(P, fn), '%s: never returns for a valid stage' % what)
    return rs

def reads(ck, P):
    for nm, fn in (('seq_read', 'fbstab::MatrixSequence::operator()'), ('seq_read_mutable', 'fbstab::MatrixSequence::operator()'), ('map_of_seq', 'fbstab::MapMatrixSequence::operator()')):
        def one():
            q = Seq(P); h = q.h
            for st, _ in returns(ck, 'stage-read', P, q.run(nm, [h.ref(q.s), q.k, Ptr(q.o)]), nm, fn): same(ck, 'stage-read', P, q, st, q.out(st), q.block(q.k), '%s: stage k is the kth column-major block' % nm, fn)
            ck.saw(h.e); nothrow(ck, h.e, 'stage-read', P, fn)
        ck.attempt('stage-read', nm, one)
    def mem():
        fn = 'fbstab::MapMatrixSequence::operator()'
        q = Seq(P); h = q.h
        for st, _ in returns(ck, 'stage-read', P, q.run('map_of_memory', [EPtr0(h, q), q.len, q.r, q.c, q.k, Ptr(q.o)]), 'map_of_memory', fn): same(ck, 'stage-read', P, q, st, q.out(st), q.block(q.k), 'map of raw memory: stage k is the kth column-major block', fn)
        ck.saw(h.e); nothrow(ck, h.e, 'stage-read', P, fn)
    ck.attempt('stage-read', 'map_of_memory', mem)
def nothrow(ck, e, rule, P, fn):
    for ev in e.events:
        if ev.kind == 'throw': ck.bad(rule, '%s:%s %s' % (rel(ev.file), ev.line, ev.fn), 'a valid access is rejected')
def EPtr0(h, q):
    return h.call1(q.s, 'data', pred=lambda f: f['rt'].startswith('const'))

def writes(ck, P):
    fn = 'fbstab::MatrixSequence::operator()'
    q = Seq(P); h = q.h
    for kk, oo, t in ((q.k, q.j, 'later'), (q.j, q.k, 'earlier')):
        for st, _ in returns(ck, 'stage-write', P, q.run('seq_write', [h.ref(q.s), kk, h.ref(q.w)]), 'write', fn):
            for s2, _ in q.run('seq_read', [h.ref(q.s), kk, Ptr(q.o)], st): same(ck, 'stage-write', P, q, s2, q.out(s2), q.W, 'the written stage holds the new matrix')
            for s2, _ in q.run('seq_read', [h.ref(q.s), oo, Ptr(q.o)], st): same(ck, 'stage-write', P, q, s2, q.out(s2), q.block(oo), 'writing a stage leaves the %s stages unchanged' % t)
    ck.saw(h.e); nothrow(ck, h.e, 'stage-write', P, fn)

def maps(ck, P):
    for nm in ('map_then_write', 'map_copy_then_write', 'map_assign_then_write'):
        def one():
            q = Seq(P); h = q.h; fn = 'fbstab::MapMatrixSequence::MapMatrixSequence'
            for st, _ in returns(ck, 'map', P, q.run(nm, [h.ref(q.s), q.k, h.ref(q.w), Ptr(q.o)]), nm, fn): same(ck, 'map', P, q, st, q.out(st), q.W, '%s: the map shows what is written to the mapped sequence' % nm, fn)
            ck.saw(h.e)
        ck.attempt('map', nm, one)
    def x0():
        h = Harness(P); fn = 'fbstab::FBstabMpc::ProblemDataRef::SetX0'
        n = h.int('nx')
        f = h.functions('fbstab::FBstabMpc::ProblemDataRef::ProblemDataRef', lambda f: f.get('ctor') and not f.get('copy') and not f['p'])
        r = h.new1('fbstab::FBstabMpc::ProblemDataRef', 'r', [])
        v = h.vec('v', n); o = h.vec('o', ZERO, zeros(ZERO, ONE))
        for st, _ in h.invoke(h.one('vdriver::set_x0'), None, [h.ref(r), h.ref(v), Ptr(o)]): vec_zero(ck, 'map', where_fn(P, fn), h.content(o, st), h.letter('v', n, 1), 'SetX0: x0 is the given vector')
        st0 = h.e.st.copy()
        for st, _ in h.invoke(h.one('vdriver::set_x0_then_write'), None, [h.ref(r), h.ref(v), Ptr(o)], st0): vec_zero(ck, 'map', where_fn(P, fn), h.content(o, st), h.letter('v', n, 1).scale(poly(2)), 'SetX0: x0 refers to the memory of the given vector')
        ck.saw(h.e)
    ck.attempt('map', 'SetX0', x0)

def copies(ck, P):
    fn = 'fbstab::MatrixSequence::MatrixSequence'
    for nm, src in (('copy_then_write_source', True), ('copy_then_write_copy', False), ('assign_then_write_source', True), ('assign_then_write_copy', False)):
        def one():
            q = Seq(P); h = q.h
            for st, _ in returns(ck, 'copy', P, q.run(nm, [h.ref(q.s), q.k, h.ref(q.w), Ptr(q.o), Ptr(q.o2)]), nm, fn):
                same(ck, 'copy', P, q, st, q.out(st), q.block(q.k), '%s: the other sequence keeps the old contents' % nm, fn)
                same(ck, 'copy', P, q, st, q.out(st, q.o2), q.W, '%s: the written sequence holds the new contents' % nm, fn)
            ck.saw(h.e)
        ck.attempt('copy', nm, one)
    def data():
        S = Setup(P, 'mpc', N=2, opts=False); h = S.h
        W = h.letter('W', S.nx, S.nx); w = h.matrix('w', S.nx, S.nx, W)
        o = h.matrix('o', ZERO, ZERO, zeros(ZERO, ZERO)); o2 = h.matrix('o2', ZERO, ZERO, zeros(ZERO, ZERO))
        old = mapblk(mat_of(sym('in', 'Q', rows=h.mem[S.seq['Q']].rows, cols=ONE, name='Q')), poly(S.nx) * S.nx, poly(S.nx), poly(S.nx))
        for st, _ in h.invoke(h.one('vdriver::data_copy_then_write'), None, [h.ref(S.data), ONE, h.ref(w), Ptr(o), Ptr(o2)]):
            vec_zero(ck, 'copy', where_fn(P, fn), h.content(o, st), old, 'writing into a copy of the problem data leaves the original unchanged')
            vec_zero(ck, 'copy', where_fn(P, fn), h.content(o2, st), W, 'the copy of the problem data holds what is written to it')
        ck.saw(h.e)
    ck.attempt('copy', 'ProblemData', data)

def sizes(ck, P):
    for nm in ('seq_sizes', 'map_sizes_of_seq', 'copy_sizes', 'map_sizes_of_memory'):
        def one():
            q = Seq(P); h = q.h
            o = h.var('oi', FArr([poly(Undef0(h, i)) for i in range(4)], True))
            a = [EPtr0(h, q), q.len, q.r, q.c] if nm.endswith('memory') else [h.ref(q.s)]
            fn = 'fbstab::MapMatrixSequence::MapMatrixSequence' if nm.startswith('map') else 'fbstab::MatrixSequence::MatrixSequence'
            for st, _ in returns(ck, 'sizes', P, q.run(nm, a + [Ptr(o)]), nm, fn):
                v = st.mem[o].v
                for i, (t, want) in enumerate((('length', q.len), ('rows', q.r), ('cols', q.c), ('size', q.n))): num_eq(ck, 'sizes', where_fn(P, fn), v[i], want, '%s: %s()' % (nm, t))
            ck.saw(h.e)
        ck.attempt('sizes', nm, one)
def Undef0(h, i): return poly(atom('v', 'o%d' % i, name='o%d' % i, isint=True))

def fills(ck, P):
    for kind in ('dense', 'mpc'):
        def one():
            S = Setup(P, kind, N=1, ref_var=True, opts=False); h = S.h; a = h.real('a')
            fn = S.cls + '::VariableRef::fill'
            for st, _ in h.invoke(h.one('vdriver::fill_' + kind), None, [h.ref(S.x), a]):
                for q in 'zlvy':
                    m = h.content(S.xf[q], st)
                    vec_zero(ck, 'fill', where_fn(P, fn), m, elemwise(a, m.rows), 'fill(a) sets every component of %s' % q)
            ck.saw(h.e)
        ck.attempt('fill', kind, one)

# ------------------------------------------------------------ whole solves
KINDS = [('dense', 1), ('mpc', 1)]
def combos(ck):
    for kind, N in KINDS if ck.tier != 'thorough' else KINDS + [('mpc', 2), ('mpc', 3)]:
        for d in (False, True):
            for v in (False, True): yield kind, dict(N=N, ref_data=d, ref_var=v)

def swap(R):
    """the caller changes the contents of its arrays after making references to
    them: the contents at the time of the call count"""
    S = R.S; h = S.h; mem = h.mem
    if S.kind == 'dense':
        for k in 'HGAfhb':
            a = mem[S.owner + (k,)]
            mem[S.owner + (k,)] = Arr(a.rows, a.cols, h.letter('now ' + k, a.rows, a.cols, k == 'H'), (), a.lin)
    else:
        for k, l in S.seq.items():
            a = mem[l]
            if k in 'QR': SYMM_STORE.add('now ' + k)
            mem[l] = Arr(a.rows, ONE, mat_of(sym('in', 'now ' + k, rows=a.rows, cols=ONE, name='now ' + k)), (), True)
        mem[S.owner + ('x0',)] = Arr(S.nx, ONE, h.letter('now x0', S.nx, 1), (), True)

class Now:
    """the problem data of the call, as the caller sees them"""
    def __init__(self, R, D):
        S = self.S = R.S; self.h = S.h; self.P = R.P; self.D = D; h = S.h
        self.nz, self.nl, self.nv = S.nz, S.nl, S.nv
        if S.kind == 'dense':
            nz, nl, nv = S.nz, S.nl, S.nv
            self.H, self.G, self.A = [h.letter('now ' + k, *d) for k, d in (('H', (nz, nz, True)), ('G', (nl, nz)), ('A', (nv, nz)))]
            self.f, self.hh, self.b = h.letter('now f', nz, 1), h.letter('now h', nl, 1), h.letter('now b', nv, 1)
        else:
            self.N, self.nx, self.nu, self.nc = S.N, S.nx, S.nu, S.nc
            self.dims = mpc_dims(S.N, S.nx, S.nu, S.nc)
    def stage(self, k, i):
        n, r, c = self.dims[k]
        L = mat_of(sym('in', 'now ' + k, rows=self.h.mem[self.S.seq[k]].rows, cols=ONE, name='now ' + k))
        return mapblk(L, poly(r) * poly(c) * i, poly(r), poly(c))
    def ops(self):
        if self.S.kind == 'mpc':
            ops, vecs = mpc_ops(self)
            x0 = window(self.h.letter('now x0', self.nx, 1), ZERO, self.nx).scale(poly(-1))
            hh = vecs['axpyh'][1]; hh[0] = hh[0][:3] + (x0,)
            return ops, vecs
        nz, nl, nv = self.nz, self.nl, self.nv
        one = lambda M, n: (lambda x: [('y', ZERO, n, M.mul(x))])
        return {'gemvH': (nz, nz, one(self.H, nz)), 'gemvA': (nz, nv, one(self.A, nv)), 'gemvG': (nz, nl, one(self.G, nl)),
                'gemvAT': (nv, nz, one(self.A.T(), nz)), 'gemvGT': (nl, nz, one(self.G.T(), nz))}, \
               {'axpyf': (nz, [('f', ZERO, nz, self.f)]), 'axpyh': (nl, [('h', ZERO, nl, self.hh)]), 'axpyb': (nv, [('b', ZERO, nv, self.b)])}

class As:
    """reports the obligations of another check under one rule"""
    def __init__(self, ck, rule): self.ck = ck; self.rule = rule
    def put(self, r, *a): return self.ck.put(self.rule, *a)
    def ok(self, r, *a): return self.ck.ok(self.rule, *a)
    def bad(self, r, *a): return self.ck.bad(self.rule, *a)
    def undecided(self, r, *a): return self.ck.undecided(self.rule, *a)
    def attempt(self, r, *a): return self.ck.attempt(self.rule, *a)
    def saw(self, e): self.ck.saw(e)

def solves(ck, P):
    for kind, o in combos(ck): ck.attempt('blocks', 'FBstab%s::Solve %s' % (kind.capitalize(), o), solve, ck, P, kind, o)

def solve(ck, P, kind, o):
    R = Run(P, kind, setup=swap, **o); S, h, e, C = R.S, R.h, R.e, R.C
    w = '%s (%s)' % (R.where, R.label)
    ck.saw(e)
    if not R.rs: ck.bad('blocks', w, 'conforming problem data are rejected: the call never returns'); return
    for ev in e.events:
        if ev.kind == 'null': ck.bad('blocks', '%s:%s %s' % (rel(ev.file), ev.line, ev.fn), ev.msg)
    for x in R.exits:
        def guess():
            num_eq(ck, 'guess', x.where, x.initial * x.initial, R.resid2(R.X0), 'the initial residual is that of the given z, l and v')
        ck.attempt('guess', x.where, guess)
        for q in 'zlvy': ck.put('solution', x.where, x.X[q] != R.X0[q], '%s is written to the caller\'s memory' % q, 'the %s of the result is not written to the caller\'s memory' % q)
    for x in R.named('SUCCESS', 'MAXITERATIONS'): ck.attempt('solution', x.where, tuple_of, As(ck, 'solution'), R, x)
    pts = [x['st'] for x in C.inits]
    if not pts or len(C.datas) != 1: ck.undecided('blocks', w, 'the data object of the call was not found'); return
    N = Now(R, next(iter(C.datas)))
    h.e.st = pts[0].copy(); h.e.contracts = None
    fx = Facts()
    for f in S.sizes: fx = fx.add(f)
    h.e.st.facts = fx
    ops, vecs = N.ops()
    products(As(ck, 'blocks'), N, simple(h.mem[N.D].cls), ops, vecs, ' (%s)' % R.label)
