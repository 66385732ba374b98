"""Abstract set-up of a complete solver call (dense or MPC)."""
from contracts import *

OPTS_REAL = {'sigma0': '>0', 'sigma_max': '>0', 'sigma_min': '>0', 'alpha': '>0', 'beta': '>0', 'eta': '>0', 'delta': '>0', 'gamma': '>0',
             'abs_tol': '>0', 'rel_tol': '>=0', 'stall_tol': '>0', 'infeas_tol': '>0', 'inner_tol_max': '>0', 'inner_tol_min': '>0'}
OPTS_INT = ['max_newton_iters', 'max_prox_iters', 'max_inner_iters', 'max_linesearch_iters']
OPTS_BOOL = ['check_feasibility', 'nonmonotone_linesearch']
STREAM = 'vdriver::RecordingStream'
# the documented order in which constructors take the parts; what their
# parameters are called is of no consequence
PARTS = {4: ('z', 'l', 'v', 'y'), 6: ('H', 'f', 'G', 'h', 'A', 'b'), 12: ('Q', 'R', 'S', 'q', 'r', 'A', 'B', 'c', 'E', 'L', 'd', 'x0')}
def parts(f): return PARTS[len(f['p'])]

class Setup:
    """kind: 'dense' or 'mpc'; N horizon for mpc."""
    def __init__(self, prog, kind, N=2, ref_data=False, ref_var=False, display=None, stream=True, nl0=True, opts=True, nvlo=1):
        self.kind = kind; self.N = N
        h = self.h = Harness(prog); e = h.e
        self.names = {}
        if kind == 'dense':
            self.cls = 'fbstab::FBstabDense'
            nz, nl, nv = h.int('nz'), h.int('nl', 0 if nl0 else 1), h.int('nv', nvlo)
            self.ctor_args = [nz, nl, nv]
        else:
            self.cls = 'fbstab::FBstabMpc'
            nx, nu, nc = h.int('nx'), h.int('nu'), h.int('nc')
            self.nx, self.nu, self.nc = nx, nu, nc
            nz, nl, nv = (nx + nu) * (N + 1), nx * (N + 1), nc * (N + 1)
            self.ctor_args = [poly(N), nx, nu, nc]
        self.nz, self.nl, self.nv = nz, nl, nv
        self.sizes = list(e.st.facts.fs)
        self.solver = h.new1(self.cls, 'solver', self.ctor_args)
        if opts: self.symbolic_options(display)
        self.make_data(ref_data)
        self.make_var(ref_var)
        self.vcls = 'VariableRef' if ref_var else 'Variable'
        self.dcls = 'ProblemDataRef' if ref_data else 'ProblemData'
        self.os = h.var('os', Obj(('L', '<check>', 'os'), STREAM))
        self.stream = stream
    # -------------------------------------------------------- inputs
    def make_data(self, ref):
        h = self.h
        if self.kind == 'dense':
            nz, nl, nv = self.nz, self.nl, self.nv
            self.owner = self.data = h.new1(self.cls + '::ProblemData', 'qp', [nz, nl, nv])
            for k, (r, c, s) in dict(H=(nz, nz, True), G=(nl, nz, 0), A=(nv, nz, 0), f=(nz, 1, 0), h=(nl, 1, 0), b=(nv, 1, 0)).items():
                h.mem[self.data + (k,)] = Arr(poly(r), poly(c), h.letter(k, r, c, bool(s)), (), c == 1)
            if ref:
                self.maps = {}
                ps = []
                f = h.one(self.cls + '::ProblemDataRef::ProblemDataRef', lambda f: f.get('ctor') and not f.get('copy') and len(f['p']) == 6)
                for p, k in zip(f['p'], parts(f)):
                    loc = h.var('map' + k, Ref(h.e.lval(self.data + (k,))))
                    ps.append(Ptr(loc))
                self.owner = self.data
                self.data = h.new1(self.cls + '::ProblemDataRef', 'qpref', ps)
        else:
            N, nx, nu, nc = self.N, self.nx, self.nu, self.nc
            dims = dict(Q=(N+1,nx,nx),R=(N+1,nu,nu),S=(N+1,nu,nx),q=(N+1,nx,1),r=(N+1,nu,1),A=(N,nx,nx),B=(N,nx,nu),c=(N,nx,1),E=(N+1,nc,nx),L=(N+1,nc,nu),d=(N+1,nc,1))
            self.owner = self.data = h.var('qp', Obj(('L', '<check>', 'qp'), self.cls + '::ProblemData'))
            self.seq = {}
            for k, (n, r, c) in dims.items():
                loc = h.new1('fbstab::MatrixSequence', None, [poly(n), poly(r), poly(c)], loc=self.data + (k,))
                p = h.call1(loc, 'data', pred=lambda f: f['rt'].startswith('const'))
                n = h.mem[p.loc].rows
                if k in 'QR': SYMM_STORE.add(k)
                h.mem[p.loc] = Arr(n, ONE, mat_of(sym('in', k, rows=n, cols=ONE, name=k)), (), True)
                self.seq[k] = p.loc
            h.vec('tmpx0', nx)
            h.mem[self.data + ('x0',)] = Arr(nx, ONE, h.letter('x0', nx, 1), (), True)
            if ref:
                f = h.one(self.cls + '::ProblemDataRef::ProblemDataRef', lambda f: f.get('ctor') and not f.get('copy') and len(f['p']) == 12)
                self.data = h.new1(self.cls + '::ProblemDataRef', 'qpref', [Ptr(self.owner + (k,)) for k in parts(f)])
    def make_var(self, ref):
        h = self.h
        dims = dict(z=self.nz, l=self.nl, v=self.nv, y=self.nv)
        self.x = h.new1(self.cls + '::Variable', 'x', self.ctor_args)
        self.xf = {}
        for k, r in dims.items():
            h.mem[self.x + (k,)] = Arr(poly(r), ONE, h.letter(k + '0', r, 1), (), True)
            self.xf[k] = self.x + (k,)
        if ref:
            f = h.one(self.cls + '::VariableRef::VariableRef', lambda f: f.get('ctor') and not f.get('copy') and len(f['p']) == 4)
            ps = []
            for p, k in zip(f['p'], parts(f)):
                m = Ref(h.e.lval(self.xf[k]))
                ps.append(m if not p['t'].rstrip().endswith('*') else Ptr(h.var('map' + k, m)))
            self.x = h.new1(self.cls + '::VariableRef', 'xref', ps)
    def options_locs(self):
        """objects holding the options in force (class AlgorithmParameters or derived)."""
        h = self.h
        return [l for l, v in h.mem.items() if isinstance(v, Obj) and l == v.loc and 'fbstab::AlgorithmParameters' in bases(h.prog, v.cls)]
    def symbolic_options(self, display, write=True):
        h = self.h
        self.opt = {}
        for k, s in OPTS_REAL.items():
            p = poly(atom('v', k, name=k, sign=s)); self.opt[k] = p
        for k in OPTS_INT:
            p = poly(atom('v', k, name=k, isint=True, sign='>0')); self.opt[k] = p
            h.fact(le(ONE, p))
        for k in OPTS_BOOL: self.opt[k] = fatom(atom('v', k, name=k))
        self.opt['display_level'] = poly(display) if display is not None else poly(atom('v', 'display_level', name='display_level', isint=True))
        o = self.opt
        self.ofacts = [lt(ZERO, o[k]) for k, s in OPTS_REAL.items() if s == '>0'] + [le(ZERO, o['rel_tol']), lt(o['beta'], ONE), lt(o['alpha'], ONE), lt(o['delta'], ONE), lt(o['gamma'], ONE),
              le(o['inner_tol_min'], o['inner_tol_max'])]
        h.fact(*self.ofacts)
        if not write: return
        for l in self.options_locs():
            for k, v in self.opt.items():
                if l + (k,) in h.mem: h.mem[l + (k,)] = v
    def update_options(self, display):
        """options given through UpdateOptions: objects it updates hold the
        admissible symbolic options, others what an earlier call gave"""
        h = self.h
        self.symbolic_options(display, write=False)
        o = self.opt
        f = h.one(self.cls + '::UpdateOptions')
        loc = ('L', '<check>', 'newopts'); h.mem[loc] = Obj(loc, base_type(f['p'][0]['t']))
        for k in o:
            d = frozenset([('newopt', k)])
            h.mem[loc + (k,)] = fatom(atom('v', 'new ' + k, name='new ' + k, deps=d)) if k in OPTS_BOOL else poly(atom('v', 'new ' + k, name='new ' + k, isint=k in OPTS_INT or k == 'display_level', deps=d))
        start = h.e.st.copy()
        h.e.quiet += 1
        try: rs = h.invoke(f, self.solver, [h.ref(loc)], start.copy())
        finally: h.e.quiet -= 1
        if not rs: raise Broken('UpdateOptions does not return')
        self.in_force = []
        for l in self.options_locs():
            if l == loc: continue
            for k in o:
                if l + (k,) not in h.mem: continue
                v = rs[0][0].mem.get(l + (k,))
                if ('newopt', k) in getattr(v, 'deps', ()): h.mem[l + (k,)] = o[k]; self.in_force.append(l + (k,))
                else:
                    d = frozenset([('stale', 'options of an earlier call (%s)' % k)])
                    h.mem[l + (k,)] = fatom(atom('v', 'stale ' + k, name='stale ' + k, deps=d)) if k in OPTS_BOOL else poly(atom('v', 'stale ' + k, name='stale ' + k, isint=k in OPTS_INT or k == 'display_level', deps=d))
        for l in under_loc(h.mem, loc): del h.mem[l]
    def solve_fn(self):
        def pred(f):
            ps = [base_type(p['t']) for p in f['p']]
            return len(ps) == (3 if self.stream else 2) and ps[0] == self.cls + '::' + self.dcls and ps[1] == self.cls + '::' + self.vcls + '*' and (not self.stream or ps[2] == STREAM)
        return self.h.one(self.cls + '::Solve', pred)
    def contract(self):
        return Contracts(self.h, self.nz, self.nl, self.nv)
    def solve(self, st=None):
        b = [self.h.ref(self.data), Ptr(self.x)]
        if self.stream: b.append(self.h.ref(self.os))
        return self.h.invoke(self.solve_fn(), self.solver, b, st)

def under_loc(mem, root):
    k = len(root)
    return [l for l in list(mem) if l[:k] == root]
