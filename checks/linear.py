"""The two linear solvers as components: one factorization and one solve on
fresh inputs."""
from algo import *
from c02 import outer_loop
COMPONENTS = (('dense', 1), ('mpc', 1), ('mpc', 2), ('mpc', 3))
MORE = COMPONENTS + (('mpc', 4), ('mpc', 5))

alg.DEF_LIMIT[0] = min(alg.DEF_LIMIT[0], 3)     # name gamma, mu and their quotient
class Linear:
    def __init__(self, P, kind, N=1):
        self.P = P; self.kind = kind; self.N = N
        if kind == 'dense':
            E = self.E = DenseEnv(P); h = E.h; args = [E.nz, E.nl, E.nv]; self.cls = 'fbstab::DenseCholeskySolver'
        else:
            E = self.E = MpcEnv(P, N); h = E.h; args = [poly(N), E.nx, E.nu, E.nc]; self.cls = 'fbstab::RiccatiLinearSolver'
        self.h = h; self.e = h.e
        self.label = kind if kind == 'dense' else 'mpc N=%d' % N
        S = self.S = h.new1(self.cls, 'ls', args)
        h.call1(S, 'LinkData', [Ptr(E.D)])
        self.al = h.real('alpha', '>0'); h.fact(lt(self.al, ONE))
        h.call1(S, 'SetAlpha', [self.al])
        self.obj = {}; self.val = {}
        for q in ('x', 'xbar', 'dx'):
            self.obj[q] = E.comp('FullVariable', q); E.link(self.obj[q]); self.val[q] = E.letters(self.obj[q], '_' + q, 'zlvy')
        # the margin is an arbitrary vector: write it as a - sigma*(v - vbar)
        self.sg = h.real('sigma', '>0')
        self.a = h.letter('a', E.nv, 1)
        x, xb = self.val['x'], self.val['xbar']
        x['y'] = self.a.add(x['v'].add(xb['v'], poly(-1)), -self.sg)
        E.set(self.obj['x'], 'y', x['y'])
        self.obj['r'] = E.comp('FullResidual', 'r'); E.link(self.obj['r']); self.val['r'] = E.letters(self.obj['r'], '_r')
    def where(self, m): return '%s (%s)' % (where_fn(self.P, self.cls + '::' + m), self.label)
    def initialize(self, st=None):
        self.e.factors = []
        return self.h.call(self.S, 'Initialize', [self.h.ref(self.obj['x']), self.h.ref(self.obj['xbar']), self.sg], st)
    def solve(self, st):
        return self.h.call(self.S, 'Solve', [self.h.ref(self.obj['r']), Ptr(self.obj['dx'])], st)
    def step(self, st): return {q: self.E.get(self.obj['dx'], q, st) for q in 'zlvy'}

def truth(e, v):
    """a returned bool as a condition"""
    return v if isinstance(v, F) else fnot(eq(poly(v), ZERO))
