"""The Newton iteration inside one proximal subproblem, as found by the
engine: iterate, centre, step and line search."""
from algo import *
from c02 import outer_loop

class Inner:
    """one analysed instance of the loop that performs linear solves"""
    def __init__(self, R):
        self.R = R
        O = outer_loop(R)
        self.O = O
        Ls = [L for L in R.ind.loops.values() if L is not O and any(SOLVES in d['phis'] or SOLVES in d['elim'] for d in L.inst)]
        if O is None or len(Ls) != 1 or not R.C.inits or not R.C.steps: raise Broken('the nest of proximal and Newton loops was not recognised (%d inner loops)' % len(Ls))
        self.L = Ls[0]
        self.i = R.C.inits[-1]; self.s = R.C.steps[-1]
        self.X = R.obj(self.i['x'], self.i['st']); self.XB = R.obj(self.i['xbar'], self.i['st'])
        self.sg = self.i['sigma']
        self.dx = R.obj(self.s['d'], self.s['st'])
    def merit(self, X): return self.R.inner2(X, self.XB, self.sg) / poly(2)
    def at(self, t):
        """X + t dx"""
        X, D = self.X, self.dx
        N = {q: X[q].add(D[q], t) for q in 'zlv'}
        N['y'] = X['y'].add(self.R.C.A.mul(D['z']), -t)
        return N
    def step_length(self, d, b):
        """t with  next iterate = X + t dx  on this way back to the loop head"""
        N = self.R.subX(self.X, self.R.ind.sub(d, b))
        dz = self.dx['z']
        if len(dz.t) != 1: raise Broken('unexpected form of the step')
        (w, c), = dz.t.items()
        t = N['z'].add(self.X['z'], poly(-1)).t.get(w, ZERO) / c
        return t, N
    def ls_loop(self, t):
        Ls = [L for L in self.R.ind.loops_of([t]) if L is not self.L and L is not self.O]
        return Ls[0] if Ls else None

def units(fs):
    """the single comparisons among the facts"""
    for f in fs:
        if f.op == 'and':
            for x in units(f.a): yield x
        elif f.op in ('lt', 'le', 'eq', 'b') or (f.op == 'not' and f.a[0].op in ('lt', 'le', 'eq', 'b')): yield f
def bound_form(f):
    """f as  p <= 0 (or p < 0)"""
    if f.op == 'not':
        if f.a[0].op in ('lt', 'le'): return -f.a[0].a[0]
        return None
    return f.a[0] if f.op in ('lt', 'le') else None
def total(fx):
    """the facts, read over the real numbers (no NaN): a failed comparison is
    the opposite one"""
    for f in list(units(fx.fs)):
        if f.op == 'not':
            g = f.a[0]
            if g.op == 'lt': fx = fx.add(le(-g.a[0], ZERO))
            elif g.op == 'le': fx = fx.add(lt(-g.a[0], ZERO))
    return fx
