"""Specifications of the virtual problem-data operations and of the linear
solver, used in place of their implementations when the algorithm itself is
analysed.  The implementations are checked against the same specifications
separately."""
from harness import *

def bases(prog, cls, seen=None):
    seen = seen if seen is not None else []
    c = base_type(cls)
    if c in seen: return seen
    seen.append(c)
    rec = prog.records.get(c)
    if rec:
        for b in rec['b']: bases(prog, b if isinstance(b, str) else b.get('t', b.get('n', '')), seen)
    return seen

def derives(prog, cls, root):
    """root: simple name, e.g. fbstab::Data or the template fbstab::LinearSolver"""
    return any(b == root or b.startswith(root + '<') for b in bases(prog, cls))

SOLVES = ('L', '<check>', '#solves')
STEP = ('L', '<check>', '#step')

class Contracts:
    def __init__(self, h, nz, nl, nv, sfx=''):
        self.h = h; self.nz, self.nl, self.nv = nz, nl, nv
        self.H = h.letter('H', nz, nz, True); self.G = h.letter('G', nl, nz); self.A = h.letter('A', nv, nz)
        self.f = h.letter('f', nz, 1); self.hh = h.letter('h', nl, 1); self.b = h.letter('b', nv, 1)
        self.wn = poly(atom('v', 'ForcingNorm', name='ForcingNorm', sign='>=0'))
        self.used = {}
        self.datas = set()
        self.ops = {'gemvH': (self.H, nz, nz), 'gemvA': (self.A, nv, nz), 'gemvG': (self.G, nl, nz),
                    'gemvAT': (self.A.T(), nz, nv), 'gemvGT': (self.G.T(), nz, nl)}
        self.vecs = {'axpyf': (self.f, nz), 'axpyh': (self.hh, nl), 'axpyb': (self.b, nv)}
        h.mem[SOLVES] = ZERO
        h.e.int_locs.add(SOLVES)
        self.stale = None        # a data object of an earlier call
        self.steps = []
        self.inits = []
        self.data_cls = []
    def __call__(self, e, n, c, this, dyn, fr):
        nm = simple(c['n'])
        if dyn is None: return NotImplemented
        if nm in self.ops or nm in self.vecs or nm == 'ForcingNorm':
            if not derives(e.prog, dyn, 'fbstab::Data'): return NotImplemented
            self.used[nm] = self.used.get(nm, 0) + 1
            self.datas.add(this)
            old = frozenset([('stale', 'the data of an earlier call')]) if self.stale is not None and this == self.stale else None
            if nm == 'ForcingNorm':
                return self.wn if old is None else poly(atom('v', 'stale ForcingNorm', name='stale ForcingNorm', deps=old))
            a = n['a']
            if nm in self.vecs:
                k = e.num(e.rval(e.ev(a[0], fr), n))
                y = e.lval(e.ptr_target(e.ev(a[1], fr), n))
                v, sz = self.vecs[nm]
                if old is not None: v = self.h.letter('stale ' + nm, sz, 1, deps=old)
                e.check_shape(n, e.shape(y)[0], sz, 'rows of the output of %s' % nm)
                cur = full(e.mat(y, n))
                e.eig_assign(y, EV(cur.add(v, k)), '=', n)
                return None
            M, r, cdim = self.ops[nm]
            if old is not None: M = self.h.letter('stale ' + nm, r, cdim, deps=old)
            x = e.lv(a[0], fr)
            if isinstance(x, (SLoc,)): x = e.rval(x, n)
            al = e.num(e.rval(e.ev(a[1], fr), n)); be = e.num(e.rval(e.ev(a[2], fr), n))
            y = e.lval(e.ptr_target(e.ev(a[3], fr), n))
            xm = full(e.mat(x, n)); e.check_shape(n, xm.rows, cdim, 'rows of the input of %s' % nm)
            e.check_shape(n, e.shape(y)[0], r, 'rows of the output of %s' % nm)
            if isinstance(x, View) and isinstance(y, View) and x.loc == y.loc:
                e.event('alias', n, 'input and output of %s are the same vector' % nm)
            new = M.mul(Mat(xm.t, cdim, ONE)).scale(al)
            if be.t: new = new.add(full(e.mat(y, n)).scale(be))
            e.eig_assign(y, EV(new), '=', n)
            return None
        if nm in ('Initialize', 'Solve') and derives(e.prog, dyn, 'fbstab::LinearSolver'):
            self.used[nm] = self.used.get(nm, 0) + 1
            if nm == 'Initialize':
                xs = [self.obj(e, e.lv(n['a'][i], fr), n) for i in (0, 1)]
                s = e.num(e.rval(e.ev(n['a'][2], fr), n))
                e.oblige('init', n)
                if not e.quiet: self.inits.append(dict(x=xs[0], xbar=xs[1], sigma=s, st=e.st.copy(), this=this, line=n.get('l'), ok=fatom(atom('init_ok', self.site(e, n)))))
                ok = fatom(atom('init_ok', self.site(e, n)))
                return ok
            r = self.obj(e, e.lv(n['a'][0], fr), n)
            d = e.ptr_target(e.ev(n['a'][1], fr), n)
            k = e.st.mem[SOLVES]
            pre = e.st.copy()
            e.st.mem[SOLVES] = k + 1
            t = self.site(e, n)
            dims = dict(z=self.nz, l=self.nl, v=self.nv)
            for q in 'zlv':
                y = self.field(e, d, q, n)
                e.eig_assign(y, EV(mat_of(sym('step', t, q, rows=poly(dims[q]), cols=ONE, name='d%s' % q))), '=', n)
            y = self.field(e, d, 'y', n)
            z = sym('step', t, 'z', rows=poly(self.nz), cols=ONE, name='dz')
            e.eig_assign(y, EV(self.b.add(self.A.mul(mat_of(z)), poly(-1))), '=', n)
            if not e.quiet: self.steps.append(dict(r=r, d=d, pre=pre, st=e.st.copy(), this=this, t=t, line=n.get('l'), ok=fatom(atom('solve_ok', t))))
            return fatom(atom('solve_ok', t))
        return NotImplemented
    def site(self, e, n): return e.fkey('site', id(n), e.iters)
    def obj(self, e, x, n):
        if isinstance(x, SLoc): return x.loc
        if isinstance(x, Obj): return x.loc
        e.unmodelled(n, 'argument %r' % (x,))
    def field(self, e, loc, q, n):
        cls = e.st.mem[loc].cls
        f = self.h.method(cls, q, 0, lambda f: not f.get('const'))
        v = e.call_fn(f, loc, [], self.h.fr, {'k': 'call', 'l': n.get('l')}, bound=[])
        if isinstance(v, Ptr): v = e.lval(v.loc)
        if isinstance(v, Ref): v = v.t
        if isinstance(v, SLoc): v = e.rval(v, n)
        return v
