"""No out-of-range access, dimension mismatch or unsafe aliasing."""
from linear import *
from c08 import mpc_ops, products
from c16 import Seq, EPtr0
from witness import *
import lifetime

KIND = dict(dangling='lifetime', index='range', empty='range', null='null', shape='shape', alias='alias')
TEXT = dict(range='every element, block, segment and stage accessed lies inside its object', null='no null pointer is dereferenced',
            shape='the operands of every matrix expression and assignment conform', alias='no expression evaluated without a temporary reads what it is writing')

def run(ck, P):
    for r, k in (('range', 40), ('shape', 60), ('alias', 20), ('null', 20)): ck.rule(r, TEXT[r], k)
    ck.rule('lifetime', 'no view, expression object, reference or pointer outlives the temporary or local object it refers to', 0)
    ck.attempt('lifetime', 'all functions', lifetime.check, ck, P, 'lifetime')
    A = Accesses(ck)
    deep = ck.tier == 'thorough'
    def at(label, fn, *a):
        def go():
            try: fn(*a)
            except Broken as x:
                # what came before counts
                if getattr(x, 'engine', None) is not None: A.take(x.engine, label)
                raise
        ck.attempt('range', label, go)
    for kind, o in (THOROUGH if deep else QUICK + [('dense', dict(ref_data=True, ref_var=True)), ('mpc', dict(N=2))]): at('FBstab%s::Solve %s' % (kind.capitalize(), o), solve, A, P, kind, o)
    at('DenseData', dense_products, A, P)
    for N in range(1, 7 if deep else 4): at('MpcData N=%d' % N, mpc_products, A, P, N)
    for kind, N in (('dense', 1),) + tuple(('mpc', n) for n in range(1, 6 if deep else 4)): at('%s linear solver N=%d' % (kind, N), linear, A, P, kind, N)
    for kind in ('dense', 'mpc'): at(kind + ' components', components, A, P, kind)
    at('sequences', sequences, A, P)
    A.report()

class Accesses:
    """collects the access obligations of all the engines used"""
    def __init__(self, ck): self.ck = ck; self.n = {}; self.ev = {}
    def take(self, e, label, valid=True):
        self.ck.saw(e)
        for (k, f, l), c in e.obl.items():
            if k in KIND: self.n[(k, f, l)] = self.n.get((k, f, l), 0) + c
        for ev in e.events:
            k = (ev.kind, ev.file, ev.line)
            if ev.kind in KIND or ev.kind == 'throw' and 'out_of_range' in str(ev.data): self.ev.setdefault(k, []).append((ev, label))
    def drive(self, e, label, fn):
        """fn makes accesses with engine e; those before a construct that is not modelled count too"""
        try: fn()
        finally: self.take(e, label)
    def report(self):
        ck = self.ck
        for k, n in sorted(self.n.items()):
            if k in self.ev: continue
            ck.ok(KIND[k[0]], '%s:%s' % (rel(k[1]), k[2]), '%d %s obligations' % (n, k[0]))
        for k, evs in sorted(self.ev.items()):
            rule = KIND.get(k[0], 'range')
            best = None
            for ev, label in evs:
                v, why = verdict(ev)
                if v is False: best = (ev, label, why); break
                if best is None: best = (ev, label, None) if v is None else None
            if best is None: ck.ok(rule, '%s:%s' % (rel(k[1]), k[2]), 'no size in reach'); continue
            ev, label, why = best
            at = '%s:%s %s (%s)' % (rel(ev.file), ev.line, ev.fn, label)
            if why is None: ck.undecided(rule, at, ev.msg)
            else: ck.bad(rule, at, '%s%s' % (ev.msg, ' (for %s)' % why if why not in ('always', '') else ''))

def verdict(ev):
    """(False, sizes) when the access fails for some admissible sizes, (None, reason) when that is not known"""
    d = ev.data
    try:
        if ev.kind in ('null', 'throw', 'dangling'): return False, ''
        fs = ev.facts.fs
        if ev.kind == 'index' and not isinstance(d, tuple): return False, 'always'
        if ev.kind == 'index' and len(d) == 2: w = find(fs, d, lambda v: v[0] < 0 or v[0] >= v[1])
        elif ev.kind == 'index': w = find(fs, d, lambda v: v[0] < 0 or v[1] < 0 or v[0] + v[1] > v[2])
        elif ev.kind == 'empty': w = find(fs, d, lambda v: v[0] < 1)
        elif ev.kind == 'shape' and len(d) == 1: w = find(fs, d, lambda v: v[0] < 0)
        elif ev.kind == 'shape': w = find(fs, list(d), lambda v: v[0] != v[1])
        elif ev.kind == 'alias': w = overlaps(fs, d)
        else: return None, 'unknown obligation'
        return (False, w) if w else (None, 'no failing sizes found')
    except Broken as x: return None, str(x)
    except (TypeError, ValueError) as x: return None, 'obligation not in the expected form: %s' % x

def overlaps(fs, d):
    if len(d) != 3: return 'always'
    a, v, how = d
    q = [a.r0, a.rows, a.c0, a.cols, v.r0, v.rows, v.c0, v.cols]
    if not all(isinstance(x, Poly) for x in q): return 'always'
    def hit(t):
        r = t[0] < t[4] + t[5] and t[4] < t[0] + t[1]; c = t[2] < t[6] + t[7] and t[6] < t[2] + t[3]
        if not (r and c): return False
        return not (how == 'cw' and t[:4] == t[4:] and (a.tr == v.tr or 1 in (t[1], t[3])))
    return find(fs, q, hit)

# ------------------------------------------------------------------ contexts
def solve(A, P, kind, o):
    es = []
    try: Run(P, kind, setup=lambda R: es.append((R.e, R.label)), **o)
    finally:
        for e, l in es: A.take(e, l)
def linear(A, P, kind, N):
    L = Linear(P, kind, N)
    def go():
        for s, v in L.initialize():
            if truth(L.e, v) != FALSE: L.solve(s)
    A.drive(L.e, L.label, go)
def calls(A, E, ops, vecs, label):
    """every product for symbolic and special scalars"""
    from c08 import scal
    h = E.h; base = h.e.st
    for m, (ni, no, _) in ops.items():
        h.e.st = base.copy()
        X, Y = h.vec('x_' + m, ni), h.vec('y_' + m, no); st = h.e.st
        for a, b, t in scal(h): h.call(E.D, m, [h.ref(X), a, b, Ptr(Y)], st.copy())
    for m, (no, _) in vecs.items():
        h.e.st = base.copy()
        Y = h.vec('y_' + m, no); st = h.e.st
        for a in (h.real('a'), ONE, poly(-1), ZERO): h.call(E.D, m, [a, Ptr(Y)], st.copy())
    h.e.st = base.copy(); h.call(E.D, 'ForcingNorm', [], base.copy())
    A.take(h.e, label)
def dense_products(A, P):
    E = DenseEnv(P); nz, nl, nv = E.nz, E.nl, E.nv
    calls(A, E, dict(gemvH=(nz, nz, 0), gemvA=(nz, nv, 0), gemvG=(nz, nl, 0), gemvAT=(nv, nz, 0), gemvGT=(nl, nz, 0)), dict(axpyf=(nz, 0), axpyh=(nl, 0), axpyb=(nv, 0)), 'dense')
def mpc_products(A, P, N):
    E = MpcEnv(P, N); nz, nl, nv = E.nz, E.nl, E.nv
    calls(A, E, dict(gemvH=(nz, nz, 0), gemvA=(nz, nv, 0), gemvG=(nz, nl, 0), gemvAT=(nv, nz, 0), gemvGT=(nl, nz, 0)), dict(axpyf=(nz, 0), axpyh=(nl, 0), axpyb=(nv, 0)), 'mpc N=%d' % N)

def components(A, P, kind):
    """every public operation of the components on linked objects of matching sizes"""
    E = DenseEnv(P) if kind == 'dense' else MpcEnv(P, 2); h = E.h; e = h.e
    x, w = E.comp('FullVariable', 'vx'), E.comp('FullVariable', 'vw'); r = E.comp('FullResidual', 'res'); f = E.comp('FullFeasibility', 'feas')
    E.link(x, w, r, f)
    for o, s in ((x, '_x'), (w, '_w')): E.letters(o, s, 'zlvy')
    E.letters(r, '_r')
    st = e.st
    a = h.real('a'); sg = h.real('sg', '>0')
    i = h.int('i', 0); j = h.int('j', 0); k = h.int('k', 0)
    for n, b in (('z', E.nz), ('l', E.nl), ('v', E.nv), ('y', E.nv)):
        for o in (x, r):
            if o is r and n == 'y': continue
            for acc in P.find(e.st.mem[o].cls + '::' + n, lambda g: g.get('body') is not None and len(g['p']) == 1):
                t = h.int('i_' + n, 0); s2 = e.st.copy(); s2.facts = s2.facts.add(lt(t, b))
                h.invoke(acc, o, [t], s2)
    for o, ops in ((x, [('Fill', [a]), ('InitializeConstraintMargin', []), ('axpy', [a, h.ref(w)]), ('Copy', [h.ref(w)]), ('ProjectDuals', []), ('Norm', []), ('SameSize', [h.ref(w)])]),
                   (r, [('Fill', [a]), ('Negate', []), ('Norm', []), ('Merit', []), ('InnerResidual', [h.ref(x), h.ref(w), sg]), ('NaturalResidual', [h.ref(x)]), ('PenalizedNaturalResidual', [h.ref(x)])]),
                   (f, [('CheckFeasibility', [h.ref(x), h.real('tol', '>0')])])):
        for nm, args in ops:
            A.ck.attempt('range', '%s::%s' % (st.mem[o].cls, nm), lambda: h.call(o, nm, args, st.copy()))
    A.take(e, kind + ' components')

def sequences(A, P):
    for nm in ('seq_read', 'seq_read_mutable', 'map_of_seq'):
        q = Seq(P); q.run(nm, [q.h.ref(q.s), q.k, Ptr(q.o)]); A.take(q.h.e, nm)
    q = Seq(P); q.run('map_of_memory', [EPtr0(q.h, q), q.len, q.r, q.c, q.k, Ptr(q.o)]); A.take(q.h.e, 'map_of_memory')
    q = Seq(P); q.run('seq_write', [q.h.ref(q.s), q.k, q.h.ref(q.w)]); A.take(q.h.e, 'seq_write')
    def x0():
        h = Harness(P); n = h.int('n')
        r = h.new1('fbstab::FBstabMpc::ProblemDataRef', 'r', []); v = h.vec('v', n); o = h.vec('o', ZERO, zeros(ZERO, ONE)); st = h.e.st
        try:
            for nm in ('set_x0', 'set_x0_then_write'): h.invoke(h.one('vdriver::' + nm), None, [h.ref(r), h.ref(v), Ptr(o)], st.copy())
        finally: A.take(h.e, 'SetX0')
    A.ck.attempt('lifetime', 'SetX0', x0)
