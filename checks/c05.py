from algo import *
from c02 import outer_loop

def run(ck, P):
    ck.rule('test-is-certificate', 'the feasibility test returns each status exactly when the stated dual and primal certificate conditions hold', 4)
    ck.rule('verdict-certified', 'every infeasibility exit is guarded by the certificate conditions evaluated at the returned direction', 6)
    ck.rule('verdict-complete', 'no pass of the outer loop goes on, and no exit reports only one kind, although the step satisfies a certificate while the check is enabled', 2)
    ck.rule('check-disabled', 'with the check disabled no exit reports infeasibility', 2)
    ck.attempt('test-is-certificate', 'FullFeasibility::CheckFeasibility', component, ck, P)
    for kind, o in (THOROUGH if ck.tier == 'thorough' else QUICK):
        for on in (True, False):
            def go():
                def opts(R):
                    for l in R.S.options_locs():
                        if l + ('check_feasibility',) in R.h.mem: R.h.mem[l + ('check_feasibility',)] = TRUE if on else FALSE
                R = Run(P, kind, setup=opts, **o)
                body(ck, P, R, on)
                ck.saw(R.e)
            ck.attempt('verdict-certified', 'FBstab%s::Solve %s' % (kind.capitalize(), o or ''), go)

def maxof(m): return extr('max', elem(m, PIDX), IDX_, ZERO, m.rows - 1, None)
IDX_ = PIDX.atoms()[0]
def duals(C, z, tol):
    """(certificate, magnitude of z)"""
    w = norminf(z)
    return [le(maxof(C.A.mul(z)), tol * w), le(norminf(C.G.mul(z)), tol * w), le(norminf(C.H.mul(z)), tol * w), lt(dot(C.f, z), ZERO)], w
def primals(C, l, v, tol):
    u = pmax(norminf(v), norminf(l))
    neg = extr('max', -elem(v, PIDX), IDX_, ZERO, v.rows - 1, None)
    return [le(norminf(C.G.T().mul(l).add(C.A.T().mul(v))), tol * u), lt(dot(C.hh, l) + dot(C.b, v), ZERO), le(neg, tol * u)]

def relax(f):
    """max(0, s) <= q with q >= 0 says the same as s <= q"""
    def one(p):
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and c > 0:
                a = alg._list[m[0][0]]
                if a.kind == 'extr' and a.args[0] == 'max' and a.args[5] is not None and a.args[5] == ZERO and not any(x.kind == 'ind' for x in a.args[1].atoms()):
                    rest = p - poly(a) * c
                    if all(k < 0 and all(alg.nonneg_atom(alg._list[b]) or e % 2 == 0 or alg._list[b].name == 'infeas_tol' for b, e in mm) for mm, k in rest.t.items()):
                        return rest + c * extr('max', a.args[1], a.args[2], a.args[3], a.args[4], None)
        return p
    if f.op == 'le': return le(one(f.a[0]), ZERO)
    if f.op == 'lt':
        q = one(-f.a[0])
        return f if q == -f.a[0] else fnot(le(q, ZERO))
    if f.op in ('and', 'or', 'not'):
        return {'and': lambda *x: fand(*x), 'or': lambda *x: for_(*x), 'not': fnot}[f.op](*[relax(x) for x in f.a])
    return f

def nontriv(fs, w):
    """tests of the size of the direction against a tiny constant: c - w < 0"""
    out = []
    for f in fs:
        for l in literals(f):
            if l.op in ('lt', 'le'):
                for s, k in ((1, l), (-1, fnot(l))):
                    c = (l.a[0] * s + w).const()
                    if c is not None and 0 <= c <= 1e-10 and k not in out: out.append(k)
    return out

def say(ck, rule, where, fs, goal, what, msg):
    r = entails([relax(f) for f in fs], relax(goal))
    if r is False: r = entails([relax(unfold(f)) for f in fs], relax(unfold(goal)))
    ck.put(rule, where, r, what, msg)
    return r

def component(ck, P):
    E = DenseEnv(P, contract=True); h = E.h
    X = E.comp('FullVariable', 'x'); F_ = E.comp('FullFeasibility', 'F'); E.link(X, F_)
    x = E.letters(X, 'x', 'zlvy')
    tol = poly(atom('v', 'infeas_tol', name='infeas_tol', sign='>0')); h.fact(lt(ZERO, tol))
    en = next(v for k, v in P.enums.items() if k.endswith('FullVariable>::FeasibilityStatus'))
    fn = where_fn(P, 'fbstab::FullFeasibility::CheckFeasibility')
    D, w = duals(E.c, x['z'], tol); Pm = primals(E.c, x['l'], x['v'], tol)
    D, Pm = fand(*D), fand(*Pm)
    want = {'FEASIBLE': (False, False), 'PRIMAL_INFEASIBLE': (True, False), 'DUAL_INFEASIBLE': (False, True), 'BOTH': (True, True)}
    rs = h.call(F_, 'CheckFeasibility', [h.ref(X), tol])
    if not rs: ck.bad('test-is-certificate', fn, 'never returns for conforming arguments'); return
    for s, v in rs:
        v = h.e.num(v)
        for nm, k in en.items():
            g = eq(v, poly(k))
            if g.op == 'F' or s.facts.decide(g) is False: continue
            fs = list(s.facts.fs) + [g]
            p, d = want[nm]
            nt = nontriv(fs, w)
            say(ck, 'test-is-certificate', fn, fs, Pm if p else fnot(Pm), '%s %s the primal certificate' % (nm, 'implies' if p else 'excludes'), 'status %s is returned although the primal certificate conditions (|G\'l+A\'v| <= tol u, h\'l+b\'v < 0, min v >= -tol u) %s' % (nm, 'may fail' if p else 'hold'))
            say(ck, 'test-is-certificate', fn, fs if d else fs + nt, D if d else fnot(D), '%s %s the dual certificate' % (nm, 'implies' if d else 'excludes'), 'status %s is returned although the dual certificate conditions (max Az <= tol w, |Gz|, |Hz| <= tol w, f\'z < 0) %s' % (nm, 'may fail' if d else 'hold'))
    ck.saw(h.e)

FLAG = {'PRIMAL_INFEASIBLE': (True, False), 'DUAL_INFEASIBLE': (False, True), 'PRIMAL_DUAL_INFEASIBLE': (True, True)}
def body(ck, P, R, on):
    tol = R.S.opt['infeas_tol']
    if not on:
        for n in FLAG:
            xs = R.named(n)
            ck.put('check-disabled', R.where, not xs, '%s is not reported' % n, '%s is reported with the feasibility check disabled' % n)
        return
    for n, (p, d) in FLAG.items():
        xs = R.named(n)
        if not xs: ck.bad('verdict-complete', R.where, 'no exit reports %s' % n)
        for x in xs:
            def go():
                D, w = duals(R.C, x.X['z'], tol); Pm = primals(R.C, x.X['l'], x.X['v'], tol)
                D, Pm = fand(*D), fand(*Pm)
                fs = list(x.facts.fs)
                if p: say(ck, 'verdict-certified', x.where, fs, Pm, '%s: the primal conditions hold at the returned (l,v)' % n, '%s is reported although the returned (l,v) need not satisfy the primal certificate' % n)
                if d: say(ck, 'verdict-certified', x.where, fs, D, '%s: the dual conditions hold at the returned z' % n, '%s is reported although the returned z need not satisfy the dual certificate' % n)
                if not p: say(ck, 'verdict-complete', x.where, fs, fnot(Pm), '%s excludes the primal certificate' % n, '%s is reported although the primal certificate holds too' % n)
                if not d: say(ck, 'verdict-complete', x.where, fs + nontriv(fs, w), fnot(D), '%s excludes the dual certificate' % n, '%s is reported although the dual certificate holds too' % n)
            ck.attempt('verdict-certified', x.where, go)
    L = outer_loop(R)
    if L is None: ck.undecided('verdict-complete', R.where, 'no outer loop'); return
    xs = R.named('SUCCESS')
    def back():
        for x in xs[:1]:
            for d in L.inst:
                for b in d['backs']:
                    N = R.subX(x.X, R.ind.sub(d, b))
                    dx = {q: N[q].add(x.X[q], poly(-1)) for q in 'zlv'}
                    D, w = duals(R.C, dx['z'], tol); Pm = primals(R.C, dx['l'], dx['v'], tol)
                    fs = list(b.facts.fs)
                    say(ck, 'verdict-complete', L.where, fs, fnot(fand(*Pm)), 'the loop goes on only if the last step is no primal certificate', 'the loop at %s goes on although the last step satisfies the primal infeasibility certificate' % L.where)
                    say(ck, 'verdict-complete', L.where, fs + nontriv(fs, w), fnot(fand(*D)), 'the loop goes on only if the last step is no dual certificate', 'the loop at %s goes on although the last step satisfies the dual infeasibility certificate' % L.where)
    ck.attempt('verdict-complete', R.where, back)
