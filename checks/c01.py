from algo import *

def run(ck, P):
    ck.rule('success-certified', 'every exit with flag SUCCESS is guarded by: residual of the returned point <= abs_tol + rel_tol (1 + forcing norm), or norm of the last proximal step <= stall_tol', 2)
    ck.rule('step-is-last-difference', 'the vector whose norm is compared with stall_tol is the difference of the last two accepted iterates over z, l and v, and the test cannot pass before a step was made', 2)
    all_runs(ck, P, 'success-certified', body)

def body(ck, P, R):
    ex = R.named('SUCCESS')
    if not ex: ck.bad('success-certified', R.where, 'no exit reports success'); return
    for x in ex: ck.attempt('success-certified', x.where, one, ck, R, x)

def one(ck, R, x):
    S = R.resid2(x.X)
    tol = R.tol(); st = R.S.opt['stall_tol']
    stall = {}
    def classify(l):
        """(disjunction established by l, by not l)"""
        if l.op not in ('lt', 'le'): return (None, None)
        pos = upper(R, x, l.a[0], S, tol)
        if pos == 'stall': stall[l] = l.a[0]; return (True, None)
        neg = upper(R, x, -l.a[0], S, tol)
        if neg == 'stall': stall[fnot(l)] = -l.a[0]; return (None, True)
        return (pos is True or None, neg is True or None)
    f = implied_by(x.facts.fs, classify)
    ck.put('success-certified', x.where, f is not None, 'guarded by %s' % (str(f)[:200],),
           'no condition on the way to this exit says that the residual of the returned point is at most abs_tol + rel_tol (1 + |w|) or the last step at most stall_tol; conditions: %s' % '; '.join(str(f)[:160] for f in list(x.facts.fs)[-6:]))
    for l, p in stall.items(): ck.attempt('step-is-last-difference', x.where, step_norm, ck, R, x, p)

def root_of(p, extra=()):
    """p = c*r + rest with one square-root like atom r; -> (c, r as polynomial, rest)"""
    out = []
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1:
            a = alg._list[m[0][0]]
            if a.kind in ('sqrt', 'def', 'phi') and c > 0: out.append((c, poly(a), p - c * poly(a)))
    return out

def upper(R, x, p, S, tol):
    """what p <= 0 says: True if it bounds the residual of the returned point
    by the tolerance, 'stall' if it bounds some norm by stall_tol"""
    st = R.S.opt['stall_tol']
    for q in ([p, unfold(p)] if has_def(p) else [p]):
        for c, r, rest in root_of(q):
            t = -rest / poly(c)
            if t == st: return 'stall'
            if zero_test(r * r - S):
                return True if x.facts.decide(le(t, tol)) is True or zero_test(t - tol) else None
    # squared form
    if any(zero_test(p * k - (S - tol * tol)) for k in (1,)): return True
    return None

def step_norm(ck, R, x, p):
    """the norm bounded by stall_tol, over the loop that computes the iterates"""
    st = R.S.opt['stall_tol']
    (c, r, rest), = [z for z in root_of(p) if -z[2] / poly(z[0]) == st]
    d2 = r * r
    w = x.where
    small = lt(st, ONE)
    def prove(d2, X, facts, depth):
        Ls = R.ind.loops_of([d2] + list(X.values()))
        # first occurrence: no step has been made yet
        if not R.ind.loops_of([d2]):
            f = facts.add(small)
            big = f.decide(le(d2, st * st)) is False or (d2.const() is not None and d2.const() >= 1) or f.decide(le(ONE, d2)) is True
            return ck.put('step-is-last-difference', w, big, 'before the first step the compared value is at least 1', 'before any proximal step the stall test compares %s with stall_tol^2: it may succeed for the initial guess' % str(d2)[:200])
        L = Ls[0] if depth else Ls[0]
        for d in L.inst:
            if R.ind.loops_of([d2])[0] is L:
                sb = R.ind.sub(d, d['entry'])
                prove(sb.poly(d2), R.subX(X, sb), d['entry'].facts, depth + 1)
                for b in d['backs']:
                    sb = R.ind.sub(d, b)
                    N = R.subX(X, sb)
                    want = ZERO
                    for q in 'zlv': want = want + sumsq(N[q].add(X[q], poly(-1)))
                    num_eq(ck, 'step-is-last-difference', w, sb.poly(d2), want, 'the compared vector is the difference of the last two iterates over z, l and v')
    prove(d2, x.X, x.facts, 0)
