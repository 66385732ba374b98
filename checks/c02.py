from algo import *

def run(ck, P):
    ck.rule('residual-at-returned-point', 'on SUCCESS and MAXITERATIONS the reported residual is the norm of the penalized natural residual at the returned point', 4)
    ck.rule('initial-residual', 'the reported initial residual is that norm at the guess with its margin recomputed', 4)
    ck.rule('newton-count', 'newton_iters equals the number of calls to the linear solver\'s Solve', 4)
    ck.rule('prox-count', 'prox_iters is 0 in the first pass of the outer loop and one more in each further pass', 4)
    all_runs(ck, P, 'residual-at-returned-point', body)

def same(R, d, assume=()):
    r = zero_test(d, assume)
    if r is True: return True
    if R.ind.zero(d): return True
    return r

def body(ck, P, R):
    if not R.exits: ck.bad('residual-at-returned-point', R.where, 'Solve never returns'); return
    X0 = {q: R.X0[q] for q in 'zlv'}
    S0 = R.resid2(X0)
    for x in R.exits:
        w = x.where
        def a():
            if x.name not in ('SUCCESS', 'MAXITERATIONS'): return
            r = True
            for (rs, z, l, v, y), fx, _ in cases([x.residual, x.X['z'], x.X['l'], x.X['v'], x.X['y']], x.facts):
                k = same(R, rs * rs - R.resid2(dict(z=z, l=l, v=v, y=y)), x.assume)
                r = False if k is False or r is False else None if k is None else r
            ck.put('residual-at-returned-point', w, r, 'residual^2 equals the squared residual norm at the returned (z,l,v)',
                   'the reported residual %s is not the residual norm at the returned point z=%s' % (str(x.residual)[:200], str(x.X['z'])[:120]))
        ck.attempt('residual-at-returned-point', w, a)
        def b():
            r = same(R, x.initial * x.initial - S0, x.assume)
            ck.put('initial-residual', w, r, 'initial_residual^2 equals the squared residual norm at the guess', 'initial_residual is %s, not the residual norm at the guess' % str(x.initial)[:300])
        ck.attempt('initial-residual', w, b)
        def c():
            k = R.num(x.st.mem[SOLVES])
            r = same(R, x.newton - k, x.assume)
            ck.put('newton-count', w, r, 'newton_iters counts the linear solves', 'newton_iters is %s after %s linear solves' % (x.newton, k))
        ck.attempt('newton-count', w, c)
        ck.attempt('prox-count', w, prox, ck, R, x)

def outer_loop(R):
    """the loop that carries the accepted iterate: outermost loop with linear solves in it"""
    Ls = [L for L in R.ind.loops.values() if any(SOLVES in d['phis'] or SOLVES in d['elim'] for d in L.inst)]
    return max(Ls, key=lambda L: L.first) if Ls else None

def prox(ck, R, x):
    L = outer_loop(R)
    w = x.where
    if L is None: ck.undecided('prox-count', w, 'no loop performs linear solves'); return
    p = poly(x.prox)
    for d in L.inst:
        # what is reported, in terms of the number of completed passes
        c = ZERO
        if not R.ind.phis_of(p) & {n for q in d['phis'].values() if isinstance(q, Poly) for n in R.ind.phis_of(q)}:
            for P in passes(R, d):
                e = p - P
                if x.facts.decide(le(e, ZERO)) is True and x.facts.decide(le(-e, ZERO)) is True: p = P; break
        se = R.ind.sub(d, d['entry'])
        p0 = se.poly(p)
        # did this exit come after the iterate was replaced in this very pass?
        r0 = zero_test(p0)
        if r0 is not True:
            c = p0.const()
            if c is None or c != 1: ck.bad('prox-count', w, 'prox_iters is %s when Solve returns in the first pass of the loop at %s' % (p0, L.where)); continue
            if only_head(R, L, x) or not_accepted(R, d, x): ck.bad('prox-count', w, 'prox_iters is 1 when Solve returns in the first pass of the loop at %s although no proximal step has been accepted yet' % L.where); continue
        good = True
        for b in d['backs']:
            q = R.ind.sub(d, b).poly(p) - p
            if zero_test(q - 1) is not True and not R.ind.zero(q - 1):
                ck.bad('prox-count', w, 'prox_iters changes by %s in one pass of the loop at %s' % (q, L.where)); good = False
        if good: ck.ok('prox-count', w, 'prox_iters is the number of completed passes of the loop at %s' % L.where)

def passes(R, d):
    """the loop's own counters: 0 at first and one more at each way back"""
    out = []
    for P in d['phis'].values():
        if not (isinstance(P, Poly) and P.isint()) or zero_test(R.ind.sub(d, d['entry']).poly(P)) is not True: continue
        if all(zero_test(R.ind.sub(d, b).poly(P) - P - 1) is True for b in d['backs']): out.append(P)
    return out

def only_head(R, L, x):
    """the returned iterate is the one the pass started from"""
    ns = R.ind.phis_of(list(x.X.values()))
    return bool(ns) and all(n.endswith('@%s' % L.lk) for n in ns)

def not_accepted(R, d, x):
    """the accepted iterate (the one a successful exit returns) has not been replaced in the pass that ends here"""
    for y in R.named('SUCCESS'):
        for loc, p in d['phis'].items():
            if isinstance(p, Arr) and p.lin and p.base == y.X['z']:
                q = x.st.mem.get(loc)
                if isinstance(q, Arr) and q.lin and q.base == p.base: return True
    return False
