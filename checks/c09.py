"""The dense Newton step solves the linearised subproblem."""
from newton import *

RULES = (('stationarity', '(H + sigma I)dz + G\'dl + A\'dv = rz, as an identity of words modulo the factor relations'),
         ('equality', '-G dz + sigma dl = rl'), ('complementarity', 'mu*dv - gamma*(A dz) = rv entrywise, gamma and mu an element of the generalized gradient in every sign case'),
         ('margin', 'dy = b - A dz'), ('success-state', 'a step is produced whenever the factorization is reported successful'))
def run(ck, P):
    for n, t in RULES: ck.rule(n, t, 1)
    ck.attempt('stationarity', 'DenseCholeskySolver', body, ck, P, 'dense', 1)

def body(ck, P, kind, N):
    L = Linear(P, kind, N); e = L.e; h = L.h
    w0, w = L.where('Initialize'), L.where('Solve')
    rs = L.initialize()
    n = 0
    for s, v in rs:
        t = truth(e, v)
        if t == FALSE: continue
        # the states in which every factorization succeeded
        oks = {fatom(atom('fact_ok', f['kind'], f['m'], deps=f['m'].deps)): TRUE for f in e.factors}
        ls = {l: TRUE for l in literals(t) if l.op == 'b' and l.a[0].kind == 'fact_ok'}
        sub = Subst(None, None, {**oks, **ls})
        if sub.f(t) != TRUE: ck.undecided('success-state', w0, 'success also depends on %s' % str(sub.f(t))[:200])
        s = s.copy()
        for loc, x in list(s.mem.items()):
            y = sub.any(x)
            if y is not x: s.mem[loc] = y
        s.facts = s.facts.add(t)
        for s2, v2 in L.solve(s):
            if truth(e, v2) == FALSE: continue
            n += 1
            # nothing but the outcome of the factorization may decide the step
            step(ck, L, s2, w)
    ck.put('success-state', w, True if n else False, 'the solve returns with a step after a successful factorization', 'no path through Initialize and Solve produces a step')
    ck.saw(e)

def step(ck, L, st, w):
    d = L.step(st)
    G = Gradient(L); W = Words(G)
    for rule, part, m in system(L, G, d):
        def one():
            if isinstance(m, tuple):
                n = m[2]
                p = ew_rows(W, m[1], n)
                v = elemwise(p, poly(n))
                r, left = W.zero(v)
            else: r, left = W.zero(m)
            unknown = [x for x in sorted(left.deps) if x[0] in ('undef', 'stale')]
            ck.put(rule, w, r, '%s%s' % (rule, ' rows of ' + part if part else ''), '%s%s: the computed step leaves %s in this row of the Newton system%s' % (rule, ' (%s)' % part if part else '', str(left)[:400], ' [uses %s]' % unknown[:3] if unknown else ''))
        ck.attempt(rule, w, one)
