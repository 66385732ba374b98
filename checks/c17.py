"""A failed factorization or linear solve is never silently used."""
from linear import *

def run(ck, P):
    ck.rule('failure-reported', 'a linear solver reports success only on paths where every factorization it made succeeded', 3)
    ck.rule('success-checked', 'at the end of every Newton step the factorization and the solution are known to have been reported successful', 2)
    ck.rule('failure-throws', 'a subproblem is never left normally after a reported failure', 2)
    for kind, N in (MORE if ck.tier == 'thorough' else COMPONENTS):
        ck.attempt('failure-reported', 'linear solver (%s)' % kind, component, ck, P, kind, N)
    all_runs(ck, P, 'success-checked', body)

def component(ck, P, kind, N):
    L = Linear(P, kind, N)
    e = L.e
    rs = L.initialize()
    fs = list(e.factors)
    w = L.where('Initialize')
    if not fs: ck.undecided('failure-reported', w, 'no factorization was recognised')
    for s, v in rs:
        t = truth(e, v)
        if t == FALSE: continue
        have = s.facts.add(t)
        for f in fs: one(ck, e, w, 'Initialize', have, f)
        for s2, v2 in L.solve(s):
            t2 = truth(e, v2)
            if t2 == FALSE: continue
            later = [f for f in e.factors if f not in fs]
            for f in later: one(ck, e, L.where('Solve'), 'Solve', have.add(t2), f)
    ck.saw(e)

def one(ck, e, w, m, have, f):
    ok = fatom(atom('fact_ok', f['kind'], f['m'], deps=f['m'].deps))
    fx = have
    for g in f['facts'].fs: fx = fx.add(g)
    r = True if fx.has(FALSE) or fx.decide(ok) is True else entails(list(fx.fs), ok)
    ck.put('failure-reported', w, r, '%s of line %s is known to have succeeded' % (f['kind'].upper(), f['line']),
           '%s can report success although the %s factorization at line %s failed' % (m, f['kind'].upper(), f['line']))

def body(ck, P, R):
    C = R.C
    oks = {}
    for d in C.inits: oks[d['ok']] = ('factorization', d['line'])
    for d in C.steps: oks[d['ok']] = ('linear solve', d['line'])
    O = outer_loop(R)
    Ls = [L for L in R.ind.loops.values() if L is not O and any(SOLVES in d['phis'] or SOLVES in d['elim'] for d in L.inst)]
    if not Ls or not C.inits or not C.steps: ck.undecided('success-checked', R.where, 'no loop performing linear solves was recognised'); return
    for L in Ls:
        for d in L.inst:
            for b in d['backs']:
                moved = not zero_test(R.num(b.mem[SOLVES]) - R.num(d['head'].mem[SOLVES]))
                for ok, (what, line) in oks.items():
                    v = b.facts.decide(ok)
                    if v is None and len(oks) <= 2: v = entails(list(b.facts.fs), ok) or None
                    if v is True: ck.ok('success-checked', L.where, '%s of line %s is known to have been reported successful' % (what, line))
                    elif not moved and v is None: continue
                    elif len(oks) > 2 and v is None: ck.undecided('success-checked', L.where, 'several %s calls' % what)
                    else: ck.bad('success-checked', L.where, 'the iteration continues although the %s at line %s may have reported failure (%s)' % (what, line, R.label))
            for y in d['exits']:
                moved = not zero_test(R.num(y.st.mem[SOLVES]) - R.num(d['head'].mem[SOLVES]))
                for ok, (what, line) in oks.items():
                    v = y.st.facts.decide(ok)
                    if v is False: ck.bad('failure-throws', L.where, 'the loop is left normally (%s) after the %s at line %s reported failure (%s)' % (y.k, what, line, R.label))
                    elif moved and v is None and len(oks) <= 2 and entails(list(y.st.facts.fs), ok) is not True: ck.bad('failure-throws', L.where, 'the loop is left normally (%s) after a step although the %s at line %s may have reported failure (%s)' % (y.k, what, line, R.label))
                    else: ck.ok('failure-throws', L.where, 'left normally only before the step or after success')
