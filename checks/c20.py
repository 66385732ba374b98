from algo import *

def run(ck, P):
    ck.rule('returned-duals-nonnegative', 'on SUCCESS and MAXITERATIONS every component of the returned v is nonnegative, or the returned point is the caller\'s guess with its margin', 4)
    ck.rule('iterates-keep-sign', 'every accepted iterate has nonnegative v', 2)
    all_runs(ck, P, 'returned-duals-nonnegative', body)

def nonneg(v):
    e = elem(v, PIDX)
    return zero_test(e - pmax(ZERO, e))

def body(ck, P, R):
    for x in R.named('SUCCESS', 'MAXITERATIONS'):
        ck.attempt('returned-duals-nonnegative', x.where, one, ck, R, x)

def one(ck, R, x):
    w = x.where
    for (z, l, v, y), fx, cs in cases([x.X[q] for q in 'zlvy'], x.facts):
        prove(ck, R, w, dict(z=z, l=l, v=v, y=y), 0, str(fand(*cs))[:200] if cs else '')

def prove(ck, R, w, X, depth, case):
    r = nonneg(X['v'])
    if r is True: ck.ok('returned-duals-nonnegative' if depth == 0 else 'iterates-keep-sign', w, 'v >= 0 %s' % case); return
    g = [mat_zero_test(X[q].add(R.X0[q], poly(-1))) for q in 'zlv'] + [mat_zero_test(X['y'].add(R.margin(R.X0), poly(-1)))]
    if all(t is True for t in g): ck.ok('returned-duals-nonnegative', w, 'the guess is returned as it was'); return
    Ls = R.ind.loops_of([X['v']])
    if not Ls or depth > 3:
        ck.put('returned-duals-nonnegative', w, r, '', 'v may have negative components: %s %s' % (str(X['v'])[:300], case)); return
    for d in Ls[0].inst:
        if not any(isinstance(p, Arr) and p.lin and p.base == X['v'] for p in d['phis'].values()):
            # not an accepted iterate as such
            ck.bad('returned-duals-nonnegative', w, 'v may have negative components: %s %s' % (str(X['v'])[:300], case)); return
        prove(ck, R, w, R.subX(X, R.ind.sub(d, d['entry'])), depth + 1, 'first pass')
        for b in d['backs']:
            N = R.subX(X, R.ind.sub(d, b))
            if mat_zero_test(N['v'].add(X['v'], poly(-1))) is True: continue
            prove(ck, R, w, N, depth + 1, 'further passes')
    ck.ok('returned-duals-nonnegative', w, 'v is the guess or an accepted iterate with nonnegative components')
