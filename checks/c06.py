from algo import *
from c02 import outer_loop

def run(ck, P):
    ck.rule('margin-of-returned-point', 'at every exit that returns an iterate y equals b - A z for the returned z', 4)
    ck.rule('start-from-guess', 'the first pass starts from the caller\'s z, l and v with y = b - A z', 2)
    ck.rule('one-iterate', 'the four returned parts are those of one iterate: the current proximal centre, or the current inner iterate with its duals projected', 3)
    all_runs(ck, P, 'margin-of-returned-point', body)

def body(ck, P, R):
    its = R.named('SUCCESS', 'MAXITERATIONS')
    if not its: ck.bad('margin-of-returned-point', R.where, 'no exit returns an iterate'); return
    for x in its:
        w = x.where
        def a():
            for (z, l, v, y), fx, cs in cases([x.X[q] for q in 'zlvy'], x.facts):
                X = dict(z=z, l=l, v=v, y=y)
                r = R.ind.mzero(y.add(R.margin(X), poly(-1)))
                ck.put('margin-of-returned-point', w, r, 'y = b - A z', 'the returned margin is %s for z = %s' % (str(y)[:300], str(z)[:200]))
        ck.attempt('margin-of-returned-point', w, a)
        ck.attempt('start-from-guess', w, start, ck, R, x)
        ck.attempt('one-iterate', w, tuple_of, ck, R, x)

def start(ck, R, x):
    L = outer_loop(R)
    if L is None: return
    for (z, l, v, y), fx, cs in cases([x.X[q] for q in 'zlvy'], x.facts):
        X = dict(z=z, l=l, v=v, y=y)
        if not any(n.endswith('@%s' % L.lk) for n in R.ind.phis_of(list(X.values()))): continue
        if any(not n.endswith('@%s' % L.lk) for n in R.ind.phis_of(list(X.values()))): continue
        for d in L.inst:
            E = R.subX(X, R.ind.sub(d, d['entry']))
            for q in 'zlv': vec_zero(ck, 'start-from-guess', x.where, E[q], R.X0[q], 'the first iterate is the guess, %s' % q)
            vec_zero(ck, 'start-from-guess', x.where, E['y'], R.margin(R.X0), 'the first margin is b - A z0')

def tuple_of(ck, R, x):
    w = x.where
    if not R.C.inits: ck.undecided('one-iterate', w, 'no factorization is made'); return
    i = R.C.inits[-1]
    cen, cur = R.obj(i['xbar'], i['st']), R.obj(i['x'], i['st'])
    proj = dict(cur, v=elemwise(pmax(ZERO, elem(cur['v'], PIDX)), poly(R.S.nv)))
    sh = {}
    for (z, l, v, y), fx, cs in cases([x.X[q] for q in 'zlvy'], x.facts):
        X = dict(z=z, l=l, v=v, y=y)
        got = []
        for nm, T in (('the proximal centre', cen), ('the inner iterate', cur), ('the projected inner iterate', proj)):
            rs = [mat_zero_test(X[q].add(T[q], poly(-1))) for q in 'zlv']
            ry = mat_zero_test(X['y'].add(R.margin(T), poly(-1)))
            if all(r is True for r in rs + [ry]): got.append(nm)
        n = R.ind.phis_of(list(X.values()))
        ck.put('one-iterate', w, bool(got), 'the parts are those of %s' % (got[:1] or ''), 'the returned parts are not those of one iterate: z=%s l=%s v=%s y=%s' % tuple(str(X[q])[:120] for q in 'zlvy'))
