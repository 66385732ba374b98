from env import *

def run(ck, P):
    ck.rule('residual-blocks', 'each block of each residual equals the KKT expression, entrywise for every ordering of y and v', 9)
    ck.rule('norms-current', 'block norms, norm and merit equal those of the current contents after every operation', 12)
    ck.attempt('residual-blocks', 'FullResidual', body, ck, P)

def body(ck, P):
    E = DenseEnv(P, contract=True); h = E.h
    X, XB = E.comp('FullVariable', 'x'), E.comp('FullVariable', 'xbar')
    E.link(X, XB)
    x, xb = E.letters(X, 'x', 'zlvy'), E.letters(XB, 'w', 'zlvy')
    R = E.comp('FullResidual', 'R')
    E.link(R)
    al, sg = h.real('alpha'), h.real('sigma')
    h.call1(R, 'SetAlpha', [al])
    d = lambda a, b: a.add(b, poly(-1))
    C = E.c
    nat = natural(C, x['z'], x['l'], x['v'], x['y'])
    pnr = natural(C, x['z'], x['l'], x['v'], x['y'], al)
    vi, wi, yi = elem(x['v'], PIDX), elem(xb['v'], PIDX), elem(x['y'], PIDX)
    inner = dict(z=nat['z'].add(d(x['z'], xb['z']).scale(sg)), l=nat['l'].add(d(x['l'], xb['l']).scale(sg)),
                 v=elemwise(phi_pfb(yi + sg * (vi - wi), vi, al), E.nv))
    # every operation starts from unrelated contents
    old = E.letters(R, 'old')
    base = h.e.st
    for nm, args, spec in (('NaturalResidual', [h.ref(X)], nat), ('PenalizedNaturalResidual', [h.ref(X)], pnr), ('InnerResidual', [h.ref(X), h.ref(XB), sg], inner)):
        fn = where_fn(P, 'fbstab::FullResidual::' + nm)
        def one():
            rs = h.call(R, nm, args, base.copy())
            if not rs: ck.bad('residual-blocks', fn, 'never returns for conforming arguments'); return
            for s, _ in rs:
                for q in 'zlv': vec_zero(ck, 'residual-blocks', fn, E.get(R, q, s), spec[q], 'block %s of the residual' % q)
                norms(ck, E, R, s, fn)
        ck.attempt('residual-blocks', fn, one)
    t = h.real('t')
    for nm, args, k in (('Fill', [t], None), ('Negate', [], -1)):
        fn = where_fn(P, 'fbstab::FullResidual::' + nm)
        def two():
            # start from a computed residual so that the norms are current
            st = h.call(R, 'PenalizedNaturalResidual', [h.ref(X)], base.copy())
            for s0, _ in st:
                before = {q: E.get(R, q, s0) for q in 'zlv'}
                for s, _ in h.call(R, nm, args, s0):
                    for q in 'zlv':
                        n = dict(z=E.nz, l=E.nl, v=E.nv)[q]
                        vec_zero(ck, 'residual-blocks', fn, E.get(R, q, s), elemwise(t, n) if k is None else before[q].scale(poly(k)), 'block %s after %s' % (q, nm))
                    norms(ck, E, R, s, fn)
        ck.attempt('norms-current', fn, two)
    # the first state of a fresh object
    def three():
        R2 = E.comp('FullResidual', 'R2')
        norms(ck, E, R2, h.e.st, where_fn(P, 'fbstab::FullResidual::FullResidual'))
    ck.attempt('norms-current', 'FullResidual constructor', three)
    ck.saw(h.e)

def norms(ck, E, R, s, fn):
    h = E.h
    blk = {q: E.get(R, q, s) for q in 'zlv'}
    for q in 'zlv':
        for s2, v in h.call(R, q + '_norm', [], s): norm_is(ck, 'norms-current', fn, v, [blk[q]], '%s_norm() describes the contents' % q)
    for s2, v in h.call(R, 'Norm', [], s): norm_is(ck, 'norms-current', fn, v, list(blk.values()), 'Norm() describes the contents')
    for s2, v in h.call(R, 'Merit', [], s): norm_is(ck, 'norms-current', fn, v, list(blk.values()), 'Merit() is half the squared norm', half=True)
