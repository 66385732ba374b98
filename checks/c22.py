from inner import *
from c01 import root_of
from witness import judged

def run(ck, P):
    ck.rule('stop-rule', 'the Newton loop is left only when the inner residual is within the inner tolerance and the outer residual has decreased, the inner residual is within inner_tol_min, the Newton budget is spent or max_inner_iters steps were made', 2)
    ck.rule('centre', 'the proximal centre is the last accepted iterate, with sigma0, in every pass', 2)
    ck.rule('tolerance-sequence', 'each inner tolerance is at most the previous one or inner_tol_min, at least inner_tol_min and at most max(outer residual, inner_tol_min); the first is at most inner_tol_max', 2)
    ck.rule('newton-system', 'the right-hand side of the Newton system is minus the subproblem residual at the point it is linearised at', 2)
    all_runs(ck, P, 'stop-rule', body)

def body(ck, P, R):
    I = Inner(R); w = I.L.where; o = R.S.opt
    # centre
    xs = R.named('SUCCESS')
    def centre():
        for d in I.L.inst:
            pass
        for q in 'zlv':
            for x in xs[:1]: vec_zero(ck, 'centre', w, I.XB[q], accepted(R, I, x)[q], 'the centre is the last accepted iterate, %s' % q)
        num_eq(ck, 'centre', w, I.sg, o['sigma0'], 'the regularisation is sigma0')
    ck.attempt('centre', w, centre)
    def rhs():
        want = R.inner(I.X, I.XB, I.sg)
        r = R.obj(I.s['r'], I.s['pre'])
        for q in 'zlv': vec_zero(ck, 'newton-system', w, r[q], want[q].scale(poly(-1)), 'right-hand side %s' % q)
    ck.attempt('newton-system', w, rhs)
    S = unfold(R.inner2(I.X, I.XB, I.sg)); So = unfold(R.resid2(I.X)); Sk = unfold(R.resid2(I.XB))
    tols = []
    def classify(l):
        """which of A: inner <= tol, B: outer decreased, C: inner <= inner_tol_min holds"""
        p = bound_form(l)
        if p is None: return None
        for q in ([p, unfold(p)] if has_def(p) else [p]):
            rs = root_of(q)
            for c, r, rest in rs:
                r2 = unfold(r * r)
                if zero_test(r2 - S) is True:
                    t = -rest / poly(c)
                    if t == o['inner_tol_min']: return 'C'
                    return ('A', t)
                if zero_test(r2 - So) is True:
                    k = -rest / poly(c)
                    # strictly: an equal residual is no progress
                    if zero_test(unfold(k * k) - Sk) is True: return 'B' if l.op == 'lt' or l.op == 'not' and l.a[0].op == 'le' else None
        return None
    cache = {}
    def cl(l):
        if l not in cache: cache[l] = classify(l)
        return cache[l]
    for d in I.L.inst:
        k0 = R.num(d['entry'].mem[SOLVES])
        for ex in d['exits']:
            def go():
                st = ex.st
                if any(isinstance(st.mem.get(SOLVES), Poly) and st.facts.decide(g) is True for g in
                       [le(o['max_newton_iters'] - count(R, st.mem[SOLVES]), ZERO), le(o['max_inner_iters'] - (count(R, st.mem[SOLVES]) - count(R, k0)), ZERO)]):
                    ck.ok('stop-rule', w, 'the iteration budget is spent'); return
                good = None
                for f in st.facts.fs:
                    ls = literals(f)
                    if len(ls) > 8: continue
                    c = {l: (cl(l), cl(fnot(l))) for l in ls}
                    if not any(a or b for a, b in c.values()): continue
                    ok = True
                    for m in range(1 << len(ls)):
                        val = {l: bool(m >> i & 1) for i, l in enumerate(ls)}
                        if not feval(f, val): continue
                        have = [c[l][0] if val[l] else c[l][1] for l in ls]
                        A = [h for h in have if isinstance(h, tuple)]
                        if not ('C' in have or (A and 'B' in have) or budget(R, o, st, k0, [l if val[l] else fnot(l) for l in ls])): ok = False; break
                    if ok: good = f; tols.extend(a[1] for p in c.values() for a in p if isinstance(a, tuple))
                # conjunctions are kept as separate facts
                have = [(cl(f), f) for f in units(st.facts.fs)]
                A = [h[0] for h in have if isinstance(h[0], tuple)]
                if good is None and ('C' in [h[0] for h in have] or (A and 'B' in [h[0] for h in have])): good = TRUE; tols.extend(a[1] for a in A)
                ck.put('stop-rule', w, good is not None, 'left with the subproblem solved', 'the Newton loop can be left although the subproblem is not solved to its tolerance with a decreased outer residual, nor to inner_tol_min, and iterations are left; conditions: %s' % '; '.join(str(f)[:160] for f in list(st.facts.fs)[-5:]))
            ck.attempt('stop-rule', w, go)
    seen = []
    for t in tols:
        if t not in seen: seen.append(t)
    if seen: ck.attempt('tolerance-sequence', w, tolerance, ck, R, I, seen)
    else: ck.undecided('tolerance-sequence', w, 'no comparison with an inner tolerance was recognised')

def count(R, p): return alg.subst_atoms(poly(p), R.ind.same())
def budget(R, o, st, k0, fs):
    fx = st.facts
    for f in fs: fx = fx.add(f)
    return any(fx.decide(g) is True for g in [le(o['max_newton_iters'] - count(R, st.mem[SOLVES]), ZERO), le(o['max_inner_iters'] - (count(R, st.mem[SOLVES]) - count(R, k0)), ZERO)])

def accepted(R, I, x):
    """the iterate the pass of the outer loop starts from"""
    return x.X

def tolerance(ck, R, I, seen):
    o = R.S.opt; w = I.O.where
    mn = o['inner_tol_min']
    facts = I.L.inst[0]['entry'].facts
    Sk = unfold(R.resid2(I.XB))
    # the unknown of the outer loop that holds the tolerance: what it becomes is what the residual is compared with
    prev = []
    for p in I.O.inst[0]['phis'].values():
        if not isinstance(p, Poly) or p.isint(): continue
        bs = [R.ind.sub(q, b).poly(p) for q in I.O.inst for b in q['backs']]
        if not bs or any(unfold(b) != unfold(bs[0]) for b in bs): continue
        vs = {unfold(bs[0])} | {unfold(v) for (v,), _, _ in cases([bs[0]], facts)}
        if all(unfold(t) in vs for t in seen): prev.append((p, bs[0]))
    if len(prev) != 1: ck.undecided('tolerance-sequence', w, 'the previous tolerance was not recognised in %s' % '; '.join(str(t)[:200] for t in seen)); return
    pv, t = prev[0]
    if len(seen) == 1: t = seen[0]
    # the first one
    for q in I.O.inst:
        e = R.ind.sub(q, q['entry']).poly(pv)
        for (v,), fx, cs in cases([e], q['entry'].facts):
            fx = total(fx)
            judged(ck, 'tolerance-sequence', w, fx, le(mn, v), 'the initial tolerance is at least inner_tol_min', 'the initial inner tolerance %s may be below inner_tol_min' % str(v)[:200])
            judged(ck, 'tolerance-sequence', w, fx, le(v, o['inner_tol_max']), 'the initial tolerance is at most inner_tol_max', 'the initial inner tolerance %s may exceed inner_tol_max' % str(v)[:200])
    facts = facts.add(le(mn, pv))
    for (v,), fx, cs in cases([t], facts):
        fx = total(fx)
        judged(ck, 'tolerance-sequence', w, fx, le(mn, v), 'the tolerance is at least inner_tol_min', 'the inner tolerance %s may be below inner_tol_min' % str(v)[:200])
        outer = [r for r in roots(v, fx) if zero_test(unfold(r * r) - Sk) is True]
        judged(ck, 'tolerance-sequence', w, fx, for_(le(v, mn), *[le(v, r) for r in outer]), 'the tolerance is at most max(outer residual, inner_tol_min)', 'the inner tolerance %s may exceed both the outer residual and inner_tol_min (case %s)' % (str(v)[:200], str(fand(*cs))[:200]))
        mono = fx.decide(le(v, mn)) is True or fx.decide(le(v, pv)) is True or fraction_of(v, pv, fx) or (outer and any(under(f, v, pv, fx) for f in fx.fs))
        if mono: ck.ok('tolerance-sequence', w, 'the tolerance does not grow')
        else: judged(ck, 'tolerance-sequence', w, fx, for_(le(v, mn), le(v, pv)), 'the tolerance does not grow', 'the inner tolerance %s may exceed the previous one, %s (case %s)' % (str(v)[:200], pv, str(fand(*cs))[:200]))

def roots(v, fx):
    at = set(); collect(v, at, set())
    for f in fx.fs: 
        for l in literals(f):
            if l.op != 'b': collect(l.a[0], at, set())
    return [poly(alg._list[i]) for i in at if alg._list[i].kind == 'sqrt']
def fraction_of(v, pv, fx):
    """v = c pv with c <= 1 (pv is nonnegative)"""
    a = pv.atoms()[0]
    q = ZERO
    for m, c in v.t.items():
        k = dict(m)
        if k.get(a.id) != 1: return False
        q = q + Poly({tuple(x for x in m if x[0] != a.id): c})
    return fx.decide(le(q, ONE)) is True
def under(f, v, pv, fx):
    """a fact v <= w (or <) with w = c pv"""
    for l in units([f]):
        p = bound_form(l)
        if p is None: continue
        for k in (1, -1):
            w = v - p * k if k == 1 else None
            if w is not None and fraction_of(w, pv, fx): return True
    return False
