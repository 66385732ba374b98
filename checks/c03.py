from algo import *
from c02 import outer_loop

def run(ck, P):
    ck.rule('newton-budget', 'the number of linear solves at every exit, and before every further solve, is within max_newton_iters', 4)
    ck.rule('prox-budget', 'the number of proximal steps at every exit is at most max_prox_iters', 4)
    ck.rule('inner-budget', 'the number of Newton steps of one subproblem is at most max_inner_iters', 1)
    ck.rule('linesearch-budget', 'the number of trial points of one line search is at most max_linesearch_iters', 1)
    ck.rule('loop-bounded', 'every loop a solve executes has an integer counter that moves by a constant towards a bound tested in every pass', 6)
    all_runs(ck, P, 'newton-budget', body)

def body(ck, P, R):
    o = R.S.opt
    for x in R.exits:
        w = x.where
        k = R.num(x.st.mem[SOLVES])
        ck.attempt('newton-budget', w, lambda: ck.put('newton-budget', w, R.ind.le(k - o['max_newton_iters'], x.facts), 'solves <= max_newton_iters', 'the number of linear solves, %s, is not bounded by max_newton_iters' % k))
        L = outer_loop(R)
        def pb():
            # passes of the outer loop that accepted a step
            ck.put('prox-budget', w, R.ind.le(x.prox - o['max_prox_iters'], x.facts), 'prox_iters <= max_prox_iters', 'the number of proximal steps, %s, is not bounded by max_prox_iters' % x.prox)
        ck.attempt('prox-budget', w, pb)
    O = outer_loop(R)
    inner = [L for L in R.ind.loops.values() if L is not O and any(SOLVES in d['phis'] or SOLVES in d['elim'] for d in L.inst)]
    for s in R.C.steps:
        w = 'linear solve at line %s (%s)' % (s['line'], R.label)
        k = R.num(s['st'].mem[SOLVES])
        ck.attempt('newton-budget', w, lambda: ck.put('newton-budget', w, R.ind.le(k - o['max_newton_iters'], s['st'].facts), 'solves so far <= max_newton_iters', 'a linear solve is made although %s solves may exceed max_newton_iters' % k))
    for L in inner:
        # solves since the subproblem started
        def ib():
            for d in L.inst:
                k0 = R.num(d['entry'].mem[SOLVES])
                for b in list(d['backs']) + [y.st for y in d['exits']]:
                    k = R.num(b.mem[SOLVES]) - k0
                    ck.put('inner-budget', L.where, R.ind.le(k - o['max_inner_iters'], b.facts), 'solves in one subproblem <= max_inner_iters', 'the number of linear solves in one subproblem, %s, is not bounded by max_inner_iters' % k)
        ck.attempt('inner-budget', L.where, ib)
    for lk, L in R.ind.loops.items(): ck.attempt('loop-bounded', L.where, bounded, ck, R, L)
    ck.attempt('linesearch-budget', R.where, linesearch, ck, R, O, inner)

def counters(d):
    """integer unknowns with a constant nonzero step: (phi, step)"""
    out = []
    for loc, p in d['phis'].items():
        if not isinstance(p, Poly) or not p.isint(): continue
        vs = [b.mem.get(loc) for b in d['backs']]
        if not vs or not all(isinstance(v, Poly) for v in vs): continue
        st = {(v - p).const() for v in vs}
        if None in st or 0 in st: continue
        if len({s > 0 for s in st}) != 1: continue
        out.append((p, min(st, key=abs)))
    return out

def invariant_bound(R, d, b):
    """a bound may use options and dimensions, but nothing that changes in the loop"""
    lk = '@%s' % d['lk']
    return not any(n.endswith(lk) for n in R.ind.phis_of(b))

def bounded(ck, R, L):
    for d in L.inst:
        if not d['backs']: continue
        ok = None
        for p, s in counters(d):
            a = p.atoms()[0]
            # in every pass the facts bound the counter by something fixed
            if all(has_bound(R, d, b.facts, a, s) for b in d['backs']): ok = (p, s); break
        ck.put('loop-bounded', L.where, ok is not None, 'counter %s moves by %s towards its bound' % (ok or ('', '')),
               'no counter of this loop in %s is bounded in every pass (conditions: %s)' % (d['fn'], '; '.join(str(f)[:120] for f in d['condf'])))

def has_bound(R, d, facts, a, s):
    for f in facts.fs:
        g = f; sg = 1
        if g.op == 'not': g = g.a[0]; sg = -1
        if g.op not in ('le', 'lt'): continue
        p = g.a[0] * sg                      # p <= 0 or p < 0
        c = p.t.get(((a.id, 1),))
        if c is None: continue
        rest = p - c * poly(a)
        if any(y is a for y in rest.atoms()) or not invariant_bound(R, d, rest): continue
        if (c > 0) == (s > 0): return True
    return False

def linesearch(ck, R, O, inner):
    """evaluations of the subproblem merit between two linear solves"""
    o = R.S.opt
    found = 0
    for L in R.ind.loops.values():
        if L is O or L in inner: continue
        for d in L.inst:
            if any('max_linesearch_iters' in str(f) for f in d['condf']) or step_loop(R, d):
                found += 1
                got = None
                for p, s in counters(d):
                    e = R.ind.sub(d, d['entry']).poly(p)
                    if s == 1 and all(R.ind.le(p + 1 - e - o['max_linesearch_iters'], b.facts) for b in d['backs']): got = p
                    if s == -1 and all(R.ind.le(e - p + 1 - o['max_linesearch_iters'], b.facts) for b in d['backs']): got = p
                ck.put('linesearch-budget', L.where, got is not None, 'at most max_linesearch_iters passes', 'the passes of this line search are not bounded by max_linesearch_iters (conditions: %s)' % '; '.join(str(f)[:120] for f in d['condf']))
    if not found: ck.undecided('linesearch-budget', R.where, 'no line search loop was found')

def step_loop(R, d):
    """does the loop scale a step length by beta?"""
    be = R.S.opt['beta']
    for loc, p in d['phis'].items():
        if isinstance(p, Poly) and all(isinstance(b.mem.get(loc), Poly) and b.mem[loc] == p * be for b in d['backs']) and d['backs']: return True
    return False
