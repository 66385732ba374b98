from inner import *
import itertools

def run(ck, P):
    ck.rule('accepted-step', 'the iterate moves to x + t dx where t passed the sufficient decrease test at that very point, or all trials were used up', 2)
    ck.rule('trial-sequence', 't starts at 1, is multiplied by beta after each failed trial, and a further trial is made only if the test failed', 2)
    ck.rule('reference-merit', 'the reference value of the test is the current merit, or with the nonmonotone search the maximum of the last five', 2)
    all_runs(ck, P, 'accepted-step', body)

class Armijo:
    def __init__(self, I):
        self.I = I; R = I.R
        self.M0 = unfold(I.merit(I.X))
        self.eta = R.S.opt['eta']
        self.cur = poly(atom('v', 'current merit', name='merit', sign='>=0'))
        self.memo = {}; self.defs = {}; self.refs = {}
    def is_merit(self, a):
        """a named expression equal to the current merit"""
        r = self.defs.get(a.id)
        if r is None: r = self.defs[a.id] = zero_test(unfold(poly(a)) - self.M0) is True
        return r
    def named(self, p):
        """p with the current merit, where it is stored or compared, named"""
        at = set(); collect(p, at, set())
        sb = Subst({i: self.cur for i in at if alg._list[i].kind == 'def' and self.is_merit(alg._list[i])})
        return unfold(sb.poly(p))
    def reference(self, f, t):
        """f says  merit(x + t dx) <= m0 - 2 t eta merit(x): returns m0, else None"""
        k = (f, t)
        if k not in self.refs: self.refs[k] = self._reference(f, t)
        return self.refs[k]
    def _reference(self, f, t):
        p = bound_form(f)
        if p is None: return None
        ea = self.eta.atoms()[0]; ta = t.atoms()[0]
        u = unfold(p)
        if not any(a is ea for a in u.atoms()) or not any(a is ta for a in u.atoms()): return None
        p = self.named(p)
        if t not in self.memo: self.memo[t] = unfold(self.I.merit(self.I.at(t))) + 2 * t * self.eta * self.M0
        G = self.memo[t]
        ks = set()
        for m, c in p.t.items():
            if any(a == ea.id for a, e in m) and m in G.t: ks.add(alg.qd(G.t[m], c))
        for k in ks:
            if k <= 0: continue
            m0 = G - p * k
            z = Subst({ta.id: ZERO, ea.id: ZERO}).poly(m0)
            # the merits it is compared with do not depend on the trial
            if zero_test(m0 - z) is not True: continue
            h = Poly({m: c for m, c in z.t.items() if any(stored(alg._list[a]) or alg._list[a] is self.cur.atoms()[0] for a, e in m)})
            r = z - h
            if zero_test(r) is True: return h
            if zero_test(r - self.M0) is True: return h + self.cur
        return None

def stored(a): 
    """a value kept from before, or a choice among such values"""
    if a.kind == 'phi' or a.kind in ('maxof', 'minof', 'extr'): return True
    if a.kind != 'ind': return False
    at = set(); collect(a, at, set())
    return not any(has_idx_atom_kind(alg._list[i]) for i in at)
def has_idx_atom_kind(a): return a.kind in ('el', 'idx', 'sum')

def body(ck, P, R):
    I = Inner(R); A = Armijo(I); w = I.L.where
    nm = R.S.opt['nonmonotone_linesearch']
    o = R.S.opt
    refs = {True: [], False: []}
    lsl = set()
    for d in I.L.inst:
        if not d['backs']: ck.bad('accepted-step', w, 'no step is ever taken')
        settled = settle(nm)
        for b in d['backs']:
            def back():
                t, N = I.step_length(d, b)
                T = I.at(t)
                for q in 'zlv':
                    if vec_zero(ck, 'accepted-step', w, N[q], T[q], 'the new %s is x.%s + t dx.%s' % (q, q, q)) is not True: return
                L = I.ls_loop(t)
                if L is None:
                    ck.bad('accepted-step', w, 'the step length %s is not that of a line search' % t); return
                lsl.add((L, t))
                for v in (True, False):
                    fs = [settled[v].f(f) for f in b.facts.fs]
                    if any(f.op == 'F' for f in fs): continue
                    hit = [m for m in (A.reference(f, t) for f in units(fs)) if m is not None]
                    if hit:
                        ck.ok('accepted-step', w, 'the test holds at the point taken (nonmonotone %s)' % v)
                        refs[v] += hit; continue
                    ck.put('accepted-step', w, exhausted(R, L, o, fs, b.facts), 'the trials are used up', 'a step is taken with step length %s although the sufficient decrease test need not hold there (merit of x + t dx <= m0 - 2 t eta merit(x)) and trials are left; conditions: %s' % (t, '; '.join(str(f)[:150] for f in list(b.facts.fs)[-3:])))
            ck.attempt('accepted-step', w, back)
    for L, t in lsl: ck.attempt('trial-sequence', L.where, trials, ck, R, I, A, L, t, nm, refs)
    for v in (True, False):
        if not refs[v]: ck.undecided('reference-merit', w, 'no test was recognised')
        for m in uniq(refs[v]): ck.attempt('reference-merit', w, reference, ck, R, I, A, m, v)

def uniq(xs):
    out = []
    for x in xs:
        if x not in out: out.append(x)
    return out

def settle(nm):
    """substitutions that settle the option nm, also inside selected values"""
    return {v: Subst(truths={nm: TRUE if v else FALSE}) for v in (True, False)}

def exhausted(R, L, o, fs, facts):
    from c03 import counters
    for d in L.inst:
        ok = False
        for p, s in counters(d):
            e = R.ind.sub(d, d['entry']).poly(p)
            k = (p - e) * s
            if facts.decide(le(o['max_linesearch_iters'] - k, ZERO)) is True and abs(s) == 1: ok = True
        if not ok: return False
    return True

def trials(ck, R, I, A, L, t, nm, refs):
    be = R.S.opt['beta']
    for d in L.inst:
        num_eq(ck, 'trial-sequence', L.where, R.ind.sub(d, d['entry']).poly(t), ONE, 'the first step length is 1')
        if not d['backs']: ck.undecided('trial-sequence', L.where, 'there is never a second trial')
        settled = settle(nm)
        for b in d['backs']:
            num_eq(ck, 'trial-sequence', L.where, R.ind.sub(d, b).poly(t), be * t, 'the next step length is beta t')
            for v in (True, False):
                fs = [settled[v].f(f) for f in b.facts.fs]
                if any(f.op == 'F' for f in fs): continue
                hit = [m for m in (A.reference(fnot(f), t) for f in units(fs)) if m is not None]
                refs[v] += hit
                ck.put('trial-sequence', L.where, bool(hit), 'a further trial is made only after a failed test (nonmonotone %s)' % v, 'the line search shrinks the step although the sufficient decrease test was not evaluated, or held, at the current trial point; conditions: %s' % '; '.join(str(f)[:150] for f in list(b.facts.fs)[-3:]))

def reference(ck, R, I, A, m0, nonmono):
    w = I.L.where
    if not nonmono:
        ck.put('reference-merit', w, m0 == A.cur, 'm0 is the current merit', 'the reference value of the monotone search is %s instead of the current merit' % str(m0)[:300]); return
    cur = A.cur; u = m0
    us = set(); collect(u, us, set())
    phis = [x for x in (alg._list[i] for i in us) if x.kind == 'phi']
    others = [x for x in (alg._list[i] for i in us) if x.kind in ('sum', 'extr', 'Sum') ]
    if others: ck.bad('reference-merit', w, 'the reference value depends on %s besides the merits' % others[0].name[:200]); return
    ca = cur.atoms()[0]
    names = [ca] + phis
    if len(names) > 7: ck.undecided('reference-merit', w, 'more than 7 values compared'); return
    val = lambda vs: Subst({x.id: poly(k) for x, k in zip(names, vs)}).poly(u).const()
    used = []
    for i, x in enumerate(names):
        vs = [1 + j for j in range(len(names))]; vs[i] = 100
        if val(vs) == 100: used.append(x)
    ok = ca in used
    for perm in itertools.permutations(range(1, len(names) + 1)):
        e = max(k for x, k in zip(names, perm) if x in used) if used else 0
        if val(perm) != e: ok = False; break
    if not ok: ck.bad('reference-merit', w, 'the reference value is not the maximum of the current and stored merits: %s' % str(u)[:300]); return
    # how old is each stored value?
    age = {ca.id: 0}
    used = [x for x in used if x is not ca]
    for _ in range(len(phis) + 1):
        for x in phis:
            if x.id in age: continue
            vs = []
            for d in I.L.inst:
                for b in d['backs']:
                    q = A.named(R.ind.sub(d, b).poly(poly(x)))
                    at = q.atoms()
                    vs.append(age.get(at[0].id) if len(q.t) == 1 and len(at) == 1 and q == poly(at[0]) else None)
            if vs and all(v is not None and v == vs[0] for v in vs): age[x.id] = vs[0] + 1
    ages = sorted(age.get(x.id, -1) for x in used)
    ck.put('reference-merit', w, ages == [1, 2, 3, 4], 'm0 is the maximum of the current merit and the four before it', 'm0 is the maximum of the current merit and stored values of ages %s, required the four merits before it' % ages)
    for d in I.L.inst:
        se = R.ind.sub(d, d['entry'])
        for x in used:
            e = se.poly(poly(x))
            c = e.const()
            ck.put('reference-merit', w, c is not None and c <= 0, 'stored merits start out as %s' % e, 'a subproblem starts with the stored merit %s, which is not one of its own merits' % str(e)[:200])
