"""The solver call as a whole, with the problem data and the linear solver
replaced by their specifications: exits, loops and the values there."""
from induct import *
FLAGS = {0: 'SUCCESS', 1: 'DIVERGENCE', 2: 'MAXITERATIONS', 3: 'PRIMAL_INFEASIBLE', 4: 'DUAL_INFEASIBLE', 5: 'PRIMAL_DUAL_INFEASIBLE'}

class Exit:
    """one way Solve returns: a state, restricted to one exit flag"""
    def __init__(self, R, st, loc, flag, assume):
        self.R = R; self.st = st; self.loc = loc; self.flag = flag; self.assume = assume
        S = R.S
        self.X = {q: S.h.content(S.xf[q], st) for q in 'zlvy'}
        g = lambda k: st.mem[loc + (k,)]
        self.residual, self.initial, self.newton, self.prox = [R.num(g(k), st) for k in ('residual', 'initial_residual', 'newton_iters', 'prox_iters')]
        self.facts = st.facts
        for f in assume: self.facts = self.facts.add(f)
    @property
    def name(self): return self.R.flagname.get(self.flag, str(self.flag))
    @property
    def where(self): return '%s, exit %s (%s)' % (self.R.where, self.name, self.R.label)

class Run:
    def __init__(self, P, kind, N=1, ref_data=False, ref_var=False, display=0, setup=None, **kw):
        self.P = P
        self.display_ = display
        S = self.S = Setup(P, kind, N=N, display=display, ref_data=ref_data, ref_var=ref_var, **kw)
        self.label = '%s, %s data, %s variable' % (kind + (' N=%d' % N if kind == 'mpc' else ''), 'mapped' if ref_data else 'owned', 'mapped' if ref_var else 'owned')
        h = self.h = S.h; self.e = h.e
        C = self.C = S.contract(); h.e.contracts = C
        h.e.margin = (C.A, C.b, poly(S.nz), poly(S.nv))
        if setup: setup(self)
        self.st0 = h.e.st.copy()
        self.X0 = {q: h.content(S.xf[q]) for q in 'zlvy'}
        self.flagname = dict(FLAGS)
        en = P.enums.get('fbstab::ExitFlag')
        if en: self.flagname = {v: k for k, v in en.items()} if not isinstance(next(iter(en.values())), str) else self.flagname
        self.flagval = {v: k for k, v in self.flagname.items()}
        f = S.solve_fn()
        self.where = '%s:%s %s' % (rel(f['file']), f['l'], f['n'])
        self.rs = S.solve()
        self.ind = Induct(h.e)
        self.exits = []
        for s, v in self.rs:
            fl = self.num(s.mem[v.loc + ('eflag',)], s)
            c = fl.const()
            if c is not None: self.exits.append(Exit(self, s, v.loc, int(c), [])); continue
            for k in self.flagname:
                g = eq(fl, poly(k)) if not has_inds(fl) else as_flag(fl, k)
                if s.facts.decide(g) is not False: self.exits.append(Exit(self, s, v.loc, k, [g]))
    def num(self, v, st=None): return self.e.num(v)
    def named(self, *names): return [x for x in self.exits if x.name in names]
    # ------------------------------------------------------ specifications
    def resid2(self, X, al=None):
        """squared norm of the (penalized) natural residual at X; its margin is b - A z"""
        C = self.C
        y = C.b.add(C.A.mul(X['z']), poly(-1))
        r = natural(C, X['z'], X['l'], X['v'], y, self.S.opt['alpha'] if al is None else al)
        return sumsq(r['z']) + sumsq(r['l']) + sumsq(r['v'])
    def inner(self, X, XB, sg):
        C = self.C; al = self.S.opt['alpha']
        d = lambda a, b: a.add(b, poly(-1))
        nat = natural(C, X['z'], X['l'], X['v'], X['y'])
        vi, wi, yi = elem(X['v'], PIDX), elem(XB['v'], PIDX), elem(X['y'], PIDX)
        return dict(z=nat['z'].add(d(X['z'], XB['z']).scale(sg)), l=nat['l'].add(d(X['l'], XB['l']).scale(sg)),
                    v=elemwise(phi_pfb(yi + sg * (vi - wi), vi, al), poly(self.S.nv)))
    def inner2(self, X, XB, sg):
        r = self.inner(X, XB, sg)
        return sumsq(r['z']) + sumsq(r['l']) + sumsq(r['v'])
    def margin(self, X): return self.C.b.add(self.C.A.mul(X['z']), poly(-1))
    def tol(self):
        o = self.S.opt
        return o['abs_tol'] + o['rel_tol'] * (ONE + self.C.wn)
    # ------------------------------------------------------ loops
    def content(self, loc, st): return self.h.content(loc, st)
    def obj(self, loc, st):
        """z, l, v, y of a variable object (or z, l, v of a residual)"""
        out = {}
        saved = self.e.st; self.e.st = st
        try:
            for q in 'zlvy':
                try: v = self.C.field(self.e, loc, q, self.h.node())
                except Broken: continue
                out[q] = full(self.e.mat(v, None))
        finally: self.e.st = saved
        return out
    def subX(self, X, sub): return {q: sub.mat(m) for q, m in X.items()}

def has_inds(p): return any(a.kind == 'ind' for a in p.atoms())
def as_flag(p, k):
    """the condition under which a case-valued integer equals k"""
    return eq(p, poly(k))

def runs(ck, P, quick, thorough):
    """yield (kind, options) of the solver calls to analyse"""
    return thorough if ck.tier == 'thorough' else quick
QUICK = [('dense', {}), ('mpc', dict(N=1, ref_data=True, ref_var=True))]
THOROUGH = [(k, dict(N=n, ref_data=d, ref_var=v)) for k, n in (('dense', 1), ('mpc', 1), ('mpc', 2)) for d in (False, True) for v in (False, True)]
def all_runs(ck, P, rule, fn, **kw):
    for kind, o in (THOROUGH if ck.tier == 'thorough' else QUICK):
        def go():
            R = Run(P, kind, **dict(o, **kw))
            fn(ck, P, R)
            ck.saw(R.e)
        ck.attempt(rule, 'FBstab%s::Solve %s' % (kind.capitalize(), o or ''), go)

# ---------------------------------------------------------- implications
def implied_by(fs, goal_of, extra=()):
    """facts fs entail a disjunction of goals: goal_of(literal) -> (value of
    the disjunction given the literal true, given it false), each True or None.
    Decided by enumerating the literals of one fact at a time."""
    for f in fs:
        ls = literals(f)
        if len(ls) > 10: continue
        cl = {l: goal_of(l) for l in ls}
        if not any(a or b for a, b in cl.values()): continue
        good = True
        for m in range(1 << len(ls)):
            val = {l: bool(m >> i & 1) for i, l in enumerate(ls)}
            if not feval(f, val): continue
            if not any((cl[l][0] if val[l] else cl[l][1]) for l in ls): good = False; break
        if good: return f
    return None

def cond_of(xs):
    """a condition some expression is split on at its outermost level"""
    for x in xs:
        ps = [x] if isinstance(x, Poly) else list(x.t.values())
        for p in ps:
            for a in p.atoms():
                if a.kind == 'ind': return literals(a.args[0])[0]
                if a.kind in ('def', 'sqrt'):
                    r = cond_of([a.args[0]])
                    if r is not None: return r
    return None
def cases(xs, facts, depth=0):
    """split on the outermost conditions of the expressions:
    [(expressions, facts, conditions)] for every case the facts allow"""
    c = cond_of(xs) if depth < 8 else None
    if c is None: return [(xs, facts, ())]
    out = []
    for v in (True, False):
        g = c if v else fnot(c)
        if facts.decide(g) is False: continue
        s = Subst(None, None, {c: TRUE if v else FALSE})
        ys = [s.any(x) for x in xs]
        if ys == list(xs): return [(xs, facts, ())]
        out += [(a, b, (g,) + k) for a, b, k in cases(ys, facts.add(g), depth + 1)]
    return out

# ------------------------------------------------------- entailment
def entails(fs, goal, maxlits=16):
    """do the facts entail the goal?  Propositional over the comparisons that
    occur, with the signs of one difference kept consistent and equalities
    between two compared quantities substituted.  True / False / None"""
    def key(l): return l if l.op == 'b' else alg._normp(l.a[0], True)
    keys = lambda f: {key(l) for l in literals(f)}
    ls = keys(goal)
    rel_ = []
    more = True
    pool = [f for f in fs if f.op in ('or', 'and', 'not', 'b', 'le', 'lt', 'eq')]
    while more:
        more = False
        for f in list(pool):
            g = keys(f)
            if g & ls and len(g | ls) <= maxlits:
                rel_.append(f); pool.remove(f)
                if not g <= ls: more = True
                ls |= g
    return _unsat(rel_ + [fnot(goal)], [0], [(f.a[0], {'lt': -1, 'le': None, 'eq': 0}[f.op]) for f in fs if f.op in ('lt', 'le', 'eq')])
def _diff2(l):
    """a comparison of two atoms a - b"""
    if l.op not in ('lt', 'le', 'eq'): return None
    p = l.a[0]
    if len(p.t) != 2: return None
    it = [(m, c) for m, c in p.t.items()]
    if all(len(m) == 1 and m[0][1] == 1 for m, c in it) and it[0][1] == -it[1][1]:
        return it[0][0][0][0], it[1][0][0][0]
    return None
def feasible(cs, most=4000):
    """can these comparisons of polynomials with 0 (sign -1, 0, 1, or None for
    not above) hold together, every monomial taken as a real quantity of its own
    with the sign its factors give it?  (None: not settled)"""
    con = []; mons = set()
    for p, s in cs:
        if s == 1: p = -p
        t = dict(p.t)
        con.append((t, s in (-1, 1)))
        if s == 0: con.append(({m: -c for m, c in t.items()}, False))
        mons |= {m for m in t if m}
    for m in mons:
        if all(e % 2 == 0 or alg.nonneg_atom(alg._list[a]) for a, e in m):
            con.append(({m: -1}, all(alg._list[a].sign == '>0' for a, e in m)))
    while True:
        nxt = []
        for t, st in con:
            t = {m: c for m, c in t.items() if c}
            if not any(m for m in t):
                c = t.get((), 0)
                if c > 0 or (c == 0 and st): return False
            else: nxt.append((t, st))
        con = nxt
        cnt = {}
        for t, st in con:
            for m, c in t.items():
                if m: cnt.setdefault(m, [0, 0])[c > 0] += 1
        if not cnt: return True
        m = min(cnt, key=lambda k: cnt[k][0] * cnt[k][1])
        if len(con) + cnt[m][0] * cnt[m][1] > most: return None
        keep = [x for x in con if m not in x[0]]; seen = set()
        for a, sa in con:
            if a.get(m, 0) <= 0: continue
            for b, sb in con:
                if b.get(m, 0) >= 0: continue
                t = {}
                for k in set(a) | set(b):
                    c = Fraction(a.get(k, 0)) / a[m] - Fraction(b.get(k, 0)) / b[m]
                    if c: t[k] = c
                k = (frozenset(t.items()), sa or sb)
                if k not in seen: seen.add(k); keep.append((t, sa or sb))
        con = keep
def _unsat(fs, n, tr):
    """True if the conjunction is contradictory"""
    n[0] += 1
    if n[0] > 6000: return None
    fs = [f for f in fs if f.op != 'T']
    if any(f.op == 'F' for f in fs): return True
    if not fs:
        f = feasible(tr)
        return None if f is None else not f
    lits = []
    for f in fs:
        for l in literals(f):
            if l not in lits: lits.append(l)
    # unit facts first
    for f in fs:
        if f.op == 'not' and f.a[0].op in ('le', 'lt', 'eq', 'b'): pick, vals = f.a[0], [False]; break
        if f.op in ('le', 'lt', 'eq', 'b'): pick, vals = f, [True]; break
    else:
        pick = next((l for l in lits if _diff2(l)), None) or max(lits, key=lambda l: sum(l in literals(f) for f in fs))
        vals = [True, False]
    d = _diff2(pick)
    key = alg._normp(pick.a[0], True) if pick.op != 'b' else None
    res = True
    cases_ = []
    if key is None: cases_ = [({pick: v}, None, None) for v in vals]
    else:
        sg = 1 if alg._lead(pick.a[0])[1] > 0 else -1
        for v in vals:
            for s in (-1, 0, 1):
                t = s * sg
                if (t < 0 if pick.op == 'lt' else t <= 0 if pick.op == 'le' else t == 0) != v: continue
                asg = {}
                for l in lits:
                    if l.op != 'b' and alg._normp(l.a[0], True) == key:
                        u = s * (1 if alg._lead(l.a[0])[1] > 0 else -1)
                        asg[l] = u < 0 if l.op == 'lt' else u <= 0 if l.op == 'le' else u == 0
                cases_.append((asg, d if s == 0 else None, t))
    for asg, same, sgn in cases_:
        T = {k: TRUE if v else FALSE for k, v in asg.items()}
        g = [tsub(f, T) for f in fs]
        if same is not None:
            sb = Subst({same[0]: poly(alg._list[same[1]])})
            g = [sb.f(f) for f in g]
        r = _unsat(g, n, tr if sgn is None else tr + [(pick.a[0], sgn)])
        if r is False: return False
        if r is None: res = None
    return res
def tsub(f, T):
    if f in T: return T[f]
    if f.op == 'not': return fnot(tsub(f.a[0], T))
    if f.op == 'and': return fand(*[tsub(x, T) for x in f.a])
    if f.op == 'or': return for_(*[tsub(x, T) for x in f.a])
    return f
