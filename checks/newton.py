"""The Newton system: generalized gradient, factor relations, and the check
that a step satisfies the linearised subproblem (an identity of words in the
problem's matrices and the triangular factors)."""
from linear import *
from c08 import mpc_ops
import time
START = time.time()

class Gradient:
    """recognises the elements gamma, mu = m + sigma*gamma of the generalized
    gradient of the penalized Fischer-Burmeister function at (a, v), entrywise"""
    def __init__(self, L):
        self.L = L; E = L.E
        n = poly(E.nv)
        self.lg = sym('in', 'gam', rows=n, cols=ONE, name='gamma'); self.lm = sym('in', 'mu', rows=n, cols=ONE, name='mu')
        self.wa = self.word(L.a); self.wv = self.word(L.val['x']['v']); self.wb = self.word(L.val['xbar']['v'])
        self.A, self.V = elem(L.a, PIDX), elem(L.val['x']['v'], PIDX)
        self.r = mk_sqrt(self.A * self.A + self.V * self.V)
        self.al, self.sg = L.al, L.sg
        self.memo = {}; self.unmatched = set(); self.small = []
    def word(self, m):
        (w, c), = m.t.items(); return w
    def at(self, l, off): return poly(atom('el', (l,), PIDX + off))
    # ------------------------------------------------------- specification
    def spec(self, sa, sv, small):
        """the accepted pairs (gamma, mu) for the given signs of a and v"""
        al, sg = self.al, self.sg
        A, V = (self.A if sa else ZERO), (self.V if sv else ZERO)
        if small:
            g = al * (ONE - inv(mk_sqrt(poly(2))))
            return [(g, g + sg * g)]
        if not sa and not sv: return []
        r = mk_sqrt(A * A + V * V)
        g, m = al * (ONE - A / r), al * (ONE - V / r)
        out = []
        # at a = 0 or v = 0 both one-sided derivatives of the product are allowed
        for pa in ((0, 1) if not sa else (sa > 0,)):
            for pv in ((0, 1) if not sv else (sv > 0,)):
                e = 1 if pa and pv else 0
                gg, mm = g + e * (ONE - al) * V, m + e * (ONE - al) * A
                out.append((gg, mm + sg * gg))
        return out
    def truth(self, l, sa, sv, small):
        """value of a comparison for the given signs (None unknown)"""
        if l.op not in ('lt', 'le', 'eq'): return None
        p = l.a[0]
        k = self.smallness(l)
        if k is not None: return small if k else not small
        if len(p.t) != 1: return None
        (m, c), = p.t.items()
        s = 1 if c > 0 else -1
        for a, e in m:
            x = poly(alg._list[a])
            t = sa if x == self.A else sv if x == self.V else None
            if t is None:
                if alg.nonneg_atom(alg._list[a]) and alg._list[a].sign == '>0': t = 1
                else: return None
            s *= t ** (abs(e))
        return s < 0 if l.op == 'lt' else s <= 0 if l.op == 'le' else s == 0
    def smallness(self, l):
        """True: the literal says that (a, v) is within a tiny distance of 0;
        False: that it is not; None: something else"""
        p = l.a[0]
        c = p.t.get((), 0)
        q = p - poly(c)
        for base, lim in ((self.r, 1e-6), (self.r * self.r, 1e-12)):
            for s in (1, -1):
                k = self._ratio(q, base)
                if k is None: continue
                t = -c / k                      # base compared with t
                if l.op == 'eq': return True if t == 0 else None
                if not 0 <= t <= lim: return None
                return k > 0
        return None
    def _ratio(self, q, b):
        if not q.t or len(q.t) != len(b.t): return None
        (m, c) = next(iter(b.t.items()))
        if m not in q.t: return None
        k = alg.qd(q.t[m], c)
        return k if not (q - b * poly(k)).t else None
    # ------------------------------------------------------- recognition
    FORMS = [(1, 0), (0, 1), (1, -1), (0, -1), (-1, 0), (-1, 1)]
    def classify(self, p):
        """(i, j, sign) with p = sign * gamma^i mu^j in every case, else None;
        p depends on the entries @ of a and v"""
        live = list(self.FORMS); signs = {f: None for f in live}
        ls = []
        self._lits(p, ls)
        n = 0
        for small in (False, True):
            for sa in (-1, 0, 1):
                for sv in (-1, 0, 1):
                    if not small and not sa and not sv: continue
                    tr = {}
                    for l in ls:
                        t = self.truth(l, sa, sv, small)
                        if t is None: return None
                        tr[l] = TRUE if t else FALSE
                    at = {}
                    if not sa: at[self.A.atoms()[0].id] = ZERO
                    if not sv: at[self.V.atoms()[0].id] = ZERO
                    if not sa and not sv and self._singular(p, tr): at = {}
                    q = Subst(None, None, tr).poly(p)
                    if at: q = Subst(at).poly(q)
                    for f in list(live):
                        ok = None
                        for g, m in self.spec(sa, sv, small):
                            for s in ((1, -1) if signs[f] is None else (signs[f],)):
                                i, j = f
                                lhs = q * (g ** -i if i < 0 else ONE) * (m ** -j if j < 0 else ONE)
                                rhs = (g ** i if i > 0 else ONE) * (m ** j if j > 0 else ONE)
                                if self._same(lhs, rhs * s, sa, sv): ok = s; break
                            if ok: break
                        if ok: signs[f] = ok
                        else: live.remove(f)
                    if not live: return None
        return live[0] + (signs[live[0]],)
    def _singular(self, p, tr): return True
    def _same(self, a, b, sa, sv):
        d = a - b
        if not d.t: return True
        # |a| for the sign of a, when the other one vanishes
        ab = {}
        for x in d.atoms(): ab[x.id] = x
        ass = []
        for v, s in ((self.A, sa), (self.V, sv)):
            if s > 0: ass.append(lt(ZERO, v))
            elif s < 0: ass.append(lt(v, ZERO))
        q = self._sqrt_signs(d, sa, sv)
        return zero_test(q, ass) is True
    def _sqrt_signs(self, d, sa, sv):
        """sqrt(a^2) = |a| for the known sign"""
        m = {}
        def visit(p):
            for x in p.atoms():
                if x.kind == 'sqrt':
                    q = x.args[0]
                    if q == self.A * self.A and sa: m[x.id] = self.A * sa
                    elif q == self.V * self.V and sv: m[x.id] = self.V * sv
                for y in x.args:
                    if isinstance(y, Poly): visit(y)
        visit(d)
        return Subst(m).poly(d) if m else d
    def _lits(self, x, out):
        if isinstance(x, Poly):
            for a in x.atoms():
                for y in a.args: self._lits(y, out)
        elif isinstance(x, F):
            for l in literals(x):
                if l not in out: out.append(l)
    def offset(self, p):
        """@ + off of the entries of a and v in p (None when not of this kind)"""
        offs = set()
        def visit(q):
            for x in q.atoms():
                if x.kind == 'el':
                    if x.args[0] not in (self.wa, self.wv): return False
                    offs.add(x.args[1] - PIDX)
                else:
                    for y in x.args:
                        if isinstance(y, Poly) and not visit(y): return False
                        if isinstance(y, F) and not all(visit(l.a[0]) if isinstance(l.a[0], Poly) else False for l in literals(y)): return False
            return True
        if not visit(p) or len(offs) != 1: return None
        return offs.pop()
    def candidate(self, p):
        """built from the entries of a and v only"""
        at, ls = set(), set()
        ok = {s.id for s in self.wa + self.wv}
        stack = list(p.atoms()); done = set()
        while stack:
            a = stack.pop()
            if a.id in done: continue
            done.add(a.id)
            if a.kind == 'el' and a.args[0] not in (self.wa, self.wv, self.wb): return False
            if a.kind in ('sum', 'Sum', 'extr', 'norminf', 'bil'): return False
            for y in a.args:
                if isinstance(y, Poly): stack += y.atoms()
                elif isinstance(y, F):
                    for l in literals(y):
                        if isinstance(l.a[0], Poly): stack += l.a[0].atoms()
                        else: return False
        return True
    def match(self, p):
        """a scalar of index @ as a power product of gamma and mu, or None"""
        if p in self.memo: return self.memo[p]
        r = None
        if not self.candidate(p): self.memo[p] = None; return None
        q = unfold(p)
        off = self.offset(q)
        if off is not None and not alg._has_idx(off):
            q0 = Subst({alg.IDX.id: PIDX - off}).poly(q)
            c = self.classify(q0)
            if c is not None:
                i, j, s = c
                g, m = self.at(self.lg, off), self.at(self.lm, off)
                r = poly(s) * (g ** i if i >= 0 else inv(g ** -i)) * (m ** j if j >= 0 else inv(m ** -j))
        self.memo[p] = r
        return r

class Conv(Subst):
    """names gamma and mu, and unfolds abbreviations: everywhere (deep) or
    only inside factors and inverses"""
    def __init__(self, G, deep): Subst.__init__(self); self.G = G; self.deep = deep; self.inner = self if deep else Conv(G, True)
    def __bool__(self): return True
    def _atom(self, a):
        if a.kind == 'def':
            r = self.G.match(poly(a))
            if r is not None: return r
            return self.poly(a.args[0])
        return Subst._atom(self, a)
    def _letter(self, s):
        if s.kind == 'vdef' and not self.deep: return None
        if s.kind == 'vdef': return self.mat(s.args[0])
        if not self.deep and s.kind in ('chol', 'inv', 'tril', 'symlow', 'mat'):
            return self.inner.letter(s)
        return Subst._letter(self, s)

class Words:
    """rewriting of words with the relations of the factors that occur"""
    def __init__(self, G): self.G = G; self.top = Conv(G, False); self.rules = {}; self.seen = set(); self.cache = {}; self.end = START + 400
    def conv(self, m): return self.learn(self.top.mat(m))
    def learn(self, m):
        """find the factors in m and orient their relations"""
        at, ls = set(), set()
        new = []
        stack = [s for w in m.t for s in w]
        els = []
        for c in m.t.values(): els += c.atoms()
        done = set()
        while stack or els:
            if els:
                a = els.pop()
                if ('a', a.id) in done: continue
                done.add(('a', a.id))
                for y in a.args:
                    if isinstance(y, Poly): els += y.atoms()
                    elif isinstance(y, tuple): stack += [s for s in y if isinstance(s, Sym)]
                continue
            s = stack.pop()
            if s.id in done: continue
            done.add(s.id)
            if s.kind in ('chol', 'inv') and s.id not in self.seen:
                self.seen.add(s.id); new.append(s)
            for y in s.args:
                if isinstance(y, Sym): stack.append(y)
                elif isinstance(y, Mat):
                    stack += [t for w in y.t for t in w]
                elif isinstance(y, Poly): els += y.atoms()
        for s in new: self.rule(s)
        return m
    def rule(self, s):
        if s.kind == 'chol':
            m = s.args[0]
            i = alg.inv_sym(s)
            tail = (tr(i), i)
            if len(m.t) == 1 and next(iter(m.t))[:1] and next(iter(m.t))[0].kind == 'symlow': return
            lead = self.lead(m, lambda w: True)
            if lead is None: return
            c = m.t[lead]
            rest = Mat({w: v for w, v in m.t.items() if w != lead}, m.rows, m.cols)
            self.add(lead + tail, ident(m.rows).add(self.times(rest, tail), poly(-1)).scale(inv(c)))
        elif s.kind == 'inv' and s.args[0].kind == 'mat':
            m = s.args[0].args[0]
            tail = (s,)
            blocks = {}
            for w, c in m.t.items():
                q = w[0].args[0] if w and w[0].kind == 'T' and w[0].args[0].kind == 'sel' else None
                blocks.setdefault(q, {})[w[1:] if q is not None else w] = c
            for q, t in blocks.items():
                mq = Mat(t, q.rows if q is not None else m.rows, m.cols)
                lead = self.lead(mq, lambda w: True)
                if lead is None: continue
                c = mq.t[lead]
                rest = Mat({w: v for w, v in mq.t.items() if w != lead}, mq.rows, mq.cols)
                one = mat_of(q) if q is not None else ident(m.rows)
                self.add(lead + tail, one.add(self.times(rest, tail), poly(-1)).scale(inv(c)))
    def times(self, m, tail):
        r = m
        for t in tail: r = r.mul(mat_of(t))
        return r
    def lead(self, m, ok):
        """the term to eliminate: an input matrix of the problem, as short as
        possible, but not one built with earlier factors when a later one is"""
        best = None
        for w in m.t:
            if not w or not any(s.kind in ('in', 'mapblk') or (s.kind == 'T' and s.args[0].kind in ('in', 'mapblk')) for s in w): continue
            if any(s.kind == 'diag' for s in w): continue
            if m.t[w].const() is None: continue
            inner = max([s.id for s in self.factors(w)] or [0])
            k = (-inner if any(True for s in self.factors(w)) and not self.plain(m) else 0, len(w))
            if best is None or k < best[0]: best = (k, w)
        return best[1] if best else None
    def plain(self, m):
        """is there a term that is a bare problem matrix?"""
        return any(w and all(s.kind in ('in', 'mapblk', 'sel') for s in w) for w in m.t)
    def factors(self, w):
        for s in w:
            t = s.args[0] if s.kind == 'T' else s
            if t.kind == 'inv' and isinstance(t.args[0], Sym): yield t
    def add(self, pat, repl):
        self.rules.setdefault(pat[0].id, []).append((pat, repl)); self.cache = {}
    # ---------------------------------------------------------- rewriting
    def find(self, w):
        for i, s in enumerate(w):
            for pat, repl in self.rules.get(s.id, ()):
                if w[i:i + len(pat)] == pat: return i, pat, repl
        return None
    def word(self, w, depth=0):
        r = self.cache.get(w)
        if r is None:
            f = self.find(w)
            if f is None: r = False
            else:
                i, pat, repl = f
                m = repl
                for s in reversed(w[:i]): m = mat_of(s).mul(m)
                for s in w[i + len(pat):]: m = m.mul(mat_of(s))
                r = self.reduce(m, depth + 1)
            self.cache[w] = r
        return r
    def reduce(self, m, depth=0):
        if time.time() > self.end: raise Broken('the rewriting of this row did not finish in time')
        if depth > 60: raise Broken('rewriting of the factor relations does not end')
        out = {}; more = None
        for w, c in m.t.items():
            r = self.word(w, depth)
            if r is False:
                v = out.get(w, ZERO) + c
                out[w] = v
            else:
                for w2, c2 in r.t.items():
                    out[w2] = out.get(w2, ZERO) + c2 * c
        return Mat({w: c for w, c in out.items() if c.t}, m.rows, m.cols)
    def zero(self, m, limit=400):
        """is m zero modulo the relations?  (True / False, what is left)"""
        m = self.reduce(self.conv(m))
        for _ in range(limit):
            m = self.reduce(self.learn(m))
            vs = set()
            self.vdefs(m, vs)
            if not m.t or not vs: break
            s = max(vs, key=lambda s: s.id)
            m = Subst(None, {s.id: self.conv(s.args[0])}).mat(m)
        if m.t:
            # abbreviated scalars and products of entries
            m = self.reduce(Conv(self.G, True).mat(m))
        r = True if not m.t else mat_zero_test(m)
        return r, m
    def vdefs(self, m, out):
        for w, c in m.t.items():
            for s in w: self._vd(s, out)
            for a in c.atoms(): self._va(a, out)
    def _vd(self, s, out):
        if s.kind == 'vdef': out.add(s); return
        if s.kind == 'T': return self._vd(s.args[0], out)
        if s.kind in ('ew', 'diag'):
            for a in s.args[0].atoms(): self._va(a, out)
    def _va(self, a, out):
        for x in a.args:
            if isinstance(x, tuple):
                for s in x:
                    if isinstance(s, Sym): self._vd(s, out)
            elif isinstance(x, Poly):
                for b in x.atoms(): self._va(b, out)

def operators(E):
    """name -> function from a vector to [(part, offset, length, vector)]"""
    if E.kind == 'dense':
        one = lambda M, n: (lambda x: [('', ZERO, n, M.mul(x))])
        return dict(H=one(E.H, E.nz), G=one(E.G, E.nl), A=one(E.A, E.nv), GT=one(E.G.T(), E.nz), AT=one(E.A.T(), E.nz)), [('', ZERO, E.nv, E.b)]
    ops, vecs = mpc_ops(E)
    return {k: ops[m][2] for k, m in dict(H='gemvH', G='gemvG', A='gemvA', GT='gemvGT', AT='gemvAT').items()}, vecs['axpyb'][1]

def system(L, G, d):
    """the rows of the Newton system at the step d: [(name, residual vector)]"""
    E = L.E
    ops, b = operators(E)
    r = L.val['r']; sg = L.sg
    out = []
    Hz, Gl = ops['H'](d['z']), ops['GT'](d['l'])
    Adz = ops['A'](d['z'])
    gam = lambda off: poly(atom('el', (G.lg,), PIDX + off)); mu = lambda off: poly(atom('el', (G.lm,), PIDX + off))
    # complementarity rows determine dv; stationarity is then checked with the
    # dv they determine
    parts = []
    for (nm, off, n, w), (_, _, _, bb) in zip(Adz, b):
        rv, dv, dy = window(r['v'], off, n), window(d['v'], off, n), window(d['y'], off, n)
        out.append(('complementarity', nm, ('ew', [(mu(off), dv), (-gam(off), w), (poly(-1), rv)], n)))
        out.append(('margin', nm, dy.add(w).add(bb, poly(-1))))
        g = alg.diag_of(gam(off) / mu(off), poly(n)); q = alg.diag_of(inv(mu(off)), poly(n))
        parts.append((off, n, g.mul(w).add(q.mul(rv))))
    dv = zeros(E.nv, ONE)
    for off, n, w in parts: dv = dv.add(sel(poly(off), poly(n), poly(E.nv)).T().mul(w))
    for (nm, off, n, a), (_, _, _, g), (_, _, _, c) in zip(Hz, Gl, ops['AT'](dv)):
        t = a.add(window(d['z'], off, n).scale(sg)).add(g).add(c).add(window(r['z'], off, n), poly(-1))
        out.append(('stationarity', nm, t))
    for nm, off, n, g in ops['G'](d['z']):
        out.append(('equality', nm, window(d['l'], off, n).scale(sg).add(g, poly(-1)).add(window(r['l'], off, n), poly(-1))))
    return out

def ew_rows(W, parts, n):
    """sum of coefficient(@) * vector, entrywise, modulo the relations"""
    p = ZERO
    for c, v in parts: p = p + c * elem(W.top.mat(v), PIDX)
    return p
