"""Value domain of the analysis: a canonical algebra of scalars (polynomials
over interned atoms), formulas, and (block) vectors/matrices (linear
combinations of non-commutative words)."""
from fractions import Fraction
from functools import lru_cache

EMPTY = frozenset()
def qn(x):
    """coefficients are int when integral"""
    return x.numerator if x.denominator == 1 else x
def qd(a, b): return qn(Fraction(a) / b)

# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'deps', 'isint', 'sign', 'name', 'info')
    def __repr__(self):
        return self.name

_atoms = {}
_list = []

def _deps_of(a):
    d = EMPTY
    for x in a:
        if isinstance(x, (Poly, Atom, F)):
            if x.deps: d = d | x.deps
        elif isinstance(x, (Sym, Mat)):
            if x.deps: d = d | x.deps
        elif isinstance(x, tuple):
            y = _deps_of(x)
            if y: d = d | y
    return d

def short_name(n, kind, i):
    # names are only for reports; long ones would grow exponentially
    return n if len(n) <= 240 else '%s#%s' % (kind, i)

def atom(kind, *args, deps=EMPTY, isint=False, sign=None, name=None, info=None):
    """sign: None unknown, '>=0', '>0'"""
    k = (kind,) + args
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = len(_list)
        a.kind = kind; a.args = args
        a.deps = deps | _deps_of(args)
        a.isint = isint; a.sign = sign
        a.name = short_name(name or (kind + ('(' + ','.join(str(x) for x in args) + ')' if args else '')), kind, a.id)
        a.info = info
        _atoms[k] = a; _list.append(a)
    return a

# ------------------------------------------------------------------ Poly
class Poly:
    __slots__ = ('t', '_h', '_d', '_s')
    def __init__(self, terms):
        self.t = terms
        self._h = None; self._d = None; self._s = None
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t
    @property
    def deps(self):
        if self._d is None:
            d = EMPTY
            for m in self.t:
                for a, _ in m:
                    x = _list[a].deps
                    if x: d = d | x
            self._d = d
        return self._d
    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m: s.add(a)
        return [_list[a] for a in s]
    def const(self):
        if not self.t: return 0
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def isint(self):
        return all(c.denominator == 1 for c in self.t.values()) and all(a.isint for a in self.atoms())
    def __add__(self, o):
        o = poly(o)
        if len(self.t) < len(o.t): self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None: r[m] = c
            else:
                v = v + c
                if v: r[m] = v
                else: del r[m]
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-poly(o))
    def __rsub__(self, o): return poly(o) + (-self)
    def __mul__(self, o):
        o = poly(o)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in _mulmono(m1, m2).items():
                    v = r.get(m, 0) + c * c1 * c2
                    if v: r[m] = v
                    else: r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__
    def __truediv__(self, o): return self * inv(poly(o))
    def __pow__(self, n):
        r = ONE
        for _ in range(n): r = r * self
        return r
    def __str__(self):
        if self._s is None:
            if not self.t: self._s = '0'
            else:
                out = []
                for m, c in sorted(list(self.t.items())[:40], key=lambda x: [(_list[a].name, e) for a, e in x[0]]):
                    f = '*'.join(_list[a].name + ('' if e == 1 else '^%d' % e) for a, e in m)
                    if not m: s = _num(c)
                    elif c == 1: s = f
                    elif c == -1: s = '-' + f
                    else: s = _num(c) + '*' + f
                    out.append(s)
                if len(self.t) > 40: out.append('...(%d terms)' % len(self.t))
                self._s = ' + '.join(out).replace('+ -', '- ')
        return self._s
    __repr__ = __str__
    def skey(self): return sorted(self.t.items())

def _num(c):
    if c.denominator == 1: return str(c.numerator)
    f = float(c)
    return repr(f)

def poly(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x.id, 1),): 1})
    if x is True or x is False: x = int(x)
    if isinstance(x, (int, Fraction)): return Poly({(): qn(x)}) if x else ZERO
    if isinstance(x, float): return poly(Fraction(repr(x)))
    raise TypeError(repr(x))

ZERO = Poly({})
ONE = Poly({(): 1})

@lru_cache(maxsize=200000)
def _mulmono_raw(m1, m2):
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v: d[a] = v
        else: del d[a]
    extra = None
    for a in list(d):
        at = _list[a]
        e = d[a]
        if at.kind == 'ind' and e > 1: d[a] = 1
        elif at.kind == 'sqrt' and (e >= 2 or e <= -2):
            q = abs(e) // 2
            r = abs(e) - 2 * q
            if r: d[a] = r if e > 0 else -r
            else: del d[a]
            p = at.args[0] ** q
            if e < 0: p = inv(p)
            extra = p if extra is None else extra * p
    # an atom and the formal inverse of the same polynomial cancel elsewhere
    return tuple(sorted(d.items())), extra

def _mulmono(m1, m2):
    if not m1: return {m2: 1}
    if not m2: return {m1: 1}
    m, ex = _mulmono_raw(m1, m2)
    if ex is None: return {m: 1}
    return (Poly({m: 1}) * ex).t

def inv(p):
    if not p.t: return poly(atom('inv', p))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly({(): qd(1, c)})
        for a, e in m:
            at = _list[a]
            if at.kind == 'inv' and e == 1: r = r * at.args[0]
            elif at.kind == 'ind': r = r * poly(atom('inv', poly(at)))
            else: r = r * Poly({((a, -e),): 1})
        return r
    # factor numeric content
    k = _lead(p)[1]
    q = Poly({m: qd(c, k) for m, c in p.t.items()})
    return poly(atom('inv', q)) * qd(1, k)

def _lead(p):
    m = min(p.t, key=lambda m: (len(m) == 0, m))
    return m, p.t[m]

def mk_sqrt(p):
    c = p.const()
    if c is not None:
        if c >= 0:
            from math import isqrt
            n, d = c.numerator, c.denominator
            if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d: return poly(Fraction(isqrt(n), isqrt(d)))
    if len(p.t) == 1 and c is None:
        (m, c), = p.t.items()
        if c > 0 and all(e % 2 == 0 and (nonneg_atom(_list[a])) for a, e in m):
            r = ONE
            for a, e in m:
                r = r * Poly({((a, e // 2),): 1})
            if c != 1: r = r * mk_sqrt(poly(c))
            return r
    return poly(atom('sqrt', p, sign='>0' if p.const() is not None and p.const() > 0 else '>=0', name='sqrt(%s)' % p))

def nonneg_atom(a):
    return a.sign in ('>=0', '>0') or a.kind in ('sqrt', 'ind')

def subst(p, f):
    """f: Atom -> Poly or None (recursively rebuilt by rebuild_atom)."""
    cache = {}
    # a new index: letters and sums bind their own @ and stay as they are
    shift = f(IDX) is not None
    def go_atom(a):
        if a.id in cache: return cache[a.id]
        r = f(a)
        if r is None:
            if shift and not has_idx_atom(a): r = poly(a)
            elif shift and a.kind == 'el': r = el_word(a.args[0], go_poly(a.args[1]))
            else: r = rebuild(a, f, go_poly)
        cache[a.id] = r
        return r
    def go_poly(q):
        if not q.t: return q
        ch = False
        for a in q.atoms():
            r = go_atom(a)
            if not (len(r.t) == 1 and ((a.id, 1),) in r.t and r.t[((a.id, 1),)] == 1): ch = True
        if not ch: return q
        out = ZERO
        for m, c in q.t.items():
            x = Poly({(): c})
            for a, e in m:
                r = cache[a]
                if e > 0: x = x * (r ** e)
                else: x = x * inv(r ** (-e))
            out = out + x
        return out
    return go_poly(p)

def rebuild(a, f, gp):
    """rebuild a composite atom under substitution of scalars."""
    k = a.kind
    if not any(isinstance(x, (Poly, F, Sym, tuple)) for x in a.args): return poly(a)
    if k == 'sqrt': return mk_sqrt(gp(a.args[0]))
    if k == 'inv': return inv(gp(a.args[0]))
    if k == 'ind': return ind(fsubst(a.args[0], gp))
    if k == 'el':
        w, i = a.args
        w2 = tuple(symsubst(s, gp) for s in w)
        return el_word(w2, gp(i))
    if k in ('sum', 'Sum', 'bil', 'fn', 'rec', 'norminf', 'extr'):
        na = tuple(_gen_subst(x, gp) for x in a.args)
        if na == a.args: return poly(a)
        if k == 'bil': return bil(na[0])
        return poly(atom(k, *na, isint=a.isint, sign=a.sign, deps=EMPTY))
    na = tuple(_gen_subst(x, gp) for x in a.args)
    if na == a.args: return poly(a)
    if k == 'def': return mk_def(na[0])
    return poly(atom(k, *na, isint=a.isint, sign=a.sign, info=a.info))

def _gen_subst(x, gp):
    if isinstance(x, Poly): return gp(x)
    if isinstance(x, F): return fsubst(x, gp)
    if isinstance(x, Sym): return symsubst(x, gp)
    if isinstance(x, tuple): return tuple(_gen_subst(y, gp) for y in x)
    return x

def subst_atoms(p, mp):
    """mp: dict Atom-id -> Poly"""
    if not mp: return p
    return subst(p, lambda a: mp.get(a.id))

# ------------------------------------------------------------------ formulas
class F:
    __slots__ = ('op', 'a', '_h', '_d', '_n')
    def __init__(self, op, a):
        self.op = op; self.a = a; self._h = None; self._d = None; self._n = None
    def __hash__(self):
        if self._h is None: self._h = hash((self.op, self.a))
        return self._h
    def __eq__(self, o): return self is o or (isinstance(o, F) and self.op == o.op and hash(self) == hash(o) and self.a == o.a)
    @property
    def deps(self):
        if self._d is None:
            d = EMPTY
            for x in self.a:
                if isinstance(x, (F, Poly, Atom)) and x.deps: d = d | x.deps
            self._d = d
        return self._d
    def __str__(self):
        o = self.op
        if o == 'T': return 'true'
        if o == 'F': return 'false'
        if o == 'not': return '!(%s)' % self.a[0]
        if o == 'and': return '(' + ' && '.join(map(str, self.a)) + ')'
        if o == 'or': return '(' + ' || '.join(map(str, self.a)) + ')'
        if o == 'b': return str(self.a[0])
        return '%s %s 0' % (self.a[0], {'lt': '<', 'le': '<=', 'eq': '=='}[o])
    __repr__ = __str__

TRUE = F('T', ()); FALSE = F('F', ())

def fnot(f):
    if f._n is None: f._n = _fnot(f)
    return f._n
def _fnot(f):
    if f is TRUE or f.op == 'T': return FALSE
    if f.op == 'F': return TRUE
    if f.op == 'not': return f.a[0]
    if f.op in ('lt', 'le') and f.a[0].isint():
        if f.op == 'lt': return cmp_('le', -f.a[0])
        return cmp_('lt', -f.a[0])
    if f.op == 'and': return for_(*[fnot(x) for x in f.a])
    if f.op == 'or': return fand(*[fnot(x) for x in f.a])
    return F('not', (f,))

def fand(*fs):
    out = []
    for f in fs:
        if f.op == 'T': continue
        if f.op == 'F': return FALSE
        for g in (f.a if f.op == 'and' else (f,)):
            if g not in out: out.append(g)
    for g in out:
        if fnot(g) in out: return FALSE
    # a && (!a || b)  ->  a && b
    if len(out) > 1:
        for i, g in enumerate(out):
            if g.op == 'or':
                r = [x for x in g.a if fnot(x) not in out]
                if len(r) < len(g.a): return fand(*(out[:i] + [for_(*r)] + out[i + 1:]))
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return F('and', tuple(out))

def for_(*fs):
    out = []
    for f in fs:
        if f.op == 'F': continue
        if f.op == 'T': return TRUE
        for g in (f.a if f.op == 'or' else (f,)):
            if g not in out: out.append(g)
    for g in out:
        if fnot(g) in out: return TRUE
    # a || (!a && b)  ->  a || b
    if len(out) > 1:
        for i, g in enumerate(out):
            if g.op == 'and':
                r = [x for x in g.a if fnot(x) not in out]
                if len(r) < len(g.a): return for_(*(out[:i] + [fand(*r)] + out[i + 1:]))
    # (a && b) || (a && !b)  ->  a
    if len(out) == 2:
        A = set(out[0].a if out[0].op == 'and' else (out[0],)); B = set(out[1].a if out[1].op == 'and' else (out[1],))
        da, db = A - B, B - A
        if not da: return out[0]
        if not db: return out[1]
        if len(da) == 1 and len(db) == 1 and fnot(next(iter(da))) == next(iter(db)):
            com = [x for x in (out[0].a if out[0].op == 'and' else (out[0],)) if x in B]
            return fand(*com)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return F('or', tuple(out))

def _normp(p, sym=False):
    m, c = _lead(p)
    k = abs(c)
    if sym and c < 0: k = c
    if k == 1: return p
    return Poly({m: qd(x, k) for m, x in p.t.items()})

def _too_many(inds, p):
    """too many cases to distribute a comparison over."""
    k = 0
    for a in inds: k += len(literals(a.args[0]))
    return k > 3 and not p.isint() or k > 6
def _cased(op, p, most=80):
    """the comparison of a selection by its conditions, if few selections are
    left after each condition"""
    memo = {}
    def go(q):
        inds = [a for a in q.atoms() if a.kind == 'ind']
        if not inds: return cmp_(op, q)
        f = memo.get(q)
        if f is None:
            if len(memo) > most: raise OverflowError
            memo[q] = TRUE
            a = inds[0]
            q1 = subst(q, lambda x: ONE if x is a else None if x.kind != 'ind' else poly(x))
            q0 = subst(q, lambda x: ZERO if x is a else None if x.kind != 'ind' else poly(x))
            g = a.args[0]; f1 = go(q1); f0 = go(q0)
            f = memo[q] = f1 if f1 == f0 else for_(fand(g, f1), fand(fnot(g), f0))
        return f
    try: f = go(p)
    except OverflowError: return None
    return f if len(literals(f)) <= 16 else None
def cmp_(op, p):
    """formula  p op 0."""
    c = p.const()
    if c is not None:
        return TRUE if (c < 0 if op == 'lt' else c <= 0 if op == 'le' else c == 0) else FALSE
    for a in p.atoms():
        # max(a, b, c) <= x is the same as a <= x and b <= x and c <= x
        if a.kind in ('maxof', 'minof') and len(a.args[0]) <= 4:
            x = p.t.get(((a.id, 1),))
            if x is None or any(y == a.id for m in p.t if m != ((a.id, 1),) for y, _ in m): continue
            rest = p - poly(a) * poly(x)
            each = [rest + s * poly(x) for s in a.args[0]]
            up = (x > 0) == (a.kind == 'maxof')
            if op == 'eq': return fand((fand if up else for_)(*[cmp_('le', q) for q in each]), (for_ if up else fand)(*[cmp_('le', -q) for q in each]))
            return (fand if up else for_)(*[cmp_(op, q) for q in each])
    inds = [a for a in p.atoms() if a.kind == 'ind']
    if inds and _too_many(inds, p):
        f = _cased(op, p) if len(inds) <= 16 and p.isint() else None
        if f is not None: return f
        p = _normp(p, op == 'eq')
        return F(op, (poly(atom('def', p)),))
    if inds:
        a = inds[0]
        p1 = subst(p, lambda x: ONE if x is a else None if x.kind != 'ind' else poly(x))
        p0 = subst(p, lambda x: ZERO if x is a else None if x.kind != 'ind' else poly(x))
        g = a.args[0]
        return for_(fand(g, cmp_(op, p1)), fand(fnot(g), cmp_(op, p0)))
    if p.isint():
        # canonical integer form: le with integral coefficients
        from math import gcd
        if op == 'lt': return cmp_('le', p + 1)
        g = 0
        for m, x in p.t.items():
            if m: g = gcd(g, abs(x.numerator))
        if g > 1:
            k = p.t.get((), 0)
            if op == 'le':
                import math
                kk = math.ceil(Fraction(k) / g)
                p = Poly({m: qd(x, g) for m, x in p.t.items() if m})
                if kk: p = p + poly(kk)
            elif k % g == 0:
                p = Poly({m: qd(x, g) for m, x in p.t.items()})
        if op == 'eq':
            if _lead(p)[1] < 0: p = -p
        return F(op, (p,))
    p = _normp(p, op == 'eq')
    return F(op, (p,))

def lt(a, b): return cmp_('lt', poly(a) - poly(b))
def le(a, b): return cmp_('le', poly(a) - poly(b))
def eq(a, b): return cmp_('eq', poly(a) - poly(b))
def fatom(a): return F('b', (a,))

def fsubst(f, gp):
    o = f.op
    if o in ('T', 'F'): return f
    if o in ('lt', 'le', 'eq'):
        p = gp(f.a[0])
        return f if p is f.a[0] else cmp_(o, p)
    if o == 'not': return fnot(fsubst(f.a[0], gp))
    if o == 'and': return fand(*[fsubst(x, gp) for x in f.a])
    if o == 'or': return for_(*[fsubst(x, gp) for x in f.a])
    if o == 'b':
        a = f.a[0]
        p = gp(poly(a))
        if p == poly(a): return f
        c = p.const()
        if c is not None: return TRUE if c else FALSE
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return F('b', (_list[m[0][0]],))
        return fnot(cmp_('eq', p))
    raise ValueError(o)

def fsub(f, mp):
    if not mp: return f
    return fsubst(f, lambda p: subst_atoms(p, mp))

def ind(f):
    """0/1 indicator polynomial of a formula."""
    o = f.op
    if o == 'T': return ONE
    if o == 'F': return ZERO
    if o == 'not': return ONE - ind(f.a[0])
    if o == 'and':
        r = ONE
        for x in f.a: r = r * ind(x)
        return r
    if o == 'or':
        r = ONE
        for x in f.a: r = r * (ONE - ind(x))
        return ONE - r
    if o == 'le' and f.a[0].isint() and _lead(f.a[0])[1] < 0:
        return ONE - ind(cmp_('le', ONE - f.a[0]))      # one name for a condition and its negation
    return poly(atom('ind', f, isint=True, sign='>=0', name='[%s]' % f))

def ite(f, a, b):
    if a == b: return a
    if f.op == 'T': return a
    if f.op == 'F': return b
    i = ind(f)
    return b + i * (a - b)

def as_formula(p):
    """truth of a scalar."""
    return fnot(cmp_('eq', p))

def literals(f, out=None):
    out = [] if out is None else out
    if f.op in ('and', 'or', 'not'):
        for x in f.a: literals(x, out)
    elif f.op not in ('T', 'F'):
        if f not in out: out.append(f)
    return out

def feval(f, val):
    o = f.op
    if o == 'T': return True
    if o == 'F': return False
    if o == 'not': return not feval(f.a[0], val)
    if o == 'and': return all(feval(x, val) for x in f.a)
    if o == 'or': return any(feval(x, val) for x in f.a)
    return val[f]

# ------------------------------------------------------------------ symbols/words
class Sym:
    """A letter of a word: a matrix or (column) vector."""
    __slots__ = ('id', 'kind', 'args', 'rows', 'cols', 'deps', 'name', 'symm', 'T', 'info', 'vec')
    def __repr__(self): return self.name

_syms = {}

def sym(kind, *args, rows, cols, deps=EMPTY, name=None, symm=False, info=None):
    k = (kind,) + args + (rows, cols)
    s = _syms.get(k)
    if s is None:
        s = Sym()
        s.id = len(_syms); s.kind = kind; s.args = args; s.rows = rows; s.cols = cols
        s.deps = deps | _deps_of(args)
        s.name = short_name(name or (kind + ('(' + ','.join(str(a) for a in args) + ')' if args else '')), kind, 'm%d' % s.id)
        s.symm = symm; s.T = None; s.info = info
        s.vec = (cols == ONE and not rows == ONE)
        _syms[k] = s
    return s

def tr(s):
    if s.symm: return s
    if s.T is None:
        if s.kind == 'T': s.T = s.args[0]
        else:
            t = sym('T', s, rows=s.cols, cols=s.rows, name=s.name + "'", deps=s.deps)
            s.T = t; t.T = s
    return s.T

IDX = atom('idx', isint=True, sign='>=0', name='@')
PIDX = poly(IDX)

def mono_key(m): return Poly({m: 1})

def ew_sym(pm, n):
    """elementwise vector with entries pm[@], pm a single monomial of coef 1."""
    return sym('ew', pm, rows=n, cols=ONE, name='<%s>' % pm)

def diag_sym(pm, n):
    return sym('diag', pm, rows=n, cols=n, symm=True, name='diag<%s>' % pm)

def sel_sym(off, ln, n):
    return sym('sel', off, rows=ln, cols=n, name='S[%s;%s]' % (off, ln))

def inv_sym(s):
    if s.kind == 'inv': return s.args[0]
    if s.kind == 'T': return tr(inv_sym(s.args[0]))
    return sym('inv', s, rows=s.cols, cols=s.rows, name='inv(%s)' % s.name, symm=s.symm)

def symsubst(s, gp):
    k = s.kind
    if k == 'T': return tr(symsubst(s.args[0], gp))
    na = tuple(_gen_subst(x, gp) for x in s.args)
    r, c = gp(s.rows), gp(s.cols)
    if na == s.args and r == s.rows and c == s.cols: return s
    if k == 'ew': return ('lin', elemwise(na[0], r))      # may become several terms
    if k == 'diag': return ('lin', diag_of(na[0], r))
    if k == 'sel': return sel_sym(na[0], r, c)
    if k == 'inv': return inv_sym(na[0]) if isinstance(na[0], Sym) else sym(k, *na, rows=r, cols=c)
    return sym(k, *na, rows=r, cols=c, deps=EMPTY, symm=s.symm, info=s.info, name=None)

# oracle for polynomial inequalities; set by the interpreter (current facts)
class Oracle:
    def nonneg(self, p): return p.const() is not None and p.const() >= 0
    def equal(self, a, b): return a == b
ORACLE = [Oracle()]
def O_nonneg(p): return ORACLE[0].nonneg(p)
def O_equal(a, b): return a == b or ORACLE[0].equal(a, b)

def shift_mono(pm, off):
    """elementwise monomial shifted: @ -> @+off."""
    return subst(pm, lambda a: PIDX + off if a is IDX else None)

def el_word(w, i):
    """scalar element i of the vector word w (may contain ('lin',Mat) letters)."""
    if any(isinstance(s, tuple) for s in w):
        return elem(word_mat(w), i)
    if len(w) == 1 and w[0].kind == 'ew':
        pm = w[0].args[0]
        if i == PIDX: return pm
        return subst(pm, lambda a: i if a is IDX else None)
    if w[0].kind == 'sel':
        return el_word(w[1:], w[0].args[0] + i)
    return poly(atom('el', w, i, name='%s(%s)' % (wname(w), i)))

def wname(w): return '.'.join(s.name for s in w) if w else 'I'

def word_mat(w):
    """product of letters, each a Sym or ('lin',Mat)."""
    r = None
    for s in w:
        x = s[1] if isinstance(s, tuple) else Mat({(s,): ONE}, s.rows, s.cols)
        r = x if r is None else r.mul(x)
    return r

class Mat:
    """Linear combination of words; rows x cols."""
    __slots__ = ('t', 'rows', 'cols', '_h', '_d')
    def __init__(self, t, rows, cols):
        self.t = t; self.rows = rows; self.cols = cols; self._h = None; self._d = None
    def __hash__(self):
        if self._h is None: self._h = hash((frozenset(self.t.items()), self.rows, self.cols))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Mat) and self.t == o.t and self.rows == o.rows and self.cols == o.cols
    @property
    def deps(self):
        if self._d is None:
            d = EMPTY
            for w, c in self.t.items():
                d = d | c.deps
                for s in w: d = d | s.deps
            self._d = d
        return self._d
    def __str__(self):
        if not self.t: return '0'
        o = []
        for w, c in list(self.t.items())[:40]:
            cs = str(c)
            n = wname(w)
            if cs == '1': o.append(n)
            elif cs == '-1': o.append('-' + n)
            else: o.append('(%s)*%s' % (cs, n) if len(c.t) > 1 else '%s*%s' % (cs, n))
        return ' + '.join(sorted(o))
    __repr__ = __str__
    def isvec(self): return self.cols == ONE
    def add(self, o, k=ONE):
        r = dict(self.t)
        for w, c in o.t.items():
            v = r.get(w, ZERO) + c * k
            if v.t: r[w] = v
            else: r.pop(w, None)
        return Mat(r, self.rows, self.cols)
    def scale(self, k):
        k = poly(k)
        if not k.t: return Mat({}, self.rows, self.cols)
        r = {}
        for w, c in self.t.items():
            v = c * k
            if v.t: r[w] = v
        return Mat(r, self.rows, self.cols)
    def mul(self, o):
        r = {}
        for w1, c1 in self.t.items():
            for w2, c2 in o.t.items():
                for w, c in mulword(w1, w2).items():
                    v = r.get(w, ZERO) + c * c1 * c2
                    if v.t: r[w] = v
                    else: r.pop(w, None)
        return Mat(r, self.rows, o.cols)
    def T(self):
        r = {}
        for w, c in self.t.items():
            for w2, c2 in normword(tuple(tr(s) for s in reversed(w))).items():
                r[w2] = r.get(w2, ZERO) + c * c2
        return Mat({w: c for w, c in r.items() if c.t}, self.cols, self.rows)

def zeros(r, c): return Mat({}, r, c)
def ident(n): return Mat({(): ONE}, n, n)
def mat_of(s): return Mat({(s,): ONE}, s.rows, s.cols)

def mulword(w1, w2):
    if not w1: return {w2: ONE}
    if not w2: return {w1: ONE}
    return _mulword(w1, w2)

def _mulword(w1, w2):
    # reduce at the junction
    a, b = w1[-1], w2[0]
    red = junction(a, b)
    if red is None:
        w = w1 + w2
        # a diagonal followed by a complete vector becomes elementwise
        return absorb(w1, w2)
    if red == 0: return {}
    out = {}
    for ww, c in red.items():
        for w3, c3 in mulword(w1[:-1], ww).items():
            for w4, c4 in mulword(w3, w2[1:]).items():
                v = out.get(w4, ZERO) + c * c3 * c4
                if v.t: out[w4] = v
                else: out.pop(w4, None)
    return out

def isvecword(w): return bool(w) and w[-1].cols == ONE and w[-1].kind != 'T'

def absorb(w1, w2):
    if isvecword(w2):
        for k in range(len(w1) - 1, -1, -1):
            if w1[k].kind == 'diag':
                rest = w1[k + 1:] + w2
                e = w1[k].args[0] * el_word(rest, PIDX)
                return mat_mulprefix(w1[:k], elemwise(e, w1[k].rows))
    return {w1 + w2: ONE}

def mat_mulprefix(w1, m):
    out = {}
    for w, c in m.t.items():
        for w3, c3 in mulword(w1, w).items():
            v = out.get(w3, ZERO) + c * c3
            if v.t: out[w3] = v
            else: out.pop(w3, None)
    return out

def junction(a, b):
    """product of two adjacent letters: None (irreducible), 0, or {word:coef}."""
    if a.kind == 'inv' and a.args[0] is b: return {(): ONE}
    if b.kind == 'inv' and b.args[0] is a: return {(): ONE}
    if a.kind == 'T' and b.kind == 'T':
        x, y = a.args[0], b.args[0]
        if x.kind == 'inv' and x.args[0] is y or y.kind == 'inv' and y.args[0] is x: return {(): ONE}
    if a.kind == 'sel':
        off, ln = a.args[0], a.rows
        if b.kind == 'sel':
            return {(sel_sym(off + b.args[0], ln, b.cols),): ONE}
        if b.kind == 'ew':
            return elemwise(shift_mono(b.args[0], off), ln).t
        if b.kind == 'diag':
            m = diag_of(shift_mono(b.args[0], off), ln)
            s = sel_sym(off, ln, a.cols)
            return {w + (s,): c for w, c in m.t.items()}
        if b.kind == 'T' and b.args[0].kind == 'sel':
            o2, l2 = b.args[0].args[0], b.args[0].rows
            if O_equal(off, o2) and O_equal(ln, l2): return {(): ONE}
            if O_nonneg(o2 - off - ln) or O_nonneg(off - o2 - l2): return 0
            if O_nonneg(off - o2) and O_nonneg(o2 + l2 - off - ln): return {(sel_sym(off - o2, ln, l2),): ONE}
            if O_nonneg(o2 - off) and O_nonneg(off + ln - o2 - l2): return {(tr(sel_sym(o2 - off, l2, ln)),): ONE}
        if ln == a.cols and off == ZERO: return {(b,): ONE}
        return None
    if a.kind == 'diag' and b.kind == 'diag':
        return diag_of(a.args[0] * b.args[0], a.rows).t
    if a.kind == 'diag' and b.kind == 'ew':
        return elemwise(a.args[0] * b.args[0], a.rows).t
    if a.kind == 'diag' and b.kind == 'T' and b.args[0].kind == 'sel':
        # D S' = S' D(shifted)
        s = b.args[0]
        m = diag_of(shift_mono(a.args[0], s.args[0]), s.rows)
        return {(b,) + w: c for w, c in m.t.items()}
    if a.kind == 'T' and a.args[0].kind == 'ew' and b.kind == 'diag':
        m = elemwise(a.args[0].args[0] * b.args[0], b.rows)
        return {(tr(w[0]),): c for w, c in m.t.items()} if all(len(w) == 1 for w in m.t) else m.T().t
    return None

def normword(w):
    r = {(): ONE}
    for s in w:
        n = {}
        for w1, c in r.items():
            for w2, c2 in mulword(w1, (s,)).items():
                v = n.get(w2, ZERO) + c * c2
                if v.t: n[w2] = v
                else: n.pop(w2, None)
        r = n
    return r

def _idxdep(a):
    return a is IDX or any(_has_idx(x) for x in a.args)
_hidx = {}
def _has_idx(x):
    if isinstance(x, Poly): return any(has_idx_atom(a) for a in x.atoms())
    if isinstance(x, Atom): return has_idx_atom(x)
    if isinstance(x, F): return any(_has_idx(y) for y in x.a)
    if isinstance(x, tuple): return any(_has_idx(y) for y in x)
    if isinstance(x, Sym): return False     # letters bind their own @
    return False
def has_idx_atom(a):
    r = _hidx.get(a.id)
    if r is None:
        if a.kind in ('sum', 'Sum', 'extr', 'norminf'): r = False      # @ is bound
        else: r = a is IDX or any(_has_idx(x) for x in a.args)
        _hidx[a.id] = r
    return r

def elemwise(p, n):
    """vector of length n with entries p(@)."""
    out = {}
    for m, c in p.t.items():
        dep = [(a, e) for a, e in m if has_idx_atom(_list[a])]
        ind_ = tuple((a, e) for a, e in m if not has_idx_atom(_list[a]))
        coef = Poly({ind_: c})
        if len(dep) == 1 and dep[0][1] == 1 and _list[dep[0][0]].kind == 'el' and \
                _list[dep[0][0]].args[0] and not any(isinstance(s, tuple) for s in _list[dep[0][0]].args[0]):
            w, i = _list[dep[0][0]].args
            off = i - PIDX
            if not _has_idx(off):
                base_n = w[0].rows
                if not off.t and (n == base_n or O_equal(n, base_n)): ws = {w: ONE}
                else: ws = mulword((sel_sym(off, n, base_n),), w) if not (w[0].kind == 'sel') else normword((sel_sym(off, n, base_n),) + w)
                for w2, c2 in ws.items():
                    v = out.get(w2, ZERO) + coef * c2
                    if v.t: out[w2] = v
                    else: out.pop(w2, None)
                continue
        w = (ew_sym(Poly({tuple(dep): 1}), n),)
        v = out.get(w, ZERO) + coef
        if v.t: out[w] = v
        else: out.pop(w, None)
    return Mat(out, n, ONE)

def elem(m, i):
    """entry i of a vector."""
    r = ZERO
    for w, c in m.t.items():
        if not w:            # 1x1 identity
            r = r + c
            continue
        r = r + c * el_word(w, i)
    return r

def diag_of(p, n):
    out = {}
    for m, c in p.t.items():
        dep = tuple((a, e) for a, e in m if has_idx_atom(_list[a]))
        ind_ = tuple((a, e) for a, e in m if not has_idx_atom(_list[a]))
        w = (diag_sym(Poly({dep: 1}), n),) if dep else ()
        v = out.get(w, ZERO) + Poly({ind_: c})
        if v.t: out[w] = v
        else: out.pop(w, None)
    return Mat(out, n, n)

def asdiag(v): return diag_of(elem(v, PIDX), v.rows)

def ones(n): return elemwise(ONE, n)

def bil(w):
    """scalar of a 1x1 word."""
    if len(w) == 0: return ONE
    if len(w) == 1: return poly(atom('bil', w, name=wname(w)))
    # (u' ... v)
    if len(w) == 2 and w[0].kind == 'T':
        u, v = w[0].args[0], w[1]
        if u.rows == ONE and v.kind != 'ew' and u.kind != 'ew':
            return poly(atom('el', (u,), ZERO)) * poly(atom('el', (v,), ZERO))
        return sum_of(el_word((u,), PIDX) * el_word((v,), PIDX), u.rows)
    if w[0].kind == 'T' and w[0].args[0].cols == ONE and isvecword(w[1:]):
        u = (w[0].args[0],)
        k = 1
        return sum_of(el_word(u, PIDX) * el_word(w[k:], PIDX), w[0].cols)
    if w[-1].kind == 'ew':
        wt = tuple(tr(s) for s in reversed(w))
        n = normword(wt)
        if len(n) == 1 and wt in n:
            return sum_of(w[-1].args[0] * el_word(wt[1:], PIDX), w[-1].rows)
    wt = tuple(tr(s) for s in reversed(w))
    k1 = [s.id for s in w]; k2 = [s.id for s in wt]
    c = w if k1 <= k2 else wt
    sg = '>=0' if k1 == k2 and all(x is y for x, y in zip(w, wt)) and _square(w) else None
    return poly(atom('bil', c, sign=sg, name=wname(c)))

def _square(w):
    h = len(w) // 2
    return len(w) % 2 == 0 and all(tr(w[h - 1 - k]) is w[h + k] for k in range(h))

def sum_of(p, n):
    r = ZERO
    for m, c in p.t.items():
        dep = tuple((a, e) for a, e in m if has_idx_atom(_list[a]))
        ind_ = tuple((a, e) for a, e in m if not has_idx_atom(_list[a]))
        if not dep: r = r + Poly({ind_: c}) * n
        else:
            sq = all(e % 2 == 0 or nonneg_atom(_list[a]) for a, e in dep)
            pm = Poly({dep: 1})
            r = r + Poly({ind_: c}) * poly(atom('sum', pm, n, sign='>=0' if sq else None, name='sum<%s>' % pm))
    return r

def scalar_of(m):
    """1x1 Mat -> Poly"""
    r = ZERO
    for w, c in m.t.items(): r = r + c * bil(w)
    return r

def dot(u, v):
    if u.rows == ONE and u.cols == ONE: return scalar_of(u) * scalar_of(v)
    return sum_of(elem(u, PIDX) * elem(v, PIDX), u.rows)

def from_scalar(p): return Mat({(): p} if p.t else {}, ONE, ONE)

def msubst(m, mp):
    """substitute scalar atoms (dict id->Poly) inside a Mat."""
    if not mp: return m
    gp = lambda p: subst_atoms(p, mp)
    out = Mat({}, gp(m.rows), gp(m.cols))
    for w, c in m.t.items():
        c2 = gp(c)
        w2 = tuple(symsubst(s, gp) for s in w)
        if w2 == w:
            out = out.add(Mat({w: c2} if c2.t else {}, out.rows, out.cols))
        elif not w: out = out.add(Mat({(): c2} if c2.t else {}, out.rows, out.cols))
        else:
            x = word_mat(w2)
            out = out.add(x.scale(c2))
    return Mat(out.t, gp(m.rows), gp(m.cols))

# ------------------------------------------------------------------ equality
def _signs(p, facts_sign):
    return facts_sign.get(p)

def clear_denoms(p, limit=6):
    """multiply by the denominators that occur (inv atoms and negative powers)."""
    for _ in range(limit):
        neg = {}
        invs = {}
        for m in p.t:
            for a, e in m:
                at = _list[a]
                if at.kind == 'inv' and e > 0: invs[a] = max(invs.get(a, 0), e)
                elif e < 0: neg[a] = max(neg.get(a, 0), -e)
        if not neg and not invs: return p
        for a, e in neg.items():
            p = p * Poly({((a, e),): 1})
        for a, e in invs.items():
            den = _list[a].args[0]
            out = ZERO
            for m, c in p.t.items():
                k = dict(m).get(a, 0)
                rest = tuple((x, y) for x, y in m if x != a)
                out = out + Poly({rest: c}) * (den ** (e - k))
            p = out
    return p

def _sum_split(p):
    """p = rest + sum over entries of one expression per length; -> (groups,
    rest), or None when that form does not apply"""
    groups = {}; rest = {}
    hit = False
    for m, c in p.t.items():
        ss = [(a, e) for a, e in m if _list[a].kind == 'sum']
        if len(ss) == 1 and ss[0][1] == 1:
            at = _list[ss[0][0]]
            if all_inds(at.args[0]): hit = True
            k = Poly({tuple(x for x in m if x[0] != ss[0][0]): c})
            groups[at.args[1]] = groups.get(at.args[1], ZERO) + k * at.args[0]
        else:
            if any(all_inds(_list[a].args[0]) for a, e in ss): return None
            rest[m] = c
    return (groups, Poly(rest)) if hit else None

def zero_test(p, assume=(), maxsplit=9):
    p = clear_denoms(p)
    r = _zero_test0(p, assume, maxsplit)
    if r is True: return r
    u = clear_denoms(unfold(p)) if has_def(p) else p
    g = _sum_split(u)
    if g is None: return r
    rs = [_zero_test0(e, assume, maxsplit) for e in g[0].values()] + ([_zero_test0(g[1], assume, maxsplit)] if g[1].t else [])
    if all(x is True for x in rs): return True
    # entries of generic vectors are independent of the remaining terms
    if any(x is False for x in rs) and not any(has_sum_of(a) for a in g[1].atoms()): return False
    return None
def has_sum_of(a): return a.kind in ('sqrt', 'inv')

def _zero_test0(p, assume=(), maxsplit=9):
    """Is p identically zero?  Case split over the finitely many orderings of
    the quantities that are only compared.  Returns True / False / None."""
    p = clear_denoms(p)
    if not p.t: return True
    if has_def(p):
        r = _zero_test(p, assume, maxsplit)
        if r: return True
        p = clear_denoms(unfold(p))
    return _zero_test(p, assume, maxsplit)

def _zero_test(p, assume, maxsplit):
    if not p.t: return True
    inds = sorted({a.id for a in all_inds(p)})
    if not inds: return False
    fs = [_list[a].args[0] for a in inds]
    lits = []
    for f in list(fs) + list(assume):
        for l in literals(f):
            if l not in lits: lits.append(l)
    # sign variables
    keys = {}
    bvars = []
    order = []
    for l in lits:
        if l.op == 'b':
            if l not in bvars: bvars.append(l)
        else:
            q = l.a[0]
            k = _normp(q, True)
            if k not in keys:
                keys[k] = None; order.append(k)
    if len(order) + len(bvars) > maxsplit: return None
    res = True
    import itertools
    for sg in itertools.product((-1, 0, 1), repeat=len(order)):
        sd = dict(zip(order, sg))
        for bv in itertools.product((False, True), repeat=len(bvars)):
            val = dict(zip(bvars, bv))
            for l in lits:
                if l.op == 'b': continue
                q = l.a[0]; k = _normp(q, True)
                s = sd[k] * (1 if _lead(q)[1] > 0 else -1)
                val[l] = s < 0 if l.op == 'lt' else s <= 0 if l.op == 'le' else s == 0
            if not all(feval(f, val) for f in assume): continue
            if not consistent(sd): continue
            r = subst(p, lambda a: (ONE if feval(a.args[0], val) else ZERO) if a.kind == 'ind' and a.id in inds else None)
            r = clear_denoms(r)
            if not r.t: continue
            zs = [k for k in order if sd[k] == 0]
            if zs and reduce_mod(r, zs): continue
            res = False
            zero_test.witness = ', '.join('%s %s 0' % (k, '<' if v < 0 else '>' if v > 0 else '==') for k, v in sd.items())
            return False
    return res
zero_test.witness = ''

def all_inds(p):
    return [a for a in p.atoms() if a.kind == 'ind']

def consistent(sd):
    """reject orderings refuted by known signs or by linear combination of two."""
    for k, s in sd.items():
        if s <= 0 and all(c > 0 for c in k.t.values()) and any(not m for m in k.t) and \
           all(all(nonneg_atom(_list[a]) or e % 2 == 0 for a, e in m) for m in k.t): return False
        if s < 0 and all(c > 0 for c in k.t.values()) and \
           all(all(nonneg_atom(_list[a]) or e % 2 == 0 for a, e in m) for m in k.t): return False
        if s >= 0 and all(c < 0 for c in k.t.values()) and any(not m for m in k.t) and \
           all(all(nonneg_atom(_list[a]) or e % 2 == 0 for a, e in m) for m in k.t): return False
    ks = list(sd.items())
    for i in range(len(ks)):
        for j in range(i + 1, len(ks)):
            (p, s), (q, t) = ks[i], ks[j]
            if s and t:
                d = (p * s) + (q * t)          # both >0 strictly
                c = d.const()
                if c is not None and c <= 0: return False
            elif s or t:
                for sg in (1, -1):             # one is zero, the other >0
                    c = ((p * s) + (q * sg) if s else (q * t) + (p * sg)).const()
                    if c is not None and c <= 0: return False
            else:
                for sg in (1, -1):
                    c = (p + q * sg).const()
                    if c is not None and c != 0: return False
    for k, s in ks:
        # k is the difference of two others:  a-b, a, b
        for k1, s1 in ks:
            for k2, s2 in ks:
                if k1 is k2 or k is k1 or k is k2: continue
                if k == k1 - k2:
                    if s1 >= 0 and s2 <= 0 and (s1 or s2) and s <= 0: return False
                    if s1 <= 0 and s2 >= 0 and (s1 or s2) and s >= 0: return False
                    if s1 == 0 and s2 == 0 and s != 0: return False
    return True

def reduce_mod(r, zs, depth=0):
    """is r zero modulo the polynomials in zs (each solved for a linear atom)?"""
    zs = list(zs)
    while zs:
        z = zs.pop(0)
        mp = {}
        # a common factor: zero itself, or the cofactor is
        cf = set.intersection(*({a for a, e in m} for m in z.t))
        if cf and (len(z.t) > 1 or len(cf) > 1) and depth < 4:
            for a in cf:
                if _list[a].sign != '>0' and not reduce_mod(clear_denoms(subst_atoms(r, {a: ZERO})), [x for x in (clear_denoms(subst_atoms(y, {a: ZERO})) for y in zs) if x.t], depth + 1): return False
            if len(z.t) == 1: return True
            z = Poly({tuple((a, e) for a, e in m if a not in cf): c for m, c in z.t.items()}) if all(e == 1 for m in z.t for a, e in m if a in cf) else z
        # sum of squares-like zero: every nonneg term is zero
        if all(c > 0 for c in z.t.values()) and all(m and all(e % 2 == 0 for a, e in m) for m in z.t):
            for m in z.t:
                if len(m) == 1: mp[m[0][0]] = ZERO
        if not mp:
            for m, c in z.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    rest = Poly({mm: qd(-cc, c) for mm, cc in z.t.items() if mm != m})
                    if any(_list[a] in x.atoms() for x in [rest]): continue
                    mp = {a: rest}
                    break
        if not mp: continue
        r = clear_denoms(subst_atoms(r, mp))
        if not r.t: return True
        zs = [clear_denoms(subst_atoms(x, mp)) for x in zs]
        zs = [x for x in zs if x.t]
    reduce_mod.left = r
    return not clear_denoms(r).t

def mat_zero_test(m, assume=()):
    """Is the matrix identically zero?  Words are grouped by their prefix up to
    the elementwise tail; tails are compared entrywise."""
    if not m.t: return True
    if any(s.kind == 'vdef' for w in m.t for s in w):
        r = _mat_zero_test(m, assume)
        if r: return True
        m = unfold(m)
    return _mat_zero_test(m, assume)

def _mat_zero_test(m, assume=()):
    if not m.t: return True
    ew, plain, dg = {}, [], {}
    for w, c in m.t.items():
        if isvecword(w):
            if w[-1].kind == 'ew': ew.setdefault(w[:-1], []).append((w, c))
            else: plain.append((w, c))
        elif any(s.kind == 'diag' for s in w):
            k = max(i for i, s in enumerate(w) if s.kind == 'diag')
            dg.setdefault((w[:k], w[k + 1:]), []).append((w, c))
        else: plain.append((w, c))
    unknown = False
    tests = []
    for w, c in plain:
        best = None
        if isvecword(w):
            for p in ew:
                if w[:len(p)] == p and len(p) < len(w) and (best is None or len(p) > len(best[1])): best = ('e', p)
        else:
            for p, q in dg:
                if p + q == w: best = ('d', (p, q))
        if best is None: tests.append(c)
        elif best[0] == 'e': ew[best[1]].append((w, c))
        else: dg[best[1]].append((w, c))
    for p, ts in ew.items():
        e = ZERO
        for w, c in ts: e = e + c * el_word(w[len(p):], PIDX)
        tests.append(e)
    for (p, q), ts in dg.items():
        e = ZERO
        for w, c in ts: e = e + (c * w[len(p)].args[0] if len(w) > len(p) + len(q) else c)
        tests.append(e)
    for e in tests:
        r = zero_test(e, assume)
        if r is False: return False
        if r is None: unknown = True
    return None if unknown else True

# ------------------------------------------------------------------ substitution
class Subst:
    """Simultaneous substitution of scalar atoms, truth atoms and letters."""
    def __init__(self, atoms=None, letters=None, truths=None, objs=None):
        self.a = atoms or {}; self.l = letters or {}; self.tr = truths or {}
        self.ca = {}; self.cl = {}; self.objs = objs
        self.shift = IDX.id in self.a
    def __bool__(self): return bool(self.a or self.l or self.tr)
    def poly(self, p):
        if not p.t: return p
        ch = False
        vals = {}
        for a in p.atoms():
            r = self.atom(a)
            vals[a.id] = r
            if r is not None: ch = True
        if not ch: return p
        out = ZERO
        for m, c in p.t.items():
            x = Poly({(): c})
            for a, e in m:
                r = vals[a]
                if r is None: x = x * Poly({((a, e),): 1})
                elif e > 0: x = x * (r ** e)
                else: x = x * inv(r ** (-e))
            out = out + x
        return out
    def atom(self, a):
        """new Poly, or None when unchanged."""
        if a.id in self.a: return self.a[a.id]
        if a.id in self.ca: return self.ca[a.id]
        if self.shift and not has_idx_atom(a): return None
        r = self._atom(a)
        if r is not None and len(r.t) == 1 and r.t.get(((a.id, 1),)) == 1: r = None
        self.ca[a.id] = r
        return r
    def _atom(self, a):
        if not any(isinstance(x, (Poly, F, Sym, Mat, tuple, Atom)) or hasattr(x, 'subst') for x in a.args): return None
        k = a.kind
        if k == 'sqrt':
            q = self.poly(a.args[0]); return None if q is a.args[0] else mk_sqrt(q)
        if k == 'inv':
            q = self.poly(a.args[0]); return None if q is a.args[0] else inv(q)
        if k == 'ind':
            q = self.f(a.args[0]); return None if q == a.args[0] else ind(q)
        if k == 'el':
            m = self.word(a.args[0]); i = self.poly(a.args[1])
            if m is None and i is a.args[1]: return None
            return elem(m, i) if m is not None else el_word(a.args[0], i)
        if k == 'bil':
            m = self.word(a.args[0])
            return None if m is None else scalar_of(m)
        if k == 'sum':
            q = self.poly(a.args[0]); n = self.poly(a.args[1])
            return None if q is a.args[0] and n is a.args[1] else sum_of(q, n)
        na = tuple(self.any(x) for x in a.args)
        if na == a.args: return None
        if k == 'Sum': return big_sum(*na)
        if k == 'extr': return extr(*na)
        if k == 'def': return mk_def(na[0])
        return poly(atom(k, *na, isint=a.isint, sign=a.sign, info=a.info))
    def any(self, x):
        if isinstance(x, Poly): return self.poly(x)
        if isinstance(x, F): return self.f(x)
        if isinstance(x, Mat): return self.mat(x)
        if isinstance(x, Atom):
            r = self.atom(x)
            return x if r is None else r
        if isinstance(x, Sym):
            r = self.letter(x)
            return x if r is None else r
        if isinstance(x, tuple): return tuple(self.any(y) for y in x)
        if hasattr(x, 'subst'): return x.subst(self)
        return x
    def f(self, f):
        o = f.op
        if o in ('T', 'F'): return f
        if f in self.tr: return self.tr[f]
        if o in ('lt', 'le', 'eq'):
            p = self.poly(f.a[0])
            return f if p is f.a[0] else cmp_(o, p)
        if o == 'not': return fnot(self.f(f.a[0]))
        if o == 'and': return fand(*[self.f(x) for x in f.a])
        if o == 'or': return for_(*[self.f(x) for x in f.a])
        a = f.a[0]
        na = tuple(self.any(x) for x in a.args)
        if na == a.args: return f
        return fatom(atom(a.kind, *na, info=a.info))
    def letter(self, s):
        """new Mat, or None when unchanged."""
        if s.id in self.l: return self.l[s.id]
        if self.shift: return None       # a letter binds its own @
        if s.id in self.cl: return self.cl[s.id]
        r = self._letter(s)
        if isinstance(r, Sym): r = None if r is s else mat_of(r)
        self.cl[s.id] = r
        return r
    def _letter(self, s):
        k = s.kind
        if k == 'T':
            r = self.letter(s.args[0])
            return None if r is None else r.T()
        R, C = self.poly(s.rows), self.poly(s.cols)
        if k == 'ew':
            q = self.poly(s.args[0])
            return None if q is s.args[0] and R is s.rows else elemwise(q, R)
        if k == 'diag':
            q = self.poly(s.args[0])
            return None if q is s.args[0] and R is s.rows else diag_of(q, R)
        if k == 'sel':
            o = self.poly(s.args[0])
            return None if o is s.args[0] and R is s.rows and C is s.cols else sel_sym(o, R, C)
        if k == 'inv':
            r = self.letter(s.args[0])
            if r is None: return None
            return mat_inv(r)
        if k == 'mapblk':
            x = self.letter(s.args[0]); o = self.poly(s.args[1])
            if x is None and o is s.args[1] and R is s.rows and C is s.cols: return None
            return mapblk(x if x is not None else mat_of(s.args[0]), o, R, C)
        if not any(isinstance(x, (Poly, F, Sym, Mat, tuple, Atom)) or hasattr(x, 'subst') for x in s.args) and R is s.rows and C is s.cols: return None
        na = tuple(self.any(x) for x in s.args)
        if na == s.args and R == s.rows and C == s.cols: return None
        if k == 'vdef': return mk_vdef(na[0])
        return sym(k, *na, rows=R, cols=C, symm=s.symm, info=s.info)
    def word(self, w):
        rs = [self.letter(s) for s in w]
        if all(r is None for r in rs): return None
        out = None
        for s, r in zip(w, rs):
            x = mat_of(s) if r is None else r
            out = x if out is None else out.mul(x)
        return out
    def mat(self, m):
        R, C = self.poly(m.rows), self.poly(m.cols)
        out = None; keep = {}
        for w, c in m.t.items():
            c2 = self.poly(c); x = self.word(w)
            if x is None:
                v = keep.get(w, ZERO) + c2
                keep[w] = v
            else:
                x = x.scale(c2)
                out = x if out is None else out.add(x)
        r = Mat({w: c for w, c in keep.items() if c.t}, R, C)
        if out is not None: r = r.add(out)
        return Mat(r.t, R, C)

def mat_inv(m):
    """inverse of a single-word square matrix, otherwise an opaque letter."""
    if len(m.t) == 1:
        (w, c), = m.t.items()
        if all(s.rows == s.cols for s in w):
            r = Mat({(): inv(c)}, m.cols, m.rows)
            for s in reversed(w): r = r.mul(mat_of(inv_sym(s)))
            return Mat(r.t, m.cols, m.rows)
    return mat_of(sym('inv', sym('mat', m, rows=m.rows, cols=m.cols, name='(%s)' % m), rows=m.cols, cols=m.rows, name='inv(%s)' % m))

SYMM_STORE = set()
def mapblk(x, off, rows, cols):
    """the rows x cols column-major matrix stored at off of the linear array x."""
    if cols == ONE:
        if not off.t and x.rows == rows: return x
        return mat_of(sel_sym(off, rows, x.rows)).mul(x)
    if not x.t: return zeros(rows, cols)
    if len(x.t) == 1:
        (w, c), = x.t.items()
        if len(w) == 1:
            s = sym('mapblk', w[0], off, rows=rows, cols=cols, name='%s{%s}' % (w[0].name, off),
                    symm=w[0].name in SYMM_STORE and rows == cols)
            return mat_of(s).scale(c)
    l = sym('lin', x, rows=x.rows, cols=ONE)
    return mat_of(sym('mapblk', l, off, rows=rows, cols=cols))

# sums and extrema over an index range.  The index atom is bound.
def bidx(k): return atom('bidx', k, isint=True, name='#%d' % k)

def big_sum(e, k, lo, hi):
    """sum_{k=lo..hi} e   (hi inclusive; empty when hi < lo)"""
    if isinstance(k, Poly): k = k.atoms()[0]
    if not e.t: return ZERO
    pk = poly(k)
    # split at index-dependent indicators  [k == c], [k <= c]
    for a in all_inds(e):
        f = a.args[0]
        if f.op in ('eq', 'le', 'lt') and k in f.a[0].atoms():
            q = f.a[0]
            co = q.t.get(((k.id, 1),), None)
            rest = q - pk * (co or 0)
            if co in (1, -1) and k not in rest.atoms():
                c = -rest / poly(co)
                on = Subst({a.id: ONE}).poly(e); off = Subst({a.id: ZERO}).poly(e)
                if f.op == 'eq':
                    if O_nonneg(c - lo) and O_nonneg(hi - c):
                        return Subst({k.id: c}).poly(on) + big_sum(off, k, lo, c - 1) + big_sum(off, k, c + 1, hi)
                    if O_nonneg(lo - 1 - c) or O_nonneg(c - 1 - hi): return big_sum(off, k, lo, hi)
                else:
                    if f.op == 'lt': c = c - 1 if co == 1 else c + 1
                    # co=1:  k <= c ; co=-1: k >= c
                    if co == 1:
                        if O_nonneg(c - hi): return big_sum(on, k, lo, hi)
                        if O_nonneg(lo - 1 - c): return big_sum(off, k, lo, hi)
                        if O_nonneg(c - lo) : return big_sum(on, k, lo, c) + big_sum(off, k, c + 1, hi)
                    else:
                        if O_nonneg(lo - c): return big_sum(on, k, lo, hi)
                        if O_nonneg(c - 1 - hi): return big_sum(off, k, lo, hi)
                        if O_nonneg(hi - c): return big_sum(off, k, lo, c - 1) + big_sum(on, k, c, hi)
    if O_equal(lo, hi): return Subst({k.id: lo}).poly(e)
    if O_nonneg(lo - hi - 1): return ZERO
    # canonical lower bound 0
    if lo.t:
        e = Subst({k.id: pk + lo}).poly(e); hi = hi - lo; lo = ZERO
    r = ZERO
    for m, c in e.t.items():
        dep = tuple((a, x) for a, x in m if _mentions(_list[a], k))
        ind_ = tuple((a, x) for a, x in m if not _mentions(_list[a], k))
        if not dep: r = r + Poly({ind_: c}) * (hi - lo + 1)
        else:
            pm = Poly({dep: 1})
            B = bidx(_depth(pm))
            pm = Subst({k.id: poly(B)}).poly(pm)
            sq = all(x % 2 == 0 or nonneg_atom(_list[a]) for m2 in pm.t for a, x in m2)
            if len(pm.t) == 1: (m2, c2), = pm.t.items()
            r = r + Poly({ind_: c}) * poly(atom('Sum', pm, B, lo, hi, sign='>=0' if sq else None, name='Sum[%s=%s..%s](%s)' % (B.name, lo, hi, pm)))
    return r

_ment = {}
def _mentions(a, k):
    if a is k: return True
    key = (a.id, k.id)
    r = _ment.get(key)
    if r is None:
        r = any(_ment_any(x, k) for x in a.args)
        _ment[key] = r
    return r
def _ment_any(x, k):
    if isinstance(x, Poly): return any(_mentions(a, k) for a in x.atoms())
    if isinstance(x, Atom): return _mentions(x, k)
    if isinstance(x, F): return any(_ment_any(y, k) for y in x.a)
    if isinstance(x, Sym): return _ment_sym(x, k)
    if isinstance(x, Mat): return any(_ment_any(c, k) or any(_ment_sym(s, k) for s in w) for w, c in x.t.items()) or _ment_any(x.rows, k)
    if isinstance(x, tuple): return any(_ment_any(y, k) for y in x)
    if hasattr(x, 'mentions'): return x.mentions(k)
    return False
_mens = {}
def _ment_sym(s, k):
    key = (s.id, k.id)
    r = _mens.get(key)
    if r is None:
        r = any(_ment_any(x, k) for x in s.args) or _ment_any(s.rows, k) or _ment_any(s.cols, k)
        _mens[key] = r
    return r
mentions = _ment_any

def _depth(p):
    d = 0
    for a in p.atoms():
        if a.kind in ('Sum', 'extr'):
            d = max(d, 1 + _depth(a.args[0]) if isinstance(a.args[0], Poly) else 1)
    return d

def extr(op, e, k, lo, hi, base):
    """op ('max'/'min') of base (Poly or None) and e(k), k=lo..hi"""
    if isinstance(k, Poly): k = k.atoms()[0]
    B = bidx(100 + _depth(e))
    if k is not B: e = Subst({k.id: poly(B)}).poly(e)
    if lo.t:
        e = Subst({B.id: poly(B) + lo}).poly(e); hi = hi - lo; lo = ZERO
    if base is not None and base.t and base == Subst({B.id: poly(-1)}).poly(e):
        # starts from the entry before the first
        e = Subst({B.id: poly(B) - 1}).poly(e); hi = hi + 1; base = None
    nn = base is not None and base == ZERO and op == 'max'
    return poly(atom('extr', op, e, B, lo, hi, base, sign='>=0' if nn else None, name='%s[%s<=%s](%s%s)' % (op, B.name, hi, e, '' if base is None else ',%s' % base)))

def absv(p):
    c = p.const()
    if c is not None: return poly(abs(c))
    return ite(lt(p, ZERO), -p, p)

def norminf(m):
    """max |m_i| with 0 for the empty vector."""
    e = elem(m, PIDX)
    if not e.t: return ZERO
    # |c*q| = |c| |q| for a numeric c
    _, c = _lead(e)
    q = e * qd(1, c)
    return extr('max', absv(q), IDX, ZERO, m.rows - 1, ZERO) * abs(c)

# ------------------------------------------------------------------ named values
DEF_LIMIT = [8]
def mk_def(p):
    """a name for a large scalar expression (hash-consed: equal contents get
    the same name; unfold() restores the content)."""
    if len(p.t) <= DEF_LIMIT[0]: return p
    sg = '>=0' if all(c > 0 and all(e % 2 == 0 or nonneg_atom(_list[a]) for a, e in m) for m, c in p.t.items()) else None
    return poly(atom('def', p, sign=sg))

class _Unfold(Subst):
    def __bool__(self): return True
    def _atom(self, a):
        if a.kind == 'def': return self.poly(a.args[0])
        return Subst._atom(self, a)
    def _letter(self, s):
        if s.kind == 'vdef': return self.mat(s.args[0])
        return Subst._letter(self, s)
_unf = _Unfold()
def unfold(x):
    if isinstance(x, Poly): return _unf.poly(x)
    if isinstance(x, F): return _unf.f(x)
    if isinstance(x, Mat): return _unf.mat(x)
    return x
_hd = {}
def has_def(x):
    if isinstance(x, Poly): return any(_hasdef_atom(a) for a in x.atoms())
    if isinstance(x, F): return any(has_def(y) for y in x.a)
    if isinstance(x, Mat): return any(has_def(c) or any(has_def(s) for s in w) for w, c in x.t.items())
    if isinstance(x, Sym): return x.kind == 'vdef' or any(has_def(y) for y in x.args)
    if isinstance(x, Atom): return _hasdef_atom(x)
    if isinstance(x, tuple): return any(has_def(y) for y in x)
    return False
def _hasdef_atom(a):
    r = _hd.get(a.id)
    if r is None:
        r = a.kind == 'def' or any(has_def(y) for y in a.args)
        _hd[a.id] = r
    return r

VDEF_LIMIT = [10]
def mk_vdef(m):
    """a letter for a large vector/matrix expression."""
    if len(m.t) <= VDEF_LIMIT[0]: return m
    for w in m.t:
        if w and w[0].kind == 'T' and w[0].args[0].kind == 'sel': return m
    return mat_of(sym('vdef', m, rows=m.rows, cols=m.cols))

def fmt_f(f): return str(f)
zero_test.witness = ''
