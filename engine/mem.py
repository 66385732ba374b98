"""Abstract memory: locations, array contents, facts and their consequences."""
from alg import *
import alg
from prog import Broken

class Unmodelled(Broken):
    pass

class ForkOn(Exception):
    def __init__(self, f): self.f = f

# ---------------------------------------------------------------- values
class Ptr:
    """pointer: loc None = null; off: element offset into linear storage."""
    __slots__ = ('loc', 'off')
    def __init__(self, loc, off=ZERO): self.loc = loc; self.off = off
    def __eq__(s, o): return isinstance(o, Ptr) and s.loc == o.loc and s.off == o.off
    def __hash__(s): return hash((s.loc, s.off))
    def __repr__(s): return 'null' if s.loc is None else '&%s+%s' % (s.loc, s.off)
NULL = Ptr(None)

class Obj:
    __slots__ = ('loc', 'cls')
    def __init__(self, loc, cls): self.loc = loc; self.cls = cls
    def __repr__(s): return 'Obj%s' % (s.loc,)
    def __eq__(s, o): return isinstance(o, Obj) and s.loc == o.loc
    def __hash__(s): return hash(s.loc)

class SLoc:
    """scalar (or pointer) lvalue in memory."""
    __slots__ = ('loc',)
    def __init__(self, loc): self.loc = loc
    def __eq__(s, o): return isinstance(o, SLoc) and s.loc == o.loc
    def __hash__(s): return hash(s.loc)

class ElRef:
    """scalar lvalue: one entry of a view / fixed array."""
    __slots__ = ('view', 'i')
    def __init__(self, view, i): self.view = view; self.i = i
    def __eq__(s, o): return isinstance(o, ElRef) and s.view == o.view and s.i == o.i
    def __hash__(s): return hash((s.view, s.i))

class Ref:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __eq__(s, o): return isinstance(o, Ref) and s.t == o.t
    def __hash__(s): return hash(('ref', s.t))

class Opaque:
    __slots__ = ('name', 'deps')
    def __init__(self, name, deps=EMPTY): self.name = name; self.deps = deps
    def __eq__(s, o): return isinstance(o, Opaque) and s.name == o.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return 'Opaque(%s)' % (s.name,)

class Text(Opaque):
    """content of a character buffer: one of several formatted texts
    (format, argument values); None stands for never written"""
    __slots__ = ('alts',)
    def __init__(self, alts, deps=EMPTY): Opaque.__init__(self, 'text', deps); self.alts = tuple(alts)
    def __eq__(s, o): return isinstance(o, Text) and s.alts == o.alts
    def __hash__(s): return hash(('text', len(s.alts)))
    def __repr__(s): return 'Text(%r)' % (s.alts,)

class PLog(Opaque):
    """texts printed since the last point where the log was not known"""
    __slots__ = ('items',)
    def __init__(self, items): Opaque.__init__(self, 'log'); self.items = tuple(items)
    def __eq__(s, o): return isinstance(o, PLog) and s.items == o.items
    def __hash__(s): return hash(('log', len(s.items)))
    def __repr__(s): return 'PLog(%r)' % (s.items,)
PRINTED = ('L', '<check>', '#printed')

class Choice:
    __slots__ = ('f', 'a', 'b')
    def __init__(self, f, a, b): self.f = f; self.a = a; self.b = b
    def __eq__(s, o): return isinstance(o, Choice) and (s.f, s.a, s.b) == (o.f, o.a, o.b)
    def __hash__(s): return hash((s.f, s.a, s.b))

class Half:
    """square matrix known by triangles: lo (with diagonal) and up."""
    __slots__ = ('lo', 'up')
    def __init__(self, lo, up): self.lo = lo; self.up = up
    def __eq__(s, o): return isinstance(o, Half) and s.lo == o.lo and s.up == o.up
    def __hash__(s): return hash((s.lo, s.up))
    @property
    def rows(s): return s.lo.rows
    @property
    def cols(s): return s.lo.cols
    @property
    def deps(s): return s.lo.deps | s.up.deps
    def __str__(s): return 'half(%s | %s)' % (s.lo, s.up)
    def subst(s, S): return half(S.mat(s.lo), S.mat(s.up))
    def mentions(s, k): return mentions(s.lo, k) or mentions(s.up, k)
def half(lo, up): return lo if lo == up else Half(lo, up)
def lo_of(m): return m.lo if isinstance(m, Half) else m
def up_of(m): return m.up if isinstance(m, Half) else m
def full(m):
    if isinstance(m, Half):
        return mat_of(sym('mix', m.lo, m.up, rows=m.lo.rows, cols=m.lo.cols, name='mix(%s|%s)' % (m.lo, m.up)))
    return m

def mk_tril(m):
    """lower triangular part (with diagonal) of m as a Mat."""
    if not m.t: return m
    if len(m.t) == 1:
        (w, c), = m.t.items()
        if w == (): return m
        if len(w) == 1 and w[0].kind in ('chol', 'tril', 'diag'): return m
        if len(w) == 1 and w[0].kind == 'T' and w[0].args[0].kind == 'triu': return m
    return mat_of(sym('tril', m, rows=m.rows, cols=m.cols))
def mk_triu(m): return mk_tril(m.T()).T()

def mk_chol(m):
    """lower factor of the symmetric matrix whose lower triangle is lo(m)."""
    lo = lo_of(m)
    if len(lo.t) == 1 and () in lo.t:
        return ident(lo.rows).scale(mk_sqrt(lo.t[()]))
    if lo.T() != lo: lo = mat_of(sym('symlow', lo, rows=lo.rows, cols=lo.cols, symm=True))
    return mat_of(sym('chol', lo, rows=lo.rows, cols=lo.cols))

_old_letter = Subst._letter
def _letter2(self, s):
    if s.kind in ('tril', 'chol', 'symlow', 'mix'):
        na = tuple(self.mat(x) for x in s.args)
        if na == s.args: return None
        if s.kind == 'tril': return mk_tril(na[0])
        if s.kind == 'chol': return mk_chol(na[0])
        if s.kind == 'mix' and na[0] == na[1]: return na[0]
        if s.kind == 'symlow' and na[0].T() == na[0]: return na[0]
    return _old_letter(self, s)
Subst._letter = _letter2

class W:
    """one write (or a family of writes) into an array."""
    __slots__ = ('off', 'n', 'val', 'fam', 'cond', 'c0', 'nc')
    def __init__(self, off, n, val, fam=None, cond=None, c0=None, nc=None):
        self.off = off; self.n = n; self.val = val; self.fam = fam; self.cond = cond; self.c0 = c0; self.nc = nc
    def key(s): return (s.off, s.n, s.val, s.fam, s.cond, s.c0, s.nc)
    def __eq__(s, o): return isinstance(o, W) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def with_(s, **k):
        r = W(*s.key())
        for a, b in k.items(): setattr(r, a, b)
        return r
    def subst(s, S):
        fam = s.fam
        if fam: fam = (fam[0], S.poly(fam[1]), S.poly(fam[2]))
        return W(S.any(s.off), S.any(s.n), S.any(s.val), fam, S.any(s.cond), S.any(s.c0), S.any(s.nc))
    def mentions(s, k):
        if s.fam and s.fam[0] is k: return mentions(s.fam[1], k) or mentions(s.fam[2], k)
        return any(mentions(x, k) for x in (s.off, s.n, s.val, s.cond, s.c0, s.nc)) or (s.fam and (mentions(s.fam[1], k) or mentions(s.fam[2], k)))
    def __repr__(s): return 'W[%s;%s%s]%s=%s%s' % (s.off, s.n, '' if s.c0 is None else ',%s;%s' % (s.c0, s.nc), '' if not s.fam else '{%s=%s..%s}' % s.fam, s.val, '' if s.cond is None else ' if %s' % s.cond)

class Pend:
    """content at the head of an iteration of an array that the loop writes:
    entry content, written families (list of (off(k), n)), index atom k, step."""
    __slots__ = ('entry', 'fams', 'k', 'step', 'key', 'rows', 'cols', 'half', 'kind', 'lo')
    def __eq__(s, o): return isinstance(o, Pend) and s.key == o.key and s.entry == o.entry and s.fams == o.fams
    def __hash__(s): return hash((s.key, s.entry))
    def __str__(s): return 'pend%s' % (s.key,)

class Arr:
    """content of a vector/matrix object; immutable.  base: Mat, Half or Pend.
    lin: linear storage (base is a vector of rows*cols entries)."""
    __slots__ = ('rows', 'cols', 'base', 'log', 'lin', '_h')
    def __init__(self, rows, cols, base, log=(), lin=False):
        self.rows = rows; self.cols = cols; self.base = base; self.log = tuple(log); self.lin = lin or cols == ONE; self._h = None
    def key(s): return (s.rows, s.cols, s.base, s.log, s.lin)
    def __eq__(s, o): return isinstance(o, Arr) and s.key() == o.key()
    def __hash__(s):
        if s._h is None: s._h = hash(s.key())
        return s._h
    def size(s): return s.rows * s.cols
    def subst(s, S):
        if isinstance(s.base, Pend): raise Unmodelled('substitution into a pending array')
        return Arr(S.poly(s.rows), S.poly(s.cols), S.any(s.base), [w.subst(S) for w in s.log], s.lin)
    def mentions(s, k):
        return mentions(s.rows, k) or mentions(s.cols, k) or (not isinstance(s.base, Pend) and mentions(s.base, k)) or any(w.mentions(k) for w in s.log)
    @property
    def deps(s):
        d = EMPTY if isinstance(s.base, Pend) else s.base.deps
        for w in s.log:
            d = d | (w.val.deps if hasattr(w.val, 'deps') else EMPTY)
        return d
    def __str__(s): return 'Arr<%s,%s%s>(%s%s)' % (s.rows, s.cols, ',lin' if s.lin and s.cols != ONE else '', s.base, ''.join('; %s' % w for w in s.log))
    __repr__ = __str__

class FArr:
    """small array of constant size: explicit entries."""
    __slots__ = ('v', 'vec')
    def __init__(self, v, vec=False): self.v = tuple(v); self.vec = vec
    def __eq__(s, o): return isinstance(o, FArr) and s.v == o.v
    def __hash__(s): return hash(s.v)
    def subst(s, S): return FArr([S.poly(x) for x in s.v], s.vec)
    def mentions(s, k): return any(mentions(x, k) for x in s.v)
    @property
    def deps(s):
        d = EMPTY
        for x in s.v: d = d | x.deps
        return d
    def __str__(s): return 'FArr%s' % (s.v,)

class OArr:
    """std::vector of matrices; base: Arr/None for every element, letter base
    ('elems', name, Arr template), or Pend; log of element writes."""
    __slots__ = ('n', 'base', 'log', 'et')
    def __init__(self, n, base, log=(), et=None): self.n = n; self.base = base; self.log = tuple(log); self.et = et
    def key(s): return (s.n, s.base, s.log, s.et)
    def __eq__(s, o): return isinstance(o, OArr) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def subst(s, S): return OArr(S.poly(s.n), s.base if not hasattr(s.base, 'subst') else s.base.subst(S), [w.subst(S) for w in s.log], s.et)
    def mentions(s, k): return mentions(s.n, k) or (hasattr(s.base, 'mentions') and s.base.mentions(k)) or any(w.mentions(k) for w in s.log)
    @property
    def deps(s):
        d = EMPTY if s.base is None or isinstance(s.base, Pend) else s.base.deps
        for w in s.log: d = d | w.val.deps
        return d
    def __str__(s): return 'OArr<%s>(%s%s)' % (s.n, s.base, ''.join('; %s' % w for w in s.log))
    __repr__ = __str__

class ElemBase:
    """every element idx is an opaque matrix of a fixed shape: letter(name, idx)."""
    __slots__ = ('name', 'rows', 'cols', 'hf', 'dp')
    def __init__(self, name, rows, cols, hf, dp=EMPTY): self.name = name; self.rows = rows; self.cols = cols; self.hf = hf; self.dp = dp
    def key(s): return (s.name, s.rows, s.cols, s.hf)
    def __eq__(s, o): return isinstance(o, ElemBase) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    @property
    def deps(s): return s.dp
    def at(s, i):
        if s.hf:
            return Arr(s.rows, s.cols, Half(mat_of(sym('elo', s.name, i, rows=s.rows, cols=s.cols, deps=s.dp)), mat_of(sym('eup', s.name, i, rows=s.rows, cols=s.cols, deps=s.dp))))
        return Arr(s.rows, s.cols, mat_of(sym('elm', s.name, i, rows=s.rows, cols=s.cols, deps=s.dp)))
    def __str__(s): return 'elems:%s' % (s.name,)

# ---------------------------------------------------------------- facts
_solvers = {}
_aid = {}
def _atom_ids(p):
    r = _aid.get(p)
    if r is None: r = _aid[p] = tuple(sorted({a for m in p.t for a, _ in m}))
    return r

class Prover:
    """linear consequences of one connected group of facts."""
    def __init__(self, fs):
        self.cache = {}
        self.lins = []
        self.nn = set(); self.pos = set()
        for f in sorted(fs, key=lambda f: (f.op, f.a[0].skey())):
            if f.op in ('lt', 'le'): self.lins.append((f.a[0], f.op == 'lt'))
            else: self.lins.append((f.a[0], False)); self.lins.append((-f.a[0], False))
        for q, st in self.lins:
            # -k*a + c <= 0 with k > 0, c >= 0
            ms = [m for m in q.t if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and q.t[ms[0]] < 0:
                c = q.t.get((), 0)
                if c >= 0:
                    self.nn.add(ms[0][0][0])
                    if c > 0 or st: self.pos.add(ms[0][0][0])
        self.by = {}
        for q, st in self.lins:
            for m in q.t:
                if m: self.by.setdefault(m, []).append((q, st))
    def prove(self, p, strict=False):
        k = (p, strict)
        r = self.cache.get(k)
        if r is None:
            self.cache[k] = False
            r = self._prove(p, strict, 0, frozenset())
            self.cache[k] = r
        return r
    def _prove(self, p, strict, depth, seen):
        if strict and p.isint(): p = p + 1; strict = False
        c = p.const()
        if c is not None: return c < 0 or (c == 0 and not strict)
        # drop negative terms of nonnegative monomials
        rest = {}; low = 0; spos = False
        for m, x in p.t.items():
            if m and x < 0 and self._nn(m):
                if self._pos(m):
                    spos = True
                    if self._int(m): low -= x
                continue
            rest[m] = x
        if not rest or (len(rest) == 1 and () in rest):
            c = rest.get((), 0)
            if c < 0 or (c == 0 and not strict): return True
            if c - low < 0 or (c - low == 0 and not strict): return True
            if c == 0 and strict and spos: return True
        if depth >= 5: return False
        # eliminate a positive monomial (or one of unknown sign)
        ms = [m for m, x in p.t.items() if m and not (x < 0 and self._nn(m))]
        if not ms:
            ms = [m for m, x in p.t.items() if m]
        ms.sort(key=lambda m: (-len(m), m))
        for m in ms[:3]:
            a = p.t[m]
            for q, st in self.by.get(m, ()):
                b = q.t[m]
                if (b > 0) != (a > 0): continue
                p2 = p - q * qd(a, b)
                if p2 in seen: continue
                if self._prove(p2, strict and not st, depth + 1, seen | {p2}): return True
            if len(m) > 1 or m[0][1] > 1:
                for q, st in self.lins:
                    if m in q.t: continue
                    for mult in self._mults(q, m):
                        qq = q * mult
                        b = qq.t.get(m)
                        if b is None or (b > 0) != (a > 0): continue
                        p2 = p - qq * qd(a, b)
                        if p2 in seen: continue
                        if self._prove(p2, strict, depth + 1, seen | {p2}): return True
        return False
    def _mults(self, q, m):
        out = []
        if len(m) <= 3 and all(e > 0 for _, e in m):
            dm = dict(m)
            for qm in q.t:
                if not qm: continue
                d = dict(dm); ok = True
                for a, e in qm:
                    if d.get(a, 0) < e: ok = False; break
                    d[a] -= e
                    if not d[a]: del d[a]
                if ok and d:
                    mm = tuple(sorted(d.items()))
                    if self._nn(mm): out.append(Poly({mm: 1}))
        return out
    def _nn(self, m):
        for a, e in m:
            if e % 2 == 0 or a in self.nn or nonneg_atom(alg._list[a]): continue
            return False
        return True
    def _pos(self, m):
        return all(alg._list[a].sign == '>0' or a in self.pos for a, e in m)
    def _int(self, m):
        return all(e > 0 and alg._list[a].isint for a, e in m)

class Facts:
    """a conjunction; immutable."""
    __slots__ = ('fs', 'set', 'cache')
    def __init__(self, fs=()):
        self.fs = tuple(fs); self.set = frozenset(self.fs); self.cache = {}
    def add(self, f):
        new = []
        for g in (f.a if f.op == 'and' else (f,)):
            if g.op != 'T' and g not in self.set and g not in new: new.append(g)
        for g in list(new):
            # p <= 0 and p != 0: p < 0 for integers
            if g.op == 'not' and g.a[0].op == 'eq' and g.a[0].a[0].isint():
                p = g.a[0].a[0]
                for q in (p, -p):
                    h = cmp_('lt', q)
                    if h.op not in ('T', 'F') and h not in self.set and h not in new and self.prove(q): new.append(h)
        if not new: return self
        r = Facts(self.fs + tuple(new))
        if not any(g.op in ('lt', 'le', 'eq') for g in new):
            for k in ('groups', 'lins'):
                if k in self.cache: r.cache[k] = self.cache[k]
        return r
    def common(self, o): return Facts([f for f in self.fs if f in o.set])
    def either(self, o):
        """what holds where the one or the other holds"""
        c = self.common(o)
        a = [f for f in self.fs if f not in o.set]; b = [f for f in o.fs if f not in self.set]
        if not a or not b or len(a) > 4 or len(b) > 4: return c
        f = for_(fand(*a), fand(*b))
        return c if f.op == 'T' else c.add(f)
    def has(self, f): return f in self.set

    # p <= 0 (strict: p < 0) by nonnegative combinations of facts
    def _groups(self):
        """facts grouped by connected sets of quantities."""
        r = self.cache.get('groups')
        if r is None:
            par = {}
            def find(x):
                while par.get(x, x) != x: x = par[x]
                return x
            ls = []
            for f in self.fs:
                if f.op not in ('lt', 'le', 'eq'): continue
                ids = _atom_ids(f.a[0])
                if not ids: continue
                ls.append((f, ids[0]))
                r0 = find(ids[0])
                for i in ids[1:]:
                    r1 = find(i)
                    if r1 != r0: par[r1] = r0
                par.setdefault(r0, r0)
            by = {}
            for f, i in ls: by.setdefault(find(i), []).append(f)
            r = (par, find, {k: frozenset(v) for k, v in by.items()}, {})
            self.cache['groups'] = r
        return r
    def solver(self, p):
        par, find, by, memo = self._groups()
        ks = frozenset(find(i) for i in _atom_ids(p) if i in par)
        r = memo.get(ks)
        if r is None:
            fs = frozenset().union(*[by[k] for k in ks]) if ks else frozenset()
            r = _solvers.get(fs)
            if r is None: r = _solvers[fs] = Prover(fs)
            memo[ks] = r
        return r
    def prove(self, p, strict=False):
        c = p.const()
        if c is not None: return c < 0 or (c == 0 and not strict)
        return self.solver(p).prove(p, strict)
    def _lins(self):
        r = self.cache.get('lins')
        if r is None:
            r = []
            for f in self.fs:
                if f.op in ('lt', 'le'): r.append((f.a[0], f.op == 'lt'))
                elif f.op == 'eq': r.append((f.a[0], False)); r.append((-f.a[0], False))
            self.cache['lins'] = r
        return r

    def decide(self, f):
        """True / False / None"""
        o = f.op
        if o == 'T': return True
        if o == 'F': return False
        if f in self.set: return True
        if o == 'not':
            d = self.decide(f.a[0])
            return None if d is None else not d
        if fnot(f) in self.set: return False
        if o == 'and':
            r = True
            for i, g in enumerate(f.a):
                d = self.decide(g)
                if d is False: return False
                if d is None: r = None
            if r is None:
                # later conjuncts may assume the earlier ones
                fx = self
                for g in f.a:
                    d = fx.decide(g)
                    if d is False: return False
                    fx = fx.add(g)
            return r
        if o == 'or':
            r = False
            for g in f.a:
                d = self.decide(g)
                if d is True: return True
                if d is None: r = None
            if r is None:
                fx = self; last = None
                for g in f.a:
                    d = fx.decide(g)
                    if d is True: return True
                    fx = fx.add(fnot(g))
            return r
        if o in ('lt', 'le', 'eq'):
            p = f.a[0]
            real = not p.isint()
            if real and not self._clean(p): 
                return self._decide_real(f)
            if o == 'lt':
                if self.prove(p, True): return True
                if self.prove(-p): return False
            elif o == 'le':
                if self.prove(p): return True
                if self.prove(-p, True): return False
            else:
                if self.prove(p) and self.prove(-p): return True
                if self.prove(p, True) or self.prove(-p, True): return False
        return None
    def _clean(self, p):
        """all atoms are integers or configuration values (never NaN)."""
        return all(a.isint or a.kind in ('cfg', 'idx') or (a.kind == 'sqrt' and self._clean(a.args[0])) for a in p.atoms())
    def _decide_real(self, f):
        p = f.a[0]; o = f.op
        # a proved strict/weak inequality from (NaN-free) facts
        if o in ('lt', 'le'):
            # opposite direction refutes
            if self._prove_nan(-p, o == 'le'): return False
            if self._prove_nan2(p, o == 'lt'): return True
        elif o == 'eq':
            if self._prove_nan(p, True) or self._prove_nan(-p, True): return False
        return None
    def _prove_nan(self, p, strict):
        """p <= 0 (p < 0) or p is NaN"""
        return self.prove(p, strict)
    def _prove_nan2(self, p, strict):
        """p <= 0 and not NaN: every atom must occur in a positive comparison fact"""
        if not self.prove(p, strict): return False
        known = set()
        for q, st in self._lins():
            for a in q.atoms(): known.add(a.id)
        return all(a.isint or a.kind == 'cfg' or a.id in known for a in p.atoms())

class FactOracle:
    def __init__(self, eng): self.e = eng
    def nonneg(self, p):
        c = p.const()
        if c is not None: return c >= 0
        return self.e.facts().prove(-p)
    def equal(self, a, b):
        if a == b: return True
        d = a - b
        if d.const() is not None: return False
        fx = self.e.facts()
        return fx.prove(d) and fx.prove(-d)

def simp(p, fx):
    """resolve indicators decided by the facts."""
    if isinstance(p, (Poly,)):
        mp = {}
        for a in p.atoms():
            if a.kind == 'ind':
                d = fx.decide(a.args[0])
                if d is not None: mp[a.id] = ONE if d else ZERO
        return Subst(mp).poly(p) if mp else p
    if isinstance(p, Mat):
        mp = {}
        for w, c in p.t.items():
            for a in c.atoms():
                if a.kind == 'ind':
                    d = fx.decide(a.args[0])
                    if d is not None: mp[a.id] = ONE if d else ZERO
        return Subst(mp).mat(p) if mp else p
    return p

# ---------------------------------------------------------------- polynomial division
def divmod_poly(p, d):
    """p = q*d + r with the natural elimination by the leading monomial of d."""
    if d.const() is not None:
        q = Poly({m: qd(c, d.const()) for m, c in p.t.items() if qd(c, d.const()).denominator == 1})
        return q, p - q * d
    lm = max(d.t, key=lambda m: (sum(e for _, e in m), m))
    lc = d.t[lm]
    q = ZERO; r = p
    for _ in range(20):
        hit = None
        for m, c in r.t.items():
            dd = dict(m); ok = True
            for a, e in lm:
                if dd.get(a, 0) < e: ok = False; break
                dd[a] -= e
                if not dd[a]: del dd[a]
            if ok:
                hit = (tuple(sorted(dd.items())), qd(c, lc)); break
        if hit is None: break
        t = Poly({hit[0]: hit[1]})
        q = q + t; r = r - t * d
    return q, r

def lin_in(p, k):
    """p = a*k + b with k not in a, b -> (a, b) or None"""
    a = {}; b = {}
    for m, c in p.t.items():
        dd = dict(m)
        e = dd.pop(k.id, 0)
        if e == 0: b[m] = c
        elif e == 1: a[tuple(sorted(dd.items()))] = c
        else: return None
    A, B = Poly(a), Poly(b)
    if mentions(A, k) or mentions(B, k): return None
    return A, B
