"""State, values and matrix helpers of the abstract interpreter."""
from mem import *
import mem as memmod

class EPtr:
    """pointer to an entry of linear storage (double*)."""
    __slots__ = ('loc', 'off')
    def __init__(s, loc, off=ZERO): s.loc = loc; s.off = off
    def __eq__(s, o): return isinstance(o, EPtr) and s.loc == o.loc and s.off == o.off
    def __hash__(s): return hash(('e', s.loc, s.off))
    def __repr__(s): return 'data(%s)+%s' % (s.loc, s.off)

class VecObj:
    """std::vector of objects; elements live at loc + (('#', i),)."""
    __slots__ = ('n', 'et')
    def __init__(s, n, et): s.n = n; s.et = et
    def __eq__(s, o): return isinstance(o, VecObj) and s.n == o.n
    def __hash__(s): return hash(('vo', s.n))

class Undef:
    """indeterminate value"""
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    def __eq__(s, o): return isinstance(o, Undef)
    def __hash__(s): return 7
    def __repr__(s): return '<indeterminate>'

class Str:
    __slots__ = ('s',)
    def __init__(s, v): s.s = v
    def __eq__(s, o): return isinstance(o, Str) and s.s == o.s
    def __hash__(s): return hash(s.s)

class Lazy:
    """unevaluated Eigen expression bound to a name"""
    __slots__ = ('n', 'fr')
    def __init__(s, n, fr): s.n = n; s.fr = fr
    def __eq__(s, o): return isinstance(o, Lazy) and s.n is o.n and s.fr is o.fr
    def __hash__(s): return id(s.n)

class Lam:
    __slots__ = ('n', 'fr', 'caps')
    def __init__(s, n, fr, caps): s.n = n; s.fr = fr; s.caps = caps
    def __eq__(s, o): return isinstance(o, Lam) and s.n is o.n and s.fr is o.fr
    def __hash__(s): return id(s.n)

class Tuple:
    __slots__ = ('kind', 'v')
    def __init__(s, kind, *v): s.kind = kind; s.v = v
    def __eq__(s, o): return isinstance(o, Tuple) and s.kind == o.kind and s.v == o.v
    def __hash__(s): return hash((s.kind, s.v))
    def __repr__(s): return '%s%s' % (s.kind, s.v)

class View:
    """Eigen lvalue expression over storage."""
    __slots__ = ('loc', 'off', 'r0', 'c0', 'rows', 'cols', 'ld', 'tr', 'mode', 'na', 'arr', 'whole')
    def __init__(s, loc, off, r0, c0, rows, cols, ld, tr=False, mode=None, na=False, arr=False, whole=False):
        s.loc = loc; s.off = off; s.r0 = r0; s.c0 = c0; s.rows = rows; s.cols = cols; s.ld = ld
        s.tr = tr; s.mode = mode; s.na = na; s.arr = arr; s.whole = whole
    def key(s): return (s.loc, s.off, s.r0, s.c0, s.rows, s.cols, s.ld, s.tr, s.mode, s.na, s.arr)
    def __eq__(s, o): return isinstance(o, View) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def with_(s, **k):
        r = View(s.loc, s.off, s.r0, s.c0, s.rows, s.cols, s.ld, s.tr, s.mode, s.na, s.arr, s.whole)
        for a, b in k.items(): setattr(r, a, b)
        return r
    def shape(s): return (s.cols, s.rows) if s.tr else (s.rows, s.cols)
    def subst(s, S):
        r = s.with_()
        for a in ('off', 'r0', 'c0', 'rows', 'cols', 'ld'): setattr(r, a, S.poly(getattr(s, a)))
        return r
    def mentions(s, k): return any(mentions(getattr(s, a), k) for a in ('off', 'r0', 'c0', 'rows', 'cols', 'ld'))
    def lin(s):
        """(start, length) when contiguous, else None"""
        if s.cols == ONE: return s.off + s.r0 + s.c0 * s.ld, s.rows
        if not s.r0.t and s.rows == s.ld: return s.off + s.c0 * s.ld, s.rows * s.cols
        return None
    def __repr__(s): return 'View(%s@%s+%s,%s;%sx%s/%s%s%s)' % (s.loc, s.off, s.r0, s.c0, s.rows, s.cols, s.ld, "'" if s.tr else '', s.mode or '')

class EV:
    """Eigen rvalue: value and the storage it was computed from.
    leaves: tuple of (View, how), how in 'cw' (coefficientwise), 'prod'
    (evaluated into a temporary by Eigen), 'lazy' (read while writing)."""
    __slots__ = ('m', 'leaves', 'mode', 'arr', 'diag')
    def __init__(s, m, leaves=(), mode=None, arr=False, diag=False):
        s.m = m; s.leaves = tuple(leaves); s.mode = mode; s.arr = arr; s.diag = diag
    def __eq__(s, o): return isinstance(o, EV) and s.m == o.m
    def __hash__(s): return hash(s.m)

class FL:
    """small constant-size array value (list of scalars)"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = tuple(v)

class LdltVal:
    """factorisation object"""
    __slots__ = ('kind', 'm', 'n', 'ref')
    def __init__(s, kind, m, n, ref=None): s.kind = kind; s.m = m; s.n = n; s.ref = ref
    def __eq__(s, o): return isinstance(o, LdltVal) and (s.kind, s.m, s.n, s.ref) == (o.kind, o.m, o.n, o.ref)
    def __hash__(s): return hash((s.kind, s.m))
    def subst(s, S): return LdltVal(s.kind, None if s.m is None else S.any(s.m), S.poly(s.n), s.ref)
    def mentions(s, k): return s.m is not None and mentions(s.m, k)
    @property
    def deps(s): return EMPTY if s.m is None else s.m.deps

class Barrier:
    """log marker: elements of this range are being written by the loop over k"""
    __slots__ = ('k', 'c')
    def __init__(s, k, c): s.k = k; s.c = c
    def __eq__(s, o): return isinstance(o, Barrier) and s.k is o.k and s.c == o.c
    def __hash__(s): return hash((s.k.id, s.c))
    deps = EMPTY
    def subst(s, S): return s
    def mentions(s, k): return False

# Mat | Half arithmetic
def m_add(a, b, k=ONE):
    k = poly(k)
    if isinstance(a, Half) or isinstance(b, Half):
        return half(lo_of(a).add(lo_of(b), k), up_of(a).add(up_of(b), k))
    return a.add(b, k)
def m_scale(a, k):
    return half(a.lo.scale(k), a.up.scale(k)) if isinstance(a, Half) else a.scale(k)
def m_mul(a, b): return full(a).mul(full(b))
def m_T(a): return half(a.up.T(), a.lo.T()) if isinstance(a, Half) else a.T()
def sel(off, n, total):
    if not off.t and n == total: return ident(n)
    return mat_of(sel_sym(off, n, total))

class State:
    __slots__ = ('mem', 'facts')
    def __init__(self, mem=None, facts=None):
        self.mem = {} if mem is None else mem
        self.facts = facts or Facts()
    def copy(self): return State(dict(self.mem), self.facts)

class Out:
    __slots__ = ('k', 'st', 'v')
    def __init__(self, k, st, v=None): self.k = k; self.st = st; self.v = v

class Frame:
    __slots__ = ('fn', 'key', 'this', 'parent', 'rettype', 'call', 'caps')
    def __init__(self, fn, key, this, parent, call): self.fn = fn; self.key = key; self.this = this; self.parent = parent; self.call = call; self.caps = None

class Dead(Exception):
    """the current path ends (throw)"""
class Thrown(Dead):
    pass

class Event:
    __slots__ = ('kind', 'file', 'line', 'fn', 'msg', 'facts', 'data', 'stack', 'st')
    def __init__(s, **k):
        for a in Event.__slots__: setattr(s, a, k.get(a))
    def __repr__(s): return '%s:%s %s %s' % (s.file, s.line, s.kind, s.msg)

import re
def base_type(t):
    t = t or ''
    t = t.strip()
    while True:
        o = t
        if t.startswith('const '): t = t[6:]
        if t.endswith(' const'): t = t[:-6]
        if t.endswith('&'): t = t[:-1]
        t = t.strip()
        if t == o: return t
def is_ref(t): return t.strip().endswith('&')
def is_ptr(t):
    t = base_type(t); return t.endswith('*')
_mre = re.compile(r'^Eigen::(?:Matrix|Array)<double, ?(-?\d+), ?(-?\d+)')
def eig_mat(t):
    m = _mre.match(base_type(t))
    return (int(m.group(1)), int(m.group(2))) if m else None
INTS = {'int', 'long', 'unsigned int', 'unsigned long', 'short', 'char', 'unsigned char', 'unsigned short', 'long long', 'unsigned long long', 'signed char', 'std::size_t', 'size_t', 'std::ptrdiff_t', 'Eigen::Index'}
FLTS = {'double', 'float', 'long double'}
def simple(name):
    """last component of a qualified name, template arguments stripped."""
    depth = 0; cut = 0; i = len(name) - 1
    # operator names first
    k = name.rfind('::operator')
    if k >= 0: return name[k + 2:]
    if name.startswith('operator'): return name
    while i >= 0:
        c = name[i]
        if c == '>': depth += 1
        elif c == '<': depth -= 1
        elif c == ':' and depth == 0: cut = i + 1; break
        i -= 1
    s = name[cut:]
    j = s.find('<')
    return s[:j] if j > 0 else s
