"""Model of the Eigen and standard library operations used by the analysed
code: array contents, views, products, factorisations, reductions."""
from core import *
from prog import walk

MODES = {'1': 'Lower', '2': 'Upper', '5': 'UnitLower', '6': 'UnitUpper', '9': 'StrictlyLower', '10': 'StrictlyUpper'}
FLIP = {'Lower': 'Upper', 'Upper': 'Lower', 'UnitLower': 'UnitUpper', 'UnitUpper': 'UnitLower', 'StrictlyLower': 'StrictlyUpper', 'StrictlyUpper': 'StrictlyLower', 'SAL': 'SAL', 'SAU': 'SAU', None: None, 'diag': 'diag'}
DECOMP = {'LLT', 'LDLT', 'PartialPivLU', 'FullPivLU', 'HouseholderQR', 'ColPivHouseholderQR'}

def has_undef(x): return any(d[0] == 'undef' for d in x.deps)

def flatten(m):
    """column-major vector of a matrix value."""
    n = m.rows * m.cols
    if m.cols == ONE: return m
    if isinstance(m, Half): m = full(m)
    out = zeros(n, ONE)
    for w, c in m.t.items():
        if len(w) == 1 and w[0].kind == 'mapblk':
            s = w[0]
            x = sel(s.args[1], n, s.args[0].rows).mul(mat_of(s.args[0]))
        else:
            x = mat_of(sym('vecm', Mat({w: ONE}, m.rows, m.cols), rows=n, cols=ONE, name='vec(%s)' % wname(w)))
        out = out.add(x, c)
    return Mat(out.t, n, ONE)

def unflatten(x, rows, cols):
    if cols == ONE: return Mat(x.t, rows, ONE)
    out = zeros(rows, cols)
    for w, c in x.t.items():
        l = None
        if len(w) == 1 and w[0].kind == 'vecm' and w[0].args[0].rows == rows and w[0].args[0].cols == cols: y = w[0].args[0]
        elif len(w) == 1: y = mapblk(mat_of(w[0]), ZERO, rows, cols)
        elif len(w) == 2 and w[0].kind == 'sel': y = mapblk(mat_of(w[1]), w[0].args[0], rows, cols)
        elif len(w) == 2 and w[0].kind == 'T' and w[0].args[0].kind == 'sel' and w[1].kind == 'vecm' and w[1].args[0].rows == rows and \
                w[1].args[0].cols == ONE and (divmod_poly(w[0].args[0].args[0], rows)[1] == ZERO):
            # one column of a matrix
            j = divmod_poly(w[0].args[0].args[0], rows)[0]
            y = w[1].args[0].mul(sel(j, ONE, cols))
        else: y = mapblk(Mat({w: ONE}, x.rows, ONE), ZERO, rows, cols)
        out = out.add(y, c)
    return Mat(out.t, rows, cols)

_oldl = Subst._letter
def _letter3(self, s):
    if s.kind == 'vecm':
        m = self.mat(s.args[0])
        return None if m == s.args[0] else flatten(m)
    return _oldl(self, s)
Subst._letter = _letter3

class EigMixin:
    # ------------------------------------------------------------ contents
    def ne0(self, n):
        return O_equal(n, ZERO)
    def contained(self, o1, n1, o2, n2):
        """[o1,o1+n1) within [o2,o2+n2)"""
        return (o1 == o2 or O_nonneg(o1 - o2)) and O_nonneg(o2 + n2 - o1 - n1)
    def disjoint(self, o1, n1, o2, n2):
        return O_nonneg(o2 - o1 - n1) or O_nonneg(o1 - o2 - n2)
    def arr_read(self, a, off, n, c0=None, nc=None):
        if a.lin: return self.lin_read(a, off, n)
        return self.rect_read(a, off, n, c0, nc)
    def arr_all(self, a):
        if a.lin: return self.lin_read(a, ZERO, a.size())
        return self.rect_read(a, ZERO, a.rows, ZERO, a.cols)
    def arr_write(self, a, off, n, val, c0=None, nc=None):
        if val is None: raise Unmodelled('merge of array contents')
        if a.lin: return self.lin_write(a, off, n, val)
        return self.rect_write(a, off, n, c0, nc, val)
    def base_of(self, a):
        if isinstance(a.base, Pend): raise Unmodelled('pending array')
        return a.base
    def lin_read(self, a, off, n):
        return Mat(self._lr(a, len(a.log), off, n).t, n, ONE)
    def _lr(self, a, i, off, n, depth=0):
        if n == ONE: return from_scalar(self._le(a, i, off))
        if self.ne0(n): return zeros(n, ONE)
        if depth > 40: raise Unmodelled('array content too fragmented')
        while i > 0:
            w = a.log[i - 1]
            if isinstance(w.val, Barrier): raise Unmodelled('read of an array that the enclosing loop is writing')
            if (w.off == off or O_equal(w.off, off)) and (w.n == n or O_equal(w.n, n)): return w.val
            if self.disjoint(off, n, w.off, w.n): i -= 1; continue
            if self.contained(off, n, w.off, w.n): return sel(off - w.off, n, w.n).mul(w.val)
            # split the request at the ends of the write
            cuts = []
            for p in (w.off, w.off + w.n):
                if O_nonneg(p - off) and O_nonneg(off + n - p):
                    cuts.append(p)
                elif O_nonneg(off - p) or O_nonneg(p - off - n): pass
                else: raise Unmodelled('cannot order %s and [%s;%s)' % (p, off, n))
            pts = [off] + cuts + [off + n]
            out = zeros(n, ONE)
            for p, q in zip(pts, pts[1:]):
                ln = q - p
                if self.ne0(ln): continue
                piece = self._lr(a, i, p, ln, depth + 1)
                out = out.add(sel(p - off, ln, n).T().mul(Mat(piece.t, ln, ONE)))
            return out
        b = self.base_of(a)
        N = a.size()
        if not b.t: return zeros(n, ONE)
        if (not off.t or O_equal(off, ZERO)) and (n == N or O_equal(n, N)): return b
        return sel(off, n, N).mul(b)
    def _le(self, a, i, k):
        """entry k of linear storage."""
        gates = []
        r = None
        while i > 0:
            w = a.log[i - 1]
            if isinstance(w.val, Barrier):
                if k == poly(w.val.k) + w.val.c: i -= 1; continue
                raise Unmodelled('read of an array that the enclosing loop is writing')
            if w.n == ONE and w.off == k: r = scalar_of(w.val); break
            if self.disjoint(k, ONE, w.off, w.n): i -= 1; continue
            v = scalar_of(w.val) if w.n == ONE else elem(w.val, k - w.off)
            if self.contained(k, ONE, w.off, w.n): r = v; break
            g = eq(k, w.off) if w.n == ONE else fand(le(w.off, k), lt(k, w.off + w.n))
            gates.append((g, v)); i -= 1
        if r is None:
            b = self.base_of(a)
            r = elem(b, k) if a.size() != ONE else scalar_of(b) if any(w == () for w in b.t) else elem(b, ZERO)
        for g, v in reversed(gates): r = ite(g, v, r)
        return r
    def lin_write(self, a, off, n, val):
        if self.ne0(n): return a
        N = a.size()
        if (not off.t) and (n == N or O_equal(n, N)):
            return Arr(a.rows, a.cols, Mat(val.t, N, ONE), (), True)
        log = list(a.log)
        bar = max([i for i, w in enumerate(log) if isinstance(w.val, Barrier)], default=-1)
        log = [w for i, w in enumerate(log) if i <= bar or not self.contained(w.off, w.n, off, n)]
        log.append(W(off, n, val))
        return Arr(a.rows, a.cols, a.base, log, True)
    # two-dimensional
    def subm(self, v, dr, n, dc, nc, R, C):
        if isinstance(v, Half):
            if dr == dc and n == nc: return half(self.subm(v.lo, dr, n, dc, nc, R, C), self.subm(v.up, dr, n, dc, nc, R, C))
            if O_nonneg(dr - dc - nc + 1) : return self.subm(v.lo, dr, n, dc, nc, R, C)
            if O_nonneg(dc - dr - n): return self.subm(v.up, dr, n, dc, nc, R, C)
            v = full(v)
        if not dr.t and not dc.t and n == R and nc == C: return v
        return sel(dr, n, R).mul(v).mul(sel(dc, nc, C).T())
    def rect_read(self, a, r0, n, c0, nc, want=None, i=None, depth=0):
        if self.ne0(n) or self.ne0(nc): return zeros(n, nc)
        if i is None: i = len(a.log)
        if depth > 6: raise Unmodelled('matrix content too fragmented')
        while i > 0:
            w = a.log[i - 1]
            if isinstance(w.val, Barrier): raise Unmodelled('read of a matrix that the enclosing loop is writing')
            if O_equal(w.off, r0) and O_equal(w.n, n) and O_equal(w.c0, c0) and O_equal(w.nc, nc): return w.val
            if self.disjoint(r0, n, w.off, w.n) or self.disjoint(c0, nc, w.c0, w.nc): i -= 1; continue
            if self.contained(r0, n, w.off, w.n) and self.contained(c0, nc, w.c0, w.nc):
                return self.subm(w.val, r0 - w.off, n, c0 - w.c0, nc, w.n, w.nc)
            return self.cells(a, r0, n, c0, nc, want, i, depth)
        return self.subm(self.base_of(a), r0, n, c0, nc, a.rows, a.cols)
    def order(self, pts):
        out = []
        for p in pts:
            k = 0; done = False
            for k, q in enumerate(out):
                if O_equal(p, q): done = True; break
                if O_nonneg(q - p): out.insert(k, p); done = True; break
                if not O_nonneg(p - q): raise Unmodelled('cannot order %s and %s' % (p, q))
            if not done: out.append(p)
        return out
    def cells(self, a, r0, n, c0, nc, want, i, depth):
        rs, cs = [r0, r0 + n], [c0, c0 + nc]
        for w in a.log[:i]:
            if self.disjoint(r0, n, w.off, w.n) or self.disjoint(c0, nc, w.c0, w.nc): continue
            for lst, p, lo, ln in ((rs, w.off, r0, n), (rs, w.off + w.n, r0, n), (cs, w.c0, c0, nc), (cs, w.c0 + w.nc, c0, nc)):
                if O_nonneg(lo - p) or O_nonneg(p - lo - ln): continue
                lst.append(p)
        square = r0 == c0 and n == nc
        if square: rs = cs = self.order(rs + cs)
        else: rs = self.order(rs); cs = self.order(cs)
        if len(rs) > 8 or len(cs) > 8: raise Unmodelled('matrix content too fragmented')
        if len(rs) == 2 and len(cs) == 2: raise Unmodelled('cannot place a write inside a matrix')
        def put(x, p, ln, q, lc): return sel(p - r0, ln, n).T().mul(x).mul(sel(q - c0, lc, nc))
        C = {}
        for x, (p, p2) in enumerate(zip(rs, rs[1:])):
            for y, (q, q2) in enumerate(zip(cs, cs[1:])):
                if want == 'lo' and square and y > x or want == 'up' and square and x > y: continue
                C[x, y] = (self.rect_read(a, p, p2 - p, q, q2 - q, want, i, depth + 1), p, p2 - p, q, q2 - q)
        out = zeros(n, nc)
        if want in ('lo', 'up') and square:
            for (x, y), (v, p, ln, q, lc) in C.items():
                if x == y: out = out.add(put(lo_of(v) if want == 'lo' else up_of(v), p, ln, q, lc))
                else:
                    m = put(full(v), p, ln, q, lc)
                    out = out.add(m).add(m.T())
            return Mat(out.t, n, nc)
        if square and any(isinstance(v[0], Half) for v in C.values()):
            return half(self.rect_read(a, r0, n, c0, nc, 'lo', i, depth + 1), self.rect_read(a, r0, n, c0, nc, 'up', i, depth + 1))
        for v, p, ln, q, lc in C.values(): out = out.add(put(v, p, ln, q, lc))
        return Mat(out.t, n, nc)
    def rect_write(self, a, r0, n, c0, nc, val):
        if self.ne0(n) or self.ne0(nc): return a
        if not r0.t and not c0.t and O_equal(n, a.rows) and O_equal(nc, a.cols): return Arr(a.rows, a.cols, val, ())
        log = [w for w in a.log if not (self.contained(w.off, w.n, r0, n) and self.contained(w.c0, w.nc, c0, nc))]
        log.append(W(r0, n, val, c0=c0, nc=nc))
        return Arr(a.rows, a.cols, a.base, log)
    def to_lin(self, loc, n=None):
        a = self.st.mem[loc]
        if a.lin: return a
        v = self.arr_all(a)
        r = Arr(a.rows, a.cols, flatten(v), (), True)
        self.st.mem[loc] = r
        return r

    # ------------------------------------------------------------ views
    def stored(self, v, n=None):
        a = self.st.mem.get(v.loc)
        if isinstance(a, Ref): a = self.st.mem.get(a.t.loc)
        if a is None: self.ended(v.loc, n); self.unmodelled(n, 'unknown storage %s' % (v.loc,))
        return a
    def view_read(self, v, n, want=None):
        a = self.stored(v, n)
        if isinstance(a, FArr): return self.farr_mat(a, v, n)
        if not isinstance(a, Arr): self.unmodelled(n, 'view of %r' % (a,))
        if not a.lin:
            if v.off.t or not (v.ld == a.rows or O_equal(v.ld, a.rows)): a = self.to_lin(v.loc)
        if a.lin:
            l = v.lin()
            if l is not None:
                x = self.lin_read(a, l[0], l[1])
                if a.log or len(x.t) != 1 or not a.base.t or v.cols == ONE: m = unflatten(x, v.rows, v.cols)
                else: m = mapblk(a.base, l[0], v.rows, v.cols)
            else:
                c = v.cols.const()
                if v.rows == ONE and c is None and v.ld == ONE:
                    m = self.lin_read(a, v.off + v.r0 + v.c0, v.cols).T()
                elif c is not None and c <= 8:
                    m = zeros(v.rows, v.cols)
                    for j in range(int(c)):
                        x = self.lin_read(a, v.off + v.r0 + (v.c0 + j) * v.ld, v.rows)
                        m = m.add(x.mul(sel(poly(j), ONE, v.cols)))
                elif not a.log:
                    whole = mapblk(a.base, v.off, v.ld, divmod_poly(a.size() - v.off, v.ld)[0])
                    m = self.subm(whole, v.r0, v.rows, v.c0, v.cols, whole.rows, whole.cols)
                else: self.unmodelled(n, 'strided view')
        else: m = self.rect_read(a, v.r0, v.rows, v.c0, v.cols, want)
        return m
    def farr_mat(self, a, v, n):
        off = v.off + v.r0 + v.c0 * v.ld
        o = off.const(); k = (v.rows * v.cols).const()
        if o is None or k is None: self.unmodelled(n, 'symbolic part of a fixed array')
        out = zeros(poly(k), ONE)
        for i in range(int(k)):
            x = self.farr_get(a, int(o) + i, v.loc, n)
            out = out.add(sel(poly(i), ONE, poly(k)).T().scale(x))
        return Mat(out.t, v.rows, v.cols)
    def farr_get(self, a, i, loc, n):
        x = a.v[i]
        if isinstance(x, Undef):
            self.event('undef', n, 'read of an indeterminate array entry', loc)
            x = self.fresh_scalar(('undef', str(loc), i), 'double', deps=frozenset([('undef', str(loc))]))
        return x
    def mat(self, v, n=None, want=None, use=True):
        """value of an Eigen expression as Mat | Half, in presented orientation."""
        if isinstance(v, (SLoc, ElRef)): v = self.rval(v, n)
        if isinstance(v, Lazy): v = self.ev_in(v.n, v.fr)
        if isinstance(v, EV): return v.m
        if isinstance(v, Poly): return from_scalar(v)
        if isinstance(v, FL):
            k = poly(len(v.v)); out = zeros(k, ONE)
            for i, x in enumerate(v.v): out = out.add(sel(poly(i), ONE, k).T().scale(x))
            return out
        if not isinstance(v, View): self.unmodelled(n, 'matrix expected, got %r' % (v,))
        if v.mode == 'diag': return self.diag_vec(self.mat(v.with_(mode=None), n), n)
        sm = FLIP[v.mode] if v.tr else v.mode
        want = want or {'Lower': 'lo', 'SAL': 'lo', 'UnitLower': 'lo', 'StrictlyLower': 'lo', 'Upper': 'up', 'SAU': 'up', 'UnitUpper': 'up', 'StrictlyUpper': 'up'}.get(sm)
        m = self.view_read(v.with_(mode=None), n, want)
        if want == 'lo': m = lo_of(m)
        elif want == 'up': m = up_of(m)
        if sm == 'Lower': m = mk_tril(m)
        elif sm == 'Upper': m = mk_triu(m)
        elif sm in ('SAL', 'SAU'):
            if m.T() != m: m = mat_of(sym('symlow', m if sm == 'SAL' else m.T(), rows=m.rows, cols=m.cols, symm=True))
        elif sm: m = mat_of(sym(sm, m, rows=m.rows, cols=m.cols))
        if v.tr: m = m_T(m)
        if use and has_undef(m): self.event('undef', n, 'use of an uninitialised vector or matrix', (v.loc, sorted({str(d) for d in m.deps if d[0] == 'undef'})))
        return m
    def diag_vec(self, m, n):
        m = full(m)
        if len(m.t) == 0: return zeros(m.rows, ONE)
        out = zeros(m.rows, ONE)
        for w, c in m.t.items():
            if w == (): x = ones(m.rows)
            elif len(w) == 1 and w[0].kind == 'diag': x = elemwise(w[0].args[0], m.rows)
            else: x = mat_of(sym('dg', Mat({w: ONE}, m.rows, m.cols), rows=m.rows, cols=ONE))
            out = out.add(x, c)
        return Mat(out.t, m.rows, ONE)
    def as_ev(self, v, n=None):
        if isinstance(v, (SLoc, ElRef)): v = self.rval(v, n)
        if isinstance(v, EV): return v
        if isinstance(v, View): return EV(self.mat(v, n), ((v, 'cw'),), arr=v.arr)
        if isinstance(v, (Poly, F)): return EV(from_scalar(self.num(v)))
        if isinstance(v, FL): return EV(self.mat(v, n))
        self.unmodelled(n, 'matrix expression expected, got %r' % (v,))
    def shape(self, v, n=None):
        if isinstance(v, View): return (v.cols, v.rows) if v.tr else (v.rows, v.cols)
        if isinstance(v, EV): return v.m.rows, v.m.cols
        if isinstance(v, FL): return poly(len(v.v)), ONE
        self.unmodelled(n, 'shape of %r' % (v,))
    def check_shape(self, n, r1, r2, what):
        self.oblige('shape', n)
        if r1 == r2 or O_equal(r1, r2): return True
        self.event('shape', n, '%s: %s versus %s' % (what, r1, r2), (r1, r2))
        return False
    def overlap(self, d, v):
        """'same' | 'part' | None"""
        if d.loc != v.loc: return None
        a = self.st.mem.get(d.loc)
        if isinstance(a, Arr) and a.lin or not isinstance(a, Arr):
            l1, l2 = d.lin(), v.lin()
            if l1 and l2:
                if O_equal(l1[0], l2[0]) and O_equal(l1[1], l2[1]): return 'same'
                return None if self.disjoint(l1[0], l1[1], l2[0], l2[1]) else 'part'
        if O_equal(d.r0, v.r0) and O_equal(d.c0, v.c0) and O_equal(d.rows, v.rows) and O_equal(d.cols, v.cols): return 'same'
        if self.disjoint(d.r0, d.rows, v.r0, v.rows) or self.disjoint(d.c0, d.cols, v.c0, v.cols): return None
        return 'part'
    def alias_check(self, d, e, n):
        if not isinstance(e, EV): return
        for v, how in e.leaves:
            o = self.overlap(d, v)
            self.oblige('alias', n)
            if o is None: continue
            bad = False
            if how == 'cw': bad = not (o == 'same' and (d.tr == v.tr or ONE in (v.rows, v.cols)))
            elif how == 'prod': bad = d.na
            elif how == 'lazy': bad = True
            if how == 'cw' and bad and d.na is False and isinstance(e, EV) and o == 'same' and False: bad = False
            if bad: self.event('alias', n, 'the destination is read while it is being written (%s)' % how, (d, v, how))
    def is_expr(self, v): return isinstance(v, (View, EV, FL))
    def farr_list(self, v, n):
        """explicit scalars of a small constant-size vector expression, or None"""
        if isinstance(v, FL): return list(v.v)
        if isinstance(v, View):
            a = self.st.mem.get(v.loc)
            if isinstance(a, FArr):
                o = (v.off + v.r0 + v.c0 * v.ld).const(); k = (v.rows * v.cols).const()
                if o is None or k is None: self.unmodelled(n, 'symbolic part of a fixed array')
                return [self.farr_get(a, int(o) + i, v.loc, n) for i in range(int(k))]
        if isinstance(v, Tuple) and v.kind == 'ilist': return [self.num(x, n) for x in v.v]
        return None
    def eig_assign(self, d, v, op, n):
        if isinstance(d, SLoc): d = self.rval(d, n)
        if isinstance(v, (SLoc, ElRef)): v = self.rval(v, n)
        if not isinstance(d, View): self.unmodelled(n, 'assignment to %r' % (d,))
        a = self.stored(d, n)
        if isinstance(a, FArr): return self.farr_assign(d, a, v, op, n)
        scalar = isinstance(v, (Poly, F, Opaque))
        if d.mode == 'diag':
            base = d.with_(mode=None, arr=False)
            m = full(self.mat(base, n))
            cur = self.diag_vec(m, n)
            x = ones(m.rows).scale(self.num(v)) if scalar else full(self.mat(v, n))
            new = {'=': x, '+=': cur.add(x), '-=': cur.add(x, poly(-1))}.get(op)
            if op in ('*=', '/='): new = cur.scale(self.num(v) if op == '*=' else inv(self.num(v)))
            if new is None: self.unmodelled(n, 'diagonal %s' % op)
            self.view_write(base, m.add(asdiag(new).add(asdiag(cur), poly(-1))), n); return d
        if op in ('*=', '/=') and scalar:
            k = self.num(v)
            if op == '/=': k = inv(k)
            m = self.mat(d.with_(mode=None) if d.mode else d, n)
            if d.mode: self.unmodelled(n, 'scaling of a triangular part')
            self.view_write(d, m_scale(m, k), n); return d
        if scalar:
            k = self.num(v)
            m = self.mat(d, n) if op != '=' else None
            r, c = self.shape(d)
            if c == ONE: x = ones(r).scale(k)
            elif r == ONE: x = ones(c).scale(k).T()
            elif k == ZERO: x = zeros(r, c)
            else: x = mat_of(sym('ones', rows=r, cols=c)).scale(k)
            new = x if op == '=' else m_add(m, x, ONE if op == '+=' else poly(-1))
            self.view_write(d, new, n); return d
        e = self.as_ev(v, n)
        if e.diag and False: pass
        val = e.m
        self.alias_check(d, e, n)
        if op in ('*=', '/='):
            if d.arr: val = self.cwise(lambda x, y: x * y if op == '*=' else x / y, n, self.mat(d, n), val)
            else: val = m_mul(self.mat(d, n), val)
            op = '='
        r, c = self.shape(d)
        if op == '=' and d.whole and not d.mode:
            if not (O_equal(r, val.rows) and O_equal(c, val.cols)):
                if self.stored(d, n).lin and a.cols == ONE and val.cols != ONE and O_equal(val.rows, ONE): val = m_T(val)
                if self.is_fixed_storage(d): self.check_shape(n, r, val.rows, 'rows of an assignment'); self.check_shape(n, c, val.cols, 'columns of an assignment')
                self.st.mem[d.loc] = Arr(val.rows, val.cols, val if val.cols != ONE else full(val), ())
                return d
        else:
            ok = self.check_shape(n, r, val.rows, 'rows of an assignment') & self.check_shape(n, c, val.cols, 'columns of an assignment')
            if not ok: 
                self.view_write(d, self.junk(d, n), n); return d
        if d.mode:
            sm = FLIP[d.mode] if d.tr else d.mode
            b = d.with_(mode=None, tr=False)
            if d.tr: val = m_T(val)
            cur = self.view_read(b, n)
            if sm == 'Lower':
                x = lo_of(val)
                if op != '=':
                    cl = lo_of(self.mat(b, n, 'lo'))
                    x = cl.add(x, ONE if op == '+=' else poly(-1))
                new = half(x, up_of(cur))
            elif sm == 'Upper':
                x = up_of(val)
                if op != '=': x = up_of(self.mat(b, n, 'up')).add(x, ONE if op == '+=' else poly(-1))
                lo = lo_of(cur)
                if has_undef(lo) or lo.T() == x or lo == x: new = half(lo if lo == x or not has_undef(lo) else lo, x)
                else: new = half(mat_of(sym('dgset', lo, x, rows=lo.rows, cols=lo.cols)), x)
            else: self.unmodelled(n, 'assignment to a %s view' % d.mode)
            self.view_write(b, new, n); return d
        if op != '=':
            val = m_add(self.mat(d, n), val, ONE if op == '+=' else poly(-1))
        if isinstance(val, Mat) and val.cols == ONE and len(val.t) > DEF_LIMIT[0] and all(isvecword(w) and len(w) <= 2 and (len(w) == 1 or w[0].kind == 'sel') for w in val.t):
            val = elemwise(mk_def(elem(val, PIDX)), val.rows)
        elif isinstance(val, Mat): val = mk_vdef(val)
        self.view_write(d, val, n)
        return d
    def is_fixed_storage(self, d): return False
    def junk(self, d, n):
        r, c = self.shape(d)
        return mat_of(sym('junk', str(d.loc), (n or {}).get('l', 0), rows=r, cols=c))
    def view_write(self, v, val, n):
        a = self.stored(v, n)
        if v.tr: val = m_T(val); v = v.with_(tr=False)
        val = half(Mat(val.lo.t, v.rows, v.cols), Mat(val.up.t, v.rows, v.cols)) if isinstance(val, Half) else Mat(val.t, v.rows, v.cols)
        if self.write_watch: self.write_watch(v.loc, n)
        if not a.lin:
            if v.off.t or not (v.ld == a.rows or O_equal(v.ld, a.rows)): a = self.to_lin(v.loc)
        if a.lin:
            l = v.lin()
            if l is not None:
                self.st.mem[v.loc] = self.lin_write(a, l[0], l[1], flatten(val)); return
            if v.rows == ONE and v.ld == ONE:
                self.st.mem[v.loc] = self.lin_write(a, v.off + v.r0 + v.c0, v.cols, full(val).T()); return
            c = v.cols.const()
            if c is None or c > 8: self.unmodelled(n, 'strided write')
            for j in range(int(c)):
                x = full(val).mul(sel(poly(j), ONE, v.cols).T())
                a = self.lin_write(a, v.off + v.r0 + (v.c0 + j) * v.ld, v.rows, Mat(x.t, v.rows, ONE))
            self.st.mem[v.loc] = a; return
        self.st.mem[v.loc] = self.rect_write(a, v.r0, v.rows, v.c0, v.cols, val)
    def farr_assign(self, d, a, v, op, n):
        o = (d.off + d.r0 + d.c0 * d.ld).const(); k = (d.rows * d.cols).const()
        if o is None or k is None: self.unmodelled(n, 'symbolic part of a fixed array')
        o, k = int(o), int(k)
        L = self.farr_list(v, n)
        if L is None and isinstance(v, (Poly, F)): L = [self.num(v)] * k
        if L is None and isinstance(v, (View, EV)):
            m = full(self.mat(v, n))
            if m.rows.const() is None: 
                self.check_shape(n, poly(k), m.rows, 'rows of an assignment')
            L = [elem(m, poly(i)) for i in range(k)]
        if L is None: self.unmodelled(n, 'assignment of %r to a fixed array' % (v,))
        if len(L) != k:
            self.check_shape(n, poly(k), poly(len(L)), 'size of an assignment'); L = (L + [ZERO] * k)[:k]
        vs = list(a.v)
        for i in range(k):
            c = vs[o + i]
            if op != '=': c = self.farr_get(a, o + i, d.loc, n)
            vs[o + i] = {'=': lambda: L[i], '+=': lambda: c + L[i], '-=': lambda: c - L[i], '*=': lambda: c * L[i], '/=': lambda: c / L[i]}[op]()
        self.st.mem[d.loc] = FArr(vs, a.vec)
        return d

    # ------------------------------------------------------------ entries
    def read_el(self, t, n):
        a = self.st.mem.get(t.view)
        if isinstance(a, Ref): a = self.st.mem.get(a.t.loc)
        if isinstance(a, View):
            return self.read_el(self.el_of(a, t.i, None, n), n)
        if isinstance(a, FArr):
            c = t.i.const()
            if c is not None:
                if not (0 <= c < len(a.v)): self.event('index', n, 'index %s outside an array of %d' % (t.i, len(a.v))); return poly(atom('oob', str(t.view), t.i))
                return self.farr_get(a, int(c), t.view, n)
            r = self.farr_get(a, len(a.v) - 1, t.view, n)
            for k in range(len(a.v) - 2, -1, -1): r = ite(eq(t.i, poly(k)), self.farr_get(a, k, t.view, n), r)
            return r
        if isinstance(a, Arr):
            if isinstance(t.i, tuple):
                if a.lin: r = self._le(a, len(a.log), t.i[0] + t.i[1] * a.rows)
                else: r = self.rect_el(a, t.i[0], t.i[1])
            else:
                if not a.lin: a = self.to_lin(t.view)
                r = self._le(a, len(a.log), t.i)
            if any(d[0] == 'undef' for d in r.deps): self.event('undef', n, 'read of an uninitialised entry', t.view)
            return r
        if isinstance(a, (Poly, F)): return a
        if a is None: self.ended(t.view, n)
        self.unmodelled(n, 'entry of %r' % (a,))
    def rect_el(self, a, r, c):
        m = self.rect_read(a, r, ONE, c, ONE)
        return scalar_of(full(m))
    def write_el(self, t, p, n):
        a = self.st.mem.get(t.view)
        if isinstance(p, Poly): p = mk_def(p)
        if isinstance(a, View): return self.write_el(self.el_of(a, t.i, None, n), p, n)
        if self.write_watch: self.write_watch(t.view, n)
        if isinstance(a, FArr):
            c = t.i.const()
            vs = list(a.v)
            if c is not None:
                if not (0 <= c < len(vs)): self.event('index', n, 'index %s outside an array of %d' % (t.i, len(vs))); return
                vs[int(c)] = p
            else:
                for k in range(len(vs)):
                    if isinstance(vs[k], Undef): self.unmodelled(n, 'symbolic index into an uninitialised array')
                    vs[k] = ite(eq(t.i, poly(k)), p, vs[k])
            self.st.mem[t.view] = FArr(vs, a.vec); return
        if isinstance(a, Arr):
            if isinstance(t.i, tuple) and not a.lin and t.i[0].const() is not None and t.i[1].const() is not None:
                self.st.mem[t.view] = self.rect_write(a, t.i[0], ONE, t.i[1], ONE, from_scalar(p)); return
            i = t.i[0] + t.i[1] * a.rows if isinstance(t.i, tuple) else t.i
            if not a.lin: a = self.to_lin(t.view)
            self.st.mem[t.view] = self.lin_write(a, i, ONE, from_scalar(p)); return
        self.unmodelled(n, 'entry of %r' % (a,))
    def bound(self, n, i, size, what='index'):
        self.oblige('index', n)
        if not O_nonneg(i): self.event('index', n, '%s %s may be negative' % (what, i), (i, size))
        elif not O_nonneg(size - i - 1): self.event('index', n, '%s %s is not below %s' % (what, i, size), (i, size))
    def brange(self, n, off, ln, size):
        self.oblige('index', n)
        if not O_nonneg(off): self.event('index', n, 'block start %s may be negative' % off, (off, ln, size))
        elif not O_nonneg(ln): self.event('index', n, 'block length %s may be negative' % ln, (off, ln, size))
        elif not O_nonneg(size - off - ln): self.event('index', n, 'block [%s;%s) leaves the range %s' % (off, ln, size), (off, ln, size))
    def el_of(self, v, i, j, n, check=True):
        """lvalue of one entry of a view"""
        r, c = self.shape(v)
        if j is None:
            if c == ONE or v.arr and c == ONE: i, j = i, ZERO
            elif r == ONE: i, j = ZERO, i
            else:
                a = self.stored(v, n)
                if isinstance(a, Arr) and not a.lin: self.to_lin(v.loc)
                if v.tr: self.unmodelled(n, 'linear index into a transposed view')
                l = v.lin()
                if l is None: self.unmodelled(n, 'linear index into a strided view')
                if check: self.bound(n, i, r * c)
                return ElRef(v.loc, l[0] + i)
        if check:
            self.bound(n, i, r, 'row index' if c != ONE else 'index')
            if c != ONE: self.bound(n, j, c, 'column index')
        if v.tr: i, j = j, i
        a = self.stored(v, n)
        if isinstance(a, Arr) and not a.lin:
            if not v.off.t and (v.ld == a.rows or O_equal(v.ld, a.rows)): return ElRef(v.loc, (v.r0 + i, v.c0 + j))
            self.to_lin(v.loc)
        return ElRef(v.loc, v.off + v.r0 + i + (v.c0 + j) * v.ld)

    # ------------------------------------------------------------ coefficientwise
    def cwise(self, f, n, *ms):
        """f over entries; arguments Mat/Half or Poly (broadcast)."""
        mats = [full(m) for m in ms if not isinstance(m, Poly)]
        R, C = mats[0].rows, mats[0].cols
        for m in mats[1:]:
            self.check_shape(n, R, m.rows, 'rows of a coefficientwise operation'); self.check_shape(n, C, m.cols, 'columns of a coefficientwise operation')
        if R == ONE and C != ONE:
            return self.cwise(f, n, *[m if isinstance(m, Poly) else full(m).T() for m in ms]).T()
        if C != ONE:
            es = [m if isinstance(m, Poly) else poly(atom('cwel', full(m))) for m in ms]
            e = f(*es)
            return mat_of(sym('cw', e, rows=R, cols=C)) if e.t else zeros(R, C)
        es = [m if isinstance(m, Poly) else elem(full(m), PIDX) for m in ms]
        return elemwise(f(*es), R)
    def comb(self, *evs):
        l = ()
        for e in evs:
            if isinstance(e, EV): l += e.leaves
        return l
    def eig_neg(self, v, n):
        if isinstance(v, FL): return FL([-x for x in v.v])
        e = self.as_ev(v, n)
        return EV(m_scale(e.m, poly(-1)), e.leaves, None, e.arr, e.diag)
    def eig_sum(self, a, b, sg, n):
        la, lb = self.farr_list(a, n), self.farr_list(b, n)
        if la is not None and lb is not None: return FL([x + y * sg for x, y in zip(la, lb)])
        sa, sb = isinstance(a, (Poly, F)), isinstance(b, (Poly, F))
        if sa or sb:      # array + scalar
            e = self.as_ev(b if sa else a, n)
            k = self.num(a if sa else b)
            return EV(self.cwise((lambda x: k + x * sg) if sa else (lambda x: x + k * sg), n, e.m), e.leaves, None, True)
        x, y = self.as_ev(a, n), self.as_ev(b, n)
        ok = self.check_shape(n, x.m.rows, y.m.rows, 'rows of a sum') & self.check_shape(n, x.m.cols, y.m.cols, 'columns of a sum')
        m = m_add(x.m, y.m, poly(sg)) if ok else mat_of(sym('junk', 'sum', (n or {}).get('l', 0), rows=x.m.rows, cols=x.m.cols))
        return EV(m, x.leaves + y.leaves, None, x.arr or y.arr, x.diag and y.diag)
    def eig_scale(self, v, k, n):
        if isinstance(v, FL) or self.farr_list(v, n) is not None: return FL([x * k for x in self.farr_list(v, n)])
        e = self.as_ev(v, n)
        return EV(m_scale(e.m, k), e.leaves, e.mode, e.arr, e.diag)
    def eig_prod(self, a, b, n, lazy=False):
        if isinstance(a, (Poly, F)): return self.eig_scale(b, self.num(a), n)
        if isinstance(b, (Poly, F)): return self.eig_scale(a, self.num(b), n)
        if isinstance(a, (SLoc, ElRef)): a = self.rval(a, n)
        if isinstance(b, (SLoc, ElRef)): b = self.rval(b, n)
        if getattr(a, 'arr', False) or getattr(b, 'arr', False):
            x, y = self.as_ev(a, n), self.as_ev(b, n)
            return EV(self.cwise(lambda p, q: p * q, n, x.m, y.m), x.leaves + y.leaves, None, True)
        x, y = self.as_ev(a, n), self.as_ev(b, n)
        how = 'lazy' if lazy else 'prod'
        if x.diag or y.diag: how = 'cw'
        ok = self.check_shape(n, x.m.cols, y.m.rows, 'inner dimension of a product')
        m = m_mul(x.m, y.m) if ok else mat_of(sym('junk', 'prod', (n or {}).get('l', 0), rows=x.m.rows, cols=y.m.cols))
        m = Mat(m.t, x.m.rows, y.m.cols)
        def dem(h): return 'lazy' if h == 'lazy' or how == 'lazy' else how if how != 'cw' else h
        return EV(m, [(v, dem(h)) for v, h in x.leaves + y.leaves], None, False, x.diag and y.diag)
    def eig_binop(self, op, a, b, n):
        if op in ('+', '-'): return self.eig_sum(a, b, 1 if op == '+' else -1, n)
        if op == '*': return self.eig_prod(a, b, n)
        if op == '/':
            if isinstance(b, (Poly, F)): return self.eig_scale(a, inv(self.num(b)), n)
            x = a if isinstance(a, (Poly, F)) else self.as_ev(a, n)
            y = self.as_ev(b, n)
            if isinstance(x, EV): return EV(self.cwise(lambda p, q: p / q, n, x.m, y.m), x.leaves + y.leaves, None, True)
            k = self.num(x)
            return EV(self.cwise(lambda q: k / q, n, y.m), y.leaves, None, True)
        self.unmodelled(n, 'matrix operator %s' % op)
    def ew_compare(self, op, a, b, n):
        x = self.num(a) if isinstance(a, (Poly, F)) else full(self.mat(a, n))
        y = self.num(b) if isinstance(b, (Poly, F)) else full(self.mat(b, n))
        R = x.rows if isinstance(x, Mat) else y.rows
        C = x.cols if isinstance(x, Mat) else y.cols
        if C != ONE: self.unmodelled(n, 'matrix comparison')
        p = elem(x, PIDX) if isinstance(x, Mat) else x
        q = elem(y, PIDX) if isinstance(y, Mat) else y
        f = {'==': eq(p, q), '!=': fnot(eq(p, q)), '<': lt(p, q), '<=': le(p, q), '>': lt(q, p), '>=': le(q, p)}[op]
        lv = ()
        for z in (a, b):
            if isinstance(z, View): lv += ((z, 'cw'),)
            elif isinstance(z, EV): lv += z.leaves
        return Tuple('ewb', f, R, lv)
    def sqn(self, m):
        m = full(m)
        if m.cols == ONE or m.rows == ONE:
            if m.cols != ONE: m = m.T()
            if m.rows == ONE:
                p = scalar_of(m); return p * p
            e = elem(m, PIDX)
            return sum_of(e * e, m.rows)
        # a stored matrix: entries of its column-major vector
        fl = flatten(m)
        e = elem(fl, PIDX)
        return sum_of(e * e, fl.rows)
    def norm2(self, m): return mk_sqrt(self.sqn(m))
    def maxred(self, m, n, sg=1):
        """max (sg=1) / min (sg=-1) coefficient"""
        m = full(m)
        src = self.__dict__.setdefault('abs_src', {})
        if sg == 1 and m in src: return norminf(src[m])
        if m.cols != ONE:
            if m.rows == ONE: m = m.T()
            else: m = flatten(m)
        e = elem(m, PIDX)
        if not has_idx(e): return e
        r = extr('max', e * sg, IDX, ZERO, m.rows - 1, None)
        return r * sg

    # ------------------------------------------------------------ construction
    def undef_mat(self, loc, r, c):
        nm = self.loc_name(loc)
        return mat_of(sym('undef', nm, rows=r, cols=c, deps=frozenset([('undef', nm)]), name='?' + nm)) if not (r == ZERO or c == ZERO) else zeros(r, c)
    def new_arr(self, loc, r, c): return Arr(r, c, self.undef_mat(loc, r, c))
    def construct_eigen(self, loc, t, init, fr):
        R, C = eig_mat(t)
        n = init
        while n is not None and (n['k'] == 'mat' or (n['k'] == 'new_obj' and n.get('elide') and n.get('a'))):
            n = n['e'] if n['k'] == 'mat' else n['a'][0]
        fixed = R > 0 and C > 0
        def blank():
            if fixed: self.st.mem[loc] = FArr([Undef('double')] * (R * C), True)
            else: self.st.mem[loc] = self.new_arr(loc, ZERO if R < 0 else poly(R), ZERO if C < 0 else poly(C))
        if n is None: return blank()
        if n['k'] == 'ilist':
            if not n['a']: return blank()
            if len(n['a']) == 1 and n['a'][0]['k'] != 'ilist': n = n['a'][0]
        if n['k'] == 'new_obj' and base_type(n['t']).startswith(('Eigen::Matrix<', 'Eigen::Array<')):
            a = [x for x in n['a']]
            if not a: return blank()
            vs = [self.ev(x, fr) for x in a]
            if len(vs) == 1 and not isinstance(vs[0], (Poly, F)):
                if isinstance(vs[0], Tuple) and vs[0].kind == 'ilist': vs = list(vs[0].v)
                else: return self.init_from(loc, R, C, fixed, vs[0], n)
            ints = all(base_type(x.get('t', '')) in INTS for x in a)
            if fixed:
                if len(vs) == R * C: self.st.mem[loc] = FArr([self.num(v) for v in vs], True); return
                return blank()
            if len(vs) == 1:
                s = self.num(vs[0])
                self.nonneg_size(n, s)
                r, c = (s, ONE) if C == 1 else (ONE, s) if R == 1 else (s, s)
                if C != 1 and R != 1: self.unmodelled(n, 'one-argument constructor of a matrix')
                self.st.mem[loc] = self.new_arr(loc, r, c); return
            if len(vs) == 2 and ints:
                r, c = self.num(vs[0]), self.num(vs[1])
                self.nonneg_size(n, r); self.nonneg_size(n, c)
                self.st.mem[loc] = self.new_arr(loc, r, c); return
            self.unmodelled(n, 'matrix constructor')
        v = self.ev(n, fr)
        return self.init_from(loc, R, C, fixed, v, n)
    def nonneg_size(self, n, s):
        self.oblige('shape', n)
        if not O_nonneg(s): self.event('shape', n, 'size %s may be negative' % s, (s,))
    def init_from(self, loc, R, C, fixed, v, n):
        if isinstance(v, (SLoc, ElRef)): v = self.rval(v, n)
        if fixed:
            L = self.farr_list(v, n)
            if L is None and isinstance(v, EV):
                m = full(v.m); L = [elem(m, poly(i)) for i in range(R * C)]
            if L is None: self.unmodelled(n, 'initialisation of a fixed vector from %r' % (v,))
            self.st.mem[loc] = FArr(L, True); return
        if isinstance(v, View):
            a = self.st.mem.get(v.loc)
            if isinstance(a, Arr) and v.whole and not v.tr and not v.mode and not v.arr:
                self.st.mem[loc] = a; return         # plain copy keeps the representation
            if isinstance(v, View) and not v.mode:
                m = self.mat(v, n, use=True)
            else: m = self.mat(v, n)
        else: m = self.as_ev(v, n).m
        if C == 1 and m.cols != ONE and m.rows == ONE: m = m_T(m)
        self.st.mem[loc] = Arr(m.rows, m.cols, full(m) if m.cols == ONE else m)
    def elem_type(self, t):
        m = re.match(r'^std::(?:vector|array|unique_ptr|initializer_list|pair)<(.*)>$', t)
        if not m: return None
        s = m.group(1); d = 0
        for i, ch in enumerate(s):
            if ch in '<(': d += 1
            elif ch in '>)': d -= 1
            elif ch == ',' and d == 0: return s[:i].strip(), s[i + 1:].strip()
        return s.strip(), ''
    def construct_lib(self, loc, t, init, fr):
        n = init
        if self.clock is not None and t.startswith('std::chrono'):
            self.st.mem[loc] = self.clock.value(self, t, n, fr); return
        while n is not None and (n['k'] == 'mat' or (n['k'] == 'new_obj' and n.get('elide') and n.get('a'))):
            n = n['e'] if n['k'] == 'mat' else n['a'][0]
        if t.startswith('std::vector<'): return self.construct_vector(loc, t, n, fr)
        if t.startswith('std::pair<'): return self.construct_pair(loc, t, n, fr)
        if t.startswith('std::array<'):
            et, k = self.elem_type(t)
            k = int(re.match(r'\d+', k).group(0))
            vals = [Undef(et)] * k
            if n is not None and n['k'] in ('ilist', 'new_obj', 'zero'):
                items = n.get('a') or []
                if len(items) == 1 and items[0]['k'] in ('ilist',): items = items[0]['a']
                elif len(items) == 1 and items[0]['k'] == 'zero': items = []
                if n['k'] == 'new_obj' and len(items) == 1:
                    v = self.ev(items[0], fr)
                    L = self.farr_list(v, n)
                    if L is not None: self.st.mem[loc] = FArr(L); return
                if n['k'] in ('ilist', 'zero') or n.get('zero') or n.get('list'): vals = [FALSE if et == 'bool' else ZERO] * k
                for i, x in enumerate(items[:k]): vals[i] = self.num(self.ev(x, fr), x)
            elif n is not None:
                L = self.farr_list(self.ev(n, fr), n)
                if L is None: self.unmodelled(n, 'initialisation of an array')
                vals = L
            self.st.mem[loc] = FArr(vals); return
        if t.startswith('std::unique_ptr<') or t.startswith('std::shared_ptr<'):
            v = NULL if n is None else self.ev(n, fr)
            self.st.mem[loc] = v if isinstance(v, (Ptr,)) else NULL if v is None or (isinstance(v, Poly) and not v.t) else v
            return
        if t.startswith('Eigen::'):
            k = re.match(r'Eigen::(\w+)', t).group(1)
            if k in DECOMP:
                self.st.mem[loc] = LdltVal(k.lower(), None, ZERO) if n is None else self.ev(n, fr)
                return
            if n is None: self.st.mem[loc] = Undef(t); return
            if k in ('Map', 'Ref', 'Block', 'VectorBlock', 'Transpose', 'TriangularView', 'Diagonal', 'NoAlias', 'ArrayWrapper', 'MatrixWrapper'):
                v = self.ev(n, fr)
                if isinstance(v, (SLoc, ElRef)): v = self.rval(v, n)
                if isinstance(v, View): self.st.mem[loc] = v.with_(whole=False); return
                if isinstance(v, EV) and k == 'Ref':
                    l = loc + ('#tmp',)
                    self.st.mem[l] = Arr(v.m.rows, v.m.cols, v.m)
                    self.st.mem[loc] = self.lval(l).with_(whole=False); return
            if k in ('Stride', 'InnerStride', 'OuterStride', 'IOFormat'): self.st.mem[loc] = Opaque(k); return
            self.st.mem[loc] = Lazy(n, fr)
            return
        if n is not None:
            v = self.ev(n, fr)
            if isinstance(v, (Lam, Opaque, Str, Poly, F)): self.st.mem[loc] = v; return
        self.st.mem[loc] = Opaque('%s' % t)
    def construct_pair(self, loc, t, n, fr):
        ts = self.elem_type(t)
        a = (n.get('a') or []) if n is not None and n['k'] in ('new_obj', 'ilist', 'zero') else None
        if n is not None and (a is None or len(a) == 1):
            v = self.ev(n if a is None else a[0], fr)
            if isinstance(v, SLoc): v = self.st.mem.get(v.loc)
            if not isinstance(v, Obj): self.unmodelled(n, 'initialisation of a pair from %r' % (v,))
            self.drop_obj(loc)
            self.copy_obj(v.loc, loc); return
        if a and len(a) != 2: self.unmodelled(n, 'construction of a pair')
        self.drop_obj(loc)
        self.st.mem[loc] = Obj(loc, t)
        for i, f in enumerate(('first', 'second')): self.construct(loc + (f,), ts[i], a[i] if a else {'k': 'zero', 'l': (n or {}).get('l')}, fr)
    def construct_vector(self, loc, t, n, fr):
        et, _ = self.elem_type(t)
        size = ZERO; fill = None
        if n is not None:
            if n['k'] == 'new_obj':
                a = [x for x in n['a'] if 'allocator' not in x.get('t', '')]
                if len(a) == 1 and base_type(a[0].get('t', '')).startswith('std::vector'):
                    return self.copy_vector(self.lv(a[0], fr), loc, n)
                if len(a) >= 1:
                    v0 = self.ev(a[0], fr)
                    if isinstance(v0, Tuple) and v0.kind == 'ilist':
                        self.vec_items(loc, et, list(v0.v), n); return
                    size = self.num(v0, n)
                    if len(a) >= 2: fill = a[1]
            elif n['k'] == 'ilist':
                self.vec_items(loc, et, [self.ev(x, fr) for x in n['a']], n); return
            else:
                return self.copy_vector(self.lv(n, fr), loc, n)
        self.vec_blank(loc, et, size, fill, fr, n)
    def copy_vector(self, v, loc, n):
        if isinstance(v, View): self.st.mem[loc] = self.st.mem[v.loc]; return
        if isinstance(v, SLoc) and isinstance(self.st.mem.get(v.loc), VecObj):
            self.copy_obj(v.loc, loc); return
        self.unmodelled(n, 'vector from %r' % (v,))
    def vec_items(self, loc, et, vals, n):
        if et in FLTS or et in INTS:
            out = zeros(poly(len(vals)), ONE)
            self.st.mem[loc] = FArr([self.num(v) for v in vals])
            return
        self.unmodelled(n, 'initialiser list of a vector of %s' % et)
    def vec_blank(self, loc, et, size, fill, fr, n):
        if et in FLTS or et in INTS:
            self.nonneg_size(n, size)
            base = zeros(size, ONE)
            if fill is not None: base = ones(size).scale(self.num(self.ev(fill, fr)))
            self.st.mem[loc] = Arr(size, ONE, base); return
        c = size.const()
        if c is None: self.unmodelled(n, 'vector of objects with a symbolic length')
        self.st.mem[loc] = VecObj(poly(int(c)), et)
        for i in range(int(c)):
            if fill is not None: self.construct(loc + (('#', i),), et, fill, fr)
            else: self.construct(loc + (('#', i),), et, None, fr)
    def map_of(self, n, t, args, fr):
        m = re.search(r'Eigen::(?:Matrix|Array)<double, ?(-?\d+), ?(-?\d+)', t)
        if not m: self.unmodelled(n, 'map of %s' % t)
        R, C = int(m.group(1)), int(m.group(2))
        vals = [self.ev(a, fr) for a in args if 'Stride' not in a.get('t', '')]
        if len(vals) == 1 and not isinstance(vals[0], (EPtr, Ptr)):
            v = self.rval(vals[0], n) if isinstance(vals[0], SLoc) else vals[0]
            if isinstance(v, View): return v.with_(whole=False)
        if any('Stride' in a.get('t', '') and a['k'] not in ('new_obj', 'mat', 'cast') for a in args): self.unmodelled(n, 'map with an explicit stride')
        for a in args:
            if 'Stride' in a.get('t', ''):
                x = a
                while x['k'] in ('mat', 'cast'): x = x['e']
                if x.get('a'): self.unmodelled(n, 'map with an explicit stride')
        p = vals[0]
        ds = [self.num(v, n) for v in vals[1:]]
        if C == 1: r, c = (ds[0] if ds else poly(R)), ONE
        elif R == 1: r, c = ONE, (ds[0] if ds else poly(C))
        else: r, c = (ds[0], ds[1]) if len(ds) == 2 else (poly(R), poly(C))
        if isinstance(p, Ptr) and p.loc is None:
            l = ('N', 0)
            self.st.mem[l] = Arr(ZERO, ONE, zeros(ZERO, ONE))
            p = EPtr(l)
        if isinstance(p, (View,)): p = EPtr(p.loc, p.off)
        if isinstance(p, Ptr):
            p = EPtr(p.loc)
        if not isinstance(p, EPtr): self.unmodelled(n, 'map of %r' % (p,))
        a = self.st.mem.get(p.loc)
        size = a.size() if isinstance(a, Arr) else poly(len(a.v)) if isinstance(a, FArr) else None
        if size is None: self.unmodelled(n, 'map of %r' % (a,))
        self.brange(n, p.off, r * c, size)
        if isinstance(a, Arr) and not a.lin and not (not p.off.t and O_equal(r, a.rows)): self.to_lin(p.loc)
        return View(p.loc, p.off, ZERO, ZERO, r, c, r)
    def lib_new(self, n, t, fr):
        a = n.get('a') or []
        k = re.match(r'(?:Eigen|std)::(?:chrono::)?(\w+)', t)
        k = k.group(1) if k else t
        if k == 'pair':
            loc = ('T', fr.key, id(n), self.iters)
            self.construct_pair(loc, t, n, fr)
            return Obj(loc, t)
        if k in ('Matrix', 'Array') and eig_mat(t):
            if len(a) == 1 and base_type(a[0].get('t', '')) == t and n['c'].get('copy') and False: return self.ev(a[0], fr)
            loc = ('T', fr.key, id(n), self.iters)
            self.construct_eigen(loc, t, n, fr)
            return self.lval(loc)
        if k in ('Map', 'Ref'):
            if len(a) == 1:
                v = self.ev(a[0], fr)
                if isinstance(v, (SLoc,)): v = self.rval(v, n)
                if isinstance(v, View): return v.with_(whole=False)
                if isinstance(v, EV):
                    l = ('T', fr.key, id(n), self.iters)
                    self.st.mem[l] = Arr(v.m.rows, v.m.cols, v.m)
                    return self.lval(l).with_(whole=False)
            return self.map_of(n, t, a, fr)
        if k in DECOMP:
            if not a: return LdltVal(k.lower(), None, ZERO)
            v = self.ev(a[0], fr)
            if isinstance(v, (SLoc, ElRef)): v = self.rval(v, n)
            if isinstance(v, LdltVal): return v
            if isinstance(v, (Poly, F)): return LdltVal(k.lower(), None, self.num(v))
            return self.factor(k.lower(), v, n, inplace='Ref<' in t)
        if k in ('unique_ptr', 'shared_ptr'):
            if not a: return NULL
            v = self.ev(a[0], fr)
            if isinstance(v, SLoc): v = self.rval(v, n)
            return NULL if isinstance(v, Poly) else v
        if k in ('vector', 'array'):
            loc = ('T', fr.key, id(n), self.iters)
            self.construct_lib(loc, t, n, fr)
            return self.lval(loc)
        if t.startswith('Eigen::') and len(a) == 1:
            return self.ev(a[0], fr)
        if t.startswith('Eigen::') and 'Stride' in k: return Opaque('Stride')
        if t.startswith('std::chrono') or k in ('duration', 'time_point'):
            if self.clock is not None: return self.clock.make(self, t, n, a, fr)
            d = EMPTY
            for x in a:
                v = self.ev(x, fr); d = d | getattr(v, 'deps', EMPTY)
            return Opaque('time', d)
        vals = [self.ev(x, fr) for x in a]
        if len(vals) == 1 and isinstance(vals[0], Lam): return vals[0]
        return Opaque('new %s' % t)
    def factor(self, kind, v, n, inplace=False):
        view = v if isinstance(v, View) else None
        r, c = self.shape(v)
        self.check_shape(n, r, c, 'factorisation of a square matrix')
        sym_kind = kind in ('llt', 'ldlt')
        if sym_kind:
            m = lo_of(self.mat(v, n, 'lo')) if view is not None else lo_of(v.m)
            if m.T() != m: m = mat_of(sym('symlow', m, rows=m.rows, cols=m.cols, symm=True))
        else: m = full(self.mat(v, n))
        if inplace and view is not None and kind == 'llt':
            b = view.with_(mode=None, tr=False, na=False)
            cur = self.view_read(b, n)
            self.view_write(b, half(mk_chol(m), up_of(cur)), n)
        elif inplace: self.view_write(view, self.junk(view, n), n)
        if not self.quiet: self.factors.append(dict(kind=kind, m=m, line=n.get('l'), fn=self.stack[-1].fn['n'] if self.stack else '', facts=self.st.facts))
        return LdltVal(kind, m, r, view.key() if inplace and view is not None else None)
    def fact_ok(self, f): return fatom(atom('fact_ok', f.kind, f.m, deps=f.m.deps))
    def fact_inv(self, f):
        return mat_inv(f.m)
    def decomp_call(self, nm, f, x, n, fr):
        a = n['a']
        if nm == 'compute':
            v = self.ev(a[0], fr)
            if isinstance(v, (SLoc,)): v = self.rval(v, n)
            r = self.factor(f.kind, v, n)
            if isinstance(x, SLoc): self.st.mem[x.loc] = r
            return r
        if f.m is None and nm in ('solve', 'info', 'matrixL', 'vectorD', 'solveInPlace', 'isPositive'):
            self.event('undef', n, 'use of a factorisation that was not computed', getattr(x, 'loc', None))
            f = LdltVal(f.kind, mat_of(sym('undef', 'fact', rows=f.n, cols=f.n, deps=frozenset([('undef', 'fact')]))), f.n)
        if nm == 'info': 
            ok = self.fact_ok(f)
            return ONE - ind(ok)
        if nm == 'isPositive': return fatom(atom('fact_pos', f.kind, f.m))
        if nm in ('solve', 'solveInPlace'):
            b = self.ev(a[0], fr)
            e = self.as_ev(b, n)
            ok = self.check_shape(n, f.n, e.m.rows, 'right-hand side of a solve')
            m = self.fact_inv(f).mul(full(e.m)) if ok else e.m
            m = Mat(m.t, f.n, e.m.cols)
            r = EV(m, [(v, 'prod') for v, h in e.leaves])
            if nm == 'solveInPlace':
                self.eig_assign(b, EV(m), '=', n); return None
            return r
        if nm == 'matrixL' and f.kind == 'llt': return EV(mk_chol(f.m))
        if nm == 'matrixU' and f.kind == 'llt': return EV(mk_chol(f.m).T())
        if nm in ('rows', 'cols'): return f.n
        if nm == 'operator=':
            v = self.ev(a[0], fr)
            if isinstance(v, SLoc): v = self.rval(v, n)
            self.st.mem[x.loc] = v; return v
        self.unmodelled(n, 'factorisation method %s' % nm)

    # ------------------------------------------------------------ calls
    def lib_call(self, n, c, fr):
        nm = simple(c['n'])
        o = n.get('o')
        x = None
        if o is not None and not c.get('static'):
            if n.get('arrow'): x = self.deref(self.ev(o, fr), n)
            else: x = self.lv(o, fr)
            if isinstance(x, Ref): x = x.t
            xv = x
            if isinstance(x, SLoc):
                v = self.st.mem.get(x.loc)
                if isinstance(v, (Ref,)): x = v.t; v = self.st.mem.get(getattr(x, 'loc', None)); xv = x if v is None else v
                elif isinstance(v, Lazy): xv = self.ev_in(v.n, v.fr)
                elif v is not None: xv = v
                if isinstance(xv, (Arr, FArr)): xv = self.lval(x.loc)
            if isinstance(x, Obj) and isinstance(self.st.mem.get(x.loc), VecObj): xv = self.st.mem[x.loc]
            cls = c.get('cls') or ''
            if self.clock is not None and cls.startswith('std::chrono'): return self.clock.call(self, nm, n, c, x, n['a'], fr)
            if cls.startswith('std::vector') and isinstance(xv, (View, VecObj)): return self.vector_call(nm, x, xv, n, fr, cls)
            if cls.startswith('std::array') and isinstance(xv, View): return self.array_call(nm, xv, n, fr)
            if isinstance(xv, VecObj): return self.vector_call(nm, x, xv, n, fr, cls)
            if isinstance(xv, LdltVal): return self.decomp_call(nm, xv, x, n, fr)
            if isinstance(xv, (Ptr, Undef)) and ('unique_ptr' in cls or 'shared_ptr' in cls): return self.uptr_call(nm, x, xv, n, fr)
            if isinstance(xv, (View, EV, FL)): return self.eig_call(nm, xv, n, c, fr)
            if isinstance(xv, Tuple) and xv.kind == 'ewb': return self.ewb_call(nm, xv, n, fr)
            if nm == 'operator=' and (cls.startswith('std::pair') or isinstance(xv, Tuple) and xv.kind == 'tie'):
                v = self.ev(n['a'][0], fr)
                if isinstance(v, SLoc): v = self.st.mem.get(v.loc)
                if isinstance(v, Obj):
                    if isinstance(x, Obj): self.copy_obj(v.loc, x.loc); return x
                    if isinstance(xv, Obj): self.copy_obj(v.loc, xv.loc); return xv
                    if len(xv.v) == 2:
                        vs = [self.rval(self.lval(v.loc + (f,)), n) for f in ('first', 'second')]
                        for t, y in zip(xv.v, vs): self.store(t, y, n)
                        return xv
                self.unmodelled(n, 'assignment to a pair')
            if isinstance(xv, Tuple) and xv.kind == 'comma': return self.comma(xv, self.ev(n['a'][0], fr), n)
            if isinstance(xv, Tuple) and xv.kind == 'it' :
                if nm == 'operator*': return self.deref(xv, n)
                if nm in ('operator+', 'operator-'):
                    k = self.ev(n['a'][0], fr)
                    if isinstance(k, Tuple): return self.ptr_diff(xv, k, n)
                    return self.ptr_add(xv, self.num(k) * (1 if nm == 'operator+' else -1), n)
                if nm in ('operator++', 'operator--'):
                    r = self.ptr_add(xv, ONE if nm == 'operator++' else poly(-1), n)
                    self.store(x, r, n); return r
            if isinstance(xv, Lam): return self.call_lambda(xv, n['a'], fr, n)
            if nm == 'PrintImplementation' or isinstance(x, Obj) and 'OutputStream' in (self.st.mem.get(x.loc).cls if isinstance(self.st.mem.get(x.loc), Obj) else ''):
                vs = [self.ev(a, fr) for a in n['a']]
                self.printed(vs[0] if vs else None, getattr(x, 'loc', None), n, nm)
                return None
            if isinstance(xv, (Opaque, Str)) or cls.startswith('std::'):
                d = getattr(xv, 'deps', EMPTY)
                for a in n['a']:
                    v = self.ev(a, fr); d = d | getattr(v, 'deps', EMPTY)
                if nm in ('operator=', 'operator+=', 'append', 'assign', 'push_back', 'clear') and isinstance(x, SLoc):
                    self.st.mem[x.loc] = Opaque('%s' % cls, d)
                    return x
                return Opaque('%s.%s' % (getattr(xv, 'name', 'str'), nm), d)
            if isinstance(xv, Poly) and nm == 'operator=': self.store(x, self.ev(n['a'][0], fr), n); return x
            self.unmodelled(n, 'library method %s on %r' % (c['n'], xv))
        return self.free_call(nm, n, c, fr)
    def uptr_call(self, nm, x, v, n, fr):
        if isinstance(v, Undef): v = NULL
        if nm in ('get', 'operator->'): return v
        if nm == 'operator*': return self.deref(v, n)
        if nm == 'operator bool': return self.truth(v)
        if nm in ('operator=', 'reset'):
            r = self.ev(n['a'][0], fr) if n['a'] else NULL
            if isinstance(r, SLoc): r = self.rval(r, n)
            if not isinstance(r, Ptr): r = NULL
            self.st.mem[x.loc] = r
            return x
        if nm == 'release': self.st.mem[x.loc] = NULL; return v
        self.unmodelled(n, 'smart pointer method %s' % nm)
    def vector_call(self, nm, x, v, n, fr, cls):
        a = n['a']
        if isinstance(v, View):      # numbers
            size = v.rows * v.cols
            if nm == 'size': return size
            if nm == 'empty': return eq(size, ZERO)
            if nm == 'data': return EPtr(v.loc, v.off)
            if nm in ('operator[]', 'at'):
                i = self.num(self.ev(a[0], fr), n); self.bound(n, i, size)
                return ElRef(v.loc, i)
            if nm == 'front': return ElRef(v.loc, ZERO)
            if nm == 'back': return ElRef(v.loc, size - 1)
            if nm in ('begin', 'cbegin'): return Tuple('it', v.loc, ZERO)
            if nm in ('end', 'cend'): return Tuple('it', v.loc, size)
            if nm in ('resize', 'assign'):
                s = self.num(self.ev(a[0], fr), n)
                if nm == 'resize' and O_equal(s, size): return None
                self.nonneg_size(n, s)
                base = zeros(s, ONE)
                if len(a) > 1: base = ones(s).scale(self.num(self.ev(a[1], fr)))
                if nm == 'resize' and not O_equal(size, ZERO): base = mat_of(sym('resized', str(v.loc), rows=s, cols=ONE))
                self.st.mem[v.loc] = Arr(s, ONE, base); return None
            if nm == 'clear': self.st.mem[v.loc] = Arr(ZERO, ONE, zeros(ZERO, ONE)); return None
            if nm in ('reserve', 'shrink_to_fit'): return None
            if nm == 'operator=':
                w = self.lv(a[0], fr)
                if isinstance(w, View): self.st.mem[v.loc] = self.st.mem[w.loc]; return v
            self.unmodelled(n, 'vector method %s' % nm)
        loc = x.loc
        if nm == 'size': return v.n
        if nm == 'empty': return eq(v.n, ZERO)
        if nm in ('operator[]', 'at', 'front', 'back'):
            i = ZERO if nm == 'front' else v.n - 1 if nm == 'back' else self.num(self.ev(a[0], fr), n)
            self.bound(n, i, v.n)
            c = i.const()
            if c is None: self.unmodelled(n, 'symbolic index into a vector of objects')
            if not (0 <= c < v.n.const()): 
                raise Dead()
            return self.lval(loc + (('#', int(c)),))
        if nm == 'resize':
            s = self.num(self.ev(a[0], fr), n).const()
            if s is None: self.unmodelled(n, 'vector of objects with a symbolic length')
            old = int(v.n.const()); s = int(s)
            for i in range(s, old): self.drop_obj(loc + (('#', i),))
            self.st.mem[loc] = VecObj(poly(s), v.et)
            for i in range(old, s): self.construct(loc + (('#', i),), v.et, a[1] if len(a) > 1 else None, fr)
            return None
        if nm in ('push_back', 'emplace_back'):
            k = int(v.n.const())
            self.st.mem[loc] = VecObj(poly(k + 1), v.et)
            if len(a) == 1: self.construct(loc + (('#', k),), v.et, a[0], fr)
            elif eig_mat(v.et):
                ds = [self.num(self.ev(q, fr)) for q in a]
                self.st.mem[loc + (('#', k),)] = self.new_arr(loc + (('#', k),), ds[0], ds[1] if len(ds) > 1 else ONE)
            else: self.construct(loc + (('#', k),), v.et, None, fr)
            return None
        if nm == 'clear':
            for i in range(int(v.n.const())): self.drop_obj(loc + (('#', i),))
            self.st.mem[loc] = VecObj(ZERO, v.et); return None
        if nm in ('reserve', 'shrink_to_fit'): return None
        if nm == 'operator=':
            w = self.lv(a[0], fr)
            if isinstance(w, (SLoc, Obj)): self.copy_obj(w.loc, loc); return x
        self.unmodelled(n, 'vector method %s' % nm)
    def array_call(self, nm, v, n, fr):
        a = n['a']
        size = v.rows * v.cols
        if nm == 'size': return size
        if nm == 'empty': return eq(size, ZERO)
        if nm in ('operator[]', 'at'):
            i = self.num(self.ev(a[0], fr), n)
            self.bound(n, i, size)
            return ElRef(v.loc, i)
        if nm == 'front': return ElRef(v.loc, ZERO)
        if nm == 'back': return ElRef(v.loc, size - 1)
        if nm == 'data': return EPtr(v.loc, ZERO)
        if nm in ('begin', 'cbegin'): return Tuple('it', v.loc, ZERO)
        if nm in ('end', 'cend'): return Tuple('it', v.loc, size)
        if nm == 'fill':
            k = self.num(self.ev(a[0], fr), n)
            self.st.mem[v.loc] = FArr([k] * int(size.const())); return None
        if nm == 'operator=':
            self.eig_assign(v, self.ev(a[0], fr), '=', n); return v
        self.unmodelled(n, 'array method %s' % nm)
    def ewb_call(self, nm, x, n, fr):
        f, size, lv = x.v
        a = [self.ev(q, fr) for q in n['a']]
        if nm == 'select':
            p, q = a
            ms = []
            for z in (p, q):
                if isinstance(z, (Poly, F)): ms.append(self.num(z))
                else: ms.append(elem(full(self.mat(z, n)), PIDX))
            l = lv
            for z in (p, q):
                if isinstance(z, View): l += ((z, 'cw'),)
                elif isinstance(z, EV): l += z.leaves
            return EV(elemwise(self.sel_ite(f, ms[0], ms[1]), size), l, None, True)
        if nm == 'all':
            bad = sum_of(ind(fnot(f)), size)
            return eq(bad, ZERO)
        if nm == 'any': return lt(ZERO, sum_of(ind(f), size))
        if nm == 'count': return sum_of(ind(f), size)
        if nm in ('operator&&', 'operator||'):
            return Tuple('ewb', fand(f, a[0].v[0]) if nm == 'operator&&' else for_(f, a[0].v[0]), size, lv + a[0].v[2])
        self.unmodelled(n, 'boolean array method %s' % nm)
    def sel_ite(self, f, a, b): return ite(f, a, b)
    def comma(self, t, v, n):
        d, pos = t.v
        if isinstance(v, (SLoc, ElRef)): v = self.rval(v, n)
        if isinstance(v, (Poly, F)): ln = ONE
        else:
            r, c = self.shape(v)
            if c != ONE: self.unmodelled(n, 'comma initialiser with matrices')
            ln = r
        r, c = self.shape(d)
        if c != ONE: self.unmodelled(n, 'comma initialiser of a matrix')
        self.brange(n, pos, ln, r)
        if isinstance(v, (Poly, F)): self.write_el(self.el_of(d, pos, None, n, False), self.num(v), n)
        else: self.eig_assign(self.block(d, pos, ZERO, ln, ONE, n, False), v, '=', n)
        return Tuple('comma', d, pos + ln)

    # ------------------------------------------------------------ Eigen methods
    def block(self, v, r, c, nr, nc, n, check=True):
        R, C = self.shape(v)
        if check:
            if C != ONE or c.t or nc != ONE or True:
                self.brange(n, r, nr, R)
                if not (C == ONE and not c.t and nc == ONE): self.brange(n, c, nc, C)
        if isinstance(v, EV):
            m = v.m
            x = self.subm(m, r, nr, c, nc, m.rows, m.cols)
            return EV(x, v.leaves if all(h != 'cw' for _, h in v.leaves) else [(w, 'prod' if h == 'cw' else h) if not isinstance(w, View) else (w, h if h != 'cw' else 'cwb') for w, h in v.leaves], None, v.arr)
        if v.tr: r, c, nr, nc = c, r, nc, nr
        return v.with_(r0=v.r0 + r, c0=v.c0 + c, rows=nr, cols=nc, whole=False)
    def size_targ(self, c, i):
        ta = c.get('ta') or []
        return poly(int(ta[i])) if len(ta) > i and re.match(r'^-?\d+$', str(ta[i])) and int(ta[i]) >= 0 else None
    def eig_call(self, nm, v, n, c, fr):
        A = n['a']
        if nm.startswith('operator'):
            op = nm[8:].strip()
            if op in ('=', '+=', '-=', '*=', '/='):
                b = self.ev(A[0], fr)
                return self.eig_assign(v, b, op, n)
            if not A:
                if op == '-': return self.eig_neg(v, n)
                if op == '+': return v
            if op in ('()', '[]'):
                idx = [self.num(self.ev(a, fr), n) for a in A]
                if isinstance(v, (EV, FL)):
                    m = full(self.mat(v, n))
                    if isinstance(v, FL) and idx[0].const() is not None: return v.v[int(idx[0].const())]
                    if len(idx) == 1 and m.cols == ONE: self.bound(n, idx[0], m.rows); return elem(m, idx[0])
                    if len(idx) == 1 and m.rows == ONE: self.bound(n, idx[0], m.cols); return elem(m.T(), idx[0])
                    return scalar_of(self.subm(m, idx[0], ONE, idx[1], ONE, m.rows, m.cols))
                return self.el_of(v, idx[0], idx[1] if len(idx) > 1 else None, n)
            if op == '<<':
                x = self.ev(A[0], fr)
                return self.comma(Tuple('comma', v, ZERO), x, n)
            b = self.ev(A[0], fr)
            if isinstance(b, (SLoc, ElRef)): b = self.rval(b, n)
            if op in ('+', '-'): return self.eig_sum(v, b, 1 if op == '+' else -1, n)
            if op == '*':
                if isinstance(v, View) and v.mode or isinstance(b, View) and b.mode: pass
                return self.eig_prod(v, b, n)
            if op == '/': return self.eig_binop('/', v, b, n)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                if v.arr if not isinstance(v, FL) else False: return self.ew_compare(op, v, b, n)
                x, y = full(self.mat(v, n)), full(self.mat(b, n))
                f = TRUE if x == y else fatom(atom('mateq', x, y))
                return f if op == '==' else fnot(f)
            self.unmodelled(n, 'operator %s on a matrix' % op)
        if nm == 'size':
            r, cc = self.shape(v); return r * cc
        if nm == 'rows': return self.shape(v)[0]
        if nm == 'cols': return self.shape(v)[1]
        if nm == 'derived' or nm == 'eval' and isinstance(v, EV): 
            if nm == 'eval': return EV(v.m, (), v.mode, v.arr)
            return v
        if nm == 'eval': return EV(self.mat(v, n), (), None, v.arr)
        if nm == 'data':
            if not isinstance(v, View): self.unmodelled(n, 'data() of an expression')
            a = self.stored(v, n)
            if isinstance(a, Arr) and not a.lin:
                if v.whole or not v.r0.t and not v.c0.t and not v.off.t: return EPtr(v.loc, ZERO)
                self.to_lin(v.loc)
            l = v.lin()
            return EPtr(v.loc, l[0] if l else v.off + v.r0 + v.c0 * v.ld)
        if nm in ('resize', 'conservativeResize', 'resizeLike'):
            ds = [self.num(self.ev(a, fr), n) for a in A]
            r, cc = self.shape(v)
            nr, nc = (ds[0], ds[1]) if len(ds) == 2 else (ds[0], ONE) if cc == ONE else (ONE, ds[0])
            if O_equal(nr, r) and O_equal(nc, cc): return None
            self.nonneg_size(n, nr); self.nonneg_size(n, nc)
            if isinstance(self.stored(v, n), FArr): self.check_shape(n, r, nr, 'resize of a fixed vector'); return None
            if nm != 'resize': self.unmodelled(n, nm)
            if not v.whole: self.check_shape(n, r, nr, 'resize of a map'); return None
            if self.write_watch: self.write_watch(v.loc, n)
            self.st.mem[v.loc] = self.new_arr(v.loc, nr, nc); return None
        if nm in ('noalias',): return v.with_(na=True)
        if nm in ('const_cast_derived', 'nestedExpression', 'asPermutation'): return v
        if nm in ('transpose', 'adjoint'):
            if isinstance(v, View): return v.with_(tr=not v.tr, mode=FLIP[v.mode], whole=False)
            if isinstance(v, FL): self.unmodelled(n, 'transpose of a small vector')
            return EV(m_T(v.m), v.leaves, FLIP.get(v.mode), v.arr)
        if nm == 'array': return v.with_(arr=True) if isinstance(v, View) else EV(self.mat(v, n), v.leaves if isinstance(v, EV) else (), None, True)
        if nm == 'matrix': return v.with_(arr=False) if isinstance(v, View) else EV(v.m, v.leaves, None, False)
        if nm == 'asDiagonal':
            e = self.as_ev(v, n)
            return EV(asdiag(full(e.m)), e.leaves, None, False, True)
        if nm == 'diagonal':
            if isinstance(v, View): return v.with_(mode='diag', whole=False)
            return EV(self.diag_vec(v.m, n), v.leaves)
        if nm in ('triangularView', 'selfadjointView'):
            ta = [str(t) for t in (c.get('ta') or [])]
            md = next((t for t in ta if re.match(r'^\d+$', t)), None)
            if md is None:
                m = re.search(r',(\d+)>$', c.get('rt', ''))
                md = m.group(1) if m else None
            if nm == 'selfadjointView': mode = {'1': 'SAL', '2': 'SAU'}.get(md)
            else: mode = MODES.get(md)
            if mode is None: self.unmodelled(n, '%s<%s>' % (nm, md))
            if isinstance(v, View): return v.with_(mode=mode, whole=False)
            m = {'Lower': lambda: mk_tril(lo_of(v.m)), 'Upper': lambda: mk_triu(up_of(v.m))}.get(mode, lambda: self.unmodelled(n, mode))()
            return EV(m, v.leaves, mode)
        if nm in ('solveInPlace', 'solve'):
            ta = [str(t) for t in (c.get('ta') or [])]
            right = '2' in ta[:1]
            T = full(self.mat(v, n))
            b = self.ev(A[0], fr)
            if isinstance(b, (SLoc, ElRef)): b = self.rval(b, n)
            e = self.as_ev(b, n)
            X = full(e.m)
            ti = mat_inv(T)
            if right:
                ok = self.check_shape(n, X.cols, T.rows, 'triangular solve'); m = X.mul(ti) if ok else X
            else:
                ok = self.check_shape(n, T.cols, X.rows, 'triangular solve'); m = ti.mul(X) if ok else X
            m = Mat(m.t, X.rows, X.cols)
            lv = [(w, 'prod') for w, h in e.leaves] + ([(v, 'prod')] if isinstance(v, View) else [])
            if nm == 'solve': return EV(m, lv)
            if not isinstance(b, View): self.unmodelled(n, 'solveInPlace of an expression')
            if isinstance(v, View) and self.overlap(b, v): self.event('alias', n, 'triangular solve in place of its own factor', (b.loc,))
            self.oblige('alias', n)
            self.eig_assign(b.with_(na=False, whole=False), EV(m), '=', n)
            return None
        if nm in ('ldlt', 'llt', 'partialPivLu', 'fullPivLu', 'householderQr', 'colPivHouseholderQr', 'lu'):
            return self.factor({'partialPivLu': 'partialpivlu', 'lu': 'partialpivlu'}.get(nm, nm.lower()), v, n)
        if nm == 'inverse': 
            e = self.as_ev(v, n)
            if e.arr: return EV(self.cwise(lambda p: inv(p), n, e.m), e.leaves, None, True)
            return EV(asdiag(self.cwise(lambda p: inv(p), n, self.diag_vec(e.m, n))) if e.diag else mat_inv(full(e.m)), [(w, 'prod') for w, h in e.leaves], None, False, e.diag)
        # blocks
        R = C = None
        if nm in BLOCKS:
            R, C = self.shape(v)
            q = [self.num(self.ev(a, fr), n) for a in A]
            t = [self.size_targ(c, i) for i in (0, 1)]
            if nm == 'segment':
                ln = q[1] if len(q) > 1 else t[0]; st = q[0]
                return self.block(v, st, ZERO, ln, ONE, n) if C == ONE else self.block(v, ZERO, st, ONE, ln, n)
            if nm in ('head', 'tail'):
                ln = q[0] if q else t[0]
                T_ = R if C == ONE else C
                st = ZERO if nm == 'head' else T_ - ln
                return self.block(v, st, ZERO, ln, ONE, n) if C == ONE else self.block(v, ZERO, st, ONE, ln, n)
            if nm == 'col': return self.block(v, ZERO, q[0], R, ONE, n)
            if nm == 'row': return self.block(v, q[0], ZERO, ONE, C, n)
            if nm == 'block': 
                if len(q) == 2: q += [t[0], t[1]]
                return self.block(v, q[0], q[1], q[2], q[3], n)
            if nm in ('topRows', 'bottomRows', 'middleRows'):
                ln = q[-1] if q else t[0]; st = ZERO if nm == 'topRows' else R - ln if nm == 'bottomRows' else q[0]
                return self.block(v, st, ZERO, ln, C, n)
            if nm in ('leftCols', 'rightCols', 'middleCols'):
                ln = q[-1] if q else t[0]; st = ZERO if nm == 'leftCols' else C - ln if nm == 'rightCols' else q[0]
                return self.block(v, ZERO, st, R, ln, n)
            if nm.endswith('Corner'):
                nr, nc = q if q else t
                r = ZERO if nm.startswith('top') else R - nr
                cc = ZERO if 'Left' in nm else C - nc
                return self.block(v, r, cc, nr, nc, n)
        if nm in ('fill', 'setConstant', 'setZero', 'setOnes', 'setIdentity'):
            L = [self.ev(a, fr) for a in A]
            L = [self.num(x, n) for x in L]
            val = {'setZero': ZERO, 'setOnes': ONE}.get(nm)
            if nm in ('setZero', 'setOnes', 'setIdentity') and L or nm == 'setConstant' and len(L) > 1:
                ds = L if nm != 'setConstant' else L[:-1]
                nr, nc = (ds[0], ds[1]) if len(ds) == 2 else (ds[0], ONE)
                self.st.mem[v.loc] = self.new_arr(v.loc, nr, nc)
                v = self.lval(v.loc)
            if nm == 'setIdentity':
                r, cc = self.shape(v); self.view_write(v, ident(r), n); return v
            if val is None: val = L[-1]
            self.eig_assign(v, val, '=', n)
            return v
        # reductions
        if nm in ('norm', 'squaredNorm', 'sum', 'maxCoeff', 'minCoeff', 'dot', 'lpNorm', 'prod', 'mean', 'stableNorm', 'all', 'any', 'hasNaN', 'allFinite', 'trace', 'isZero', 'value'):
            return self.reduction(nm, v, n, c, fr)
        if nm == 'lazyProduct': return self.eig_prod(v, self.ev(A[0], fr), n, lazy=True)
        CW1 = {'cwiseAbs': 'abs', 'abs': 'abs', 'cwiseAbs2': 'sq', 'abs2': 'sq', 'square': 'sq', 'cwiseSqrt': 'sqrt', 'sqrt': 'sqrt', 'cwiseInverse': 'inv', 'inverse': 'inv'}
        if nm in CW1:
            e = self.as_ev(v, n)
            k = CW1[nm]
            f = {'abs': absv, 'sq': lambda p: p * p, 'sqrt': mk_sqrt, 'inv': inv}[k]
            m = self.cwise(f, n, e.m)
            if k == 'abs': self.__dict__.setdefault('abs_src', {})[m] = full(e.m)
            return EV(m, e.leaves, None, e.arr)
        if nm in ('cwiseMax', 'cwiseMin', 'cwiseProduct', 'cwiseQuotient', 'max', 'min'):
            from interp import mk_max, mk_min
            e = self.as_ev(v, n)
            b = self.ev(A[0], fr)
            if isinstance(b, (SLoc, ElRef)): b = self.rval(b, n)
            f = {'cwiseMax': mk_max, 'max': mk_max, 'cwiseMin': mk_min, 'min': mk_min, 'cwiseProduct': lambda p, q: p * q, 'cwiseQuotient': lambda p, q: p / q}[nm]
            if isinstance(b, (Poly, F)):
                return EV(self.cwise(lambda p: f(p, self.num(b)), n, e.m), e.leaves, None, e.arr)
            g = self.as_ev(b, n)
            return EV(self.cwise(f, n, e.m, g.m), e.leaves + g.leaves, None, e.arr)
        if nm == 'unaryExpr':
            f = self.ev(A[0], fr)
            self.unmodelled(n, 'unaryExpr')
        if nm == 'swap':
            w = self.lv(A[0], fr)
            if isinstance(v, View) and isinstance(w, View):
                a, b = self.mat(v, n, use=False), self.mat(w, n, use=False)
                self.view_write(v, b, n); self.view_write(w, a, n); return None
        if nm in ('coeff', 'coeffRef', 'x', 'y', 'z', 'w'):
            if nm in 'xyzw': return self.el_of(v, poly('xyzw'.index({'x': 'x', 'y': 'y', 'z': 'z', 'w': 'w'}[nm])), None, n)
            idx = [self.num(self.ev(a, fr), n) for a in A]
            if isinstance(v, View): return self.el_of(v, idx[0], idx[1] if len(idx) > 1 else None, n)
        if nm in ('begin', 'end') and isinstance(v, View):
            l = v.lin()
            if l and not v.tr: return Tuple('it', v.loc, l[0] + (ZERO if nm == 'begin' else l[1]))
        if nm == 'finished': return v
        self.unmodelled(n, 'matrix method %s' % nm)
    def nonempty(self, n, size, nm):
        self.oblige('empty', n)
        if not O_nonneg(size - 1): self.event('empty', n, '%s of a possibly empty vector' % nm, (size,))
    def reduction(self, nm, v, n, c, fr):
        A = n['a']
        L = self.farr_list(v, n) if not isinstance(v, EV) else None
        if L is not None and nm not in ('dot',):
            from interp import mk_max, mk_min
            s = sum((x * x for x in L), ZERO)
            if nm == 'norm': return mk_sqrt(s)
            if nm == 'squaredNorm': return s
            if nm == 'sum': return sum(L, ZERO)
            if nm in ('maxCoeff', 'minCoeff'):
                r = L[0]
                for x in L[1:]: r = mk_max(r, x) if nm == 'maxCoeff' else mk_min(r, x)
                return r
        m = full(self.mat(v, n))
        if nm == 'value': return scalar_of(m)
        if nm in ('norm', 'stableNorm'): return self.norm2(m)
        if nm == 'squaredNorm': return self.sqn(m)
        if nm == 'dot':
            b = self.ev(A[0], fr)
            y = full(self.mat(b, n))
            if m.cols != ONE: m = m.T()
            if y.cols != ONE: y = y.T()
            if not self.check_shape(n, m.rows, y.rows, 'dot product'): return poly(atom('junkdot', n.get('l', 0)))
            return dot(m, y)
        if nm == 'sum':
            if m.cols != ONE: m = m.T() if m.rows == ONE else flatten(m)
            return sum_of(elem(m, PIDX), m.rows) if m.rows != ONE else scalar_of(m)
        if nm in ('maxCoeff', 'minCoeff'):
            if A: self.unmodelled(n, 'maxCoeff with an index')
            self.nonempty(n, m.rows * m.cols, nm)
            return self.maxred(m, n, 1 if nm == 'maxCoeff' else -1)
        if nm == 'lpNorm':
            p = str((c.get('ta') or ['?'])[0])
            if m.cols != ONE: m = m.T() if m.rows == ONE else flatten(m)
            if p == '-1': return norminf(m)
            if p == '1': return sum_of(absv(elem(m, PIDX)), m.rows)
            if p == '2': return self.norm2(m)
        if nm in ('hasNaN', 'allFinite', 'isZero'): return fatom(atom(nm, m, deps=m.deps))
        if nm in ('trace', 'prod', 'mean'): return poly(atom(nm, m))
        self.unmodelled(n, 'reduction %s' % nm)

    # ------------------------------------------------------------ free functions
    def it_range(self, a, b, n):
        """list of entries between two iterators/pointers, or (loc, lo, n)"""
        if isinstance(a, Tuple) and a.kind == 'it': loc, i = a.v[0], a.v[1]
        elif isinstance(a, EPtr): loc, i = a.loc, a.off
        else: self.unmodelled(n, 'iterator %r' % (a,))
        j = b.v[1] if isinstance(b, Tuple) else b.off
        return loc, i, j
    def printed(self, t, stream, n, nm):
        """text t goes to an output stream (None: the process's own)"""
        if isinstance(t, Ptr) and t.loc is not None: t = self.st.mem.get(t.loc)
        if isinstance(t, Str): t = Text([('%s', (t,))])
        self.event('print', n, nm, (t, stream))
        if PRINTED in self.st.mem:
            old = self.st.mem[PRINTED]
            self.st.mem[PRINTED] = PLog((old.items if isinstance(old, PLog) else ()) + (t,))
    def free_call(self, nm, n, c, fr):
        from interp import mk_max, mk_min, max_of
        A = n['a']
        full_n = c['n']
        if nm in ('forward', 'move', 'as_const', 'ref', 'cref'): return self.lv(A[0], fr)
        if nm in ('make_shared', 'make_unique') and full_n.startswith('std::'):
            m = re.match(r'^std::(?:shared_ptr|unique_ptr)<(.*?)(?:, ?std::default_delete<.*)?>$', base_type(n.get('t', '')))
            if not m: self.unmodelled(n, 'library function %s of %s' % (full_n, n.get('t')))
            t = base_type(m.group(1))
            loc = ('H', fr.key, id(n), self.iters)
            self.drop_obj(loc)
            if t in self.prog.records:
                fs = self.prog.find(t + '::' + simple(t), lambda f: f.get('ctor') and not f.get('copy') and len(f['p']) == len(A) and f.get('body') is not None)
                if len(fs) == 1: self.call_fn(fs[0], loc, A, fr, n, ctor_cls=t); return Ptr(loc)
                if not A and not fs: self.default_fields(loc, t, fr); return Ptr(loc)
                self.unmodelled(n, '%s: %d constructors' % (full_n, len(fs)))
            if t.startswith('std::vector<'):
                self.construct_vector(loc, t, {'k': 'new_obj', 'a': A, 'l': n.get('l')}, fr); return Ptr(loc)
            self.unmodelled(n, 'library function %s of %s' % (full_n, t))
        if nm in ('snprintf', 'sprintf', 'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'vprintf', 'fflush'):
            vals = [self.ev(a, fr) for a in A]
            d = EMPTY
            for v in vals: d = d | getattr(v, 'deps', EMPTY)
            if nm in ('snprintf', 'sprintf'):
                size = self.num(vals[1]) if nm == 'snprintf' else None
                b = vals[0]
                loc = b.loc if isinstance(b, (SLoc, Ptr)) else None
                cap = self.st.mem.get(loc + ('#len',)) if loc else None
                k = 2 if nm == 'snprintf' else 1
                fmt = vals[k].s if len(vals) > k and isinstance(vals[k], Str) else None
                t = Text([(fmt, tuple(vals[k + 1:]))], d)
                if loc is not None and isinstance(self.st.mem.get(loc), Opaque): self.st.mem[loc] = t
                self.oblige('snprintf', n)
                self.event('snprintf', n, 'formatted output', (cap, size, t))
            else:
                k = 1 if nm in ('fprintf', 'fputs') else 0
                if nm == 'printf': t = Text([(vals[0].s if isinstance(vals[0], Str) else None, tuple(vals[1:]))], d)
                else: t = None
                self.printed(t, None, n, nm)
            return poly(atom('io', nm, self.where(n), isint=True))
        if full_n.startswith('std::chrono') or 'chrono' in (c.get('rt') or '') or 'clock' in full_n:
            if self.clock is not None: return self.clock.call(self, nm, n, c, None, A, fr)
            d = frozenset([('clock',)])
            for a in A:
                v = self.ev(a, fr); d = d | getattr(v, 'deps', EMPTY)
            return Opaque('time', d)
        if nm in ('max', 'min') and len(A) >= 2:
            a, b = self.ev(A[0], fr), self.ev(A[1], fr)
            x, y = self.num(a, n), self.num(b, n)
            return mk_max(x, y) if nm == 'max' else mk_min(x, y)
        if nm in ('max', 'min') and len(A) == 1:
            v = self.ev(A[0], fr)
            L = self.farr_list(v, n)
            if L:
                r = L[0]
                for x in L[1:]: r = mk_max(r, x) if nm == 'max' else mk_min(r, x)
                return r
        if nm in ('max', 'min', 'epsilon', 'infinity', 'quiet_NaN', 'lowest') and not A:
            isint = base_type(c.get('rt', '')) in INTS
            if nm == 'max' and isint: return poly(2 ** 31 - 1)
            return poly(atom('numlim', nm, base_type(c.get('rt', '')), isint=isint, sign='>0' if nm in ('max', 'epsilon', 'infinity') else None))
        if nm in ('max_element', 'min_element'):
            loc, i, j = self.it_range(self.ev(A[0], fr), self.ev(A[1], fr), n)
            a = self.st.mem.get(loc)
            if isinstance(a, FArr):
                i, j = i.const(), j.const()
                if i is None or j is None: self.unmodelled(n, 'symbolic range')
                L = [self.farr_get(a, k, loc, n) for k in range(int(i), int(j))]
                r = L[0]
                for x in L[1:]: r = mk_max(r, x) if nm == 'max_element' else mk_min(r, x)
            else:
                m = self.lin_read(a, i, j - i)
                self.nonempty(n, j - i, nm)
                r = self.maxred(m, n, 1 if nm == 'max_element' else -1)
            return Tuple('itval', r)
        if nm in ('accumulate',):
            loc, i, j = self.it_range(self.ev(A[0], fr), self.ev(A[1], fr), n)
            a = self.st.mem.get(loc); s = self.num(self.ev(A[2], fr))
            if len(A) > 3: self.unmodelled(n, 'accumulate with an operation')
            if isinstance(a, FArr): return s + sum((self.farr_get(a, k, loc, n) for k in range(int(i.const()), int(j.const()))), ZERO)
            m = self.lin_read(a, i, j - i)
            return s + sum_of(elem(m, PIDX), j - i)
        if nm in ('fill', 'fill_n'):
            p, q = self.ev(A[0], fr), self.ev(A[1], fr)
            loc, i, j = self.it_range(p, q if nm == 'fill' else self.ptr_add(p, self.num(q), n), n)
            k = self.num(self.ev(A[2], fr), n)
            self.range_assign(loc, i, j, lambda t: k, n); return None
        if nm in ('copy', 'copy_n', 'copy_backward', 'move_backward'):
            p, q = self.ev(A[0], fr), self.ev(A[1], fr)
            if nm == 'copy_n': q = self.ptr_add(p, self.num(q), n)
            loc, i, j = self.it_range(p, q, n)
            d = self.ev(A[2], fr)
            dl, di = (d.v[0], d.v[1]) if isinstance(d, Tuple) else (d.loc, d.off)
            a = self.st.mem.get(loc); b = self.st.mem.get(dl)
            if nm.endswith('backward'): di = di - (j - i)
            if isinstance(a, FArr) and isinstance(b, FArr) and i.const() is not None and j.const() is not None and di.const() is not None:
                L = [self.farr_get(a, k, loc, n) for k in range(int(i.const()), int(j.const()))]
                vs = list(b.v)
                for k, x in enumerate(L): vs[int(di.const()) + k] = x
                self.st.mem[dl] = FArr(vs, b.vec); return None
            if isinstance(a, Arr) and isinstance(b, Arr):
                if not a.lin: a = self.to_lin(loc)
                if not b.lin: b = self.to_lin(dl)
                m = self.lin_read(a, i, j - i)
                self.brange(n, di, j - i, b.size()); self.brange(n, i, j - i, a.size())
                self.st.mem[dl] = self.lin_write(self.st.mem[dl], di, j - i, m); return None
            self.unmodelled(n, 'copy of %r' % (a,))
        if nm in ('rotate',):
            p, mid, q = [self.ev(a, fr) for a in A]
            loc, i, j = self.it_range(p, q, n); _, _, k = self.it_range(p, mid, n)
            a = self.st.mem.get(loc)
            if isinstance(a, FArr) and None not in (i.const(), j.const(), k.const()):
                i, j, k = int(i.const()), int(j.const()), int(k.const())
                vs = list(a.v); vs[i:j] = vs[k:j] + vs[i:k]
                self.st.mem[loc] = FArr(vs, a.vec); return Tuple('it', loc, poly(i + j - k))
            self.unmodelled(n, 'rotate')
        if nm in ('begin', 'end', 'cbegin', 'cend', 'data', 'size', 'distance', 'next', 'prev', 'advance'):
            x = self.lv(A[0], fr)
            if nm in ('begin', 'cbegin', 'end', 'cend') and isinstance(x, View):
                return Tuple('it', x.loc, x.off + (ZERO if 'begin' in nm else x.rows * x.cols))
            if nm == 'size' and isinstance(x, View): return x.rows * x.cols
            v = self.rval(x, n) if isinstance(x, SLoc) else x
            if nm in ('next', 'prev'):
                k = self.num(self.ev(A[1], fr)) if len(A) > 1 else ONE
                return self.ptr_add(v, k if nm == 'next' else -k, n)
            if nm == 'distance': return self.ptr_diff(self.ev(A[1], fr), v, n)
            self.unmodelled(n, nm)
        if nm == 'swap':
            a, b = self.lv(A[0], fr), self.lv(A[1], fr)
            if isinstance(a, View) and isinstance(b, View):
                if a.whole and b.whole:
                    self.st.mem[a.loc], self.st.mem[b.loc] = self.st.mem[b.loc], self.st.mem[a.loc]; return None
            elif isinstance(a, (SLoc, ElRef)) and isinstance(b, (SLoc, ElRef)):
                x, y = self.rval(a, n), self.rval(b, n)
                self.store(a, y, n); self.store(b, x, n); return None
            self.unmodelled(n, 'swap')
        if nm == 'make_pair':
            t = base_type(n.get('t', ''))
            loc = ('T', fr.key, id(n), self.iters)
            self.construct_pair(loc, t, {'k': 'new_obj', 'a': A, 'l': n.get('l')}, fr)
            return Obj(loc, t)
        if nm == 'tie': return Tuple('tie', *[self.lv(x, fr) for x in A])
        if nm == 'exchange':
            a = self.lv(A[0], fr); x = self.rval(a, n); self.store(a, self.ev(A[1], fr), n); return x
        if nm == 'sqrt': return mk_sqrt(self.num(self.ev(A[0], fr), n)) if not self.is_expr(self.ev(A[0], fr)) else EV(self.cwise(mk_sqrt, n, self.mat(self.ev(A[0], fr), n)), (), None, True)
        if nm in ('abs', 'fabs'):
            v = self.ev(A[0], fr)
            if self.is_expr(v): return EV(self.cwise(absv, n, self.mat(v, n)), (), None, True)
            return absv(self.num(v, n))
        if nm in ('fmax', 'fmin'):
            x, y = self.num(self.ev(A[0], fr), n), self.num(self.ev(A[1], fr), n)
            return mk_max(x, y) if nm == 'fmax' else mk_min(x, y)
        if nm == 'hypot':
            x, y = self.num(self.ev(A[0], fr), n), self.num(self.ev(A[1], fr), n)
            return mk_sqrt(x * x + y * y)
        if nm == 'pow':
            x, y = self.num(self.ev(A[0], fr), n), self.num(self.ev(A[1], fr), n)
            k = y.const()
            if k is not None and k.denominator == 1 and 0 <= k <= 8: return x ** int(k)
            if k == Fraction(1, 2): return mk_sqrt(x)
            return poly(atom('pow', x, y))
        if nm == 'clamp':
            x, lo, hi = [self.num(self.ev(a, fr), n) for a in A[:3]]
            return mk_min(mk_max(x, lo), hi)
        if nm in ('isnan', 'isfinite', 'isinf', 'signbit'):
            return fatom(atom(nm, self.num(self.ev(A[0], fr), n)))
        if nm in ('Zero', 'Ones', 'Constant', 'Identity', 'Random', 'Unit'):
            ds = [self.num(self.ev(a, fr), n) for a in A]
            m = re.search(r'Matrix<double, ?(-?\d+), ?(-?\d+)', full_n)
            R, C = (int(m.group(1)), int(m.group(2))) if m else (-1, 1)
            k = ds.pop() if nm == 'Constant' else None
            if nm == 'Unit': self.unmodelled(n, 'Unit')
            if not ds: r, cc = poly(R), poly(C)
            elif len(ds) == 1: r, cc = (ds[0], ONE) if C == 1 else (ONE, ds[0])
            else: r, cc = ds[0], ds[1]
            for s in ds: self.nonneg_size(n, s)
            if R > 0 and C > 0 and nm in ('Zero', 'Ones', 'Constant'):
                return FL([ZERO if nm == 'Zero' else ONE if nm == 'Ones' else k] * (R * C))
            if nm == 'Zero': return EV(zeros(r, cc))
            if nm == 'Identity':
                if r == cc or O_equal(r, cc): return EV(ident(r))
                self.unmodelled(n, 'rectangular identity')
            if cc == ONE: return EV(ones(r).scale(ONE if nm == 'Ones' else k)) if nm != 'Random' else self.unmodelled(n, 'Random')
            self.unmodelled(n, nm)
        if nm.startswith('operator'):
            op = nm[8:].strip()
            if len(A) == 2:
                a, b = self.ev(A[0], fr), self.ev(A[1], fr)
                if isinstance(a, (SLoc, ElRef)): a = self.rval(a, n)
                if isinstance(b, (SLoc, ElRef)): b = self.rval(b, n)
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    return self.compare(op, a, b, n)
                if isinstance(a, (Opaque, Str)) or isinstance(b, (Opaque, Str)): return Opaque('(%s%s%s)' % (a, op, b), getattr(a, 'deps', EMPTY) | getattr(b, 'deps', EMPTY))
                if self.is_expr(a) or self.is_expr(b): return self.eig_binop(op, a, b, n)
                if isinstance(a, Tuple) and a.kind == 'it': return self.binop(op, a, b, n)
            if len(A) == 1:
                a = self.ev(A[0], fr)
                if op == '-' and self.is_expr(a): return self.eig_neg(a, n)
        if nm in ('_Swallow_assign',) : return None
        if nm == 'make_unique':
            self.unmodelled(n, 'std::make_unique')
        if nm == 'make_pair': return Tuple('pair', *[self.ev(a, fr) for a in A])
        if nm in ('terminate', 'abort', 'exit', '__assert_fail'):
            self.event('abort', n, nm); raise Dead()
        self.unmodelled(n, 'library function %s' % full_n)
    def range_assign(self, loc, i, j, f, n):
        a = self.st.mem.get(loc)
        if isinstance(a, FArr) and i.const() is not None and j.const() is not None:
            vs = list(a.v)
            for k in range(int(i.const()), int(j.const())): vs[k] = f(k)
            self.st.mem[loc] = FArr(vs, a.vec); return
        if isinstance(a, Arr):
            if not a.lin: a = self.to_lin(loc)
            self.st.mem[loc] = self.lin_write(a, i, j - i, ones(j - i).scale(f(None))); return
        self.unmodelled(n, 'range assignment')

BLOCKS = {'segment', 'head', 'tail', 'col', 'row', 'block', 'topRows', 'bottomRows', 'middleRows', 'leftCols', 'rightCols', 'middleCols',
          'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'}
def has_idx(p): return any(has_idx_atom(a) for a in p.atoms())
