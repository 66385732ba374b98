"""The objects of a state: what points to what, what a call may change, and
states in which everything an earlier call may have changed is arbitrary."""
from algo import *

def targets(v):
    if isinstance(v, (Ptr, EPtr)): return [v.loc] if v.loc is not None else []
    if isinstance(v, Ref): return targets(v.t)
    if isinstance(v, (View, SLoc, Obj)): return [v.loc] if v.loc is not None else []
    if isinstance(v, ElRef): return targets(v.view)
    if isinstance(v, Choice): return targets(v.a) + targets(v.b)
    return []

def under(mem, root):
    k = len(root)
    return [l for l in mem if l[:k] == root]

def reach(mem, roots, stop=()):
    """every location of the objects the roots own or point to"""
    seen = []; done = set(); todo = list(roots)
    while todo:
        r = todo.pop()
        if r in done: continue
        done.add(r)
        if any(r[:len(s)] == s for s in stop): continue
        for l in under(mem, r):
            seen.append(l)
            for t in targets(mem[l]):
                if t not in done: todo.append(t)
    return list(dict.fromkeys(seen))

def owners(P, mem):
    """heap objects held by a smart pointer or container field: loc -> holder"""
    out = {}
    for l, v in mem.items():
        if not isinstance(v, Ptr) or v.loc is None or len(l) < 2: continue
        o = mem.get(l[:-1])
        if not isinstance(o, Obj): continue
        for f in fields_of(P, o.cls):
            if f['n'] == l[-1] and ('unique_ptr' in f['t'] or 'shared_ptr' in f['t']): out[v.loc] = l
    return out
def fields_of(P, cls):
    out = []
    for c in bases(P, cls):
        r = P.records.get(c)
        if r: out += r['f']
    return out

def objects(mem, locs, root):
    """objects among the locations whose class derives from root: locs"""
    return [l for l in locs if isinstance(mem.get(l), Obj) and mem[l].loc == l and derives(root[0], mem[l].cls, root[1])]

# ------------------------------------------------------- arbitrary states
def changed(e, before, states, locs):
    out = []
    for l in locs:
        a = before.mem.get(l)
        for s in states:
            b = s.mem.get(l)
            if not same_val(a, b): out.append(l); break
    return out
def same_val(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, FArr): return a.v == b.v
    try: return bool(a == b)
    except Exception: return False

def stale_value(e, l, v, other):
    nm = 'stale:%s' % '.'.join(str(x) for x in l if isinstance(x, str))[-60:]
    key = nm + '#%d' % stale_id(l)
    dep = frozenset([('stale', nm)])
    if isinstance(v, Poly):
        return poly(atom('v', key, name=nm, isint=v.isint() and l in e.int_locs, deps=dep))
    if isinstance(v, F): return fatom(atom('v', key, name=nm, deps=dep))
    if isinstance(v, Arr):
        n = v.rows * v.cols
        m = mat_of(sym('in', key, rows=n, cols=ONE, name=nm, deps=dep)) if v.lin else mat_of(sym('in', key, rows=v.rows, cols=v.cols, name=nm, deps=dep))
        return Arr(v.rows, v.cols, m, (), v.lin)
    if isinstance(v, FArr): return FArr([poly(atom('v', key, i, name='%s[%d]' % (nm, i), deps=dep)) for i in range(len(v.v))], v.vec)
    if isinstance(v, Ptr): return Ptr(other) if other is not None else v
    return None
_ids = {}
def stale_id(l): return _ids.setdefault(l, len(_ids))

def make_stale(e, locs, other):
    """overwrite the locations with arbitrary values; returns those that could
    not be overwritten"""
    left = []
    for l in locs:
        v = e.st.mem.get(l)
        n = stale_value(e, l, v, other)
        if n is None: left.append(l)
        else: e.st.mem[l] = n
    return left

# --------------------------------------------------------- dependences
class Deps:
    """dependences of a value, through the values loops carry"""
    def __init__(self, e):
        self.e = e; self.memo = {}
    def of(self, v, st=None):
        if isinstance(v, (Poly, F, Mat, Half)): return v.deps
        if isinstance(v, Arr):
            d = v.deps if hasattr(v, 'deps') else EMPTY
            return d
        if isinstance(v, FArr):
            d = EMPTY
            for x in v.v: d = d | self.of(x)
            return d
        if isinstance(v, Choice): return self.of(v.f) | self.of(v.a) | self.of(v.b)
        if isinstance(v, Text):
            d = v.deps
            for t in v.alts:
                if t:
                    for x in t[1]: d = d | self.of(x)
            return d
        if isinstance(v, PLog):
            d = EMPTY
            for x in v.items: d = d | self.of(x)
            return d
        return getattr(v, 'deps', EMPTY) or EMPTY
    def close(self, d):
        """follow loop-carried values to what they are computed from"""
        seen = set(d); todo = list(d)
        while todo:
            x = todo.pop()
            if not (isinstance(x, tuple) and x[0] == 'phi'): continue
            p = self.e.phi.get(x[1])
            if p is None: continue
            for i in p['inst']:
                for v in [i['entry']] + list(i['backs']):
                    for y in self.of(v):
                        if y not in seen: seen.add(y); todo.append(y)
        return seen
    def bad(self, v, kinds=('stale', 'undef')):
        return sorted({str(x[1]) for x in self.close(self.of(v)) if isinstance(x, tuple) and x[0] in kinds})

# -------------------------------------------------- a solver used before
STALE_DATA = ('L', '<check>', 'data of an earlier call')
class Again(Run):
    """A solve by a solver object that made other calls before: everything
    those calls may have changed in it is arbitrary."""
    def __init__(self, P, kind, display=0, extra=None, **o):
        self.marked = []; self.left = []; self.extra = extra
        Run.__init__(self, P, kind, display=display, setup=self.prepare, opts=False, **o)
        # anything the analysed call changes in the solver must have been arbitrary
        ch = changed(self.e, self.st0, [s for s, _ in self.rs] + self.thrown(), self.solver_locs)
        self.missed = [l for l in ch if l not in self.marked and not self.e.st.mem.get(l) is None and l not in self.left]
    def thrown(self): return [x.st for x in self.e.events if x.kind == 'throw' and getattr(x, 'st', None) is not None]
    def prepare(self, R):
        S = R.S; h = S.h; e = h.e; C = R.C
        S.update_options(R.display_)
        h.mem[STALE_DATA] = Obj(STALE_DATA, 'fbstab::DenseData' if S.kind == 'dense' else 'fbstab::MpcData')
        C.stale = STALE_DATA
        self.solver_locs = reach(h.mem, [S.solver])
        self.solver_locs = [l for l in self.solver_locs if l not in set(S.in_force)]
        for round_ in range(3):
            start = e.st.copy()
            rs = S.solve(start.copy())
            self.R = R
            ch = changed(e, start, [s for s, _ in rs] + self.thrown(), self.solver_locs)
            new = [l for l in ch if l not in self.marked]
            e.st = start
            e.events.clear(); e.loops.clear(); e.phi.clear(); e.branch_deps.clear()
            C.steps.clear(); C.inits.clear(); C.used.clear(); C.datas.clear()
            if not new: break
            for l in new:
                v = e.st.mem[l]; w = [t.mem.get(l) for t, _ in rs]
                if isinstance(v, Ptr) and not all(dead(e, C, x) for x in w if not same_val(x, v)): self.left.append(l); self.marked.append(l); continue
                n = stale_value(e, l, v, STALE_DATA)
                if n is None: self.left.append(l)
                else: e.st.mem[l] = n
                self.marked.append(l)
        e.st = e.st.copy()
def dead(e, C, p):
    """a pointer to problem data of the call"""
    return isinstance(p, Ptr) and (p.loc in C.datas or p.loc is not None and p.loc[0] in ('L', 'T') and p.loc[1] != '<check>' or p.loc == STALE_DATA)
