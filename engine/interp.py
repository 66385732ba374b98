"""Abstract interpreter over the exported, type-resolved syntax trees.

Domain: every scalar is a canonical polynomial over interned atoms, every
matrix a linear combination of non-commutative words; control joins produce
gated values, loops are solved by a fixpoint with fresh loop-head values,
induction variables, inductive range facts and inductive equalities.  No path
condition is ever handed to a solver and nothing is executed."""
import os, sys
from core import *
from prog import rel, walk
from eig import EigMixin

sys.setrecursionlimit(20000)
MAXTRIPS = 26

class Ctx:
    __slots__ = ('script', 'pos', 'pending', 'memo', 'seq', 'cmemo')

def lt_args(f):
    return f.a[0] if f.op in ('lt', 'le') else None

MAXSETS = {}
def mk_max(a, b, strict=True):
    """value of max(a, b)."""
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None: return a if ca >= cb else b
    if a == b: return a
    s = frozenset(MAXSETS.get(a, (a,))) | frozenset(MAXSETS.get(b, (b,)))
    return max_of(s)
def max_of(s):
    cs = [x for x in s if x.const() is not None]
    if len(cs) > 1:
        m = max(cs, key=lambda x: x.const())
        s = frozenset(x for x in s if x.const() is None) | {m}
    if len(s) == 1: return next(iter(s))
    if len(s) == 2:
        a, b = sorted(s, key=lambda x: (x.const() is not None, x.skey()))
        r = ite(lt(a, b), b, a)
    else:
        t = tuple(sorted(s, key=lambda x: x.skey()))
        nn = any(x.const() is not None and x.const() >= 0 for x in t)
        r = poly(atom('maxof', t, isint=all(x.isint() for x in t), sign='>=0' if nn else None))
    MAXSETS[r] = s
    return r
MINSETS = {}
def min_of(s):
    if len(s) == 1: return next(iter(s))
    if len(s) == 2:
        a, b = sorted(s, key=lambda x: (x.const() is not None, x.skey()))
        r = ite(lt(a, b), a, b)
    else:
        r = poly(atom('minof', tuple(sorted(s, key=lambda x: x.skey())), isint=all(x.isint() for x in s)))
    MINSETS[r] = s
    return r
def mk_min(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None: return a if ca <= cb else b
    if a == b: return a
    return min_of(frozenset(MINSETS.get(a, (a,))) | frozenset(MINSETS.get(b, (b,))))

_oldatom = Subst._atom
def _atom2(self, a):
    if a.kind in ('maxof', 'minof'):
        na = tuple(self.poly(x) for x in a.args[0])
        if na == a.args[0]: return None
        r = na[0]
        for x in na[1:]: r = mk_max(r, x) if a.kind == 'maxof' else mk_min(r, x)
        return r
    return _oldatom(self, a)
Subst._atom = _atom2

def smart_ite(f, a, b):
    """gated value; recognises max/min selections."""
    if a == b: return a
    p = lt_args(f)
    if p is not None and a.const() is None or p is not None and b.const() is None:
        d = a - b
        k = alg._normp(d, False) if d.t else d
        if k == p or alg._normp(-d, False) == p:
            # p = s*(a-b): f holds when a<b (p=a-b) -> min, or a>b (p=b-a) -> max
            return mk_min(a, b) if k == p else mk_max(a, b)
    return ite(f, a, b)

VOLATILE = {'phi', 'phib', 'opq', 'opqf', 'io', 'step', 'init_ok', 'solve_ok', 'fact_ok', 'hav', 'phil', 'phiu', 'numlim'} - {'numlim'}
_vol = {}
def left_inside(body, cond):
    """is a do-while loop more than a counted one: left from within, containing
    another loop, or with a compound condition"""
    def walk(x):
        if isinstance(x, dict):
            if x.get('k') in ('ret', 'break', 'for', 'while', 'do', 'rfor', 'throw'): return True
            if x.get('k') == 'lambda': return False
            return any(walk(v) for v in x.values())
        if isinstance(x, list): return any(walk(v) for v in x)
        return False
    while isinstance(cond, dict) and cond.get('k') in ('cast', 'mat', 'paren'): cond = cond['e']
    return walk(body) or not (isinstance(cond, dict) and cond.get('k') == 'bin' and cond.get('op') in ('<', '<=', '>', '>=', '!='))

def volatile(x):
    """leaves of x that stand for values born at a program point"""
    if isinstance(x, Poly):
        r = frozenset()
        for a in x.atoms(): r |= volatile(a)
        return r
    if isinstance(x, (Atom, Sym)):
        k = (isinstance(x, Atom), x.id)
        r = _vol.get(k)
        if r is None:
            r = frozenset([k]) if x.kind in VOLATILE else frozenset()
            for y in x.args: r |= volatile(y)
            _vol[k] = r
        return r
    if isinstance(x, Mat):
        r = frozenset()
        for w, c in x.t.items():
            r |= volatile(c)
            for s in w: r |= volatile(s)
        return r
    if isinstance(x, Half): return volatile(x.lo) | volatile(x.up)
    if isinstance(x, Arr):
        r = volatile(x.base)
        for w in x.log: r |= volatile(w.val)
        return r
    if isinstance(x, FArr): return volatile(x.v)
    if isinstance(x, F): return volatile(x.a)
    if isinstance(x, tuple):
        r = frozenset()
        for y in x: r |= volatile(y)
        return r
    return frozenset()

STD_EXC = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
           'std::domain_error': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
           'std::bad_alloc': 'std::exception', 'std::exception': None}
def catches(t, thrown, prog):
    """does a handler for type t take an exception of this type (None: not known)"""
    if t is None: return True
    t = t.rstrip('&').strip(); cur = thrown
    if cur not in STD_EXC: return True if cur == t else None
    while cur:
        if cur == t: return True
        cur = STD_EXC.get(cur)
    return False if t in STD_EXC else None
def is01(p):
    """a number that is the value of a condition"""
    if p.const() is not None: return p.const() in (0, 1)
    at = list(p.atoms())
    if len(at) > 4 or any(a.kind != 'ind' for a in at): return False
    import itertools
    for vs in itertools.product((0, 1), repeat=len(at)):
        v = {a.id: x for a, x in zip(at, vs)}; r = 0
        for m, c in p.t.items():
            for a, k in m: c = c * v[a] ** k
            r += c
        if r not in (0, 1): return False
    return True

class Engine(EigMixin):
    def __init__(self, prog):
        self.prog = prog
        self.st = State()
        self.events = []
        self.clock = None        # model of time (see engine/clock.py)
        self.factors = []   # factorizations made (kind, matrix, conditions)
        self.quiet = 0
        self.obl = {}
        self.phi = {}
        self.loops = []          # every loop analysed by fixpoint, final passes
        self.fkeys = {}
        self.iters = ()
        self.cstack = []
        self.mcache = {}
        self.contracts = None
        self.margin = None
        self.visited = set(); self.keyfn = {}
        self.calls = 0
        self.branch_deps = []
        self.hooks = {}
        self.vcache = {}
        self.stack = []
        self.write_watch = None
        self.int_locs = set()
        alg.ORACLE[0] = FactOracle(self)

    def facts(self): return self.st.facts
    # ------------------------------------------------------------ events
    def event(self, kind, n, msg, data=None):
        if self.quiet: return
        fr = self.stack[-1] if self.stack else None
        fn = fr.fn if fr else None
        self.events.append(Event(kind=kind, file=rel(fn['file']) if fn else '?', line=(n or {}).get('l', 0), fn=fn['n'] if fn else '?',
                                 msg=msg, facts=self.st.facts, data=data, st=self.st.copy() if kind == 'throw' else None, stack=tuple((x.fn['n'], x.call.get('l') if x.call else None) for x in self.stack)))
    def where(self, n):
        fr = self.stack[-1] if self.stack else None
        return '%s:%s' % (rel(fr.fn['file']) if fr else '?', (n or {}).get('l', 0))
    def oblige(self, kind, n):
        fr = self.stack[-1] if self.stack else None
        k = (kind, rel(fr.fn['file']) if fr else '?', (n or {}).get('l', 0))
        self.obl[k] = self.obl.get(k, 0) + 1
    def unmodelled(self, n, msg):
        raise Unmodelled('%s (%s): %s' % (self.where(n), self.stack[-1].fn['n'] if self.stack else '?', msg))

    # ------------------------------------------------------------ choices
    def run(self, st, f):
        """run f on a copy of st under every combination of choices;
        -> list of (state, value)"""
        res = []
        pending = [()]
        memo = {}; cmemo = {}
        saved = self.st; depth = len(self.stack)
        while pending:
            c = Ctx(); c.script = pending.pop(0); c.pos = 0; c.pending = pending; c.memo = memo; c.cmemo = cmemo; c.seq = 0
            if len(memo) > 64: self.unmodelled(None, 'too many cases')
            self.cstack.append(c)
            self.st = st.copy()
            try:
                v = f()
                res.append((self.st, v))
            except Dead:
                pass
            finally:
                self.cstack.pop()
                del self.stack[depth:]
        self.st = saved
        return res
    def choose(self, make):
        """make() -> list of (state, value); picks one, schedules the others."""
        c = self.cstack[-1]
        key = c.script[:c.pos]
        if key not in c.memo: c.memo[key] = make()
        opts = c.memo[key]
        if not opts: raise Dead()
        if c.pos < len(c.script): i = c.script[c.pos]
        else:
            for j in range(1, len(opts)): c.pending.append(c.script + (j,))
            i = 0; c.script = c.script + (0,)
        c.pos += 1
        st, v = opts[i]
        self.st = st.copy()
        return v
    def fork(self, f):
        """decide f, or split the current state on it."""
        d = self.st.facts.decide(f)
        if d is not None: return d
        st = self.st
        def make():
            a = st.copy(); a.facts = a.facts.add(f)
            b = st.copy(); b.facts = b.facts.add(fnot(f))
            return [(a, True), (b, False)]
        return self.choose(make)

    # ------------------------------------------------------------ memory
    def fkey(self, *k):
        i = self.fkeys.get(k)
        if i is None: i = self.fkeys[k] = len(self.fkeys)
        return i
    def vloc(self, fr, vid): return ('L', fr.key, vid)
    def lval(self, loc):
        """lvalue object for a location."""
        v = self.st.mem.get(loc)
        if isinstance(v, Ref): return v.t
        if isinstance(v, Arr): return self.whole(loc, v)
        if isinstance(v, FArr): return View(loc, ZERO, ZERO, ZERO, poly(len(v.v)), ONE, poly(len(v.v)), whole=True)
        if isinstance(v, Obj): return v
        return SLoc(loc)
    def whole(self, loc, a): return View(loc, ZERO, ZERO, ZERO, a.rows, a.cols, a.rows, whole=True)
    def rval(self, t, n=None):
        if isinstance(t, SLoc):
            v = self.st.mem.get(t.loc)
            if v is None: self.ended(t.loc, n); self.unmodelled(n, 'read of an unknown location %s' % (t.loc,))
            if isinstance(v, Undef):
                self.event('undef', n, 'read of an indeterminate value', t.loc)
                v = self.fresh_scalar(('undef', str(t.loc)), v.t, deps=frozenset([('undef', str(t.loc))]))
                self.st.mem[t.loc] = v
            if isinstance(v, Lazy): return self.ev_in(v.n, v.fr)
            if isinstance(v, (Ref,)): return self.rval(v.t, n)
            if isinstance(v, (Arr, FArr, Obj)): return self.lval(t.loc)
            return v
        if isinstance(t, ElRef): return self.read_el(t, n)
        return t
    def fresh_scalar(self, key, t, deps=EMPTY):
        t = base_type(t)
        if t == 'bool': return fatom(atom('tv', *map(str, key), deps=deps))
        return poly(atom('v', *map(str, key), deps=deps, isint=t in INTS))
    def ended(self, loc, n):
        """notes an access to a local or temporary of a call that has returned"""
        if loc is not None and loc[0] in ('L', 'T') and self.stack and not any(x.key == loc[1] for x in self.stack):
            f = self.keyfn.get(loc[1])
            self.event('dangling', n, 'the access goes to a local object or parameter of %s, whose call has ended' % ('%s (%s:%s)' % (f['n'], os.path.basename(f['file']), f.get('l')) if f else 'a call'), loc)
    def store(self, t, v, n=None, ty=None):
        if isinstance(t, SLoc):
            cur = self.st.mem.get(t.loc)
            if cur is None: self.ended(t.loc, n)
            if isinstance(cur, Ref): return self.store(cur.t, v, n, ty)
            if ty is not None: v = self.coerce(v, ty, n)
            if isinstance(v, (View, EV)) and isinstance(cur, View): return self.eig_assign(cur, v, '=', n)
            if isinstance(v, Obj): return self.copy_obj(v.loc, t.loc)
            self.st.mem[t.loc] = v
        elif isinstance(t, ElRef): self.write_el(t, self.num(v), n)
        elif isinstance(t, View): self.eig_assign(t, v, '=', n)
        elif isinstance(t, Obj):
            if isinstance(v, Obj): self.copy_obj(v.loc, t.loc)
            else: self.unmodelled(n, 'assignment of %r to an object' % (v,))
        else: self.unmodelled(n, 'store to %r' % (t,))
    def copy_obj(self, src, dst):
        if src == dst: return
        k = len(src)
        old = [l for l in self.st.mem if l[:len(dst)] == dst and len(l) > len(dst)]
        new = [(dst + l[k:], v) for l, v in self.st.mem.items() if l[:k] == src]
        for l in old: del self.st.mem[l]
        for l, v in new:
            if isinstance(v, Obj): v = Obj(l, v.cls)
            self.st.mem[l] = v
    def drop_obj(self, loc):
        k = len(loc)
        for l in [l for l in self.st.mem if l[:k] == loc]: del self.st.mem[l]
    def coerce(self, v, t, n=None):
        """value conversion to a scalar type."""
        if isinstance(v, (SLoc, ElRef)): v = self.rval(v, n)
        b = base_type(t)
        if b == 'bool': return self.truth(v, n)
        if b in INTS or b in FLTS:
            p = self.num(v, n)
            if b in INTS and not p.isint():
                c = p.const()
                if c is not None: return poly(int(c))
                return poly(atom('trunc', p, isint=True))
            return p
        return v
    def num(self, v, n=None):
        if isinstance(v, Poly): return v
        if isinstance(v, F): return ind(v)
        if isinstance(v, (SLoc, ElRef)): return self.num(self.rval(v, n), n)
        if isinstance(v, (View, EV)):
            return scalar_of(full(self.mat(v, n)))
        if isinstance(v, FL) and len(v.v) == 1: return v.v[0]
        if isinstance(v, Opaque): return poly(atom('opq', v.name, deps=v.deps))
        self.unmodelled(n, 'number expected, got %r' % (v,))
    def truth(self, v, n=None):
        if isinstance(v, F): return v
        if isinstance(v, Poly): return as_formula(v)
        if isinstance(v, Ptr): return FALSE if v.loc is None else TRUE
        if isinstance(v, EPtr): return TRUE
        if isinstance(v, (SLoc, ElRef)): return self.truth(self.rval(v, n), n)
        if isinstance(v, Opaque): return fatom(atom('opqf', v.name, deps=v.deps))
        self.unmodelled(n, 'condition expected, got %r' % (v,))

    # ------------------------------------------------------------ statements
    def exec(self, n, st, fr):
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m: return m(n, st, fr)
        # expression statement
        return [Out('n', s) for s, _ in self.run(st, lambda: self.ev(n, fr))]
    def seq(self, stmts, st, fr):
        cur = [st]; outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.exec(s, c, fr):
                    if o.k == 'n': nxt.append(o.st)
                    else: outs.append(o)
            cur = self.dedupe(nxt)
            if len(cur) > 40: self.unmodelled(s, 'too many abstract states')
            if not cur: break
        return [Out('n', c) for c in cur] + outs
    def dedupe(self, sts):
        out = []
        for s in sts:
            for i, o in enumerate(out):
                if o.mem == s.mem:
                    out[i] = State(o.mem, o.facts.common(s.facts)); break
            else: out.append(s)
        return out
    def s_blk(self, n, st, fr): return self.seq(n['s'], st, fr)
    def s_nop(self, n, st, fr): return [Out('n', st)]
    def s_decl(self, n, st, fr):
        def f():
            for v in n['v']: self.declare(v, fr)
        return [Out('n', s) for s, _ in self.run(st, f)]
    def s_ret(self, n, st, fr):
        def f():
            e = n.get('e')
            if e is None: return None
            rt = fr.fn['rt']
            if is_ref(rt): return self.lv(e, fr)
            return self.return_value(e, rt, fr)
        return [Out('ret', s, v) for s, v in self.run(st, f)]
    def return_value(self, e, rt, fr):
        b = base_type(rt)
        loc = ('R', fr.key)
        if eig_mat(b):
            self.construct_eigen(loc, b, e, fr)
            return self.lval(loc)
        v = self.ev(e, fr)
        if isinstance(v, Obj):
            if v.loc != loc: self.copy_obj(v.loc, loc)
            return Obj(loc, v.cls)
        if b in INTS or b in FLTS or b == 'bool': v = self.coerce(v, b, e)
        return v
    def s_break(self, n, st, fr): return [Out('brk', st)]
    def s_cont(self, n, st, fr): return [Out('cnt', st)]
    def s_throw(self, n, st, fr):
        def f():
            self.ev(n, fr)
        self.run(st, f)
        return []
    def note_branch(self, f):
        if f.op not in ('T', 'F') and f.deps: self.branch_deps.append(f)
    def s_if(self, n, st, fr):
        outs = []
        pre = [st]
        if n.get('init'):
            pre = [o.st for o in self.exec(n['init'], st, fr) if o.k == 'n']
        for p in pre:
            def f():
                if n.get('cv'): self.declare(n['cv'], fr)
                return self.truth(self.ev(n['c'], fr), n)
            for s, c in self.run(p, f):
                c = self.simp_f(c, s.facts)
                d = s.facts.decide(c)
                A = B = []
                if d is not False:
                    a = s.copy()
                    if d is None: a.facts = a.facts.add(c)
                    A = self.exec(n['a'], a, fr)
                if d is not True:
                    b = s.copy()
                    if d is None: b.facts = b.facts.add(fnot(c))
                    B = self.exec(n['b'], b, fr) if n.get('b') else [Out('n', b)]
                if d is None: self.note_branch(c)
                an = [o for o in A if o.k == 'n']; bn = [o for o in B if o.k == 'n']
                rest = [o for o in A if o.k != 'n'] + [o for o in B if o.k != 'n']
                if len(an) == 1 and len(bn) == 1:
                    m = self.merge2(c, an[0], bn[0], s)
                    outs += [m] if m else [an[0], bn[0]]
                else: outs += an + bn
                outs += rest
        return outs
    def simp_f(self, f, fx):
        if f.op in ('and', 'or'):
            g = fand if f.op == 'and' else for_
            out = []
            for x in f.a:
                x = self.simp_f(x, fx)
                d = fx.decide(x)
                out.append(x if d is None else TRUE if d else FALSE)
            return g(*out)
        return f
    def s_switch(self, n, st, fr):
        outs = []
        for s, v in self.run(st, lambda: self.num(self.ev(n['c'], fr), n)):
            items = n['body']['s'] if n['body']['k'] == 'blk' else [n['body']]
            flat = []      # (labels, stmt)
            def unlabel(x, labels):
                while x and x['k'] in ('case', 'default'):
                    labels.append(None if x['k'] == 'default' else x['v']); x = x.get('s')
                return x
            for it in items:
                lb = []
                x = unlabel(it, lb)
                flat.append((lb, x))
            conds = []; allc = []
            for lb, x in flat:
                for l in lb:
                    if l is not None:
                        cv = l if isinstance(l, dict) else {'k': 'int', 'v': l}
                        allc.append(eq(v, self.num(self.ev(cv, fr))))
            cur = s
            parts = []
            for i, (lb, x) in enumerate(flat):
                if not lb: continue
                fs = []
                for l in lb:
                    if l is None: fs.append(fand(*[fnot(c) for c in allc]))
                    else:
                        cv = l if isinstance(l, dict) else {'k': 'int', 'v': l}
                        fs.append(eq(v, self.num(self.ev(cv, fr))))
                parts.append((for_(*fs), i))
            if not any(None in lb for lb, x in flat): parts.append((fand(*[fnot(c) for c in allc]), len(flat)))
            res = []
            for f, i in parts:
                d = s.facts.decide(f)
                if d is False: continue
                a = s.copy()
                if d is None: a.facts = a.facts.add(f); self.note_branch(f)
                for o in self.seq([x for lb, x in flat[i:] if x], a, fr):
                    if o.k == 'brk': o = Out('n', o.st)
                    res.append(o)
                if d is True: break
            ns = self.dedupe([o.st for o in res if o.k == 'n'])
            outs += [Out('n', x) for x in ns] + [o for o in res if o.k != 'n']
        return outs
    def s_try(self, n, st, fr):
        """what is thrown inside goes to the first handler that takes its type"""
        n0 = len(self.events)
        d0 = len(self.stack)
        outs = self.exec(n['b'], st, fr)
        inside = self.events[n0:]
        for ev in inside:
            if ev.kind != 'throw': continue
            h = None
            for x in n['h']:
                t = base_type(x['t']) if 't' in x else None
                m = catches(t, base_type(str(ev.data or '')), self.prog)
                if m is None: self.unmodelled(n, 'handler for %s of %s' % (t, ev.data))
                if m: h = x; break
            if h is None: continue
            if ev.st is None: self.unmodelled(n, 'state at a throw')
            self.events.remove(ev)
            n1 = len(self.events)
            s = ev.st.copy()
            if 'id' in h: s.mem[self.vloc(fr, h['id'])] = Opaque('exception', EMPTY)
            outs = outs + self.exec(h['b'], s, fr)
            for e2 in self.events[n1:]:
                if e2.kind == 'throw' and e2.msg == 'rethrow': e2.data = ev.data; e2.msg = ev.msg
        ns = self.dedupe([o.st for o in outs if o.k == 'n'])
        return [Out('n', x) for x in ns] + [o for o in outs if o.k != 'n']
    def s_rfor(self, n, st, fr):
        def f():
            r = n['range']
            return self.lv(r, fr)
        outs = []
        for s, r in self.run(st, f):
            if isinstance(r, SLoc): r = s.mem.get(r.loc)
            if isinstance(r, Obj) and isinstance(s.mem.get(r.loc), VecObj): r = s.mem[r.loc]
            items = self.iter_items(r, s, n)
            cur = [s]
            for i, it in enumerate(items):
                nxt = []
                for c in cur:
                    def g(it=it):
                        v = n['var']
                        if is_ref(v['t']): self.st.mem[self.vloc(fr, v['id'])] = Ref(it) if isinstance(it, (SLoc, ElRef, Obj, View)) else it
                        else: self.st.mem[self.vloc(fr, v['id'])] = self.coerce(self.rval(it, n), v['t'], n)
                    old = self.iters
                    self.iters = old + (i,)
                    for c2, _ in self.run(c, g):
                        for o in self.exec(n['body'], c2, fr):
                            if o.k in ('n', 'cnt'): nxt.append(o.st)
                            elif o.k == 'brk': outs.append(Out('n', o.st))
                            else: outs.append(o)
                    self.iters = old
                cur = self.dedupe(nxt)
            outs += [Out('n', c) for c in cur]
        return outs
    def iter_items(self, r, s, n):
        if isinstance(r, View):
            v = s.mem.get(r.loc)
            if isinstance(v, FArr): return [ElRef(r.loc, poly(i)) for i in range(len(v.v))]
        if isinstance(r, Tuple) and r.kind == 'ilist': return list(r.v)
        self.unmodelled(n, 'range-for over %r' % (r,))

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        """gated value, or None."""
        if a == b: return a
        if isinstance(a, F) and isinstance(b, F): return for_(fand(c, a), fand(fnot(c), b))
        if isinstance(a, (Poly, F)) and isinstance(b, (Poly, F)): return smart_ite(c, self.num(a), self.num(b))
        if isinstance(a, FArr) and isinstance(b, FArr) and len(a.v) == len(b.v):
            vs = []
            for x, y in zip(a.v, b.v):
                if isinstance(x, Undef) or isinstance(y, Undef):
                    if x != y: return None
                    vs.append(x)
                else: vs.append(smart_ite(c, x, y))
            return FArr(vs, a.vec)
        if isinstance(a, Arr) and isinstance(b, Arr): return self.merge_arr(c, a, b)
        if isinstance(a, Text) or isinstance(b, Text):
            al = lambda v: v.alts if isinstance(v, Text) else (None,) if isinstance(v, Opaque) and v.name == 'chars' else None
            if al(a) is not None and al(b) is not None: return Text(al(a) + tuple(x for x in al(b) if x not in al(a)), a.deps | b.deps)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return Opaque('merge(%s,%s)' % (a.name, b.name), a.deps | b.deps)
        if isinstance(a, Mat) and isinstance(b, Mat): return self.ite_mat(c, a, b)
        if isinstance(a, (Opaque, Str)) and isinstance(b, (Opaque, Str)): return Opaque('merge')
        if isinstance(a, EV) and isinstance(b, EV) and a.mode == b.mode and a.diag == b.diag:
            m = self.merge_val(c, a.m, b.m)
            return None if m is None else EV(m, a.leaves + b.leaves, a.mode, a.arr, a.diag)
        if isinstance(a, Half) or isinstance(b, Half):
            if isinstance(a, (Half, Mat)) and isinstance(b, (Half, Mat)):
                return half(self.ite_mat(c, lo_of(a), lo_of(b)), self.ite_mat(c, up_of(a), up_of(b)))
        return None
    def ite_mat(self, c, a, b):
        if a == b: return a
        i = ind(c)
        if a.cols == ONE:
            # gate entrywise so that elementwise content keeps one normal form
            return b.add(a.add(b, poly(-1)).scale(i))
        return b.add(a.add(b, poly(-1)).scale(i))
    def merge_arr(self, c, a, b):
        if a.rows != b.rows or a.cols != b.cols: return None
        if a.lin != b.lin: return None
        k = 0
        while k < len(a.log) and k < len(b.log) and a.log[k] == b.log[k]: k += 1
        if a.base == b.base:
            if k == len(a.log) and k == len(b.log): return a
            r = Arr(a.rows, a.cols, a.base, a.log[:k], a.lin)
            wins = []
            for w in a.log[k:] + b.log[k:]:
                if isinstance(w.val, Barrier): return None
                kk = (w.off, w.n, w.c0, w.nc)
                if kk not in wins: wins.append(kk)
            try:
                for off, n_, c0, nc in wins:
                    va = self.arr_read(a, off, n_, c0, nc); vb = self.arr_read(b, off, n_, c0, nc)
                    r = self.arr_write(r, off, n_, self.merge_val(c, va, vb), c0, nc)
                return r
            except Unmodelled:
                return None
        try:
            va = self.arr_all(a); vb = self.arr_all(b)
        except Unmodelled:
            return None
        v = self.merge_val(c, va, vb)
        return None if v is None else Arr(a.rows, a.cols, v, (), a.lin)
    def merge2(self, c, A, B, pre=None):
        """A holds under c, B under not c; -> Out or None"""
        ma, mb = A.st.mem, B.st.mem
        mem = {}
        saved = self.st
        self.st = State(ma, A.st.facts.common(B.st.facts))
        try:
            for l, v in ma.items():
                w = mb.get(l)
                if w is None: continue
                if v is w: mem[l] = v; continue
                r = self.merge_val(c, v, w)
                if r is None:
                    if l[0] in ('T',): continue
                    return None
                mem[l] = r
            v = None
            if A.k == 'ret':
                if A.v is None and B.v is None: v = None
                elif A.v is None or B.v is None: return None
                else:
                    v = self.merge_val(c, A.v, B.v)
                    if v is None: return None
            return Out(A.k, State(mem, self.st.facts), v)
        finally:
            self.st = saved
    def merge_outs(self, outs, base):
        """merge outcomes that are separated by branch literals."""
        if len(outs) <= 1: return outs
        extra = [[f for f in o.st.facts.fs if f not in base.set] for o in outs]
        cands = []
        for e in extra:
            for f in e:
                if f not in cands: cands.append(f)
        sets = [set(e) for e in extra]
        for f in cands:
            g = fnot(f)
            pos = [i for i, s in enumerate(sets) if f in s]
            neg = [i for i, s in enumerate(sets) if g in s]
            if pos and neg and len(pos) + len(neg) == len(outs):
                P = self.merge_outs([outs[i] for i in pos], base.add(f))
                N = self.merge_outs([outs[i] for i in neg], base.add(g))
                if len(P) == 1 and len(N) == 1:
                    m = self.merge2(f, P[0], N[0])
                    if m: return [m]
                return P + N
        return outs

    # ------------------------------------------------------------ loops
    def s_for(self, n, st, fr):
        outs = []
        pre = [st]
        if n.get('init'):
            pre = []
            for o in self.exec(n['init'], st, fr):
                if o.k == 'n': pre.append(o.st)
                else: outs.append(o)
        for p in pre: outs += self.loop(n, p, fr, n.get('c'), n.get('inc'), n['body'], False)
        return outs
    def s_while(self, n, st, fr): return self.loop(n, st, fr, n['c'], None, n['body'], False)
    def s_do(self, n, st, fr): return self.loop(n, st, fr, n['c'], None, n['body'], True)
    def loop_cond(self, c, st, fr):
        if c is None: return [(st.copy(), TRUE)]
        r = []
        for s, f in self.run(st, lambda: self.truth(self.ev(c, fr), c)):
            r.append((s, self.simp_f(f, s.facts)))
        return r
    def loop(self, n, st, fr, cond, inc, body, post):
        r = self.unroll(n, st, fr, cond, inc, body, post)
        if r is not None: return r
        if post and left_inside(body, cond): return self.fixpoint(n, st, fr, cond, inc, body, True)
        if post:
            # do body while(c)  ==  body; while(c) body
            outs = []
            for o in self.exec(body, st, fr):
                if o.k in ('n', 'cnt'): outs += self.loop(n, o.st, fr, cond, inc, body, False)
                elif o.k == 'brk': outs.append(Out('n', o.st))
                else: outs.append(o)
            return outs
        return self.fixpoint(n, st, fr, cond, inc, body)
    def unroll(self, n, st, fr, cond, inc, body, post):
        snap = self.records()
        outs = []
        cur = [st]; trip = 0
        old = self.iters
        first = post
        try:
            while cur:
                if trip > MAXTRIPS: raise ForkOn(None)
                nxt = []
                self.iters = old + (trip,)
                for s in cur:
                    brk = norm = False; undecided_free = True
                    if first: cs = [(s, TRUE)]
                    else: cs = self.loop_cond(cond, s, fr)
                    for s2, f in cs:
                        d = f.op == 'T' if f.op in 'TF' else s2.facts.decide(f)
                        if d is None or (d and f.op != 'T'): raise ForkOn(f)
                        if d is False: outs.append(Out('n', s2)); continue
                        for o in self.exec(body, s2, fr):
                            if o.k in ('n', 'cnt'):
                                norm = True
                                if inc is not None:
                                    for s3, _ in self.run(o.st, lambda: self.ev(inc, fr)): nxt.append(s3)
                                else: nxt.append(o.st)
                            elif o.k == 'brk': brk = True; outs.append(Out('n', o.st))
                            else: brk = True; outs.append(o)
                    if brk and norm and (cond is None or cond.get('k') in ('bool', 'int') or len(cs) == 0): raise ForkOn(None)
                first = False
                cur = self.dedupe(nxt)
                if len(cur) > 12: raise ForkOn(None)
                trip += 1
            return self.merge_loop_exits(outs, st)
        except ForkOn:
            self.forget(snap)
            return None
        finally:
            self.iters = old
    def records(self):
        """how much has been recorded about the program so far"""
        ls = [self.events, self.branch_deps, self.loops, self.factors]
        if self.contracts is not None: ls += [getattr(self.contracts, k) for k in ('inits', 'steps') if hasattr(self.contracts, k)]
        return [(l, len(l)) for l in ls], {k: len(d['inst']) for k, d in self.phi.items()}
    def forget(self, snap):
        """drop what was recorded by an attempt that is given up"""
        for l, k in snap[0]: del l[k:]
        for k in list(self.phi):
            if k not in snap[1]: del self.phi[k]; continue
            d = self.phi[k]
            if len(d['inst']) > snap[1][k]:
                del d['inst'][snap[1][k]:]
                if d['inst']: d.update(d['inst'][-1])
    def merge_loop_exits(self, outs, st):
        ns = self.dedupe([o.st for o in outs if o.k == 'n'])
        if len(ns) > 1:
            m = self.merge_outs([Out('n', s) for s in ns], st.facts)
            ns = [o.st for o in m]
        return [Out('n', s) for s in ns] + [o for o in outs if o.k != 'n']

    def phi_val(self, key, loc, v, ty=None):
        nm = '%s@%s' % (self.loc_name(loc), key)
        dep = frozenset([('phi', nm)])
        if isinstance(v, F): return fatom(atom('phib', nm, deps=dep, name=nm))
        if isinstance(v, Poly): return poly(atom('phi', nm, deps=dep, isint=ty == 'int', name=nm))
        if isinstance(v, FArr):
            return FArr([poly(atom('phi', nm, i, deps=frozenset([('phi', nm)]), name='%s[%d]' % (nm, i))) for i in range(len(v.v))], v.vec)
        if isinstance(v, Arr):
            if v.lin: return Arr(v.rows, v.cols, mat_of(sym('phi', nm, rows=v.rows * v.cols, cols=ONE, deps=dep, name=nm)), (), True)
            return Arr(v.rows, v.cols, Half(mat_of(sym('phil', nm, rows=v.rows, cols=v.cols, deps=dep, name=nm + '.lo')), mat_of(sym('phiu', nm, rows=v.rows, cols=v.cols, deps=dep, name=nm + '.up'))))
        if isinstance(v, (Opaque, Str)): return Opaque('phi:' + nm, dep)
        if isinstance(v, Undef): return v
        return None
    def loc_name(self, loc):
        return '.'.join(str(x) if not isinstance(x, tuple) else '[%s]' % (x[1],) if len(x) == 2 and x[0] == '#' else ','.join(map(str, x)) for x in loc)
    def phi_names(self, v):
        out = set()
        if isinstance(v, F): out.add(v.a[0])
        elif isinstance(v, Poly): out.update(v.atoms())
        return out

    def fixpoint(self, n, entry, fr, cond, inc, body, post=False):
        lk = self.fkey('loop', fr.key, id(n), self.iters)
        M, failed, warm = self.mcache.setdefault(lk, ({}, set(), {}))
        # M: loc -> 'phi' | 'fam'
        elim = {}          # loc -> relation tuple, optimistic
        cands = None       # candidate range facts
        self.quiet += 1
        fams = {}
        if warm.get('ok') and all(l in entry.mem for l in M):
            elim = {l: r for l, r in warm['elim'].items() if (l, r) not in failed and self.elim_entry(l, r, entry)}
            phis0 = {l: p for l, p in warm['phis'].items() if l in M}
            if warm['facts'] == entry.facts.set and warm['M'] == M: cs = warm['cands']
            else: cs = self.range_candidates(phis0, entry, warm['condf'], elim, warm['cands'])
            cands = self.entry_true(cs, phis0, entry)
            fams = {l: f for l, f in warm['fams'].items() if M.get(l) == 'fam'}
        try:
            for rnd in range(60):
                head, phis, hfacts = self.loop_head(lk, M, elim, cands or [], entry, fams)
                backs, exits, condf = self.flag_exits(warm, entry, head, fr, cond, inc, body, post)
                # new modified locations
                new = []
                for b in backs:
                    for loc, v in b.mem.items():
                        if loc not in entry.mem or loc in M: continue
                        if v is not head.mem.get(loc) and v != head.mem.get(loc): new.append((loc, v))
                if new:
                    conv = [loc for loc, v in new if isinstance(v, Arr) and v.lin and isinstance(entry.mem[loc], Arr) and not entry.mem[loc].lin]
                    if conv:
                        entry = entry.copy()
                        saved, self.st = self.st, entry
                        try:
                            for loc in conv: self.to_lin(loc)
                        finally: self.st = saved
                        continue
                    for loc, v in new:
                        if loc in M: continue
                        hv = head.mem[loc]
                        if isinstance(hv, Arr) and isinstance(v, Arr) and self.fam_like(hv, v): M[loc] = 'fam'
                        else: M[loc] = 'phi'
                    fams = {}; cands = None
                    continue
                # families
                ind_vars = self.induction(phis, backs)
                again = False
                for loc, kind in list(M.items()):
                    if kind != 'fam' or loc not in entry.mem: continue
                    fo = self.fam_offsets(entry.mem[loc], head.mem[loc], [b.mem.get(loc) for b in backs], ind_vars)
                    if fo is None:
                        M[loc] = 'phi'; fams.pop(loc, None); again = True
                    elif fams.get(loc) != fo:
                        fams[loc] = fo; again = True
                if again: continue
                # equalities between loop-head values
                if self.find_elims(lk, M, elim, failed, entry, phis, ind_vars, condf): continue
                bad = self.check_elims(elim, M, head, backs, phis, entry)
                if bad:
                    for l in bad: failed.add((l, elim[l])); del elim[l]
                    continue
                # inductive range facts
                if cands is None:
                    cands = self.range_candidates(phis, entry, condf, elim)
                    if cands: continue
                drop = []
                for c in cands:
                    for b in backs:
                        g = self.phi_subst(phis, M, b).f(c)
                        if b.facts.decide(g) is not True: drop.append(c); break
                if drop:
                    cands = [c for c in cands if c not in drop]
                    continue
                break
            else:
                self.unmodelled(n, 'loop analysis did not stabilise')
        finally:
            self.quiet -= 1
        warm.update(ok=True, elim=dict(elim), phis=dict(phis), facts=entry.facts.set, M=dict(M), cands=list(cands), condf=list(condf), fams=dict(fams))
        if self.quiet == 0:
            # final pass, with reports
            head, phis, hfacts = self.loop_head(lk, M, elim, cands, entry, fams)
            backs, exits, condf = self.flag_exits(warm, entry, head, fr, cond, inc, body, post)
        for loc, pv in phis.items():
            nm = '%s@%s' % (self.loc_name(loc), lk)
            if self.quiet == 0:
                d = self.phi.setdefault(nm, dict(loc=loc, val=pv, line=n.get('l'), fn=fr.fn['n'], file=fr.fn.get('file', ''), lk=lk, inst=[]))
                i = dict(head=head.mem.get(loc), entry=entry.mem.get(loc), backs=[b.mem.get(loc) for b in backs], bstates=backs, entry_state=entry, exits=exits)
                d['inst'].append(i); d.update(i)
        if self.quiet == 0: self.loops.append(dict(lk=lk, line=n.get('l'), fn=fr.fn['n'], file=fr.fn.get('file', ''), head=head, entry=entry, backs=backs, exits=exits, condf=condf, phis=dict(phis), M=dict(M), elim=dict(elim)))
        for f in condf: self.note_branch(f)
        ind_vars = self.induction(phis, backs)
        outs = []
        for o in exits:
            if o.k == 'exit':
                outs.append(Out('n', self.loop_final(o.st, head, entry, M, phis, fams, ind_vars, condf, backs, n)))
            else:
                if fams and o.k in ('n', 'ret'):
                    for loc in fams:
                        if o.st.mem.get(loc) is not None: o.st.mem[loc] = self.havoc_arr(lk, loc, o.st.mem[loc])
                outs.append(o)
        return outs
    def havoc_arr(self, lk, loc, v):
        nm = '%s@brk%s' % (self.loc_name(loc), lk)
        return Arr(v.rows, v.cols, mat_of(sym('hav', nm, rows=v.rows * v.cols if v.lin else v.rows, cols=ONE if v.lin else v.cols, deps=v.deps if not any(isinstance(w.val, Barrier) for w in v.log) else EMPTY)), (), v.lin)
    def loop_head(self, lk, M, elim, cands, entry, fams):
        head = entry.copy()
        phis = {}
        for loc, kind in M.items():
            v = entry.mem.get(loc)
            if v is None: continue
            if kind == 'fam':
                f = fams.get(loc)
                if f:
                    k, c, n_ = f
                    head.mem[loc] = Arr(v.rows, v.cols, v.base, v.log + (W(c, n_, Barrier(k, c)),), v.lin)
                continue
            ty = 'int' if isinstance(v, Poly) and self.int_loc(loc, v) else None
            p = self.phi_val(lk, loc, v, ty)
            if p is None: self.unmodelled(None, 'loop changes %s (%r)' % (self.loc_name(loc), v))
            phis[loc] = p
            head.mem[loc] = p
        # eliminated values
        S = {}
        for loc, r in elim.items():
            if loc not in phis: continue
            head.mem[loc] = self.elim_value(loc, r, head, phis, entry)
        for c in cands: head.facts = head.facts.add(c)
        return head, phis, None
    def int_loc(self, loc, v):
        return v.isint() and loc in self.int_locs
    def flag_exits(self, warm, entry, head, fr, cond, inc, body, post):
        """one pass through a loop; a local flag that holds a constant when the loop is
        entered, and with whose other value the loop ends at once, is an exit of its own"""
        backs, exits, condf = self.loop_body(head, fr, cond, inc, body, post)
        no = warm.setdefault('noflag', set())
        for loc in sorted({l for b in backs for l, v in b.mem.items() if isinstance(v, F) and l[0] == 'L' and len(l) < 4 and l not in no
                           and isinstance(entry.mem.get(l), F) and entry.mem[l].op in 'TF' and head.mem.get(l) == entry.mem[l] and v != entry.mem[l]}, key=str):
            c = entry.mem[loc]; stay = []; left = []
            for b in backs:
                v = b.mem.get(loc)
                if v == c: stay.append(b); continue
                if v.op not in 'TF': self.note_branch(v)
                for t in self.specialised(b, loc, v, head):
                    w = t.mem[loc]
                    (stay if w == c else left).append(t)
            more = []; good = bool(stay)
            for t in left:
                bs, es, _ = self.loop_body(t, fr, cond, inc, body, post)
                if bs: good = False; break
                more += [Out('n', o.st) if o.k == 'exit' else o for o in es]
            if not good: no.add(loc); continue
            backs = self.dedupe(stay); exits = exits + more
        return backs, exits, condf
    def specialised(self, b, loc, f, head):
        """the state b split by the literals of f, with all values under each combination"""
        ls = literals(f)
        if f.op in 'TF': return [b]
        out = []
        if len(ls) > 4:
            for g, w in ((f, TRUE), (fnot(f), FALSE)):
                t = State(dict(b.mem), b.facts.add(g)); t.mem[loc] = w; out.append(t)
            return out
        for m in range(1 << len(ls)):
            fs = [l if m >> i & 1 else fnot(l) for i, l in enumerate(ls)]
            v = feval(f, {l: bool(m >> i & 1) for i, l in enumerate(ls)})
            t = State(dict(b.mem), b.facts.add(f if v else fnot(f)))
            for g in fs:
                d = t.facts.decide(g)
                if d is False: t = None; break
                if d is None: t.facts = t.facts.add(g)
            if t is None: continue
            sub = Subst(None, None, {**{g: TRUE for g in fs}, **{fnot(g): FALSE for g in fs}})
            for l, x in b.mem.items():
                if x is head.mem.get(l) or x == head.mem.get(l): continue
                y = sub.any(x)
                if y is not x and y != x: t.mem[l] = y
            out.append(t)
        return out
    def loop_body(self, head, fr, cond, inc, body, post=False):
        exits = []; backs = []; condf = []
        if post:
            # the condition is looked at after the body
            for o in self.exec(body, head.copy(), fr):
                if o.k == 'brk': exits.append(Out('n', o.st)); continue
                if o.k not in ('n', 'cnt'): exits.append(o); continue
                for s, f in self.loop_cond(cond, o.st, fr):
                    self.note_branch(f)
                    d = s.facts.decide(f)
                    if d is not True:
                        e = s.copy()
                        if d is None: e.facts = e.facts.add(fnot(f))
                        exits.append(Out('n', e))
                    if d is False: continue
                    s = s.copy()
                    if d is None: s.facts = s.facts.add(f)
                    backs.append(s)
            return self.dedupe(backs), exits, condf
        for s, f in self.loop_cond(cond, head, fr):
            condf.append(f)
            d = s.facts.decide(f)
            if d is not True:
                e = s.copy()
                if d is None: e.facts = e.facts.add(fnot(f))
                exits.append(Out('exit', e))
            if d is False: continue
            s = s.copy()
            if d is None: s.facts = s.facts.add(f)
            for o in self.exec(body, s, fr):
                if o.k in ('n', 'cnt'):
                    if inc is not None:
                        for s3, _ in self.run(o.st, lambda: self.ev(inc, fr)): backs.append(s3)
                    else: backs.append(o.st)
                elif o.k == 'brk': exits.append(Out('n', o.st))
                else: exits.append(o)
        return self.dedupe(backs), exits, condf
    def fam_like(self, h, v):
        k = len(h.log)
        return v.base == h.base and v.log[:k] == h.log and len(v.log) > k and v.lin and all(w.n == ONE and w.c0 is None for w in v.log[k:])
    def induction(self, phis, backs):
        """loc -> step for integers that change by a constant per iteration."""
        r = {}
        for loc, p in phis.items():
            if not isinstance(p, Poly) or not p.isint(): continue
            steps = set()
            for b in backs:
                v = b.mem.get(loc)
                if not isinstance(v, Poly): steps.add(None); continue
                steps.add((v - p).const())
            if len(steps) == 1 and None not in steps:
                c = steps.pop()
                if c: r[loc] = (p.atoms()[0], c)
        return r
    def fam_offsets(self, ent, h, vs, ind_vars):
        """-> (index atom, offset at index 0, range length placeholder)"""
        k0 = len([w for w in ent.log])
        offs = set()
        for v in vs:
            if v is None: return None
            log = [w for w in v.log if not isinstance(w.val, Barrier)]
            if v.base != ent.base or tuple(log[:k0]) != ent.log: return None
            for w in log[k0:]:
                if w.n != ONE or w.c0 is not None: return None
                offs.add(w.off)
        if len(offs) != 1: return None
        off = offs.pop()
        for loc, (a, step) in ind_vars.items():
            if abs(step) != 1: continue
            l = lin_in(off, a)
            if l and l[0] == ONE:
                return (a, l[1], ent.rows * ent.cols)
        return None
    def phi_subst(self, phis, M, b):
        A = {}; L = {}; T = {}
        for loc, p in phis.items():
            v = b.mem.get(loc)
            if v is None: continue
            if isinstance(p, Poly) and isinstance(v, (Poly, F)): A[p.atoms()[0].id] = self.num(v)
            elif isinstance(p, F) and isinstance(v, (F, Poly)): T[p] = self.truth(v)
            elif isinstance(p, FArr) and isinstance(v, FArr):
                for x, y in zip(p.v, v.v):
                    if isinstance(x, Poly) and isinstance(y, Poly): A[x.atoms()[0].id] = y
            elif isinstance(p, Arr) and isinstance(v, Arr) and p.lin:
                try: L[next(iter(p.base.t))[0].id] = self.arr_all(v)
                except Unmodelled: pass
        return Subst(A, L, T)
    # ---- optimistic equalities
    def find_elims(self, lk, M, elim, failed, entry, phis, ind_vars, condf):
        added = False
        saved = self.st
        self.st = entry
        try:
            # secondary induction variables
            prim = None
            for loc, (a, s) in ind_vars.items():
                if loc in elim: continue
                if any(mentions(f, a) for f in condf): prim = (loc, a, s); break
            if prim is None:
                for loc, (a, s) in ind_vars.items():
                    if loc not in elim: prim = (loc, a, s); break
            if prim:
                for loc, (a, s) in ind_vars.items():
                    if loc == prim[0] or loc in elim: continue
                    r = ('ind', prim[0], qd(s, prim[2]))
                    if (loc, r) in failed: continue
                    elim[loc] = r; added = True
            vecs = None
            for loc, p in phis.items():
                if loc in elim: continue
                if isinstance(p, Arr) and p.lin and self.margin is not None:
                    A, b, nz, nv = self.margin
                    if p.rows * p.cols == nv and p.cols == ONE:
                        ent = entry.mem[loc]
                        ye = None
                        # nearest allocation first: usually the same object
                        zs = [(zl, zv) for zl, zv in entry.mem.items() if zl != loc and isinstance(zv, Arr) and zv.rows == nz and zv.cols == ONE and zl[0] == loc[0] and (zl[0] == 'H' or zl[:-1] == loc[:-1])]
                        zs.sort(key=lambda x: abs(x[0][1] - loc[1]) if x[0][0] == 'H' else 0)
                        for zl, zv in zs[:6]:
                            r = ('margin', zl)
                            if (loc, r) in failed: continue
                            if ye is None: ye = self.arr_all(ent)
                            if mat_zero_test(ye.add(b, poly(-1)).add(A.mul(self.arr_all(zv)))) is True:
                                elim[loc] = r; added = True; break
                elif isinstance(p, Poly) and not p.isint():
                    ev = entry.mem[loc]
                    for vl, vp in phis.items():
                        if not isinstance(vp, Arr) or not vp.lin or vl[:-1] != loc[:-1]: continue
                        r = ('norm', vl)
                        if (loc, r) in failed: continue
                        if self.norm2(self.arr_all(entry.mem[vl])) == ev:
                            elim[loc] = r; added = True; break
        finally:
            self.st = saved
        return added
    def elim_entry(self, loc, r, entry):
        """does the relation hold when the loop is entered?"""
        if r[0] == 'ind': return r[1] in entry.mem
        saved = self.st; self.st = entry
        try:
            if r[0] == 'norm':
                return isinstance(entry.mem.get(r[1]), Arr) and self.norm2(self.arr_all(entry.mem[r[1]])) == entry.mem.get(loc)
            A, b, nz, nv = self.margin
            z, y = entry.mem.get(r[1]), entry.mem.get(loc)
            return isinstance(z, Arr) and isinstance(y, Arr) and mat_zero_test(self.arr_all(y).add(b, poly(-1)).add(A.mul(self.arr_all(z)))) is True
        except Unmodelled: return False
        finally: self.st = saved
    def elim_value(self, loc, r, head, phis, entry):
        if r[0] == 'ind': return entry.mem[loc] + (phis[r[1]] - entry.mem[r[1]]) * r[2]
        if r[0] == 'margin':
            A, b, nz, nv = self.margin
            z = head.mem[r[1]]
            saved = self.st; self.st = head
            try: return Arr(nv, ONE, b.add(A.mul(self.arr_all(z)), poly(-1)), (), True)
            finally: self.st = saved
        if r[0] == 'norm':
            saved = self.st; self.st = head
            try: return self.norm2(self.arr_all(head.mem[r[1]]))
            finally: self.st = saved
    def check_elims(self, elim, M, head, backs, phis, entry):
        bad = []
        saved = self.st
        for loc, r in elim.items():
            for b in backs:
                self.st = b
                v = b.mem.get(loc)
                try:
                    if r[0] == 'ind':
                        p0 = b.mem.get(r[1])
                        ok = isinstance(v, Poly) and isinstance(p0, Poly) and v == entry.mem[loc] + (p0 - entry.mem[r[1]]) * r[2]
                    elif r[0] == 'margin':
                        A, bb, nz, nv = self.margin
                        z = b.mem.get(r[1])
                        ok = isinstance(v, Arr) and isinstance(z, Arr) and mat_zero_test(self.arr_all(v).add(bb, poly(-1)).add(A.mul(self.arr_all(z)))) is True
                    else:
                        ok = isinstance(b.mem.get(r[1]), Arr) and self.norm2(self.arr_all(b.mem[r[1]])) == v
                except Unmodelled: ok = False
                if not ok: bad.append(loc); break
        self.st = saved
        return bad
    # ---- range facts
    def cfg_ints(self):
        return self.cfg_int_list
    cfg_int_list = ()
    def entry_true(self, fs, phis, entry):
        S = Subst({p.atoms()[0].id: entry.mem[l] for l, p in phis.items() if isinstance(p, Poly) and isinstance(entry.mem[l], Poly)})
        return [f for f in fs if entry.facts.decide(S.f(f)) is True]
    def range_candidates(self, phis, entry, condf, elim, more=()):
        out = []
        S = Subst({p.atoms()[0].id: entry.mem[l] for l, p in phis.items() if isinstance(p, Poly) and isinstance(entry.mem[l], Poly)})
        def cand(f):
            if f.op in ('T', 'F') or f in out: return
            if entry.facts.decide(S.f(f)) is True: out.append(f)
        for f in more: cand(f)
        ints = [(l, p) for l, p in phis.items() if isinstance(p, Poly) and p.isint() and l not in elim]
        for l, p in ints:
            e = entry.mem[l]
            cand(le(e, p)); cand(le(p, e)); cand(le(ZERO, p))
            for f in condf:
                for lit in literals(f):
                    if lit.op in ('le', 'lt') and mentions(lit, p.atoms()[0]):
                        cand(cmp_('le', lit.a[0] - 1))
                        cand(cmp_('le', lit.a[0]))
                    if lit.op == 'eq' and mentions(lit, p.atoms()[0]):
                        cand(cmp_('le', lit.a[0])); cand(cmp_('le', -lit.a[0]))
            for c in self.cfg_int_list: cand(le(p, c))
        return out
    # ---- loop exit through the condition
    def loop_final(self, st, head, entry, M, phis, fams, ind_vars, condf, backs, n):
        if len(condf) != 1: 
            if fams: self.unmodelled(n, 'indexed writes under a loop condition with several cases')
            return st
        rng = self.loop_range(condf[0], ind_vars, entry, phis)
        if rng is None:
            if fams: self.unmodelled(n, 'indexed writes in a loop whose range is not understood')
            return st
        loc0, k, lo, hi, step = rng
        st = st.copy()
        saved = self.st; self.st = st
        try:
            cnt = hi - lo + 1
            # families
            for loc, (a, c, _) in fams.items():
                ent = entry.mem[loc]
                b0 = backs[0]
                vals = []
                for b in backs:
                    v = b.mem[loc]
                    w = [w for w in v.log if w.off == poly(a) + c and w.n == ONE and not isinstance(w.val, Barrier)][-1]
                    vals.append((b, scalar_of(w.val)))
                if len({v for _, v in vals}) != 1: self.unmodelled(n, 'indexed write differs between cases')
                val = vals[0][1]
                if self.varies(val, entry, phis): self.unmodelled(n, 'indexed write of a value that is new in each iteration')
                for l2, p2 in phis.items():
                    if l2 == loc0: continue
                    at = p2.atoms()[0] if isinstance(p2, Poly) else p2.a[0] if isinstance(p2, F) else None
                    if at is not None and mentions(val, at): self.unmodelled(n, 'indexed write depends on a value carried around the loop')
                    if isinstance(p2, Arr) and p2.lin and self.mat_mentions_letter(val, next(iter(p2.base.t))[0]): self.unmodelled(n, 'indexed write depends on an array carried around the loop')
                # index a (possibly another induction variable) in terms of @
                if a is k: at0 = lo
                else:
                    la = [l for l, (x, s) in ind_vars.items() if x is a][0]
                    sa = ind_vars[la][1]
                    at0 = entry.mem[la] if sa == 1 else entry.mem[la] - cnt + 1
                sub = {a.id: PIDX + at0}
                if a is not k:
                    la = [l for l, (x, s) in ind_vars.items() if x is a][0]
                    if ind_vars[la][1] == 1: kk = PIDX if step == 1 else cnt - 1 - PIDX
                    else: kk = cnt - 1 - PIDX if step == 1 else PIDX
                    sub[k.id] = lo + kk
                v = Subst(sub).poly(val)
                # entries joined over the cases of the body keep one name, as an
                # entry assigned after the join does
                if any(x.kind == 'ind' for x in v.atoms()): v = mk_def(v)
                vec = elemwise(v, cnt)
                st.mem[loc] = self.arr_write(ent, at0 + c, cnt, vec)
            # scalars
            for loc, p in phis.items():
                if loc == loc0:
                    st.mem[loc] = hi + 1 if step == 1 else lo - 1
                    continue
                if loc in ind_vars:
                    s = ind_vars[loc][1]
                    st.mem[loc] = entry.mem[loc] + cnt * s
                    continue
                if st.mem.get(loc) is not head.mem.get(loc): continue
                bs = [b.mem.get(loc) for b in backs]
                if any(x is None for x in bs) or any(x != bs[0] for x in bs): continue
                b = bs[0]
                if isinstance(p, Poly) and isinstance(b, Poly):
                    ent = entry.mem[loc]
                    at = p.atoms()[0]
                    d = b - p
                    others = [q.atoms()[0] for l2, q in phis.items() if isinstance(q, Poly) and l2 != loc0]
                    letters = [next(iter(q.base.t))[0] for q in phis.values() if isinstance(q, Arr) and q.lin]
                    if not any(mentions(d, o) for o in others) and not any(self.mat_mentions_letter(d, x) for x in letters):
                        if self.varies(d, entry, phis): continue
                        e = Subst({k.id: PIDX + lo}).poly(d)
                        st.mem[loc] = ent + sum_of(e, cnt)
                        continue
                    for f in [x.args[0] for x in b.atoms() if x.kind == 'ind' and mentions(x.args[0], at)]:
                        q = lt_args(f)
                        if q is None: continue
                        co = q.t.get(((at.id, 1),))
                        if not co: continue
                        rest = q - p * co
                        if mentions(rest, at): continue
                        e = rest * qd(-1, co)          # q = co*(p - e)
                        op = None
                        if b == ite(f, e, p): op = 'max' if co > 0 else 'min'
                        elif b == ite(f, p, e): op = 'min' if co > 0 else 'max'
                        if b == mk_max(p, e): op = 'max'
                        elif b == mk_min(p, e): op = 'min'
                        if op and not any(mentions(e, o) for o in others) and not self.varies(e, entry, phis):
                            e2 = Subst({k.id: PIDX + lo}).poly(e)
                            st.mem[loc] = extr(op, e2, IDX, ZERO, cnt - 1, ent)
                            break
        finally:
            self.st = saved
        return st
    def varies(self, x, entry, phis):
        """does x mention a value born inside the loop body (a nested loop's
        unknown, an opaque result), which is another one in each iteration?"""
        lv = volatile(x) 
        for p in phis.values(): lv = lv - volatile(p)
        if not lv: return False
        seen = set()
        for v in entry.mem.values():
            if isinstance(v, (Poly, F, Arr, Half, FArr, Mat)): seen |= volatile(v)
        for f in entry.facts.fs: seen |= volatile(f)
        return not lv <= seen
    def mat_mentions_letter(self, p, s):
        return s.id in self.letters_in(p)
    def letters_in(self, x, out=None, seen=None):
        out = set() if out is None else out
        seen = set() if seen is None else seen
        if isinstance(x, Poly):
            for a in x.atoms(): self.letters_in(a, out, seen)
        elif isinstance(x, Atom):
            if ('a', x.id) in seen: return out
            seen.add(('a', x.id))
            for y in x.args: self.letters_in(y, out, seen)
        elif isinstance(x, F):
            for y in x.a: self.letters_in(y, out, seen)
        elif isinstance(x, Sym):
            if x.id in out: return out
            out.add(x.id)
            for y in x.args: self.letters_in(y, out, seen)
        elif isinstance(x, Mat):
            for w, c in x.t.items():
                self.letters_in(c, out, seen)
                for s in w: self.letters_in(s, out, seen)
        elif isinstance(x, Half):
            self.letters_in(x.lo, out, seen); self.letters_in(x.up, out, seen)
        elif isinstance(x, tuple):
            for y in x: self.letters_in(y, out, seen)
        return out
    def loop_range(self, f, ind_vars, entry, phis):
        """-> (loc, index atom, lo, hi, step) of the loop"""
        if f.op == 'not': 
            g = f.a[0]
        else: g = None
        for loc, (a, s) in ind_vars.items():
            if abs(s) != 1: continue
            e = entry.mem[loc]
            if f.op == 'le':
                l = lin_in(f.a[0], a)
                if not l or l[0].const() is None: continue
                c = l[0].const()
                if c == 1 and s == 1: return (loc, a, e, -l[1], 1)
                if c == -1 and s == -1: return (loc, a, l[1], e, -1)
            elif g is not None and g.op == 'eq':
                l = lin_in(g.a[0], a)
                if not l or l[0].const() is None or abs(l[0].const()) != 1: continue
                end = l[1] * qd(-1, l[0].const())
                if s == 1: return (loc, a, e, end - 1, 1)
                return (loc, a, end + 1, e, -1)
        return None

    # ------------------------------------------------------------ declarations
    def declare(self, v, fr):
        loc = self.vloc(fr, v['id'])
        self.drop_obj(loc)
        t = v['t']; init = v.get('init')
        if v.get('static'):
            # one constant, or what the first call of the program computed
            if is_ref(t) or not v.get('const'): self.unmodelled(v, 'function-local static variable')
            if not v.get('constinit'):
                loc = ('S', v['id'])
                self.construct(loc, t, init, fr)
                if not isinstance(self.st.mem.get(loc), Poly): self.unmodelled(v, 'function-local static variable of type %s' % t)
                self.st.mem[loc] = poly(atom('static', v['id'], self.where(v), deps=frozenset([('static',)]), name='%s of the first call' % v.get('n')))
                return
        if is_ref(t):
            x = self.lv(init, fr) if init else None
            if isinstance(x, EV):
                if eig_mat(t): self.construct_eigen(loc, base_type(t), init, fr)
                else: self.st.mem[loc] = Lazy(self.strip(init), fr)
            elif isinstance(x, (SLoc, ElRef, View, Obj)): self.st.mem[loc] = Ref(x)
            else: self.st.mem[loc] = x
            return
        self.construct(loc, t, init, fr)
    def strip(self, n):
        while n['k'] == 'mat' or (n['k'] == 'new_obj' and n.get('elide')):
            n = n['e'] if n['k'] == 'mat' else n['a'][0]
        return n
    def note_int(self, loc, t):
        if base_type(t) in INTS: self.int_locs.add(loc)
    def construct(self, loc, t, init, fr):
        """initialise a variable/field of type t at loc."""
        b = base_type(t)
        m = re.match(r'^(.*?) ?\[(\d+)\]$', t.strip())
        if m:
            et, k = base_type(m.group(1)), int(m.group(2))
            if et == 'char': self.st.mem[loc] = Opaque('chars', EMPTY); self.st.mem[loc + ('#len',)] = poly(k)
            else:
                vals = [Undef(et)] * k
                if init and init['k'] in ('ilist', 'new_obj') and init.get('a') is not None:
                    for i, a in enumerate(init['a'][:k]): vals[i] = self.num(self.ev(a, fr), a)
                    if init['k'] == 'ilist': vals = [ZERO if isinstance(x, Undef) else x for x in vals]
                self.st.mem[loc] = FArr(vals)
            return
        if b in INTS or b in FLTS or b == 'bool':
            self.note_int(loc, b)
            if init is None: self.st.mem[loc] = Undef(b)
            elif init['k'] in ('zero',) or (init['k'] == 'ilist' and not init['a']): self.st.mem[loc] = FALSE if b == 'bool' else ZERO
            else: self.st.mem[loc] = self.coerce(self.ev(init if init['k'] != 'ilist' else init['a'][0], fr), b, init)
            return
        if b.endswith('*'):
            self.st.mem[loc] = Undef(b) if init is None else self.ev(init if init['k'] != 'ilist' else init['a'][0], fr)
            return
        if eig_mat(b): return self.construct_eigen(loc, b, init, fr)
        if b in self.prog.records and b not in self.enum_types(): return self.construct_record(loc, b, init, fr)
        if b.startswith('std::') or b.startswith('Eigen::'): return self.construct_lib(loc, b, init, fr)
        # enums and the like
        if init is None: self.st.mem[loc] = Undef('int'); return
        v = self.ev(init, fr)
        if isinstance(v, Obj): self.copy_obj(v.loc, loc)
        elif isinstance(v, EV) : self.st.mem[loc] = Lazy(self.strip(init), fr)
        else: self.st.mem[loc] = v
    def enum_types(self): return ()
    def construct_record(self, loc, cls, init, fr):
        n = init
        while n is not None and (n['k'] == 'mat' or (n['k'] == 'new_obj' and n.get('elide') and n.get('a'))):
            n = n['e'] if n['k'] == 'mat' else n['a'][0]
        if n is None:
            self.default_fields(loc, cls, fr); return
        if n['k'] == 'new_obj': return self.ctor(loc, cls, n, fr)
        if n['k'] in ('ilist', 'zero'):
            self.st.mem[loc] = Obj(loc, cls)
            fs = self.all_fields(cls)
            args = n.get('a', [])
            for i, f in enumerate(fs):
                if i < len(args): self.construct(loc + (f['n'],), f['t'], args[i], fr)
                else: self.construct_field_default(loc, f, fr, zero=True)
            return
        v = self.ev(n, fr)
        if isinstance(v, Obj): self.copy_obj(v.loc, loc); return
        if isinstance(v, SLoc) and isinstance(self.st.mem.get(v.loc), Obj): self.copy_obj(v.loc, loc); return
        self.unmodelled(n, 'initialisation of %s from %r' % (cls, v))
    def all_fields(self, cls):
        r = self.prog.records.get(cls)
        if r is None: return []
        out = []
        for b in r['b']:
            out += self.all_fields(base_type(b if isinstance(b, str) else b.get('t', b.get('n', ''))))
        return out + r['f']
    def construct_field_default(self, loc, f, fr, zero=False):
        fl = loc + (f['n'],)
        if f.get('init'): self.construct(fl, f['t'], f['init'], fr)
        elif zero and (base_type(f['t']) in INTS or base_type(f['t']) in FLTS): self.st.mem[fl] = ZERO
        else: self.construct(fl, f['t'], None, fr)
    def default_fields(self, loc, cls, fr):
        self.st.mem[loc] = Obj(loc, cls)
        for f in self.all_fields(cls): self.construct_field_default(loc, f, fr)
    def find_fn(self, c):
        f = self.prog.functions.get(c['key'])
        return f if f and f.get('body') is not None else None
    def ctor(self, loc, cls, n, fr, into_base=False):
        c = n['c']
        args = n.get('a', [])
        f = self.find_fn(c)
        cl = c.get('cls', cls)
        if f is None or c.get('defaulted') or (c.get('copy') and not f.get('body')):
            if c.get('copy') or c.get('move') or (len(args) == 1 and not c.get('dflt')):
                v = self.lv(args[0], fr)
                if isinstance(v, Obj): self.copy_obj(v.loc, loc); return
                self.unmodelled(n, 'copy of %r' % (v,))
            if c.get('dflt') or not args:
                self.default_fields(loc, cls, fr)
                if n.get('zero') or n.get('list'):
                    for fd in self.all_fields(cls):
                        l = loc + (fd['n'],)
                        if isinstance(self.st.mem.get(l), Undef): self.st.mem[l] = FALSE if base_type(fd['t']) == 'bool' else NULL if is_ptr(fd['t']) else ZERO
                return
            self.unmodelled(n, 'constructor %s without a body' % c['n'])
        self.call_fn(f, loc, args, fr, n, ctor_cls=cls, into_base=into_base)
    def run_inits(self, f, loc, cls, nf, into_base):
        if not into_base: self.st.mem[loc] = Obj(loc, cls)
        inits = f.get('inits') or []
        r = self.prog.records.get(cls) or {'f': [], 'b': []}
        if any(i.get('deleg') for i in inits):
            for i in inits:
                e = i['e']
                while e['k'] == 'mat': e = e['e']
                self.ctor(loc, cls, e, nf)
            return
        done = set()
        byf = {i['f']: i for i in inits if i.get('f')}
        for b in r['b']:
            bt = base_type(b if isinstance(b, str) else b.get('t', b.get('n', '')))
            e = next((i['e'] for i in inits if i.get('base') and base_type(i.get('base') if isinstance(i['base'], str) else i.get('ft', '')) == bt), None)
            if e is not None and e['k'] == 'new_obj' and self.find_fn(e['c']):
                self.ctor(loc, bt, e, nf, into_base=True)
            else:
                for fd in self.all_fields(bt): self.construct_field_default(loc, fd, nf)
        for fd in r['f']:
            i = byf.get(fd['n'])
            if i is not None and i.get('e') is not None and (i.get('written') or not fd.get('init')):
                self.construct(loc + (fd['n'],), fd['t'], i['e'], nf)
            else: self.construct_field_default(loc, fd, nf)

    # ------------------------------------------------------------ calls
    def override(self, cls, key, name):
        k = (cls, key)
        if k in self.vcache: return self.vcache[k]
        r = None
        cur = [cls]
        while cur and r is None:
            c = cur.pop(0)
            for f in self.prog.functions.values():
                if f.get('cls') == c and f.get('body') is not None and (f['key'] == key or any(o['key'] == key for o in f.get('ov') or [])):
                    r = f; break
            rec = self.prog.records.get(c)
            if rec: cur += [base_type(b if isinstance(b, str) else b.get('t', b.get('n', ''))) for b in rec['b']]
        self.vcache[k] = r
        return r
    def bind(self, p, a, fr):
        """value stored for parameter p given argument node a (in frame fr)."""
        t = p['t']
        if is_ref(t):
            v = self.lv(a, fr)
            if isinstance(v, EV):
                if eig_mat(t):
                    l = ('T', fr.key, id(a), self.iters)
                    self.construct_eigen(l, base_type(t), a, fr)
                    return Ref(self.lval(l))
                return Lazy(self.strip(a), fr)
            if isinstance(v, (SLoc, ElRef, View, Obj)): return Ref(v)
            b = base_type(t)
            if b in INTS or b in FLTS or b == 'bool': return self.coerce(v, b, a)
            return v
        return None
    def call_fn(self, f, this, args, fr, n, ctor_cls=None, into_base=False, bound=None):
        """inline analysis of a function; returns its result."""
        self.calls += 1
        if len(self.stack) > 60: self.unmodelled(n, 'recursion')
        if sum(1 for x in self.stack if x.fn is f) > 3: self.unmodelled(n, 'recursion of %s' % f['n'])
        self.visited.add(f['key'])
        key = self.fkey('f', fr.key if fr else None, id(n), f['key'], self.iters, this if into_base else None)
        nf = Frame(f, key, this, fr, n)
        self.keyfn[key] = f
        ps = f['p']
        args = list(args or [])
        for i, p in enumerate(ps):
            loc = self.vloc(nf, p['id'])
            if bound is not None and i < len(bound):
                self.st.mem[loc] = bound[i]; continue
            a = args[i] if i < len(args) else None
            if a is None: self.unmodelled(n, 'missing argument %d of %s' % (i, f['n']))
            v = self.bind(p, a, fr)
            if v is not None: self.st.mem[loc] = v
            else: self.construct(loc, p['t'], a, fr)
        hk = self.hooks.get(f['n'])
        if hk: hk(self, nf, n)
        st0 = self.st
        facts0 = st0.facts
        oi = self.iters
        def body():
            self.stack.append(nf)
            self.iters = ()
            try:
                outs = []
                if ctor_cls is not None:
                    for s, _ in self.run(st0, lambda: self.run_inits(f, this, ctor_cls, nf, into_base)):
                        outs += self.exec(f['body'], s, nf)
                else: outs = self.exec(f['body'], st0, nf)
            finally:
                self.iters = oi
                self.stack.pop()
            res = []
            for o in outs:
                res.append(Out('ret', o.st, o.v if o.k == 'ret' else None))
            res = self.one_result(f, res, facts0)
            for o in res: o.st = self.cleanup(o.st, nf)
            return res
        return self.outcomes(body, n)
    def outcomes(self, body, n):
        # analysed once per statement context; several outcomes are replayed
        c = self.cstack[-1] if self.cstack else None
        if c is None:
            res = body()
            if len(res) > 1: self.unmodelled(n, 'several outcomes outside a statement')
        else:
            c.seq += 1
            k = (c.seq, c.script[:c.pos])
            res = c.cmemo.get(k)
            if res is None: res = c.cmemo[k] = body()
        if not res: raise Dead()
        if len(res) == 1:
            self.st = res[0].st.copy()
            return res[0].v
        opts = [(o.st, o.v) for o in res]
        return self.choose(lambda: opts)
    def left_early(self, f, outs):
        """are these few outcomes of a function with a loop left in more than one way:
        what is known differs between them in more than one condition"""
        if not 2 <= len(outs) <= 6: return False
        r = f.get('#retloop')
        if r is None:
            r = f['#retloop'] = any(m.get('k') in ('for', 'while', 'do') for m in walk(f['body']))
        if not r: return False
        ex = [set(o.st.facts.fs) for o in outs]
        com = set.intersection(*ex)
        return any(len(e - com) > 1 for e in ex) and any(d[0] == 'phi' for e in ex for g in e - com for d in g.deps)
    def one_result(self, f, res, facts0):
        if 2 < len(res) <= 6 and not self.left_early(f, res):
            # as a selection by the conditions in between
            m = self.merge_outs([Out(o.k, o.st, o.v) for o in res], facts0)
            if len(m) == 1: return m
        res = self.dedupe_rets(res)
        if not self.left_early(f, res): res = self.merge_outs(res, facts0)
        return res
    def dedupe_rets(self, outs):
        r = []
        for o in outs:
            for p in r:
                if p.st.mem == o.st.mem and p.v == o.v:
                    p.st = State(p.st.mem, p.st.facts.either(o.st.facts)); break
            else: r.append(o)
        return r
    def cleanup(self, st, nf):
        mem = {l: v for l, v in st.mem.items() if not (l[0] in ('L', 'T') and l[1] == nf.key)}
        return State(mem, st.facts)

    def e_call(self, n, fr): return self.rval(self.call_node(n, fr), n)
    def call_node(self, n, fr):
        c = n.get('c')
        if not c:
            if n.get('fp') is not None:
                v = self.ev(n['fp'], fr)
                if isinstance(v, Lam): return self.call_lambda(v, n['a'], fr, n)
            self.unmodelled(n, 'indirect call')
        o = n.get('o')
        if c.get('own') or c['key'] in self.prog.functions:
            this = None; dyn = None
            if o is not None and not c.get('static'):
                if n.get('arrow'):
                    p = self.ev(o, fr)
                    this = self.ptr_target(p, n)
                else:
                    x = self.lv(o, fr)
                    if isinstance(x, Lam): return self.call_lambda(x, n['a'], fr, n)
                    if isinstance(x, SLoc):
                        y = self.st.mem.get(x.loc)
                        if isinstance(y, Lam): return self.call_lambda(y, n['a'], fr, n)
                    if isinstance(x, Obj): this = x.loc
                    elif isinstance(x, SLoc): this = x.loc
                    else: self.unmodelled(n, 'method %s on %r' % (c['n'], x))
                ob = self.st.mem.get(this)
                dyn = ob.cls if isinstance(ob, Obj) else None
            if self.contracts:
                r = self.contracts(self, n, c, this, dyn, fr)
                if r is not NotImplemented: return r
            if c.get('assign') and (c.get('defaulted') or not self.find_fn(c)):
                v = self.lv(n['a'][0], fr)
                if isinstance(v, Obj): self.copy_obj(v.loc, this); return Obj(this, dyn)
                self.unmodelled(n, 'assignment of %r' % (v,))
            f = self.find_fn(c)
            if c.get('virt') and dyn and not n.get('nonvirt'):
                f = self.override(dyn, c['key'], c['n']) or f
            if f is None: self.unmodelled(n, 'no body for %s' % c['n'])
            return self.call_fn(f, this, n['a'], fr, n)
        return self.lib_call(n, c, fr)
    def call_lambda(self, lam, args, fr, n):
        f = {'n': '<lambda>', 'key': 'lambda%d' % id(lam.n), 'p': lam.n['p'], 'body': lam.n['body'], 'rt': lam.n.get('rt', 'auto'), 'file': lam.fr.fn['file'], 'l': lam.n.get('l')}
        return self.call_fn_lam(f, lam, args, fr, n)
    def call_fn_lam(self, f, lam, args, fr, n):
        # captured variables live in the defining frame (by reference) or caps
        key = self.fkey('lam', fr.key, id(n), self.iters)
        nf = Frame(f, key, lam.fr.this, fr, n); nf.caps = lam
        for i, p in enumerate(f['p']):
            loc = self.vloc(nf, p['id'])
            v = self.bind(p, args[i], fr)
            if v is not None: self.st.mem[loc] = v
            else: self.construct(loc, p['t'], args[i], fr)
        st0 = self.st; facts0 = st0.facts; oi = self.iters
        def body():
            self.stack.append(nf); self.iters = ()
            try: outs = self.exec(f['body'], st0, nf)
            finally: self.iters = oi; self.stack.pop()
            res = self.one_result(f, [Out('ret', o.st, o.v if o.k == 'ret' else None) for o in outs], facts0)
            for o in res: o.st = self.cleanup(o.st, nf)
            return res
        return self.outcomes(body, n)
    def ptr_target(self, p, n):
        if isinstance(p, SLoc): p = self.rval(p, n)
        if isinstance(p, Ptr):
            self.oblige('null', n)
            if p.loc is None:
                self.event('null', n, 'null pointer dereference')
                raise Dead()
            if p.loc not in self.st.mem: self.ended(p.loc, n)
            return p.loc
        if isinstance(p, Obj): return p.loc
        if isinstance(p, Tuple) and p.kind == 'it': return p
        self.unmodelled(n, 'dereference of %r' % (p,))

    # ------------------------------------------------------------ expressions
    def ev_in(self, n, fr):
        return self.ev(n, fr)
    def ev(self, n, fr):
        m = getattr(self, 'e_' + n['k'], None)
        if m is None: self.unmodelled(n, 'expression kind %s' % n['k'])
        return m(n, fr)
    def lv(self, n, fr):
        k = n['k']
        if k == 'ref' and n.get('d') == 'var': return self.var_lv(n, fr)
        if k == 'mem':
            return self.lval(self.field_loc(n, fr))
        if k == 'un' and n['op'] == '*':
            return self.deref(self.ev(n['e'], fr), n)
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'):
            self.ev(n, fr); return self.lv(n['e'], fr)
        if k == 'call':
            return self.call_node(n, fr)
        if k == 'idx':
            b = self.ev(n['b'], fr); i = self.num(self.ev(n['i'], fr), n)
            return self.index_ptr(b, i, n)
        if k in ('assign', 'cassign'):
            self.ev(n, fr); return self.lv(n['a'], fr)
        if k == 'cast':
            return self.lv(n['e'], fr) if n['ck'] in ('noop', 'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay') else self.ev(n, fr)
        if k == 'mat': return self.lv(n['e'], fr)
        if k == 'cond':
            c = self.truth(self.ev(n['c'], fr), n)
            self.note_branch(c)
            return self.lv(n['a'], fr) if self.fork(c) else self.lv(n['b'], fr)
        if k == 'bin' and n['op'] == ',':
            self.ev(n['a'], fr); return self.lv(n['b'], fr)
        if k == 'new_obj' or k == 'ilist':
            return self.ev(n, fr)
        return self.ev(n, fr)
    def var_lv(self, n, fr):
        f = fr
        while f is not None:
            loc = self.vloc(f, n['id'])
            if loc in self.st.mem:
                x = self.st.mem[loc]
                if isinstance(x, Ref): return x.t
                if isinstance(x, (Lazy, Lam)): return self.rval(SLoc(loc), n)
                return self.lval(loc)
            f = f.caps.fr if f.caps is not None else None
        self.unmodelled(n, 'unknown variable %s' % n.get('n'))
    def e_ref(self, n, fr):
        d = n.get('d')
        if d == 'var': return self.rval(self.var_lv(n, fr), n)
        if d == 'enum': return poly(int(n['v'] if 'v' in n else n['cv']))
        if d == 'global':
            if n.get('cv') is not None: return poly(Fraction(str(n['cv'])))
            if n.get('init') is not None and n.get('c'): return self.coerce(self.ev(n['init'], fr), n.get('t', ''), n)
            if n.get('n', '').startswith('std::'): return Opaque(n['n'])
            loc = ('S', n.get('id'))       # a local static
            if loc in self.st.mem: return self.rval(self.lval(loc), n)
            loc = ('G', n.get('n'))
            if loc in self.st.mem: return self.rval(self.lval(loc), n)
            if n.get('init') is not None: return self.coerce(self.ev(n['init'], fr), n.get('t', ''), n)
            self.unmodelled(n, 'global variable %s' % n.get('n'))
        if d == 'fn': return Tuple('fn', n.get('n'), n.get('c', {}).get('key') if isinstance(n.get('c'), dict) else n.get('key'))
        return Opaque(n.get('n', '?'))
    def field_loc(self, n, fr):
        if n.get('arrow'):
            base = self.ptr_target(self.ev(n['b'], fr), n)
        else:
            b = self.lv(n['b'], fr)
            if isinstance(b, Obj): base = b.loc
            elif isinstance(b, SLoc): base = b.loc
            else: self.unmodelled(n, 'field %s of %r' % (n.get('n'), b))
        if isinstance(base, Tuple): self.unmodelled(n, 'field of iterator')
        return base + (n['n'],)
    def e_mem(self, n, fr):
        loc = self.field_loc(n, fr)
        if loc not in self.st.mem: self.unmodelled(n, 'unknown field %s' % (loc,))
        return self.rval(self.lval(loc), n)
    def e_this(self, n, fr):
        if fr.this is None: self.unmodelled(n, 'this')
        return Ptr(fr.this)
    def e_int(self, n, fr): return poly(int(n['v']))
    def e_flt(self, n, fr):
        s = (n.get('src') or '').rstrip('fFlL')
        try: return poly(Fraction(s))
        except (ValueError, ZeroDivisionError): return poly(Fraction(str(n['v'])))
    def e_bool(self, n, fr): return TRUE if n['v'] in (True, 'true', 1, '1') else FALSE
    def e_str(self, n, fr): return Str(n['v'])
    def e_null(self, n, fr): return NULL
    def e_zero(self, n, fr): return FALSE if base_type(n.get('t', '')) == 'bool' else NULL if is_ptr(n.get('t', '')) else ZERO
    def e_sizeof(self, n, fr): return poly(int(n['v']))
    def e_mat(self, n, fr): return self.ev(n['e'], fr)
    def e_cast(self, n, fr):
        ck = n['ck']
        v = self.ev(n['e'], fr)
        if ck in ('NullToPointer',): return NULL
        if ck == 'ToVoid': return None
        if ck == 'ArrayToPointerDecay' and re.match(r'^(const )?char ?\[', n.get('from') or '') and n['e']['k'] in ('ref', 'mem'):
            t = self.lv(n['e'], fr)
            loc = getattr(t, 'loc', None)
            if loc is not None and isinstance(self.st.mem.get(loc), Opaque): return Ptr(loc)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return self.truth(v, n)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'BooleanToSignedIntegral'):
            if isinstance(v, (Poly, F, SLoc, ElRef)): return self.coerce(v, n['t'], n)
            if isinstance(v, (View, EV)) : return self.coerce(self.num(v, n), n['t'], n)
        return v
    def e_assign(self, n, fr):
        v = self.ev(n['b'], fr)
        t = self.lv(n['a'], fr)
        self.store(t, v, n, n['a'].get('t'))
        return self.rval(t, n) if not isinstance(t, View) else t
    def e_cassign(self, n, fr):
        v = self.ev(n['b'], fr)
        t = self.lv(n['a'], fr)
        a = self.rval(t, n)
        op = n['op'][:-1]
        if isinstance(a, (EPtr,)) or (isinstance(a, Tuple) and a.kind == 'it'):
            r = self.ptr_add(a, self.num(v) if op == '+' else -self.num(v), n)
        else:
            r = self.arith(op, a, v, base_type(n.get('ct') or n['a'].get('t', '')), n)
            r = self.coerce(r, n['a'].get('t', 'double'), n)
        self.store(t, r, n)
        return self.rval(t, n)
    def e_bin(self, n, fr):
        op = n['op']
        if op in ('&&', '||'):
            a = self.truth(self.ev(n['a'], fr), n)
            d = self.st.facts.decide(a)
            if op == '&&' and d is False: return FALSE
            if op == '||' and d is True: return TRUE
            if d is not None: return self.truth(self.ev(n['b'], fr), n)
            st = self.st
            s2 = st.copy(); s2.facts = s2.facts.add(a if op == '&&' else fnot(a))
            rs = self.run(s2, lambda: self.truth(self.ev(n['b'], fr), n))
            if len(rs) == 1 and self.same_mem(rs[0][0].mem, st.mem):
                b = rs[0][1]
                return fand(a, b) if op == '&&' else for_(a, b)
            self.note_branch(a)
            if self.fork(a) == (op == '&&'): return self.truth(self.ev(n['b'], fr), n)
            return FALSE if op == '&&' else TRUE
        if op == ',':
            self.ev(n['a'], fr); return self.ev(n['b'], fr)
        a = self.ev(n['a'], fr); b = self.ev(n['b'], fr)
        return self.binop(op, a, b, n)
    def same_mem(self, a, b):
        if a is b: return True
        for l, v in b.items():
            if l[0] == 'T': continue
            w = a.get(l)
            if w is not v and w != v: return False
        return True
    def binop(self, op, a, b, n):
        if isinstance(a, (SLoc, ElRef)): a = self.rval(a, n)
        if isinstance(b, (SLoc, ElRef)): b = self.rval(b, n)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, n)
        if isinstance(a, EPtr) or (isinstance(a, Tuple) and a.kind == 'it'):
            if isinstance(b, (Poly, F)):
                return self.ptr_add(a, self.num(b) if op == '+' else -self.num(b), n)
            if op == '-' and type(a) is type(b): return self.ptr_diff(a, b, n)
        if isinstance(b, EPtr) and isinstance(a, (Poly, F)) and op == '+': return self.ptr_add(b, self.num(a), n)
        if isinstance(a, Ptr) and isinstance(b, (Poly, F)) and a.loc is None: return a
        return self.arith(op, a, b, base_type(n.get('t', '')), n)
    def ptr_add(self, a, k, n):
        if isinstance(a, EPtr): return EPtr(a.loc, a.off + k)
        return Tuple('it', a.v[0], a.v[1] + k)
    def ptr_diff(self, a, b, n):
        if isinstance(a, EPtr) and a.loc == b.loc: return a.off - b.off
        if isinstance(a, Tuple) and a.v[0] == b.v[0]: return a.v[1] - b.v[1]
        self.unmodelled(n, 'pointer difference')
    def compare(self, op, a, b, n):
        pa = isinstance(a, (Ptr, EPtr, Tuple)); pb = isinstance(b, (Ptr, EPtr, Tuple))
        if pa or pb:
            if isinstance(a, Poly) and not a.t: a = NULL
            if isinstance(b, Poly) and not b.t: b = NULL
            if isinstance(a, EPtr) and isinstance(b, EPtr) and a.loc == b.loc:
                f = {'==': eq(a.off, b.off), '!=': fnot(eq(a.off, b.off)), '<': lt(a.off, b.off), '<=': le(a.off, b.off), '>': lt(b.off, a.off), '>=': le(b.off, a.off)}[op]
                return f
            if isinstance(a, Tuple) and isinstance(b, Tuple) and a.kind == b.kind == 'it' and a.v[0] == b.v[0]:
                x, y = a.v[1], b.v[1]
                return {'==': eq(x, y), '!=': fnot(eq(x, y)), '<': lt(x, y), '<=': le(x, y), '>': lt(y, x), '>=': le(y, x)}[op]
            if op in ('==', '!='):
                na = isinstance(a, Ptr) and a.loc is None; nb = isinstance(b, Ptr) and b.loc is None
                same = (na and nb) or (not na and not nb and a == b)
                return TRUE if same == (op == '==') else FALSE
            self.unmodelled(n, 'pointer comparison')
        if isinstance(a, F) and isinstance(b, F) and op in ('==', '!='):
            e = for_(fand(a, b), fand(fnot(a), fnot(b)))
            return e if op == '==' else fnot(e)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return fatom(atom('cmp', op, str(a), str(b), deps=getattr(a, 'deps', EMPTY) | getattr(b, 'deps', EMPTY)))
        if isinstance(a, Obj) or isinstance(b, Obj): self.unmodelled(n, 'comparison of objects')
        if (isinstance(a, (View, EV)) and (a.arr)) or (isinstance(b, (View, EV)) and b.arr): return self.ew_compare(op, a, b, n)
        x, y = self.num(a, n), self.num(b, n)
        return self.cmp_num(op, x, y)
    def cmp_num(self, op, x, y):
        if op == '==': return eq(x, y)
        if op == '!=': return fnot(eq(x, y))
        if op == '<': return lt(x, y)
        if op == '<=': return le(x, y)
        if op == '>': return lt(y, x)
        return le(y, x)
    def arith(self, op, a, b, t, n):
        if isinstance(a, (View, EV, FL)) or isinstance(b, (View, EV, FL)):
            return self.eig_binop(op, a, b, n)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('(%s%s%s)' % (a, op, b), getattr(a, 'deps', EMPTY) | getattr(b, 'deps', EMPTY))
        if isinstance(a, F) and isinstance(b, F) and op in ('&', '|', '^'):
            return fand(a, b) if op == '&' else for_(a, b) if op == '|' else for_(fand(a, fnot(b)), fand(fnot(a), b))
        x, y = self.num(a, n), self.num(b, n)
        if op == '+': return x + y
        if op == '-': return x - y
        if op == '*': return x * y
        if op == '/':
            if t in INTS:
                cx, cy = x.const(), y.const()
                if cx is not None and cy: 
                    q = abs(int(cx)) // abs(int(cy)); return poly(q if (cx < 0) == (cy < 0) else -q)
                if cy == 1: return x
                if cy is not None and cy and all(qd(c, cy).denominator == 1 for c in x.t.values()): return x * qd(1, cy)
                q, r = divmod_poly(x, y)
                if not r.t: return q
                return poly(atom('idiv', x, y, isint=True))
            return x / y
        if op == '%':
            cx, cy = x.const(), y.const()
            if cx is not None and cy:
                q = abs(int(cx)) // abs(int(cy)); q = q if (cx < 0) == (cy < 0) else -q
                return poly(int(cx) - q * int(cy))
            return poly(atom('mod', x, y, isint=True))
        if op in ('<<', '>>', '&', '|', '^'):
            cx, cy = x.const(), y.const()
            if cx is not None and cy is not None:
                cx, cy = int(cx), int(cy)
                return poly({'<<': cx << cy, '>>': cx >> cy, '&': cx & cy, '|': cx | cy, '^': cx ^ cy}[op])
            if op in ('&', '|', '^') and is01(x) and is01(y):
                a, b = as_formula(x), as_formula(y)
                return ind(fand(a, b) if op == '&' else for_(a, b) if op == '|' else for_(fand(a, fnot(b)), fand(fnot(a), b)))
            return poly(atom('bits', op, x, y, isint=True))
        self.unmodelled(n, 'operator %s' % op)
    def e_un(self, n, fr):
        op = n['op']
        if op == '*':
            return self.rval(self.lv(n, fr), n)
        if op == '&': return self.addr(n['e'], fr, n)
        if op in ('++', '--'):
            t = self.lv(n['e'], fr)
            a = self.rval(t, n)
            d = ONE if op == '++' else poly(-1)
            if isinstance(a, (EPtr, Tuple)): b = self.ptr_add(a, d, n)
            else: b = self.num(a, n) + d
            self.store(t, b, n)
            return a if n.get('post') else b
        v = self.ev(n['e'], fr)
        if op == '!': return fnot(self.truth(v, n))
        if op == '-':
            if isinstance(v, (View, EV, FL)): return self.eig_neg(v, n)
            return -self.num(v, n)
        if op == '+': return v
        self.unmodelled(n, 'unary %s' % op)
    def addr(self, e, fr, n):
        while e['k'] in ('mat', 'cast'): e = e['e']
        if e['k'] == 'ref' and e.get('d') == 'fn': return self.ev(e, fr)
        if e['k'] == 'ref' and e.get('d') == 'var':
            f = fr
            while f is not None:
                loc = self.vloc(f, e['id'])
                if loc in self.st.mem:
                    v = self.st.mem[loc]
                    if isinstance(v, Ref): return self.addr_of(v.t, n)
                    return Ptr(loc)
                f = f.caps.fr if f.caps is not None else None
        if e['k'] == 'mem':
            loc = self.field_loc(e, fr)
            v = self.st.mem.get(loc)
            if isinstance(v, Ref): return self.addr_of(v.t, n)
            return Ptr(loc)
        if e['k'] == 'un' and e['op'] == '*': return self.ev(e['e'], fr)
        return self.addr_of(self.lv(e, fr), n)
    def addr_of(self, t, n):
        if isinstance(t, (SLoc, Obj)): return Ptr(t.loc)
        if isinstance(t, View) and t.whole: return Ptr(t.loc)
        if isinstance(t, ElRef): return EPtr(t.view, t.i)
        if isinstance(t, View):
            l = ('T', self.stack[-1].key if self.stack else 0, 'addr', id(n))
            self.st.mem[l] = t
            return Ptr(l)
        self.unmodelled(n, 'address of %r' % (t,))
    def deref(self, p, n):
        if isinstance(p, SLoc): p = self.rval(p, n)
        if isinstance(p, EPtr): return ElRef(p.loc, p.off)
        if isinstance(p, Tuple) and p.kind == 'it': return ElRef(p.v[0], p.v[1])
        if isinstance(p, Tuple) and p.kind == 'itval': return p.v[0]
        if isinstance(p, Tuple) and p.kind == 'fn': return p
        loc = self.ptr_target(p, n)
        return self.lval(loc)
    def index_ptr(self, b, i, n):
        if isinstance(b, EPtr): return ElRef(b.loc, b.off + i)
        if isinstance(b, View): return ElRef(b.loc, b.off + i)
        if isinstance(b, Ptr) and b.loc is not None:
            v = self.st.mem.get(b.loc)
            if isinstance(v, FArr): return ElRef(b.loc, i)
            if i.const() == 0: return self.lval(b.loc)
        if isinstance(b, SLoc):
            return self.index_ptr(self.rval(b, n), i, n)
        self.unmodelled(n, 'indexing %r' % (b,))
    def e_idx(self, n, fr): return self.rval(self.lv(n, fr), n)
    def e_cond(self, n, fr):
        c = self.truth(self.ev(n['c'], fr), n)
        d = self.st.facts.decide(c)
        if d is not None: return self.ev(n['a'] if d else n['b'], fr)
        st = self.st
        sa = st.copy(); sa.facts = sa.facts.add(c)
        sb = st.copy(); sb.facts = sb.facts.add(fnot(c))
        ra = self.run(sa, lambda: self.ev(n['a'], fr)); rb = self.run(sb, lambda: self.ev(n['b'], fr))
        if len(ra) == 1 and len(rb) == 1 and self.same_mem(ra[0][0].mem, st.mem) and self.same_mem(rb[0][0].mem, st.mem):
            va, vb = ra[0][1], rb[0][1]
            if isinstance(va, (View, EV)) and isinstance(vb, (View, EV)) and va != vb:
                va, vb = self.as_ev(va, n), self.as_ev(vb, n)
            m = self.merge_val(c, va, vb)
            if m is not None: return m
        self.note_branch(c)
        return self.ev(n['a'], fr) if self.fork(c) else self.ev(n['b'], fr)
    def e_throw(self, n, fr):
        if n.get('e'):
            msg = next((x['v'] for x in walk(n['e']) if x['k'] == 'str'), '')
        else: msg = 'rethrow'
        self.event('throw', n, msg, n.get('tt'))
        raise Thrown()
    def e_lambda(self, n, fr): return Lam(n, fr, None)
    def e_ilist(self, n, fr):
        t = n.get('t', '')
        if len(n['a']) == 1 and (base_type(t) in INTS or base_type(t) in FLTS or base_type(t) == 'bool' or is_ptr(t)): return self.ev(n['a'][0], fr)
        if base_type(t) in self.prog.records:
            loc = ('T', fr.key, id(n), self.iters)
            self.construct_record(loc, base_type(t), n, fr)
            return Obj(loc, base_type(t))
        if base_type(t).startswith('std::pair<'): return self.lib_new(n, base_type(t), fr)
        if not n['a'] and (base_type(t) in INTS or base_type(t) in FLTS): return ZERO
        return Tuple('ilist', *[self.ev(a, fr) for a in n['a']])
    def e_new(self, n, fr):
        t = base_type(n['at'] if 'at' in n else n['t'])
        if n.get('pl'):
            pl = n['pl'][0] if isinstance(n['pl'], list) else n['pl']
            p = self.ev(pl, fr)
            loc = self.ptr_target(p, n)
            v = self.ev(n['init'], fr)
            if isinstance(v, EV): self.unmodelled(n, 'placement new of an expression')
            self.st.mem[loc] = v
            return Ptr(loc)
        loc = ('H', fr.key, id(n), self.iters)
        self.drop_obj(loc)
        self.construct(loc, t, n.get('init'), fr)
        return Ptr(loc)
    def e_delete(self, n, fr):
        self.ev(n['e'], fr); return None
    def e_new_obj(self, n, fr):
        t = base_type(n['t'])
        if n.get('elide') and n.get('a'): return self.ev(n['a'][0], fr)
        c = n['c']
        if t in self.prog.records and (c.get('own') or c['key'] in self.prog.functions or c.get('defaulted')):
            loc = ('T', fr.key, id(n), self.iters)
            self.drop_obj(loc)
            self.ctor(loc, t, n, fr)
            return Obj(loc, t)
        return self.lib_new(n, t, fr)
    def e_opaque(self, n, fr): return Opaque('opaque:%s' % n.get('cls'))
    # a throw may appear as an expression statement
    def e_decl(self, n, fr): self.unmodelled(n, 'declaration as expression')
