"""Builds abstract inputs and drives public functions of the library."""
from interp import *

HFN = {'n': '<check>', 'key': '<check>', 'file': '<check>', 'p': [], 'rt': 'void', 'l': 0}

class Harness:
    def __init__(self, prog):
        self.prog = prog
        self.e = Engine(prog)
        self.fr = Frame(HFN, self.e.fkey('<check>'), None, None, None)
        self.seq = 0
    # ------------------------------------------------------------ inputs
    @property
    def mem(self): return self.e.st.mem
    def fact(self, *fs):
        for f in fs: self.e.st.facts = self.e.st.facts.add(f)
    def int(self, name, lo=1):
        p = poly(atom('v', name, isint=True, sign='>0' if lo == 1 else '>=0' if lo == 0 else None, name=name))
        if lo is not None: self.fact(le(poly(lo), p))
        return p
    def real(self, name, lo=None):
        p = poly(atom('v', name, name=name, sign='>0' if lo == '>0' else None))
        if lo == '>0': self.fact(lt(ZERO, p))
        return p
    def letter(self, name, r, c, symm=False, deps=EMPTY):
        return mat_of(sym('in', name, rows=poly(r), cols=poly(c), name=name, symm=symm, deps=deps))
    def var(self, name, v):
        """a named location of the check holding v; returns the location."""
        loc = ('L', '<check>', name)
        self.mem[loc] = v
        return loc
    def vec(self, name, n, m=None):
        """a dynamic vector object"""
        return self.var(name, Arr(poly(n), ONE, m if m is not None else self.letter(name, n, 1), (), True))
    def matrix(self, name, r, c, m=None, symm=False):
        return self.var(name, Arr(poly(r), poly(c), m if m is not None else self.letter(name, r, c, symm)))
    def ref(self, loc): return Ref(self.e.lval(loc))
    def content(self, loc, st=None):
        saved = self.e.st
        if st is not None: self.e.st = st
        try:
            v = self.mem[loc]
            if isinstance(v, Arr): return self.e.arr_all(v)
            return v
        finally: self.e.st = saved
    # ------------------------------------------------------------ calls
    def functions(self, name, pred=None):
        fs = self.prog.find(name, lambda f: f.get('body') is not None and (pred is None or pred(f)))
        return fs
    def one(self, name, pred=None):
        fs = self.functions(name, pred)
        if len(fs) != 1: raise Broken('%d definitions of %s' % (len(fs), name))
        return fs[0]
    def node(self, line=0):
        self.seq += 1
        return {'k': 'call', 'l': line, 'seq': self.seq}
    def invoke(self, f, this, bound, st=None, ctor_cls=None):
        """-> list of (state, value)"""
        n = self.node()
        self.keep = getattr(self, 'keep', []); self.keep.append(n)
        e = self.e
        e.stack.append(self.fr)
        try:
            return e.run(st or e.st, lambda: e.call_fn(f, this, [None] * len(bound), self.fr, n, ctor_cls=ctor_cls, bound=bound))
        finally: e.stack.pop()
    def new(self, cls, name, bound, st=None, pred=None, loc=None):
        """construct an object; -> list of (state, loc)"""
        loc = loc or ('L', '<check>', name)
        f = self.one(cls + '::' + simple(cls), lambda f: f.get('ctor') and not f.get('copy') and len(f['p']) == len(bound) and (pred is None or pred(f)))
        return [(s, loc) for s, _ in self.invoke(f, loc, bound, st, ctor_cls=cls)]
    def stopped(self, msg):
        x = Broken(msg); x.engine = self.e; return x
    def new1(self, cls, name, bound, pred=None, loc=None):
        r = self.new(cls, name, bound, pred=pred, loc=loc)
        if len(r) != 1: raise self.stopped('constructor of %s has %d outcomes' % (cls, len(r)))
        self.e.st = r[0][0].copy()
        return r[0][1]
    def method(self, cls, name, nparams=None, pred=None):
        seen = set(); cur = [cls]
        while cur:
            c = cur.pop(0)
            fs = self.functions(c + '::' + name, lambda f: (nparams is None or len(f['p']) == nparams) and (pred is None or pred(f)))
            if len(fs) == 1: return fs[0]
            if len(fs) > 1: raise Broken('ambiguous %s::%s' % (c, name))
            rec = self.prog.records.get(c)
            if rec: cur += [base_type(b if isinstance(b, str) else b.get('t', b.get('n', ''))) for b in rec['b']]
        raise Broken('no definition of %s::%s' % (cls, name))
    def call(self, loc, name, bound=(), st=None, pred=None):
        cls = (st or self.e.st).mem[loc].cls
        return self.invoke(self.method(cls, name, len(bound), pred), loc, list(bound), st)
    def call1(self, loc, name, bound=(), pred=None):
        r = self.call(loc, name, bound, pred=pred)
        if len(r) != 1: raise self.stopped('%s has %d outcomes' % (name, len(r)))
        self.e.st = r[0][0].copy()
        return r[0][1]
