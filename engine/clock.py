"""A model of time: readings of clocks are unknown numbers of seconds, and time
points and durations are sums of them; what a conversion cuts off is kept as an
unknown.  Used by the timing check only."""
import re
from eig import *
from interp import *

def period(t):
    """(seconds per tick, integral ticks?) of a duration or time_point type"""
    t = t.replace(' ', '')
    m = re.search(r'duration<(\w+)(?:,std::ratio<(\d+),(\d+)>)?>', t)
    if not m: return None
    a, b = (int(m.group(2)), int(m.group(3))) if m.group(2) else (1, 1)
    return qd(a, b), m.group(1) not in ('double', 'float', 'longdouble')

class Clock:
    def __init__(self): self.reads = []; self.cuts = {}
    def read(self, e, cls, n, unit=None):
        a = atom('clock', len(self.reads), deps=frozenset([('clock',)]), name='t%d' % len(self.reads))
        from contracts import SOLVES
        self.reads.append(dict(atom=a, cls=cls, where=e.where(n), fn=e.stack[-1].fn if False else None, solves=e.st.mem.get(SOLVES), unit=unit))
        return poly(a)
    def cut(self, e, v, per):
        """a number of seconds in whole ticks"""
        if v.const() is not None and v.const() % per == 0: return v
        k = v * qd(1, per)
        if all(a.kind in ('clock', 'cut') and self.exact(a, per) for a in k.atoms()) and all((c * per).denominator == 1 or c.denominator == 1 for c in v.t.values()): return v
        a = atom('cut', v, per, deps=frozenset([('clock',)]), name='whole %ss of %s' % (float(per), v))
        self.cuts[a.id] = per
        return poly(a)
    def exact(self, a, per):
        if a.kind == 'cut': return self.cuts[a.id] % per == 0
        return per <= qd(1, 10**9)
    def to(self, e, t, v):
        p = period(t)
        if p is None: raise Broken('type %s' % t)
        return self.cut(e, v, p[0]) if p[1] else v
    def arg(self, e, a, fr):
        v = e.ev(a, fr)
        if isinstance(v, SLoc): v = e.rval(v, a)
        if isinstance(v, Ref): v = e.rval(v.t, a)
        return v
    def make(self, e, t, n, a, fr):
        if not a: return ZERO
        v = e.num(self.arg(e, a[0], fr))
        st = base_type(a[0].get('t', ''))
        if 'chrono' not in st and 'chrono' not in str((n.get('c') or {}).get('pt')): v = v * poly(period(t)[0])
        elif not st.startswith('std::chrono') and period(st) is None and 'chrono' not in st: v = v * poly(period(t)[0])
        return self.to(e, t, v)
    def value(self, e, t, n, fr):
        if n is None: return ZERO if 'time_point' in t else Undef(t)
        if n['k'] == 'mat': return self.value(e, t, n['e'], fr)
        if n['k'] in ('ilist', 'zero') and not n.get('a'): return ZERO
        if n['k'] == 'ilist': return self.value(e, t, n['a'][0], fr)
        if n['k'] == 'new_obj': return self.make(e, t, n, n.get('a') or [], fr)
        v = self.arg(e, n, fr)
        return v
    def call(self, e, nm, n, c, x, A, fr):
        cls = c.get('cls') or ''
        if nm == 'now': return self.read(e, cls, n)
        if nm == 'clock' and c['n'] in ('clock', 'std::clock'): return self.read(e, 'std::clock', n) * 1000000
        me = None
        if x is not None:
            me = e.rval(x, n) if isinstance(x, SLoc) else x
        rt = c.get('rt') or ''
        if nm == 'count' and me is not None:
            p = period(cls); return e.num(me) * qd(1, p[0])
        if nm == 'time_since_epoch' and me is not None: return me
        if nm == 'zero': return ZERO
        if nm == 'operator=' and x is not None:
            v = self.to(e, cls, e.num(self.arg(e, A[0], fr))); e.store(x, v, n); return x
        if nm in ('operator+=', 'operator-=', 'operator*=', 'operator/=') and x is not None:
            b = e.num(self.arg(e, A[0], fr)); a = e.num(me)
            v = self.to(e, cls, {'+': a + b, '-': a - b, '*': a * b, '/': a / b}[nm[8]] if True else None); e.store(x, v, n); return x
        if nm in ('duration_cast', 'time_point_cast', 'floor', 'round', 'ceil'): return self.to(e, rt, e.num(self.arg(e, A[0], fr)))
        xs = ([me] if me is not None else []) + [self.arg(e, a, fr) for a in A]
        if nm in ('operator-', 'operator+') and len(xs) == 1: return e.num(xs[0]) if nm[8] == '+' else -e.num(xs[0])
        if len(xs) == 2:
            a, b = e.num(xs[0]), e.num(xs[1])
            if nm == 'operator-': return a - b
            if nm == 'operator+': return a + b
            if nm == 'operator*': return self.to(e, rt, a * b)
            if nm == 'operator/': return self.to(e, rt, a / b) if period(rt) else a / b
            if nm in ('operator<', 'operator<=', 'operator>', 'operator>=', 'operator==', 'operator!='): return e.compare(nm[8:], a, b, n) if hasattr(e, 'compare') else {'<': lt(a, b), '<=': le(a, b), '>': lt(b, a), '>=': le(b, a), '==': eq(a, b), '!=': fnot(eq(a, b))}[nm[8:]]
        raise Broken('time operation %s' % c['n'])
