"""C25: the reported solve time is the time that solve took, in seconds."""
from algo import *
from clock import Clock
from c18 import recording, render
from mem import PRINTED

def run(ck, P):
    ck.rule('elapsed', 'solve_time is the difference of two clock readings of this call, in seconds and not cut to a coarse unit (or a negative constant: no timing)', 4)
    ck.rule('covers', 'the first reading is made before the first linear solve, the second after the last', 4)
    ck.rule('monotonic', 'the clock cannot be set back while a solve runs', 1)
    ck.rule('printed', 'a time printed with its unit is the reported one in that unit', 2)
    for kind, o in (THOROUGH if ck.tier == 'thorough' else QUICK):
        ck.attempt('elapsed', 'FBstab%s::Solve' % kind.capitalize(), one, ck, P, kind, o)

STEADY = ('steady_clock', 'std::clock')
def one(ck, P, kind, o):
    K = Clock()
    def setup(R): R.e.clock = K; recording(R)
    R = Run(P, kind, display=1, setup=setup, **o)
    ck.saw(R.e)
    seen = set()
    for x in R.exits:
        w = x.where
        t = x.st.mem[x.loc + ('solve_time',)]
        if isinstance(t, (Opaque, Undef)): ck.put('elapsed', w, False if isinstance(t, Undef) else None, '', 'solve_time is never set' if isinstance(t, Undef) else 'solve_time is not understood'); continue
        t = R.num(t)
        ck.attempt('printed', w, printed, ck, R, x, t)
        if t.const() is not None:
            ck.put('elapsed', w, t.const() < 0, 'no timing data', 'solve_time is the constant %s, which is a time' % t.const()); continue
        readings = {r['atom'].id: r for r in K.reads}
        at = t.atoms()
        other = [a for a in at if a.id not in readings]
        if other:
            us = set(); collect(t, us, set()); kept = [a for a in (alg._list[i] for i in us) if a.kind == 'static']
            if kept: ck.bad('elapsed', w, 'solve_time is measured from a reading that the first solve of the program made (%s)' % kept[0].args[1]); continue
            cuts = [a for a in other if a.kind == 'cut']
            if cuts and len(cuts) == len(other) and max(K.cuts[a.id] for a in cuts) > Fraction(1, 10**6): ck.bad('elapsed', w, 'the time is cut to whole multiples of %g s' % max(float(K.cuts[a.id]) for a in cuts))
            else: ck.undecided('elapsed', w, 'solve_time is %s' % str(t)[:200])
            continue
        pairs = [(m, c) for m, c in t.t.items()]
        good = len(pairs) == 2 and all(len(m) == 1 and m[0][1] == 1 for m, c in pairs) and sorted(c for m, c in pairs) == [-1, 1]
        if good:
            end = next(readings[m[0][0]] for m, c in pairs if c == 1); start = next(readings[m[0][0]] for m, c in pairs if c == -1)
            if K.reads.index(end) < K.reads.index(start): start, end = end, start; good = False
        ck.put('elapsed', w, good, 'solve_time is the time between the readings at %s and %s' % ((start['where'], end['where']) if good else ('', '')), 'solve_time is %s, with t the clock readings in seconds at %s' % (str(t)[:200], ', '.join(readings[a.id]['where'] for a in at)))
        if not good: continue
        for r in (start, end):
            if r['cls'] in seen: continue
            seen.add(r['cls'])
            name = r['cls'].split('::')[-1]
            v = True if r['cls'] == 'std::clock' or name == 'steady_clock' else False if name == 'system_clock' else None
            ck.put('monotonic', r['where'], v, '%s is never set back' % r['cls'], '%s can be set back during a solve, and a negative solve_time means that there is no timing data' % r['cls'])
        if start['cls'] != end['cls']: ck.bad('elapsed', w, 'the readings are of different clocks'); continue
        s0 = R.num(start['solves']); s1 = R.num(end['solves']); sx = R.num(x.st.mem[SOLVES])
        v0 = zero_test(s0); v1 = zero_test(s1 - sx)
        ck.put('covers', w, True if v0 is True else False if phi_or_const(R, s0) else None, 'the reading at %s precedes every linear solve' % start['where'], 'the reading at %s is made after linear solves (%s)' % (start['where'], s0))
        ck.put('covers', w, v1 if v1 is not None else True if R.ind.zero(s1 - sx) else None, 'the reading at %s follows every linear solve' % end['where'], 'linear solves follow the reading at %s' % end['where'])

def phi_or_const(R, s): return s.const() is not None or any(a.isint for a in s.atoms())

UNIT = [('ms', 1000), ('msec', 1000), ('milliseconds', 1000), ('us', 10**6), ('s', 1), ('sec', 1), ('seconds', 1), ('microseconds', 10**6), ('ns', 10**9)]
def printed(ck, R, x, t):
    log = x.st.mem.get(PRINTED)
    if not isinstance(log, PLog): ck.undecided('printed', x.where, 'what is printed is not known'); return
    n = 0
    for T in log.items:
        if not isinstance(T, Text): continue
        for alt in T.alts:
            r = render(alt)
            if r is None: continue
            text, vals = r
            for m in re.finditer(r'<(\d+)>\s*([a-zA-Z]+)\b', text):
                u = dict(UNIT).get(m.group(2)); c, v = vals[int(m.group(1))]
                if u is None or c not in 'eEfFgG': continue
                n += 1
                g = R.num(v)
                ck.put('printed', x.where, True if zero_test(g - t * u) is True else False if all(a.kind in ('clock', 'cut') for a in g.atoms()) else None, 'the time is printed in %s' % m.group(2), 'the time printed in %s is %s, reported is %s s' % (m.group(2), str(g)[:120], str(t)[:120]))
    if not n: ck.ok('printed', x.where, 'no time with a unit is printed')
