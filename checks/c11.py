"""Options: whatever is passed, the options in force are admissible."""
from algo import *
import itertools
from fractions import Fraction as Q

RANGE = dict(sigma0=('1e-10', '1e2'), sigma_max=('1e-6', '1e2'), sigma_min=('1e-13', '1e-8'), alpha=('0.001', '0.999'), beta=('0.1', '0.99'),
             eta=('1e-12', '0.499'), delta=('0.0001', '0.99'), gamma=('0.001', '0.9'), abs_tol=('1e-14', None), rel_tol=('0', None),
             stall_tol=('1e-14', None), infeas_tol=('1e-14', None), inner_tol_max=('1e-8', '1e2'), inner_tol_min=('1e-14', '1e-2'),
             max_newton_iters=('1', None), max_prox_iters=('1', None), max_inner_iters=('1', None), max_linesearch_iters=('1', None))
RANGE = {k: (Q(a), Q(b) if b else None) for k, (a, b) in RANGE.items()}
ORDER = [('sigma_min', 'sigma0'), ('sigma0', 'sigma_max'), ('inner_tol_min', 'inner_tol_max')]

def run(ck, P):
    ck.rule('range', 'after an update with any non-NaN values each option in force lies in its admissible range', 36)
    ck.rule('consistent', 'sigma_min <= sigma0 <= sigma_max and inner_tol_min <= inner_tol_max hold afterwards', 6)
    ck.rule('kept', 'admissible and mutually consistent values are in force unchanged', 42)
    ck.rule('update-never-throws', 'no update throws, whatever the values', 2)
    ck.rule('presets', 'the presets and the initial options are admissible as they are', 100)
    ck.rule('solve-never-throws', 'with admissible options no throw in a solve is guarded by an option', 2)
    for kind in ('dense', 'mpc'):
        ck.attempt('range', 'FBstab%s::UpdateOptions' % kind.capitalize(), update, ck, P, kind)
    all_runs(ck, P, 'solve-never-throws', solve)

# --------------------------------------------------------------- updates
def live(S, st=None):
    """options objects that outlive a call"""
    h = S.h
    return [l for l in S.options_locs() if l[0] in ('L', 'H') and l[:3] != ('L', '<check>', 'newopts')]

def update(ck, P, kind):
    S = Setup(P, kind, N=1, opts=False); h = S.h; e = h.e
    f = h.one(S.cls + '::UpdateOptions')
    w = '%s:%s %s' % (rel(f['file']), f['l'], f['n'])
    O = f['p'][0]['t']
    start = h.e.st.copy()
    fields = list(OPTS_REAL) + OPTS_INT + OPTS_BOOL + ['display_level']
    # presets: values first
    presets(ck, P, S, f, w, fields, start)
    h.e.st = start.copy()
    old, new = {}, {}
    lv = live(S)
    for k in fields:
        mk = (lambda s: fatom(atom('v', s + k, name=s + k))) if k in OPTS_BOOL else (lambda s: poly(atom('v', s + k, name=s + k, isint=k in OPTS_INT or k == 'display_level', deps=frozenset([('option', s, k)]))))
        old[k], new[k] = mk('old '), mk('new ')
    loc = ('L', '<check>', 'newopts'); h.mem[loc] = Obj(loc, base_type(O))
    for k in fields: h.mem[loc + (k,)] = new[k]
    for l in lv:
        for k in fields:
            if l + (k,) in h.mem: h.mem[l + (k,)] = old[k]
    n0 = len(e.events)
    rs = h.invoke(f, S.solver, [h.ref(loc)])
    ck.saw(e)
    olds = [x.atoms()[0] if isinstance(x, Poly) else literals(x)[0].a[0] for x in old.values()]
    thrown = [ev for ev in e.events[n0:] if ev.kind in ('throw', 'abort')]
    for ev in thrown:
        fs = list(ev.facts.fs)
        s = satisfiable(fs, start.facts)
        if s is not None and s is not False: ck.bad('update-never-throws', where_ev(ev), 'updating the options throws (%s) for example for %s' % (str(ev.msg)[:120], witness(s)))
        elif s is None: ck.undecided('update-never-throws', where_ev(ev), 'cannot decide whether this throw is reachable')
    if not any(True for b in ck.bads if b[0] == 'update-never-throws'): ck.ok('update-never-throws', w, '%d throw sites on the way are unreachable or absent' % len(thrown))
    for st, _ in rs:
        hot = [l for l in live(S) if any(l + (k,) in st.mem and changed(st.mem[l + (k,)], old[k]) for k in fields)]
        if not hot: ck.bad('kept', w, 'the update changes no options'); continue
        extra = [g for g in st.facts.fs if g not in start.facts.fs]
        for l in hot:
            V = {k: st.mem.get(l + (k,)) for k in fields}
            for k in fields:
                if V[k] is None: ck.undecided('range', w, 'no value of %s' % k); continue
                if k in OPTS_BOOL: 
                    ok = same_bool(e, V[k], new[k])
                    ck.put('kept', w, ok, '%s takes effect' % k, '%s in force is %s instead of the value passed' % (k, V[k])); continue
                v = e.num(V[k])
                if k == 'display_level':
                    ck.put('kept', w, True if v == new[k] else satisfy_eq(v, new[k], extra), '%s takes effect' % k, '%s in force is %s instead of the value passed' % (k, str(v)[:200])); continue
                one(ck, w, k, v, V, new, extra, e)
            for a, b in ORDER:
                if V[a] is None or V[b] is None: continue
                x = decide(extra, [e.num(V[a]), e.num(V[b])], lambda env, ab: ab[0] <= ab[1])
                ck.put('consistent', w, True if x is True else False if x else None, '%s <= %s' % (a, b), 'after the update %s = %s exceeds %s = %s for %s' % ((a, x[1][0], b, x[1][1], witness(x[0])) if x and x is not True else (a, '?', b, '?', 'undecided')))

def one(ck, w, k, v, V, new, extra, e):
    lo, hi = RANGE[k]
    x = decide(extra, [v], lambda env, r: r[0] >= lo and (hi is None or r[0] <= hi))
    ck.put('range', w, True if x is True else False if x else None, '%s in [%s, %s]' % (k, float(lo), float(hi) if hi is not None else 'inf'), ('%s = %s is in force, outside [%s, %s], for %s' % (k, fl(x[1][0]), float(lo), float(hi) if hi is not None else 'inf', witness(x[0]))) if x and x is not True else 'undecided: %s = %s' % (k, str(v)[:200]))
    def keeps(env, r):
        # every relevant passed value admissible, and the pairs consistent
        for j, (a, b) in RANGE.items():
            t = env.get('new ' + j)
            if t is not None and not (t >= a and (b is None or t <= b)): return True
        for a, b in ORDER:
            s, t = env.get('new ' + a), env.get('new ' + b)
            if s is not None and t is not None and s > t: return True
        return r[0] == env['new ' + k]
    x = decide(extra, [v], keeps, need=['new ' + k] + ['new ' + j for p in ORDER if k in p for j in p])
    ck.put('kept', w, True if x is True else False if x else None, '%s takes effect unchanged when admissible' % k, ('%s in force is %s although the admissible values %s were passed' % (k, fl(x[1][0]), witness(x[0]))) if x and x is not True else 'undecided: %s = %s' % (k, str(v)[:200]))

def fl(x): return '%g' % float(x) if isinstance(x, (Q, int)) else str(x)
def witness(env): return ', '.join('%s = %s' % (k.replace('new ', ''), fl(v)) for k, v in sorted(env.items()))
def where_ev(ev): return '%s:%s' % (ev.fn, ev.line)
def changed(v, o): return v is not o and not (isinstance(v, (Poly, F)) and v == o)
def same_bool(e, v, n):
    v = e.truth(v) if hasattr(e, 'truth') else v
    if v == n: return True
    return None if not isinstance(v, F) else False
def satisfy_eq(v, n, extra):
    x = decide(extra, [v, n], lambda env, r: r[0] == r[1])
    return True if x is True else False if x else None

# ---------------------------------------- exact case analysis by regions
def letters_in(xs):
    at = set(); 
    for x in xs: collect(x, at, set())
    return sorted({alg._list[i] for i in at if alg._list[i].kind == 'v'}, key=lambda a: a.id)

def breakpoints(xs):
    """constants that letters are compared with; None when a comparison is not
    between letters and constants"""
    out = set(); ok = True
    done = set()
    def f(x):
        nonlocal ok
        if isinstance(x, Poly):
            for m, c in x.t.items():
                if not m: out.add(Q(c))
            for a in x.atoms():
                if a.id in done: continue
                done.add(a.id)
                for y in a.args: f(y)
        elif isinstance(x, tuple):
            for y in x: f(y)
        elif isinstance(x, F):
            for l in literals(x):
                if l.op in ('lt', 'le', 'eq'):
                    p = l.a[0]
                    cs = [c for m, c in p.t.items() if m]
                    if any(len(m) > 1 or any(e != 1 for a, e in m) for m in p.t): ok = False
                    if len(cs) == 1 and () in p.t: out.add(-Q(p.t[()]) / Q(cs[0]))
                    elif len(cs) == 1: out.add(Q(0))
                    elif len(cs) == 2 and (cs[0] + cs[1] != 0 or () in p.t): ok = False
                    elif len(cs) > 2: ok = False
                    f(p)
                else: ok = False
    for x in xs: f(x)
    return out, ok

SCALE = 60 * 10**20
def decide(extra, xs, pred, need=()):
    """True when pred holds in every region; (env, values) for a region where
    it fails; None when the expressions are not of this kind"""
    rel_ = relevant(extra, xs)
    L = letters_in(list(xs) + rel_)
    for n in need:
        a = atom('v', n, name=n)
        if a not in L and n[4:] not in OPTS_BOOL: L.append(next((b for b in alg._list if b.kind == 'v' and b.args[:1] == (n,)), a))
    L = list(dict.fromkeys(L))
    if len(L) > 4: return None
    bp, exact = breakpoints(list(xs) + rel_)
    for l in L:
        k = l.name.replace('new ', '')
        if k in RANGE: bp |= {b for b in RANGE[k] if b is not None}
    bp = sorted(b for b in bp)
    k = max(1, len(L))
    def grid(isint):
        out = set(bp)
        ends = [bp[0] - 2 * (k + 1)] + bp + [bp[-1] + 2 * (k + 1)] if bp else [Q(-1), Q(1)]
        for a, b in zip(ends, ends[1:]):
            for j in range(1, k + 1): out.add(a + (b - a) * Q(j, k + 1))
        if isint:
            out = {Q(int(x) + d) for x in out for d in (-1, 0, 1)}
        return sorted(out)
    grids = [grid(l.isint) for l in L]
    n = 1
    for g in grids: n *= len(g)
    if n > 150000: return None
    fast = [compile_(x) for x in xs]; guards = [compile_(f) for f in rel_]
    if any(c is None for c in fast + guards): return None
    scaled = lambda v: int(v * SCALE) if (v * SCALE).denominator == 1 else v * SCALE
    tables = [[(scaled(Q(v)), v) for v in g] for g in grids]
    for vs in itertools.product(*tables):
        env = {l.id: v[0] for l, v in zip(L, vs)}
        if not all(g(env) for g in guards): continue
        r = [c(env) for c in fast]
        named = {l.name: v[1] for l, v in zip(L, vs)}
        r = [v if isinstance(v, bool) else Q(v) / SCALE for v in r]
        if not pred(named, r): return named, r
    return True if exact else None

def relevant(extra, xs):
    """the path conditions about the same letters (at most four letters in all)"""
    L = set(letters_in(xs)); out = []
    for f in sorted((f for f in extra if f.op != 'T'), key=lambda f: len(letters_in([f]))):
        g = set(letters_in([f]))
        if g & L and len(g | L) <= 4: out.append(f); L |= g
    return out

def satisfiable(fs, known):
    rel_ = [f for f in fs if f not in known.fs]
    L = letters_in(rel_)
    if not L: return {}
    if len(L) > 4: return None
    x = decide(rel_, rel_, lambda env, r: not all(r))
    if x is True: return False
    if x is None:
        return None
    return x[0]

def once(g, k):
    def f(env):
        r = env.get(k)
        if r is None: r = env[k] = g(env)
        return r
    return f

def compile_(x):
    """evaluator of a case expression over letters, or None"""
    if isinstance(x, F):
        if x.op in ('T', 'F'): return lambda env, v=x.op == 'T': v
        if x.op == 'not':
            c = compile_(x.a[0]); return None if c is None else lambda env: not c(env)
        if x.op in ('and', 'or'):
            cs = [compile_(y) for y in x.a]
            if any(c is None for c in cs): return None
            return (lambda env: all(c(env) for c in cs)) if x.op == 'and' else (lambda env: any(c(env) for c in cs))
        if x.op in ('lt', 'le', 'eq'):
            c = compile_(x.a[0])
            if c is None: return None
            return (lambda env: c(env) < 0) if x.op == 'lt' else (lambda env: c(env) <= 0) if x.op == 'le' else (lambda env: c(env) == 0)
        return None
    terms = []
    for m, c in x.t.items():
        fs = []; values = 0
        for a, e_ in m:
            a = alg._list[a]
            if e_ < 1: return None
            if a.kind == 'ind':
                g = compile_(a.args[0])
            else:
                values += e_
                if a.kind == 'v': g = (lambda env, i=a.id: env[i])
                elif a.kind == 'def': g = compile_(a.args[0])
                elif a.kind in ('maxof', 'minof'):
                    hs = [compile_(y) for y in (a.args[0] if isinstance(a.args[0], tuple) else a.args)]
                    mm = max if a.kind == 'maxof' else min
                    g = None if not hs or any(h is None for h in hs) else (lambda env, hs=hs, mm=mm: mm(h(env) for h in hs))
                else: return None
            if g is None: return None
            if a.kind != 'v': g = once(g, ('c', a.id))
            fs.append(g)
        if values > 1: return None
        # everything is scaled by S so that the arithmetic is on integers
        c = Q(c) if values else Q(c) * SCALE
        terms.append((int(c) if c.denominator == 1 else c, fs))
    def ev(env):
        s = 0
        for c, fs in terms:
            t = c
            for g in fs:
                t = t * g(env)
                if not t: break
            s += t
        return s
    return ev

# --------------------------------------------------------------- presets
def presets(ck, P, S, f, w, fields, start):
    h = S.h; e = h.e
    for l in live(S):
        vals(ck, e, 'the initial options', where_fn(P, S.cls + '::' + simple(S.cls)), {k: start.mem.get(l + (k,)) for k in fields})
    for name in ('DefaultOptions', 'ReliableOptions'):
        fs = h.functions(S.cls + '::' + name)
        if not fs: ck.undecided('presets', S.cls, 'no %s' % name); continue
        g = fs[0]
        wg = '%s:%s %s' % (rel(g['file']), g['l'], g['n'])
        for st, v in h.invoke(g, None, [], start.copy()):
            loc = v.loc if isinstance(v, (Obj, SLoc)) else None
            if loc is None: ck.undecided('presets', wg, 'returned %r' % (v,)); continue
            vals(ck, e, name, wg, {k: st.mem.get(loc + (k,)) for k in fields})

    # on options that hold other values already
    for name in ('DefaultParameters', 'ReliableParameters'):
        fs = h.functions('fbstab::AlgorithmParameters::' + name)
        if len(fs) != 1: ck.undecided('presets', 'AlgorithmParameters', 'no %s' % name); continue
        g = fs[0]
        loc = ('L', '<check>', 'used' + name); st = start.copy()
        st.mem[loc] = Obj(loc, 'fbstab::AlgorithmParameters')
        for k in fields: st.mem[loc + (k,)] = fatom(atom('v', 'used ' + k, name='the earlier ' + k)) if k in OPTS_BOOL else poly(atom('v', 'used ' + k, name='the earlier ' + k, isint=k in OPTS_INT or k == 'display_level'))
        for st, v in h.invoke(g, loc, [], st): vals(ck, e, '%s() on used options' % name, '%s:%s %s' % (rel(g['file']), g['l'], g['n']), {k: st.mem.get(loc + (k,)) for k in fields})

def vals(ck, e, what, w, V):
    c = {}
    for k, v in V.items():
        if k in OPTS_BOOL:
            ck.put('presets', w, None if not isinstance(v, (F, bool)) else not (isinstance(v, F) and v.op not in ('T', 'F')), '%s of %s is set' % (k, what), '%s of %s is %s' % (k, what, v)); continue
        try: x = e.num(v).const()
        except Exception: x = None
        if x is None: ck.bad('presets', w, '%s of %s is not a constant: %s' % (k, what, str(v)[:80])); continue
        c[k] = Q(x)
        if k in RANGE:
            lo, hi = RANGE[k]
            ck.put('presets', w, bool(c[k] >= lo and (hi is None or c[k] <= hi)), '%s of %s is admissible' % (k, what), '%s of %s is %s, outside [%s, %s]' % (k, what, float(c[k]), float(lo), float(hi) if hi is not None else 'inf'))
    for a, b in ORDER:
        if a in c and b in c: ck.put('presets', w, c[a] <= c[b], '%s: %s <= %s' % (what, a, b), '%s of %s exceeds %s' % (a, what, b))

# ----------------------------------------------------------------- solves
def solve(ck, P, R):
    names = {a.id for v in R.S.opt.values() if isinstance(v, Poly) for a in v.atoms()}
    ops = {literals(v)[0] for v in R.S.opt.values() if isinstance(v, F) and v.op not in ('T', 'F')}
    n = 0
    base = R.st0.facts
    for ev in R.e.events:
        if ev.kind not in ('throw', 'abort'): continue
        n += 1
        fs = [f for f in ev.facts.fs if f not in base.fs]
        g = fs[-1] if fs else None
        at = set()
        if g is not None: collect(g, at, set())
        if g is not None and any(l.op == 'b' and l.a[0].kind in ('init_ok', 'solve_ok') for l in literals(g)): continue
        if g is not None and (at & names or set(literals(g)) & ops):
            ck.bad('solve-never-throws', where_ev(ev), 'a solve with admissible options throws (%s) when %s' % (str(ev.msg)[:120], str(g)[:200]))
    ck.ok('solve-never-throws', R.where, '%d reachable throws, none because of an option (%s)' % (n, R.label))
