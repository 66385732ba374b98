"""Inconsistent inputs are rejected, and only those, before anything is computed."""
from algo import *
from c15 import memory, diff, names
import itertools

SPEC = dict(
    construct='constructors return only for positive (for equalities: non-negative) dimensions, and never throw for those',
    null='constructors and operations given a null component, data block or output never return',
    data='data objects are made exactly of blocks that conform with each other',
    solve='the algorithm is entered only with data and a guess that match the dimensions of the solver, and whenever they do',
    untouched='where a solve rejects its inputs the guess and the data hold what they held before',
    unlinked='operations that need problem data never return before data are linked',
    sizes='operations that document it return only for operands of matching sizes and positive regularization, and never throw for those')

def run(ck, P):
    for r, t in SPEC.items(): ck.rule(r, t, dict(construct=20, null=8, data=20, solve=12, untouched=2, unlinked=6, sizes=20)[r])
    deep = ck.tier == 'thorough'
    for fn in (dense_ctors, mpc_ctors, sequences, dense_ctor3): ck.attempt('construct', fn.__name__, fn, ck, P)
    ck.attempt('null', 'FBstabAlgorithm', null_components, ck, P)
    for kind in ('dense', 'mpc'):
        for m in (False, True): ck.attempt('data', '%s data, mapped=%s' % (kind, m), data_ctor, ck, P, kind, m)
    ck.attempt('null', 'DenseData', null_blocks, ck, P)
    for kind, N in (('dense', 0), ('mpc', 1)) + ((('mpc', 2), ('mpc', 3)) if deep else ()):
        for rd, rv in itertools.product((False, True), repeat=2):
            if rd != rv and not deep: continue
            for s in (True, False): ck.attempt('solve', 'FBstab%s::Solve' % kind.capitalize(), solve, ck, P, kind, N, rd, rv, s)
    for kind in ('dense', 'mpc'):
        ck.attempt('unlinked', kind, unlinked, ck, P, kind)
        for N in (1, 2) if kind == 'mpc' and deep else (1,): ck.attempt('sizes', kind, sizes, ck, P, kind, N)
    for N in (1, 2, 3) if deep else (1,): ck.attempt('sizes', 'MpcData products', product_sizes, ck, P, N)

# ------------------------------------------------------------------ deciding
def ival(p, v):
    r = 0
    for m, c in p.t.items():
        t = c
        for a, k in m:
            if a not in v: raise KeyError(a)
            t *= v[a] ** k
        r += t
    return r
HOLDS = {'lt': lambda x: x < 0, 'le': lambda x: x <= 0, 'eq': lambda x: x == 0}

def true_at(f, v):
    """truth of a condition at concrete sizes; None when it involves other quantities"""
    o = f.op
    if o == 'T': return True
    if o == 'F': return False
    if o in HOLDS:
        try: return HOLDS[o](ival(f.a[0], v))
        except (KeyError, TypeError): return None
    if o == 'not':
        r = true_at(f.a[0], v)
        return None if r is None else not r
    if o in ('and', 'or'):
        rs = [true_at(g, v) for g in f.a]
        if o == 'and': return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    return None

def eliminate(fs):
    """substitution given by the equalities among fs"""
    mp = {}; fs = list(fs)
    again = True
    while again:
        again = False
        for f in fs:
            if f.op != 'eq': continue
            p = f.a[0]
            a = next((a for a in p.atoms() if a.kind == 'v' and abs(p.t.get(((a.id, 1),), 0)) == 1 and sum(any(i == a.id for i, _ in m) for m in p.t) == 1), None)
            if a is None: continue
            c = p.t[((a.id, 1),)]
            rhs = (poly(a) * c - p) * c
            s = Subst({a.id: rhs})
            mp = {k: s.poly(x) for k, x in mp.items()}; mp[a.id] = rhs
            fs = [s.f(g) for g in fs]
            again = True; break
    return mp, fs

class Spec:
    """admissible inputs of one call: dims name -> quantity, valid: the conditions they must meet,
    conform: concrete admissible sizes"""
    def __init__(self, dims, valid, conform, given=()):
        self.given = list(given)
        self.dims = {k: poly(p) for k, p in dims.items()}; self.valid = list(valid)
        self.ids = {k: p.atoms()[0].id for k, p in self.dims.items()} if all(len(list(p.atoms())) == 1 for p in self.dims.values()) else None
        if self.ids is None: raise Broken('dimension is not a plain quantity')
        self.good = []; self.others = []
        seen = set()
        for b in conform:
            self.take(b, seen)
        for b in list(self.good)[:4]:
            ks = list(b)
            for k in ks:
                for d in (b[k] + 1, b[k] - 1, 0, -1, 2 * b[k]): self.take(dict(b, **{k: d}), seen)
            for i, k in enumerate(ks):
                for l in ks[:i]:
                    for x, y in ((b[k] + 1, b[l] + 1), (b[k] - 1, b[l] - 1), (b[k] + 1, b[l] - 1), (b[k] - 1, b[l] + 1), (b[l], b[k])): self.take(dict(b, **{k: x, l: y}), seen)
    def at(self, b): return {self.ids[k]: x for k, x in b.items()}
    def take(self, b, seen):
        k = tuple(sorted(b.items()))
        if k in seen: return
        seen.add(k)
        v = self.at(b)
        (self.good if all(true_at(c, v) for c in self.valid) else self.others).append(b)
    def find(self, fs, cands):
        for b in cands:
            v = self.at(b); open_ = []
            ok = True
            for f in fs:
                r = true_at(f, v)
                if r is False: ok = False; break
                if r is None: open_.append(f)
            if ok and (not open_ or self.possible(open_, v)): return ', '.join('%s = %s' % kv for kv in b.items())
        return None
    def possible(self, fs, v):
        """the conditions left over speak about other counters; they can hold"""
        top = max([3] + [x for x in v.values()]) + 2
        groups = []
        for f in fs:
            at = {}
            for x in literals(f):
                if x.op not in HOLDS: return False
                for a in x.a[0].atoms():
                    if a.id not in v: at[a.id] = a
            if any(not a.isint or any(isinstance(y, (Poly, Sym, F, Mat)) for y in a.args) for a in at.values()): return False
            near = [g for g in groups if set(g[0]) & set(at)]
            for g in near: groups.remove(g)
            new = (dict(at), [f])
            for g in near: new[0].update(g[0]); new[1].extend(g[1])
            groups.append(new)
        for at, gs in groups:
            if len(at) > 2: return False
            if not any(all(true_at(f, {**v, **dict(zip(at, vs))}) for f in gs) for vs in itertools.product(range(-1, top), repeat=len(at))): return False
        return True
    def assignments(self, fs, most=20000):
        """small sizes that meet the equalities among fs"""
        mp, _ = eliminate(fs)
        name = {i: k for k, i in self.ids.items()}
        free = [k for k, i in self.ids.items() if i not in mp]
        mine = [k for k in free if any(any(a.id == self.ids[k] for a in p.atoms()) for i, p in mp.items() if i in name)]
        loose = [k for k in free if k not in mine]
        if len(mine) > 12: return
        for top in (5, 4, 3, 2):
            if (top + 1) ** len(mine) <= most: break
        else: top = 1
        if (top + 1) ** len(mine) > most: return
        for vs in itertools.product(range(top + 1), repeat=len(mine)):
            v = {self.ids[k]: x for k, x in zip(mine, vs)}
            for k in loose: v[self.ids[k]] = 1
            ok = True
            for i, p in mp.items():
                if i not in name: continue
                try: v[i] = ival(p, v)
                except KeyError: ok = False; break
            if ok: yield {k: v[i] for k, i in self.ids.items()}

def accepts(ck, rule, where, facts, S, what):
    """where this is reached the inputs are admissible"""
    mp, rest = eliminate(facts.fs)
    s = Subst(mp); fx = Facts()
    for g in rest: fx = fx.add(g)
    left = [c for c in S.valid if fx.decide(s.f(c)) is not True and facts.decide(c) is not True]
    if not left: ck.ok(rule, where, '%s only for admissible inputs (%d conditions)' % (what, len(S.valid))); return
    w = S.find(facts.fs, S.others)
    if not w: w = S.find(facts.fs, (b for b in S.assignments(facts.fs) if not all(true_at(c, S.at(b)) for c in S.valid)))
    if w: ck.bad(rule, where, '%s although the inputs are not admissible, e.g. %s' % (what, w))
    else:
        ck.undecided(rule, where, '%s: not known to imply %s' % (what, left[0]))

def rejects(ck, rule, where, facts, S, what):
    """where this throws the inputs are not admissible"""
    mp, rest = eliminate(S.valid + S.given)
    s = Subst(mp)
    base = Facts()
    for g in rest: base = base.add(g)
    gs = [s.f(f) for f in facts.fs]
    if any(g.op == 'F' for g in gs): ck.ok(rule, where, 'throws only for inadmissible inputs'); return
    full = base
    for g in gs: full = full.add(g)
    for g in gs + rest:
        oth = Facts()
        for k in rest + gs:
            if k is not g: oth = oth.add(k)
        if oth.decide(g) is False: ck.ok(rule, where, 'throws only for inadmissible inputs'); return
    w = S.find(facts.fs, S.good)
    if w: ck.bad(rule, where, '%s is rejected although the inputs are admissible, e.g. %s' % (what, w))
    else: ck.undecided(rule, where, '%s: not known to be inadmissible where it throws' % what)

def judge(ck, rule, where, e, n0, states, S, what, label=''):
    """one call: its normal outcomes and its throws"""
    ck.saw(e)
    for st in states: accepts(ck, rule, where, st.facts, S, what)
    for ev in e.events[n0:]:
        at = '%s:%s %s%s' % (rel(ev.file), ev.line, ev.fn, label)
        if ev.kind == 'throw': rejects(ck, rule, at, ev.facts, S, what)
        elif ev.kind == 'abort': ck.bad(rule, at, '%s: the program is ended (%s) instead of an exception being thrown' % (what, ev.msg))
    if not states: 
        ck.undecided(rule, where, 'never returns')

def never(ck, rule, where, e, n0, states, what):
    ck.saw(e)
    if any(ev.kind == 'abort' for ev in e.events[n0:]): ck.bad(rule, where, '%s: the program is ended instead of an exception being thrown' % what); return
    nul = next((ev for ev in e.events[n0:] if ev.kind == 'null'), None)
    if nul: ck.bad(rule, where, '%s: the null pointer is dereferenced at %s:%s' % (what, rel(nul.file), nul.line)); return
    thrown = sum(ev.kind == 'throw' for ev in e.events[n0:])
    if states: ck.bad(rule, where, '%s is not rejected' % what)
    elif thrown: ck.ok(rule, where, '%s is rejected' % what)
    else: ck.undecided(rule, where, '%s: neither returns nor throws' % what)

def grid(names_, *ranges): return [dict(zip(names_, v)) for v in itertools.product(*ranges)]

# -------------------------------------------------------------- constructors
def ctor(ck, P, cls, names_, los, pred=None, wrap=None, rule='construct', fixed=()):
    h = Harness(P); e = h.e
    fixed = dict(fixed)
    args = [poly(fixed[n]) if n in fixed else h.int(n, None) for n in names_]
    good = all(fixed[n] >= lo for n, lo in zip(names_, los) if n in fixed)
    q = {n: a for n, a in zip(names_, args) if n not in fixed}; los = [lo for n, lo in zip(names_, los) if n not in fixed]; what = 'constructing %s(%s)' % (simple(cls), ', '.join(names_))
    if fixed: what += ' with ' + ', '.join('%s = %s' % k for k in fixed.items())
    names_ = list(q)
    if wrap: args = wrap(h, args)
    S = Spec(q, [le(poly(lo), q[n]) for n, lo in zip(names_, los)], [dict(zip(names_, v)) for v in [tuple(los), tuple(l + 1 for l in los), tuple(range(2, 2 + len(los)))]] +
             [dict(zip(names_, [l + (2 if i == j else 0) for j, l in enumerate(los)])) for i in range(len(los))])
    n0 = len(e.events)
    rs = h.new(cls, 'o', args, pred=pred)
    w = where_fn(P, cls + '::' + simple(cls), lambda f: pred is None or pred(f))
    if not good: never(ck, rule, w, e, n0, rs, what); return
    judge(ck, rule, w, e, n0, [s for s, _ in rs], S, what)

def ints(n): return lambda f: len(f['p']) == n and all(base_type(p['t']) == 'int' for p in f['p'])
def dense_ctors(ck, P): ctor(ck, P, 'fbstab::FBstabDense', ['nz', 'nl', 'nv'], [1, 0, 1], ints(3))
def dense_ctor3(ck, P):
    for c in ('FullVariable', 'FullResidual', 'FullFeasibility', 'DenseCholeskySolver'):
        ck.attempt('construct', c, ctor, ck, P, 'fbstab::' + c, ['nz', 'nl', 'nv'], [1, 0, 1], ints(3))
def vector4(h, args):
    """a vector of four entries"""
    return [h.ref(h.var('sizes', FArr(args, True)))]
HORIZONS = (-2, -1, 0, 1, 2, 3)
def mpc_ctors(ck, P):
    names_ = ['N', 'nx', 'nu', 'nc']; lo = [1, 1, 1, 1]
    for c in ('FBstabMpc', 'RiccatiLinearSolver'):
        for N in HORIZONS: ck.attempt('construct', c, ctor, ck, P, 'fbstab::' + c, names_, lo, ints(4), None, 'construct', {'N': N})
    for N in HORIZONS: ck.attempt('construct', 'FBstabMpc(Vector4d)', ctor, ck, P, 'fbstab::FBstabMpc', names_, lo, lambda f: len(f['p']) == 1 and 'Matrix' in f['p'][0]['t'], vector4, 'construct', {'N': N})

def sequences(ck, P):
    ctor(ck, P, 'fbstab::MatrixSequence', ['length', 'rows', 'cols'], [0, 1, 1], ints(3))
    h = Harness(P)
    from c16 import Seq, EPtr0
    q = Seq(P); h = q.h; e = h.e
    base = e.st.copy()
    # a sequence over memory of the caller
    n = {k: h.int('m' + k, None) for k in ('length', 'rows', 'cols')}
    S = Spec(n, [le(ONE, n[k]) for k in n], grid(list(n), (1, 2), (1, 3), (1, 2)))
    n0 = len(e.events)
    rs = h.new('fbstab::MapMatrixSequence', 'mm', [EPtr0(h, q), n['length'], n['rows'], n['cols']])
    w = where_fn(P, 'fbstab::MapMatrixSequence::MapMatrixSequence')
    judge(ck, 'construct', w, e, n0, [s for s, _ in rs], S, 'mapping memory as a sequence')
    e.st = base.copy()
    for k in n: h.fact(le(ONE, n[k]))
    n0 = len(e.events)
    rs = h.new('fbstab::MapMatrixSequence', 'mn', [Ptr(None), n['length'], n['rows'], n['cols']])
    never(ck, 'null', w, e, n0, [s for s, _ in rs], 'mapping null memory as a sequence')
    # indexing
    e.st = base.copy()
    L, r, c, k = h.int('len', 0), h.int('r'), h.int('c'), h.int('stage', None)
    s = h.new1('fbstab::MatrixSequence', 'indexed', [L, r, c])
    mm = h.new1('fbstab::MapMatrixSequence', 'mapindexed', [h.ref(s)], pred=lambda f: 'MatrixSequence' in f['p'][0]['t'] and 'Map' not in f['p'][0]['t'])
    dims = dict(len=L, r=r, c=c, stage=k)
    S = Spec(dims, [le(ZERO, k), lt(k, L)], [dict(len=a, r=2, c=3, stage=i) for a in (1, 2, 3) for i in range(a)])
    st = e.st
    for o in (s, mm):
        cls = st.mem[o].cls
        for f in h.functions(cls + '::operator()', lambda f: len(f['p']) == 1):
            n0 = len(e.events)
            rs = h.invoke(f, o, [k], st.copy())
            judge(ck, 'construct', '%s:%s %s' % (rel(f['file']), f['l'], f['n']), e, n0, [x for x, _ in rs], S, 'indexing %s' % simple(cls))

def null_components(ck, P):
    for kind in ('dense', 'mpc'):
        h = Harness(P); e = h.e
        ls = 'DenseCholeskySolver' if kind == 'dense' else 'RiccatiLinearSolver'
        fs = [f for n in P.functions for f in [P.functions[n]] if f.get('ctor') and not f.get('copy') and f['n'].endswith('::FBstabAlgorithm') and f.get('body') is not None and ls in ' '.join(p['t'] for p in f['p'])] if isinstance(P.functions, dict) else \
             [f for f in P.functions if f.get('ctor') and not f.get('copy') and f['n'].startswith('fbstab::FBstabAlgorithm') and f.get('body') is not None and ls in ' '.join(p['t'] for p in f['p'])]
        if len(fs) != 1: ck.undecided('null', kind, '%d algorithm constructors' % len(fs)); continue
        f = fs[0]
        E = DenseEnv(P) if kind == 'dense' else MpcEnv(P, 1); h = E.h; e = h.e
        objs = []
        for i, p in enumerate(f['p']):
            c = base_type(p['t']).rstrip('*').strip()
            c = c if c.startswith('fbstab::') else 'fbstab::' + c
            args = [poly(1), E.nx, E.nu, E.nc] if c.endswith('RiccatiLinearSolver') else [E.nz, E.nl, E.nv]
            objs.append(h.new1(c, 'comp%d' % i, args))
        st0 = e.st.copy()
        cls = f.get('cls') or f['n'].rsplit('::', 1)[0]
        w = '%s:%s %s (%s)' % (rel(f['file']), f['l'], simple(f['n']), kind)
        n0 = len(e.events)
        rs = h.invoke(f, ('L', '<check>', 'algo'), [Ptr(o) for o in objs], st0.copy(), ctor_cls=cls)
        th = [ev for ev in e.events[n0:] if ev.kind == 'throw']
        ck.put('null', w, bool(rs) and not th, 'eight components are accepted', 'the algorithm rejects eight valid components')
        for i, p in enumerate(f['p']):
            n0 = len(e.events)
            rs = h.invoke(f, ('L', '<check>', 'algo%d' % i), [Ptr(None) if j == i else Ptr(o) for j, o in enumerate(objs)], st0.copy(), ctor_cls=cls)
            never(ck, 'null', w, e, n0, rs, 'constructing the algorithm with a null %s' % p['n'])

# ----------------------------------------------------------------- data objects
def dense_blocks(h):
    q = {}
    for k in 'HGA': q[k + '.rows'], q[k + '.cols'] = h.int(k + '.rows', 0), h.int(k + '.cols', 0)
    for k in 'fhb': q[k + '.size'] = h.int(k + '.size', 0)
    return q
def dense_conform(nz, nl, nv): return {'H.rows': nz, 'H.cols': nz, 'G.rows': nl, 'G.cols': nz, 'A.rows': nv, 'A.cols': nz, 'f.size': nz, 'h.size': nl, 'b.size': nv}
def mpc_blocks(h):
    q = {}
    for k in MPC_SEQ: q[k + '.length'], q[k + '.rows'], q[k + '.cols'] = h.int(k + '.length', 0), h.int(k + '.rows'), h.int(k + '.cols')
    q['x0.size'] = h.int('x0.size', 0)
    return q
def mpc_conform(N, nx, nu, nc):
    d = {}
    for k, (n, r, c) in mpc_dims(N, nx, nu, nc).items(): d[k + '.length'], d[k + '.rows'], d[k + '.cols'] = n, r, c
    d['x0.size'] = nx
    return d
def matches(q, want): return [eq(q[k], poly(want[k])) for k in q if k in want and not (poly(q[k]) - poly(want[k])).const() == 0]

def data_ctor(ck, P, kind, mapped):
    h = Harness(P); e = h.e
    if kind == 'dense':
        cls = 'fbstab::DenseData'; q = dense_blocks(h); nz, nl, nv = q['f.size'], q['h.size'], q['b.size']
        S = Spec(q, matches(q, dense_conform(nz, nl, nv)), [dense_conform(*v) for v in ((2, 1, 3), (3, 0, 1), (1, 1, 1), (2, 3, 5), (1, 0, 1), (4, 2, 2))])
        src = {k: h.matrix(k, q[k + '.rows'], q[k + '.cols']) for k in 'HGA'}
        src.update({k: h.vec(k, q[k + '.size']) for k in 'fhb'})
        f = h.one('fbstab::DenseData::DenseData', lambda F: F.get('ctor') and not F.get('copy') and len(F['p']) == 6 and ('Map' in F['p'][0]['t']) == mapped)
        if mapped: src = {k: h.var('map of ' + k, Ref(e.lval(l))) for k, l in src.items()}
    else:
        cls = 'fbstab::MpcData'; q = mpc_blocks(h)
        N, nx, nu, nc = q['Q.length'] - 1, q['Q.rows'], q['R.rows'], q['E.rows']
        ret = Spec(q, matches(q, mpc_conform(N, nx, nu, nc)) + [le(ONE, q['Q.length'])], [mpc_conform(*v) for v in ((2, 3, 1, 2), (1, 1, 1, 1), (3, 2, 4, 5), (1, 2, 3, 4))])
        S = Spec(q, matches(q, mpc_conform(N, nx, nu, nc)) + [le(ONE, N)], [mpc_conform(*v) for v in ((2, 3, 1, 2), (1, 1, 1, 1), (3, 2, 4, 5), (1, 2, 3, 4), (2, 1, 1, 2), (5, 1, 1, 1))])
        S.ret = ret
        src = {k: h.new1('fbstab::MatrixSequence', 's' + k, [q[k + '.length'], q[k + '.rows'], q[k + '.cols']]) for k in MPC_SEQ}
        src['x0'] = h.vec('x0', q['x0.size'])
        f = h.one('fbstab::MpcData::MpcData', lambda F: F.get('ctor') and not F.get('copy') and len(F['p']) == 12 and ('MapMatrix' in F['p'][0]['t']) == mapped)
        if mapped:
            for k in MPC_SEQ: src[k] = h.new1('fbstab::MapMatrixSequence', 'map of ' + k, [h.ref(src[k])], pred=lambda f: 'Map' not in f['p'][0]['t'])
            src['x0'] = h.var('map of x0', Ref(e.lval(src['x0'])))
    n0 = len(e.events)
    w = '%s:%s %s (%s)' % (rel(f['file']), f['l'], simple(f['n']), 'mapped' if mapped else 'owned')
    rs = h.new(cls, 'D', [Ptr(src[k]) for k in parts(f)], pred=lambda F: F is f)
    ck.saw(e)
    for s, _ in rs: accepts(ck, 'data', w, s.facts, getattr(S, 'ret', S), 'making %s' % simple(cls))
    for ev in e.events[n0:]:
        at = '%s:%s %s (%s)' % (rel(ev.file), ev.line, ev.fn, 'mapped' if mapped else 'owned')
        if ev.kind == 'throw': rejects(ck, 'data', at, ev.facts, S, 'making %s' % simple(cls))
        elif ev.kind == 'abort': ck.bad('data', at, 'the program is ended instead of an exception being thrown')
    if not rs: ck.undecided('data', w, 'never returns')

def null_blocks(ck, P):
    for mapped in (False, True):
        h = Harness(P); e = h.e
        nz, nl, nv = h.int('nz'), h.int('nl', 0), h.int('nv')
        L = {k: h.matrix(k, *d) for k, d in dict(H=(nz, nz), G=(nl, nz), A=(nv, nz)).items()}
        L.update({k: h.vec(k, n) for k, n in dict(f=nz, h=nl, b=nv).items()})
        f = h.one('fbstab::DenseData::DenseData', lambda F: F.get('ctor') and not F.get('copy') and len(F['p']) == 6 and ('Map' in F['p'][0]['t']) == mapped)
        if mapped: L = {k: h.var('map of ' + k, Ref(e.lval(l))) for k, l in L.items()}
        w = '%s:%s %s' % (rel(f['file']), f['l'], simple(f['n']))
        st0 = e.st.copy()
        for i, p in enumerate(f['p']):
            e.st = st0.copy(); n0 = len(e.events)
            rs = h.new('fbstab::DenseData', 'D%d' % i, [Ptr(None if j == i else L[k]) for j, k in enumerate(parts(f))], pred=lambda F: F is f)
            never(ck, 'null', w, e, n0, rs, 'making DenseData with a null %s' % p['n'])

# --------------------------------------------------------------------- solves
class Loose(Setup):
    """a solver with its dimensions, problem data and a guess of any sizes"""
    def make_data(self, ref):
        h = self.h; e = h.e
        if self.kind == 'dense':
            q = self.q = dense_blocks(h)
            self.owner = self.data = h.new1(self.cls + '::ProblemData', 'qp', [self.nz, self.nl, self.nv])
            for k in 'HGA': h.mem[self.data + (k,)] = Arr(q[k + '.rows'], q[k + '.cols'], h.letter(k, q[k + '.rows'], q[k + '.cols']))
            for k in 'fhb': h.mem[self.data + (k,)] = Arr(q[k + '.size'], ONE, h.letter(k, q[k + '.size'], 1), (), True)
            if ref:
                f = h.one(self.cls + '::ProblemDataRef::ProblemDataRef', lambda f: f.get('ctor') and not f.get('copy') and len(f['p']) == 6)
                self.data = h.new1(self.cls + '::ProblemDataRef', 'qpref', [Ptr(h.var('map' + k, Ref(e.lval(self.owner + (k,))))) for k in parts(f)])
        else:
            q = self.q = mpc_blocks(h)
            self.owner = self.data = h.var('qp', Obj(('L', '<check>', 'qp'), self.cls + '::ProblemData'))
            for k in MPC_SEQ: h.new1('fbstab::MatrixSequence', None, [q[k + '.length'], q[k + '.rows'], q[k + '.cols']], loc=self.data + (k,))
            h.mem[self.data + ('x0',)] = Arr(q['x0.size'], ONE, h.letter('x0', q['x0.size'], 1), (), True)
            if ref:
                f = h.one(self.cls + '::ProblemDataRef::ProblemDataRef', lambda f: f.get('ctor') and not f.get('copy') and len(f['p']) == 12)
                self.data = h.new1(self.cls + '::ProblemDataRef', 'qpref', [Ptr(self.owner + (k,)) for k in parts(f)])
    def make_var(self, ref):
        h = self.h; q = self.q
        for k in 'zlvy': q['guess ' + k] = h.int('guess ' + k, 0)
        keep = self.nz, self.nl, self.nv
        self.x = h.new1(self.cls + '::Variable', 'x', self.ctor_args)
        self.xf = {}
        for k in 'zlvy':
            n = q['guess ' + k]
            self.xf[k] = self.x + (k,); h.mem[self.xf[k]] = Arr(n, ONE, h.letter(k + '0', n, 1), (), True)
        if ref:
            f = h.one(self.cls + '::VariableRef::VariableRef', lambda f: f.get('ctor') and not f.get('copy') and len(f['p']) == 4)
            ps = []
            for p, k in zip(f['p'], parts(f)):
                m = Ref(h.e.lval(self.xf[k]))
                ps.append(m if not p['t'].rstrip().endswith('*') else Ptr(h.var('map' + k, m)))
            self.x = h.new1(self.cls + '::VariableRef', 'xref', ps)

def solve(ck, P, kind, N, rd, rv, stream):
    L = Loose(P, kind, N=N, ref_data=rd, ref_var=rv, stream=stream, opts=False); h, e, q = L.h, L.e if hasattr(L, 'e') else L.h.e, L.q
    label = ' (%s, data %s, guess %s%s)' % (kind if kind == 'dense' else 'mpc N=%d' % N, 'mapped' if rd else 'owned', 'mapped' if rv else 'owned', '' if stream else ', standard output')
    if kind == 'dense':
        own = dict(zip(('nz', 'nl', 'nv'), L.ctor_args))
        def form(nz, nl, nv): return dict(dense_conform(nz, nl, nv), **{'guess z': nz, 'guess l': nl, 'guess v': nv, 'guess y': nv})
        sets = [(2, 1, 3), (3, 0, 1), (1, 1, 1), (2, 3, 5), (1, 0, 1)]
        want = form(*L.ctor_args)
    else:
        own = dict(zip(('nx', 'nu', 'nc'), L.ctor_args[1:]))
        def form(nx, nu, nc): return dict(mpc_conform(N, nx, nu, nc), **{'guess z': (nx + nu) * (N + 1), 'guess l': nx * (N + 1), 'guess v': nc * (N + 1), 'guess y': nc * (N + 1)})
        sets = [(3, 1, 2), (1, 1, 1), (2, 4, 3), (1, 2, 2)]
        want = form(*L.ctor_args[1:])
    dims = dict(own, **q)
    S = Spec(dims, matches(q, want), [dict(zip(own, s), **form(*s)) for s in sets])
    entered = []
    def hook(e, fr, n): entered.append(e.st.copy()); raise Dead()
    names_ = {f['n'] for f in allf(P) if re.match(r'fbstab::FBstabAlgorithm(<.*>)?::Solve$', f['n'])}
    if not names_: ck.undecided('solve', label, 'no algorithm entry'); return
    for n in names_: e.hooks[n] = hook
    st0 = e.st.copy()
    keep = memory(st0.mem, [L.owner, L.data, L.x])
    n0 = len(e.events)
    f = L.solve_fn()
    w = '%s:%s %s%s' % (rel(f['file']), f['l'], f['n'], label)
    rs = L.solve(st0.copy())
    ck.saw(e)
    for st in entered: accepts(ck, 'solve', w, st.facts, S, 'the algorithm is entered')
    for st, _ in rs: accepts(ck, 'solve', w, st.facts, S, 'the solve returns')
    if not entered and not rs: ck.bad('solve', w, 'the algorithm is never entered')
    for ev in e.events[n0:]:
        at = '%s:%s %s%s' % (rel(ev.file), ev.line, ev.fn, label)
        if ev.kind == 'throw':
            rejects(ck, 'solve', at, ev.facts, S, 'the problem')
            if ev.st is None: continue
            d = diff(e, keep, ev.st)
            ck.put('untouched', at, not d, '%d locations are unchanged' % len(keep), 'where the inputs are rejected %s has been changed' % names(e, d))
        elif ev.kind == 'abort': ck.bad('solve', at, 'the program is ended instead of an exception being thrown')
def allf(P): return P.functions.values() if isinstance(P.functions, dict) else P.functions

# ----------------------------------------------------------------- components
OPS = {'FullVariable': [('Fill', 'a'), ('InitializeConstraintMargin', ''), ('axpy', 'ax')],
       'FullResidual': [('InnerResidual', 'xws'), ('NaturalResidual', 'x'), ('PenalizedNaturalResidual', 'x')],
       'FullFeasibility': [('CheckFeasibility', 'xt')]}
def solver_of(kind): return 'DenseCholeskySolver' if kind == 'dense' else 'RiccatiLinearSolver'

def unlinked(ck, P, kind):
    E = DenseEnv(P) if kind == 'dense' else MpcEnv(P, 1); h = E.h; e = h.e
    x, w, d, r = E.comp('FullVariable', 'vx'), E.comp('FullVariable', 'vw'), E.comp('FullVariable', 'vd'), E.comp('FullResidual', 'res')
    E.link(x, w, d, r)
    val = dict(a=h.real('a'), x=h.ref(x), w=h.ref(w), s=h.real('sg', '>0'), t=h.real('tol', '>0'), r=h.ref(r), d=Ptr(d))
    args = [E.nz, E.nl, E.nv]
    cs = [(c, c, args, ops) for c, ops in OPS.items()] if kind == 'dense' else []
    cs.append((solver_of(kind), 'ls', args if kind == 'dense' else [poly(1), E.nx, E.nu, E.nc], [('Initialize', 'xws'), ('Solve', 'rd')]))
    for c, nm, a, ops in cs:
        o = E.comp(c, 'bare' + nm, a); st = e.st
        for m, ps in ops:
            def go():
                n0 = len(e.events)
                rs = h.call(o, m, [val[p] for p in ps], st.copy())
                never(ck, 'unlinked', where_fn(P, 'fbstab::%s::%s' % (c, m)), e, n0, rs, '%s::%s before data are linked' % (c, m))
            ck.attempt('unlinked', '%s::%s' % (c, m), go)

def sizes(ck, P, kind, N):
    """operands of any sizes"""
    E = DenseEnv(P) if kind == 'dense' else MpcEnv(P, N); h = E.h; e = h.e
    args = [E.nz, E.nl, E.nv]
    own = dict(nz=E.nz, nl=E.nl, nv=E.nv) if kind == 'dense' else dict(nx=E.nx, nu=E.nu, nc=E.nc)
    sets = [(2, 1, 3), (3, 0, 1), (1, 1, 1), (2, 3, 5)] if kind == 'dense' else [(3, 1, 2), (1, 1, 1), (2, 4, 3)]
    full_ = (lambda s: s) if kind == 'dense' else (lambda s: ((s[0] + s[1]) * (N + 1), s[0] * (N + 1), s[2] * (N + 1)))
    comps = {}
    dims = dict(own)
    for nm, cls in (('x', 'FullVariable'), ('xbar', 'FullVariable'), ('dx', 'FullVariable'), ('r', 'FullResidual')):
        n = {k: h.int('%s.%s' % (nm, k), lo) for k, lo in (('nz', 1), ('nl', 0), ('nv', 1))}
        dims.update({'%s.%s' % (nm, k): p for k, p in n.items()})
        comps[nm] = E.comp(cls, nm, list(n.values())); E.link(comps[nm])
    sg = h.real('sigma')
    dims['sigma'] = sg
    base = e.st.copy()
    def spec(ops, sigma):
        use = dict(own); valid = []; want = dict(zip(('nz', 'nl', 'nv'), args))
        for o in ops:
            for k in want: use['%s.%s' % (o, k)] = dims['%s.%s' % (o, k)]; valid.append(eq(dims['%s.%s' % (o, k)], want[k]))
        if sigma: use['sigma'] = sg; valid.append(fnot(le(sg, ZERO)))
        good = []
        for s in sets:
            b = dict(zip(own, s)); t = full_(s)
            for o in ops: b.update({'%s.%s' % (o, k): v for k, v in zip(('nz', 'nl', 'nv'), t)})
            if sigma: b['sigma'] = 1
            good.append(b)
        return Spec(use, valid, good, [lt(ZERO, sg)] if sigma else ())
    ls = solver_of(kind)
    todo = [(ls, 'Initialize', ('x', 'xbar'), True), (ls, 'Solve', ('r', 'dx'), False)]
    if kind == 'dense': todo += [('FullResidual', 'InnerResidual', ('x', 'xbar'), True), ('FullFeasibility', 'CheckFeasibility', ('x',), False)]
    for c, m, ops, sigma in todo:
        def go():
            e.st = base.copy()
            o = E.comp(c, 'tested' + c, args if c != 'RiccatiLinearSolver' else [poly(N), E.nx, E.nu, E.nc]); E.link(o)
            st = e.st
            a = [h.ref(comps[k]) if k != 'dx' else Ptr(comps[k]) for k in ops] + ([sg] if sigma else []) + ([h.real('tol', '>0')] if c == 'FullFeasibility' else [])
            w = where_fn(P, 'fbstab::%s::%s' % (c, m)) + (' (mpc N=%d)' % N if kind == 'mpc' else '')
            n0 = len(e.events)
            if m == 'Solve':
                from linear import Linear
                t = prepared(h, E, o, kind, N, st)
                rs = h.call(o, m, a, t)
            else: rs = h.call(o, m, a, st.copy())
            judge(ck, 'sizes', w, e, n0, [s for s, _ in rs], spec(ops, sigma), '%s::%s' % (c, m))
            if m == 'Solve':
                n0 = len(e.events)
                rs = h.call(o, m, [a[0], Ptr(None)], t.copy() if t is not None else st.copy())
                never(ck, 'null', w, e, n0, rs, '%s::Solve with a null step' % c)
        ck.attempt('sizes', '%s::%s' % (c, m), go)

def prepared(h, E, o, kind, N, st):
    """the linear solver after a factorization at points of its own size"""
    e = h.e; saved = e.st; e.st = st.copy()
    try:
        x, xb = E.comp('FullVariable', 'px'), E.comp('FullVariable', 'pxb'); E.link(x, xb); E.letters(x, '_px', 'zlvy'); E.letters(xb, '_pxb', 'zlvy')
        n0 = len(e.events)
        rs = h.call(o, 'Initialize', [h.ref(x), h.ref(xb), h.real('psigma', '>0')], e.st.copy())
        if not rs: raise Broken('Initialize never returns')
        return rs[0][0].copy()
    finally: e.st = saved

def product_sizes(ck, P, N):
    E = MpcEnv(P, N); h = E.h; e = h.e
    own = dict(nx=E.nx, nu=E.nu, nc=E.nc); base = e.st.copy()
    size = dict(z=lambda s: (s[0] + s[1]) * (N + 1), l=lambda s: s[0] * (N + 1), v=lambda s: s[2] * (N + 1))
    sym_ = (E.nx, E.nu, E.nc)
    prods = dict(gemvH='zz', gemvA='zv', gemvG='zl', gemvAT='vz', gemvGT='lz', axpyf='z', axpyh='l', axpyb='v')
    for m, t in prods.items():
        def go():
            e.st = base.copy()
            q = {}
            if len(t) == 2: q['x.size'] = h.int('x.size', 0)
            q['y.size'] = h.int('y.size', 0)
            want = dict(zip(q, [size[k](sym_) for k in t]))
            S = Spec(dict(own, **q), [eq(q[k], want[k]) for k in q], [dict(zip(own, s), **{k: size[u](s) for k, u in zip(q, t)}) for s in ((3, 1, 2), (1, 1, 1), (2, 4, 3))])
            a, b = h.real('a'), h.real('b')
            X = [h.ref(h.vec('x_' + m, q['x.size']))] if len(t) == 2 else []
            Y = h.vec('y_' + m, q['y.size']); st = e.st
            w = where_fn(P, 'fbstab::MpcData::' + m) + ' (mpc N=%d)' % N
            n0 = len(e.events)
            rs = h.call(E.D, m, X + [a] + ([b] if X else []) + [Ptr(Y)], st.copy())
            judge(ck, 'sizes', w, e, n0, [s for s, _ in rs], S, 'MpcData::' + m)
            n0 = len(e.events)
            rs = h.call(E.D, m, X + [a] + ([b] if X else []) + [Ptr(None)], st.copy())
            never(ck, 'null', w, e, n0, rs, 'MpcData::%s with a null output' % m)
        ck.attempt('sizes', 'MpcData::' + m, go)
