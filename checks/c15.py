"""Problem data are never modified and a failed solve leaves the guess intact."""
from graph import *
from linear import Linear, truth
from c08 import mpc_ops, scal

def run(ck, P):
    ck.rule('solve', 'at every exit and throw of a solve the caller\'s problem data hold what they held before', 10)
    ck.rule('guess', 'at every throw of a solve the caller\'s variable holds the guess', 2)
    ck.rule('construct', 'making references and data objects does not change the problem data', 3)
    ck.rule('products', 'no product or vector operation changes the problem data or its input', 16)
    ck.rule('linear', 'no factorization or linear solve changes the problem data, the residual or the points it is given', 4)
    ck.rule('options', 'UpdateOptions does not change the options it is given', 2)
    for kind, o in (THOROUGH if ck.tier == 'thorough' else QUICK + [('dense', dict(ref_data=True, ref_var=True)), ('mpc', dict(N=1))]):
        ck.attempt('solve', 'FBstab%s::Solve %s' % (kind.capitalize(), o or ''), solve, ck, P, kind, o)
    for kind in ('dense', 'mpc'):
        for ref in (False, True): ck.attempt('construct', kind, construct, ck, P, kind, ref)
        ck.attempt('options', kind, options, ck, P, kind)
    for kind, N in (('dense', 1), ('mpc', 1), ('mpc', 2)) if ck.tier != 'thorough' else (('dense', 1), ('mpc', 1), ('mpc', 2), ('mpc', 3), ('mpc', 4)):
        ck.attempt('linear', '%s N=%d' % (kind, N), linear, ck, P, kind, N)

def memory(mem, roots): return {l: mem[l] for l in reach(mem, roots)}
def diff(e, before, st, skip=()):
    return [l for l, v in before.items() if l not in skip and not same_val(v, st.mem.get(l)) and not equal_now(e, v, st.mem.get(l), st)]
def equal_now(e, a, b, st):
    """the same contents in another representation"""
    if not (isinstance(a, Arr) and isinstance(b, Arr)): return False
    if not (zero_test(a.rows * a.cols - b.rows * b.cols) is True): return False
    saved = e.st; e.st = st.copy()
    try:
        from eig import flatten
        x, y = e.arr_all(a), e.arr_all(b)
        if x.rows != y.rows: x, y = flatten(x), flatten(y)
        return mat_zero_test(x.add(y, poly(-1))) is True
    except Broken: return False
    finally: e.st = saved
def names(e, ls): return ', '.join(e.loc_name(l)[-40:] for l in ls[:4])

def solve(ck, P, kind, o):
    R = Run(P, kind, **o); S, h, e = R.S, R.h, R.e
    ck.saw(e)
    w = '%s (%s)' % (R.where, R.label)
    data = memory(R.st0.mem, [S.owner, S.data])
    for x in R.exits:
        d = diff(e, data, x.st)
        ck.put('solve', x.where, not d, '%d locations of the problem data are unchanged' % len(data), 'the solve changes the problem data: %s' % names(e, d))
    n = 0
    for ev in e.events:
        if ev.kind != 'throw': continue
        n += 1
        at = '%s:%s %s (%s)' % (rel(ev.file), ev.line, ev.fn, R.label)
        if ev.st is None: ck.undecided('guess', at, 'the state at the throw is not known'); continue
        d = diff(e, data, ev.st)
        ck.put('solve', at, not d, 'the problem data are unchanged when it throws', 'the problem data are changed when it throws: %s' % names(e, d))
        for q in 'zlvy':
            m = h.content(S.xf[q], ev.st)
            r = True if m == R.X0[q] else mat_zero_test(m.add(R.X0[q], poly(-1))) if (m.rows, m.cols) == (R.X0[q].rows, R.X0[q].cols) else False
            ck.put('guess', at, r, '%s still holds the guess' % q, 'when this throws the caller\'s %s has been overwritten with %s' % (q, str(m)[:200]))
    if not n: ck.undecided('guess', w, 'no throw was found')

def construct(ck, P, kind, ref):
    S = Setup(P, kind, N=2, ref_data=ref, opts=False); h = S.h; e = h.e
    # the reference object was made by the set-up; the blocks must still be the given ones
    own = [l for l in under(h.mem, S.owner) if isinstance(h.mem[l], Arr)] + (list(S.seq.values()) if kind == 'mpc' else [])
    w = where_fn(P, S.cls + '::' + S.dcls + '::' + S.dcls)
    bad = []
    for l in own:
        m = h.content(l)
        if not (len(m.t) == 1 and all(len(wd) == 1 and wd[0].kind == 'in' and poly(c) == ONE for wd, c in m.t.items())) : bad.append(l)
    ck.put('construct', w, not bad, '%d blocks unchanged' % len(own), 'making the object changes %s' % names(e, bad))
    # the data object
    cls = 'fbstab::DenseData' if kind == 'dense' else 'fbstab::MpcData'
    n = 6 if kind == 'dense' else 12
    if ref: return
    before = memory(h.mem, [S.owner])
    fs = h.functions(cls + '::' + simple(cls), lambda f: f.get('ctor') and not f.get('copy') and len(f['p']) == n and 'Map' not in f['p'][0]['t'])
    if len(fs) != 1: ck.undecided('construct', cls, '%d constructors' % len(fs)); return
    D = h.new1(cls, 'D', [Ptr(S.owner + (k,)) for k in parts(fs[0])], pred=lambda f: f is fs[0])
    d = diff(e, before, e.st)
    ck.put('construct', where_fn(P, cls + '::' + simple(cls)), not d, 'the data constructor leaves the blocks unchanged', 'the data constructor changes %s' % names(e, d))
    # products
    before = memory(h.mem, [S.owner, D])
    sizes = dict(gemvH=(S.nz, S.nz), gemvA=(S.nz, S.nv), gemvG=(S.nz, S.nl), gemvAT=(S.nv, S.nz), gemvGT=(S.nl, S.nz), axpyf=(None, S.nz), axpyh=(None, S.nl), axpyb=(None, S.nv))
    for m, (ni, no) in sizes.items():
        fn = where_fn(P, cls + '::' + m)
        def one():
            st0 = e.st.copy(); e.st = st0
            Y = h.vec('y_' + m, no); a, b = h.real('a'), h.real('b')
            if ni is not None: X = h.vec('x_' + m, ni); args = [h.ref(X), a, b, Ptr(Y)]; x = h.mem[X]
            else: args = [a, Ptr(Y)]
            for s, _ in h.call(D, m, args, st0.copy()):
                d = diff(e, before, s)
                ck.put('products', fn, not d, '%s leaves the data unchanged' % m, '%s changes %s' % (m, names(e, d)))
                if ni is not None: ck.put('products', fn, same_val(x, s.mem[X]) or equal_now(e, x, s.mem[X], s), '%s leaves its input vector unchanged' % m)
        ck.attempt('products', fn, one)
    ck.saw(e)

def options(ck, P, kind):
    S = Setup(P, kind, N=1, opts=False); h = S.h; e = h.e
    f = h.one(S.cls + '::UpdateOptions')
    S.symbolic_options(None, write=False)
    loc = ('L', '<check>', 'newopts'); h.mem[loc] = Obj(loc, base_type(f['p'][0]['t']))
    for k, v in S.opt.items(): h.mem[loc + (k,)] = fatom(atom('v', 'new ' + k, name='new ' + k)) if isinstance(v, F) else poly(atom('v', 'new ' + k, name='new ' + k, isint=v.isint()))
    before = memory(h.mem, [loc])
    rs = h.invoke(f, S.solver, [h.ref(loc)])
    for s, _ in rs:
        d = diff(e, before, s)
        ck.put('options', where_fn(P, S.cls + '::UpdateOptions'), not d, '%d fields of the given options are unchanged' % (len(before) - 1), 'UpdateOptions changes %s of the options it is given' % names(e, d))
    ck.saw(e)

def linear(ck, P, kind, N):
    L = Linear(P, kind, N); h, e, E = L.h, L.e, L.E
    src = list(E.src.values()) + (list(E.seq.values()) if kind == 'mpc' else [])
    before = memory(h.mem, src + [E.D])
    pts = {q: memory(h.mem, [L.obj[q]]) for q in ('x', 'xbar', 'r')}
    for s, v in L.initialize():
        d = diff(e, before, s)
        ck.put('linear', L.where('Initialize'), not d, 'the data are unchanged', 'the factorization changes %s' % names(e, d))
        for q in ('x', 'xbar'):
            d = diff(e, pts[q], s)
            ck.put('linear', L.where('Initialize'), not d, '%s is unchanged' % q, 'the factorization changes its argument: %s' % names(e, d))
        if truth(e, v) == FALSE: continue
        for s2, v2 in L.solve(s):
            d = diff(e, before, s2)
            ck.put('linear', L.where('Solve'), not d, 'the data are unchanged', 'the solve changes %s' % names(e, d))
            d = diff(e, pts['r'], s2)
            ck.put('linear', L.where('Solve'), not d, 'the residual is unchanged', 'the solve changes its argument: %s' % names(e, d))
    for ev in e.events:
        if ev.kind != 'throw' or ev.st is None: continue
        d = diff(e, before, ev.st)
        if d: ck.bad('linear', '%s:%s %s' % (rel(ev.file), ev.line, ev.fn), 'the data are changed when it throws: %s' % names(e, d))
    ck.saw(e)
