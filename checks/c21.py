"""Each solver object wires its own distinct, living workspaces together, and
every component of a solve uses that call's data and penalty parameter."""
from graph import *

def run(ck, P):
    ck.rule('workspaces', 'the algorithm has four variables, two residuals, a linear solver and a feasibility checker, no two sharing storage', 20)
    ck.rule('alive', 'each of them is kept alive by the solver object', 16)
    ck.rule('dimensions', 'each of them is made with the dimensions of the solver object', 16)
    ck.rule('data-linked', 'problem data are read only through the data object of the running call', 2)
    ck.rule('data-blocks', 'that data object refers to every block the caller gave', 2)
    ck.rule('alpha-linked', 'the components use the penalty parameter of the options in force', 6)
    for kind in ('dense', 'mpc'): ck.attempt('workspaces', kind, wiring, ck, P, kind)
    for kind, o in (THOROUGH if ck.tier == 'thorough' else QUICK):
        ck.attempt('data-linked', 'FBstab%s::Solve %s' % (kind.capitalize(), o or ''), links, ck, P, kind, o)

ROLES = (('variable', 'fbstab::Variable', 4), ('residual', 'fbstab::Residual', 2), ('linear solver', 'fbstab::LinearSolver', 1), ('feasibility checker', 'fbstab::FeasibilityResidual', 1))

def algorithm(P, mem, root):
    return [l for l in reach(mem, [root]) if isinstance(mem[l], Obj) and mem[l].loc == l and base_type(mem[l].cls).startswith('fbstab::FBstabAlgorithm')]

def components(P, mem, alg_):
    """pointer fields of the algorithm object by role: role -> [(field, target)]"""
    out = {r: [] for r, _, _ in ROLES}
    for l in under(mem, alg_):
        for t in targets(mem[l]):
            o = mem.get(t)
            if not isinstance(o, Obj) or l == t: continue
            for r, root, _ in ROLES:
                if derives(P, o.cls, root): out[r].append((l, t))
    return out

def wiring(ck, P, kind):
    S = Setup(P, kind, N=2, opts=False); h = S.h; mem = h.mem
    ck.saw(h.e)
    w = where_fn(P, S.cls + '::' + simple(S.cls))
    algs = algorithm(P, mem, S.solver)
    if len(algs) != 1: ck.undecided('workspaces', w, '%d algorithm objects' % len(algs)); return
    comp = components(P, mem, algs[0])
    held = owners(P, mem)
    flat = []
    for r, root, n in ROLES:
        cs = comp[r]; ts = list(dict.fromkeys(t for _, t in cs))
        for i, (l, t) in enumerate(cs):
            for l2, t2 in cs[:i]:
                ck.put('workspaces', w, t != t2, '%s and %s of the algorithm are distinct' % (l[-1], l2[-1]), 'the algorithm is given the same %s as %s and as %s' % (r, l2[-1], l[-1]))
        if len(cs) < n: ck.undecided('workspaces', w, 'only %d %s pointers found' % (len(cs), r))
        elif n == 1: ck.ok('workspaces', w, 'one %s' % r)
        flat += [(r, l, t) for l, t in cs]
    data = lambda v: any(isinstance(mem.get(t), Obj) and derives(P, mem[t].cls, 'fbstab::Data') for t in targets(v))
    clo = {}
    for r, l, t in flat:
        clo[t] = {x for x in reach(mem, [t]) if isinstance(mem[x], (Arr, Poly, F, Obj)) and not data(mem[x])}
    ts = list(clo)
    for i, t in enumerate(ts):
        for t2 in ts[:i]:
            c = clo[t] & clo[t2]
            ck.put('workspaces', w, not c, 'no common storage', '%s and %s share %s' % (nm(mem, t), nm(mem, t2), ', '.join(h.e.loc_name(x)[-50:] for x in list(c)[:3])))
    inside = set(under(mem, S.solver))
    for r, l, t in flat:
        if t in inside: ck.ok('alive', w, '%s is part of the solver object' % l[-1]); continue
        o = held.get(t)
        if o is not None and o in set(reach(mem, [S.solver])): ck.ok('alive', w, '%s is owned through %s' % (l[-1], o[-1])); continue
        if t[0] == 'L' or t[0] == 'T': ck.bad('alive', w, 'the %s given to the algorithm as %s is a local object that is gone after construction' % (r, l[-1])); continue
        ck.bad('alive', w, 'nothing in the solver object owns the %s given to the algorithm as %s' % (r, l[-1]))
    # dimensions: compare with a component made for the solver's dimensions
    for r, l, t in flat:
        cls = mem[t].cls
        try:
            args = [S.nz, S.nl, S.nv]
            fs = h.functions(cls + '::' + simple(cls), lambda f: f.get('ctor') and not f.get('copy'))
            if not any(len(f['p']) == 3 for f in fs): args = [poly(a) for a in S.ctor_args]
            ref = h.new1(cls, 'ref ' + l[-1], [poly(a) for a in args], pred=lambda f: all('*' not in p['t'] for p in f['p']))
        except Broken as x: ck.undecided('dimensions', w, str(x)); continue
        d = compare(h.mem, t, ref)
        if d is None: ck.undecided('dimensions', w, 'the structure of %s differs' % l[-1])
        else: ck.put('dimensions', w, not d, '%s has the dimensions of the solver' % l[-1], 'the %s given as %s is not made for the dimensions of the solver: %s' % (r, l[-1], '; '.join('%s is %s instead of %s' % x for x in d[:2])))
def nm(mem, t): return simple(base_type(mem[t].cls)) if isinstance(mem.get(t), Obj) else str(t)

def compare(mem, a, b):
    """sizes and integers of two objects of the same class, through pointers"""
    out = []; todo = [(a, b)]; done = set()
    while todo:
        x, y = todo.pop()
        if (x, y) in done: continue
        done.add((x, y))
        for l in under(mem, x):
            m = y + l[len(x):]
            if m not in mem: return None if isinstance(mem[l], (Arr, Poly)) else out
            u, v = mem[l], mem[m]
            if isinstance(u, Arr) and isinstance(v, Arr):
                if not (zero_test(u.rows - v.rows) and zero_test(u.cols - v.cols)): out.append(('the size of ' + str(l[-1]), '%s x %s' % (u.rows, u.cols), '%s x %s' % (v.rows, v.cols)))
            elif isinstance(u, Poly) and isinstance(v, Poly) and u.isint() and v.isint() and not u.deps and not v.deps:
                if not zero_test(u - v): out.append((str(l[-1]), str(u), str(v)))
            elif isinstance(u, Ptr) and isinstance(v, Ptr) and u.loc is not None and v.loc is not None: todo.append((u.loc, v.loc))
    return out

# ------------------------------------------------------------------- links
def probe(h, loc, meth, val, st):
    """the fields a setter writes"""
    try: f = h.method(st.mem[loc].cls, meth, 1)
    except Broken: return []
    q = h.e.quiet; h.e.quiet += 1
    try: rs = h.invoke(f, loc, [val], st.copy())
    except Broken: return []
    finally: h.e.quiet = q
    if not rs: return []
    return [l for l in rs[0][0].mem if not same_val(st.mem.get(l), rs[0][0].mem[l]) and l[0] != 'T']

def links(ck, P, kind, o):
    R = Again(P, kind, **o); S, h, e, C = R.S, R.h, R.e, R.C
    ck.saw(e)
    w = '%s (%s)' % (R.where, R.label)
    if R.missed or R.left: ck.undecided('data-linked', w, 'state of earlier calls not covered: %s' % ', '.join(e.loc_name(l)[-50:] for l in (R.missed + R.left)[:4]))
    cur = [d for d in C.datas if d != STALE_DATA]
    old = STALE_DATA in C.datas
    if old: ck.bad('data-linked', w, 'problem data of an earlier call are read: a component is not linked to the data of this call')
    elif len(cur) != 1: ck.undecided('data-linked', w, '%d data objects' % len(cur))
    else: ck.ok('data-linked', w, 'all %d reads of problem data go through one object of the call' % sum(C.used.values()))
    for ev in e.events:
        if ev.kind == 'null': ck.bad('data-linked', '%s:%s %s' % (rel(ev.file), ev.line, ev.fn), 'a component is used without data: %s' % ev.msg)
    # a component without data refuses its inputs
    for ev in e.events:
        st = getattr(ev, 'st', None)
        if ev.kind != 'throw' or st is None: continue
        for a in algorithm(P, R.st0.mem, S.solver):
            for r, cs in components(P, st.mem, a).items():
                for l, t in cs:
                    if not isinstance(st.mem.get(t), Obj): continue
                    cls = st.mem[t].cls
                    if not any(fn.startswith(b + '::') for fn in [ev.fn] + [x[0] for x in ev.stack or ()] for b in bases(P, cls)): continue
                    for f in probe(h, t, 'LinkData', Ptr(PROBED(h, st, kind)), st):
                        v = st.mem.get(f)
                        if isinstance(v, Ptr) and v.loc is None: ck.bad('data-linked', '%s:%s %s' % (rel(ev.file), ev.line, ev.fn), 'the %s given to the algorithm as %s refuses to work: it is not linked to the data of the call' % (r, l[-1]))
    al = S.opt['alpha']
    PROBE = poly(atom('v', 'probe', name='probe'))
    src = [l for l in under(h.mem, S.owner) if isinstance(h.mem[l], Arr)] + (list(S.seq.values()) if S.kind == 'mpc' else [])
    pts = [('factorization at line %s' % x['line'], x['st'], x['this']) for x in C.inits] + [('linear solve at line %s' % x['line'], x['pre'], x['this']) for x in C.steps]
    if cur and pts:
        st = pts[0][1]
        got = set(reach(st.mem, [cur[0]]))
        miss = [l for l in src if l not in got]
        ck.put('data-blocks', w, not miss, 'all %d blocks are referred to' % len(src), 'the data object of the call does not refer to %s' % ', '.join(str(l[-1]) for l in miss[:4]))
    seen = set()
    algs = algorithm(P, R.st0.mem, S.solver)
    for what, st, ls in pts:
        comps = [ls]
        if len(algs) == 1: comps += [t for _, t in components(P, st.mem, algs[0])['residual']]
        for c in dict.fromkeys(comps):
            fs = probe(h, c, 'SetAlpha', PROBE, st)
            for l in fs:
                v = st.mem.get(l)
                if (what, l, v) in seen: continue
                seen.add((what, l, v))
                ok = zero_test(v - al) if isinstance(v, Poly) else None
                ck.put('alpha-linked', w, ok, '%s: %s uses the alpha of the options' % (what, simple(base_type(st.mem[c].cls))), '%s: %s uses %s as penalty parameter instead of the alpha of the options in force' % (what, simple(base_type(st.mem[c].cls)), v))
        if cur:
            o = Obj(cur[0], st.mem[cur[0]].cls) if cur[0] in st.mem else None
            pl = probe(h, ls, 'LinkData', Ptr(PROBED(h, st, kind)), st)
            for l in pl:
                v = st.mem.get(l)
                if (what, l, 'd') in seen: continue
                seen.add((what, l, 'd'))
                good = isinstance(v, Ptr) and v.loc == cur[0]
                ck.put('data-linked', w, good, '%s: the linear solver is linked to the data of the call' % what, '%s: the linear solver is not linked to the data of the call' % what)
def PROBED(h, st, kind):
    loc = ('L', '<check>', 'probe data'); st.mem[loc] = Obj(loc, 'fbstab::DenseData' if kind == 'dense' else 'fbstab::MpcData')
    return loc
