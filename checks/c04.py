"""Nothing a solve returns, prints or decides depends on what the solver object
did before, or on memory that was never written."""
from graph import *
from linear import Linear, truth

def run(ck, P):
    ck.rule('covered', 'everything a call may change in the solver object is arbitrary when the analysed call starts', 2)
    ck.rule('returned', 'no returned vector or number depends on earlier calls or unwritten memory', 9)
    ck.rule('decisions', 'no branch or loop condition of a solve depends on earlier calls or unwritten memory', 2)
    ck.rule('printed', 'no printed value depends on earlier calls or unwritten memory', 2)
    ck.rule('step', 'the linear solver\'s step and verdicts depend on the inputs of the last factorization and solve only', 4)
    for kind, o in (THOROUGH if ck.tier == 'thorough' else QUICK):
        for d in (3, 2):
            if d == 2 and kind == 'mpc' and ck.tier != 'thorough': continue      # the algorithm is one template
            ck.attempt('returned', 'FBstab%s::Solve %s' % (kind.capitalize(), o or ''), solve, ck, P, kind, o, d)
    for kind, N in ((('dense', 1), ('mpc', 1), ('mpc', 2)) if ck.tier != 'thorough' else (('dense', 1), ('mpc', 1), ('mpc', 2), ('mpc', 3), ('mpc', 4))):
        ck.attempt('step', '%s N=%d' % (kind, N), linear, ck, P, kind, N)

def txt(names): return ', '.join(n.replace('stale:', 'the earlier value of ') for n in names[:3])

def solve(ck, P, kind, o, display):
    R = Again(P, kind, display=display, **o); e = R.e
    ck.saw(e)
    w = '%s (%s)' % (R.where, R.label)
    miss = R.missed + R.left
    ck.put('covered', w, True if not miss else None, '%d locations of the solver object are changed by calls and made arbitrary' % len(R.marked), 'not covered: %s' % ', '.join(e.loc_name(l)[-50:] for l in miss[:5]))
    D = Deps(e)
    for x in R.exits:
        for nm, v in [(q, x.X[q]) for q in 'zlvy'] + [('residual', x.residual), ('initial_residual', x.initial), ('newton_iters', x.newton), ('prox_iters', x.prox)]:
            b = D.bad(v)
            ck.put('returned', x.where, not b, '%s depends on this call only' % nm, 'the returned %s depends on %s' % (nm, txt(b)))
        fl = x.st.mem.get(x.loc + ('eflag',))
        b = D.bad(fl)
        ck.put('returned', x.where, not b, 'the exit flag depends on this call only', 'the exit flag depends on %s' % txt(b))
    seen = set(); n = 0
    for f in e.branch_deps:
        b = D.bad(f)
        if b and tuple(b) not in seen:
            seen.add(tuple(b)); ck.bad('decisions', w, 'a condition (%s) depends on %s' % (str(f)[:120], txt(b)))
        n += 1
    if not seen: ck.ok('decisions', w, '%d conditions of %d loops depend on this call only' % (n, len(e.loops)))
    for ev in e.events:
        at = '%s:%s %s' % (rel(ev.file), ev.line, ev.fn)
        if ev.kind == 'undef': ck.bad('decisions', at, 'an indeterminate value is used: %s' % ev.msg)
    done = set()
    for ev in e.events:
        if ev.kind != 'snprintf': continue
        t = ev.data[2]; at = '%s:%s %s' % (rel(ev.file), ev.line, ev.fn)
        b = D.bad(t)
        k = (at, tuple(b))
        if k in done: continue
        done.add(k)
        ck.put('printed', at, not b, 'printed values depend on this call only', 'a printed value depends on %s' % txt(b))

def linear(ck, P, kind, N):
    L = Linear(P, kind, N); h, e = L.h, L.e
    locs = reach(h.mem, [L.S], stop=[L.E.D])
    marked = []
    start = e.st.copy()
    for round_ in range(3):
        q = e.quiet
        states = []
        for s, v in L.initialize(start.copy()):
            states.append(s)
            for s2, v2 in L.solve(s.copy()): states.append(s2)
        ch = [l for l in changed(e, start, states, locs) if l not in marked]
        # what LinkData and SetAlpha set is input of every call
        if not ch: break
        e.st = start
        for l in ch:
            n = stale_value(e, l, start.mem[l], None)
            if n is not None: start.mem[l] = n
            elif isinstance(start.mem[l], LdltVal):
                v = start.mem[l]
                sz = poly(v.n); nm = 'stale:factorization'
                start.mem[l] = LdltVal(v.kind, mat_of(sym('in', nm, rows=sz, cols=sz, name=nm, symm=True, deps=frozenset([('stale', nm)]))), v.n, v.ref)
            marked.append(l)
        e.events.clear(); e.loops.clear(); e.phi.clear(); e.branch_deps.clear()
    D = Deps(e)
    e.branch_deps.clear(); e.events.clear()
    wi, ws = L.where('Initialize'), L.where('Solve')
    rs = L.initialize(start.copy())
    nb = len(e.branch_deps)
    vals = {}
    for s, v in rs:
        b = D.bad(truth(e, v)); vals.setdefault((wi, 'the verdict of the factorization'), set()).update(b)
        ok = truth(e, v)
        if s.facts.decide(ok) is False: continue      # the step is not computed after a failed factorization (C17)
        s = s.copy(); s.facts = s.facts.add(ok)
        # success entails the success of these factorizations
        sub = {}
        for l in literals(ok):
            if l.op == 'b' and l.a[0].kind == 'fact_ok' and Subst(None, None, {l: FALSE}).f(ok) == FALSE: sub[l] = TRUE
        sub = Subst(None, None, sub)
        for loc, m in list(s.mem.items()):
            y = sub.any(m)
            if y is not m: s.mem[loc] = y
        for s2, v2 in L.solve(s):
            b = D.bad(truth(e, v2)); vals.setdefault((ws, 'the verdict of the solve'), set()).update(b)
            for q, m in L.step(s2).items(): vals.setdefault((ws, 'the step in %s' % q), set()).update(D.bad(m))
    for (w, nm), b in vals.items(): ck.put('step', w, not b, '%s depends on the inputs only' % nm, '%s depends on %s' % (nm, txt(sorted(b))))
    bad = {}
    for f in e.branch_deps:
        b = D.bad(f)
        if b: bad.setdefault(tuple(b), f)
    for b, f in bad.items(): ck.bad('step', wi, 'a condition (%s) depends on %s' % (str(f)[:120], txt(list(b))))
    if not bad: ck.ok('step', wi, '%d conditions depend on the inputs only; %d locations of the solver made arbitrary' % (len(e.branch_deps), len(marked)))
    for ev in e.events:
        if ev.kind == 'undef': ck.bad('step', '%s:%s %s' % (rel(ev.file), ev.line, ev.fn), 'an indeterminate value is used: %s' % ev.msg)
    ck.saw(e)
