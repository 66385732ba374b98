"""Sizes for which an access obligation fails: a concrete assignment to the
integer quantities of the obligation that satisfies what is known about them."""
from env import *
import itertools
from fractions import Fraction
from induct import collect
from alg import nonneg_atom

def linked(fs, atoms):
    """the facts that constrain the given integer atoms, and all atoms in them"""
    ids = {a.id for a in atoms}; keep = []
    rest = [f for f in fs if all(len(x.a) == 1 and isinstance(x.a[0], Poly) and all(a.isint for a in x.a[0].atoms()) for x in literals(f))]
    grew = True
    while grew:
        grew = False
        for f in list(rest):
            s = {a.id: a for x in literals(f) for a in x.a[0].atoms()}
            if set(s) & ids:
                keep.append(f); rest.remove(f); grew = True
                for i, a in s.items():
                    if i not in ids: ids.add(i); atoms = atoms + [a]
    return keep, atoms

def value(p, v):
    r = 0
    for m, c in p.t.items():
        t = c
        for a, k in m: t *= v[a] ** k
        r += t
    return r
OPS = {'lt': lambda x: x < 0, 'le': lambda x: x <= 0, 'eq': lambda x: x == 0}

def limited(fs, a, s):
    """is there a known upper (1) or lower (-1) limit of a, by its own condition"""
    return any(f.op in ('lt', 'le', 'eq') and (f.op == 'eq' or f.a[0].t.get(((a.id, 1),), 0) * s > 0) and any(x.id == a.id for x in f.a[0].atoms()) for f in fs)

def find(fs, polys, bad, most=60000):
    """(assignment text) with all facts true and bad(values of polys) true; None if there is none among
    small values; raises Broken if the quantities are not plain integers"""
    polys = [poly(p) for p in polys]
    atoms = []
    for p in polys:
        for a in p.atoms():
            if a not in atoms: atoms.append(a)
    fs, atoms = linked(fs, atoms)
    for a in atoms:
        if a.kind != 'v' and not (limited(fs, a, 1) and limited(fs, a, -1)): raise Broken('the range of %s is not known' % a.name)
        if not a.isint or any(isinstance(x, (Sym, Poly)) for x in a.args): raise Broken('%s is not a plain integer' % a.name)
    rng = [5, 4, 3, 2]
    for top in rng:
        dom = [range(0 if a.sign == '>=0' else 1 if a.sign == '>0' else -1, top + 1) for a in atoms]
        n = 1
        for d in dom: n *= len(d)
        if n <= most: break
    else: raise Broken('too many quantities')
    lits = {}
    for f in fs:
        for x in literals(f): lits[x] = None
    for vs in itertools.product(*dom):
        v = {a.id: x for a, x in zip(atoms, vs)}
        val = {x: OPS[x.op](value(x.a[0], v)) for x in lits}
        if all(feval(f, val) for f in fs) and bad([value(p, v) for p in polys]): return ', '.join('%s = %d' % (a.name, x) for a, x in zip(atoms, vs)) or 'always'
    return None

# ------------------------------------------------- real quantities
GRID = [Fraction(1, 10**13), Fraction(1, 10**5), Fraction(1, 1000), Fraction(1, 10), Fraction(1, 2), Fraction(1), Fraction(5), Fraction(200)]
def refute(facts, goal, most=9):
    """an assignment of the quantities the goal compares under which everything known
    about them holds and the goal does not; None if none is found.  The quantities
    are taken as free: raises Broken if one is made of another."""
    direct = lambda f: [a for x in literals(f) if x.op != 'b' for a in x.a[0].atoms()]
    parts = {}
    def base(a):
        """the quantities a is made of: itself, unless it is computed from others"""
        r = parts.get(a.id)
        if r is None:
            r = {}
            if a.kind in COMPUTED:
                for y in (a.args[0] if isinstance(a.args[0], tuple) else a.args[:1]):
                    for b in (y.atoms() if isinstance(y, Poly) else direct(y)): r.update(base(b))
                    if isinstance(y, F) and any(x.op == 'b' for x in literals(y)): r[a.id] = a
            else: r[a.id] = a
            parts[a.id] = r
        return r
    def atoms_of(f):
        r = {}
        for a in direct(f): r.update(base(a))
        return r
    at = atoms_of(goal)
    fs = []; rest = list(facts.fs)
    grew = True
    while grew:
        grew = False
        for f in list(rest):
            s = atoms_of(f)
            if not (set(s) & set(at)): continue
            rest.remove(f); fs.append(f); grew = True
            at.update(s)
            if len(at) > most: raise Broken('too many quantities')
    for a in at.values():
        ids = set()
        for y in a.args: collect(y, ids, set())
        if ids & set(at) or a.kind in COMPUTED: raise Broken('%s depends on the other quantities' % a.name)
    order = list(at.values())
    lits = []
    for f in fs + [goal]:
        for x in literals(f):
            if x not in lits: lits.append(x)
    bs = [x for x in lits if x.op == 'b']
    if len(bs) > 4: raise Broken('too many conditions')
    dom = {}
    for a in order:
        if a.isint: g = [Fraction(k) for k in (1, 2, 3, 0, -1)]
        else: g = GRID + [ZERO_] + [-x for x in GRID]
        if a.sign == '>0': g = [x for x in g if x > 0]
        elif a.sign == '>=0' or nonneg_atom(a): g = [x for x in g if x >= 0]
        dom[a.id] = g
    need = {i: [] for i in range(len(order))}
    pos = {a.id: i for i, a in enumerate(order)}
    for f in fs + [fnot(goal)]:
        s = atoms_of(f)
        need[max([pos[i] for i in s] or [0])].append(f)
    def num(a, v):
        if a.id in v or a.kind not in COMPUTED: return v[a.id]
        if a.kind == 'ind': return 1 if holds(a.args[0], v, {}) else 0
        if a.kind == 'def': return ev(a.args[0], v)
        return (max if a.kind == 'maxof' else min)(ev(y, v) for y in a.args[0])
    def ev(p, v):
        r = 0
        for m, c in p.t.items():
            t = c
            for i, k in m: t *= num(alg._list[i], v) ** k
            r += t
        return r
    def holds(f, v, bv): return feval(f, {**bv, **{l: OPS[l.op](ev(l.a[0], v)) for l in literals(f) if l.op != 'b'}})
    steps = [0]
    def search(i, v, bv):
        if i == len(order): return dict(v)
        for x in dom[order[i].id]:
            steps[0] += 1
            if steps[0] > 40000: return None
            v[order[i].id] = x
            try: good = all(holds(f, v, bv) for f in need[i])
            except ZeroDivisionError: good = False
            if good:
                r = search(i + 1, v, bv)
                if r is not None: return r
            del v[order[i].id]
        return None
    for m in range(1 << len(bs)):
        r = search(0, {}, {b: bool(m >> i & 1) for i, b in enumerate(bs)})
        if r is not None: return ', '.join('%s = %g' % (a.name[:40], float(r[a.id])) for a in order)
    return None
COMPUTED = ('maxof', 'minof', 'def', 'ind')
ZERO_ = Fraction(0)
def judged(ck, rule, where, facts, goal, what, msg):
    """decide goal under the facts; a violation needs an assignment that refutes it"""
    if facts.decide(goal) is True or any(facts.decide(g) is True for g in (goal.a if goal.op == 'or' else ())): ck.ok(rule, where, what); return
    try: w = refute(facts, goal)
    except Broken as e: ck.undecided(rule, where, '%s (%s)' % (what, e)); return
    if w is None: ck.undecided(rule, where, what + ': neither proved nor refuted')
    else: ck.bad(rule, where, '%s, e.g. for %s' % (msg, w))
