"""No state outside objects and arguments; workspace owners cannot be copied;
const operations on problem data do not write to it."""
from graph import *
from c08 import mpc_ops
import subprocess, tempfile

STATEFUL = {'rand', 'srand', 'random', 'srandom', 'drand48', 'srand48', 'strtok', 'setlocale', 'setenv', 'putenv', 'unsetenv', 'signal', 'fesetround', 'fesetenv', 'feenableexcept',
            'feclearexcept', 'feraiseexcept', 'fedisableexcept', 'tmpnam', 'localtime', 'gmtime', 'asctime', 'ctime', 'strerror', 'setNbThreads', 'Random', 'setRandom', 'initParallel',
            'setCpuCacheSizes', 'sync_with_stdio', 'set_terminate', 'set_new_handler', 'atexit', 'setvbuf', 'setbuf', 'freopen', 'omp_set_num_threads', 'global'}
WORKSPACE = ['FBstabDense', 'FBstabMpc', 'DenseData', 'MpcData', 'FullVariable', 'FullResidual', 'FullFeasibility', 'DenseCholeskySolver', 'RiccatiLinearSolver']
DATA = ['fbstab::Data', 'fbstab::DenseData', 'fbstab::MpcData', 'fbstab::MatrixSequence', 'fbstab::MapMatrixSequence', 'fbstab::FBstabDense::ProblemData', 'fbstab::FBstabDense::ProblemDataRef',
        'fbstab::FBstabMpc::ProblemData', 'fbstab::FBstabMpc::ProblemDataRef']
SCRATCH = ('fbstab::DenseCholeskySolver', 'fbstab::RiccatiLinearSolver')

def run(ck, P):
    ck.rule('no-globals', 'no variable with static storage is ever written, and none is initialised from a caller\'s values', 1)
    ck.rule('no-hidden-state', 'no function uses a library routine with process-wide state', 100)
    ck.rule('not-copyable', 'classes that own workspace others point into cannot be copied or moved', 30)
    ck.rule('no-mutable-data', 'no field of problem data is mutable', 20)
    ck.rule('const-writes-nothing', 'const operations on problem data leave the data and its source as they were', 20)
    ck.rule('distinct-objects', 'two solver objects reach no common storage', 2)
    ck.attempt('no-globals', 'library', statics, ck, P)
    ck.attempt('no-hidden-state', 'library', calls, ck, P)
    ck.attempt('not-copyable', 'library', traits, ck, P)
    ck.attempt('no-mutable-data', 'library', mutables, ck, P)
    ck.attempt('const-writes-nothing', 'DenseData', constops, ck, P, 'dense', 1)
    for N in ((1, 2) if ck.tier != 'thorough' else (1, 2, 3, 4)): ck.attempt('const-writes-nothing', 'MpcData', constops, ck, P, 'mpc', N)
    for cls, n in (('FBstabDense', 3), ('FBstabMpc', 4)): ck.attempt('distinct-objects', cls, distinct, ck, P, 'fbstab::' + cls, n)

# --------------------------------------------------------- static storage
def own(P): return [f for f in P.own_functions() if not f['file'].endswith('driver.cc')]

def base(n):
    """the variable an lvalue expression is part of"""
    while isinstance(n, dict):
        k = n.get('k')
        if k == 'ref': return n
        if k == 'mem' and not n.get('arrow'): n = n['b']
        elif k == 'idx': n = n['b']
        elif k in ('cast', 'mat'): n = n['e']
        elif k == 'un' and n.get('op') in ('++', '--') : n = n['e']
        elif k == 'call' and n.get('op') in ('[]', '()') and n.get('o') is not None: n = n['o']
        elif k == 'call' and n.get('o') is not None and not n.get('arrow') and n.get('c', {}).get('rt', '').endswith('&'): n = n['o']
        else: return None
    return None

def written(f):
    """(global, line) for every place the function changes or hands out a global"""
    for n in walk([f.get('body'), f.get('inits'), f.get('init')]):
        k = n['k']
        if k in ('assign', 'cassign'): yield base(n['a']), n.get('l')
        elif k == 'un' and n.get('op') in ('++', '--'): yield base(n['e']), n.get('l')
        elif k == 'un' and n.get('op') == '&': yield base(n['e']), n.get('l')
        elif k == 'call':
            c = n.get('c') or {}
            if n.get('o') is not None and not c.get('const') and not c.get('static') and not n.get('arrow'): yield base(n['o']), n.get('l')
            for a, t in zip(n.get('a', []), c.get('pt', [])):
                if t.endswith('&') and not t.startswith('const '): yield base(a), n.get('l')
        elif k == 'new_obj':
            for a, t in zip(n.get('a', []), (n.get('c') or {}).get('pt', [])):
                if t.endswith('&') and not t.startswith('const '): yield base(a), n.get('l')
        elif k == 'decl':
            for v in n.get('v', []):
                if (v.get('t') or '').endswith('&') and not v['t'].startswith('const ') and v.get('init'): yield base(v['init']), n.get('l')

def statics(ck, P):
    w = {}
    for f in own(P):
        for g, l in written(f):
            if g and g.get('d') == 'global' and g.get('own'): w.setdefault(g['n'], []).append('%s:%s' % (rel(f['file']), l))
    for g in P.globals:
        if g['file'].endswith('driver.cc'): continue
        at = '%s:%s' % (rel(g['file']), g['l'])
        nm = g['n']
        if g.get('tls'): ck.bad('no-globals', at, 'thread-local variable %s keeps state between calls' % nm); continue
        if nm in w and not g['const']: ck.bad('no-globals', at, '%s %s has static storage and is written at %s' % ('the local variable' if g['staticlocal'] else 'the variable', nm, ', '.join(w[nm][:3]))); continue
        if g['staticlocal'] and not g.get('constinit'): ck.bad('no-globals', at, 'the static local %s keeps the value computed by the first call' % nm); continue
        b = base_type(g['t'])
        r = P.records.get(b)
        if r and any(f['mutable'] for f in fields_of(P, b)): ck.bad('no-globals', at, 'the shared object %s has mutable fields' % nm); continue
        if not g['const'] and r: ck.undecided('no-globals', at, 'shared object %s' % nm); continue
        ck.ok('no-globals', at, '%s is constant' % nm)

def calls(ck, P):
    for f in own(P):
        if f.get('body') is None: continue
        bad = []
        for n in walk([f['body'], f.get('inits')]):
            c = n.get('c')
            if not isinstance(c, dict) or 'key' not in c or c.get('own'): continue
            s = simple(c['n'])
            if s in STATEFUL and not (s == 'global' and 'locale' not in c['n']): bad.append((s, n.get('l')))
            if n['k'] == 'ref' and n.get('d') == 'global' and n.get('n') in ('errno', 'environ'): bad.append((n['n'], n.get('l')))
        w = '%s:%s %s' % (rel(f['file']), f['l'], f['n'])
        if bad: ck.bad('no-hidden-state', '%s:%s %s' % (rel(f['file']), bad[0][1], f['n']), '%s uses state shared by the whole process' % bad[0][0])
        else: ck.ok('no-hidden-state', w, 'no routine with process-wide state is called')
        ck.functions.add(f['n'])

# ------------------------------------------------------------- copying
def traits(ck, P):
    T = ['copy_constructible', 'move_constructible', 'copy_assignable', 'move_assignable']
    src = '#include "fbstab/fbstab_dense.h"\n#include "fbstab/fbstab_mpc.h"\n#include <type_traits>\n'
    at = {}
    for c in WORKSPACE:
        for t in T:
            at[src.count('\n') + 1] = (c, t)
            src += 'static_assert(!std::is_%s<fbstab::%s>::value, "VW %s %s");\n' % (t, c, c, t)
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, 'traits.cc'); open(p, 'w').write(src)
        r = subprocess.run(['clang++-18', '-fsyntax-only', '-std=c++11', '-ferror-limit=0', '-I' + REPO, '-isystem', '/usr/include/eigen3', p], capture_output=True, text=True)
    failed = set(re_findall(r'VW (\w+) (\w+)', r.stderr))
    other = [l for l in r.stderr.splitlines() if ' error: ' in l and 'static assertion' not in l and 'static_assert' not in l]
    if other: ck.undecided('not-copyable', 'type traits', other[0][:300]); return
    for c, t in at.values():
        rec = P.records.get('fbstab::' + c); w = '%s:%s class %s' % (rel(rec['file']), rec['l'], c) if rec else c
        ck.put('not-copyable', w, (c, t) not in failed, 'not ' + t.replace('_', ' '), '%s is %s although other objects keep pointers into it' % (c, t.replace('_', ' ')))
def re_findall(p, s):
    import re
    return re.findall(p, s)

def mutables(ck, P):
    for n, r in P.records.items():
        if not r['file'].startswith(REPO): continue
        for f in r['f']:
            w = '%s:%s %s::%s' % (rel(r['file']), r['l'], n, f['n'])
            if n in DATA or any(b in DATA for b in bases(P, n)):
                ck.put('no-mutable-data', w, not f['mutable'], 'not mutable', 'a mutable field lets const operations on problem data write')
            elif f['mutable'] and n not in SCRATCH: ck.undecided('no-mutable-data', w, 'mutable field')

# ---------------------------------------------------------- const operations
def constops(ck, P, kind, N):
    E = DenseEnv(P) if kind == 'dense' else MpcEnv(P, N)
    h = E.h; cls = 'DenseData' if kind == 'dense' else 'MpcData'
    tag = '' if kind == 'dense' else ' (N=%d)' % N
    nz, nl, nv = E.nz, E.nl, E.nv
    ops = {'gemvH': (nz, nz), 'gemvA': (nz, nv), 'gemvG': (nz, nl), 'gemvAT': (nv, nz), 'gemvGT': (nl, nz)}
    vecs = {'axpyf': nz, 'axpyh': nl, 'axpyb': nv}
    a, b = h.real('a'), h.real('b')
    base_ = h.e.st.copy()
    watch = reach(base_.mem, [E.D] + list(E.src.values()))
    def check(nm, args, extra=()):
        w = where_fn(P, 'fbstab::%s::%s' % (cls, nm)) + tag
        def go():
            st = base_.copy()
            for l, v in extra: st.mem[l] = v
            outs = [s for s, _ in h.call(E.D, nm, args, st)]
            ch = changed(h.e, st, outs, watch)
            ck.put('const-writes-nothing', w, not ch, 'the data and its %d source locations are unchanged' % len(watch), 'the const operation changes %s' % ', '.join(h.e.loc_name(l)[-50:] for l in ch[:3]))
        ck.attempt('const-writes-nothing', w, go)
    for nm, (n, m) in ops.items():
        x = ('L', '<check>', 'x' + nm); y = ('L', '<check>', 'y' + nm)
        base_.mem[x] = Arr(poly(n), ONE, h.letter('x' + nm, n, 1), (), True); base_.mem[y] = Arr(poly(m), ONE, h.letter('y' + nm, m, 1), (), True)
        saved = h.e.st; h.e.st = base_
        rx = h.ref(x); h.e.st = saved
        check(nm, [rx, a, b, Ptr(y)])
    for nm, n in vecs.items():
        y = ('L', '<check>', 'y' + nm)
        base_.mem[y] = Arr(poly(n), ONE, h.letter('y' + nm, n, 1), (), True)
        check(nm, [a, Ptr(y)])
    check('ForcingNorm', [])
    h.e.st = base_.copy()
    ck.saw(h.e)

# ------------------------------------------------------------ two solvers
def distinct(ck, P, cls, nargs):
    h = Harness(P)
    d = [h.int('n%d' % i, 1) for i in range(nargs)]
    if nargs == 4: d[0] = poly(1)
    a = h.new1(cls, 'one', list(d)); b = h.new1(cls, 'two', list(d))
    A, B = reach(h.mem, [a]), reach(h.mem, [b])
    common = [l for l in A if l in set(B)]
    ck.put('distinct-objects', where_fn(P, cls + '::' + simple(cls)), not common, '%d and %d locations, none in common' % (len(A), len(B)), 'two solver objects share %s' % ', '.join(h.e.loc_name(l)[-50:] for l in common[:3]))
    ck.saw(h.e)
