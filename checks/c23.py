"""C23: every documented way of using the library type-checks, links and keeps
its promises about what can be written through what."""
from compile import *

# the last ones are internal: they may be moved or dropped
PUBLIC = ['fbstab/fbstab_dense.h', 'fbstab/fbstab_mpc.h', 'fbstab/fbstab_algorithm.h', 'tools/matrix_sequence.h', 'tools/output_stream.h', 'fbstab/components/abstract_components.h']
HEADERS = ['fbstab/fbstab_dense.h', 'fbstab/fbstab_mpc.h', 'fbstab/fbstab_algorithm.h', 'tools/matrix_sequence.h', 'tools/output_stream.h', 'tools/utilities.h', 'tools/copyable_macros.h'] + \
          ['fbstab/components/%s.h' % n for n in 'abstract_components dense_cholesky_solver dense_data full_feasibility full_residual full_variable mpc_data riccati_linear_solver'.split()]
NEEDS_PROGRAM = False

DATA = [('problem data', 'S::ProblemData'), ('constant problem data', 'const S::ProblemData'), ('mapped data', 'S::ProblemDataRef'), ('constant mapped data', 'const S::ProblemDataRef')]
VARS = [('an owned solution', 'S::Variable'), ('a mapped solution', 'S::VariableRef')]
STREAMS = [('the default printer', ''), ('StandardOutput', ', fbstab::StandardOutput()'), ('a named StandardOutput', ', so'), ("a user's stream", ', r'), ("a user's temporary stream", ', Recorder()'), ("a user's stream with a hidden implementation", ', h')]

SOLVE = '''#include "fbstab/fbstab_%(k)s.h"
#include "stream.h"
#include <utility>
typedef fbstab::FBstab%(K)s S;
fbstab::SolverOut go%(n)d(S& s, %(d)s& qp, %(v)s* x) {
  fbstab::StandardOutput so;
  const Recorder r;
  HiddenRecorder h;
  fbstab::SolverOut o;
%(calls)s
  o = s.Solve(std::move(qp), x);
  o = s.Solve(std::move(qp), x, h);
  return o;
}
'''
# programs that must be rejected, each next to the program it spoils
REJECT = [
 ('a dense solver cannot be copied', 'fbstab/fbstab_dense.h', 'void go(fbstab::FBstabDense& a) { %s }', 'fbstab::FBstabDense b(a);', 'fbstab::FBstabDense& b = a; (void)b;'),
 ('a dense solver cannot be moved', 'fbstab/fbstab_dense.h', 'void go(fbstab::FBstabDense& a) { %s }', 'fbstab::FBstabDense b(std::move(a));', 'fbstab::FBstabDense& b = a; (void)b;'),
 ('a dense solver cannot be assigned', 'fbstab/fbstab_dense.h', 'void go(fbstab::FBstabDense& a, fbstab::FBstabDense& b) { %s }', 'a = b;', '(void)a; (void)b;'),
 ('an MPC solver cannot be copied', 'fbstab/fbstab_mpc.h', 'void go(fbstab::FBstabMpc& a) { %s }', 'fbstab::FBstabMpc b(a);', 'fbstab::FBstabMpc& b = a; (void)b;'),
 ('an MPC solver cannot be moved', 'fbstab/fbstab_mpc.h', 'void go(fbstab::FBstabMpc& a) { %s }', 'fbstab::FBstabMpc b(std::move(a));', 'fbstab::FBstabMpc& b = a; (void)b;'),
 ('an MPC solver cannot be assigned', 'fbstab/fbstab_mpc.h', 'void go(fbstab::FBstabMpc& a, fbstab::FBstabMpc& b) { %s }', 'a = b;', '(void)a; (void)b;'),
 ('a constant dense solution cannot be the guess', 'fbstab/fbstab_dense.h', 'typedef fbstab::FBstabDense S; void go(S& s, S::ProblemData& p, const S::Variable& c, S::Variable& x) { (void)c; %s }', 's.Solve(p, &c);', 's.Solve(p, &x);'),
 ('a constant MPC solution cannot be the guess', 'fbstab/fbstab_mpc.h', 'typedef fbstab::FBstabMpc S; void go(S& s, S::ProblemData& p, const S::Variable& c, S::Variable& x) { (void)c; %s }', 's.Solve(p, &c);', 's.Solve(p, &x);'),
 ('solving is no constant operation of a dense solver', 'fbstab/fbstab_dense.h', 'typedef fbstab::FBstabDense S; void go(S& s, const S& c, S::ProblemData& p, S::Variable& x) { (void)c; %s }', 'c.Solve(p, &x);', 's.Solve(p, &x);'),
 ('solving is no constant operation of an MPC solver', 'fbstab/fbstab_mpc.h', 'typedef fbstab::FBstabMpc S; void go(S& s, const S& c, S::ProblemData& p, S::Variable& x) { (void)c; %s }', 'c.Solve(p, &x);', 's.Solve(p, &x);'),
]

def run(ck, P):
    ck.rule('headers', 'each public header compiles on its own, also when it is included twice', 6)
    ck.rule('together', 'the public headers compile together in either order', 2)
    ck.rule('solves', 'a solve type-checks for each documented kind of problem data, solution and printer', 16)
    ck.rule('use', 'programs written from the documentation type-check, with the documented codes and write permissions', 7)
    ck.rule('reject', 'what the types forbid is rejected (the twin program without the offence is accepted)', 10)
    ck.rule('one-definition', 'headers define nothing that two translation units cannot both contain, and no two library sources define the same thing', 2)
    ck.rule('complete', 'everything of the library that a program refers to, also without optimisation, is defined', 1)
    stds = ['c++11'] if ck.tier == 'quick' else ['c++11', 'c++14', 'c++17', 'c++20']
    with tempfile.TemporaryDirectory() as td:
        C = Compiler(td); jobs = []; objs = {}
        n = [0]
        def src(text):
            n[0] += 1; f = os.path.join(td, 'w%d.cc' % n[0]); open(f, 'w').write(text); return f
        def expect(rule, what, text=None, file=None, obj=False, where=None, want=True):
            f = file or src(text)
            for std in stds:
                o = None
                if obj and std == 'c++11': o = f'{td}/o{len(objs)}.o'; objs[o] = what
                jobs.append((rule, what, f, std, o, where, want))
        for h in HEADERS:
            if not os.path.exists(os.path.join(REPO, h)):
                if h in PUBLIC: ck.bad('headers', h, 'the public header %s does not exist' % h)
                continue
            expect('headers', h, '#include "%s"\n#include "%s"\n' % (h, h), where=h)
        hs = [h for h in HEADERS if os.path.exists(os.path.join(REPO, h))]
        expect('together', 'all public headers', ''.join('#include "%s"\n' % h for h in hs), obj=True)
        allobj = list(objs)[0]
        expect('together', 'all public headers in reverse', ''.join('#include "%s"\n' % h for h in hs[::-1]))
        k = 0
        for kind, K in (('dense', 'Dense'), ('mpc', 'Mpc')):
            for dn, d in DATA:
                for vn, v in VARS:
                    k += 1
                    calls = '\n'.join('  o = s.Solve(qp, x%s);' % s for _, s in STREAMS)
                    expect('solves', '%s solve of %s into %s with %d printers' % (kind, dn, vn, len(STREAMS)), SOLVE % dict(k=kind, K=K, d=d, v=v, n=k, calls=calls), obj=True, where='fbstab/fbstab_%s.h' % kind)
        for f in sorted(os.listdir(WIT)):
            if f.startswith('use_') and f.endswith('.cc'):
                p = os.path.join(WIT, f)
                t = open(p).readline()
                expect('use', t[3:].strip(), file=p, obj=True)
        for f in sources():
            o = f'{td}/o{len(objs)}.o'; objs[o] = rel(f)
            jobs.append((None, rel(f), f, 'c++11', o, rel(f), True))
        rej = []
        for what, h, t, badline, good in REJECT:
            rej.append((what, h, src('#include "%s"\n#include <utility>\n%s\n' % (h, t % badline)), src('#include "%s"\n#include <utility>\n%s\n' % (h, t % good))))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: C.accepts(j[2], j[3], obj=j[4]), jobs))
            rres = list(ex.map(lambda j: (C.accepts(j[2]), C.accepts(j[3])), rej))
        built = True
        for (rule, what, f, std, o, where, want), (ok, loc, msg) in zip(jobs, res):
            if o and ok is not True: built = False
            w = loc if loc and not loc.startswith(td) else (where or what)
            if rule is None:
                if ok is not True: ck.notes.append('%s does not compile: %s' % (what, msg))
                continue
            ck.put(rule, w, ok, '%s (%s)' % (what, std), '%s is rejected: %s' % (what, msg))
        for (what, h, f, g), (r, t) in zip(rej, rres):
            v = None if t[0] is not True or r[0] is None else (r[0] is False)
            ck.put('reject', h, v, what, 'the program that must be rejected compiles: %s' % what if v is False else 'the twin program is not accepted: %s' % t[2])
        if os.path.exists(allobj):
            d, u, strong = symbols(allobj)
            if strong:
                for s in sorted(strong): ck.bad('one-definition', strong[s].replace(REPO + '/', '') or 'headers', 'a header defines %s, so no two translation units can include it' % demangle(s))
            else: ck.ok('one-definition', 'public headers', '%d headers together define no strong symbol' % len(hs))
        else: ck.undecided('one-definition', 'public headers', 'not compiled')
        # the dense and the MPC library can be part of one program
        where = {}
        for o in objs:
            if os.path.exists(o) and objs[o] in set(map(rel, sources())):
                for x, w in symbols(o)[2].items(): where.setdefault(x, []).append((objs[o], w))
        twice = {x: v for x, v in where.items() if len(v) > 1}
        for x, v in sorted(twice.items()): ck.bad('one-definition', v[0][1].replace(REPO + '/', '') or v[0][0], '%s is defined in %s, which cannot be parts of one program' % (demangle(x), ' and in '.join(sorted(o for o, w in v))))
        if not twice: ck.ok('one-definition', 'library', '%d strong symbols of the library are each defined in one source file' % len(where))
        have = [o for o in objs if os.path.exists(o)]
        D = set(); U = {}
        libdefs = 0
        for o in have:
            d, u, s = symbols(o)
            D |= d
            for x, w in u.items(): U.setdefault(x, (objs[o], w))
        own = {x: v for x, v in U.items() if 'fbstab' in x and x not in D}
        names = {x: demangle(x) for x in own}
        # symbols of the library itself, not of Eigen or the standard library instantiated with its types
        own = {x: v for x, v in own.items() if re.match(r'(vtable for |typeinfo for |non-virtual thunk to |[^(<]*\b)?fbstab::', names[x])}
        if own and built:
            for x in sorted(own): ck.bad('complete', own[x][1].replace(REPO + '/', '') or own[x][0], '%s is referred to (in %s) but not defined anywhere' % (names[x], own[x][0]))
        elif not built: ck.undecided('complete', 'library', 'not every part was compiled')
        else: ck.ok('complete', 'library and %d programs' % (len(have)), '%d referenced symbols of the library are defined' % len([x for x in U if 'fbstab' in x]))
        ck.notes.append('%d translation units type-checked' % (len(jobs) + 2 * len(rej)))
