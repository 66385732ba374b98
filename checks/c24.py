"""C24: the algorithm asks of its components only what the component interface
documents."""
from compile import *
NEEDS_PROGRAM = False
def run(ck, P):
    ck.rule('extend', "the algorithm is instantiated with components of a user's own, written from abstract_components.h only", 2)
    ck.rule('complete', 'such a program refers to nothing that is not defined', 1)
    stds = ['c++11'] if ck.tier == 'quick' else ['c++11', 'c++14', 'c++17', 'c++20']
    f = os.path.join(WIT, 'extend.cc')
    with tempfile.TemporaryDirectory() as td:
        C = Compiler(td)
        jobs = [(p, s) for p in (1, 2) for s in stds]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: C.accepts(f, j[1], ['-DPART=%d' % j[0]], obj='%s/e%d.o' % (td, j[0]) if j[1] == 'c++11' else None), jobs))
        for (p, s), (ok, loc, msg) in zip(jobs, res):
            what = "a user's variable, residual, feasibility check and linear solver for %s" % ('one class of data' if p == 1 else 'any data')
            ck.put('extend', loc or 'fbstab/fbstab_algorithm-impl.h', ok, '%s (%s)' % (what, s), 'the algorithm does not accept %s: %s' % (what, msg))
        objs = ['%s/e1.o' % td]; srcs = sources()
        def lib(k):
            o = '%s/l%d.o' % (td, k)
            return C.accepts(srcs[k], obj=o)[0], o
        with ThreadPoolExecutor(8) as ex: ls = list(ex.map(lib, range(len(srcs))))
        if not os.path.exists(objs[0]) or any(ok is not True for ok, o in ls): ck.undecided('complete', 'extend.cc', 'not compiled'); return
        D = set(); U = {}
        for o in objs + [o for ok, o in ls]:
            d, u, s = symbols(o); D |= d
            if o == objs[0]: U = u
        names = {x: demangle(x) for x in U if 'fbstab' in x and x not in D}
        names = {x: n for x, n in names.items() if re.match(r'(vtable for |typeinfo for |[^(<]*\b)?fbstab::', n)}
        for x, n in names.items(): ck.bad('complete', U[x].replace(REPO + '/', '') or 'extend.cc', '%s is referred to by the algorithm or the interface but not defined' % n)
        if not names: ck.ok('complete', 'extend.cc', '%d referenced library symbols are defined' % len([x for x in U if 'fbstab' in x]))
