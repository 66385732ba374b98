"""Inductive proofs over the loop invariants computed by the engine: every
loop analysed by fixpoint is kept with its entry state and the state at each
back edge, as values of the loop's unknowns."""
from env import *

class Loop:
    """all analysed instances of one loop"""
    def __init__(self, lk): self.lk = lk; self.inst = []; self.keys = set(); self.first = 0
    @property
    def where(self): return '%s:%s' % (rel(self.inst[0]['file']), self.inst[0]['line'])

class Induct:
    def __init__(self, e):
        self.e = e; self.loops = {}
        for i, d in enumerate(e.loops):
            L = self.loops.get(str(d['lk']))
            if L is None: L = self.loops[str(d['lk'])] = Loop(d['lk']); L.first = i
            L.inst.append(d)
    def phis_of(self, x):
        """names of the loop unknowns an expression depends on"""
        if isinstance(x, (list, tuple)):
            out = set()
            for y in x: out |= self.phis_of(y)
            return out
        return {d[1] for d in x.deps if d[0] == 'phi'}
    def loops_of(self, x):
        """loops whose unknowns occur in x, innermost first"""
        ks = {n.rsplit('@', 1)[1] for n in self.phis_of(x)}
        return sorted((self.loops[k] for k in ks if k in self.loops), key=lambda L: L.first)
    def sub(self, d, st): return self.e.phi_subst(d['phis'], d['M'], st)
    # -------------------------------------------------------- provers
    def same(self):
        """the ghost count of linear solves in terms of equal program counters"""
        r = self.__dict__.get('_same')
        if r is None:
            r = self._same = {}
            for L in self.loops.values():
                for d in L.inst:
                    g = d['phis'].get(SOLVES)
                    if not isinstance(g, Poly): continue
                    for loc, p in d['phis'].items():
                        if loc != SOLVES and isinstance(p, Poly) and p.isint() and self.zero(g - p): r[g.atoms()[0].id] = p; break
        return r
    def le(self, p, facts, depth=0):
        """p <= 0 in a state with these facts"""
        p = poly(p)
        if depth == 0 and self.same(): p = alg.subst_atoms(p, self.same())
        if facts.decide(le(p, ZERO)) is True: return True
        if depth > 4: return False
        Ls = self.loops_of(p)
        if not Ls: return False
        hyp = le(p, ZERO)
        for d in Ls[0].inst:
            if not self.le(self.sub(d, d['entry']).poly(p), d['entry'].facts, depth + 1): return False
            for b in d['backs']:
                if not self.le(self.sub(d, b).poly(p), b.facts.add(hyp), depth + 1): return False
        return True
    def mzero(self, m, depth=0):
        """a vector is zero wherever its unknowns are defined"""
        r = mat_zero_test(m)
        if r is True or depth > 4: return r
        Ls = self.loops_of([m])
        if not Ls: return r
        for d in Ls[0].inst:
            e = self.mzero(self.sub(d, d['entry']).mat(m), depth + 1)
            if e is not True: return e
            for b in d['backs']:
                q = self.sub(d, b).mat(m).add(m, poly(-1))
                e = self.mzero(q, depth + 1)
                if e is not True: return e
        return True
    def zero(self, p, depth=0):
        """p == 0 wherever its unknowns are defined"""
        p = poly(p)
        if zero_test(p): return True
        if depth > 4: return False
        Ls = self.loops_of(p)
        if not Ls: return False
        for d in Ls[0].inst:
            if not self.zero(self.sub(d, d['entry']).poly(p), depth + 1): return False
            for b in d['backs']:
                q = self.sub(d, b).poly(p) - p
                if not zero_test(q) and not self.zero(q, depth + 1): return False
        return True

def collect(x, atoms, letters):
    """ids of the atoms and letters occurring anywhere in x"""
    if isinstance(x, Atom):
        if x.id in atoms: return
        atoms.add(x.id)
        for y in x.args: collect(y, atoms, letters)
    elif isinstance(x, Sym):
        if x.id in letters: return
        letters.add(x.id)
        for y in x.args: collect(y, atoms, letters)
        collect(x.rows, atoms, letters); collect(x.cols, atoms, letters)
    elif isinstance(x, Poly):
        for a in x.atoms(): collect(a, atoms, letters)
    elif isinstance(x, Mat):
        for w, c in x.t.items():
            for s in w: collect(s, atoms, letters)
            collect(c, atoms, letters)
    elif isinstance(x, F):
        for y in x.a: collect(y, atoms, letters)
    elif isinstance(x, (tuple, list)):
        for y in x: collect(y, atoms, letters)
