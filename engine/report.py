"""Collects the obligations of one check, writes evidence and gives the verdict."""
import json, os, sys, time, traceback
from prog import *
import interp
from interp import *

KNOWN = os.path.join(VERIF, 'known_findings.txt')

def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                k, _, what = l[len('known: property=%s ' % pid):].partition(' :: ')
                out.append((k.strip(), what.strip()))
    return out

class Check:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.t0 = time.time()
        self.n = {}              # rule -> [discharged, undecided, violated]
        self.bads = []           # (rule, where, message)
        self.und = []
        self.samples = {}
        self.functions = set()
        self.notes = []
        self.minimum = {}        # rule -> least number of decided obligations
        self.rules = {}
    # ------------------------------------------------ obligations
    def rule(self, name, text, least=1):
        self.rules[name] = text; self.minimum[name] = least
        self.n.setdefault(name, [0, 0, 0])
    def _c(self, rule): return self.n.setdefault(rule, [0, 0, 0])
    def ok(self, rule, where, what=''):
        self._c(rule)[0] += 1
        s = self.samples.setdefault(rule, [])
        if len(s) < 4: s.append(('%s: %s' % (where, what))[:400])
    def bad(self, rule, where, msg):
        self._c(rule)[2] += 1
        self.bads.append((rule, where, msg))
    def undecided(self, rule, where, why):
        self._c(rule)[1] += 1
        self.und.append((rule, where, str(why)[:600]))
    def put(self, rule, where, verdict, what, msg=None):
        """verdict True / False / None"""
        if verdict is True: self.ok(rule, where, what)
        elif verdict is False: self.bad(rule, where, msg or what)
        else: self.undecided(rule, where, msg or what)
    def attempt(self, rule, where, fn, *a):
        """run fn; what the analysis cannot model is undecided, never a verdict."""
        try: return fn(*a)
        except (Broken, ForkOn, RecursionError) as x:
            self.undecided(rule, where, '%s: %s' % (type(x).__name__, x))
        except Exception as x:
            if os.environ.get('FBSTAB_DEBUG'): raise
            self.undecided(rule, where, 'analysis error %s: %s at %s' % (type(x).__name__, x, traceback.extract_tb(x.__traceback__)[-1]))
    def saw(self, e):
        for f in e.visited: self.functions.add(f if isinstance(f, str) else str(f))
    # ------------------------------------------------ verdict
    def finish(self):
        # a rule with fewer instances than there must be has not been decided
        for r, k in self.minimum.items():
            if sum(self._c(r)) < k: self.undecided(r, 'check.py', '%d instances found, at least %d expected' % (sum(self._c(r)), k))
        decided = sum(v[0] + v[2] for v in self.n.values())
        kn = dict(known_findings(self.pid))
        new = []
        for b in self.bads:
            hit = None
            for k, what in kn.items():
                if k and k in '%s %s' % (b[1], b[2]): hit = what
            if hit: print('KNOWN-FINDING: property=%s %s' % (self.pid, hit))
            else: new.append(b)
        evd = os.environ.get('FBSTAB_EVIDENCE') or os.path.join(VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
        rp = os.path.join(evd, '%s.replay.txt' % self.pid)
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(
                      explanation='Abstract interpretation and rules over the type-checked, instantiated syntax trees exported from %s; nothing is executed. Each obligation below is one rule applied to one construct, exit, stage or path.' % REPO,
                      rules=self.rules,
                      obligations=sum(sum(v) for v in self.n.values()),
                      discharged=sum(v[0] for v in self.n.values()),
                      undecided=sum(v[1] for v in self.n.values()),
                      per_rule={k: dict(discharged=v[0], undecided=v[1], violated=v[2]) for k, v in sorted(self.n.items())},
                      functions_analysed=len(self.functions), functions=sorted(self.functions)[:200],
                      samples=[s for k in sorted(self.samples) for s in self.samples[k]][:60],
                      undecided_list=['%s @ %s: %s' % u for u in self.und][:40],
                      notes=self.notes),
                  wall_s=round(time.time() - self.t0, 3),
                  violations=['%s @ %s: %s' % b for b in self.bads])
        json.dump(ev, open(os.path.join(evd, self.pid + '.json'), 'w'), indent=1)
        for u in self.und[:8]: print(('UNDECIDED %s @ %s: %s' % u)[:400])
        if new:
            with open(rp, 'w') as f:
                f.write('property %s, sources in %s\n' % (self.pid, REPO))
                for b in new: f.write('\nrule: %s\n  %s\nat:   %s\n%s\n' % (b[0], self.rules.get(b[0], ''), b[1], b[2]))
                f.write('\nRe-run: python3 check.py %s --tier %s\n' % (self.pid, self.tier))
            for b in new[:8]: print(('  %s @ %s: %s' % (b[0], b[1], b[2]))[:500])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if not decided and not self.und:
            print('BROKEN: property=%s nothing was analysed' % self.pid)
            return 2
        print('property=%s held: %d obligations discharged, %d undecided, %.1fs' % (self.pid, sum(v[0] for v in self.n.values()), sum(v[1] for v in self.n.values()), time.time() - self.t0))
        return 0
