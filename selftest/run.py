#!/usr/bin/env python3
"""Self-test of the checks (not registered): applies small edits to scratch
copies of /repo and runs checks against them.
  run.py [-j N] [name-substring ...]
Edits are in selftest/edits.py: breaking edits must be reported by one of the
named checks, behaviour-keeping edits must leave all checks quiet."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
ALL = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, 'checks')) if re.match(r'c\d\d\.py$', f))
def one(e, only=None):
    td = tempfile.mkdtemp(prefix='fbst.')
    try:
        for d in ('fbstab', 'tools'): shutil.copytree('/repo/' + d, td + '/' + d)
        for f, a, b in e['edits']:
            p = os.path.join(td, f); s = open(p).read()
            if a not in s: return (e, 'STALE EDIT ' + a[:60], [])
            s = s.replace(a, b, 1) if not e.get('all') else s.replace(a, b); open(p, 'w').write(s)
        r = []
        for c in (only or e.get('checks') or ALL):
            p = subprocess.run(['python3', V + '/check.py', c], capture_output=True, text=True, env=dict(os.environ, FBSTAB_REPO=td, FBSTAB_EVIDENCE=td, FBSTAB_CACHE=td))
            r.append((c, p.returncode, p.stdout))
            und = [l for l in p.stdout.splitlines() if l.startswith('UNDECIDED')]
        return (e, None, r)
    finally: shutil.rmtree(td, ignore_errors=True)
def main():
    from edits import EDITS; import edits2, refactors, refactors2, refactors3, refactors4
    a = sys.argv[1:]; j = 6; only = None
    if '-j' in a: i = a.index('-j'); j = int(a[i + 1]); del a[i:i + 2]
    if '-c' in a: i = a.index('-c'); only = a[i + 1].split(','); del a[i:i + 2]
    es = [e for e in EDITS if not a or any(x in e['name'] for x in a)]
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        for fu in as_completed([ex.submit(one, e, only) for e in es]):
            e, err, r = fu.result()
            if err: print('?? %-34s %s' % (e['name'], err)); bad += 1; continue
            hit = [c for c, rc, o in r if rc == 1]; err2 = [c for c, rc, o in r if rc not in (0, 1)]
            und = sum(o.count('UNDECIDED') for c, rc, o in r)
            good = (not hit if e.get('keep') else bool(hit)) and not err2
            bad += not good
            print('%s %-34s hit=%s%s%s' % ('ok' if good else 'XX', e['name'], ','.join(hit), ' errors=' + ','.join(err2) if err2 else '', ' undecided=%d' % und if und else ''), flush=True)
            if not good or os.environ.get('SHOW'):
                for c, rc, o in r:
                    if rc or 'UNDECIDED' in o or not hit:
                        for l in o.splitlines()[:4]: print('      %s: %s' % (c, l[:260]))
    print('%d edits, %d unexpected' % (len(es), bad))
main()
