#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property of the
sources in /repo by static analysis."""
import argparse, importlib, os, pickle, hashlib, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'checks')]
sys.setrecursionlimit(20000)
def program():
    from prog import Program, sources, headers
    c = os.environ.get('FBSTAB_CACHE')       # development only
    if not c: return Program()
    h = hashlib.sha256()
    for f in sorted(sources() + headers()) + [os.path.join(HERE, 'tool', 'export.cc'), os.path.join(HERE, 'tool', 'driver.cc')]:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    p = os.path.join(c, h.hexdigest()[:24] + '.pkl')
    if os.path.exists(p): return pickle.load(open(p, 'rb'))
    P = Program(); pickle.dump(P, open(p, 'wb')); return P
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    from report import Check, Broken
    global CK
    ck = CK = Check(a.property, 'thorough' if a.tier == 'thorough' else 'quick')
    mod = importlib.import_module(a.property.lower())
    try: P = program() if getattr(mod, 'NEEDS_PROGRAM', True) else None
    except Broken as x:
        print('BROKEN: property=%s %s' % (a.property, x)); return 2
    run = mod.run
    ck.attempt('analysis', 'all', run, ck, P)
    return ck.finish()
if __name__ == '__main__':
    # the analysis recurses deeply
    import threading
    threading.stack_size(512 << 20)
    rc = [3]; CK = None
    LIMIT = float(os.environ.get('FBSTAB_LIMIT', '780' if '--tier' not in sys.argv and os.environ.get('VERIF_TIER') != 'thorough' else '20000'))
    def go():
        rc[0] = main()
    t = threading.Thread(target=go, daemon=True); t.start(); t.join(LIMIT)
    if t.is_alive() and CK is not None:
        # what was not reached in time is undecided
        for r in list(CK.rules) or ['time']: CK.undecided(r, 'check.py', 'not finished within %.0f s' % LIMIT)
        rc[0] = CK.finish()
    t.join(0 if CK is not None else None)
    sys.stdout.flush(); os._exit(rc[0])
