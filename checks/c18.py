"""Output: well-formed, bounded, to the given stream, silent when off, and
without influence on the results."""
from algo import *
import re

FAMILY = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'vsnprintf': 2, 'dprintf': 1}
DIRECT = {'printf', 'fprintf', 'vprintf', 'vfprintf', 'puts', 'putchar', 'fputs', 'fputc', 'putc', 'fwrite', 'perror', 'dprintf', 'write'}
CONV = re.compile(r'%(?P<flags>[-+ #0]*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d*))?(?P<len>hh|h|ll|l|j|z|t|L)?(?P<c>[diouxXeEfFgGaAcspn%])')
INT = {'': {'int', 'unsigned int', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'bool'}, 'h': {'int', 'short', 'unsigned short'}, 'hh': {'int', 'char', 'signed char', 'unsigned char'},
       'l': {'long', 'unsigned long'}, 'll': {'long long', 'unsigned long long'}, 'z': {'unsigned long'}, 'j': {'long', 'unsigned long'}, 't': {'long'}}

def run(ck, P):
    ck.rule('format', 'formats are literals whose conversions agree in number and type with the arguments', 10)
    ck.rule('bounded', 'every formatting call is limited to the size of its buffer', 10)
    ck.rule('terminated', 'only buffers written on every path before are printed', 10)
    ck.rule('stream', 'everything is printed through the stream passed to the solve', 10)
    ck.rule('silent', 'with display off nothing is printed', 3)
    ck.rule('summary', 'the final summary shows the exit flag, the counters and the residual that are returned', 24)
    ck.rule('no-influence', 'no returned value, iterate, loop or exit condition depends on the verbosity', 8)
    ck.attempt('format', 'library', formats, ck, P)
    for kind, o in (THOROUGH if ck.tier == 'thorough' else QUICK):
        w = 'FBstab%s::Solve %s' % (kind.capitalize(), o or '')
        ck.attempt('silent', w, silent, ck, P, kind, o)
        for d in (1, 2, 3): ck.attempt('summary', w, summary, ck, P, kind, o, d)
        ck.attempt('no-influence', w, influence, ck, P, kind, o)

# ------------------------------------------------------------- formats
def plain(t):
    t = re.sub(r'\b(const|volatile)\b', '', t or '').replace('&', '').strip()
    return re.sub(r'\s+', ' ', t)
def strip(n):
    while n.get('k') in ('mat',) or (n.get('k') == 'cast' and n.get('ck') in ('noop', 'ArrayToPointerDecay', 'LValueToRValue')): n = n['e']
    return n

def formats(ck, P):
    for f in P.own_functions():
        if f.get('body') is None: continue
        if f['file'].endswith('driver.cc'): continue
        allowed = simple(f['n']) == 'PrintImplementation'
        for n in walk(f['body']):
            w = '%s:%s %s' % (rel(f['file']), n.get('l'), f['n'])
            if n['k'] == 'ref' and re.match(r'^(std::)?(cout|cerr|clog|stdout|stderr)$', n.get('n') or ''):
                ck.put('stream', w, allowed, 'stream object', 'output goes to %s instead of the stream passed to the solve' % n.get('n'))
            if n['k'] != 'call' or not n.get('c'): continue
            nm = simple(n['c']['n'])
            if n.get('o') is not None or n['c'].get('own'): continue
            if nm in DIRECT:
                ck.put('stream', w, allowed, '%s inside a stream class' % nm, '%s prints to the standard output directly instead of the stream passed to the solve' % nm)
            if nm in ('strcpy', 'strcat', 'gets', 'vsprintf'):
                ck.undecided('bounded', w, '%s is not analysed' % nm)
            if nm not in FAMILY: continue
            A = n['a']; k = FAMILY[nm]
            if len(A) <= k: continue
            if nm[0] == 'v':
                forwarded(ck, P, f, w, nm, A[k]); continue
            for v, at in texts(P, f, A[k]):
                w2 = w if at is None else '%s, called at %s' % (w, at)
                if v is False: ck.bad('format', w2, 'the format of %s is not a literal: text containing a conversion would be misread' % nm)
                elif v is None: ck.undecided('format', w2, 'where the format of %s comes from' % nm)
                else:
                    conversions(ck, w2, nm, v, A[k + 1:])
                    if nm == 'sprintf': ck.put('bounded', w2, worst(v, A[2:], cap_of(f, A[0])), 'the longest output fits', 'sprintf may write beyond its buffer')

def forwarded(ck, P, f, w, nm, n):
    """the format and the arguments are those of the calls of a variadic function"""
    s = strip(n); ids = [p.get('id') for p in f['p']]
    if s['k'] != 'ref' or s.get('id') not in ids or written(f, s['id']) != []: ck.undecided('format', w, 'where the format of %s comes from' % nm); return
    i = ids.index(s['id']); any_ = False
    for g, c in calls_of(P, f):
        any_ = True
        w2 = '%s:%s %s' % (rel(g['file']), c.get('l'), g['n'])
        for v, at in texts(P, g, c['a'][i]):
            if v is False: ck.bad('format', w2, 'the format of %s is not a literal: text containing a conversion would be misread' % simple(f['n']))
            elif v is None: ck.undecided('format', w2, 'where the format of %s comes from' % simple(f['n']))
            else: conversions(ck, w2, simple(f['n']), v, c['a'][len(ids):])
    if not any_: ck.undecided('format', w, '%s is not called' % simple(f['n']))

def calls_of(P, f):
    for g in P.own_functions():
        if g.get('body') is None or g['file'].endswith('driver.cc'): continue
        for c in walk(g['body']):
            if c['k'] == 'call' and c.get('c') and c['c'].get('key') == f['key'] and len(c.get('a') or ()) >= len(f['p']): yield g, c

def texts(P, f, n, seen=()):
    """the texts the expression n of f can be, with the call that passes it:
    a string, False (not a literal) or None (unknown)"""
    s = strip(n)
    if s['k'] == 'str': return [(s['v'], None)]
    if s['k'] == 'cond': return texts(P, f, s['a'], seen) + texts(P, f, s['b'], seen)
    if s['k'] != 'ref': return [(False, None)]
    t = plain(s.get('t') or '')
    ids = [p.get('id') for p in f['p']]
    if s.get('id') in ids and s.get('id') is not None:
        i = ids.index(s['id'])
        if f['key'] in seen or written(f, s['id']) != []: return [(None, None)]
        out = []
        for g, c in calls_of(P, f):
            at = '%s:%s' % (rel(g['file']), c.get('l'))
            out += [(v, '%s, %s' % (at, a) if a else at) for v, a in texts(P, g, c['a'][i], seen + (f['key'],))]
        return out or [(None, None)]
    if re.match(r'^char ?\[', t) and s.get('d') == 'var':
        i = initial(f, s['id'])
        return texts(P, f, i, seen) if i is not None and strip(i)['k'] == 'str' and 'const' in (s.get('t') or '') else [(False, None)]
    if s.get('d') == 'global':
        return texts(P, f, s['init'], seen) if s.get('init') is not None and 'const' in (s.get('t') or '') else [(None, None)]
    if s.get('d') == 'var':
        vs = written(f, s['id']); i = initial(f, s['id'])
        if vs is None or (i is None and not vs): return [(None, None)]
        return [x for v in ([i] if i is not None else []) + vs for x in texts(P, f, v, seen)]
    return [(None, None)]

def initial(f, id):
    for n in walk(f['body']):
        for v in (n.get('v') or ()) if n['k'] == 'decl' else ():
            if v.get('id') == id: return v.get('init')
    return None

def written(f, id):
    """the expressions assigned to a variable; None when its address is taken"""
    out = []
    for n in walk(f['body']):
        if n['k'] == 'assign' and strip(n['a']).get('id') == id and strip(n['a'])['k'] == 'ref': out.append(n['b'])
        elif n['k'] in ('un', 'cassign') and n.get('op') != '*':
            for x in (n.get('a'), n.get('e')):
                if isinstance(x, dict) and strip(x)['k'] == 'ref' and strip(x).get('id') == id: return None
    return out

def conversions(ck, w, nm, fmt, args):
    pos = 0; used = 0
    stray = CONV.sub('', fmt)
    if '%' in stray: ck.bad('format', w, 'format "%s" has an invalid conversion' % fmt); return
    for m in CONV.finditer(fmt):
        c = m.group('c')
        if c == '%': continue
        for star in (m.group('w'), m.group('p')):
            if star == '*':
                if used >= len(args): ck.bad('format', w, 'format "%s" needs more arguments' % fmt); return
                if plain(strip(args[used]).get('t')) not in INT['']: ck.bad('format', w, 'the * of "%s" needs an int' % fmt); return
                used += 1
        if used >= len(args): ck.bad('format', w, 'format "%s" has more conversions than the %d arguments' % (fmt, len(args))); return
        t = plain(args[used].get('t') or '')
        a = strip(args[used]); at = plain(a.get('t') or t)
        ok = agrees(c, m.group('len') or '', t, at, args[used])
        if ok is None: ck.undecided('format', w, 'type %s of argument %d of "%s"' % (t, used + 1, fmt))
        elif not ok: ck.bad('format', w, 'conversion %s of "%s" does not agree with an argument of type %s' % (m.group(0), fmt, t or at)); return
        used += 1
    if used != len(args): ck.bad('format', w, 'format "%s" leaves %d of %d arguments unused' % (fmt, len(args) - used, len(args))); return
    ck.ok('format', w, '"%s" with %d arguments' % (fmt, len(args)))

def agrees(c, ln, t, at, n):
    if not t: t = at
    if not t: return None
    if c in 'diouxX': return t in INT.get(ln, ()) if t in sum(map(list, INT.values()), []) + ['double', 'float', 'long double'] or '*' in t or '::' in t else None
    if c == 'c': return t in INT['']
    if c in 'eEfFgGaA': return t == 'long double' if ln == 'L' else t in ('double', 'float')
    if c == 's': return bool(re.match(r'^char ?(\*|\[\d*\])$', t)) or at.startswith('char')
    if c == 'p': return '*' in t
    return False

def cap_of(f, n):
    n = strip(n)
    m = re.match(r'^char ?\[(\d+)\]$', plain(n.get('t') or ''))
    return int(m.group(1)) if m else None
def worst(fmt, args, cap):
    if cap is None: return None
    total = len(CONV.sub('', fmt)) + 1
    k = 0
    for m in CONV.finditer(fmt):
        c = m.group('c'); w = int(m.group('w')) if (m.group('w') or '').isdigit() else 0
        p = int(m.group('p')) if (m.group('p') or '').isdigit() else 6
        if c == '%': total += 1; continue
        if c in 'diu': b = 11 if not m.group('len') else 20
        elif c in 'eE': b = p + 9
        elif c in 'fF': b = p + 312
        elif c in 'gG': b = p + 9
        elif c == 's':
            s = strip(args[k]) if k < len(args) else {}
            if s.get('k') != 'str': return None
            b = len(s['v'])
        else: return None
        total += max(w, b); k += 1
    return total <= cap

# ---------------------------------------------------------------- runs
def recording(R): R.h.mem[PRINTED] = PLog(())

def silent(ck, P, kind, o):
    for stream in (True, False):
        R = Run(P, kind, display=0, stream=stream, **o)
        ck.saw(R.e)
        evs = [e for e in R.e.events if e.kind == 'print']
        for e in evs: ck.bad('silent', '%s:%s %s' % (e.file, e.line, e.fn), 'text is printed with display off, through %s' % ' > '.join(simple(s[0]) for s in e.stack[-4:]))
        if not evs: ck.ok('silent', R.where, 'no print is reachable with display off (%s%s)' % (R.label, '' if stream else ', default stream'))

def known_print(x): return isinstance(x, Text)
KEY = [('PRIMAL_DUAL_INFEASIBLE', r'primal\W*(and)?\W*dual'), ('PRIMAL_INFEASIBLE', r'primal'), ('DUAL_INFEASIBLE', r'dual'), ('SUCCESS', r'success|optimal\b|solved'), ('DIVERGENCE', r'diverg'), ('MAXITERATIONS', r'max(imum)?\W*iter|iteration\w*\W*(limit|cap)|limit|timeout|timed out')]

def summary(ck, P, kind, o, d):
    R = Run(P, kind, display=d, setup=recording, **o)
    ck.saw(R.e)
    seen = set()
    for e in R.e.events:
        if e.kind == 'snprintf':
            cap, size, t = e.data; w = '%s:%s %s' % (e.file, e.line, e.fn)
            if (w, 'b') in seen: continue
            seen.add((w, 'b'))
            if size is None: continue
            v = None if cap is None else R.e.st.facts.decide(le(size, cap))
            if v is not True and cap is not None and size.const() is not None and cap.const() is not None: v = size.const() <= cap.const() and size.const() > 0
            ck.put('bounded', w, v, 'limited to %s of %s characters' % (size, cap), 'up to %s characters are written to a buffer of %s' % (size, cap))
        elif e.kind == 'print':
            t, stream = e.data; st = e.stack[-2:] if e.stack else ()
            cs = [x for x in e.stack if simple(x[0]) not in ('Print', 'PrintImplementation')]
            w = '%s, called at line %s of %s' % (simple(e.fn), e.stack[-1][1] if e.stack else '?', simple(cs[-1][0]) if cs else '?')
            k = (w, stream, t.alts if isinstance(t, Text) else None)
            if k in seen: continue
            seen.add(k)
            ck.put('stream', w, stream == ('L', '<check>', 'os'), 'printed through the stream given', 'text is printed to %s, not to the stream passed to the solve' % ('the standard output' if stream is None else 'another stream'))
            if not isinstance(t, Text): ck.put('terminated', w, False if isinstance(t, Opaque) and t.name == 'chars' else None, '', 'a buffer that was never written is printed' if isinstance(t, Opaque) and t.name == 'chars' else 'unknown text %r' % (t,))
            else: ck.put('terminated', w, None not in t.alts, 'the printed buffer holds a formatted text', 'a buffer that is not written on every path is printed')
    for x in R.exits: ck.attempt('summary', x.where, exit_, ck, R, x, d)

def render(t):
    """the text with string arguments filled in, and the remaining arguments"""
    if t is None or t[0] is None: return None
    vals = []; it = iter(t[1])
    def one(m):
        if m.group('c') == '%': return '%'
        for s in (m.group('w'), m.group('p')):
            if s == '*': next(it, None)
        v = next(it, None)
        if isinstance(v, Str): return v.s
        if isinstance(v, Ptr): return ''
        vals.append((m.group('c'), v)); return '<%d>' % (len(vals) - 1)
    return CONV.sub(one, t[0]), vals

def exit_(ck, R, x, d):
    w = x.where + ', display %d' % d
    log = x.st.mem.get(PRINTED)
    if not isinstance(log, PLog): ck.undecided('summary', w, 'what is printed last is not known'); return
    if not log.items: ck.bad('summary', w, 'no summary is printed although the display is on'); return
    if any(not isinstance(t, Text) or len(t.alts) != 1 or t.alts[0] is None for t in log.items):
        if all(isinstance(t, Text) and None not in t.alts for t in log.items): multi(ck, R, x, w, log); return
        ck.undecided('summary', w, 'unknown text printed'); return
    judge(ck, R, x, w, [render(t.alts[0]) for t in log.items], ())

def multi(ck, R, x, w, log): ck.undecided('summary', w, 'the printed text depends on conditions')

def judge(ck, R, x, w, texts, facts):
    if any(t is None for t in texts): ck.undecided('summary', w, 'a format is not known'); return
    e = R.e
    # exit flag
    words = ' '.join(t[0] for t in texts).lower()
    plainwords = ' '.join(t[0] for t in texts if not t[1]).lower()
    flags = set(); rest = plainwords
    for k, rx in KEY:
        if re.search(rx, rest): flags.add(k); rest = re.sub(rx, ' ', rest)
    if not flags:
        rest = words
        for k, rx in KEY:
            if re.search(rx, rest): flags.add(k); rest = re.sub(rx, ' ', rest)
    # 'max' of "out of max" counters is not an exit message
    ck.put('summary', w, flags == {x.name} if flags else False, 'the text names the exit %s' % x.name, 'the summary names the exit %s but the flag returned is %s' % (sorted(flags) or 'not at all', x.name))
    for nm, rx, v in (('Newton', r'newton', x.newton), ('proximal', r'prox', x.prox)):
        got = None
        for t, vals in texts:
            if re.search(rx, t.lower()) and any(c in 'di' for c, _ in vals):
                got = shown_near(t, vals, rx)
        if got is None: ck.bad('summary', w, 'the summary does not show the number of %s iterations' % nm); continue
        g = e.num(got)
        if g == v or zero_test(unfold(g - v)) is True: ck.ok('summary', w, 'shows the %s iterations returned' % nm)
        else: ck.put('summary', w, False if x.facts.decide(eq(g, v)) is not True else True, 'shows the %s iterations returned' % nm, 'the summary shows %s %s iterations, returned are %s' % (str(g)[:120], nm, str(v)[:120]))
    # residual
    ok = None; last = None
    for t, vals in reversed(texts):
        fs = [e.num(v) for c, v in vals if c in 'eEfFgG' and isinstance(v, (Poly, F))]
        if not fs or 'time' in t.lower(): continue
        last = fs; break
    if last is None: ck.bad('summary', w, 'the summary shows no residual'); return
    r2 = unfold(x.residual * x.residual)
    for f in last:
        if f == x.residual or zero_test(unfold(f - x.residual)) is True: ok = True
    if not ok and len(last) >= 3:
        for k in range(len(last) - 2):
            s = unfold(last[k] * last[k] + last[k + 1] * last[k + 1] + last[k + 2] * last[k + 2])
            if zero_test(s - r2) is True: ok = True
    ck.put('summary', w, bool(ok), 'shows the components of the residual returned', 'the norms shown, %s, are not those of the residual returned, %s' % (', '.join(str(f)[:80] for f in last), str(x.residual)[:160]))

def shown_near(t, vals, rx):
    """the first integer printed after the word"""
    m = None
    for m in re.finditer(rx, t.lower()): break
    for k in re.finditer(r'<(\d+)>', t[m.end():]):
        c, v = vals[int(k.group(1))]
        if c in 'di': return v
    return None

# ----------------------------------------------------------- influence
def influence(ck, P, kind, o):
    R = Run(P, kind, display=None, **o)
    ck.saw(R.e)
    dl = R.S.opt['display_level'].atoms()[0].id
    def has(x):
        if x is None: return False
        at = set(); collect(x, at, set()); return dl in at
    def lits(facts): return [f for f in facts.fs if has(f)]
    groups = {}
    for x in R.exits:
        bad = [n for n, v in (('z', x.X['z']), ('l', x.X['l']), ('v', x.X['v']), ('y', x.X['y']), ('residual', x.residual), ('initial residual', x.initial), ('newton_iters', x.newton), ('prox_iters', x.prox)) if has(v)]
        ck.put('no-influence', x.where, not bad, 'no returned value depends on the verbosity', 'the returned %s depend on display_level' % ', '.join(bad))
        groups.setdefault((x.flag,) + tuple(x.X[q] for q in 'zlvy') + (x.residual, x.newton, x.prox), []).append(x)
    for g, xs in groups.items():
        cover(ck, xs[0].where, [lits(x.facts) for x in xs], 'this exit')
    for loop in R.e.loops:
        w = '%s:%s %s' % (rel(loop['file']), loop['line'], loop['fn'])
        if any(has(c) for c in loop['condf']): ck.bad('no-influence', w, 'the loop condition depends on display_level'); continue
        decisions(ck, w, loop, has)
        bad = []
        for b in loop['backs']:
            for l, p in loop['phis'].items():
                v = b.mem.get(l)
                if isinstance(v, (Poly, Mat, F)) and has(v): bad.append(l)
                elif isinstance(v, Arr) and not any(isinstance(w_.val, Barrier) for w_ in v.log):
                    try:
                        saved = R.e.st; R.e.st = b
                        if has(R.e.arr_all(v)): bad.append(l)
                    except Broken: pass
                    finally: R.e.st = saved
        ck.put('no-influence', w, not bad, 'nothing carried by the loop depends on the verbosity', 'what the loop carries depends on display_level: %s' % ', '.join(R.e.loc_name(l)[-40:] for l in bad[:4]))

def decisions(ck, w, loop, has):
    """whether another pass is made must not depend on the verbosity"""
    base = loop['head'].facts.set
    out = [('continues', b.facts) for b in loop['backs']] + [('ends', o.st.facts) for o in loop['exits']]
    ls = []
    for k, fs in out:
        for f in fs.fs:
            if f not in base and has(f):
                for l in literals(f):
                    if has(l) and l not in ls: ls.append(l)
    if not ls: return
    if len(ls) > 6: ck.undecided('no-influence', w, 'many verbosity conditions'); return
    for k in ('continues', 'ends'):
        c = for_(*[fand(*[f for f in fs.fs if f not in base]) for q, fs in out if q == k])
        cs = []
        for m in range(1 << len(ls)):
            t = {l: TRUE if m >> i & 1 else FALSE for i, l in enumerate(ls)}
            if m and entails([], fnot(fand(*[l if v == TRUE else fnot(l) for l, v in t.items()]))) is True: continue
            g = tsub(c, t)
            if g not in cs: cs.append(g)
        for g in cs[1:]:
            r = [entails([], for_(fnot(a), b)) for a, b in ((cs[0], g), (g, cs[0]))]
            if any(x is False for x in r):
                ck.bad('no-influence', w, 'whether the loop %s depends on display_level (%s)' % (k, ', '.join(str(l) for l in ls)[:200])); return
            if any(x is None for x in r): ck.undecided('no-influence', w, 'the verbosity may decide whether the loop %s' % k); return

def cover(ck, w, fss, what):
    """do the verbosity conditions of the paths reaching the same result leave
    no case out?"""
    if any(not fs for fs in fss): return
    goal = for_(*[fand(*fs) for fs in fss])
    r = entails([], goal)
    if r is True: return
    ck.put('no-influence', w, False if r is False else None, '', '%s is only taken for some verbosities: %s' % (what, str(goal)[:200]))
