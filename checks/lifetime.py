"""No expression object or view outlives the temporary or local it refers to."""
from env import *
import re
OWN = re.compile(r'^(const )?(Eigen::(Matrix|Array)\b|std::(vector|array|basic_string)\b|fbstab::MatrixSequence\b|fbstab::FBstab\w+::(ProblemData|Variable)$)')
def owning(t): return bool(OWN.match(t.strip())) and not t.rstrip().endswith(('*', '&'))
SCALAR = re.compile(r'^(const )?(double|float|int|long|bool|unsigned long|unsigned int|char|void)$')
def view(t):
    """a type whose value refers to storage it does not own"""
    u = t.strip()
    if u.endswith('*'): return not u.startswith(('const char', 'char'))
    if u.endswith('&'): return True
    u = re.sub(r'^const ', '', u)
    return u.startswith('Eigen::') and not OWN.match(u) and not re.match(r'Eigen::(LLT|LDLT|PartialPivLU|FullPivLU|ColPivHouseholderQR|HouseholderQR|\w*Solver|Index|ComputationInfo|Stride|InnerStride|OuterStride|NumTraits|NoChange)', u) or u.startswith('fbstab::MapMatrixSequence')

def temps(n, out, top=False):
    """owning temporaries that the value of n may refer to"""
    if not isinstance(n, dict): return
    k = n.get('k')
    if k == 'mat':
        if owning(n['t']):
            if not top: out.append(n)
            return
        temps(n['e'], out, False); return
    t = n.get('t', '')
    if SCALAR.match(t.strip()) or owning(t) and k in ('call', 'new_obj', 'cast'):
        return
    if k == 'cast': temps(n['e'], out, top); return
    if k == 'cond':
        for q in ('a', 'b', 'e', 'f'): temps(n.get(q), out)
        return
    if k == 'un' : temps(n.get('e'), out); return
    if k in ('call', 'new_obj'):
        if not view(t): return
        o = n.get('o')
        if o is not None: temps(o, out)
        for a in n.get('a', []): temps(a, out)
        return
    if k == 'mem': temps(n.get('b'), out); return

def locals_(n, ids, out):
    """locals of the function that the value of n may refer to"""
    if not isinstance(n, dict): return
    k = n.get('k'); t = n.get('t', '')
    if k == 'ref':
        if n.get('d') == 'var' and n.get('id') in ids: out.append(n)
        return
    if SCALAR.match(t.strip()) and k != 'mem': return
    if k in ('cast', 'mat'): locals_(n['e'], ids, out); return
    if k == 'un': locals_(n.get('e'), ids, out); return
    if k in ('call', 'new_obj'):
        if not view(t) and not k == 'new_obj': return
        if n.get('o') is not None: locals_(n['o'], ids, out)
        for a in n.get('a', []): locals_(a, ids, out)
        return

def check(ck, P, rule):
    n = 0
    for f in P.own_functions():
        if f.get('body') is None: continue
        at = lambda l: '%s:%s %s' % (rel(f['file']), l, f['n'])
        own = {}
        for p in f['p']:
            if owning(p['t']): own[p.get('id')] = p.get('n')
        for d in walk(f['body']):
            if d.get('k') != 'decl': continue
            for v in d['v']:
                t = v.get('t', '')
                if owning(t) and not v.get('static'): own[v['id']] = v.get('n')
                if not view(t) or v.get('init') is None: continue
                n += 1; out = []
                temps(v['init'], out, top=t.rstrip().endswith('&'))
                if out: ck.bad(rule, at(v.get('l', d.get('l'))), 'variable %s (%s) refers to a temporary %s that is destroyed at the end of its declaration' % (v.get('n', '?'), t[:80], out[0]['t'][:60]))
                else: ck.ok(rule, at(d.get('l')), 'variable of type %s' % t[:60])
        if view(f.get('rt', '')):
            for r in walk(f['body']):
                if r.get('k') not in ('ret', 'return') or not isinstance(r.get('e'), dict): continue
                n += 1; out = []; tmp = []
                locals_(r['e'], own, out); temps(r['e'], tmp)
                if out or tmp: ck.bad(rule, at(r.get('l')), 'the returned value refers to %s, which ends with the call' % (own.get(out[0].get('id')) if out else 'a temporary ' + tmp[0]['t'][:60]))
                else: ck.ok(rule, at(r.get('l')), 'returned %s' % f['rt'][:60])
    return n
