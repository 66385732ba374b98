#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALGO = 'abstract interpretation of the instantiated solver with an algebraic domain and inductive loop invariants'
T = dict(
 C01=ALGO, C02=ALGO, C03=ALGO + '; bounded-counter rule on every loop', C04='dependence (taint) analysis of stale and undefined workspace values over the abstract interpretation',
 C05=ALGO, C06=ALGO, C07='symbolic normal form of the computed residual compared with the KKT formulas', C08='symbolic normal form of every data product compared blockwise with the problem matrices',
 C09='symbolic normal form of the dense Newton step reduced with the factorization identities', C10='symbolic normal form of the Riccati recursion reduced with the factorization identities',
 C11='interval and order analysis of the option code', C12=ALGO, C13='abstract interpretation of constructors, solves and component operations against a conformance specification', C14='index, shape and alias obligations discharged by the abstract interpreter',
 C15='write-effect analysis of caller owned storage', C16='symbolic comparison of the owned and mapped paths, alias analysis of the copies', C17='typestate (checked factorization before use) over all paths',
 C18='output effect analysis with format-string typing and buffer bounds', C19='whole-program rules on globals, statics, mutable fields, const operations and copyability', C20=ALGO, C21='points-to analysis of the wiring of each solver object', C22=ALGO,
 C23='type-level witnesses: programs written from the documentation must type-check, spoiled ones must not; symbol rules on unoptimised object code',
 C24='type-level witness: the algorithm instantiated with components written from the documented interface only',
 C25='abstract interpretation of the solve with clock readings as unknowns')
NA = dict(
 C26='Convergence within an iteration budget quantifies over the spectra of the Newton systems and the contraction of the proximal iteration, run-time quantities that no static argument over the source bounds; C12 and C22 decide the descent and stopping rules the convergence proof rests on.',
 C27='All analyses here are in real arithmetic; a bound on the rounding of dense and Riccati factorizations depends on the condition numbers of the data, which the source does not fix, and interval analysis of matrices of unknown size gives no finite bound.')
NOTE2 = 'Decided by type-checking witness programs against the headers and sources of the current tree with clang and g++ in the standard the library is built with (C++11; later ones in the thorough tier); nothing is run. Covers the documented uses that are written down in /verif/witness and checks/c23.py, not every program a user could write.'
NOTE = ('Decided statically on the clang AST of the current sources, in real arithmetic (no rounding) and for finite inputs, for all dimensions unless a horizon bound is stated in the evidence; '
        'trusts the modelled semantics of Eigen and the standard library and, for the algorithm level, the component specifications that other checks here decide on the implementations.')
checks = []; na = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i, technique='static analysis: ' + T[i], level='other', level_note=NOTE2 if i in ('C23', 'C24') else NOTE))
    else: na.append(dict(property=i, reason=NA[i]))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes='No hooks are added to /repo; all analysis reads its sources as they are.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
