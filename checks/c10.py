"""The Riccati Newton step solves the linearised MPC subproblem."""
from c09 import *

def run(ck, P):
    for n, t in RULES: ck.rule(n, t + ' (every stage)', 1 if n == 'success-state' else 4)
    for N in ([1, 2, 3] if ck.tier == "quick" else [1, 2, 3, 4, 5, 6]):
        if ck.bads: break    # the larger horizons only repeat it
        ck.attempt('stationarity', 'RiccatiLinearSolver, N=%d' % N, body, ck, P, 'mpc', N)
