"""Reynolds' direct state transition matrix is the Jacobian of the Keplerian flow."""
import dag, oracles as O, numpy as np
from prop import *
import families as F
import C05, C08
from C05 import RV

def spec(c):
    if c.kind == "throw": yield Truth("no exception (%s) on a valid state" % c.throws, False); return
    yield Truth("return code", c.rc == 0)
    for rec in c.roots: c.hint(dag.Diff(rec["x"])(rec["f"]))
    yield Truth("one matrix inversion", len(c.invs) == 1)
    W0, X = c.invs[0]["A"], c.invs[0]["X"]
    M = [[c.o[6 + 6 * i + j] for j in range(6)] for i in range(6)]
    vs = {n.val for n in dag.variables([M[0][1]])}
    if X[3][1].val not in vs and X[1][3].val in vs: W0 = [list(r) for r in zip(*W0)]; X = [list(r) for r in zip(*X)]
    # M = Wf X with X the inverse of W0:  M is the Jacobian J iff J W0 = Wf
    Wf = [[dag.Diff(X[k][0], {})(M[i][0]) for k in range(6)] for i in range(6)]
    for i in range(6):
        for j in range(6):
            yield Zero("M[%d][%d] = (Wf W0^-1)" % (i, j), sum((Wf[i][k] * X[k][j] for k in range(6)), dag.ZERO) - M[i][j])
    D = [c.D(n) for n in RV]
    J = [[D[k](c.o[i]) for k in range(6)] for i in range(6)]
    for i in range(6):
        for j in range(6):
            yield Zero("(J W0 - Wf)[%d][%d]" % (i, j), sum((J[i][k] * W0[k][j] for k in range(6)), dag.ZERO) - Wf[i][j])

def oracle(inp, rc, o): return C08.stm_oracle(inp, rc, o, base=1e-5)

def cases(tier):
    fams = [F.orbit(False, emax=0.9), F.orbit(True)]
    return [Case("stm-reynolds", "h_prop_reynolds", RV + ["tof", "mu"], 42, fams, spec, oracle, k=1, timeout=300),
            Case("reynolds-no-stm", "h_prop_reynolds", RV + ["tof", "mu"], 6, fams, C05.flow_spec(), C05.oracle, k=0)]

def run(R):
    R.bounds += ["every elliptic / hyperbolic state with non-zero angular momentum, every time of flight, where the initial fundamental matrix is invertible (LAPACK's inverse is taken by its contract); real arithmetic"]
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
