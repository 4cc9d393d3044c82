"""The state transition matrix of propagate_lagrangian is the Jacobian of the flow."""
import dag, oracles as O, mpmath as mp
from prop import *
import families as F
import C05
from C05 import RV

def stm_spec(off=6):
    def spec(c):
        if c.kind == "throw":
            yield Truth("no exception (%s) on a valid state" % c.throws, False); return
        yield Truth("return code", c.rc == 0)
        for rec in c.roots: c.hint(dag.Diff(rec["x"])(rec["f"]))
        for j, n in enumerate(RV):
            D = c.D(n)
            for i, m in enumerate(RV):
                yield Zero("d%s/d%s0" % (m, n), D(c.o[i]) - c.o[off + 6 * i + j])
    return spec

def stm_oracle(inp, rc, o, off=6, base=1e-6):
    if rc != 0: return "returned %s on a valid state" % CODES.get(rc, rc)
    r, v, t, mu = inp[:3], inp[3:6], inp[6], inp[7]
    w = O.flow_oracle(inp, o[:6])
    if w: return "state: " + w
    J = O.kepler_stm(r, v, t, mu)
    eps = 2.0 ** -50
    J2 = O.kepler_stm([x * (1 + eps) for x in r], [x * (1 - eps) for x in v], t * (1 + eps), mu)
    R, V = O.norm([O.mpf(x) for x in r]), O.norm([O.mpf(x) for x in v])
    # entries made dimensionless by the scale of rows and columns
    M = max(abs(J[i][j] * (R if j < 3 else V) / (R if i < 3 else V)) for i in range(6) for j in range(6))
    for i in range(6):
        for j in range(6):
            f = (R if j < 3 else V) / (R if i < 3 else V)
            got = o[off + 6 * i + j]
            tol = base * M + 1e5 * abs(J2[i][j] - J[i][j]) * f
            if tol > 0.05 * M: return None
            if got != got or abs(O.mpf(got) - J[i][j]) * f > tol:
                return "d%s/d%s0: got %r, expected %s" % (RV[i], RV[j], got, mp.nstr(J[i][j], 15))
    return None

def cases(tier):
    fams = [F.orbit(False, emax=0.9), F.orbit(True)]
    return [Case("stm-lagrangian", "h_prop_lagr_stm", RV + ["tof", "mu"], 42, fams, stm_spec(), stm_oracle, timeout=200),
            Case("state-with-stm", "h_prop_lagr_stm", RV + ["tof", "mu"], 42, fams, C05.flow_spec(), C05.oracle)]

def run(R):
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
