"""propagate_lagrangian_u (universal variables) is the Keplerian flow, in any units."""
import dag, oracles as O, numpy as np
from prop import *
import families as F
import C05
from C05 import RV

def pos_root(A, path):
    """the universal anomaly has the sign of the (made positive) time of flight: its
    equation is strictly increasing and negative at 0, both obligations below"""
    for k, rec in path.facts:
        if k == "root": A.varsign[A.newvar(rec["x"].val)] = 1

def parabolic():
    """energy exactly zero: R0 = 2 k^2, V = m / k"""
    def setup(A):
        for n in "k m".split(): A.newvar(n); A.varsign[A.index[n]] = 1
        F.circle(A, "c", "s"); A.varsign[A.index["s"]] = 1
        e1, e2, e3 = F.frame(A)
        R0 = F.rat(A, (2, "k", "k")); V = A.div(F.g(A, "m"), F.g(A, "k"))
        for i in range(3):
            A.inputs["xyz"[i]] = A.mul(R0, e1[i])
            A.inputs[["vx", "vy", "vz"][i]] = A.mul(V, A.add(A.mul(F.g(A, "c"), e1[i]), A.mul(F.g(A, "s"), e2[i])))
        A.inputs["mu"] = F.rat(A, (1, "m", "m"))
    def sample(rng, n):
        # exactly representable parabolic states: |r| = 2 k^2, |v| = m / k on coordinate axes
        k = 2.0 ** rng.integers(-2, 3, n); m = 2.0 ** rng.integers(-2, 3, n)
        S = {x: np.zeros(n) for x in RV}
        S["x"] = 2 * k * k; S["vy"] = m / k; S["mu"] = m * m
        S["tof"] = rng.uniform(-3, 3, n) * np.sqrt((2 * k * k) ** 3 / (m * m))
        return S
    return Family("parabolic", setup, sample, "all r,v with energy == 0")

def oracle(inp, rc, o):
    if rc != 0: return "returned %s on a valid state" % CODES.get(rc, rc)
    import mpmath as mp
    r, v, mu = [O.mpf(x) for x in inp[:3]], [O.mpf(x) for x in inp[3:6]], O.mpf(inp[7])
    if abs(2 / O.norm(r) - O.dot(v, v) / mu) * O.norm(r) < O.mpf(10) ** -12: return None
    return O.flow_oracle(inp, o)

def si(fam):
    """the same orbits in SI units"""
    def sample(rng, n):
        S = fam.sample(rng, n)
        L, M = 1.495978707e11, 1.32712440018e20
        T = (L ** 3 / M) ** 0.5
        for k in S:
            if k in "x y z".split(): S[k] = S[k] * L
            elif k in "vx vy vz".split(): S[k] = S[k] * (L / T)
            elif k == "tof": S[k] = S[k] * T
            elif k == "mu": S[k] = S[k] * M
        return S
    return Family(fam.name + "-SI", fam.setup, sample, fam.desc + " (numeric witnesses in SI units)")

def scaled_bracket(c):
    """units: the search interval and guess scale like the universal anomaly, sqrt(length)"""
    yield Truth("one root search", len(c.roots) == 1)
    lam = dag.var("lam")           # lengths * lam^2, mu fixed times lam^6 / time^2 : here time unit fixed
    sub = {c.v(n): c.v(n) * lam * lam for n in RV}
    sub[c.v("mu")] = c.v("mu") * lam ** 6
    c.A.varsign[c.A.newvar("lam")] = 1
    for rec in c.roots:
        for k in ("lo", "hi", "guess"):
            if not isinstance(rec[k], Node): continue
            yield Zero("root search %s is covariant under a change of length unit" % k, dag.subst(rec[k], sub) - lam * rec[k])

def sqrt_a(c):
    """sqrt(|a|): the universal anomaly difference is the hyperbolic one times this"""
    r = [c.v(n) for n in RV]; mu = c.v("mu")
    R0 = dag.sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2])
    return dag.ONE / dag.sqrt((r[3] * r[3] + r[4] * r[4] + r[5] * r[5]) / mu - dag.TWO / R0)

def cases(tier):
    fams = [F.orbit(False, far=True), F.orbit(True, far=True), parabolic()]
    spec = C05.flow_spec(scale=sqrt_a)
    return [Case("universal", "h_prop_u", RV + ["tof", "mu"], 6, fams, spec, oracle, timeout=100, prep=pos_root, elim='tof'),
            Case("universal-units", "h_prop_u", RV + ["tof", "mu"], 6, [si(F.orbit(False)), si(F.orbit(True))], scaled_bracket, oracle, prep=pos_root),
            Case("universal-noconv", "h_prop_u", RV + ["tof", "mu"], 6, fams[:2], C05.noconv_spec, oracle, root_mode="noconv", prep=pos_root)]

def run(R):
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
