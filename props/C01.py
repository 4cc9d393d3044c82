"""m2e solves Kepler's equation for every elliptic eccentricity and every mean anomaly."""
import dag, oracles as O, mpmath as mp, numpy as np
from prop import *
import families as F
from C05 import root_obl, noconv_spec

def ell(angles=(), extra=None):
    """0 <= e < 1 via q = sqrt((1-e)/(1+e)) in (0, 1]"""
    def setup(A):
        A.newvar("q"); A.varsign[A.index["q"]] = 1
        one = A.const(1); q2 = F.rat(A, (1, "q", "q"))
        A.assume_pos(A.add(one, q2))
        A.assume_pos(A.sub(one, q2), strict=False)
        A.inputs["ecc"] = A.div(A.sub(one, q2), A.add(one, q2))
        for a in angles: F.half(A, a, "C" + a, "S" + a)
    def sample(rng, n):
        e = np.where(rng.random(n) < 0.3, 1 - 10.0 ** rng.uniform(-9, -1, n), rng.random(n)); e = np.where(rng.random(n) < 0.05, 0.0, e)
        S = {"ecc": e}
        for a in ("M", "E", "f"):
            x = rng.uniform(-np.pi, np.pi, n); x = np.where(rng.random(n) < 0.3, rng.uniform(-40, 40, n), x)
            S[a] = x
        return S
    return Family("ellipse", setup, sample, "0 <= e < 1, every real anomaly", keep=lambda S: (S["ecc"] >= 0) & (S["ecc"] < 1))

def nanfam():
    def setup(A):
        A.newvar("u"); A.inputs["ecc"] = F.rat(A, (1,), (1, "u", "u"))
    def sample(rng, n):
        S = {"ecc": 1 + np.where(rng.random(n) < 0.2, 0.0, rng.exponential(1, n))}
        for a in ("M", "E", "f"): S[a] = rng.uniform(-4, 4, n)
        return S
    return Family("e>=1", setup, sample, "e >= 1", keep=lambda S: S["ecc"] >= 1)

def m2e_spec(c):
    if c.kind == "throw": yield Truth("no exception on e < 1", False); return
    E = c.o[0]; e = c.v("ecc"); M = c.v("M")
    f = sum_f(c)
    m = E - e * dag.sin(E) - f
    yield Zero("sin(E - e sin E) = sin M", dag.sin(m) - dag.sin(M))
    yield Zero("cos(E - e sin E) = cos M", dag.cos(m) - dag.cos(M))
    yield from root_obl(c, digits=45, maxit=50)
    for rec in c.roots:
        yield Pos("root: interval reaches above the solution", rec["hi"] - rec["x"] + rec["f"])
        yield Pos("root: interval reaches below the solution", rec["x"] - rec["f"] - rec["lo"])
        if rec["f"] is not None:
            yield NonNeg("equation at pi is >= 0: the solution is at most pi", dag.subst(rec["f"], {rec["x"]: dag.PI}))
            yield NonNeg("equation at -pi is <= 0: the solution is at least -pi", dag.neg(dag.subst(rec["f"], {rec["x"]: dag.neg(dag.PI)})))

def sum_f(c):
    """value of the solved equation (zero at the root); dag.ZERO when no search was made"""
    f = dag.ZERO
    for rec in c.roots:
        if rec.get("f") is not None: f = f + rec["f"]
    return f

def nan_spec(c):
    yield Truth("out-of-range eccentricity gives NaN, not a number", c.kind == "ok" and c.o[0] is dag.NAN)

def nan_oracle(inp, rc, o):
    if rc != 0 or o[0] == o[0]: return "expected NaN outside the eccentricity range, got rc %d value %r" % (rc, o[0])

def oracle(inp, rc, o):
    M, e = inp
    if not e < 1: return nan_oracle(inp, rc, o)
    if rc != 0: return "m2e raised %s" % CODES.get(rc, rc)
    E = O.mpf(o[0]); Mm = O.mpf(M); e = O.mpf(e)
    if not mp.isfinite(E): return "m2e returned %r" % o[0]
    d = E - e * mp.sin(E) - Mm
    d -= 2 * mp.pi * mp.nint(d / (2 * mp.pi))
    if abs(d) > 1e-9 * max(1, abs(Mm) * O.mpf(2) ** -20): return "m2e(%r, %r) = %r: E - e sin E - M = %s (mod 2 pi)" % (M, float(e), o[0], mp.nstr(d, 6))
    if abs(E) > mp.pi + 1e-9: return "m2e(%r, %r) = %r outside [-pi, pi]" % (M, float(e), o[0])

def cases(tier):
    return [Case("m2e", "h_m2e", ["M", "ecc"], 1, [ell()], m2e_spec, oracle),
            Case("m2e-noconv", "h_m2e", ["M", "ecc"], 1, [ell()], noconv_spec, oracle, root_mode="noconv"),
            Case("m2e-range", "h_m2e", ["M", "ecc"], 1, [nanfam()], nan_spec, nan_oracle, k=0)]

def run(R):
    R.bounds += ["0 <= e < 1 (all), every real mean anomaly; real arithmetic; the root search is encoded by its contract (it returns a zero of the given function, or exhausts its iterations)"]
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
