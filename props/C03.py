"""Hyperbolic anomaly conversions."""
import dag, oracles as O, numpy as np
from prop import *
import mpmath as mp
import families as F
from C01 import sum_f
from C02 import angle
from C05 import root_obl, noconv_spec
S, C, Sh, Ch = dag.sin, dag.cos, dag.sinh, dag.cosh
ONE = dag.ONE

def beta(e): return dag.sqrt(e * e - ONE)
def hyp():
    """e > 1 via q = sqrt((e-1)/(e+1)) in (0, 1); |f| < acos(-1/e)"""
    def setup(A):
        A.newvar("q"); A.varsign[A.index["q"]] = 1
        one = A.const(1); q2 = F.rat(A, (1, "q", "q"))
        A.assume_pos(A.add(one, q2)); A.assume_pos(A.sub(one, q2)); A.assume_pos(A.sub(one, F.g(A, "q")))
        A.inputs["ecc"] = A.div(A.add(one, q2), A.sub(one, q2))
    def sample(rng, n):
        e = 1 + np.where(rng.random(n) < 0.3, 10.0 ** rng.uniform(-6, 3, n), rng.exponential(1, n) + 1e-3)
        H = np.where(rng.random(n) < 0.7, rng.uniform(-6, 6, n), rng.uniform(-40, 40, n)); lim = np.arccos(-1 / e)
        return {"ecc": e, "H": H, "N": e * np.sinh(H) - H, "f": rng.uniform(-0.98, 0.98, n) * lim, "zeta": rng.uniform(-1.5, 1.5, n)}
    return Family("hyperbola", setup, sample, "e > 1", keep=lambda S: (S["ecc"] > 1) & ((S["f"] if "f" in S else 0) < np.arccos(-1 / S["ecc"])) & ((S["f"] if "f" in S else 0) > -np.arccos(-1 / S["ecc"])))
def nanfam():
    def setup(A): A.newvar("u"); A.inputs["ecc"] = F.rat(A, (1,), (-1, "u", "u"))
    def sample(rng, n):
        S = {"ecc": 1 - np.where(rng.random(n) < 0.2, 0.0, rng.random(n))}
        for a in ("N", "H", "f", "zeta"): S[a] = rng.uniform(-1, 1, n)
        return S
    return Family("e<=1", setup, sample, "e <= 1", keep=lambda S: S["ecc"] <= 1)
def nan_spec(c): yield Truth("out-of-range eccentricity gives NaN, not a number", c.kind == "ok" and c.o[0] is dag.NAN)

def f_of_H(H, e): d = e * Ch(H) - ONE; return (e - Ch(H)) / d, beta(e) * Sh(H) / d
def H_of_f(f, e): d = ONE + e * C(f); return (e + C(f)) / d, beta(e) * S(f) / d

def mk(kind):
    def spec(c):
        if c.kind == "throw": yield Truth("no exception on e > 1", False); return
        o = c.o[0]; e = c.v("ecc")
        if kind == "n2h":
            yield Zero("e sinh H - H = N", e * Sh(o) - o - sum_f(c) - c.v("N"))
            yield from root_obl(c, digits=45, maxit=50)
        elif kind == "h2n": yield Zero("N = e sinh H - H", o - (e * Sh(c.v("H")) - c.v("H")))
        elif kind == "h2f": yield from angle(c, "f", o, *f_of_H(c.v("H"), e))
        elif kind == "f2h":
            ch, sh = H_of_f(c.v("f"), e)
            yield Zero("sinh H", Sh(o) - sh); yield Zero("cosh H", Ch(o) - ch)
        elif kind == "f2n":
            ch, sh = H_of_f(c.v("f"), e); H = e * sh - o
            yield Zero("sinh(e sinh H - N)", Sh(H) - sh); yield Zero("cosh(e sinh H - N)", Ch(H) - ch)
        elif kind == "n2f":
            yield Truth("one anomaly search", len(c.roots) == 1)
            x = c.roots[0]["x"]
            yield Zero("e sinh H - H = N", e * Sh(x) - x - sum_f(c) - c.v("N"))
            yield from root_obl(c, digits=45, maxit=50)
            yield from angle(c, "f", o, *f_of_H(x, e))
        elif kind == "zeta2f":
            z = c.v("zeta"); d = e - C(z); yield from angle(c, "f", o, (e * C(z) - ONE) / d, beta(e) * S(z) / d)
        elif kind == "f2zeta":
            f = c.v("f"); d = e + C(f); yield from angle(c, "zeta", o, (ONE + e * C(f)) / d, beta(e) * S(f) / d)
        if kind in ("n2h", "n2f"):
            for rec in c.roots:
                yield NonNeg("search interval covers hyperbolic anomalies up to 45", rec["hi"] - 45); yield NonNeg("search interval covers hyperbolic anomalies down to -45", dag.const(-45) - rec["lo"])
    return spec

def mkor(kind):
    def oracle(inp, rc, o):
        x, e = inp
        if not e > 1:
            return None if rc == 0 and o[0] != o[0] else "%s: expected NaN for e = %r, got rc %d value %r" % (kind, e, rc, o[0])
        X, ee = O.mpf(x), O.mpf(e); lim = mp.acos(-1 / ee); b = mp.sqrt(ee * ee - 1)
        if kind in ("f2h", "f2n") and abs(X) >= lim * O.mpf("0.999"): return None
        if kind in ("f2zeta",) and abs(X) >= lim: return None
        if kind == "zeta2f" and abs(X) >= mp.pi / 2: return None
        if kind in ("n2h", "n2f") and abs(X) > ee * mp.mpf(10) ** 18: return None
        if rc != 0: return "%s raised %s" % (kind, CODES.get(rc, rc))
        g = o[0]
        if g != g: return "%s(%r, %r) = NaN" % (kind, x, e)
        G = O.mpf(g)
        fH = lambda H: mp.atan2(b * mp.sinh(H), ee - mp.cosh(H))
        Hf = lambda f: mp.asinh(b * mp.sin(f) / (1 + ee * mp.cos(f)))
        fn = {"n2h": lambda t: O.kepler_hyp(t, ee), "h2n": lambda t: ee * mp.sinh(t) - t, "h2f": fH, "f2h": Hf,
              "f2n": lambda t: ee * mp.sinh(Hf(t)) - Hf(t), "n2f": lambda t: fH(O.kepler_hyp(t, ee)),
              "zeta2f": lambda z: mp.atan2(b * mp.sin(z), ee * mp.cos(z) - 1), "f2zeta": lambda f: mp.atan2(b * mp.sin(f), 1 + ee * mp.cos(f))}[kind]
        ref = fn(X); d = mp.mpf(2) ** -48 * max(1, abs(X))
        p = ref
        try: p = fn(X + d)
        except Exception: pass
        if not isinstance(p, mp.mpf): p = ref
        tol = 1e-9 * max(1, abs(ref)) + 1e3 * abs(p - ref) + 1e-11 / (ee - 1)
        if kind in ("n2h", "n2f"): tol += 1e-9
        if tol < 0.05 * max(1, abs(ref)) and abs(G - ref) > tol: return "%s(%r, %r) = %r, expected %s" % (kind, x, e, g, mp.nstr(ref, 17))
    return oracle

NM = {"n2h": "N", "h2n": "H", "h2f": "H", "f2h": "f", "f2n": "f", "n2f": "N", "zeta2f": "zeta", "f2zeta": "f"}
def cases(tier):
    cs = []
    for k, n in NM.items():
        cs.append(Case(k, "h_" + k, [n, "ecc"], 1, [hyp()], mk(k), mkor(k)))
        cs.append(Case(k + "-range", "h_" + k, [n, "ecc"], 1, [nanfam()], nan_spec, mkor(k)))
    for k in ("n2h", "n2f"): cs.append(Case(k + "-noconv", "h_" + k, ["N", "ecc"], 1, [hyp()], noconv_spec, mkor(k), root_mode="noconv"))
    return cs

def run(R):
    R.bounds += ["e > 1 (all), |f| below the asymptote, zeta in (-pi/2, pi/2); real arithmetic; existence of the root inside the search interval is not part of the claim beyond |H| <= 45 (|N| about e*1e19)"]
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
