"""Kepler's equations in every anomaly, their first and second derivatives, and the Stumpff functions."""
import dag, oracles as O, numpy as np
from prop import *
import mpmath as mp
import families as F
S, C, Sh, Ch = dag.sin, dag.cos, dag.sinh, dag.cosh
ONE, TWO = dag.ONE, dag.TWO

def fam(names, pos=(), neg=(), zero=(), extra=None, rngs=None):
    def setup(A):
        for n in names: A.newvar(n)
        for n in pos:
            A.newvar("k_" + n); A.varsign[A.index["k_" + n]] = 1; A.inputs[n] = F.rat(A, (1, "k_" + n, "k_" + n))
        for n in neg:
            A.newvar("k_" + n); A.varsign[A.index["k_" + n]] = 1; A.inputs[n] = F.rat(A, (-1, "k_" + n, "k_" + n))
        for n in zero: A.inputs[n] = A.const(0)
    def sample(rng, n):
        R = {}
        for x in names:
            v = rng.uniform(-4, 4, n)
            if x in pos: v = np.exp(rng.uniform(-2, 2, n))
            if x in neg: v = -np.exp(rng.uniform(-2, 2, n))
            if x in zero: v = np.zeros(n)
            R[x] = v
        if "DS" in R: R["DS"] = np.where(np.abs(R["DS"]) < 0.05, 0.7, R["DS"])
        return R
    return Family("+".join(["%s>0" % p for p in pos] + ["%s<0" % p for p in neg] + ["%s=0" % p for p in zero]) or "all", setup, sample, "real arguments")

def spec(x, ref):
    """ref(c) -> the function itself; the two other outputs are its derivatives in x"""
    def sp(c):
        if c.kind == "throw": yield Truth("no exception", False); return
        f = ref(c); D = dag.Diff(c.v(x)); f1 = D(f); f2 = D(f1)
        yield Zero("value", c.o[0] - f); yield Zero("first derivative", c.o[1] - f1); yield Zero("second derivative", c.o[2] - f2)
    return sp

def V(c, s): return [c.v(n) for n in s.split()]
def rE(c): E, M, e = V(c, "E M ecc"); return E - e * S(E) - M
def rH(c): H, M, e = V(c, "H M ecc"); return e * Sh(H) - H - M
def rDE(c):
    x, m, s0, sa, a, R = V(c, "DE DM sigma0 sqrta a R"); return x - m + s0 / sa * (ONE - C(x)) - (ONE - R / a) * S(x)
def rDH(c):
    x, m, s0, sa, a, R = V(c, "DH DN sigma0 sqrta a R"); return dag.neg(x) - m + s0 / sa * (Ch(x) - ONE) + (ONE - R / a) * Sh(x)
def rDS(sg):
    def r(c):
        """universal Kepler equation with the Stumpff functions written out"""
        x, t, r0, v0, al, mu = V(c, "DS DT r0 vr0 alpha mu"); m = dag.sqrt(mu)
        if sg == 0: CC, SS = dag.const(Fraction(1, 2)) * x * x, dag.const(1.0 / 6) * x * x * x
        else:
            k = dag.sqrt(al if sg > 0 else dag.neg(al)); y = k * x
            CC = (ONE - C(y)) / al if sg > 0 else (Ch(y) - ONE) / dag.neg(al)
            SS = (y - S(y)) / (k * k * k) if sg > 0 else (Sh(y) - y) / (k * k * k)
        return dag.neg(m) * t + r0 * v0 / m * CC + (ONE - al * r0) * SS + r0 * x
    return r
from fractions import Fraction

def oracle_f(f):
    def oracle(inp, rc, o):
        if rc != 0: return "raised %s" % CODES.get(rc, rc)
        X = [O.mpf(v) for v in inp]
        try: g = lambda t: f(t, *X[1:])
        except Exception: return None
        if any(abs(v) > 1e3 for v in X): return None
        ref = [g(X[0]), mp.diff(g, X[0]), mp.diff(g, X[0], 2)]
        sc = 1 + sum(abs(v) for v in X) + sum(abs(v) for v in ref)
        for nm, a, b in zip(("value", "first derivative", "second derivative"), o, ref):
            if a != a or abs(O.mpf(a) - b) > 1e-7 * sc: return "%s: got %r, expected %s" % (nm, a, mp.nstr(b, 15))
    return oracle
def mE(x, m, e): return x - e * mp.sin(x) - m
def mH(x, m, e): return e * mp.sinh(x) - x - m
def mDE(x, m, s0, sa, a, R): return x - m + s0 / sa * (1 - mp.cos(x)) - (1 - R / a) * mp.sin(x)
def mDH(x, m, s0, sa, a, R): return -x - m + s0 / sa * (mp.cosh(x) - 1) + (1 - R / a) * mp.sinh(x)
def mS(z): return (mp.sqrt(z) - mp.sin(mp.sqrt(z))) / mp.sqrt(z) ** 3 if z > 0 else (mp.sinh(mp.sqrt(-z)) - mp.sqrt(-z)) / mp.sqrt(-z) ** 3 if z < 0 else O.mpf(1) / 6
def mC(z): return (1 - mp.cos(mp.sqrt(z))) / z if z > 0 else (mp.cosh(mp.sqrt(-z)) - 1) / (-z) if z < 0 else O.mpf(1) / 2
def mDS(x, t, r0, v0, al, mu):
    z = al * x * x; return -mp.sqrt(mu) * t + r0 * v0 * x * x * mC(z) / mp.sqrt(mu) + (1 - al * r0) * x ** 3 * mS(z) + r0 * x

def st_spec(sg):
    def sp(c):
        x = c.v("x")
        if sg == 0: s, k = dag.const(1.0 / 6), dag.const(0.5)
        else:
            y = dag.sqrt(x if sg > 0 else dag.neg(x))
            s = ((y - S(y)) if sg > 0 else (Sh(y) - y)) / (y * y * y); k = (ONE - C(y)) / x if sg > 0 else (Ch(y) - ONE) / dag.neg(x)
        yield Truth("no exception", c.kind == "ok")
        yield Zero("Stumpff S", c.o[0] - s); yield Zero("Stumpff C", c.o[1] - k)
    return sp
def st_oracle(inp, rc, o):
    if rc != 0: return "raised %s" % CODES.get(rc, rc)
    x = O.mpf(inp[0])
    if x != 0 and abs(x) < 1e-3 or abs(x) > 1e4: return None
    for nm, a, b in (("S", o[0], mS(x)), ("C", o[1], mC(x))):
        if a != a or abs(O.mpf(a) - b) > 1e-6 * abs(b) + 1e-9: return "stumpff_%s(%r) = %r, expected %s" % (nm.lower(), inp[0], a, mp.nstr(b, 15))

def cases(tier):
    cs = [Case("kepE", "h_kepE", "E M ecc".split(), 3, [fam("E M ecc".split())], spec("E", rE), oracle_f(mE)),
          Case("kepH", "h_kepH", "H M ecc".split(), 3, [fam("H M ecc".split())], spec("H", rH), oracle_f(mH))]
    n = "DE DM sigma0 sqrta a R".split()
    cs.append(Case("kepDE", "h_kepDE", n, 3, [fam(n, pos=("sqrta", "a", "R"))], spec("DE", rDE), oracle_f(mDE)))
    n = "DH DN sigma0 sqrta a R".split()
    cs.append(Case("kepDH", "h_kepDH", n, 3, [fam(n, pos=("sqrta", "R"), neg=("a",))], spec("DH", rDH), oracle_f(mDH)))
    n = "DS DT r0 vr0 alpha mu".split()
    for sg, kw in ((1, dict(pos=("DS", "r0", "mu", "alpha"))), (-1, dict(pos=("DS", "r0", "mu"), neg=("alpha",))), (0, dict(pos=("r0", "mu"), zero=("alpha",)))):
        cs.append(Case("kepDS%+d" % sg, "h_kepDS", n, 3, [fam(n, **kw)], spec("DS", rDS(sg)), oracle_f(mDS)))
        cs.append(Case("stumpff%+d" % sg, "h_stumpff", ["x"], 2, [fam(["x"], **{("pos", "zero", "neg")[1 - sg if sg >= 0 else 2]: ("x",)})], st_spec(sg), st_oracle))
    return cs

def run(R):
    R.bounds += ["every real argument in the domain (mu, r0 > 0, a of the right sign); the universal variable is taken positive for alpha != 0; real arithmetic (accuracy of the Stumpff functions near 0 is outside)"]
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
