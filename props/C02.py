"""Elliptic eccentric / true / mean anomaly conversions."""
import dag, oracles as O, numpy as np
from prop import *
import mpmath as mp
import families as F
from C01 import ell, nanfam, nan_spec, nan_oracle, sum_f
from C05 import root_obl, noconv_spec
S, C = dag.sin, dag.cos
ONE = dag.ONE

def beta(e): return dag.sqrt(ONE - e * e)
def f_of_E(E, e): d = ONE - e * C(E); return (C(E) - e) / d, beta(e) * S(E) / d      # cos f, sin f
def E_of_f(f, e): d = ONE + e * C(f); return (C(f) + e) / d, beta(e) * S(f) / d

def angle(c, lab, out, cs, sn, rng=True):
    yield Zero("cos %s" % lab, C(out) - cs)
    yield Zero("sin %s" % lab, S(out) - sn)
    if rng:
        yield NonNeg("%s <= pi" % lab, dag.PI - out); yield NonNeg("%s >= -pi" % lab, dag.PI + out)

def mk(kind):
    def spec(c):
        if c.kind == "throw": yield Truth("no exception on e < 1", False); return
        o = c.o[0]; e = c.v("ecc")
        if kind == "e2f": yield from angle(c, "f", o, *f_of_E(c.v("E"), e))
        elif kind == "f2e": yield from angle(c, "E", o, *E_of_f(c.v("f"), e))
        elif kind == "e2m": yield Zero("M = E - e sin E", o - (c.v("E") - e * S(c.v("E"))))
        elif kind == "f2m":
            cs, sn = E_of_f(c.v("f"), e)
            yield from angle(c, "E(M)", o + e * sn, cs, sn)
        elif kind == "m2f":
            yield Truth("one anomaly search", len(c.roots) == 1)
            x = c.roots[0]["x"]; m = x - e * S(x) - sum_f(c); M = c.v("M")
            yield Zero("sin(E - e sin E) = sin M", S(m) - S(M)); yield Zero("cos(E - e sin E) = cos M", C(m) - C(M))
            yield from root_obl(c, digits=45, maxit=50)
            yield from angle(c, "f", o, *f_of_E(x, e))
    return spec

def mkor(kind):
    def oracle(inp, rc, o):
        x, e = inp
        if not e < 1: return nan_oracle(inp, rc, o)
        if e < 0: return None
        if rc != 0: return "%s raised %s" % (kind, CODES.get(rc, rc))
        g = o[0]
        if g != g: return "%s(%r, %r) = NaN" % (kind, x, e)
        X, ee, G = O.mpf(x), O.mpf(e), O.mpf(g)
        b = mp.sqrt(1 - ee * ee)
        def fE(E): return mp.atan2(b * mp.sin(E), mp.cos(E) - ee)
        def Ef(f): return mp.atan2(b * mp.sin(f), mp.cos(f) + ee)
        if kind == "e2f": ref, der = fE(X), b / (1 - ee * mp.cos(X))
        elif kind == "f2e": ref, der = Ef(X), b / (1 + ee * mp.cos(X))
        elif kind == "e2m": ref, der = X - ee * mp.sin(X), mp.mpf(1)
        elif kind == "f2m": E = Ef(X); ref, der = E - ee * mp.sin(E), b / (1 + ee * mp.cos(X))
        else:
            E = O.kepler_ell(X, ee); ref = fE(E); der = b / (1 - ee * mp.cos(E)) ** 2
            d = mp.mpf(2) ** -50 * max(1, abs(X)); der = max(abs(der), abs(fE(O.kepler_ell(X + d, ee)) - ref) / d)
        tol = 1e-9 + 1e3 * mp.mpf(2) ** -52 * (abs(der) + 1) * max(1, abs(X)) + 1e3 * mp.mpf(2) ** -52 / (1 - ee)
        if kind == "m2f": tol += 1e-12 / (1 - ee)
        d = G - ref
        if kind != "e2m": d -= 2 * mp.pi * mp.nint(d / (2 * mp.pi))
        if tol < 0.1 and abs(d) > tol: return "%s(%r, %r) = %r, expected %s" % (kind, x, e, g, mp.nstr(ref, 17))
        if kind != "e2m" and abs(G) > mp.pi + 1e-9: return "%s(%r, %r) = %r outside [-pi, pi]" % (kind, x, e, g)
    return oracle

NM = {"e2f": "E", "f2e": "f", "e2m": "E", "f2m": "f", "m2f": "M"}
def cases(tier):
    cs = []
    for k, n in NM.items():
        cs.append(Case(k, "h_" + k, [n, "ecc"], 1, [ell()], mk(k), mkor(k)))
        cs.append(Case(k + "-range", "h_" + k, [n, "ecc"], 1, [nanfam()], nan_spec, mkor(k)))
    cs.append(Case("m2f-noconv", "h_m2f", ["M", "ecc"], 1, [ell()], noconv_spec, mkor("m2f"), root_mode="noconv"))
    return cs

def run(R):
    R.bounds += ["0 <= e < 1 (all), every real anomaly (tan of odd multiples of pi/2 excluded); real arithmetic"]
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
