"""Classical <-> equinoctial elements, both orientations of the frame."""
import dag, oracles as O, numpy as np
from prop import *
import families as F
from C10 import elem, sample_el, eqang, EL, ang_close
from C11 import EQ, eq_rats, eqel
S, C = dag.sin, dag.cos

def par2eq_spec(I):
    def spec(c):
        if c.kind == "throw": yield Truth("no exception on consistent elements", False); return
        A = c.A; R = eq_rats(A, A.E, I)
        for j in range(5): yield Zero(EQ[j], A.sub(A.ev(c.o[j]), R[j]))
        yield Zero("L = f + w + I W", c.o[5] - (c.v("f") + c.v("w") + dag.const(I) * c.v("W")))
    return spec
def par2eq_oracle(I):
    def oracle(inp, rc, o):
        a, e, i, W, w, f = [O.mpf(x) for x in inp]
        if not 1e-6 < i < math.pi - 1e-6: return None
        if rc != 0: return "par2eq raised %s" % CODES.get(rc, rc)
        t = mp.tan(i / 2) ** I
        ref = [a * (1 - e * e), e * mp.cos(w + I * W), e * mp.sin(w + I * W), t * mp.cos(W), t * mp.sin(W), f + w + I * W]
        return O.close(o, ref, 1e-10, [max(abs(ref[0]), abs(a) * mp.mpf(2) ** -20), max(1, e), max(1, e), t, t, 1 + abs(ref[5])])
    return oracle

def eq2par_spec(I):
    def spec(c):
        if c.kind == "throw": yield Truth("no exception on consistent elements", False); return
        A, E, o = c.A, c.A.E, c.o; s = dag.const(I)
        a = A.mul(E["A"], E["A"])
        yield Zero("a", A.sub(A.ev(o[0]), A.neg(a) if c.fam.name == "hyperbolic" else a)); yield Zero("e", A.sub(A.ev(o[1]), E["e"]))
        yield from eqang(c, "i", o[2], E["ci"], E["si"])
        yield from eqang(c, "W", o[3], E["cW"], E["sW"])
        yield from eqang(c, "w", o[4], E["cw"], E["sw"])
        yield Zero("f + w + I W = L", o[5] + o[4] + s * o[3] - c.v("L"))
        yield NonNeg("i <= pi", dag.PI - o[2]); yield NonNeg("i >= 0", o[2])
        for k, nm in ((3, "W"), (4, "w")):
            yield NonNeg("%s <= 2 pi" % nm, dag.TWO * dag.PI - o[k]); yield NonNeg("%s >= 0" % nm, o[k])
    return spec
def eq2par_oracle(I):
    def oracle(inp, rc, o):
        p, f, g, h, k, L = [O.mpf(x) for x in inp[:6]]
        e = mp.sqrt(f * f + g * g); t = mp.sqrt(h * h + k * k)
        if e < 1e-4 or abs(1 - e) < 1e-4 or t < 1e-4 or t > 1e4 or p <= 0: return None
        if rc != 0: return "eq2par raised %s" % CODES.get(rc, rc)
        W = mp.atan2(k, h); z = mp.atan2(g, f); w = z - I * W; i = 2 * mp.atan(t) if I == 1 else mp.pi - 2 * mp.atan(t)
        if any(x != x for x in o): return "NaN element %r" % (o,)
        if abs(O.mpf(o[0]) - p / (1 - e * e)) > 1e-9 * abs(p / (1 - e * e)) / min(1, abs(1 - e)): return "a = %r, expected %s" % (o[0], mp.nstr(p / (1 - e * e), 15))
        if abs(O.mpf(o[1]) - e) > 1e-9 * max(1, e): return "e = %r, expected %s" % (o[1], mp.nstr(e, 15))
        for j, x in ((2, i), (3, W), (4, w), (5, L - I * W - w)):
            if not ang_close(o[j], x, 1e-9 * (1 + abs(L))): return "%s = %r, expected %s (mod 2 pi)" % (EL[j], o[j], mp.nstr(x, 15))
        if not 0 <= o[2] <= math.pi: return "i = %r outside [0, pi]" % o[2]
        for j in (3, 4):
            if not -1e-9 <= o[j] <= 2 * math.pi + 1e-9: return "%s = %r outside [0, 2 pi]" % (EL[j], o[j])
    return oracle

def cases(tier):
    cs = []
    for I, k in ((1, 0), (-1, 1)):
        t = "" if I == 1 else "-retrograde"
        cs.append(Case("par2eq" + t, "h_par2eq", EL, 6, [elem2(False), elem2(True)], par2eq_spec(I), par2eq_oracle(I), k=k))
        cs.append(Case("eq2par" + t, "h_eq2par", EQ + ["mu"], 6, [eqel(False, I), eqel(True, I)], eq2par_spec(I), eq2par_oracle(I), k=k))
    return cs
def elem2(hyp):
    f = elem(hyp); k0 = f.keep
    f.keep = lambda S: (S["a"] * (1 - S["e"]) > 0) & (S["i"] > 1e-3) & (S["i"] < 3.14)
    return f

def run(R):
    R.bounds += ["every consistent element set with e != 0, 0 < i < pi, unrestricted angles; real arithmetic"]
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
