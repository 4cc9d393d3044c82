"""Cartesian state <-> (modified) equinoctial elements, both orientations of the frame."""
import dag, oracles as O, numpy as np
from prop import *
import families as F
from C05 import RV
from C10 import cart, to_cart, sample_el, eqang, ref_elements, ang_close
EQ = "p f g h k L".split()
S, C = dag.sin, dag.cos

def eq_rats(A, E, I):
    """the definition of the elements (p, f, g, h, k, cos L, sin L)"""
    M, ad = A.mul, A.add
    s = lambda x: x if I == 1 else A.neg(x)
    cp = A.sub(M(E["cw"], E["cW"]), s(M(E["sw"], E["sW"]))); sp = ad(M(E["sw"], E["cW"]), s(M(E["cw"], E["sW"])))
    p = M(M(E["A"], E["A"]), M(E["b"], E["b"]))
    one = A.const(1)
    t = A.div(E["si"], A.add(one, s(E["ci"])))            # tan(i/2) or cot(i/2)
    cL = A.sub(M(cp, E["cf"]), M(sp, E["sf"])); sL = ad(M(sp, E["cf"]), M(cp, E["sf"]))
    return [p, M(E["e"], cp), M(E["e"], sp), M(t, E["cW"]), M(t, E["sW"]), cL, sL]

def ic2eq_spec(I):
    def spec(c):
        if c.kind == "throw": yield Truth("no exception on a valid state", False); return
        A = c.A; R = eq_rats(A, A.E, I)
        for j in range(5): yield Zero(EQ[j], A.sub(A.ev(c.o[j]), R[j]))
        yield from eqang(c, "L", c.o[5], R[5], R[6])
        yield NonNeg("L <= pi", dag.PI - c.o[5]); yield NonNeg("L >= -pi", dag.PI + c.o[5])
    return spec

def ref_eq(r, v, mu, I):
    r = [O.mpf(x) for x in r]; v = [O.mpf(x) for x in v]; mu = O.mpf(mu)
    h = O.cross(r, v); H = O.norm(h); w = [x / H for x in h]; R = O.norm(r)
    d = 1 + I * w[2]
    if d < 1e-8: return None
    k, hh = w[0] / d, -w[1] / d
    den = 1 + k * k + hh * hh
    f = [(1 - k * k + hh * hh) / den, 2 * k * hh / den, -2 * I * k / den]; g = [2 * I * k * hh / den, (1 + k * k - hh * hh) * I / den, 2 * hh / den]
    ev = [O.cross(v, h)[j] / mu - r[j] / R for j in range(3)]
    return [H * H / mu, O.dot(ev, f), O.dot(ev, g), hh, k, mp.atan2(O.dot(r, g), O.dot(r, f))]

def ic2eq_oracle(I):
    def oracle(inp, rc, o):
        ref = ref_eq(inp[:3], inp[3:6], inp[6], I)
        if ref is None: return None
        e = mp.sqrt(ref[1] ** 2 + ref[2] ** 2); r = [O.mpf(x) for x in inp[:3]]; v = [O.mpf(x) for x in inp[3:6]]
        cond = (1 + abs(ref[3]) + abs(ref[4])) ** 2 * (1 + e)
        if cond > 1e6 or O.norm(O.cross(r, v)) < 1e-3 * O.norm(r) * O.norm(v): return None
        if abs(1 - e * e) < 1e-6: return None
        if rc != 0: return "ic2eq raised %s" % CODES.get(rc, rc)
        for j in range(5):
            sc = max(1, abs(ref[j])) * cond if j else abs(ref[0]) * cond / min(1, abs(1 - e * e))
            if o[j] != o[j] or abs(O.mpf(o[j]) - ref[j]) > 1e-9 * sc: return "%s = %r, expected %s" % (EQ[j], o[j], mp.nstr(ref[j], 15))
        if o[5] != o[5] or not ang_close(o[5], ref[5], 1e-9 * cond): return "L = %r, expected %s (mod 2 pi)" % (o[5], mp.nstr(ref[5], 15))
        if abs(o[5]) > math.pi + 1e-9: return "L = %r outside [-pi, pi]" % o[5]
    return oracle

def eqel(hyp, I):
    """equinoctial element inputs; the true anomaly is L - w - I W"""
    def setup(A):
        for n in "A t m".split(): A.newvar(n); A.varsign[A.index[n]] = 1
        d = A.sub(A.const(1), F.g(A, "t")); A.assume_pos(d)
        one = A.const(1); t2 = F.rat(A, (1, "t", "t")); M, ad = A.mul, A.add
        A.assume_pos(A.sub(one, t2)); A.assume_pos(A.add(one, t2))
        E = {"e": A.div(A.add(one, t2), F.rat(A, (2, "t"))) if hyp else A.div(F.rat(A, (2, "t")), A.add(one, t2)),
             "b": A.div(A.sub(one, t2), F.rat(A, (2, "t"))) if hyp else A.div(A.sub(one, t2), A.add(one, t2)), "mu": F.rat(A, (1, "m", "m")), "A": F.g(A, "A"), "m": F.g(A, "m")}
        E["ci"], E["si"] = F.half(A, "i", "Ci", "Si", False)
        for n in ("Si", "Ci"): A.varsign[A.index[n]] = 1
        E["cW"], E["sW"] = F.full(A, "W", "cW", "sW", False)
        cp, sp = F.full(A, "varpi", "cp", "sp", False)
        cL, sL = F.full(A, "L", "cL", "sL", True)
        E["cf"] = ad(M(cL, cp), M(sL, sp)); E["sf"] = A.sub(M(sL, cp), M(cL, sp))
        s = (lambda x: x) if I == 1 else A.neg
        E["cw"] = ad(M(cp, E["cW"]), s(M(sp, E["sW"]))); E["sw"] = A.sub(M(sp, E["cW"]), s(M(cp, E["sW"])))
        ecf = A.add(one, A.mul(E["e"], E["cf"])); A.assume_pos(ecf); E["ecf"] = ecf
        R = eq_rats(A, E, I)
        for j in range(5): A.inputs[EQ[j]] = R[j]
        A.inputs["mu"] = E["mu"]; A.assume_pos(R[0]); A.E = E
    def sample(rng, n):
        P = sample_el(rng, n, hyp); t = np.tan(P["i"] / 2) ** I; w = P["w"] + I * P["W"]
        return {"p": P["a"] * (1 - P["e"] ** 2), "f": P["e"] * np.cos(w), "g": P["e"] * np.sin(w), "h": t * np.cos(P["W"]), "k": t * np.sin(P["W"]), "L": P["f"] + w + rng.choice([0, 2 * np.pi, -2 * np.pi], n), "mu": P["mu"]}
    return Family("hyperbolic" if hyp else "elliptic", setup, sample, "all consistent equinoctial elements with e != 0, i != 0",
                  keep=lambda S: (S["p"] > 0) & (S["mu"] > 0) & (1 + S["f"] * np.cos(S["L"]) + S["g"] * np.sin(S["L"]) > 0))

def eq2ic_spec(c):
    if c.kind == "throw": yield Truth("no exception on consistent elements", False); return
    A = c.A; r, v = F.elements_to_cart(A, A.E)
    for j in range(3): yield Zero("r[%d]" % j, A.sub(A.ev(c.o[j]), r[j])); yield Zero("v[%d]" % j, A.sub(A.ev(c.o[3 + j]), v[j]))

def eq2ic_oracle(I):
    def oracle(inp, rc, o):
        p, f, g, h, k, L, mu = [O.mpf(x) for x in inp]
        if p <= 0 or mu <= 0: return None
        den = 1 + k * k + h * h; d = 1 + f * mp.cos(L) + g * mp.sin(L)
        if d < 1e-4: return None
        if rc != 0: return "eq2ic raised %s" % CODES.get(rc, rc)
        F_ = [(1 - k * k + h * h) / den, 2 * k * h / den, -2 * I * k / den]; G = [2 * I * k * h / den, (1 + k * k - h * h) * I / den, 2 * h / den]
        R = p / d; X, Y = R * mp.cos(L), R * mp.sin(L); s = mp.sqrt(mu / p); VX, VY = -s * (g + mp.sin(L)), s * (f + mp.cos(L))
        ref = [X * F_[j] + Y * G[j] for j in range(3)] + [VX * F_[j] + VY * G[j] for j in range(3)]
        return O.close(o, ref, 1e-10 / min(1, d) ** 2 * (1 + abs(L)), [R] * 3 + [O.norm(ref[3:])] * 3)
    return oracle

def rt_spec(c):
    """ic2eq then eq2ic: includes equatorial and circular orbits"""
    if c.kind == "throw": yield Truth("no exception on a valid state", False); return
    for n, o in zip(RV, c.o): yield Zero("round trip %s" % n, o - c.v(n))
def rt_oracle(I):
    def oracle(inp, rc, o):
        ref = ref_eq(inp[:3], inp[3:6], inp[6], I)
        if ref is None: return None
        e = mp.sqrt(ref[1] ** 2 + ref[2] ** 2); cond = (1 + abs(ref[3]) + abs(ref[4])) ** 2 * (1 + e) / min(1, 1 + ref[1] * mp.cos(ref[5]) + ref[2] * mp.sin(ref[5])) ** 2 / min(1, abs(1 - e * e))
        if cond > 1e5 or not cond > 0: return None
        if rc != 0: return "raised %s" % CODES.get(rc, rc)
        x = [O.mpf(t) for t in inp[:6]]
        return O.close(o, x, 1e-10 * cond, [O.norm(x[:3])] * 3 + [O.norm(x[3:])] * 3)
    return oracle

def orb(hyp):
    f = F.orbit(hyp, tof=None); s0 = f.sample
    def sample(rng, n):
        S_ = s0(rng, n); sel = rng.random(n) < 0.2
        for k in ("z", "vz"): S_[k] = np.where(sel, 0.0, S_[k])           # equatorial
        return S_
    return Family(f.name, f.setup, sample, f.desc + " (equatorial and circular included)", keep=lambda S: 1 > 0)

def cases(tier):
    cs = []
    for I, k in ((1, 0), (-1, 1)):
        t = "" if I == 1 else "-retrograde"
        cs.append(Case("ic2eq" + t, "h_ic2eq", RV + ["mu"], 6, [cart(False), cart(True)], ic2eq_spec(I), ic2eq_oracle(I), k=k))
        cs.append(Case("eq2ic" + t, "h_eq2ic", EQ + ["mu"], 6, [eqel(False, I), eqel(True, I)], eq2ic_spec, eq2ic_oracle(I), k=k))
        cs.append(Case("ic2eq-eq2ic" + t, "h_iceq_rt", RV + ["mu"], 6, [orb(False), orb(True)], rt_spec, rt_oracle(I), k=k, timeout=100))
    return cs

def run(R):
    R.bounds += ["every state with non-zero energy; element definitions for e != 0, 0 < i < pi, round trip on every orientation except the singular one of the frame; real arithmetic"]
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
