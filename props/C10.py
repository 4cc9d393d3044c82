"""Cartesian state <-> classical orbital elements."""
import dag, oracles as O, numpy as np
from prop import *
import families as F
from C05 import RV
EL = "a e i W w f".split()
S, C = dag.sin, dag.cos

def sample_el(rng, n, hyp, special=True):
    e = 1.02 + rng.exponential(1.0, n) if hyp else rng.uniform(0.01, 0.95, n)
    a = np.exp(rng.uniform(-1.5, 1.5, n)) * (-1 if hyp else 1)
    m = np.where(rng.random(n) < 0.5, 1.0, np.exp(rng.uniform(-2, 2, n)))
    fm = np.where(hyp, np.arccos(-1 / np.maximum(e, 1.0)) * 0.9, np.pi)
    P = {"a": a, "e": e, "i": rng.uniform(0.05, 3.09, n), "W": rng.uniform(0, 2 * np.pi, n), "w": rng.uniform(0, 2 * np.pi, n), "f": rng.uniform(-1, 1, n) * fm, "mu": m}
    if special:
        # nodes and apsides on the axes
        for k, vals in (("W", (0, np.pi / 2, np.pi, 1.5 * np.pi)), ("w", (0, np.pi / 2, np.pi, 1.5 * np.pi)), ("f", (0.0,) if hyp else (0, np.pi, np.pi / 2)), ("i", (np.pi / 2, np.pi / 4))):
            m_ = rng.random(n) < 0.25; P[k] = np.where(m_, rng.choice(vals, n), P[k])
    return P

def to_cart(P):
    a, e, i, W, w, f, mu = (np.asarray(P[k], float) for k in EL + ["mu"])
    p = a * (1 - e * e); r = p / (1 + e * np.cos(f)); k = np.sqrt(mu / p)
    X, Y, VX, VY = r * np.cos(f), r * np.sin(f), -k * np.sin(f), k * (e + np.cos(f))
    cW, sW, cw, sw, ci, si = np.cos(W), np.sin(W), np.cos(w), np.sin(w), np.cos(i), np.sin(i)
    Pv = [cW * cw - sW * sw * ci, sW * cw + cW * sw * ci, sw * si]; Q = [-cW * sw - sW * cw * ci, cW * cw * ci - sW * sw, cw * si]
    return [X * Pv[j] + Y * Q[j] for j in range(3)], [VX * Pv[j] + VY * Q[j] for j in range(3)]

def valid_state(S):
    """states not too close to the singularities of the elements"""
    r = np.stack([np.asarray(S[k], float) for k in "xyz"]); v = np.stack([np.asarray(S["v" + k], float) for k in "xyz"])
    return np.isfinite(r).all(axis=0) & np.isfinite(v).all(axis=0)

def cart(hyp):
    """cartesian inputs, parametrised by elements"""
    def setup(A):
        E = F.setup_elements(A, hyp); r, v = F.elements_to_cart(A, E)
        for j in range(3): A.inputs["xyz"[j]] = r[j]; A.inputs["v" + "xyz"[j]] = v[j]
        A.inputs["mu"] = E["mu"]; A.E = E
    def sample(rng, n):
        P = sample_el(rng, n, hyp); r, v = to_cart(P); R = {"mu": P["mu"]}
        for j in range(3): R["xyz"[j]] = r[j]; R["v" + "xyz"[j]] = v[j]
        return R
    return Family("hyperbolic" if hyp else "elliptic", setup, sample, "all r,v with e != 0, 0 < i < pi, energy %s 0" % (">" if hyp else "<"))

def elem(hyp, names=EL, bad=None):
    def setup(A): A.E = F.setup_elements(A, hyp, angles=True)
    return Family("hyperbolic" if hyp else "elliptic", setup, lambda rng, n: sample_el(rng, n, hyp), "a, e, mu consistent, any angles (|f| below the asymptote)",
                  keep=lambda S: (S["a"] * (1 - S["e"]) > 0) & (1 + S["e"] * np.cos(S["f"]) > 0) & (S["mu"] > 0) & (S["e"] >= 0))

def guarded(c, ops=("acos", "asin")):
    """inverse trigonometric functions whose real argument can reach +-1: the comparison that keeps the
    floating point argument inside [-1, 1] must be on the path"""
    import z3
    seen = set()
    for n in dag.topo([o for o in c.o if isinstance(o, Node) and not dag.special(o)]):
        if n.op not in ops: continue
        u = n.args[0]
        if u.op == "const" or u.id in seen: continue
        seen.add(u.id)
        a = z3.Real("a"); cons = []
        for cnd, d in c.path.trail:
            if not isinstance(cnd, Node) or cnd.op not in OPS: continue
            x, y = cnd.args
            if x is u and y.op == "const": l, r = a, z3.RealVal(str(y.val))
            elif y is u and x.op == "const": l, r = z3.RealVal(str(x.val)), a
            else: continue
            f = {"lt": l < r, "le": l <= r, "eq": l == r}[cnd.op]
            cons.append(f if d else z3.Not(f))
        yield Truth("argument of %s kept inside [-1, 1] against rounding (%d)" % (n.op, len(seen)), solve.run(cons + [z3.Or(a < -1, a > 1)], 2000) == "unsat")

def eqang(c, lab, out, cs, sn):
    A = c.A
    yield Zero("cos " + lab, A.sub(A.ev(C(out)), cs)); yield Zero("sin " + lab, A.sub(A.ev(S(out)), sn))

def ic2par_spec(c):
    if c.kind == "throw": yield Truth("no exception on a valid state", False); return
    A, E, o = c.A, c.A.E, c.o
    yield Zero("a", A.sub(A.ev(o[0]), E["a"])); yield Zero("e", A.sub(A.ev(o[1]), E["e"]))
    yield from eqang(c, "i", o[2], E["ci"], E["si"])
    yield from eqang(c, "W", o[3], E["cW"], E["sW"])
    yield from eqang(c, "w", o[4], E["cw"], E["sw"])
    yield from eqang(c, "f", o[5], E["cf"], E["sf"])
    yield NonNeg("i <= pi", dag.PI - o[2]); yield NonNeg("i >= 0", o[2])
    for k, nm in ((3, "W"), (4, "w"), (5, "f")):
        yield NonNeg("%s <= 2 pi" % nm, dag.TWO * dag.PI - o[k]); yield NonNeg("%s >= 0" % nm, o[k])
    yield from guarded(c)

def ref_elements(r, v, mu):
    r = [O.mpf(x) for x in r]; v = [O.mpf(x) for x in v]; mu = O.mpf(mu)
    h = O.cross(r, v); R = O.norm(r); H = O.norm(h)
    ev = [O.cross(v, h)[j] / mu - r[j] / R for j in range(3)]; e = O.norm(ev)
    a = O.dot(h, h) / mu / (1 - e * e)
    n = [-h[1], h[0], O.mpf(0)]; N = O.norm(n)
    if e < 1e-6 or N < 1e-6 * H: return None
    n = [x / N for x in n]; hh = [x / H for x in h]
    t = O.cross(hh, n); q = O.cross(hh, [x / e for x in ev])
    ang = lambda y, x: mp.atan2(y, x) % (2 * mp.pi)
    return [a, e, mp.atan2(N, h[2]), ang(n[1], n[0]), ang(O.dot(ev, t), O.dot(ev, n)), ang(O.dot(r, q), O.dot(r, ev) / e)]

def ang_close(g, x, tol):
    d = O.mpf(g) - x; d -= 2 * mp.pi * mp.nint(d / (2 * mp.pi)); return abs(d) <= tol

def cmp_elements(o, ref, base=1e-6):
    e = ref[1]
    c = 1 / min(abs(1 - e), mp.mpf(1)) / min(e, mp.mpf(1))
    sq = mp.sin(ref[2])
    for k, nm in enumerate(EL):
        if o[k] != o[k]: return "%s is NaN" % nm
    if abs(O.mpf(o[0]) - ref[0]) > base * abs(ref[0]) * c: return "a = %r, expected %s" % (o[0], mp.nstr(ref[0], 15))
    if abs(O.mpf(o[1]) - e) > base * max(1, e): return "e = %r, expected %s" % (o[1], mp.nstr(e, 15))
    for k in (2, 3, 4, 5):
        # acos near its ends loses half of the digits
        if not ang_close(o[k], ref[k], (base + 1e-7) * c / sq): return "%s = %r, expected %s (mod 2 pi)" % (EL[k], o[k], mp.nstr(ref[k], 15))
    if not -1e-9 <= o[2] <= math.pi + 1e-9: return "i = %r outside [0, pi]" % o[2]
    for k in (3, 4, 5):
        if not -1e-9 <= o[k] <= 2 * math.pi + 1e-9: return "%s = %r outside [0, 2 pi]" % (EL[k], o[k])

def well(r, v, mu):
    ref = ref_elements(r, v, mu)
    if ref is None or abs(1 - ref[1]) < 1e-4 or ref[1] < 1e-4 or mp.sin(ref[2]) < 1e-3 or ref[1] > 1e4: return None
    return ref

def ic2par_oracle(inp, rc, o):
    ref = well(inp[:3], inp[3:6], inp[6])
    if ref is None: return None
    if rc != 0: return "ic2par raised %s" % CODES.get(rc, rc)
    return cmp_elements(o, ref)

def par2ic_spec(c):
    if c.kind == "throw": yield Truth("no exception on consistent elements", False); return
    A = c.A; r, v = F.elements_to_cart(A, A.E)
    for j in range(3): yield Zero("r[%d]" % j, A.sub(A.ev(c.o[j]), r[j])); yield Zero("v[%d]" % j, A.sub(A.ev(c.o[3 + j]), v[j]))

def ref_cart(P):
    a, e, i, W, w, f, mu = [O.mpf(x) for x in P]
    p = a * (1 - e * e); r = p / (1 + e * mp.cos(f)); k = mp.sqrt(mu / p)
    X, Y, VX, VY = r * mp.cos(f), r * mp.sin(f), -k * mp.sin(f), k * (e + mp.cos(f))
    cW, sW, cw, sw, ci, si = mp.cos(W), mp.sin(W), mp.cos(w), mp.sin(w), mp.cos(i), mp.sin(i)
    Pv = [cW * cw - sW * sw * ci, sW * cw + cW * sw * ci, sw * si]; Q = [-cW * sw - sW * cw * ci, cW * cw * ci - sW * sw, cw * si]
    return [X * Pv[j] + Y * Q[j] for j in range(3)] + [VX * Pv[j] + VY * Q[j] for j in range(3)]

def par2ic_oracle(inp, rc, o):
    a, e, f, mu = inp[0], inp[1], inp[5], inp[6]
    if mu <= 0 or e < 0 or a == 0: return None
    bad = a * (1 - e) < 0 or (e > 1 and math.cos(f) < -1 / e)
    if e == 1 or abs(1 + e * math.cos(f)) < 1e-9 or abs(1 - e) < 1e-9: return None
    if bad: return None if rc == -1 else "inconsistent elements accepted (%s)" % CODES.get(rc, rc)
    if rc != 0: return "par2ic raised %s on consistent elements" % CODES.get(rc, rc)
    ref = ref_cart(inp); R, V = O.norm(ref[:3]), O.norm(ref[3:])
    tol = 1e-9 / min(1, abs(1 + e * math.cos(f))) ** 2 / min(1, abs(1 - e)) * max(1, e)
    return O.close(o, ref, tol, [R] * 3 + [V] * 3)

def reject_spec(c): yield Truth("inconsistent elements raise domain_error", c.kind == "throw" and "domain_error" in str(c.throws))

def bad_sign(hyp):
    """a and e of opposite kind"""
    def setup(A):
        for n in ("A", "u"): A.newvar(n); A.varsign[A.index[n]] = 1
        u2 = F.rat(A, (1, "u", "u")); one = A.const(1); A.assume_pos(A.add(one, u2))
        A.inputs["e"] = A.div(one, A.add(one, u2)) if hyp else A.add(one, u2)       # (0,1) or > 1
        A.inputs["a"] = F.rat(A, (-1 if hyp else 1, "A", "A"))
    def sample(rng, n):
        P = sample_el(rng, n, not hyp, special=False); P["a"] = -P["a"]; return P
    return Family("a<0,e<1" if hyp else "a>0,e>1", setup, sample, "semi-major axis of the wrong sign", keep=lambda S: S["a"] * (1 - S["e"]) < 0)
def beyond():
    """hyperbola, cos f < -1/e"""
    def setup(A):
        for n in ("A", "u"): A.newvar(n); A.varsign[A.index[n]] = 1
        u2 = F.rat(A, (1, "u", "u")); one = A.const(1); A.inputs["e"] = A.add(one, u2); A.inputs["a"] = F.rat(A, (-1, "A", "A"))
        A.assume_pos(A.inputs["e"])
        cf, sf = F.half(A, "f", "Cf", "Sf", True)
        A.assume_pos(A.add(one, A.mul(A.inputs["e"], cf)), -1)
    def sample(rng, n):
        P = sample_el(rng, n, True, special=False); l = np.arccos(-1 / P["e"]); P["f"] = l + (np.pi - l) * rng.uniform(0.02, 0.98, n); return P
    return Family("beyond the asymptote", setup, sample, "e > 1, 1 + e cos f < 0", keep=lambda S: (S["e"] > 1) & (S["a"] < 0) & (1 + S["e"] * np.cos(S["f"]) < 0))

def cases(tier):
    return [Case("ic2par", "h_ic2par", RV + ["mu"], 6, [cart(False), cart(True)], ic2par_spec, ic2par_oracle, maxpaths=1200),
            Case("par2ic", "h_par2ic", EL + ["mu"], 6, [elem(False), elem(True)], par2ic_spec, par2ic_oracle),
            Case("par2ic-reject", "h_par2ic", EL + ["mu"], 6, [bad_sign(False), bad_sign(True), beyond()], reject_spec, par2ic_oracle)]

def run(R):
    R.bounds += ["every state with e != 0, 0 < i < pi and non-zero energy; every consistent element set, angles unrestricted; real arithmetic, plus the rounding guard on inverse cosines"]
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
