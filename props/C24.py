"""A Keplerian planet moves on the orbit it was given, from its reference epoch, in every representation."""
from planets import *
MODE = ["eph(double)", "eph(epoch)", "body.eph(double)", "eph_v"]

def diff_spec(c):
    if c.kind != "ok": yield Truth("no exception on a valid orbit", False); return
    for i in range(6): yield Zero("component %d equals the composition" % i, c.o[i] - c.o[6 + i])
def eph_or(typ, mode):
    def orc(inp, rc, o):
        mu, ref, t = inp[6], inp[7], inp[8]
        if mu <= 0: return None
        el = true_elements(inp, typ, mu)
        if el is None or el[0] * (1 - el[1]) <= 0 or abs(1 - el[1]) < 1e-4 or 1 + el[1] * mp.cos(el[5]) < 1e-3: return None
        if typ == 1 and inp[1] > 0.98: return None
        if rc: return "planet on a valid orbit raised %s" % CODES.get(rc, rc)
        s = state(inp, typ, mu); dt = O.mpf(t) / 10**6 if mode == 1 else (O.mpf(t) - O.mpf(ref - T0) / (86400 * 10**6)) * 86400
        res = abs(t if mode != 1 else 1e-6) * 86400 * 2e-16 + abs(ref - T0) / 1e6 * 2e-16 if mode != 1 else (abs(t) + abs(ref - T0)) / 1e6 * 4e-16
        P = O.flow_oracle([float(x) for x in s] + [float(dt), mu], o[:6], base=1e-6 + 1e3 * float(res) * float(mp.sqrt(mu / abs(el[0]) ** 3)))
        return P
    return orc
def el_or(typ, want):
    def orc(inp, rc, o):
        mu = inp[6]
        if mu <= 0: return None
        el = true_elements(inp, typ, mu)
        if not nice(el) or el[0] * (1 - el[1]) <= 0: return None
        if want == 1 and el[0] < 0:
            return None if rc == -2 else "mean anomaly of a hyperbola: %s" % (CODES.get(rc, rc) if rc else "no exception")
        if rc: return "elements of a valid orbit raised %s" % CODES.get(rc, rc)
        return same_elements(o[:6], convert(el, want), want)
    return orc
def logic_spec(c): yield Truth("mean anomaly of a hyperbola raises logic_error", c.kind == "throw" and "logic_error" in str(c.throws))
def domain_spec(c): yield Truth("inconsistent a, e raise domain_error", c.kind == "throw" and "domain_error" in str(c.throws))
def make_or(code, what):
    def orc(inp, rc, o):
        a, e = inp[0], inp[1]
        if code == -1 and not a * (1 - e) < 0 or code == -2 and not (a < 0 and e > 1): return None
        return None if rc == code else "%s: %s" % (what, CODES.get(rc, rc) if rc else "accepted")
    return orc
def data_spec(typ, hyp):
    def sp(c):
        if c.kind != "ok": yield Truth("no exception on a valid orbit", False); return
        if c.fam.name == "hyperbolic": yield Truth("period of a hyperbola is NaN", c.o[0] is dag.NAN)
        else:
            mu = c.v("mu")
            if typ < 0:
                x = [c.v(n) for n in RV]; R = dag.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); a = R * mu / (TWO * mu - R * (x[3] * x[3] + x[4] * x[4] + x[5] * x[5]))
            elif typ < 2: a = c.v("a")
            else: a = c.v("p") / (dag.ONE - c.v("f") * c.v("f") - c.v("g") * c.v("g"))
            T = c.o[0] / (TWO * dag.PI)
            yield Zero("T^2 mu = 4 pi^2 a^3", T * T * mu - a * a * a); yield Pos("T > 0", c.o[0])
        for i, n in enumerate("mu mus rad srad ref".split()): yield Zero(n + " kept", c.o[1 + i] - c.v(n))
        yield Truth("name kept", c.o[6] in (1, dag.ONE, dag.const(1)))
    return sp
def data_or(typ):
    def orc(inp, rc, o):
        mu = inp[6]
        if mu <= 0: return None
        el = true_elements(inp, typ, mu)
        if el is None or el[0] * (1 - el[1]) <= 0 or abs(1 - el[1]) < 1e-6 or el[1] < 0: return None
        if rc: return "planet on a valid orbit raised %s" % CODES.get(rc, rc)
        if el[0] < 0:
            if o[0] == o[0]: return "period of a hyperbola is %r" % o[0]
        elif not abs(o[0] - 2 * mp.pi * mp.sqrt(el[0] ** 3 / mu)) <= 1e-8 / min(1, abs(1 - el[1])) * abs(o[0]): return "period %r, expected %s" % (o[0], mp.nstr(2 * mp.pi * mp.sqrt(el[0] ** 3 / mu), 15))
        for i, j in ((1, 6), (2, 8), (3, 9), (4, 10), (5, 7)):
            if o[i] != inp[j]: return "%s is %r, given %r" % (["", "mu", "mu_self", "radius", "safe radius", "reference epoch"][i], o[i], inp[j])
        if o[6] != 1: return "name lost"
    return orc
def bad_fam(hyp):
    def setup(A):
        for n in ("A", "u"): A.newvar(n); A.varsign[A.index[n]] = 1
        one = A.const(1); u2 = F.rat(A, (1, "u", "u")); A.assume_pos(A.add(one, u2))
        A.inputs["e"] = A.div(one, A.add(one, u2)) if hyp else A.add(one, u2)
        A.inputs["a"] = F.rat(A, (-1 if hyp else 1, "A", "A"))
        for n in "i W w f M".split(): A.newvar(n)
        A.newvar("mu"); A.varsign[A.index["mu"]] = 1
    def sample(rng, n):
        S = F_sample(rng, n, not hyp); S["a"] = -S["a"]; S["M"] = S["f"]; return S
    return Family("a<0, e<1" if hyp else "a>0, e>1", setup, sample, "semi-major axis of the wrong sign", keep=lambda S: (S["a"] * (1 - S["e"]) < 0) & (S["mu"] > 0))
def F_sample(rng, n, hyp):
    from C10 import sample_el
    return sample_el(rng, n, hyp, special=False)
def hyp_M():
    f = elem(True); s0, u0 = f.setup, f.sample
    def setup(A): s0(A); A.newvar("M")
    def sample(rng, n): S = u0(rng, n); S["M"] = S["f"]; return S
    return Family("hyperbolic", setup, sample, "hyperbola with a mean anomaly", keep=lambda S: (S["a"] < 0) & (S["e"] > 1) & (S["mu"] > 0))

def cases(tier):
    cs = []
    H = lambda t: (False,) if t == 1 else (False, True)
    for t in (-1, 0, 1, 2, 3):
        nm = names(t) + ["mu", "ref"]; tn = "state" if t < 0 else TYPE[t]
        for m in (range(4) if t < 1 else (0,)):
            x = ["n"] if m == 1 else ["d"]
            fs = [plus(orbit_given(t, h), free=() if m == 1 else ["d"], ints=["ref"] + (["n"] if m == 1 else [])) for h in H(t)]
            cs.append(Case("eph-%s-%d" % (tn, m), "h_kep_eph", nm + x, 12, fs, diff_spec, eph_or(t, m), k=t, k2=m, engine_hook=hook(ints=["ref", "n"]), maxpaths=100))
        for w in range(4):
            for ep in ((0, 8) if t < 1 else (0,)):
                fs = [plus(orbit_given(t, h), pos=["mus", "rad", "srad"], free=["d"], ints=["ref"]) for h in H(t) if not (h and w == 1)]
                k2 = w + ep; nme = "el-%s-%s%s" % (tn, TYPE[w], "-epoch" if ep else "")
                cs.append(Case(nme, "h_kep_elements", nm + ["mus", "rad", "srad", "d"], 12, fs, diff_spec, el_or(t, w), k=t, k2=k2, engine_hook=hook(ints=["ref"]), maxpaths=100))
        if t != 1:
            fs = [plus(orbit_given(t, True), pos=["mus", "rad", "srad"], free=["d"], ints=["ref"])]
            cs.append(Case("el-%s-hyp-M" % tn, "h_kep_elements", nm + ["mus", "rad", "srad", "d"], 12, fs, logic_spec, el_or(t, 1), k=t, k2=1, engine_hook=hook(ints=["ref"]), maxpaths=100))
        for m in (0, 1) if t < 1 else (0,):
            fs = [plus(orbit_given(t, h), pos=["mus", "rad", "srad"], free=["d"], ints=["ref"]) for h in H(t)]
            cs.append(Case("data-%s-%d" % (tn, m), "h_kep_data", nm + ["mus", "rad", "srad", "d"], 7, fs, data_spec(t, None), data_or(t), k=t, k2=m, engine_hook=hook(ints=["ref"]), maxpaths=100))
    for t in (0, 1):
        cs.append(Case("reject-%s" % TYPE[t], "h_kep_make", names(t) + ["mu", "ref"], 0, [plus(bad_fam(h), ints=["ref"]) for h in (False, True)], domain_spec, make_or(-1, "inconsistent a, e"), k=t, engine_hook=hook(ints=["ref"]), maxpaths=60))
    cs.append(Case("reject-hyp-M", "h_kep_make", names(1) + ["mu", "ref"], 0, [plus(hyp_M(), ints=["ref"])], logic_spec, make_or(-2, "hyperbola with mean anomaly"), k=1, engine_hook=hook(ints=["ref"]), maxpaths=60))
    return cs

def run(R):
    R.bounds += ["every state with angular momentum and non-zero energy; every consistent element set of each type (0 < i < pi, e != 0); every reference epoch (whole microseconds) and every query epoch; real arithmetic",
                 "propagate_lagrangian and ic2par enter through their contracts (C05, C10)"]
    R.setup(build.paths("planet", ["h_udpla.cpp"]), "udpla", extra=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])
    set_native(R.nat)
    R.run(cases(R.tier))
