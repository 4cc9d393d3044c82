"""The Lambert time equation and its derivatives are exact on every branch."""
import dag, oracles as O, numpy as np
from prop import *
import mpmath as mp
import families as F
S, C, Sh, Ch = dag.sin, dag.cos, dag.sinh, dag.cosh
ONE, TWO, PI = dag.ONE, dag.TWO, dag.PI

def fn(E, *parts):
    for m in E.mods:
        for n in m.fns:
            if all(p in n for p in parts): return n
    return None

def fam(hyp, n=True):
    """x in (-1, 1) or x > 1, -1 < lambda < 1 (lambda = 0 excluded), N >= 0"""
    def setup(A):
        for v in ["t", "r" if hyp else "l"] + (["N"] if n and not hyp else []): A.newvar(v)
        A.varsign[A.index["t"]] = 1
        t2 = F.rat(A, (1, "t", "t")); one = A.const(1)
        A.assume_pos(A.add(one, t2))
        if hyp: A.assume_pos(A.sub(one, F.g(A, "t"))); A.assume_pos(A.sub(one, t2))
        A.inputs["x"] = A.div(A.add(one, t2), A.sub(one, t2)) if hyp else A.div(A.sub(one, t2), A.add(one, t2))
        if hyp:
            A.inputs["N"] = A.const(0)
            # lambda sqrt(x^2-1) = 2r/(1-r^2): y = (1+r^2)/(1-r^2)
            r2 = F.rat(A, (1, "r", "r")); d = A.sub(one, r2); A.assume_pos(d); A.assume_pos(A.add(one, r2))
            for f in (1, -1): A.assume_pos(A.add(one, A.mul(A.const(f), F.g(A, "r"))))
            l = A.inputs["l"] = A.div(A.mul(F.g(A, "r"), A.sub(one, t2)), A.mul(d, F.g(A, "t")))
            y = A.div(A.add(one, r2), d)
            for f in (1, -1):
                A.assume_pos(A.add(one, A.mul(A.const(f), l)))
                A.assume_pos(A.add(y, A.mul(A.const(f), A.mul(l, A.inputs["x"]))))
        else: l = F.g(A, "l")
        A.assume_pos(A.sub(one, A.mul(l, l)))
        if not hyp:
            for f in (1, -1): A.assume_pos(A.add(one, A.mul(A.const(f), l)))
    def sample(rng, k):
        r = rng.random(k)
        if hyp: x = np.where(r < 0.3, 1 + 0.0098 * rng.random(k), np.where(r < 0.6, 1.01 + 0.18 * rng.random(k), 1.2 + rng.exponential(1.5, k)))
        else: x = np.where(r < 0.3, 1 - 0.0098 * rng.random(k), np.where(r < 0.6, 0.81 + 0.18 * rng.random(k), -0.95 + 1.74 * rng.random(k)))
        # keep away from x = 1, where the closed forms lose digits
        x = np.where(np.abs(x - 1) < 1e-4, 1 + (2e-4 if hyp else -2e-4), x)
        return {"x": x, "l": rng.uniform(-0.97, 0.97, k), "N": np.floor(rng.random(k) * 5) if not hyp else np.zeros(k)}
    return Family("x>1" if hyp else "x<1", setup, sample, "-1 < x < 1" if not hyp else "x > 1", keep=lambda S: (np.abs(S["x"] - 1) > 1e-4) & (S["x"] > -0.999) & (S["x"] < 60) & (np.abs(S["l"]) < 0.99) & (S["N"] >= 0) & (S["N"] < 50) & ((S["x"] > 1) == hyp))

# ---- contract of the series: hypergeometricF(z) = F(3,1;5/2;z), closed form
def hyp_model(E, a):
    z, tol = a
    E.stub_used.add("hypergeometricF = F(3,1;5/2;z) closed form, |z| < 1 (checked as case series)")
    E.facts.append(("hyp", {"z": z, "tol": tol}))
    if E.decide(dag.cmp("lt", dag.ZERO, z)):
        u = dag.acos(ONE - TWO * z)
        return dag.const(0.75) * (TWO * u - S(TWO * u)) / (S(u) * S(u) * S(u))
    u = dag.un("acosh", ONE - TWO * z)
    return dag.const(0.75) * (Sh(TWO * u) - TWO * u) / (Sh(u) * Sh(u) * Sh(u))

def hook_hyp(E):
    n = fn(E, "lambert_problem", "hypergeometricF")
    if n: E.models[n] = hyp_model

def value_obl(c, T, x, l, N, hyp):
    """T is the time of flight: (1-x^2) T + x - l y is the transfer angle over sqrt|1-x^2|"""
    y = dag.sqrt(ONE - l * l * (ONE - x * x))
    c.hint(y - l * x); c.hint(y * y - l * x * y); c.hint((ONE + x) * (y - l * x)); c.hint((x - ONE) * (y - l * x))
    if not hyp:
        w = dag.sqrt(ONE - x * x)
        X = (T * (ONE - x * x) + x - l * y) * w - N * PI
        yield Zero("cos of the half transfer anomaly", C(X) - (x * y + l * (ONE - x * x)))
        yield Zero("sin of the half transfer anomaly", S(X) - w * (y - l * x))
        yield Pos("half transfer anomaly above -pi", X + PI)
        yield Pos("half transfer anomaly below 2 pi", TWO * PI - X)
    else:
        w = dag.sqrt(x * x - ONE)
        X = (x - l * y - T * (x * x - ONE)) * w
        yield Zero("sinh of the half transfer anomaly", Sh(X) - w * (y - l * x))

def spec_val(hyp):
    def spec(c):
        if c.kind == "throw": yield Truth("no exception", False); return
        yield from value_obl(c, c.o[0], c.v("x"), c.v("l"), c.v("N"), hyp)
        for k, rec in c.path.facts:
            if k == "hyp": yield Truth("series tolerance", rec["tol"].op == "const" and rec["tol"].val <= 1e-8)
    return spec

def spec_der(hyp):
    def spec(c):
        if c.kind == "throw": yield Truth("no exception", False); return
        T, D1, D2, D3 = c.o[:4]; D = c.D("x"); x, l = c.v("x"), c.v("l")
        y = dag.sqrt(ONE - l * l * (ONE - x * x)); c.hint(y - l * x)
        yield Zero("first derivative", D(T) - D1)
        yield Zero("second derivative", D(D(T)) - D2)
        yield Zero("third derivative", D(D(D(T))) - D3)
    return spec

# ---- independent reference
def tof_ref(x, l, N):
    x, l = mp.mpf(x), mp.mpf(l); y = mp.sqrt(1 - l * l * (1 - x * x))
    if x < 1: X = mp.acos(x) - mp.asin(l * mp.sqrt(1 - x * x)) + N * mp.pi; return (X / mp.sqrt(1 - x * x) - x + l * y) / (1 - x * x)
    E = x * x - 1; X = mp.asinh(mp.sqrt(E) * (y - l * x))
    return (x - l * y - X / mp.sqrt(E)) / E
def oracle_val(inp, rc, o):
    x, l, N = inp[:3]
    if rc != 0: return "raised"
    N = int(N) if x < 1 else 0
    t = tof_ref(x, l, N)
    cond = mp.mpf(1) / abs(1 - mp.mpf(x) ** 2) ** 2 + mp.mpf(1) / abs(1 + mp.mpf(x)) ** 2
    if not abs(mp.mpf(o[0]) - t) <= 1e-9 * abs(t) * 10 + 1e-14 * cond * (1 + N): return "x2tof(%r, lambda=%r, N=%d) = %r, expected %s" % (x, l, N, o[0], mp.nstr(t, 17))
    return None
def oracle_der(inp, rc, o):
    x, l, N = inp[:3]
    if rc != 0: return "raised"
    N = int(N) if x < 1 else 0
    if abs(x - 1) < 5e-3: return None        # differences of the closed form are ill conditioned there
    with mp.workdps(60):
        f = lambda t: tof_ref(t, l, N)
        ref = [f(mp.mpf(x))] + [mp.diff(f, mp.mpf(x), k) for k in (1, 2, 3)]
    u = abs(1 - mp.mpf(x) ** 2)
    for k in range(4):
        tol = (1e-8 + 1e-13 / float(u) ** (k + 2)) * (abs(ref[k]) + 1)
        if not abs(mp.mpf(o[k]) - ref[k]) <= tol: return "derivative %d of the time of flight at x=%r lambda=%r N=%d: %r, expected %s" % (k, x, l, N, o[k], mp.nstr(ref[k], 15))
    return None

# ---- the series itself
def series_fam():
    def setup(A): A.newvar("z"); A.newvar("tol"); A.varsign[A.index["tol"]] = 1; A.assume_pos(A.sub(A.const(1), F.g(A, "tol")))
    def sample(rng, n): return {"z": rng.uniform(-0.4, 0.4, n), "tol": 10 ** rng.uniform(-12, -1, n)}
    return Family("all z", setup, sample, keep=lambda S: (np.abs(S["z"]) < 0.6) & (S["tol"] < 1) & (S["tol"] > 1e-14))
def hook_series(terms):
    """bound: at most `terms` terms of the series (decisions of the loop)"""
    def h(E): E.max_steps = 4 + terms
    return h
def spec_series(c):
    if c.kind == "throw": yield Truth("no exception", False); return
    from fractions import Fraction as Q
    z = c.v("z")
    # the partial sum it returns: F(3,1;5/2;z) = sum_j (3)_j (1)_j / (5/2)_j z^j / j!
    best = None
    s, t, co = ONE, ONE, Q(1)
    for j in range(60):
        co = co * Q(3 + j) * Q(1 + j) / (Q(5, 2) + j) / Q(j + 1)
        t = t * z; s = s + dag.const(co) * t
        try:
            if c.A.ev(c.o[0] - s).is_zero(): best = (j, co, t)
        except (Blowup, CannotEncode): break
    yield Truth("partial sum of the hypergeometric series", best is not None)
    if best:
        a = dag.const(best[1]) * best[2]
        yield NonNeg("last term within the tolerance (+)", c.v("tol") - a)
        yield NonNeg("last term within the tolerance (-)", c.v("tol") + a)
def oracle_series(inp, rc, o):
    z, tol = inp
    r = mp.hyp2f1(3, 1, mp.mpf(5) / 2, mp.mpf(z))
    if not abs(r - o[0]) <= 20 * tol + 1e-12: return "hypergeometricF(%r, %r) = %r, expected %s" % (z, tol, o[0], mp.nstr(r, 15))
    return None

# ---- one step of the iteration and its exit
def name_x2tof(E):
    return fn(E, "lambert_problem", "5x2tofE")
def hook_house(E):
    a = name_x2tof(E); st = {"n": 0}
    def x2tof(E, args):
        st["n"] += 1; n = st["n"]
        t = dag.var("t%d" % n); E.raw_store(args[1], 8, t)
        E.facts.append(("x2tof", {"x": args[2], "N": args[3], "t": t}))
    if a: E.models[a] = x2tof
def DT_ref(x, l, T):
    y = dag.sqrt(ONE - l * l * (ONE - x * x))
    return (dag.const(3) * T * x - TWO + TWO * l * l * l * x / y) / (ONE - x * x)
def house_fam():
    V = "T x0 l eps t1 t2".split()
    def setup(A):
        for v in V + ["xc"]: A.newvar(v)
        A.varsign[A.index["eps"]] = 1; A.assume_pos(A.sub(A.const(1), F.g(A, "eps")))
    def sample(rng, n):
        l = rng.uniform(-0.9, 0.9, n); xs = rng.uniform(-0.6, 0.9, n); N = np.floor(rng.random(n) * 3)
        N = np.where(rng.random(n) < 0.5, 0, N)
        T = np.array([float(tof_ref(a, b, int(c))) for a, b, c in zip(xs, l, N)])
        S_ = {"T": T, "x0": xs + rng.uniform(-0.02, 0.02, n), "l": l, "eps": np.full(n, 1e-8), "N": N}
        for v in V[4:]: S_[v] = rng.normal(size=n)
        return S_
    return Family("any T, x0, 0 < eps < 1", setup, sample, keep=lambda S: (S["eps"] > 0) & (S["eps"] < 1e-4))
def spec_house(c):
    if c.kind in ("bound", "cutoff"): yield Truth("bounded", False); return
    if c.kind == "throw": yield Truth("no exception", False); return
    fx = [r for k, r in c.path.facts if k == "x2tof"]
    yield Truth("time evaluated at every step", len(fx) >= 1)
    if not fx: return
    T = c.v("T"); x = c.v("x0"); l = c.v("l")
    for i, a in enumerate(fx):
        yield Zero("step %d: time evaluated at the current point" % (i + 1), a["x"] - x)
        yield Truth("step %d: revolution number passed on" % (i + 1), a["N"] is c.v("N"))
        nx = fx[i + 1]["x"] if i + 1 < len(fx) else c.o[0]
        # Newton-consistent: new x = x - d/T'(x) + O(d^2), d = time at x - T (x abstracted)
        tv = a["t"]; z = dag.var("xc"); g = dag.subst(nx, {x: z}) if x.op != "var" else nx
        if x.op == "var": z = x
        s0 = {tv: T}
        yield Zero("step %d: fixed point where the time is matched" % (i + 1), dag.subst(g, s0) - z)
        yield Zero("step %d: converges superlinearly" % (i + 1), dag.subst(dag.Diff(tv)(g), s0) * DT_ref(z, l, T) + ONE)
        if i + 1 == len(fx) and len(fx) < 2:
            d = nx - x
            e = c.v("eps")
            if literally(c, d, ">=") or literally(c, d, ">"): yield NonNeg("stops only when the step is within eps", e - d)
            elif literally(c, d, "<=") or literally(c, d, "<"): yield NonNeg("stops only when the step is within eps", e + d)
            else:
                yield NonNeg("stops only when the step is within eps (+)", e - d)
                yield NonNeg("stops only when the step is within eps (-)", e + d)
        x = nx
    yield Truth("number of iterations reported", c.o[1].op == "const" and int(c.o[1].val) == len(fx))
def oracle_house(inp, rc, o):
    T, x0, l, eps = inp[:4]; N = int(inp[-1])
    if rc != 0: return "raised"
    if not (-1 < o[0] < 50): return "iteration left the domain: x=%r for T=%r lambda=%r N=%d" % (o[0], T, l, N)
    t = tof_ref(o[0], l, N if o[0] < 1 else 0)
    if not abs(t - T) <= 1e-6 * T: return "iteration from x0=%r stopped at x=%r where the time is %s, not %r (lambda=%r, N=%d)" % (x0, o[0], mp.nstr(t, 15), T, l, N)
    return None

def cases(tier):
    e, h = fam(False), fam(True)
    kw = dict(k="N", engine_hook=hook_hyp, timeout=150)
    return [Case("x2tof-ell", "h_x2tof", ["x", "l"], 1, [e], spec_val(False), oracle_val, **kw),
            Case("x2tof-hyp", "h_x2tof", ["x", "l"], 1, [h], spec_val(True), oracle_val, **kw),
            Case("x2tof2-ell", "h_x2tof2", ["x", "l"], 1, [e], spec_val(False), oracle_val, **kw),
            Case("x2tof2-hyp", "h_x2tof2", ["x", "l"], 1, [h], spec_val(True), oracle_val, **kw),
            Case("dTdx-ell", "h_dTdx", ["x", "l"], 4, [e], spec_der(False), oracle_der, **kw),
            Case("dTdx-hyp", "h_dTdx", ["x", "l"], 4, [h], spec_der(True), oracle_der, **kw),
            Case("series", "h_hyp", ["z", "tol"], 1, [series_fam()], spec_series, oracle_series, maxpaths=60, engine_hook=hook_series(12 if tier == "quick" else 24), bounded="terms of the series"),
            Case("householder", "h_householder", ["T", "x0", "l", "eps"], 2, [house_fam()], spec_house, oracle_house, k="N", k2=2, nat_k2=15, engine_hook=hook_house)]

def run(R):
    R.setup(build.paths("lambert", ["h_lambert.cpp"]), "lambert")
    R.run(cases(R.tier))
