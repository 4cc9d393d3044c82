"""Lambert returns exactly the existing solutions, up to the requested revolutions."""
import dag, numpy as np, math
from prop import *
import families as F
import C13
from C13 import IN, setup_geo, sample_geo, good, geom, sem, tof_np, tmin_ref
from C16 import fn, name_x2tof, hook_hyp
ONE, TWO, PI, ZERO = dag.ONE, dag.TWO, dag.PI, dag.ZERO

def hook(k, steps):
    """householder, dTdx and x2tof replaced by their contracts (C16): what the constructor does with their answers is explored"""
    def h(E):
        hook_hyp(E); st = {"d": 0, "x": 0, "h": 0}
        base = C13.count(k)
        def cnt(E, v, w, signed):
            r = base(E, v, w, signed); E.facts.append(("count", {"v": v, "n": r if isinstance(r, int) else k + 1})); return r
        E.dtoi_hook = cnt
        def house(E, a):
            E.facts.append(("house", {"N": E.concretize(a[3]), "T": a[1], "px": a[2]})); st["h"] += 1
            E.raw_store(a[2], 8, dag.var("sol%d" % st["h"]))
            E.stub_used.add("lambert_problem::householder (solves the time equation from the guess: C13, C16)")
            return 3
        def x2tof(E, a):
            st["x"] += 1; v = dag.var("Th%d" % st["x"])
            E.facts.append(("x2tof", {"x": a[2], "N": E.concretize(a[3]), "T": v})); E.raw_store(a[1], 8, v)
            E.stub_used.add("lambert_problem::x2tof, dTdx in the minimum search: any value (C16)")
        def dT(E, a):
            st["d"] += 1; j = st["d"]
            d = [dag.var("%s%d" % (n, j)) for n in ("dA", "dB", "dC")] if j <= steps else [ZERO, ONE, ZERO]
            E.facts.append(("dTdx", {"x": a[4], "T": a[5], "d": d}))
            for p, v in zip(a[1:4], d): E.raw_store(p, 8, v)
        for nm, f in ((fn(E, "lambert_problem", "11householderE"), house), (name_x2tof(E), x2tof), (fn(E, "lambert_problem", "dTdxE"), dT)):
            if nm: E.models[nm] = f
    return h
HID = tuple(["sol%d" % i for i in range(1, 12)] + ["Th1", "Th2", "Th3"] + [n + str(j) for n in ("dA", "dB", "dC") for j in (1, 2)])

def fam(up, cw, k):
    def setup(A):
        setup_geo(A, up)
        for n in HID: A.newvar(n)
    def smp(rng, n):
        S_ = sample_geo(rng, n, 0, cw)
        R0 = np.sqrt(sum(S_[a] ** 2 for a in ("x0", "y0", "z0"))); R1 = np.sqrt(sum(S_[a] ** 2 for a in ("x1", "y1", "z1")))
        c = np.sqrt(sum((S_[a + "1"] - S_[a + "0"]) ** 2 for a in "xyz")); s = (R0 + R1 + c) / 2
        hz = S_["x0"] * S_["y1"] - S_["y0"] * S_["x1"]
        l = np.sqrt(np.maximum(0, 1 - c / s)) * np.where((hz < 0) != cw, -1, 1)
        N = rng.integers(0, k + 3, n)
        q = rng.random(n)
        tm = np.array([tmin_np(np.full(1, a), int(b))[0] if b else math.pi for a, b in zip(l[:0], N[:0])])
        tm = tmin_np(l, N)
        T00 = np.arccos(l) + l * np.sqrt(1 - l * l)
        T = np.where(q < 0.3, rng.uniform(0.05, (k + 2) * np.pi, n), np.where(q < 0.7, tm * (1 + rng.choice([-1, 1], n) * np.exp(rng.uniform(-13, -2, n))),
                     np.where(q < 0.85, T00 + N * np.pi + rng.uniform(-0.5, 0.5, n), N * np.pi + rng.uniform(-0.5, 0.5, n))))
        T = np.maximum(T, 0.02); S_["tof"] = T / np.sqrt(2 * S_["mu"] / s ** 3)
        for nm in HID: S_[nm] = rng.normal(size=n)
        S_["dB1"] = np.abs(S_["dB1"]) + 1; S_["dB2"] = np.abs(S_["dB2"]) + 1
        z = rng.random(n) < 0.4; S_["dA1"] = np.where(z, 0, S_["dA1"]); S_["dA2"] = np.where(rng.random(n) < 0.5, 0, S_["dA2"])
        for nm in ("Th1", "Th2", "Th3"): S_[nm] = tm                # the minimum itself
        return S_
    return Family("up" if up > 0 else "down", setup, smp, "all non-collinear r0, r1 with (r0 x r1)_z %s 0, all mu, tof > 0" % (">" if up > 0 else "<"),
                  keep=lambda S: good(dict(S, tof=np.where(S["tof"] > 1e-6, np.maximum(S["tof"], 0.01), 0))) & (np.sign(S["x0"] * S["y1"] - S["y0"] * S["x1"]) == up))
def tmin_np(l, N):
    lo = np.full(l.shape, -0.999999); hi = np.full(l.shape, 0.999999); g = (5 ** 0.5 - 1) / 2
    for _ in range(70):
        a, b = hi - g * (hi - lo), lo + g * (hi - lo)
        w = tof_np(a, l, N) < tof_np(b, l, N)
        hi = np.where(w, b, hi); lo = np.where(w, lo, a)
    return tof_np((lo + hi) / 2, l, N)

def literally0(c, a):
    """the path says a == 0"""
    return any(isinstance(n, dag.Node) and n.op == "eq" and d and a in n.args and any(x.op == "const" and x.val == 0 for x in n.args) for n, d in c.path.trail)
def spec(k, cw):
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s) on a valid problem" % c.throws, False); return
        ev = c.path.facts
        n = [r for t, r in ev if t == "count"]; hs = [r for t, r in ev if t == "house"]
        dt = [r for t, r in ev if t == "dTdx"]; xt = [r for t, r in ev if t == "x2tof"]
        r0 = [c.v(a) for a in IN[:3]]; r1 = [c.v(a) for a in IN[3:6]]; mu, tof = c.v("mu"), c.v("tof")
        s = sem(r0, r1); R0, R1 = dag.sqrt(C13.dot(r0, r0)), dag.sqrt(C13.dot(r1, r1)); cc = TWO * s - R0 - R1
        lam = dag.sqrt(ONE - cc / s)
        if (c.fam.name == "down") != cw: lam = dag.neg(lam)
        T = dag.sqrt(TWO * mu / (s * s * s)) * tof
        if k == 0: N0 = 0
        elif len(n) != 1: yield Truth("one count of the revolutions that fit", False); return
        else:
            N0 = min(k, n[0]["n"]); yield Zero("revolutions that fit: T / pi", n[0]["v"] * PI - T)
        if c.o[0].op != "const": yield Truth("number of revolutions is definite", False); return
        Nm = int(c.o[0].val)
        if N0 == 0: yield Truth("no revolution fits", Nm == 0)
        else:
            T0 = dag.acos(lam) + lam * dag.sqrt(ONE - lam * lam) + dag.const(N0) * PI
            if not dt:
                yield Truth("largest revolution number kept", Nm == N0)
                yield NonNeg("time long enough for %d revolutions (x = 0 is a solution below it)" % N0, T - T0)
            else:
                yield Zero("search of the minimum starts at x = 0", dt[0]["x"])
                yield Zero("search of the minimum starts with the time at x = 0", dt[0]["T"] - T0)
                for i, r in enumerate(xt):
                    yield Truth("time of %d revolutions minimised" % N0, r["N"] == N0)
                    d = dt[i]; A_, B_ = d["d"][:2]; nx = r["x"]
                    s0 = {A_: ZERO}
                    if A_.op == "var":
                        yield Zero("step %d: stationary where the derivative vanishes" % (i + 1), dag.subst(nx, s0) - d["x"])
                        yield Zero("step %d: converges superlinearly" % (i + 1), dag.subst(dag.Diff(A_)(nx), s0) * B_ + ONE)
                    if i + 1 < len(dt):
                        yield Zero("step %d: derivatives at the current point" % (i + 2), dt[i + 1]["x"] - nx)
                        yield Zero("step %d: derivatives with the current time" % (i + 2), dt[i + 1]["T"] - r["T"])
                TM = xt[-1]["T"] if xt else T0
                A_, B_, C_ = dt[-1]["d"]
                if A_.op == "var":
                    # one more Halley step from where the search stopped: A B / (B^2 - A C / 2) is negligible
                    q = A_ * B_ / (B_ * B_ - A_ * C_ / TWO); e = dag.const(1e-6)
                    if not literally0(c, A_):
                        yield NonNeg("search stopped at a stationary point (+)", e - q)
                        yield NonNeg("search stopped at a stationary point (-)", e + q)
                if Nm == N0: yield NonNeg("kept: the minimum time is not above the time of flight", T - TM)
                elif Nm == N0 - 1: yield NonNeg("dropped: the minimum time is not below the time of flight", TM - T)
                else: yield Truth("number of revolutions is min(%d, fitting) or one less" % k, False)
        for i, w in enumerate(("v0", "v1", "x", "iters")):
            yield Zero("size of %s is 2 Nmax + 1" % w, c.o[1 + i] - dag.const(2 * Nm + 1))
        yield Truth("one solution sought per entry", len(hs) == 2 * Nm + 1)
        if len(hs) == 2 * Nm + 1:
            L = sorted(range(len(hs)), key=lambda j: hs[j]["px"])
            yield Truth("distinct entries", [hs[j]["px"] - hs[L[0]]["px"] for j in L] == [8 * i for i in range(len(L))])
            for i, j in enumerate(L):
                yield Truth("solution %d sought with %d revolutions" % (i, (i + 1) // 2), hs[j]["N"] == (i + 1) // 2)
                yield Zero("solution %d sought for the time of flight" % i, hs[j]["T"] - T)
    return sp

def oracle(k, cw):
    def orc(inp, rc, o):
        if rc < 0: return "raised %s on a valid problem" % CODES.get(rc, rc)
        r0, r1, s, lam, T = geom(inp, cw)
        n, near = C13.n_ref(lam, T, k)
        if near: return None
        if int(o[0]) != n: return "%d revolutions found, %d exist (multi_revs = %d, T = %s, lambda = %s)" % (o[0], n, k, float(T), float(lam))
        if any(int(v) != 2 * n + 1 for v in o[1:5]): return "result sizes %s, expected %d" % (o[1:5], 2 * n + 1)
        l, T = float(lam), float(T)
        for i in range(1, n + 1):
            a, b = o[5 + 2 * i - 1], o[5 + 2 * i]
            if T < tmin_ref(l, i) * (1 + 1e-5): continue
            if not (math.isfinite(a) and math.isfinite(b)): return "solutions of %d revolutions not found: %r %r" % (i, a, b)
            if not a < b: return "solutions of %d revolutions not a left/right pair: %r %r" % (i, a, b)
            for x in (a, b):
                if not (-1 < x < 1): return "x = %r is outside (-1, 1)" % x
                t = float(tof_np(np.array([x]), np.array([l]), i)[0])
                if abs(t - T) > 1e-6 * T: return "x = %r takes %r with %d revolutions, not %r" % (x, t, i, T)
        return None
    return orc

def cases(tier):
    L = []
    for k in ((0, 1, 2, 3) if tier == "quick" else range(0, 6)):
        for cw in (False, True):
            L.append(Case("revs-%d%s" % (k, "-cw" if cw else ""), "h_lambert_x", IN, 16, [fam(1, cw, k), fam(-1, cw, k)], spec(k, cw), oracle(k, cw), k=k, k2=int(cw),
                          hidden=HID, engine_hook=hook(k, 2 if k == 1 or tier != 'quick' else 1), timeout=100, maxpaths=400, prune=True))
    return L

def run(R):
    R.setup(build.paths("lambert", ["h_lambert.cpp"]), "lambert")
    R.run(cases(R.tier))
