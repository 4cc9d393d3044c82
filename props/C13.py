"""Every Lambert solution joins the two positions in exactly the given time."""
import dag, oracles as O, numpy as np
from prop import *
import mpmath as mp, math
from fractions import Fraction
import families as F
from C16 import fn, name_x2tof, hyp_model, hook_hyp, tof_ref
S, C, Sh, Ch = dag.sin, dag.cos, dag.sinh, dag.cosh
ONE, TWO, PI = dag.ONE, dag.TWO, dag.PI
IN = "x0 y0 z0 x1 y1 z1 tof mu".split()

# ---- families --------------------------------------------------------------
def setup_geo(A, up):
    """semiperimeter s = sg^2, s - c = ka^2, (R0 - R1)/c = cos ph, any orientation, mu = m^2/2"""
    for n in "sg ka m".split(): A.newvar(n); A.varsign[A.index[n]] = 1
    F.circle(A, "cp", "sp"); A.varsign[A.index["sp"]] = 1
    R = lambda *l: F.rat(A, *l); one = A.const(1)
    for f in (1, -1): A.assume_pos(A.add(one, A.mul(A.const(f), F.g(A, "cp"))))
    A.assume_pos(R((1, "sg"), (-1, "ka"))); c = R((1, "sg", "sg"), (-1, "ka", "ka")); A.assume_pos(c)
    b = R((1, "sg", "sg"), (1, "ka", "ka")); rc = A.mul(c, F.g(A, "cp"))
    h = A.const(Fraction(1, 2))
    R0 = A.mul(h, A.add(b, rc)); R1 = A.mul(h, A.sub(b, rc)); A.assume_pos(R0); A.assume_pos(R1)
    st = A.div(A.mul(R((1, "sg", "ka", "sp")), c), A.mul(R0, R1))
    ct = A.div(A.sub(A.add(A.mul(R0, R0), A.mul(R1, R1)), A.mul(c, c)), A.mul(A.const(2), A.mul(R0, R1)))
    e1, e2, e3 = F.frame(A)
    for i in range(3):
        A.inputs["xyz"[i] + "0"] = A.mul(R0, e1[i])
        A.inputs["xyz"[i] + "1"] = A.mul(R1, A.add(A.mul(ct, e1[i]), A.mul(st, e2[i])))
    A.inputs["mu"] = A.mul(h, R((1, "m", "m")))
    # |r1 - r0| = c, and the y of the solver with lambda = ka/sg
    A.hint(c); A.hint(A.mul(A.mul(R0, R1), st))
    A.newvar("tof"); A.varsign[A.index["tof"]] = 1
    A.assume_pos(A.mul(A.const(up), e3[2]))
def sample_geo(rng, n, idx=0, cw=False):
    N = (idx + 1) // 2
    k = rng.uniform(0.05, 0.95, n); cp = np.cos(rng.uniform(0.15, np.pi - 0.15, n)); s = np.exp(rng.uniform(-1, 1, n))
    c = s * (1 - k * k); R0 = 0.5 * (s * (1 + k * k) + cp * c); R1 = 0.5 * (s * (1 + k * k) - cp * c)
    ct = np.clip((R0 ** 2 + R1 ** 2 - c * c) / (2 * R0 * R1), -1, 1); st = np.sqrt(1 - ct * ct)
    Q = F.rand_rot(rng, n); m = np.where(rng.random(n) < 0.5, 1.0, np.exp(rng.uniform(-2, 2, n)))
    r0 = np.einsum("nij,nj->ni", Q, np.stack([R0, 0 * R0, 0 * R0], 1)); r1 = np.einsum("nij,nj->ni", Q, np.stack([R1 * ct, R1 * st, 0 * R0], 1))
    hz = r0[:, 0] * r1[:, 1] - r0[:, 1] * r1[:, 0]
    lam = np.where((hz < 0) != cw, -k, k)
    if N: x = np.where(rng.random(n) < 0.8, rng.uniform(-0.9, 0.93, n), np.where(rng.random(n) < 0.5, -1, 1) * (1 - np.exp(rng.uniform(-6, -2.3, n))))
    else: x = np.where(rng.random(n) < 0.25, rng.uniform(0.8, 1.2, n), np.where(rng.random(n) < 0.3, 1 + rng.exponential(2.0, n), np.where(rng.random(n) < 0.2, -1 + np.exp(rng.uniform(-12, -2.3, n)), rng.uniform(-0.9, 0.85, n))))
    x = np.where(np.abs(x - 1) < 1e-3, 1.002, x)
    T = tof_np(x, lam, N)
    if N: T = np.where((tof_np(x + 1e-5, lam, N) > T) == (idx % 2 == 0), T, np.nan)      # left / right branch
    S_ = {"mu": m, "tof": T / np.sqrt(2 * m / s ** 3), "xs": x, "Tm": T * (1 - 1e-6)}
    for i in range(3): S_["xyz"[i] + "0"] = r0[:, i]; S_["xyz"[i] + "1"] = r1[:, i]
    return S_
def tof_np(x, l, N):
    with np.errstate(all="ignore"):
        y = np.sqrt(1 - l * l * (1 - x * x)); E = x * x - 1; w = np.sqrt(np.abs(E))
        el = ((np.arccos(np.clip(x, -1, 1)) - np.arcsin(np.clip(l * w, -1, 1)) + N * np.pi) / w - x + l * y) / -E
        hy = (x - l * y - np.arcsinh(w * (y - l * x)) / w) / E
    return np.where(x < 1, el, hy)
def good(S_):
    r0 = np.array([S_[a] for a in ("x0", "y0", "z0")]); r1 = np.array([S_[a] for a in ("x1", "y1", "z1")])
    with np.errstate(all="ignore"):
        h = np.cross(r0, r1, axis=0); n = np.linalg.norm(h, axis=0) / (np.linalg.norm(r0, axis=0) * np.linalg.norm(r1, axis=0))
        rr = np.linalg.norm(r0, axis=0) / np.linalg.norm(r1, axis=0)
        return (n > 1e-3) & (rr > 1e-3) & (rr < 1e3) & (S_["mu"] < 1e6) & (np.abs(h[2]) > 1e-6 * np.linalg.norm(h, axis=0)) & (S_["tof"] > 1e-3) & (S_["tof"] < 1e8) & (S_["mu"] > 1e-3)
def geo(idx, cw):
    L = []
    for up in (1, -1):
        keep = lambda S_, up=up: good(S_) & (np.sign(S_["x0"] * S_["y1"] - S_["y0"] * S_["x1"]) == up)
        L.append(Family("up" if up > 0 else "down", lambda A, up=up: setup_geo(A, up), lambda rng, n: sample_geo(rng, n, idx, cw),
                        "all non-collinear r0, r1 with (r0 x r1)_z %s 0, all mu > 0, all tof for which the solution exists" % ("> " if up > 0 else "<"), keep=keep))
    return L

# ---- contract of the iteration ------------------------------------------------
def hook(idx, k):
    def h(E):
        hook_hyp(E); E.dtoi_hook = count(k)
        x2 = fn(E, "lambert_problem", "6x2tof2E")
        ho = fn(E, "lambert_problem", "11householderE"); xt = name_x2tof(E); dt = fn(E, "lambert_problem", "dTdxE")
        st = {"n": 0, "in": False, "halley": 0}
        orig = E.sym.get(xt)
        def house(E, a):
            j = st["n"]; st["n"] += 1
            guess = E.load_d(a[2])
            E.facts.append(("house", {"j": j, "N": a[3], "T": a[1], "eps": a[4], "it": a[5], "px": a[2], "guess": guess}))
            E.stub_used.add("lambert_problem::householder = a root x of x2tof(x, N) - T (checked in C16)")
            if j != idx: return 3
            x = dag.var("root1")
            t = E.alloc(8, "tof"); st["in"] = True
            E.assume(dag.cmp("lt", dag.const(-1), x))
            if (idx + 1) // 2: E.assume(dag.cmp("lt", x, ONE))
            else: E.decide(dag.cmp("lt", x, ONE))
            # C16: x2tof(x, N) and x2tof2(x, N) are the same function; the latter is one closed form
            E.call(E.mods[0], x2, [a[0], t, x, a[3]])
            T = E.load_d(t)
            E.facts.append(("root", {"x": x, "kind": 9, "guess": dag.var("xs"), "lo": dag.const(-1), "hi": dag.const(100), "digits": 52, "maxit": 15, "n": 1,
                                     "f": T - a[1], "given": True, "scale": a[1]}))
            E.raw_store(a[2], 8, x)
            return 3
        def x2tof(E, a):
            # inside the search of the minimum time: any value
            E.facts.append(("halley-x2tof", {"x": a[2], "N": a[3]}))
            E.stub_used.add("minimum time of flight search: any value (checked in C15)")
            E.raw_store(a[1], 8, dag.var("Tm"))
        def dT(E, a):
            st["halley"] += 1
            d = (ONE, ONE, dag.ZERO) if st["halley"] == 1 else (dag.ZERO, ONE, dag.ZERO)
            for p, v in zip(a[1:4], d): E.raw_store(p, 8, v)
        if ho and x2: E.models[ho] = house
        if ho and xt: E.models[xt] = x2tof
        if ho and dt: E.models[dt] = dT
    return h

def count(k):
    """integer part of T / pi: exact up to k, any larger value beyond"""
    def h(E, v, w, signed):
        if not signed and E.decide(dag.cmp("le", v, dag.const(-1))): raise symex.Unsupported("fptoui of a negative value (undefined behaviour)")
        for n in range(k + 1):
            if E.decide(dag.cmp("lt", v, dag.const(n + 1))): return n
        import z3
        b = z3.BitVec("count%d" % len(E.zfacts), w); E.zfacts += [z3.UGE(b, k + 1), z3.ULE(b, 1 << 20)]
        return b
    return h

def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]

def spec(idx, cw):
    N = (idx + 1) // 2
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s) on a valid problem" % c.throws, False); return
        if c.rc != 0: return                              # fewer solutions: C15
        if len(c.roots) != 1: yield Truth("the time equation is solved for this solution", False); return
        r0 = [c.v(n) for n in IN[:3]]; r1 = [c.v(n) for n in IN[3:6]]; mu, tof = c.v("mu"), c.v("tof")
        v0, v1 = c.o[:3], c.o[3:6]
        rec = c.roots[0]; x = rec["x"]
        s = sem(r0, r1)
        ell = literally(c, ONE - x, ">") or literally(c, ONE - x, ">=") or c.A.rsign(c.A.ev(ONE - x)) == 1
        # h: direction of motion
        h0 = cross(r0, v0); h1 = cross(r1, v1)
        yield (Pos if not cw else Neg)("direction of motion as requested", h0[2])
        for i in range(3): yield Zero("same angular momentum [%d]" % i, h0[i] - h1[i])
        R0, R1 = dag.sqrt(dot(r0, r0)), dag.sqrt(dot(r1, r1))
        # semi-major axis from the first state, Kepler flow over the anomaly difference
        en = dot(v0, v0) / TWO - mu / R0
        yield Zero("orbit energy", en * s + mu * (ONE - x * x))
        w2 = (ONE - x * x) if ell else (x * x - ONE)
        a = s / (TWO * w2)                                  # |a|
        sa = dag.sqrt(a); sm = dag.sqrt(mu)
        q0, q1 = dot(r0, v0) / (sm * sa), dot(r1, v1) / (sm * sa)
        n = sm / (a * sa)
        if ell:
            Th = n * tof + q1 - q0
            Cc, Ss = C(Th), S(Th); u = ONE - Cc
            Fl = ONE - a / R0 * u; G = a * q0 * sa / sm * u + R0 * sa / sm * Ss
            Ft = dag.neg(sm * sa) / (R1 * R0) * Ss; Gt = ONE - a / R1 * u
        else:
            Th = dag.neg(n * tof) + q1 - q0
            Cc, Ss = Ch(Th), Sh(Th); u = Cc - ONE
            Th = n * tof; 
            Th = q1 - q0 - n * tof
            Fl = ONE - a / R0 * u; G = a * q0 * sa / sm * u + R0 * sa / sm * Ss
            Ft = dag.neg(sm * sa) / (R1 * R0) * Ss; Gt = ONE - a / R1 * u
        for i in range(3): yield Zero("arrives at r1 after tof [%s]" % IN[3 + i], Fl * r0[i] + G * v0[i] - r1[i])
        for i in range(3): yield Zero("arrives with v1 after tof [v%s]" % IN[3 + i], Ft * r0[i] + Gt * v0[i] - v1[i])
        if ell:
            yield Pos("at least %d revolutions" % N, Th - dag.const(2 * N) * PI + dag.const(4))
            yield Pos("fewer than %d revolutions" % (N + 1), dag.const(2 * N) * PI + dag.const(Fraction(10)) - Th)
            # the half angle is in (0, pi): its sine is positive, so the two bounds leave only [2 pi N, 2 pi N + 2 pi]
            hs = S(Th / TWO - dag.const(N) * PI)
            yield Pos("half transfer anomaly in (0, pi)", hs)
    return sp
def Neg(l, n): return Pos(l, dag.neg(n))
def sem(r0, r1):
    d = [r1[i] - r0[i] for i in range(3)]
    return (dag.sqrt(dot(d, d)) + dag.sqrt(dot(r0, r0)) + dag.sqrt(dot(r1, r1))) / TWO

# ---- oracle ---------------------------------------------------------------------
def tmin_ref(l, N):
    f = lambda x: float(tof_np(np.array([x]), np.array([l]), N)[0])
    lo, hi = -0.999999, 0.999999; g = (5 ** 0.5 - 1) / 2
    for _ in range(120):
        a, b = hi - g * (hi - lo), lo + g * (hi - lo)
        if f(a) < f(b): hi = b
        else: lo = a
    return f((lo + hi) / 2)
def geom(inp, cw):
    r0 = [mp.mpf(v) for v in inp[:3]]; r1 = [mp.mpf(v) for v in inp[3:6]]
    d = [r1[i] - r0[i] for i in range(3)]; cc = O.norm(d); s = (cc + O.norm(r0) + O.norm(r1)) / 2
    lam = mp.sqrt(max(0, 1 - cc / s)); hz = r0[0] * r1[1] - r0[1] * r1[0]
    if (hz < 0) != cw: lam = -lam
    return r0, r1, s, lam, mp.sqrt(2 * mp.mpf(inp[7]) / s ** 3) * inp[6]
def n_ref(lam, T, k):
    """(number of revolutions, True when near a change)"""
    n = 0
    for N in range(1, k + 1):
        if T <= N * math.pi: break
        t = tmin_ref(float(lam), N)
        if abs(T - t) < 1e-6 * t: return n, True
        if T < t: break
        n = N
    return n, False
def oracle(k, idx, cw):
    def orc(inp, rc, o):
        if rc < 0: return "raised %s on a valid problem" % CODES.get(rc, rc)
        r0, r1, s, lam, T = geom(inp, cw)
        n, near = n_ref(lam, T, k)
        if near: return None
        if int(o[6]) != n: return "%d revolutions found, %d exist (multi_revs = %d)" % (o[6], n, k)
        if any(int(v) != 2 * n + 1 for v in o[7:11]): return "result sizes %s, expected %d" % (o[7:11], 2 * n + 1)
        N = (idx + 1) // 2
        if N > n: return None if rc == 1 else "solution %d should not exist" % idx
        if not all(math.isfinite(v) for v in o[:6]): return "velocities not finite: %s" % (o[:6],)
        if N and T < tmin_ref(float(lam), N) * (1 + 1e-4): return None
        hz = inp[0] * o[1] - inp[1] * o[0]
        if (hz < 0) != cw: return "goes round in the wrong direction"
        why = O.flow_oracle(list(inp[:3]) + list(o[:3]) + [inp[6], inp[7]], list(inp[3:6]) + list(o[3:6]), base=1e-9, sens=1e4)
        if why: return "solution %d does not arrive: %s" % (idx, why)
        en = O.dot([mp.mpf(v) for v in o[:3]], [mp.mpf(v) for v in o[:3]]) / 2 - mp.mpf(inp[7]) / O.norm(r0)
        if en < 0:
            P = 2 * mp.pi * mp.mpf(inp[7]) / mp.sqrt((-2 * en) ** 3); q = mp.mpf(inp[6]) / P
            if abs(q - mp.nint(q)) > 1e-6 and int(mp.floor(q)) != N: return "solution %d makes %s revolutions, not %d" % (idx, mp.nstr(q, 8), N)
        elif N: return "solution %d is not periodic" % idx
        return None
    return orc

def cases(tier):
    L = []
    for idx, k in ([(0, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (4, 2)] if tier == "quick" else [(0, 0), (1, 1), (2, 1)] + [(i, k) for k in (2, 3, 4) for i in range(1, 2 * k + 1)]):
        for cw in (False, True):
            L.append(Case("lambert-%d/%d%s" % (idx, k, "-cw" if cw else ""), "h_lambert", IN, 11, geo(idx, cw), spec(idx, cw), oracle(k, idx, cw), k=k, k2=idx + (100 if cw else 0),
                          hidden=("xs", "Tm"), engine_hook=hook(idx, k), prep=prep, elim="tof", timeout=150, maxpaths=400, prune=True))
    return L
def prep(A, path):
    x = A.newvar("root1")

def run(R):
    R.setup(build.paths("lambert", ["h_lambert.cpp"]), "lambert")
    R.run(cases(R.tier))
