"""Shared by the Sims-Flanagan properties: reference leg, flow contract, families, oracle."""
import dag, oracles as O, numpy as np, math, symex
from prop import *
import mpmath as mp
import families as F
ONE, ZERO, TWO = dag.ONE, dag.ZERO, dag.TWO
RS = "sx sy sz svx svy svz".split(); RF = "fx fy fz fvx fvy fvz".split()
BASE = RS + ["ms"] + RF + ["mf", "tof", "Tm", "isp", "mu", "cut"]
def U(n): return ["u%d" % i for i in range(n)]
G0 = 9.80665

# ---- the flow as an uninterpreted function (C05, C08: flow and its Jacobian) --------
SG = [1, 1, 1, -1, -1, -1]
def positive(t):
    """False when t < 0 for positive tof (canonical direction: propagate forward, mirrored in time)"""
    try:
        v = dag.evalf(t, {n.val: 1.0 for n in dag.topo([t]) if n.op == "var"})
        v = v if isinstance(v, float) else v[0]
        return not v < 0
    except Exception: return True
def flow(x, t, mu):
    if positive(t): return [dag.uf("phi%d" % i, list(x) + [t, mu]) for i in range(6)]
    a = [x[i] if SG[i] > 0 else dag.neg(x[i]) for i in range(6)] + [dag.neg(t), mu]
    return [dag.uf("phi%d" % i, a) if SG[i] > 0 else dag.neg(dag.uf("phi%d" % i, a)) for i in range(6)]
def stm(x, t, mu):
    if positive(t): return [dag.uf("M%d_%d" % (i, j), list(x) + [t, mu]) for i in range(6) for j in range(6)]
    a = [x[i] if SG[i] > 0 else dag.neg(x[i]) for i in range(6)] + [dag.neg(t), mu]
    return [dag.uf("M%d_%d" % (i, j), a) if SG[i] * SG[j] > 0 else dag.neg(dag.uf("M%d_%d" % (i, j), a)) for i in range(6) for j in range(6)]
def ufrule(n, d):
    """derivative of the flow: state transition matrix and equations of motion"""
    if not n.val.startswith("phi"): raise NotImplementedError(n.val)
    i = int(n.val[3:]); a = list(n.args); mu = a[7]
    r = ZERO
    for j in range(6):
        if d[j] is not ZERO: r = r + dag.uf("M%d_%d" % (i, j), a) * d[j]
    if d[6] is not ZERO:
        if i < 3: f = dag.uf("phi%d" % (i + 3), a)
        else:
            p = [dag.uf("phi%d" % k, a) for k in range(3)]
            R = dag.sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2])
            f = dag.neg(mu * p[i - 3] / (R * R * R))
        r = r + f * d[6]
    if d[7] is not ZERO: raise NotImplementedError("d/dmu")
    return r
def model(E, a):
    ret, px, t, mu, want = a[:5]
    x = [E.load_d(px + 8 * i) for i in range(6)]
    for i, v in enumerate(flow(x, t, mu)): E.raw_store(ret + 8 * i, 8, v)
    if isinstance(want, int) and want & 1:
        for i, v in enumerate(stm(x, t, mu)): E.raw_store(ret + 48 + 8 * i, 8, v)
        E.raw_store(ret + 336, 1, 1)
    else: E.raw_store(ret + 336, 1, 0)
    E.stub_used.add("propagate_lagrangian = Keplerian flow and its Jacobian, uninterpreted (C05, C08), time reversible")
    return None
def hook(E):
    for m in ("propagate_lagrangianE", "propagate_lagrangian_uE", "propagate_keplerianE"):
        for nm in set(sum(([n for n in mod.fns] + list(getattr(mod, "decls", [])) for mod in E.mods), [])):
            if m in nm and "4kep3" in nm: E.models[nm] = model

def set_native(nat):
    memo = {}
    def calc(args):
        n = max(np.size(a) for a in args); A = [np.broadcast_to(np.asarray(a, float), (n,)) for a in args]
        key = tuple(a.tobytes() for a in A)
        if key not in memo:
            if len(memo) > 200: memo.clear()
            out = np.full((42, n), np.nan)
            for j in range(n):
                v = [float(a[j]) for a in A]
                if not all(map(math.isfinite, v)): continue
                try: rc, o = nat.raw("h_sf_flow", v, 42)
                except Exception: continue
                if rc == 0: out[:, j] = o
            memo[key] = out
        return memo[key]
    for i in range(6): dag.UFNUM["phi%d" % i] = lambda *a, i=i: calc(a)[i]
    for i in range(6):
        for j in range(6): dag.UFNUM["M%d_%d" % (i, j)] = lambda *a, i=i, j=j: calc(a)[6 + 6 * i + j]

# ---- reference leg, over any arithmetic ------------------------------------------------
class DagOps:
    flow = staticmethod(flow); sqrt = staticmethod(dag.sqrt)
    @staticmethod
    def exp(x): return dag.un("exp", x)
    g0 = dag.const(G0); half = dag.const(0.5)
    @staticmethod
    def num(x): return dag.const(x)
class MpOps:
    sqrt = staticmethod(mp.sqrt); exp = staticmethod(mp.exp); half = mp.mpf(1) / 2; g0 = mp.mpf("9.80665")
    @staticmethod
    def num(x): return mp.mpf(x)
    @staticmethod
    def flow(x, t, mu): return O.kepler_flow(list(x[:3]), list(x[3:]), t, mu) if t != 0 else list(x)

def reference(P, n, nf, rs, ms, rf, mf, tof, Tm, isp, mu, u, null=()):
    """the two halves of the leg: (state and mass from the left, from the right)"""
    dt = tof / P.num(n); ve = isp * P.g0; out = []
    for fwd in (True, False):
        x, m = (list(rs), ms) if fwd else (list(rf), mf)
        seg = list(range(nf)) if fwd else list(range(n - 1, nf - 1, -1))
        h = P.half * dt
        if seg: x = P.flow(x, h if fwd else -h, mu)
        for q, i in enumerate(seg):
            w = u[3 * i:3 * i + 3]; k = Tm * dt / m
            for j in range(3): x[3 + j] = x[3 + j] + k * w[j] if fwd else x[3 + j] - k * w[j]
            nu = P.sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2])
            if nu is not ZERO and i not in null: m = m * P.exp(-(k * nu) / ve) if fwd else m * P.exp((k * nu) / ve)
            t = h if q == len(seg) - 1 else dt
            x = P.flow(x, t if fwd else -t, mu)
        out.append(x + [m])
    return out
def nfwd(n, cut): return min(n, int(math.floor(n * cut)))

# ---- families -----------------------------------------------------------------------
def fam(n, zero=(), name=None, change=None, cutfix=None, setup2=None, desc=None):
    """all legs of n segments; throttles of the segments in `zero` are null"""
    def setup(A):
        for v in BASE + U(3 * n):
            if v in ("ms", "mf", "tof", "Tm", "isp", "mu"): A.newvar(v); A.varsign[A.index[v]] = 1
            elif v[0] == "u" and v[1:].isdigit() and int(v[1:]) // 3 in zero: A.inputs[v] = A.const(0)
            else: A.newvar(v)
        A.assume_weak(A.vr(A.index["cut"]), 1); A.assume_weak(A.sub(A.const(1), A.vr(A.index["cut"])), 1)
        for i in range(n):
            if i not in zero: A.assume_pos(F.rat(A, *[(1, "u%d" % j, "u%d" % j) for j in range(3 * i, 3 * i + 3)]))
        if setup2: setup2(A)
    def smp(rng, k):
        S = {}
        for P in (RS, RF):
            o, a, e = F.sample_orbit(rng, k, False, emax=0.3, unit=True)
            sc = 1 / a
            for i, nm in enumerate(["x", "y", "z"]): S[P[i]] = o[nm] * sc
            for i, nm in enumerate(["vx", "vy", "vz"]): S[P[3 + i]] = o[nm] / np.sqrt(sc)
        S["ms"] = np.exp(rng.uniform(-1, 2, k)); S["mf"] = S["ms"] * rng.uniform(0.3, 1, k)
        S["tof"] = rng.uniform(0.2, 9, k); S["mu"] = np.where(rng.random(k) < 0.5, 1.0, rng.uniform(0.8, 1.3, k))
        S["Tm"] = 0.1 * S["ms"] * rng.uniform(0.1, 1, k) / np.maximum(1, S["tof"]); S["isp"] = rng.uniform(0.05, 2, k)
        c = rng.random(k); S["cut"] = np.where(c < 0.5, rng.random(k), np.where(c < 0.7, rng.integers(0, n + 1, k) / n, np.where(c < 0.85, 0.0, 1.0)))
        for i in range(3 * n): S["u%d" % i] = rng.uniform(-0.8, 0.8, k) if i // 3 not in zero else np.zeros(k)
        if change: change(S, rng, k)
        return S
    def keep(S):
        with np.errstate(all="ignore"):
            r = (S["tof"] > 1e-3) & (S["tof"] < 50) & (S["ms"] > 1e-3) & (S["mf"] > 1e-3) & (S["ms"] < 1e3) & (S["mf"] < 1e3) & (S["isp"] > 1e-2) & (S["mu"] > 0.1) & (S["mu"] < 10) & (S["Tm"] >= 0) & (S["Tm"] * S["tof"] < 2 * np.minimum(S["ms"], S["mf"]))
            r = r & (S["cut"] >= 0) & (S["cut"] <= 1)
            for P in (RS, RF):
                x = [S[p] for p in P]; R2 = x[0] ** 2 + x[1] ** 2 + x[2] ** 2; V2 = x[3] ** 2 + x[4] ** 2 + x[5] ** 2
                hx = x[1] * x[5] - x[2] * x[4]; hy = x[2] * x[3] - x[0] * x[5]; hz = x[0] * x[4] - x[1] * x[3]
                r = r & (R2 > 0.01) & (R2 < 100) & (V2 < 20) & (hx * hx + hy * hy + hz * hz > 0.05 * R2 * V2) & (V2 > 1e-3)
            for i in range(n): r = r & (S["u%d" % (3 * i)] ** 2 + S["u%d" % (3 * i + 1)] ** 2 + S["u%d" % (3 * i + 2)] ** 2 < 9)
        return r
    return Family(name or ("%d segments%s" % (n, ", null throttle in %s" % list(zero) if zero else "")), setup, smp,
                  desc or "every boundary state with non-zero angular momentum, mass, thrust, isp, mu, tof > 0, every cut in [0, 1]", keep=keep)

def unpack(inp):
    return dict(rs=inp[:6], ms=inp[6], rf=inp[7:13], mf=inp[13], tof=inp[14], Tm=inp[15], isp=inp[16], mu=inp[17]), inp[18], inp[19:]
def mp_ref(inp, n, nf=None, d=None):
    """mismatch in high precision; d = {input index: increment}"""
    v = [mp.mpf(x) for x in inp]
    for i, e in (d or {}).items(): v[i] += e
    K, cut, u = unpack(v)
    a, b = reference(MpOps, n, nfwd(n, inp[18]) if nf is None else nf, u=u, **K)
    return [a[i] - b[i] for i in range(7)], a, b
def mismatch_oracle(n):
    def orc(inp, rc, o):
        if rc != 0: return "raised %s on a valid leg" % CODES.get(rc, rc)
        nf = nfwd(n, inp[18])
        if (int(o[7]), int(o[8]), int(o[9])) != (n, nf, n - nf): return "segments %s, expected %s" % (o[7:10], (n, nf, n - nf))
        ref, a, b = mp_ref(inp, n)
        p, _, _ = mp_ref([x * (1 + (1 if i % 2 else -1) * 2.0 ** -48) if i != 18 else x for i, x in enumerate(inp)], n, nf)
        for i in range(7):
            sc = max([abs(x) for x in (a[:3] + b[:3] if i < 3 else (a[3:6] + b[3:6] if i < 6 else [a[6], b[6]]))])
            tol = 1e-8 * sc + 1e4 * abs(p[i] - ref[i])
            if tol > 0.02 * sc: return None
            if not (o[i] == o[i]) or abs(mp.mpf(o[i]) - ref[i]) > tol: return "mismatch[%d] = %r, expected %s" % (i, o[i], mp.nstr(ref[i], 15))
        return None
    return orc
def seg_obl(c, n):
    """number of segments on each side; returns the forward count"""
    o = c.o[7:10]
    yield Truth("segment counts are definite", all(x.op == "const" for x in o))
