"""Shared by the high-fidelity leg, the Stark problem and the integrators: the flow of the Stark equations as an uninterpreted
function with its variations, a reference leg, an independent numerical flow (scipy)."""
import dag, math, numpy as np
from prop import *
import sf
from sf import BASE, RS, RF, U, nfwd, G0
ONE, ZERO, TWO = dag.ONE, dag.ZERO, dag.TWO

def rhs(x, p, ops=dag):
    """the documented equations: Keplerian gravity, constant inertial thrust, mass flow |T| / veff"""
    mu, ve, u = p[0], p[1], p[2:5]
    R = ops.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])
    return [x[3], x[4], x[5]] + [-mu * x[i] / (R * R * R) + u[i] / x[6] for i in range(3)] + [-ops.sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]) / ve]
class DOps:
    sqrt = staticmethod(dag.sqrt)
def drhs(x, p):
    mu, ve, u = p[0], p[1], p[2:5]
    R = dag.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])
    return [x[3], x[4], x[5]] + [u[i] / x[6] - mu * x[i] / (R * R * R) for i in range(3)] + [dag.neg(dag.sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2])) / ve]
def flow(x, p, t): return list(x) if t is ZERO else [dag.uf("hphi%d" % i, list(x) + list(p) + [t]) for i in range(7)]
def var(x, p, t):
    """7 x 10: derivatives with respect to the state and the thrust"""
    if t is ZERO: return [[ONE if i == j else ZERO for j in range(10)] for i in range(7)]
    return [[dag.uf("hM%d_%d" % (i, j), list(x) + list(p) + [t]) for j in range(10)] for i in range(7)]
def ufrule(n, d):
    if not n.val.startswith("hphi"): raise NotImplementedError(n.val)
    i = int(n.val[4:]); a = list(n.args); r = ZERO
    M = lambda j: dag.uf("hM%d_%d" % (i, j), a)
    for j in range(7):
        if d[j] is not ZERO: r = r + M(j) * d[j]
    for j in (7, 8):
        if d[j] is not ZERO: raise NotImplementedError("d/dmu, d/dveff")
    for j in range(3):
        if d[9 + j] is not ZERO: r = r + M(7 + j) * d[9 + j]
    if d[12] is not ZERO:                     # autonomous equations: d phi / dt = M f(x)
        f = drhs(a[:7], a[7:12])
        for j in range(7): r = r + M(j) * f[j] * d[12]
    return r
def model(E, a):
    s, px, pp, dt, po = a[:5]
    n, np_, nv = (E.load_i(s + 4 * k, 32) for k in range(3))
    if n != 7 or np_ != 5 or nv not in (0, 10): raise symex_unsupported("integrator of another system: %r" % ((n, np_, nv),))
    args = [E.load_i(s + 4 * (3 + 8 + k), 32) for k in range(nv)]
    if nv and args != [0, 1, 2, 3, 4, 5, 6, 102, 103, 104]: raise symex_unsupported("variations with respect to %r" % args)
    x = [E.load_d(px + 8 * k) for k in range(7)]; p = [E.load_d(pp + 8 * k) for k in range(5)]
    if not isinstance(dt, dag.Node): dt = dag.const(dt)
    out = flow(x, p, dt)
    if nv:
        V = [[E.load_d(px + 8 * (7 + 10 * i + j)) for j in range(10)] for i in range(7)]; M = var(x, p, dt)
        for i in range(7):
            for j in range(10):
                r = M[i][j] if j >= 7 else ZERO
                for k in range(7):
                    if V[k][j] is not ZERO: r = r + M[i][k] * V[k][j]
                out.append(r)
    for k, v in enumerate(out): E.raw_store(po + 8 * k, 8, v)
    E.stub_used.add("heyoka::taylor_adaptive: flow of the equations it was built with and its variations, uninterpreted")
    return None
def symex_unsupported(t):
    import symex; return symex.Unsupported(t)
def hook(E): E.models["kse_ta_flow"] = model

# ---- numbers ---------------------------------------------------------------------------
def num_flow(x, p, t):
    """scipy, DOP853"""
    from scipy.integrate import solve_ivp
    x = np.array(x, float); mu, ve = p[0], p[1]; T = np.array(p[2:5], float); md = math.sqrt(float(T @ T)) / ve if ve else float("nan")
    if not T.any(): md = 0.0
    if t == 0: return x
    cnt = [0]
    def f(_, y):
        cnt[0] += 1
        if cnt[0] > 15000: raise ValueError("integration takes too long")
        R3 = (y[0] * y[0] + y[1] * y[1] + y[2] * y[2]) ** 1.5
        return np.array([y[3], y[4], y[5], -mu * y[0] / R3 + T[0] / y[6], -mu * y[1] / R3 + T[1] / y[6], -mu * y[2] / R3 + T[2] / y[6], -md])
    with np.errstate(all="ignore"):
        r = solve_ivp(f, (0, float(t)), x, method="DOP853", rtol=3e-14, atol=1e-15 * max(1e-30, float(np.max(np.abs(x)))))
    if not r.success: raise ValueError("integration failed")
    return r.y[:, -1]
def set_native(nat):
    memo = {}
    def calc(args):
        n = max(np.size(a) for a in args); A = [np.broadcast_to(np.asarray(a, float), (n,)) for a in args]
        key = tuple(a.tobytes() for a in A)
        if key not in memo:
            if len(memo) > 200: memo.clear()
            out = np.full((77, n), np.nan)
            for j in range(n):
                v = [float(a[j]) for a in A]
                if not all(map(math.isfinite, v)): continue
                try: rc, o = nat.raw("h_ta_flow", v[7:12] + v[:7] + v[12:], 77, 1)
                except Exception: continue
                if rc == 0: out[:, j] = o
            memo[key] = out
        return memo[key]
    for i in range(7):
        dag.UFNUM["hphi%d" % i] = lambda *a, i=i: calc(a)[i]
        for j in range(10): dag.UFNUM["hM%d_%d" % (i, j)] = lambda *a, i=i, j=j: calc(a)[7 + 10 * i + j]

# ---- reference leg -----------------------------------------------------------------------
def reference(fl, n, nf, K, u, num, g0):
    """states at the cut from the left and from the right, and the history of the segment boundaries"""
    h = K["tof"] / num(n); ve = K["isp"] * g0; out = []
    for fwd in (True, False):
        x = list(K["rs"]) + [K["ms"]] if fwd else list(K["rf"]) + [K["mf"]]
        for i in (range(nf) if fwd else range(n - 1, nf - 1, -1)):
            x = list(fl(x, [K["mu"], ve] + [K["Tm"] * u[3 * i + j] for j in range(3)], h if fwd else -h))
        out.append(x)
    return out                                # two lists of 7
def dag_ref(c, n, nf, pre=lambda x: x):
    v = lambda x: c.v(pre(x)) if not isinstance(pre(x), dag.Node) else pre(x)
    K = dict(rs=[v(x) for x in RS], ms=v("ms"), rf=[v(x) for x in RF], mf=v("mf"), tof=v("tof"), Tm=v("Tm"), isp=v("isp"), mu=v("mu"))
    a, b = reference(lambda x, p, t: flow(x, p, t), n, nf, K, [v(x) for x in U(3 * n)], dag.const, dag.const(G0))
    return K, a, b
def num_ref(inp, n, nf, d=None):
    v = [float(x) for x in inp]
    for i, e in (d or {}).items(): v[i] += e
    K, cut, u = sf.unpack(v)
    a, b = reference(num_flow, n, nf, K, u, float, G0)
    return np.array(a, float), np.array(b, float)
def fam(n, **kw):
    f = sf.fam(n, **kw); k0 = f.keep
    f.keep = lambda S: k0(S) & (S["Tm"] > 1e-6) & (S["Tm"] * S["tof"] < 0.5 * S["isp"] * G0 * np.minimum(S["ms"], S["mf"]))
    return f
def cmp7(o, ref, sc7, what):
    for i in range(7):
        if not abs(o[i] - ref[i]) <= 1e-7 * sc7[i]: return "%s[%d] = %r, expected %r" % (what, i, o[i], float(ref[i]))
def scales(a, b):
    r = max(np.max(np.abs(a[:3])), np.max(np.abs(b[:3]))); v = max(np.max(np.abs(a[3:6])), np.max(np.abs(b[3:6])))
    return [r] * 3 + [v] * 3 + [max(abs(a[6]), abs(b[6]))]
def stable(inp, n, nf, a, b):
    """is the leg well conditioned (no close approach)?"""
    p = [x * (1 + 1e-10 * (1 if i % 2 else -1)) if i != 18 else x for i, x in enumerate(inp)]
    a2, b2 = num_ref(p, n, nf); s = scales(a, b)
    return all(abs(a[i] - a2[i]) < 1e-7 * s[i] and abs(b[i] - b2[i]) < 1e-7 * s[i] for i in range(7))
def mismatch_oracle(n, off=0):
    def orc(inp, rc, o):
        if rc != 0: return "raised %s on a valid leg" % CODES.get(rc, rc)
        nf = nfwd(n, inp[18])
        if (int(o[7]), int(o[8]), int(o[9])) != (n, nf, n - nf): return "segments %s, expected %s" % (o[7:10], (n, nf, n - nf))
        try:
            a, b = num_ref(inp, n, nf)
            if not stable(inp, n, nf, a, b): return None
        except ValueError: return None
        m = [a[i] - b[i] for i in range(7)]
        r = cmp7(o, m, scales(a, b), "mismatch")
        if r: return r
        if o[10] != 7 + n: return "%r constraints, expected %d" % (o[10], 7 + n)
        r = cmp7(o[11:18], m, scales(a, b), "constraint")
        if r: return r
        u = inp[19:]
        for i in range(n):
            e = sum(x * x for x in u[3 * i:3 * i + 3]) - 1
            if not abs(o[18 + i] - e) <= 1e-12 * (1 + abs(e)): return "throttle constraint %d = %r, expected %r" % (i, o[18 + i], e)
    return orc
