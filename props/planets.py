"""Shared by the planet properties: contracts of verified functions, families, references."""
import dag, oracles as O, numpy as np, math, symex, extmodels
from prop import *
import mpmath as mp
import families as F
from C05 import RV
from C10 import elem, EL, ref_cart, ref_elements, ang_close
from C11 import eqel, EQ
TYPE = ["KEP_F", "KEP_M", "MEQ", "MEQ_R"]
ZERO, TWO = dag.ZERO, dag.TWO
T0 = 946684800 * 10**6

# ---- contracts (their bodies are decided by C05 and C10) --------------------------------
def m_flow(E, a):
    ret, px, t, mu, want = a[:5]
    if not (isinstance(want, int) and not want & 1): raise symex.Unsupported("state transition matrix asked for")
    x = [E.load_d(px + 8 * i) for i in range(6)]
    for i in range(6): E.raw_store(ret + 8 * i, 8, dag.uf("plphi%d" % i, x + [t, mu]))
    E.raw_store(ret + 336, 1, 0)
    E.stub_used.add("propagate_lagrangian = the Keplerian flow, uninterpreted (C05)")
def m_par(E, a):
    ret, px, mu = a[:3]
    x = [E.load_d(px + 8 * i) for i in range(6)]
    R = dag.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); v2 = x[3] * x[3] + x[4] * x[4] + x[5] * x[5]
    E.raw_store(ret, 8, R * mu / (TWO * mu - R * v2))
    h = [x[1] * x[5] - x[2] * x[4], x[2] * x[3] - x[0] * x[5], x[0] * x[4] - x[1] * x[3]]
    E.raw_store(ret + 8, 8, dag.sqrt(dag.ONE - (h[0] * h[0] + h[1] * h[1] + h[2] * h[2]) * (TWO * mu - R * v2) / (R * mu * mu)))
    for i in range(2, 6): E.raw_store(ret + 8 * i, 8, dag.uf("plpar%d" % i, x + [mu]))
    E.stub_used.add("ic2par = classical elements: a, e from energy and angular momentum, the angles uninterpreted (C10)")
def hook(par=True, ints=()):
    def h(E):
        for m in E.mods:
            for nm in list(m.fns) + list(getattr(m, "decls", [])):
                if "use_facetISt5ctypeIcE" in nm: E.models[nm] = extmodels._use_facet
                if "4kep3" not in nm: continue
                for key in ("propagate_lagrangianE", "propagate_lagrangian_uE", "propagate_keplerianE"):
                    if key in nm: E.models[nm] = m_flow
                if par and "6ic2parE" in nm: E.models[nm] = m_par
        E.share_roots = True
        if not isinstance(E.noshare, set): E.noshare = set()
        def d2i(E, v, w, signed):
            if v.op == "var" and v.val in ints: return symex.IntN(v)
            return E.truncated(v)
        E.dtoi_hook = d2i if ints else None
    return h
def set_native(nat):
    memo = {}
    def calc(fn, args):
        n = max(np.size(a) for a in args); A = [np.broadcast_to(np.asarray(a, float), (n,)) for a in args]
        key = (fn,) + tuple(a.tobytes() for a in A)
        if key not in memo:
            if len(memo) > 200: memo.clear()
            out = np.full((6, n), np.nan)
            for j in range(n):
                v = [float(a[j]) for a in A]
                if not all(map(math.isfinite, v)): continue
                try: rc, o = nat.raw(fn, v, 6)
                except Exception: continue
                if rc == 0: out[:, j] = o
            memo[key] = out
        return memo[key]
    for i in range(6):
        dag.UFNUM["plphi%d" % i] = lambda *a, i=i: calc("h_pl_flow", a)[i]
        dag.UFNUM["plpar%d" % i] = lambda *a, i=i: calc("h_pl_par", a)[i]

# ---- families: orbit given as state / elements, plus other inputs -------------------------
def plus(f, pos=(), free=(), ints=(), far=1.0):
    """further inputs: positive reals, any reals, integers"""
    s0, k0, u0 = f.setup, f.keep, f.sample
    def setup(A):
        s0(A)
        for n in pos: A.newvar(n); A.varsign[A.index[n]] = 1
        for n in list(free) + list(ints): A.newvar(n)
    def sample(rng, n):
        S = u0(rng, n)
        for x in pos: S[x] = np.exp(rng.normal(size=n))
        for x in free: S[x] = np.where(rng.random(n) < 0.2, rng.integers(-3, 4, n) * 1e-4, rng.normal(size=n) * 10 ** rng.uniform(-5, -3, n)) * far
        for x in ints: S[x] = (rng.integers(-10**6, 10**6, n) * np.where(rng.random(n) < 0.5, 1, 10**3) + (T0 if x == "ref" else 0)).astype(float)
        return S
    def keep(S):
        m = np.ones(len(next(iter(S.values()))), bool) if k0 is None else k0(S) & np.ones(len(next(iter(S.values()))), bool)
        for x in pos: m &= S[x] > 0
        for x in ints: m &= (S[x] == np.floor(S[x])) & (abs(S[x]) < 2.0**52)
        return m
    return Family(f.name, setup, sample, f.desc, keep=keep)
def names(typ): return RV if typ < 0 else EQ if typ >= 2 else EL[:5] + (["M"] if typ == 1 else ["f"])
def orbit_given(typ, hyp):
    """orbits given as a state (-1) or as elements of a type"""
    if typ < 0: return F.orbit(hyp, tof=None)
    if typ == 0: return elem(hyp)
    if typ == 1:
        f = elem(False); s0, u0 = f.setup, f.sample
        def setup(A): s0(A); A.newvar("M")
        def sample(rng, n): S = u0(rng, n); S["M"] = rng.uniform(-10, 10, n); return S
        return Family("elliptic", setup, sample, "elliptic elements with mean anomaly", keep=lambda S: (S["a"] * (1 - S["e"]) > 0) & (S["e"] >= 0) & (S["mu"] > 0))
    return eqel(hyp, 1 if typ == 2 else -1)

# ---- references ------------------------------------------------------------------------
def true_elements(x, typ, mu):
    """classical elements with true anomaly, or None where they are ill conditioned"""
    x = [O.mpf(t) for t in x[:6]]
    if typ < 0: return ref_elements(x[:3], x[3:], mu)
    if typ == 1:
        E = O.kepler_ell(x[5], x[1]); return x[:5] + [2 * mp.atan2(mp.sqrt(1 + x[1]) * mp.sin(E / 2), mp.sqrt(1 - x[1]) * mp.cos(E / 2))]
    if typ == 0: return x
    p, f, g, h, k, L = x; I = 1 if typ == 2 else -1
    e = mp.sqrt(f * f + g * g); W = mp.atan2(k, h); t = mp.sqrt(h * h + k * k); w = mp.atan2(g, f) - I * W
    return [p / (1 - e * e), e, 2 * mp.atan(t) if I == 1 else mp.pi - 2 * mp.atan(t), W, w, L - I * W - w]
def state(x, typ, mu):
    if typ < 0: return [O.mpf(t) for t in x[:6]]
    el = true_elements(x, typ, mu)
    return None if el is None else ref_cart(el + [mu])
def nice(el):
    """far from the singularities of the elements"""
    if el is None: return False
    a, e, i, W, w, f = el
    return 1e-4 < e < 1e3 and abs(1 - e) > 1e-4 and mp.sin(i) > 1e-3 and 1 + e * mp.cos(f) > 1e-3
def convert(el, typ):
    a, e, i, W, w, f = el
    if typ == 0: return list(el)
    if typ == 1:
        E = 2 * mp.atan2(mp.sqrt(1 - e) * mp.sin(f / 2), mp.sqrt(1 + e) * mp.cos(f / 2)); return [a, e, i, W, w, E - e * mp.sin(E)]
    I = 1 if typ == 2 else -1; t = mp.tan(i / 2) ** I
    return [a * (1 - e * e), e * mp.cos(w + I * W), e * mp.sin(w + I * W), t * mp.cos(W), t * mp.sin(W), f + w + I * W]
def same_elements(o, ref, typ, tol=1e-6):
    if any(x != x for x in o): return "NaN element %r" % (o,)
    if abs(O.mpf(o[0]) - ref[0]) > tol * abs(ref[0]): return "%s = %r, expected %s" % ("ap"[typ >= 2], o[0], mp.nstr(ref[0], 15))
    if typ >= 2:
        for j in range(1, 5):
            if abs(O.mpf(o[j]) - ref[j]) > tol * (1 + abs(ref[j])): return "%s = %r, expected %s" % (EQ[j], o[j], mp.nstr(ref[j], 15))
        return None if ang_close(o[5], ref[5], tol) else "L = %r, expected %s" % (o[5], mp.nstr(ref[5], 15))
    if abs(O.mpf(o[1]) - ref[1]) > tol * (1 + ref[1]): return "e = %r, expected %s" % (o[1], mp.nstr(ref[1], 15))
    for j in range(2, 6):
        if not ang_close(o[j], ref[j], tol): return "%s = %r, expected %s" % ((EL[j] if j < 5 else "fM"[typ]), o[j], mp.nstr(ref[j], 15))
