"""Input families: exact parametrisations (for the algebra) with matching numeric samplers."""
import numpy as np
from alg import SH
from prop import Family

def rat(A, *l):
    """sum of k * prod(vars)"""
    r = A.const(0)
    for k, *f in l:
        t = A.const(k)
        for u in f: t = A.mul(t, A.vr(A.index[u]) if isinstance(u, str) else u)
        r = A.add(r, t)
    return r
def g(A, n): return A.vr(A.index[n])

def frame(A):
    """orthonormal frame from a unit quaternion: (e1, e2, e3)"""
    for n in "q1 q2 q3 q0".split(): A.newvar(n)
    i = A.index
    A.rel[i["q0"]] = {0: 1, 2 << (SH * i["q1"]): -1, 2 << (SH * i["q2"]): -1, 2 << (SH * i["q3"]): -1}
    R = lambda *l: rat(A, *l)
    e1 = [R((1,), (-2, "q2", "q2"), (-2, "q3", "q3")), R((2, "q1", "q2"), (2, "q0", "q3")), R((2, "q1", "q3"), (-2, "q0", "q2"))]
    e2 = [R((2, "q1", "q2"), (-2, "q0", "q3")), R((1,), (-2, "q1", "q1"), (-2, "q3", "q3")), R((2, "q2", "q3"), (2, "q0", "q1"))]
    e3 = [R((2, "q1", "q3"), (2, "q0", "q2")), R((2, "q2", "q3"), (-2, "q0", "q1")), R((1,), (-2, "q1", "q1"), (-2, "q2", "q2"))]
    return e1, e2, e3

def circle(A, cn, sn):
    """cn^2 + sn^2 = 1"""
    A.newvar(cn); A.newvar(sn)
    A.rel[A.index[sn]] = {0: 1, 2 << (SH * A.index[cn]): -1}

def setup_orbit(A, hyp, pos="x y z", vel="vx vy vz", mu="mu"):
    """every (r, v, mu) with r x v != 0 and energy < 0 (hyp=False) or > 0:
       r = R0 e1, v = V (c e1 + s e2), s > 0, sqrt(|a|) = A, sqrt(mu) = m,
       V = m w / A, R0 = 2 A^2 / (w^2 +- 1)"""
    for n in "A w m".split(): A.newvar(n); A.varsign[A.index[n]] = 1
    circle(A, "c", "s"); A.varsign[A.index["s"]] = 1
    e1, e2, e3 = frame(A)
    w2 = rat(A, (1, "w", "w"))
    den = A.add(w2, A.const(-1 if hyp else 1)); A.assume_pos(den)
    R0 = A.div(rat(A, (2, "A", "A")), den)
    V = A.div(rat(A, (1, "m", "w")), g(A, "A"))
    P = pos.split(); Q = vel.split()
    for i in range(3):
        A.inputs[P[i]] = A.mul(R0, e1[i])
        A.inputs[Q[i]] = A.mul(V, A.add(A.mul(g(A, "c"), e1[i]), A.mul(g(A, "s"), e2[i])))
    A.inputs[mu] = rat(A, (1, "m", "m"))

def rand_rot(rng, n):
    q = rng.normal(size=(n, 4)); q /= np.linalg.norm(q, axis=1)[:, None]
    w, x, y, z = q.T
    return np.stack([np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], 1),
                     np.stack([2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], 1),
                     np.stack([2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], 1)], 1)

def sample_orbit(rng, n, hyp, pos="x y z", vel="vx vy vz", mu="mu", emax=0.95, unit=False):
    if hyp: e = 1.02 + rng.exponential(1.0, n)
    else: e = rng.random(n) * emax
    m = np.where(rng.random(n) < 0.5, 1.0, np.exp(rng.uniform(-2, 2, n))) if not unit else np.ones(n)
    a = np.exp(rng.uniform(-1.5, 1.5, n)); p = a * np.abs(1 - e * e)
    fmax = np.where(hyp, np.arccos(-1 / np.maximum(e, 1.0)) * 0.8, np.pi)
    f = rng.uniform(-1, 1, n) * fmax
    r = p / (1 + e * np.cos(f)); k = np.sqrt(m / p)
    X = np.stack([r * np.cos(f), r * np.sin(f), 0 * f], 1); V = np.stack([-k * np.sin(f), k * (e + np.cos(f)), 0 * f], 1)
    R = rand_rot(rng, n)
    # a share of orbits in special orientations (equatorial prograde / retrograde, polar)
    X = np.einsum("nij,nj->ni", R, X); V = np.einsum("nij,nj->ni", R, V)
    P = pos.split(); Q = vel.split(); S = {}
    for i in range(3): S[P[i]] = X[:, i]; S[Q[i]] = V[:, i]
    S[mu] = m
    return S, a, e

def orbit(hyp, tof="tof", unit=False, emax=0.95, nrev=3.0, extra=None, extra_setup=None, far=False):
    def setup(A):
        setup_orbit(A, hyp)
        if extra_setup: extra_setup(A)
    def sample(rng, n):
        S, a, e = sample_orbit(rng, n, hyp, unit=unit, emax=emax)
        if tof:
            T = 2 * np.pi * np.sqrt(a ** 3 / S["mu"])
            S[tof] = rng.uniform(-1, 1, n) * T * np.where(rng.random(n) < 0.5, 1.0, nrev)
            if far: S[tof] = np.where(rng.random(n) < 0.25, np.sign(S[tof]) * T * 10 ** rng.uniform(1, 9 if hyp else 4, n), S[tof])
        if extra: S.update(extra(rng, n))
        return S
    return Family("hyperbolic" if hyp else "elliptic", setup, sample,
                  "all r,v with r x v != 0, energy %s 0, mu > 0" % (">" if hyp else "<"))

def half(A, name, cn, sn, var=True):
    """angle `name` through the cosine/sine of its half; returns (cos, sin) Rats of the full angle"""
    circle(A, cn, sn)
    if var:
        v = A.newvar(name); A.inputs[name] = A.vr(v)
        A.trig.append((A.vr(v), 2, A.index[sn], A.index[cn]))
    return rat(A, (2, cn, cn), (-1,)), rat(A, (2, sn, cn))

def full(A, name, cn, sn, var=True):
    circle(A, cn, sn)
    if var:
        v = A.newvar(name); A.inputs[name] = A.vr(v)
        A.trig.append((A.vr(v), 1, A.index[sn], A.index[cn]))
    return g(A, cn), g(A, sn)

def setup_elements(A, hyp, angles=False):
    """a = +-A^2, e through t in (0,1): sqrt|1-e^2| rational; returns a dict of Rats"""
    for n in "A t m".split(): A.newvar(n); A.varsign[A.index[n]] = 1
    d = A.sub(A.const(1), g(A, "t")); A.assume_pos(d)
    one = A.const(1); t2 = rat(A, (1, "t", "t"))
    A.assume_pos(A.sub(one, t2)); A.assume_pos(A.add(one, t2))
    e = A.div(A.add(one, t2), rat(A, (2, "t"))) if hyp else A.div(rat(A, (2, "t")), A.add(one, t2))
    b = A.div(A.sub(one, t2), rat(A, (2, "t"))) if hyp else A.div(A.sub(one, t2), A.add(one, t2))     # sqrt|1-e^2|
    E = {"a": rat(A, (-1 if hyp else 1, "A", "A")), "e": e, "b": b, "mu": rat(A, (1, "m", "m")), "A": g(A, "A"), "m": g(A, "m")}
    E["ci"], E["si"] = half(A, "i", "Ci", "Si", angles)
    for n in ("Si", "Ci"): A.varsign[A.index[n]] = 1          # 0 < i < pi
    E["cf"], E["sf"] = half(A, "f", "Cf", "Sf", angles)
    E["cW"], E["sW"] = full(A, "W", "cW", "sW", angles)
    E["cw"], E["sw"] = full(A, "w", "cw", "sw", angles)
    ecf = A.add(one, A.mul(e, E["cf"])); A.assume_pos(ecf)
    E["ecf"] = ecf
    if angles:
        A.inputs["a"] = E["a"]; A.inputs["e"] = e; A.inputs["mu"] = E["mu"]
    return E

def elements_to_cart(A, E):
    """textbook perifocal -> inertial map (independent of the code under test)"""
    M, S = A.mul, A.sub; ad = A.add; N = A.neg
    p = M(M(E["A"], E["A"]), M(E["b"], E["b"]))
    r = A.div(p, E["ecf"])
    k = A.div(E["m"], M(E["A"], E["b"]))
    X, Y = M(r, E["cf"]), M(r, E["sf"]); VX, VY = N(M(k, E["sf"])), M(k, ad(E["e"], E["cf"]))
    cW, sW, cw, sw, ci, si = (E[n] for n in ("cW", "sW", "cw", "sw", "ci", "si"))
    P = [S(M(cW, cw), M(M(sW, sw), ci)), ad(M(sW, cw), M(M(cW, sw), ci)), M(sw, si)]
    Q = [N(ad(M(cW, sw), M(M(sW, cw), ci))), S(M(M(cW, cw), ci), M(sW, sw)), M(cw, si)]
    return [ad(M(X, P[j]), M(Y, Q[j])) for j in range(3)], [ad(M(VX, P[j]), M(VY, Q[j])) for j in range(3)]

def orbit_el(hyp, tof="tof", emax=0.95, nrev=3.0):
    """cartesian inputs, parametrised by elements (0 < e, 0 < i < pi)"""
    def setup(A):
        E = setup_elements(A, hyp)
        r, v = elements_to_cart(A, E)
        for j in range(3): A.inputs["xyz"[j]] = r[j]; A.inputs[["vx", "vy", "vz"][j]] = v[j]
        A.inputs["mu"] = E["mu"]; A.E = E
    o = orbit(hyp, tof=tof, emax=emax, nrev=nrev)
    return Family(o.name, setup, o.sample, "all r,v with e != 0, 0 < i < pi, energy %s 0" % (">" if hyp else "<"))
