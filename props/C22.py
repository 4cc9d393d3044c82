"""Fly-bys follow the patched-conic model."""
import dag, oracles as O, numpy as np
from prop import *
import families as F
from C10 import guarded
S, C = dag.sin, dag.cos
VI, VO = "ix iy iz".split(), "ox oy oz".split()

def rot(rng, k, u):
    R = F.rand_rot(rng, k); return np.einsum("kij,jk->ik", R, u)
def con_family(kind):
    """kind: '' any pair of velocities not parallel, '+' same direction, '-' opposite"""
    def setup(A):
        for n in "V1 V2 mu rs".split(): A.newvar(n); A.varsign[A.index[n]] = 1
        e1, e2, e3 = F.frame(A)
        if kind == "": F.circle(A, "c", "s"); A.varsign[A.index["s"]] = 1
        for j in range(3):
            A.inputs[VI[j]] = A.mul(A.vr(A.index["V1"]), e1[j])
            d = A.add(A.mul(A.vr(A.index["c"]), e1[j]), A.mul(A.vr(A.index["s"]), e2[j])) if kind == "" else (e1[j] if kind == "+" else A.neg(e1[j]))
            A.inputs[VO[j]] = A.mul(A.vr(A.index["V2"]), d)
    def smp(rng, k):
        V1 = np.exp(rng.normal(size=k)); V2 = np.where(rng.random(k) < 0.2, V1, V1 * np.exp(0.3 * rng.normal(size=k)))
        th = {"": np.where(rng.random(k) < 0.7, np.exp(rng.uniform(-9, 1.1, k)), rng.uniform(1e-3, np.pi, k)), "+": np.zeros(k), "-": np.full(k, np.pi)}[kind]
        R = F.rand_rot(rng, k); ids = rng.random(k) < 0.2; R[ids] = np.eye(3)
        if kind == "": u = np.einsum("kij,jk->ik", R, np.stack([np.cos(th), np.sin(th), 0 * th]))
        a = np.einsum("kij,j->ik", R, np.array([1., 0, 0]))
        if kind == "+": u = a
        if kind == "-": u = -a
        P = {"mu": np.where(rng.random(k) < 0.3, 1.0, np.exp(rng.normal(size=k))), "rs": np.exp(1.5 * rng.normal(size=k))}
        for j in range(3): P[VI[j]] = V1 * a[j]; P[VO[j]] = V2 * u[j]
        return P
    def keep(P):
        a = np.stack([P[x] for x in VI]); b = np.stack([P[x] for x in VO])
        return (P["mu"] > 0) & (P["rs"] > 0) & ((a * a).sum(0) > 0) & ((b * b).sum(0) > 0)
    return Family({"": "directions not parallel", "+": "same direction", "-": "opposite directions"}[kind], setup, smp,
                  "non-zero relative velocities (%s), mu > 0, safe radius > 0" % {"": "any angle in (0, pi)", "+": "parallel", "-": "anti-parallel"}[kind], keep=keep)

def geometry(c):
    """(Vin^2, Vout^2, cos and sin of the angle between them, sin and cos of half the largest turn)"""
    i = [c.v(x) for x in VI]; o = [c.v(x) for x in VO]
    d = lambda a, b: a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
    x = [i[1] * o[2] - i[2] * o[1], i[2] * o[0] - i[0] * o[2], i[0] * o[1] - i[1] * o[0]]
    I, U = dag.sqrt(d(i, i)), dag.sqrt(d(o, o))
    ca = d(i, o) / (I * U); sa = dag.sqrt(d(x, x)) / (I * U)
    s = ONE / (ONE + c.v("rs") * d(i, i) / c.v("mu")); return d(i, i), d(o, o), ca, sa, s, dag.sqrt(ONE - s * s)
ONE = dag.ONE; TWO = dag.TWO
def turn(c):
    """cos and sin of (angle - largest turn)"""
    vi, vo, ca, sa, s, q = geometry(c); cd, sd = ONE - TWO * s * s, TWO * s * q
    return ca * cd + sa * sd, sa * cd - ca * sd
def con_spec(c):
    if c.kind == "throw": yield Truth("no exception on a valid fly-by", False); return
    vi, vo = geometry(c)[:2]; cc, ss = turn(c)
    yield Zero("equality constraint is the difference of the squared speeds", c.o[0] - (vi - vo))
    yield Zero("cos(inequality) = cos(angle - largest turn)", C(c.o[1]) - cc); yield Zero("sin(inequality) = sin(angle - largest turn)", S(c.o[1]) - ss)
    yield NonNeg("inequality <= pi", dag.PI - c.o[1]); yield NonNeg("inequality >= -pi", dag.PI + c.o[1])
    yield from guarded(c, ("acos",))
def dv_spec(c):
    if c.kind == "throw": yield Truth("no exception on a valid fly-by", False); return
    vi, vo, ca, sa, s, q = geometry(c); cc, ss = turn(c); I, U = dag.sqrt(vi), dag.sqrt(vo)
    dv = c.o[0]
    al = dag.un("acos", ca) - TWO * dag.un("asin", s)
    # the turn is within reach exactly when angle - largest turn <= 0
    try: free = c.A.equal(c.A.ev(dv * dv), c.A.ev((U - I) * (U - I)))
    except (CannotEncode, Blowup): free = False
    if free: yield NonNeg("the speed change alone only when the turn is within reach", dag.neg(al))
    else:
        yield Zero("dv^2: impulse after the largest turn", dv * dv - (vi + vo - TWO * I * U * cc))
        yield NonNeg("rotation is completed only when out of reach", al)
    yield NonNeg("dv is not negative", dv)
    yield from guarded(c, ("acos",))
def geo_mp(inp):
    i = [O.mpf(x) for x in inp[:3]]; o = [O.mpf(x) for x in inp[3:6]]; mu, rs = O.mpf(inp[6]), O.mpf(inp[7])
    vi, vo = O.dot(i, i), O.dot(o, o)
    if vi == 0 or vo == 0 or mu <= 0 or rs <= 0: return None
    al = mp.atan2(O.norm(O.cross(i, o)), O.dot(i, o)); e = 1 + rs * vi / mu
    return vi, vo, al - 2 * mp.asin(1 / e), e
def con_oracle(inp, rc, o):
    g = geo_mp(inp)
    if g is None: return None
    if rc: return "raised %s on a valid fly-by" % CODES.get(rc, rc)
    vi, vo, ex, e = g
    if not abs(O.mpf(o[0]) - (vi - vo)) <= 1e-12 * (vi + vo): return "equality constraint %r, expected %s" % (o[0], mp.nstr(vi - vo, 15))
    if not (o[1] == o[1] and abs(O.mpf(o[1]) - ex) <= 1e-6 + 1e-14 / mp.sqrt(max(e - 1, mp.mpf("1e-20")))): return "inequality constraint %r, expected %s" % (o[1], mp.nstr(ex, 15))
def dv_ref(g):
    vi, vo, ex, e = g; I, U = mp.sqrt(vi), mp.sqrt(vo)
    return mp.sqrt(vi + vo - 2 * I * U * mp.cos(ex)) if ex > 0 else abs(U - I)
def dv_oracle(inp, rc, o):
    g = geo_mp(inp)
    if g is None: return None
    if rc: return "raised %s on a valid fly-by" % CODES.get(rc, rc)
    vi, vo, ex, e = g; ref = dv_ref(g); tol = 1e-6 * mp.sqrt(vi + vo) * (1 + 1e-8 / mp.sqrt(max(e - 1, mp.mpf("1e-20"))))
    if not (o[0] == o[0] and abs(O.mpf(o[0]) - ref) <= tol): return "dv = %r, expected %s" % (o[0], mp.nstr(ref, 15))
VP = "px py pz".split()
def vout_family():
    def setup(A):
        for n in "V P mu rp".split(): A.newvar(n); A.varsign[A.index[n]] = 1
        F.circle(A, "c", "s"); A.varsign[A.index["s"]] = 1; A.newvar("beta")
        e1, e2, e3 = F.frame(A); A.e = (e1, e2, e3)
        for j in range(3):
            p = A.mul(A.vr(A.index["P"]), A.add(A.mul(A.vr(A.index["c"]), e1[j]), A.mul(A.vr(A.index["s"]), e2[j])))
            A.inputs[VP[j]] = p; A.inputs[VI[j]] = A.add(p, A.mul(A.vr(A.index["V"]), e1[j]))
    def smp(rng, k):
        V = np.exp(rng.normal(size=k)); Pn = np.exp(rng.normal(size=k)); th = rng.uniform(0.05, 3.09, k)
        R = F.rand_rot(rng, k); a = np.einsum("kij,j->ik", R, np.array([1., 0, 0])); u = np.einsum("kij,jk->ik", R, np.stack([np.cos(th), np.sin(th), 0 * th]))
        P = {"mu": np.where(rng.random(k) < 0.3, 1.0, np.exp(rng.normal(size=k))), "rp": np.exp(rng.normal(size=k)), "beta": np.where(rng.random(k) < 0.2, rng.integers(-2, 3, k) * np.pi / 2, rng.uniform(-4, 7, k))}
        for j in range(3): P[VP[j]] = Pn * u[j]; P[VI[j]] = P[VP[j]] + V * a[j]
        return P
    return Family("relative velocity not parallel to the planet's", setup, smp, "every incoming and planet velocity whose difference is not parallel to the latter, every beta, mu > 0, periapsis radius > 0",
                  keep=lambda P: (P["mu"] > 0) & (P["rp"] > 0))
def vout_spec(c):
    if c.kind == "throw": yield Truth("no exception on a valid fly-by", False); return
    A = c.A; V = A.vr(A.index["V"])
    e1, e2, e3 = ([x for x in e] for e in A.e)
    w = [A.sub(A.ev(c.o[j]), A.inputs[VP[j]]) for j in range(3)]
    d = lambda e: A.add(A.add(A.mul(w[0], e[0]), A.mul(w[1], e[1])), A.mul(w[2], e[2]))
    s = ONE / (ONE + c.v("rp") * (c.v("ix") * ZERO + V2(c)) / c.v("mu")); q = dag.sqrt(ONE - s * s)
    cd, sd = A.ev(ONE - TWO * s * s), A.ev(TWO * s * q); b = c.v("beta")
    # plane of the turn: j = normal to (relative, planet velocity), k = i x j
    yield Zero("relative speed along the incoming direction is v cos(turn)", A.sub(d(e1), A.mul(V, cd)))
    yield Zero("component along the normal is v sin(turn) cos(beta)", A.sub(d(e3), A.mul(A.mul(V, sd), A.ev(C(b)))))
    yield Zero("component along i x j is v sin(turn) sin(beta)", A.add(d(e2), A.mul(A.mul(V, sd), A.ev(S(b)))))
    yield Zero("relative speed is unchanged", A.sub(A.add(A.add(A.mul(w[0], w[0]), A.mul(w[1], w[1])), A.mul(w[2], w[2])), A.mul(V, V)))
ZERO = dag.ZERO
def V2(c):
    r = [c.v(a) - c.v(b) for a, b in zip(VI, VP)]; return r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
def vout_oracle(inp, rc, o):
    i = [O.mpf(x) for x in inp[:3]]; p = [O.mpf(x) for x in inp[3:6]]; rp, be, mu = (O.mpf(x) for x in inp[6:9])
    r = [i[j] - p[j] for j in range(3)]; n = O.cross(r, p); N = O.norm(n); v2 = O.dot(r, r)
    if rp <= 0 or mu <= 0 or v2 == 0 or N < 1e-6 * mp.sqrt(v2) * O.norm(p): return None
    if rc: return "raised %s on a valid fly-by" % CODES.get(rc, rc)
    v = mp.sqrt(v2); d = 2 * mp.asin(1 / (1 + rp * v2 / mu)); ih = [x / v for x in r]; jh = [x / N for x in n]; kh = O.cross(ih, jh)
    for j in range(3):
        ref = p[j] + v * (mp.cos(d) * ih[j] + mp.sin(d) * (mp.cos(be) * jh[j] + mp.sin(be) * kh[j]))
        if not (o[j] == o[j] and abs(O.mpf(o[j]) - ref) <= 1e-7 * (v + O.norm(p))): return "outgoing velocity [%d] = %r, expected %s" % (j, o[j], mp.nstr(ref, 15))
def cases(tier):
    I = VI + VO + ["mu", "rs"]; fs = [con_family(k) for k in ("", "+", "-")]
    return [Case("constraints", "h_fb_con", I, 2, fs, con_spec, con_oracle), Case("dv", "h_fb_dv", I, 1, fs, dv_spec, dv_oracle),
            Case("constraints-planet", "h_fb_planet", I, 2, fs, con_spec, con_oracle, k=0), Case("dv-planet", "h_fb_planet", I, 2, fs, dv_spec, dv_oracle, k=1),
            Case("outgoing", "h_fb_vout", VI + VP + ["rp", "beta", "mu"], 3, [vout_family()], vout_spec, vout_oracle)]
def run(R):
    R.setup(build.paths("planet", ["h_planet.cpp"]), "planet")
    R.bounds += ["no bound on values; kep3::planet compiled against a stand-in for heyoka's tanuki wrapper"]
    R.run(cases(R.tier))
