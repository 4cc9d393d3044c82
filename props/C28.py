"""The low-precision planets follow JPL's published mean elements, over the years they are stated for."""
from planets import *
from C24 import diff_spec
PL = "mercury venus earth mars jupiter saturn uranus neptune".split()
from fractions import Fraction as Q
RADIUS = [2440000, 6052000, 6378000, 3397000, 71492000, 60330000, 25362000, 24622000]
SAFE = [Q(11, 10)] * 4 + [Q(9)] + [Q(11, 10)] * 3
MUS = [22032 * 10**9, 324859 * 10**9, Q(3986004418, 10**4) * 10**9, 42828 * 10**9, 126686534 * 10**9, 37931187 * 10**9, 5793939 * 10**9, 6836529 * 10**9]
LO, HI = -73048, 18263

def inside():
    def setup(A):
        A.newvar("t")
        t = F.g(A, "t"); A.assume_pos(A.sub(t, A.const(LO))); A.assume_pos(A.sub(A.const(HI), t))
    def sample(rng, n):
        t = np.where(rng.random(n) < 0.3, rng.uniform(-3000, 12000, n), rng.uniform(LO, HI, n))
        return {"t": np.where(rng.random(n) < 0.1, rng.choice([LO + 1e-6, HI - 1e-6, 0.0, 0.5, LO + 1, HI - 1], n), t)}
    return Family("1800-2050", setup, sample, "every epoch with %d < mjd2000 < %d" % (LO, HI), keep=lambda S: (S["t"] > LO) & (S["t"] < HI))
def outside(s):
    def setup(A):
        A.newvar("u"); A.varsign[A.index["u"]] = 1
        A.inputs["t"] = A.add(A.const(HI), F.rat(A, (1, "u"))) if s else A.sub(A.const(LO), F.rat(A, (1, "u")))
    def sample(rng, n):
        d = np.where(rng.random(n) < 0.2, 1e-6, 10 ** rng.uniform(-5, 6, n)); return {"t": HI + d if s else LO - d}
    return Family("after 2050" if s else "before 1800", setup, sample, "epochs %s" % ("after mjd2000 = %d" % HI if s else "before mjd2000 = %d" % LO), keep=lambda S: S["t"] > HI if s else S["t"] < LO)
def edge(s):
    x = HI if s else LO
    return Family("end" if s else "start", lambda A: A.inputs.__setitem__("t", A.const(x)), lambda rng, n: {"t": np.full(n, float(x))}, "mjd2000 = %d" % x)

TABLE = []
def table():
    """the published elements, from the harness (one copy)"""
    if not TABLE:
        import re
        s = open(build.H + "/h_udpla.cpp").read(); s = s[s.index("EL[8][12]"):]; s = s[:s.index("}};")]
        for m in re.findall(r"\{([-\d., ]+)\}?", s[s.index("=") + 2:] + "}"): TABLE.append([O.mpf(x.strip()) for x in m.split(",")])
    return TABLE
def ref(k, t):
    p = table()[k]; T = (O.mpf(t) - O.mpf("0.5")) / 36525
    a, e, i, L, W, w = [p[j] + p[6 + j] * T for j in range(6)]; d = mp.pi / 180
    M = (L - W) * d; E = O.kepler_ell(M, e)
    return [a * 149597870700, e, i * d, w * d, (W - w) * d, 2 * mp.atan2(mp.sqrt(1 + e) * mp.sin(E / 2), mp.sqrt(1 - e) * mp.cos(E / 2))]
def jor(k, typ):
    def orc(inp, rc, o):
        t = inp[0]
        if not LO < t < HI: return None if rc == -1 else "epoch %r outside 1800-2050: %s" % (t, CODES.get(rc, rc) if rc else "accepted")
        if rc: return "epoch %r inside 1800-2050 raised %s" % (t, CODES.get(rc, rc))
        el = ref(k, t)
        if typ < 0:
            s = ref_cart(el + [O.mpf("1.32712440041279419e20")])
            return O.close(o[:6], s, 1e-9, [O.norm(s[:3])] * 3 + [O.norm(s[3:])] * 3)
        c = convert(el, typ)
        if typ >= 2 and not mp.mpf(2) ** -1 > abs(el[2]): return None
        if typ == 3 and abs(el[2]) < 1e-3: return None
        return same_elements(o[:6], c, typ, 1e-8)
    return orc
def dom_spec(c): yield Truth("epochs outside the stated years raise domain_error", c.kind == "throw" and "domain_error" in str(c.throws))
def dspec(k, k2):
    def sp(c):
        if c.kind != "ok": yield Truth("no exception", False); return
        for i, (n, x) in enumerate((("mu of the Sun", Q(132712440041279419000)), ("mu", MUS[k]), ("radius", RADIUS[k]), ("safe radius", SAFE[k] * RADIUS[k]))):
            v = c.o[i]; v = v.val if isinstance(v, Node) and v.op == "const" else None
            yield Truth("%s of %s" % (n, PL[k]), v is not None and abs(Q(v) - x) <= x * Q(1, 10**14))
        if k2 and c.case.k2: yield from ()
    return sp
def dor(k):
    def orc(inp, rc, o):
        if not LO < inp[0] < HI: return None
        if rc: return "raised %s" % CODES.get(rc, rc)
        for i, x in enumerate((Q(132712440041279419000), MUS[k], RADIUS[k], SAFE[k] * RADIUS[k])):
            if not abs(o[i] - float(x)) <= 1e-13 * float(x): return "%s of %s is %r, expected %r" % (("mu of the Sun", "mu", "radius", "safe radius")[i], PL[k], o[i], float(x))
    return orc
def nspec(what):
    def sp(c): yield Truth(what, c.kind == "throw")
    return sp
def nor(inp, rc, o): return None if rc < 0 and rc > -90 else "unknown planet accepted"

def cases(tier):
    cs = []
    for k, n in enumerate(PL):
        for typ in (-1, 0, 1, 2) + ((3,) if k != 2 or True else ()):
            if k == 2 and typ == 3: continue          # the retrograde frame is singular where the Earth's inclination crosses zero
            k2 = typ if not (k == 2 and typ == -1) else -1
            cs.append(Case("%s-%s" % (n, "state" if typ < 0 else TYPE[typ]), "h_jpl", ["t"], 12, [inside()], diff_spec, jor(k, typ), k=k, k2=k2, engine_hook=hook(par=False), timeout=20))
        cs.append(Case("%s-range" % n, "h_jpl", ["t"], 12, [outside(0), outside(1), edge(0), edge(1)], dom_spec, jor(k, 0), k=k, k2=0, engine_hook=hook(par=False), timeout=20))
        cs.append(Case("%s-data" % n, "h_jpl_data", ["t"], 5, [inside()], dspec(k, 0), dor(k), k=k, engine_hook=hook(par=False), timeout=20))
        cs.append(Case("%s-data-planet" % n, "h_jpl_data", ["t"], 5, [inside()], dspec(k, 1), dor(k), k=k, k2=1, engine_hook=hook(par=False), timeout=20))
    for typ in (-1, 0, 1):
        cs.append(Case("mars-planet-%d" % typ, "h_jpl", ["t"], 12, [inside()], diff_spec, jor(3, typ), k=3, k2=7 if typ < 0 else 8 + typ, engine_hook=hook(par=False), timeout=20))
    for k, n in ((8, "pluto"), (9, "nibiru"), (10, "empty name")):
        cs.append(Case("unknown-%s" % n, "h_jpl", ["t"], 12, [inside()], nspec("%s is refused" % n), nor, k=k, k2=0, engine_hook=hook(par=False), timeout=20))
    return cs

def run(R):
    R.bounds += ["every epoch in 1800-2050 and every epoch outside; all eight planets; real arithmetic (mean anomaly by the root the solver is asked for, C13)"]
    R.setup(build.paths("planet", ["h_udpla.cpp"]), "udpla", extra=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])
    R.run(cases(R.tier))
