"""Python-defined planets (tle, spice), planet_to_keplerian, frame rotation epoch, and the Cassini problems of the gym."""
import dag, pyk, types
from pyk import *
from prop import *
import C36
def mods():
    """sgp4 and spiceypy: the state is a function of the body and of the instant only"""
    sg = types.ModuleType("sgp4"); api = types.ModuleType("sgp4.api"); sg.api = api
    class Satrec:
        satnum_str = "00000"
        @staticmethod
        def twoline2rv(a, b): s = Satrec(); s.jdsatepoch, s.jdsatepochF = a, b; return s
        def sgp4(s, i, f):
            a = [s.jdsatepoch, s.jdsatepochF, i + f]
            return 0, tuple(uf("sgp%d" % k, a) for k in range(3)), tuple(uf("sgp%d" % (3 + k), a) for k in range(3))
        def sgp4_array(s, i, f):
            L = [s.sgp4(p, q) for p, q in zip(i, f)]
            return np.array([0] * len(L)), NP.array([l[1] for l in L]), NP.array([l[2] for l in L])
    api.Satrec = Satrec; sg.exporter = types.SimpleNamespace(export_tle=lambda s: ("1", "2"))
    sp = types.ModuleType("spiceypy")
    def spkezr(body, t, frame, ab, obs):
        key = "spk_%s_%s_%s_%s_" % tuple(x.replace(" ", "") for x in (body, frame, ab, obs))
        one = lambda q: NP.array([uf(key + str(k), [q]) for k in range(6)])
        if isinstance(t, (list, tuple, np.ndarray)): return [one(q) for q in t], [0.] * len(t)
        return one(t), 0.
    sp.spkezr = spkezr
    sp.pxform = lambda a, b, t: NP.array([[uf("px_%s_%s_%d%d" % (a, b, i, j), [t]) for j in range(3)] for i in range(3)])
    sp.bodn2c = lambda n: 3; sp.irfnum = lambda n: 17; sp.bods2c = sp.bodn2c
    return {"sgp4": sg, "sgp4.api": api, "spiceypy": sp}
class Kep:
    """contract of udpla.keplerian built from a state (C24): the state at its epoch, Kepler's motion elsewhere"""
    def __init__(s, when, posvel, mu_central_body, name="", added_params=(-1., -1., -1.)):
        s.t0 = when.mjd2000 if isinstance(when, Epoch) else when; s.rv = posvel; s.mu = mu_central_body; s.name = name; s.par = list(added_params)
    def eph(s, t):
        if isinstance(t, Epoch): t = t.mjd2000
        return propagate_lagrangian(s.rv, (t - s.t0) * 86400., s.mu)
    def get_mu_central_body(s): return s.mu
    def get_mu_self(s): return s.par[0]
    def get_radius(s): return s.par[1]
    def get_safe_radius(s): return s.par[2]
    def get_name(s): return s.name
class Body(Planet):
    def __init__(s, rad, srad, **k): Planet.__init__(s, **k); s.rad, s.srad = rad, srad
    def get_radius(s): return s.rad
    def get_safe_radius(s): return s.srad
    def get_name(s): return "abc"
XYZ = ["position x", "position y", "position z", "velocity x", "velocity y", "velocity z"]
def flat(rv): return list(rv[0]) + list(rv[1])
def rows(a): return [e for r in a for e in list(r)]
def unit(q): return q[0] in "rmse" and q not in ("e0", "e1") or q.startswith("mu")
def fam(names, special=None):
    def setup(A):
        for n in names:
            A.newvar(n)
            if n in ("mu", "mup"): A.varsign[A.index[n]] = 1
    def sample(rng, k):
        D = {n: rng.normal(size=k) * 3 for n in names}
        if special: special(D, rng, k)
        return D
    return Family("all", setup, sample, "every epoch and every data")
def jpl(pk):
    ids = dict(earth=0, venus=1, jupiter=2, saturn=3)
    pk.udpla = types.ModuleType("pykep.udpla"); pk.udpla.jpl_lp = lambda b: b.lower()
    class P(Planet):
        def get_name(s): return s.u
    D = {}
    def planet(u=None, *a):
        if not isinstance(u, str): return Wrapped(u)
        return P(u=u, i=ids[u], mu=D["mu"], mus=D["mus%d" % ids[u]])
    pk.planet = planet
    return D, P, ids
def run(R):
    FT, FS, FK, FU, FG = "pykep/udpla/_tle.py", "pykep/udpla/_spice.py", "pykep/utils/_planet_to_keplerian.py", "pykep/utils/_spice_utils.py", "pykep/trajopt/gym/_cassini_mga.py"
    pyk.setup(R, [FT, FS, FK, FU, FG, "pykep/trajopt/_mga.py"])
    R.stubs.add("sgp4 and spiceypy: uninterpreted functions of the body and the instant (not installed here)")
    X = mods()
    def core():
        pk = stub(); pk.udpla = types.ModuleType("pykep.udpla"); pk.udpla.keplerian = Kep; pk.planet = lambda u: u
        pk.utils = types.ModuleType("pykep.utils"); pk.utils.name2naifid = pk.utils.framename2naifid = lambda n: 3
        pk.utils.load_spice_kernels = pk.utils.unload_spice_kernels = lambda *a: None
        pk.__path__ = ["/nonexistent"]
        return pk
    # imports inside of the functions see the same stand-in
    def ld(rel, pk):
        m = load(rel, pk=pk, extra=X); old = (m.__dict__.get("pk"), m.__dict__.get("_pk")); return m
    pkT = core(); T_ = ld(FT, pkT); pkS = core(); SP = ld(FS, pkS); SU = ld(FU, core()); KK = ld(FK, core())
    pkS.udpla.de440s = getattr(SP, "de440s", None)
    class With:
        """sys.modules while a function of the module runs"""
        def __init__(s, pk): s.pk = pk
        def __enter__(s): s.k = sys.modules.get("pykep"); sys.modules["pykep"] = s.pk
        def __exit__(s, *a):
            if s.k is None: sys.modules.pop("pykep", None)
            else: sys.modules["pykep"] = s.k
    MUE = consts()["MU_EARTH"]
    def tle(ops, v):
        a, b, t, u = v; pk = pkT
        with With(pk):
            p = T_.tle(a, b); out = flat(p.eph(t)) + rows(p.eph_v([t, u])) + [p.ref_epoch.mjd2000, p.get_mu_central_body()]
        f = lambda q: [1000 * uf("sgp%d" % k, [a, b, q + 2451544.5]) for k in range(6)]
        return out, f(t) + f(t) + f(u) + [a + b - 2451544.5, MUE], XYZ + ["first row, " + x for x in XYZ] + ["second row, " + x for x in XYZ] + ["epoch of the elements", "central body"]
    def spice(kind):
        def f(ops, v):
            t, u = v
            with With(pkS):
                if kind == "spice": p = SP.spice("MARS", "J2000", "EARTH"); key = "spk_MARS_J2000_NONE_EARTH_"
                else: p = SP.de440s(); key = "spk_EARTHBARYCENTER_ECLIPJ2000_NONE_SSB_"
                out = flat(p.eph(t)) + rows(p.eph_v([t, u]))
            g = lambda q: [1000 * uf(key + str(k), [(q - 0.5) * 86400.]) for k in range(6)]
            return out, g(t) + g(t) + g(u), XYZ + ["first row, " + x for x in XYZ] + ["second row, " + x for x in XYZ]
        return f
    def rot(ops, v):
        t, = v
        return rows(SU.rotation_matrix("A", "B", Epoch(t))), [uf("px_A_B_%d%d" % (i, j), [(t - 0.5) * 86400.]) for i in range(3) for j in range(3)], ["matrix %d%d" % (i, j) for i in range(3) for j in range(3)]
    KN = ["t", "t0", "mu", "mus", "rad", "srad", "mup"]
    def kep(own):
        def f(ops, v):
            d = dict(zip(KN, v)); d.setdefault("mup", -1.); p = Body(d["rad"], d["srad"], i=1, mu=d["mup"], mus=d["mus"]); w = Epoch(d["t0"])
            m = d["mu"] if own else d["mup"]
            try:
                q = KK.planet_to_keplerian(p, w, m) if own else KK.planet_to_keplerian(p, w)
                out = [0.] + flat(q.eph(d["t"])) + [q.get_mu_central_body(), q.get_mu_self(), q.get_radius(), q.get_safe_radius(), float("abc" in q.get_name())]
            except ValueError: out = [1.] + [0.] * 11
            if not own and m == -1: ref = [1.] + [0.] * 11
            else: ref = [0.] + flat(propagate_lagrangian(p.eph(d["t0"]), (d["t"] - d["t0"]) * 86400., m)) + [m, d["mus"], d["rad"], d["srad"], 1.]
            return out, ref, ["refused without a central body"] + XYZ + ["central body", "gravity of the planet", "radius", "safe radius", "name"]
        return f
    cs = [PyCase("tle", tle, ["a", "b", "t", "u"], [fam(["a", "b", "t", "u"])]),
          PyCase("rotation-matrix", rot, ["t"], [fam(["t"])])] + [PyCase(k, spice(k), ["t", "u"], [fam(["t", "u"])]) for k in ("spice", "de440s")]
    def sp(own):
        def f(D, rng, k):
            D["mu"] = np.abs(D["mu"])
            if "mup" in D: D["mup"] = np.abs(D["mup"])
        return f
    for own in (True, False): cs.append(PyCase("to-keplerian" + ("-mu" if own else ""), kep(own), KN, [fam(KN, sp(own))]))
    cs.append(PyCase("to-keplerian-unknown-mu", kep(False), KN[:-1], [fam(KN[:-1], sp(False))]))
    # the gym
    SEQ = ["earth", "venus", "venus", "earth", "jupiter", "saturn"]
    N = len(SEQ) - 1
    def gym(enc, cls, tofb):
        GN = ["mu", "mus3", "vinf", "et", "rp", "t0"] + {"direct": ["T%d" % i for i in range(N)], "alpha": ["T"] + ["b%d" % i for i in range(N)], "eta": ["e%d" % i for i in range(N)]}[enc]
        def f(ops, v):
            d = dict(zip(GN, v)); x = [NP.exp(-d[k]) if k[0] == "b" else d[k] for k in GN[5:]]
            pk = stub(); D, P, ids = jpl(pk)
            for k in ("mu", "mus3"): D[k] = d[k]
            for i in (0, 1, 2): D["mus%d" % i] = 1.
            tr = types.ModuleType("pykep.trajopt"); MG = load("pykep/trajopt/_mga.py", pk=pk); tr.mga = MG.mga; pk.trajopt = tr
            G = load(FG, pk=pk, extra={"pykep.trajopt": tr})
            p = getattr(G, cls); data = [float(q) for q in (p.e_target, p.rp_target, p.vinf)]
            p.e_target, p.rp_target, p.vinf = d["et"], d["rp"], d["vinf"] * 1000.    # any data from here on
            out = list(p.fitness(NP.array(x))); lb, ub = p.get_bounds()
            seq = [P(u=s, i=ids[s], mu=D["mu"], mus=D["mus%d" % ids[s]]) for s in SEQ]
            e = dict(d, tmax=7000.)
            c, _, _ = C36.cost(ops, seq, x[0], C36.times(enc, x, e), e, True)
            info = p.get_extra_info(); pos = 0; ok = 1.
            for s in SEQ:
                pos = info.find(s, pos) + 1
                if not pos: ok = 0.
            nm = {"direct": "direct", "alpha": "alpha", "eta": "eta"}[enc]
            out += [float(q) for q in list(lb) + list(ub)] + [float(p.get_nobj()), ok, float(nm in info)] + data
            t = -1000., 0.
            B = {"direct": ([-1000., 30., 100., 30., 400., 1000.], [0., 400., 470., 400., 2000., 6000.]), "alpha": ([-1000., 4000.] + [1e-3] * N, [0., 7000.] + [1. - 1e-3] * N), "eta": ([-1000.] + [1e-3] * N, [0.] + [1. - 1e-3] * N)}[enc]
            ref = [c] + B[0] + B[1] + [1., 1., 1., 0.98, 108950000., 3000.]
            return out, ref, ["delta-v"] + ["lower bound %d" % i for i in range(len(lb))] + ["upper bound %d" % i for i in range(len(ub))] + ["objectives", "sequence in the description", "encoding in the description", "eccentricity", "pericentre", "free launch speed"]
        return PyCase("gym-" + cls, f, GN, [C36.fam(GN)], timeout=60, dom=C36.dom)
    for enc, cls, tb in (("direct", "cassini1", 0), ("alpha", "cassini1_a", 0), ("eta", "cassini1_n", 0)): cs.append(gym(enc, cls, tb))
    R.bounds += ["one and two epochs per call of the vectorised ephemerides"]
    R.run(cs)
