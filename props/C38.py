"""Plots: what is drawn on the axes is the trajectory (pykep.plot), and Kepler's motion by true anomaly differences."""
import dag, pyk, types
from pyk import *
from prop import *
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def nrm(a): return NP.sqrt(dot(a, a))
class Ax:
    """records what is drawn"""
    def __init__(s): s.calls = []
    def _rec(kind):
        def f(_ax, x, y, z, *a, **k):
            L = [list(q) if isinstance(q, (list, tuple, np.ndarray)) else [q] for q in (x, y, z)]
            _ax.calls.append((kind, [list(p) for p in zip(*L)], [list(q) for q in a if isinstance(q, np.ndarray)]))
        return f
    plot = _rec("plot"); scatter = _rec("scatter"); quiver = _rec("quiver"); plot3D = plot; scatter3D = scatter
    def points(s): return [c for _, P, _ in s.calls for p in P for c in p]
    def nums(s): return [float(len(s.calls))] + [float(len(P)) for _, P, _ in s.calls]
def module():
    pk = stub(); P = types.ModuleType("pykep.plot"); pk.plot = P; pk.leg.sims_flanagan_hf = object
    mpl = types.ModuleType("matplotlib"); plt = types.ModuleType("matplotlib.pyplot"); mpl.pyplot = plt
    tk = types.ModuleType("mpl_toolkits"); m3 = types.ModuleType("mpl_toolkits.mplot3d"); m3.axes3d = types.ModuleType("axes3d"); tk.mplot3d = m3
    X = {"matplotlib": mpl, "matplotlib.pyplot": plt, "mpl_toolkits": tk, "mpl_toolkits.mplot3d": m3, "mpl_toolkits.mplot3d.axes3d": m3.axes3d}
    for f in ("_planet", "_lambert", "_ballistic", "_sf_leg"):
        m = load("pykep/plot/%s.py" % f, name="pykep.plot." + f, pk=pk, extra=X); X["pykep.plot." + f] = m
    m = load("pykep/plot/__init__.py", name="pykep.plot", pk=pk, extra=X)
    for k in dir(m):
        if not k.startswith("__"): setattr(P, k, getattr(m, k))
    return pk, P
RV = ["x", "y", "z", "u", "v", "w"]
def fam(names, pos=(), fix=None, note="every state and every data"):
    def setup(A):
        for n in names:
            A.newvar(n)
            if n in pos: A.varsign[A.index[n]] = 1
    def sample(rng, k):
        D = {n: rng.uniform(0.4, 2, k) if n in pos else rng.normal(size=k) for n in names}
        if fix: fix(D, rng, k)
        return D
    return Family("all", setup, sample, note)
XYZ = ["x", "y", "z"]
def lab(pts): return ["%s of point %d" % (XYZ[i % 3], i // 3) for i in range(pts)]
def run(R):
    pyk.setup(R, ["pykep/plot/" + f for f in ("__init__.py", "_planet.py", "_lambert.py", "_ballistic.py", "_sf_leg.py")] + ["pykep/trajopt/" + f for f in ("_direct_point2point.py", "_direct_pl2pl.py", "_mga.py")])
    R.stubs.add("matplotlib axes: record what they are given")
    pk, P = module()
    def theta(ops, v):
        """rotation by theta along the conic"""
        r, w, th, mu = v[:3], v[3:6], v[6], v[7]
        out = P.propagate_lagrangian_theta_v(rv=[r, w], thetas=[th], mu=mu)[0]
        R0 = nrm(r); H = cross(r, w); h = nrm(H); c, s = NP.cos(th), NP.sin(th)
        p = h * h / mu; ec = p / R0 - 1; es = h * dot(r, w) / R0 / mu           # e cos f, e sin f
        e1 = ec * c - es * s; e2 = es * c + ec * s
        i = [a / R0 for a in r]; j = [a / h / R0 for a in cross(H, r)]
        ii = [a * c + b * s for a, b in zip(i, j)]; jj = [b * c - a * s for a, b in zip(i, j)]
        Rf = p / (1 + e1)
        return list(out), [Rf * a for a in ii] + [mu / h * (e2 * a + (1 + e1) * b) for a, b in zip(ii, jj)], ["position " + x for x in XYZ] + ["velocity " + x for x in XYZ]
    def arc(N):
        def f(ops, v):
            ax = Ax(); r, w, T, mu, un = v[:3], v[3:6], v[6], v[7], v[8]
            P.add_ballistic_arc(ax, [r, w], T, mu, units=un, N=N)
            ref = [c / un for i in range(N) for c in propagate_lagrangian([r, w], T * i / (N - 1), mu)[0]]
            return ax.points() + ax.nums(), ref + [1., float(N)], lab(len(ref)) + ["curves", "points"]
        return f
    def lambert(N, sol):
        """first solution: the arc runs from one position to the other, in the direction of the motion; the others: the whole orbit"""
        def f(ops, v):
            r, q, mu, un = v[:3], v[3:6], v[6], v[7]; w = [v[8] * a + v[9] * b for a, b in zip(r, q)]; got = []; ax = Ax()
            L = types.SimpleNamespace(r0=r, r1=q, v0=[w, w, w], v1=[w, w, w], mu=mu, Nmax=1, tof=1., cw=False, cs=None)
            def rec(rv, thetas, mu, stm=False):
                got.append((list(rv[0]) + list(rv[1]) + [mu], list(thetas)))
                return NP.array([[uf("kt%d" % k, list(rv[0]) + list(rv[1]) + [mu, t]) for k in range(6)] for t in thetas])
            keep = P.propagate_lagrangian_theta_v; P.propagate_lagrangian_theta_v = rec
            try: P.add_lambert(ax, L, N=N, sol=sol, units=un)
            finally: P.propagate_lagrangian_theta_v = keep
            if sol: T = 2 * math.pi
            else:
                T = NP.arccos(NP.clip(dot(r, q) / (nrm(r) * nrm(q)), -1., 1.))
                if dot(cross(r, q), cross(r, w)) < 0: T = 2 * math.pi - T
            ref = [uf("kt%d" % k, r + w + [mu, T * i / (N - 1)]) / un for i in range(N) for k in range(3)]
            return ax.points() + ax.nums(), ref + [1., float(N)], lab(len(ref)) + ["curves", "points"]
        return f
    def leg(n, cut, N):
        """impulses at the middle of the segments, forward then backward, mass by the rocket equation"""
        def f(ops, v):
            s = Leg(); s.rvs, s.ms, s.rvf, s.mf, s.tof, s.max_thrust, s.isp, s.mu = [v[:3], v[3:6]], v[6], [v[7:10], v[10:13]], v[13], v[14], v[15], v[16], v[17]
            un = v[18]; u = list(v[19:]); s.throttles = u; s.cut = cut; ax = Ax()
            P.add_sf_leg(ax, s, units=un, N=N, show_midpoints=True, show_gridpoints=True, show_throttles=True)
            dt = s.tof / n; nf = int(n * cut); arcs = []
            D = {"plot": [], "quiver": []}; ar, grid, mid, thr = [], {}, {}, {}
            def sweep(rv, m, segs, sg, key):
                grid[key] = [rv[0]]; mid[key] = []; thr[key] = []
                for i in segs:
                    t = u[3 * i:3 * i + 3]
                    ar.append([propagate_lagrangian(rv, sg * dt / 2 * k / (N - 1), s.mu)[0] for k in range(N)])
                    rv = propagate_lagrangian(rv, sg * dt / 2, s.mu); mid[key].append(rv[0]); thr[key].append(t)
                    rv = (rv[0], [a + sg * b * s.max_thrust * dt / m for a, b in zip(rv[1], t)])
                    m = m * NP.exp(-sg * nrm(t) * s.max_thrust * dt / m / s.isp / consts()["G0"])
                    ar.append([propagate_lagrangian(rv, sg * dt / 2 * k / (N - 1), s.mu)[0] for k in range(N)])
                    rv = propagate_lagrangian(rv, sg * dt / 2, s.mu); grid[key].append(rv[0])
            sweep(s.rvs, s.ms, range(nf), 1, "f"); sweep(s.rvf, s.mf, range(n - 1, nf - 1, -1), -1, "b")
            # the curves, whatever the order of the calls
            plots = [p for k, p, _ in ax.calls if k == "plot"]; quiv = [(p, a) for k, p, a in ax.calls if k == "quiver"]
            want, names = [], []
            def draw(tag, pts): want.append(pts); names.append(tag)
            na = 2 * nf
            for i in range(na): draw("arc %d" % i, ar[i])
            draw("forward grid", grid["f"]); draw("forward midpoints", mid["f"])
            for i in range(na, len(ar)): draw("arc %d" % i, ar[i])
            draw("backward grid", grid["b"]); draw("backward midpoints", mid["b"])
            out, ref, L = [float(len(p)) for p in plots if p], [float(len(p)) for p in want if p], ["points of a curve"] * len([p for p in want if p])
            plots = [p for p in plots if p]
            for p, q, nm in zip(plots, [q for q in want if q], [x for x, q in zip(names, want) if q]):
                out += [c for a in p for c in a]; ref += [c / un for a in q for c in a]; L += ["%s, point %d %s" % (nm, i // 3, XYZ[i % 3]) for i in range(3 * len(q))]
            qs = [(p, a) for p, a in quiv if p]
            for (p, a), key in zip(qs, [k for k in "fb" if mid[k]]):
                out += [c for x in p for c in x] + [c for x in zip(*a[:3]) for c in x]
                ref += [c / un for x in mid[key] for c in x] + [c for x in thr[key] for c in x]
                L += ["arrow"] * (3 * len(mid[key])) + ["direction of an arrow"] * (3 * len(mid[key]))
            return out + [float(len(qs))], ref + [float(len([k for k in "fb" if mid[k]]))], L + ["sets of arrows"]
        return f
    def hf(n, cut, N):
        def f(ops, v):
            un, ln = v[0], v[1]; u = list(v[2:2 + 3 * n]); st = list(v[2 + 3 * n:]); ax = Ax()
            H = [NP.array(st[7 * N * i:7 * N * (i + 1)]) for i in range(n)]
            # row i: segment i forward, and for the backward half the history is kept by segment too
            s = types.SimpleNamespace(throttles=u, cut=cut, get_state_history=lambda k: H)
            P.add_sf_hf_leg(ax, s, units=un, N=N, show_gridpoints=True, show_throttles=True, length=ln)
            nf = int(n * cut); sel = lambda i: [list(H[i][7 * j:7 * j + 3]) for j in range(N)]
            got = {"plot": [], "scatter": [], "quiver": []}
            for k, p, a in ax.calls: got[k].append((p, a))
            want = []                      # every drawn set by segment: order does not matter between the sets of one kind
            seqs = [list(range(nf)), list(range(n - 1, nf - 1, -1))]
            out, ref, L = [], [], []
            sc = [p for p, _ in got["scatter"] if p]
            for p, q in zip(sc, [q for q in seqs if q]):
                w = [x for i in q for x in sel(i)]
                out += [float(len(p))] + [c for x in p for c in x]; ref += [float(len(w))] + [c / un for x in w for c in x]; L += ["grid points"] * (1 + 3 * len(w))
            order = seqs[0] + seqs[1]
            out.append(float(len(got["quiver"]))); ref.append(float(n)); L.append("sets of arrows")
            for (p, a), i in zip(got["quiver"], order):
                w = sel(i); out += [c for x in p for c in x] + [c for x in zip(*a[:3]) for c in x]
                ref += [c / un for x in w for c in x] + u[3 * i:3 * i + 3] * N; L += ["arrow of segment %d" % i] * (3 * N) + ["direction of the arrows of segment %d" % i] * (3 * N)
            pl = [p for p, _ in got["plot"] if p]; curves = []
            for q in seqs:
                if q: curves.append([[c / un for c in x] for i in q for x in sel(i)])
                for i in q: curves.append([[c / un + ln * t for c, t in zip(x, u[3 * i:3 * i + 3])] for x in sel(i)])
            out.append(float(len(pl))); ref.append(float(len(curves))); L.append("curves")
            for p, w in zip(pl, curves): out += [float(len(p))] + [c for x in p for c in x]; ref += [float(len(w))] + [c for x in w for c in x]; L += ["curve"] * (1 + 3 * len(w))
            return out, ref, L
        return f
    class Pl(Planet):
        def eph_v(s, ts): return NP.array([list(s.eph(t)[0]) + list(s.eph(t)[1]) for t in ts])
        def period(s, *a): return uf("period", [s.mu])
    def planet(ops, v):
        mu, t, un, a, b = v; ax = Ax(); p = Pl(i=2, mu=mu)
        P.add_planet(ax, p, t, units=un); P.add_planet(ax, p, Epoch(t), units=un)
        P.add_planet_orbit(ax, p, plot_range=[a, b], units=un, N=4); P.add_planet_orbit(ax, p, units=un, N=3)
        ts = [t, t] + [a + (b - a) * i / 3 for i in range(4)] + [p.period() / 86400. * i / 2 for i in range(3)]
        ref = [c / un for q in ts for c in p.eph(q)[0]]
        return ax.points() + ax.nums(), ref + [4., 1., 1., 4., 3.], lab(len(ref)) + ["calls"] + ["points"] * 4
    NM = ["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"]
    def solar(bodies):
        def f(ops, v):
            t, mu = v; ax = Ax(); keep = {k: getattr(pk, k, None) for k in ("udpla", "planet", "planet_to_keplerian")}
            pk.udpla = types.SimpleNamespace(jpl_lp=lambda body: body.lower()); pk.planet = lambda u: Pl(u=u, i=10 + NM.index(u), mu=mu)
            def tok(p, when, mu=None):
                q = Pl(i=p.i, mu=p.mu); q.w = when; return q
            pk.planet_to_keplerian = tok
            try: P.add_solar_system(ax, bodies=bodies, when=Epoch(t))
            finally:
                for k, x in keep.items(): setattr(pk, k, x)
            sc = [p for k, p, _ in ax.calls if k == "scatter"]
            ref = [0., 0., 0.] + [c / consts()["AU"] for b in bodies for c in Pl(i=9 + b, mu=mu).eph(t)[0]]
            return [c for p in sc for x in p for c in x] + [float(len(ax.calls))], ref + [1. + 2 * len(bodies)], lab(len(ref)) + ["curves"]
        return f
    def same(ax, bx):
        """the same points and arrows, curve by curve"""
        o, r, L = [float(len(ax.calls))], [float(len(bx.calls))], ["number of curves"]
        for (k, p, a), (k2, p2, a2) in zip(ax.calls, bx.calls):
            o += [float(len(p))] + [c for x in p for c in x] + [c for x in a for c in x]; r += [float(len(p2))] + [c for x in p2 for c in x] + [c for x in a2 for c in x]
            L += ["points of a curve"] + ["%s, %s of point %d" % (k, XYZ[i % 3], i // 3) for i in range(3 * len(p2))] + ["arrow"] * sum(len(x) for x in a2)
        return o, r, L
    def direct(pl):
        """the plot of a low-thrust problem: ends, planets and leg, in the units asked for"""
        def f(ops, v):
            un, mu, t0, T = v[:4]; u = list(v[4:10]); st = list(v[10:22]); ax, bx = Ax(), Ax()
            if pl:
                A, B = Pl(i=0, mu=mu), Pl(i=1, mu=mu)
                p = M2.direct_pl2pl(pls=A, plf=B, ms=1., mu=mu, max_thrust=1., isp=1., nseg=2, cut=0.5)
                p.plot(NP.array([t0, 1.] + st[:6] + u + [T]), ax=ax, units=un, show_midpoints=True, show_gridpoints=True, show_throttles=True)
                ra, va = A.eph(t0); rb, vb = B.eph(t0 + T); va = [a + b for a, b in zip(va, st[:3])]; vb = [a + b for a, b in zip(vb, st[3:6])]
            else:
                ra, va, rb, vb = st[:3], st[3:6], st[6:9], st[9:12]
                p = M1.direct_point2point(rvs=[ra, va], rvf=[rb, vb], ms=1., mu=mu, max_thrust=1., isp=1., nseg=2, cut=0.5)
                p.plot(NP.array([1.] + u + [T]), ax=ax, units=un, show_midpoints=True, show_gridpoints=True, show_throttles=True)
            bx.scatter(ra[0] / un, ra[1] / un, ra[2] / un); bx.scatter(rb[0] / un, rb[1] / un, rb[2] / un)
            if pl:
                P.add_planet(bx, A, t0, units=un); P.add_planet_orbit(bx, A, units=un); P.add_planet(bx, B, t0 + T, units=un); P.add_planet_orbit(bx, B, units=un)
            s = Leg(); s.rvs, s.ms, s.rvf, s.mf, s.tof, s.max_thrust, s.isp, s.mu, s.throttles, s.cut = [ra, va], 1., [rb, vb], 1., T * 86400., 1., 1., mu, u, 0.5
            P.add_sf_leg(bx, s, units=un, show_midpoints=True, show_gridpoints=True, show_throttles=True)
            return same(ax, bx)
        return f
    def mga(ids):
        def f(ops, v):
            un, mu, t0, T1, T2 = v; ax, bx = Ax(), Ax(); seq = [Pl(i=i, mu=mu, mus=1.) for i in range(3)]; keep = P.propagate_lagrangian_theta_v
            def rec(rv, thetas, mu, stm=False):
                return NP.array([[uf("kt%d" % k, list(rv[0]) + list(rv[1]) + [mu, t]) for k in range(6)] for t in thetas])
            p = M3.mga(seq=seq, t0=[0., 1.], tof=[[1., 2.]] * 2, vinf=1.); P.propagate_lagrangian_theta_v = rec
            mp = types.ModuleType("matplotlib"); mp.pyplot = types.ModuleType("matplotlib.pyplot"); old = {k: sys.modules.get(k) for k in ("matplotlib", "matplotlib.pyplot")}
            sys.modules.update({"matplotlib": mp, "matplotlib.pyplot": mp.pyplot})
            try:
                p.plot(NP.array([t0, T1, T2]), ax=ax, units=un, N=3, leg_ids=ids)
                ep = [t0, t0 + T1, t0 + T1 + T2]; rv = [q.eph(e) for q, e in zip(seq, ep)]
                for q, e in zip(seq, ep): P.add_planet(bx, q, e, units=un); P.add_planet_orbit(bx, q, units=un, N=3)
                P.add_sun(bx)
                for i in ids or (0, 1): P.add_lambert(bx, Lambert(rv[i][0], rv[i + 1][0], (T1, T2)[i] * 86400., mu), N=3, sol=0, units=un)
            finally:
                P.propagate_lagrangian_theta_v = keep
                for k, x in old.items():
                    if x is None: sys.modules.pop(k, None)
                    else: sys.modules[k] = x
            return same(ax, bx)
        return f
    M1, M2, M3 = [load("pykep/trajopt/%s.py" % f, pk=pk) for f in ("_direct_point2point", "_direct_pl2pl", "_mga")]
    DN = ["un", "mu", "t0", "T"] + ["u%d" % i for i in range(6)] + ["s%d" % i for i in range(12)]
    days = lambda D, rng, k: D.update({q: D[q] / 86400 for q in D if q in ("t0", "T", "T1", "T2")})
    cs = [PyCase("plot-direct-" + ("planets" if pl else "points"), direct(pl), DN, [fam(DN, ("un", "mu", "T"), days)]) for pl in (0, 1)]
    MN = ["un", "mu", "t0", "T1", "T2"]
    cs += [PyCase("plot-mga" + "".join(map(str, i)), mga(i), MN, [fam(MN, ("un", "mu", "T1", "T2"), days)]) for i in ([], [1])]
    cs += [PyCase("true-anomaly", theta, RV + ["th", "mu"], [fam(RV + ["th", "mu"], ("mu",))], timeout=60),
          PyCase("planet", planet, ["mu", "t", "un", "a", "b"], [fam(["mu", "t", "un", "a", "b"], ("mu", "un"))]),
          PyCase("solar-system", solar(list(range(1, 9))), ["t", "mu"], [fam(["t", "mu"], ("mu",))]), PyCase("solar-system-inner", solar([1, 2, 3, 4]), ["t", "mu"], [fam(["t", "mu"], ("mu",))])]
    for N in (2, 3, 5): cs.append(PyCase("ballistic-arc-%d" % N, arc(N), RV + ["T", "mu", "un"], [fam(RV + ["T", "mu", "un"], ("mu", "un"))]))
    LN = RV + ["mu", "un", "al", "be"]      # the velocity is in the plane of the two positions
    for sol in (0, 1, 2): cs.append(PyCase("lambert-arc-%d" % sol, lambert(4, sol), LN, [fam(LN, ("mu", "un"))], timeout=60))
    big = R.tier != "quick"
    for n, cut in [(1, 0.), (1, 0.5), (1, 1.), (2, 0.5), (2, 0.), (2, 1.), (3, 0.5), (3, 1.)] + ([(4, 0.5), (4, 1.)] if big else []):
        LG = RV + ["ms"] + [c + "f" for c in RV] + ["mf", "T", "c", "isp", "mu", "un"] + ["t%d" % i for i in range(3 * n)]
        cs.append(PyCase("leg-%d-%g" % (n, cut), leg(n, cut, 2), LG, [fam(LG, ("ms", "mf", "T", "c", "isp", "mu", "un"))], timeout=60))
        HN = ["un", "ln"] + ["t%d" % i for i in range(3 * n)] + ["s%d" % i for i in range(14 * n)]
        cs.append(PyCase("hf-leg-%d-%g" % (n, cut), hf(n, cut, 2), HN, [fam(HN, ("un",))]))
    R.bounds += ["legs of 1 to 3 segments (thorough: 4) with cut 0, 1/2, 1; 2 to 5 points per curve"]
    R.run(cs)
