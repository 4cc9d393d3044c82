"""Low-thrust optimisation problems (pykep.trajopt): fitness, gradient and sparsity are those of the documented transcription."""
import dag, pyk
from pyk import *
from prop import *
def P2P(n, used, M):
    """-> inputs, function"""
    fix = ["rs0", "rs1", "rs2", "vs0", "vs1", "vs2", "rf0", "rf1", "rf2", "vf0", "vf1", "vf2", "ms", "mu", "Tm", "isp", "cut", "tl", "tu", "ml", "mh", "S0", "S1", "S2"]
    xs = ["mf"] + ["u%d" % i for i in range(3 * n)] + ["T"]
    ins = fix + xs + (["w_" + x for x in xs] if used else [])
    def f(ops, v):
        d = dict(zip(ins, v)); F = lambda *k: [d[q] for q in k]
        p = M.direct_point2point(rvs=[F("rs0", "rs1", "rs2"), F("vs0", "vs1", "vs2")], rvf=[F("rf0", "rf1", "rf2"), F("vf0", "vf1", "vf2")], ms=d["ms"], mu=d["mu"],
                                 max_thrust=d["Tm"], isp=d["isp"], tof_bounds=F("tl", "tu"), mf_bounds=F("ml", "mh"), nseg=n, cut=d["cut"], mass_scaling=d["S2"],
                                 r_scaling=d["S0"], v_scaling=d["S1"], with_gradient=True)
        x = F(*xs); w = F(*["w_" + q for q in xs]) if used else None
        def ref(y):
            a = leg_args([F("rs0", "rs1", "rs2"), F("vs0", "vs1", "vs2")], d["ms"], y[1:-1], [F("rf0", "rf1", "rf2"), F("vf0", "vf1", "vf2")], y[0], y[-1] * 86400., d["Tm"], d["isp"], d["mu"], d["cut"])
            m = mismatch(a, n)
            return [-y[0] / d["S2"]] + [m[i] / d["S0" if i < 3 else "S1" if i < 6 else "S2"] for i in range(7)] + thc(y[1:-1])
        b = [d["ml"]] + [-1.] * (3 * n) + [d["tl"]], [d["mh"]] + [1.] * (3 * n) + [d["tu"]]
        return problem(ops, p, x, w, ref, b, 7, n)
    return ins, f
def PL2PL(n, used, M):
    fix = ["ms", "mu", "Tm", "isp", "cut", "t0l", "t0u", "tl", "tu", "ml", "mh", "vis", "vif", "S0", "S1", "S2"]
    xs = ["t0", "mf", "a0", "a1", "a2", "b0", "b1", "b2"] + ["u%d" % i for i in range(3 * n)] + ["T"]
    ins = fix + xs + (["w_" + x for x in xs] if used else [])
    def f(ops, v):
        d = dict(zip(ins, v)); F = lambda *k: [d[q] for q in k]
        A, B = Planet(i=0, mu=d["mu"]), Planet(i=1, mu=d["mu"])
        p = M.direct_pl2pl(pls=A, plf=B, ms=d["ms"], mu=d["mu"], max_thrust=d["Tm"], isp=d["isp"], t0_bounds=F("t0l", "t0u"), tof_bounds=F("tl", "tu"), mf_bounds=F("ml", "mh"),
                           vinfs=d["vis"], vinff=d["vif"], nseg=n, cut=d["cut"], mass_scaling=d["S2"], r_scaling=d["S0"], v_scaling=d["S1"], with_gradient=True)
        x = F(*xs); w = F(*["w_" + q for q in xs]) if used else None
        def ref(y):
            r0, v0 = A.eph(y[0]); r1, v1 = B.eph(y[0] + y[-1])
            a = leg_args([r0, [v0[k] + y[2 + k] for k in range(3)]], d["ms"], y[8:-1], [r1, [v1[k] + y[5 + k] for k in range(3)]], y[1], y[-1] * 86400., d["Tm"], d["isp"], d["mu"], d["cut"])
            m = mismatch(a, n); sq = lambda q: q[0] * q[0] + q[1] * q[1] + q[2] * q[2]
            km = lambda q: d[q] * 1000. * d[q] * 1000.
            return [-y[1] / d["S2"]] + [m[i] / d["S0" if i < 3 else "S1" if i < 6 else "S2"] for i in range(7)] + thc(y[8:-1]) \
                + [(sq(y[2:5]) - km("vis")) / (d["S1"] * d["S1"]), (sq(y[5:8]) - km("vif")) / (d["S1"] * d["S1"])]
        b = [[d["t0l"], d["ml"]] + [-d["vis"] * 1000.] * 3 + [-d["vif"] * 1000.] * 3 + [-1.] * (3 * n) + [d["tl"]],
             [d["t0u"], d["mh"]] + [d["vis"] * 1000.] * 3 + [d["vif"] * 1000.] * 3 + [1.] * (3 * n) + [d["tu"]]]
        return problem(ops, p, x, w, ref, b, 7, n + 2)
    return ins, f
def thc(u): return [u[3 * i] * u[3 * i] + u[3 * i + 1] * u[3 * i + 1] + u[3 * i + 2] * u[3 * i + 2] - 1. for i in range(len(u) // 3)]
def problem(ops, p, x, w, ref, bounds, nec, nic):
    vec = lambda q: NP.array(list(q))                     # pygmo hands arrays over
    dim, nf = len(x), 1 + nec + nic
    if w is not None: p.fitness(vec(w)); p.gradient(vec(w))
    fit = list(p.fitness(vec(x)))
    if w is not None: p.fitness(vec(w))
    g, sp = list(p.gradient(vec(x))), [tuple(int(q) for q in e) for e in p.gradient_sparsity()]
    lb, ub = p.get_bounds()
    head = [float(len(fit)), float(p.get_nec()), float(p.get_nic()), float(len(lb)), float(len(ub)), float(len(g)), float(len(set(sp))), float(bool(p.has_gradient())),
            float(all(0 <= i < nf and 0 <= j < dim for i, j in sp))]
    want = [float(nf), float(nec), float(nic), float(dim), float(dim), float(len(sp)), float(len(sp)), 1., 1.]
    lab = ["number of fitness values", "number of equalities", "number of inequalities", "lower bounds", "upper bounds", "length of the gradient against the sparsity", "no entry twice in the sparsity",
           "has a gradient", "sparsity within the problem's size"]
    if [float(q) for q in head] != want: return head, want, lab
    if w is not None: p.fitness(vec(w))
    rf = ref(x)
    if not ops.sym or w is not None: J = ops.grads(lambda y: p.fitness(vec(y)), x, fit)
    else: J = ops.grads(None, x, fit)
    dense = [[0.] * dim for _ in range(nf)]
    for (i, j), q in zip(sp, g): dense[i][j] = q
    code, out = head + list(lb) + list(ub) + fit, want + list(bounds[0]) + list(bounds[1]) + rf
    lab = lab + ["lower bound %d" % i for i in range(dim)] + ["upper bound %d" % i for i in range(dim)] + ["fitness %d" % i for i in range(nf)]
    for i in range(nf):
        for j in range(dim): code.append(dense[i][j]); out.append(J[i][j]); lab.append("d fitness %d / d x %d" % (i, j))
    return code, out, lab
POS = ("ms", "mu", "Tm", "isp", "S0", "S1", "S2", "vis", "vif", "mf", "w_mf")
def fam(ins):
    def setup(A):
        for n in ins:
            A.newvar(n)
            if n in POS: A.varsign[A.index[n]] = 1
    def sample(rng, k):
        S_ = {n: rng.normal(size=k) for n in ins}
        for n in POS:
            if n in S_: S_[n] = rng.uniform(0.5, 2, k)
        for n in ("vis", "vif"):
            if n in S_: S_[n] = S_[n] / 1000
        for n in S_:
            if n.split("_")[-1] in ("T", "t0", "tl", "tu", "t0l", "t0u"): S_[n] = rng.uniform(0.4, 3, k) / 86400
        return S_
    return Family("all", setup, sample, "every value of the decision vector and of the problem's data")
def run(R):
    F1, F2 = "pykep/trajopt/_direct_point2point.py", "pykep/trajopt/_direct_pl2pl.py"
    pyk.setup(R, [F1, F2]); m1, m2 = load(F1), load(F2)
    R.bounds += ["1 to 3 segments (thorough: 6); first evaluation, and evaluation after others; planets in Keplerian motion (as the documentation of the gradient assumes)"]
    cs = []
    for n in ((1, 2, 3) if R.tier == "quick" else (1, 2, 3, 4, 6)):
        for nm, mk, m in (("point2point", P2P, m1), ("pl2pl", PL2PL, m2)):
            for used in ((0, 1) if n < 3 else (0,)):
                ins, f = mk(n, used, m)
                cs.append(PyCase("%s-%d%s" % (nm, n, "-used" if used else ""), f, ins, [fam(ins)], tol=1e-6, timeout=120, dom=lambda e: all(e[q] > 0 for q in POS if q in e)))
    R.run(cs)
