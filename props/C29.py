"""What a planet does not provide itself is derived from its ephemeris and its central body, or refused."""
from planets import *
from C24 import diff_spec, el_or, logic_spec

def per_spec(c):
    if c.kind != "ok": yield Truth("no exception", False); return
    if c.fam.name == "hyperbolic": yield Truth("period of a hyperbola is NaN", c.o[0] is dag.NAN); return
    x = [c.v(n) for n in RV]; mu = c.v("mu"); R = dag.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); a = R * mu / (TWO * mu - R * (x[3] * x[3] + x[4] * x[4] + x[5] * x[5]))
    T = c.o[0] / (TWO * dag.PI); yield Zero("T^2 mu = 4 pi^2 a^3", T * T * mu - a * a * a); yield Pos("T > 0", c.o[0])
def per_or(inp, rc, o):
    if inp[6] <= 0: return None
    r, v, mu = [O.mpf(x) for x in inp[:3]], [O.mpf(x) for x in inp[3:6]], O.mpf(inp[6])
    if O.norm(r) == 0: return None
    s = 2 / O.norm(r) - O.dot(v, v) / mu
    if abs(s) * O.norm(r) < 1e-6: return None
    if rc: return "raised %s" % CODES.get(rc, rc)
    if s < 0: return None if o[0] != o[0] else "period of a hyperbola is %r" % o[0]
    T = 2 * mp.pi * mp.sqrt(1 / s ** 3 / mu)
    return None if abs(o[0] - T) <= 1e-8 / (abs(s) * O.norm(r)) * T else "period %r, expected %s" % (o[0], mp.nstr(T, 15))
def free(names, ints=()):
    def sample(rng, n): return {x: rng.normal(size=n) * 10 ** rng.uniform(-3, 3, n) for x in names}
    return Family("any", lambda A: [A.newvar(x) for x in names], sample, "any reals")
def eq_spec(pairs):
    """pairs: index -> function of the context"""
    def sp(c):
        if c.kind != "ok": yield Truth("no exception", False); return
        for i, f in pairs.items(): yield Zero("out[%d]" % i, c.o[i] - f(c.v))
    return sp
def eq_or(pairs, names):
    def orc(inp, rc, o):
        if rc: return "raised %s" % CODES.get(rc, rc)
        e = dict(zip(names, inp))
        for i, f in pairs.items():
            x = f(lambda n: e[n])
            if not abs(o[i] - x) <= 1e-12 * (abs(x) + max(map(abs, inp)) ** 2): return "out[%d] = %r, expected %r" % (i, o[i], x)
    return orc
def vspec(k):
    def sp(c):
        if c.kind != "ok": yield Truth("no exception", False); return
        for i in range(k):
            for j in range(6): yield Zero("epoch %d component %d" % (i, j), c.o[12 * i + j] - c.o[12 * i + 6 + j])
    return sp
def vor(k):
    def orc(inp, rc, o):
        if rc: return "eph_v: %s" % CODES.get(rc, rc)
        for i in range(k):
            a, t = inp[0], inp[1 + i]
            for j, x in enumerate((a, t, 1., 2., a + t, 3.)):
                if o[12 * i + j] != x: return "epoch %d component %d is %r, eph gives %r" % (i, j, o[12 * i + j], x)
    return orc

def cases(tier):
    cs = []
    nm = RV + ["mu", "ref"]
    for ep in (0, 1):
        e = "-epoch" if ep else ""
        fs = [plus(F.orbit(h, tof=None), ints=["ref"]) for h in (False, True)]
        cs.append(Case("period" + e, "h_def", nm, 1, fs, per_spec, per_or, k=-1, k2=ep, engine_hook=hook(ints=["ref"])))
        for w in range(4):
            cs.append(Case("elements-%s%s" % (TYPE[w], e), "h_def", nm, 12, fs if w != 1 else fs[:1], diff_spec, el_or(-1, w), k=w, k2=ep, engine_hook=hook(ints=["ref"])))
        cs.append(Case("elements-hyp-M" + e, "h_def", nm, 12, fs[1:], logic_spec, el_or(-1, 1), k=1, k2=ep, engine_hook=hook(ints=["ref"])))
    for k in range(0, 5 if tier == "quick" else 9):
        cs.append(Case("eph_v-%d" % k, "h_def_v", ["a"] + ["t%d" % i for i in range(k)], 12 * k, [free(["a"] + ["t%d" % i for i in range(k)])], vspec(k), vor(k), k=k))
    one = lambda x: (lambda v: dag.lift(x)); num = lambda x: (lambda v: x)
    for k, what in ((0, "period"), (1, "elements")):
        cs.append(Case("missing-" + what, "h_def_missing", ["a", "t"], 1, [free(["a", "t"])], eq_spec({0: one(1)}), eq_or({0: num(1.)}, ["a", "t"]), k=k))
    P = {0: -1, 1: -1, 2: -1, 3: -1, 4: 1}
    cs.append(Case("missing-data", "h_def_missing", ["a", "t"], 5, [free(["a", "t"])], eq_spec({i: one(x) for i, x in P.items()}), eq_or({i: num(float(x)) for i, x in P.items()}, ["a", "t"]), k=2))
    for k in range(4):
        def P(one): return {0: lambda v: v("a"), 1: lambda v: v("a") + one, 2: lambda v: v("a") + one * 2, 3: lambda v: v("a") + one * 3, 4: lambda v: v("a") * v("t"), 5: lambda v: v("a"), 6: lambda v: v("t"),
                8: lambda v: v("a") * v("t"), 9: lambda v: v("a") + v("t"), 10: lambda v: v("a") - v("t"), 12: lambda v: v("a"), 13: lambda v: v("t"), 14: lambda v: v("t2")}
        n = ["a", "t", "t2"]; base = eq_spec(P(dag.ONE)); ob = eq_or(P(1.0), n)
        def sp(c, base=base):
            yield from base(c)
            if c.kind == "ok": yield Zero("element type passed on", c.o[7] - c.o[11])
        def orc(inp, rc, o, ob=ob): return ob(inp, rc, o) or (None if o[7] == o[11] else "element type %r passed on as %r" % (o[11], o[7]))
        cs.append(Case("own-%s" % TYPE[k], "h_def_own", n, 15, [free(n)], sp, orc, k=k))
    return cs

def run(R):
    R.bounds += ["every state with angular momentum and non-zero energy, every mu > 0, every reference epoch; lists of up to %d epochs; real arithmetic" % (4 if R.tier == "quick" else 8),
                 "ic2par enters through its contract (C10)"]
    R.setup(build.paths("planet", ["h_udpla.cpp"]), "udpla", extra=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])
    set_native(R.nat)
    R.run(cases(R.tier))
