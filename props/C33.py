"""An object restored from an archive is the object that was saved."""
import dag
from prop import *
import sf, hf, C13, C15, C20, C24, C28, C31, planets
from hf import *
from planets import plus, orbit_given, names, hook as plhook
def same(n, off, kind="component"):
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s)" % c.throws, False); return
        for i in range(n):
            a, b = c.o[i], c.o[off + i]
            if a is b: yield Truth("%s %d is the same" % (kind, i), True)
            elif a is dag.NAN or b is dag.NAN: yield Truth("%s %d is the same" % (kind, i), False)
            else: yield Zero("%s %d is the same" % (kind, i), a - b)
    return sp
def orc(n, off, what):
    def f(inp, rc, o):
        if rc: return "raised %s" % CODES.get(rc, rc)
        for i in range(n):
            a, b = o[i], o[off + i]
            if not (a == b or a != a and b != b or abs(a - b) <= 1e-12 * abs(a)): return "%s: value %d is %r, %r in the restored copy" % (what, i, a, b)
    return f
def lambert_cases(tier):
    L = []
    for k in (0, 1):
        for cw in (0, 1):
            L.append(Case("lambert-%d%s" % (k, "-cw" if cw else ""), "h_ser_lambert", C13.IN, 80, [C15.fam(1, cw, k), C15.fam(-1, cw, k)], same(40, 40), orc(40, 40, "lambert_problem"), k=k, k2=cw,
                          engine_hook=C15.hook(max(k, 1), 1), timeout=60, maxpaths=250))
    return L
def run(R):
    R.bounds += ["every Lambert problem (0 or 1 revolution, both directions), Sims-Flanagan leg of 1 to 3 segments, high-fidelity leg of 1 or 2 segments, Stark problem (before and after use), epoch, Keplerian planet given in each way and low-precision planet; restored into an object that held something else",
                 "the archive is a tape (what is written is read in order); the native replays use boost's binary archives"]
    only = os.environ.get("KSE_PART")
    if not only or only == "lambert":
        R.setup(build.paths("lambert", ["h_ser_lambert.cpp"]), "serl"); R.run(lambert_cases(R.tier))
    if not only or only == "sf":
        R.setup(build.paths("sf", ["h_ser_sf.cpp"]), "sers", native=build.paths("core", []))
        R.run([Case("sims_flanagan-%d" % n, "h_ser_sf", BASE + U(3 * n), 96, [sf.fam(n)], same(48, 48), orc(48, 48, "sims_flanagan"), k=n, k2=0, engine_hook=sf.hook, prune=True, timeout=60) for n in (1, 2, 3)])
    if not only or only == "hf":
        R.setup(build.paths("hf", ["h_ser_hf.cpp"]), "serh", native=build.paths("ta", ["h_ta.cpp"])); hf.set_native(R.nat)
        cs = []
        for n, used in ((1, 0), (2, 0), (2, 1)):
            N = 63 + 100 + 7 * (3 * n + 1)
            cs.append(Case("sims_flanagan_hf-%d%s" % (n, "-used" if used else ""), "h_ser_hf", BASE + U(3 * n), 2 * N, [hf.fam(n)], same(N, N), orc(N, N, "sims_flanagan_hf"), k=n, k2=used, engine_hook=hf.hook, prune=True, timeout=60))
        for v in (0, 1):
            for used in (0, 1):
                cs.append(Case("stark_problem-%d%s" % (v, "-used" if used else ""), "h_ser_stark", C31.A1 + (C31.A2 if used else []), 164, [C31.family(bool(used))], same(82, 82), orc(82, 82, "stark_problem"), k=v, k2=used, engine_hook=hf.hook, prune=True, timeout=60))
        R.run(cs)
    if not only or only == "planet":
        R.setup(build.paths("planet", ["h_ser_pl.cpp"]), "serp", extra=["-D_GLIBCXX_EXTERN_TEMPLATE=0"]); planets.set_native(R.nat)
        cs = [Case("epoch", "h_ser_epoch", ["n", "d"], 2, [plus(Family("epochs", lambda A: None, lambda rng, n: {}, "every epoch"), free=["d"], ints=["n"])], same(1, 1), orc(1, 1, "epoch"), engine_hook=plhook(ints=["n"]))]
        for t in (-1, 0, 1, 2):
            nm = names(t) + ["mu", "ref"]
            fs = [plus(orbit_given(t, h), pos=["mus", "rad", "srad"], free=["d"], ints=["ref"]) for h in ((False,) if t == 1 else (False, True))]
            cs.append(Case("keplerian-%s" % ("state" if t < 0 else planets.TYPE[t]), "h_ser_kep", nm + ["mus", "rad", "srad", "d"], 80, fs, same(40, 40), orc(40, 40, "keplerian"), k=t, engine_hook=plhook(ints=["ref"]), maxpaths=100))
        for k in range(8):
            cs.append(Case("jpl_lp-%s" % C28.PL[k], "h_ser_jpl", ["t"], 80, [C28.inside()], same(40, 40), orc(40, 40, "jpl_lp"), k=k, engine_hook=plhook(par=False), timeout=20))
        R.run(cs)
