"""Sims-Flanagan mismatch constraints are the two-sided shooting defect."""
import dag
from prop import *
import sf
from sf import *

def spec(n):
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s) on a valid leg" % c.throws, False); return
        if any(x.op != "const" for x in c.o[7:10]): yield Truth("segment counts are definite", False); return
        N, nf, nb = (int(x.val) for x in c.o[7:10])
        yield Truth("number of segments", N == n and nf + nb == n)
        cut = c.v("cut"); k = dag.const(n) * cut - dag.const(nf)
        yield NonNeg("forward segments: at most n cut", k)
        yield Pos("forward segments: more than n cut - 1", ONE - k)
        K = dict(rs=[c.v(x) for x in RS], ms=c.v("ms"), rf=[c.v(x) for x in RF], mf=c.v("mf"), tof=c.v("tof"), Tm=c.v("Tm"), isp=c.v("isp"), mu=c.v("mu"))
        a, b = reference(DagOps, n, nf, u=[c.A.inputs[x] is not None and ZERO if x in c.A.inputs and c.A.inputs[x].is_zero() else c.v(x) for x in U(3 * n)], **K)
        for i in range(7): yield Zero("mismatch of " + ("position", "velocity", "mass")[i // 3] + ("" if i == 6 else " " + "xyz"[i % 3]), c.o[i] - (a[i] - b[i]))
    return sp

def cases(tier):
    L = []
    for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8, 10)):
        zs = [()] + ([(0,), tuple(range(n))] if n > 1 else [(0,)])
        for z in zs:
            L.append(Case("mismatch-%d%s" % (n, "-zero%d" % len(z) if z else ""), "h_sf_mismatch", BASE + U(3 * n), 10, [fam(n, z)], spec(n), mismatch_oracle(n), k=n, engine_hook=sf.hook, timeout=200, prune=True))
    return L

def run(R):
    R.setup(build.paths("sf", ["h_sf.cpp"]), "sf", native=build.paths("core", []))
    sf.set_native(R.nat)
    R.bounds += ["1 to 4 segments (thorough: up to 10), every cut"]
    R.run(cases(R.tier))
