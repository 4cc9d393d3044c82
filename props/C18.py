"""Sims-Flanagan mismatch gradients are the exact Jacobian of the mismatch constraints."""
import dag
from prop import *
import sf
from sf import *
XS, XF = RS + ["ms"], RF + ["mf"]

def spec(n):
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s) on a valid leg" % c.throws, False); return
        if any(x.op != "const" for x in c.o[98:100]): yield Truth("sizes are definite", False); return
        size, nf = int(c.o[98].val), int(c.o[99].val)
        yield Truth("size of the gradient", size == 7 * (3 * n + 1))
        if size != 7 * (3 * n + 1) or not 0 <= nf <= n: return
        isz = lambda x: x in c.A.inputs and c.A.inputs[x].is_zero()
        K = dict(rs=[c.v(x) for x in RS], ms=c.v("ms"), rf=[c.v(x) for x in RF], mf=c.v("mf"), tof=c.v("tof"), Tm=c.v("Tm"), isp=c.v("isp"), mu=c.v("mu"))
        a, b = reference(DagOps, n, nf, u=[c.v(x) for x in U(3 * n)], null=[i for i in range(n) if isz("u%d" % (3 * i))], **K)
        mm = [a[i] - b[i] for i in range(7)]
        D = dag.Diff; lab = ["x", "y", "z", "vx", "vy", "vz", "m"]
        for q, X, nm in ((0, XS, "start"), (49, XF, "end")):
            for j, x in enumerate(X):
                d = dag.Diff(c.v(x), ufrule=ufrule)
                for i in range(7): yield Zero("d mismatch %s / d %s %s" % (lab[i], nm, lab[j]), c.o[q + 7 * i + j] - d(mm[i]))
        for j, x in enumerate(U(3 * n) + ["tof"]):
            d = dag.Diff(c.v(x), ufrule=ufrule)
            for i in range(7): yield Zero("d mismatch %s / d %s" % (lab[i], x if x == "tof" else "throttle"), c.o[100 + (3 * n + 1) * i + j] - d(mm[i]))
    return sp

def oracle(n):
    def orc(inp, rc, o):
        if rc != 0: return "raised %s on a valid leg" % CODES.get(rc, rc)
        nf = nfwd(n, inp[18])
        if int(o[98]) != 7 * (3 * n + 1) or int(o[99]) != nf: return "sizes %s" % o[98:100]
        cols = [(0 * 49 + j, 7, j) for j in range(7)] + [(49 + j, 7, 7 + j) for j in range(7)] + [(100 + j, 3 * n + 1, 19 + j) for j in range(3 * n)] + [(100 + 3 * n, 3 * n + 1, 14)]
        e = mp.mpf(10) ** -12
        for base, st, i in cols:
            p, _, _ = mp_ref(inp, n, nf, {i: e}); m, _, _ = mp_ref(inp, n, nf, {i: -e})
            ref = [(p[r] - m[r]) / (2 * e) for r in range(7)]
            sc = max([abs(x) for x in ref] + [mp.mpf("1e-3")])
            for r in range(7):
                v = o[base + st * r]
                if not (v == v) or abs(mp.mpf(v) - ref[r]) > 1e-4 * sc: return "gradient of mismatch[%d] with respect to input %d is %r, expected %s" % (r, i, v, mp.nstr(ref[r], 12))
        return None
    return orc

def cases(tier):
    L = []
    for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)):
        zs = [()] + ([(0,), tuple(range(n))] if n > 1 else [(0,)])
        for z in zs:
            L.append(Case("gradient-%d%s" % (n, "-zero%d" % len(z) if z else ""), "h_sf_grad", BASE + U(3 * n), 100 + 7 * (3 * n + 1), [fam(n, z)], spec(n), oracle(n), k=n, engine_hook=sf.hook, timeout=300, prune=True))
    return L

def run(R):
    R.setup(build.paths("sf", ["h_sf.cpp"]), "sf", native=build.paths("core", []))
    sf.set_native(R.nat)
    R.bounds += ["1 to 3 segments (thorough: up to 5), every cut"]
    R.run(cases(R.tier))
