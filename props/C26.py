"""High-fidelity leg: gradients of the mismatch are the exact Jacobian of the mismatch."""
import dag
from prop import *
import hf, sf
from hf import *
XS, XF = RS + ["ms"], RF + ["mf"]
LAB = ["x", "y", "z", "vx", "vy", "vz", "m"]
def grad_obls(o, n, nf, K, u, mm, throttle=True):
    """o: 49 + 49 + size + nf + values"""
    D = lambda x: dag.Diff(x, ufrule=hf.ufrule)
    for q, X, nm in ((0, K["rs"] + [K["ms"]], "start"), (49, K["rf"] + [K["mf"]], "end")):
        for j, x in enumerate(X):
            d = D(x)
            for i in range(7): yield Zero("d mismatch %s / d %s %s" % (LAB[i], nm, LAB[j]), o[q + 7 * i + j] - d(mm[i]))
    for j, x in enumerate(list(u) + [K["tof"]]):
        d = D(x)
        for i in range(7): yield Zero("d mismatch %s / d %s" % (LAB[i], "tof" if j == 3 * n else "throttle"), o[100 + (3 * n + 1) * i + j] - d(mm[i]))
def spec(n):
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s) on a valid leg" % c.throws, False); return
        if any(x.op != "const" for x in c.o[98:100]): yield Truth("sizes are definite", False); return
        size, nf = int(c.o[98].val), int(c.o[99].val)
        yield Truth("size of the gradient", size == 7 * (3 * n + 1))
        if size != 7 * (3 * n + 1) or not 0 <= nf <= n: return
        K, a, b = dag_ref(c, n, nf)
        yield from grad_obls(c.o, n, nf, K, [c.v(x) for x in U(3 * n)], [a[i] - b[i] for i in range(7)])
    return sp
def check_grad(o, inp, n, nf):
    a, b = num_ref(inp, n, nf)
    if not stable(inp, n, nf, a, b): return None
    cols = [(j, 7, j) for j in range(7)] + [(49 + j, 7, 7 + j) for j in range(7)] + [(100 + j, 3 * n + 1, 19 + j) for j in range(3 * n)] + [(100 + 3 * n, 3 * n + 1, 14)]
    for base, st, i in cols:
        e = 1e-4 * max(1e-2, abs(inp[i])); F = {}
        if inp[i] > 0 and i in (14,): e = min(e, inp[i] / 4)
        for s in (-2, -1, 1, 2): p, m = num_ref(inp, n, nf, {i: s * e}); F[s] = np.array(p) - np.array(m)
        ref = (8 * (F[1] - F[-1]) - (F[2] - F[-2])) / (12 * e); alt = (F[1] - F[-1]) / (2 * e)
        sc = float(np.max(np.abs(ref))) + 1e-12
        for r in range(7):
            v = o[base + st * r]; t = 1e-5 * sc + 10 * abs(ref[r] - alt[r])
            if not (v == v) or abs(v - ref[r]) > t + 1e-10 / e: return "gradient of mismatch[%d] with respect to input %d is %r, expected %r" % (r, i, v, float(ref[r]))
def oracle(n):
    def orc(inp, rc, o):
        if rc != 0: return "raised %s on a valid leg" % CODES.get(rc, rc)
        nf = nfwd(n, inp[18])
        if int(o[98]) != 7 * (3 * n + 1) or int(o[99]) != nf: return "sizes %s" % o[98:100]
        try: return check_grad(o, inp, n, nf)
        except ValueError: return None
    return orc
def fam2(n):
    """larger thrust, so that its scale shows"""
    def ch(S, rng, k):
        S["isp"] = rng.uniform(1, 5, k); S["Tm"] = rng.uniform(0.02, 0.3, k) * S["ms"] / np.maximum(1, S["tof"])
    return fam(n, change=ch)
def cases(tier):
    return [Case("gradient-%d-%d" % (n, f), "h_hf_grad", BASE + U(3 * n), 100 + 7 * (3 * n + 1), [fam2(n)], spec(n), oracle(n), k=n, k2=f, engine_hook=hf.hook, timeout=300, prune=True)
            for n, f in (((1, 0), (2, 0), (2, 1), (3, 0)) if tier == "quick" else ((1, 0), (2, 0), (2, 1), (3, 0), (4, 0), (5, 1)))]
def run(R):
    R.setup(build.paths("hf", ["h_hf.cpp"]), "hf", native=build.paths("ta", ["h_ta.cpp"]))
    hf.set_native(R.nat)
    R.bounds += ["1 to 3 segments (thorough: 5), every cut, thrusting in every segment; heyoka is replaced by a stand-in whose flow and variations are uninterpreted"]
    R.run(cases(R.tier))
