"""High-fidelity leg: mismatch = difference of the integrated states from the two ends, throttle constraints, history."""
import dag
from prop import *
import hf, sf, C19
from hf import *
def sizes(c, lo, n):
    if any(x.op != "const" for x in c.o[lo:lo + 3]): return None
    return tuple(int(x.val) for x in c.o[lo:lo + 3])
def spec(n):
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s) on a valid leg" % c.throws, False); return
        s = sizes(c, 7, n)
        if s is None or c.o[10].op != "const": yield Truth("segment counts are definite", False); return
        N, nf, nb = s
        yield Truth("number of segments", N == n and nf + nb == n and c.o[10].val == 7 + n)
        k = dag.const(n) * c.v("cut") - dag.const(nf)
        yield NonNeg("forward segments: at most n cut", k); yield Pos("forward segments: more than n cut - 1", ONE - k)
        K, a, b = dag_ref(c, n, nf)
        for i in range(7):
            w = ("position", "velocity", "mass")[i // 3]
            yield Zero("mismatch of " + w, c.o[i] - (a[i] - b[i]))
            yield Zero("constraint vector: mismatch of " + w, c.o[11 + i] - (a[i] - b[i]))
        u = [c.v(x) for x in U(3 * n)]
        for i in range(n): yield Zero("constraint vector: throttle magnitude", c.o[18 + i] - (u[3 * i] * u[3 * i] + u[3 * i + 1] * u[3 * i + 1] + u[3 * i + 2] * u[3 * i + 2] - ONE))
    return sp
def hist_spec(n, g):
    """state history: g points per segment, forward segments from the start, backward ones from the end"""
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s) on a valid leg" % c.throws, False); return
        if any(c.o[i].op != "const" for i in [0, 1] + [2 + (1 + 7 * g) * j for j in range(n)]): yield Truth("sizes are definite", False); return
        nf = int(c.o[1].val)
        ok = int(c.o[0].val) == n and all(int(c.o[2 + (1 + 7 * g) * j].val) == 7 * g for j in range(n))
        yield Truth("one block of %d states per segment" % g, ok)
        if not ok: return
        K, _, _ = dag_ref(c, n, nf); u = [c.v(x) for x in U(3 * n)]; h = K["tof"] / dag.const(n); ve = K["isp"] * dag.const(G0)
        for fwd in (True, False):
            x = K["rs"] + [K["ms"]] if fwd else K["rf"] + [K["mf"]]
            for i in (range(nf) if fwd else range(n - 1, nf - 1, -1)):
                p = [K["mu"], ve] + [K["Tm"] * u[3 * i + j] for j in range(3)]
                for q in range(g):
                    if q: x = flow(x, p, (h if fwd else dag.neg(h)) / dag.const(g - 1))
                    for j in range(7): yield Zero("history, %s segment" % ("forward" if fwd else "backward"), c.o[2 + (1 + 7 * g) * i + 1 + 7 * q + j] - x[j])
    return sp
def hist_oracle(n, g):
    def orc(inp, rc, o):
        if rc != 0: return "raised %s on a valid leg" % CODES.get(rc, rc)
        nf = nfwd(n, inp[18])
        if int(o[0]) != n or int(o[1]) != nf or any(o[2 + (1 + 7 * g) * j] != 7 * g for j in range(n)): return "sizes %s" % o[:3]
        try:
            a, b = num_ref(inp, n, nf)
            if not stable(inp, n, nf, a, b): return None
            K, _, u = sf.unpack([float(v) for v in inp]); h = K["tof"] / n
            for fwd in (True, False):
                x = list(K["rs"]) + [K["ms"]] if fwd else list(K["rf"]) + [K["mf"]]
                for i in (range(nf) if fwd else range(n - 1, nf - 1, -1)):
                    p = [K["mu"], K["isp"] * G0] + [K["Tm"] * u[3 * i + j] for j in range(3)]
                    for q in range(g):
                        if q: x = num_flow(x, p, (h if fwd else -h) / (g - 1))
                        w = o[2 + (1 + 7 * g) * i + 1 + 7 * q:][:7]
                        r = cmp7(w, x, scales(np.array(x), np.array(x)), "state %d of segment %d" % (q, i))
                        if r: return r
        except ValueError: return None
    return orc
def der_spec(c):
    if c.kind == "throw": yield Truth("no exception", False); return
    x = [c.v("q%d" % i) for i in range(7)]; f = drhs(x, [c.v("mu"), c.v("isp") * dag.const(G0)] + [c.v("Tm") * c.v("w%d" % i) for i in range(3)])
    for i in range(7): yield Zero("state derivative", c.o[i] - f[i])
def der_oracle(inp, rc, o):
    if rc: return "raised"
    x = inp[22:29]; w = inp[29:32]; R = math.sqrt(sum(t * t for t in x[:3]))
    f = list(x[3:6]) + [-inp[17] * x[i] / R ** 3 + inp[15] * w[i] / x[6] for i in range(3)] + [-inp[15] * math.sqrt(sum(t * t for t in w)) / (inp[16] * G0)]
    for i in range(7):
        s = abs(f[i]) + (abs(inp[17]) / R ** 2 + abs(inp[15] / x[6]) if 3 <= i < 6 else 0)
        if not abs(o[i] - f[i]) <= 1e-12 * s: return "derivative[%d] = %r, expected %r" % (i, o[i], f[i])
def der_case():
    Q = ["q%d" % i for i in range(7)] + ["w%d" % i for i in range(3)] + ["Tm", "isp", "mu"]
    def mkf(zero):
        def setup(A):
            for v in Q:
                if zero and v[0] == "w": A.inputs[v] = A.const(0); continue
                A.newvar(v)
                if v in ("q6", "Tm", "isp", "mu"): A.varsign[A.index[v]] = 1
            import families as F
            A.assume_pos(F.rat(A, *[(1, "q%d" % j, "q%d" % j) for j in range(3)]))
            if not zero: A.assume_pos(F.rat(A, *[(1, "w%d" % j, "w%d" % j) for j in range(3)]))
        def smp(rng, k):
            S = {v: rng.normal(size=k) for v in Q}
            for v in ("q6", "Tm", "isp", "mu"): S[v] = np.exp(rng.normal(size=k))
            if zero:
                for j in range(3): S["w%d" % j] = np.zeros(k)
            return S
        return Family("coasting" if zero else "thrusting", setup, smp, "every state with positive mass, r != 0", keep=lambda S: (S["q0"] ** 2 + S["q1"] ** 2 + S["q2"] ** 2 > 1e-6) & np.all([S[v] > 1e-6 for v in ("q6", "Tm", "isp", "mu")], 0))
    return [Case("derivative-%s" % z, "h_hf_derivative", [1., 0., 0., 0., 1., 0., 1., 0., 1., 0., -1., 0., 0., 1., 1., "Tm", "isp", "mu", .5, 0., 0., 0.] + Q[:10], 7, [mkf(z)], der_spec, der_oracle, engine_hook=hf.hook, prune=True) for z in (False, True)]
def cases(tier):
    L = []
    for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8)):
        for z in [(), tuple(range(n))] + ([(0,)] if n > 1 else []):
            for form in ((0, 1) if n == 2 else (0,)):
                L.append(Case("mismatch-%d-%d%s" % (n, form, "-zero%d" % len(z) if z else ""), "h_hf_mismatch", BASE + U(3 * n), 11 + 7 + n, [fam(n, zero=z)], spec(n), mismatch_oracle(n), k=n, k2=form, engine_hook=hf.hook, timeout=200, prune=True))
    for n, g in ([(1, 2), (2, 3), (3, 2)] if tier == "quick" else [(1, 2), (1, 5), (2, 3), (3, 2), (4, 4)]):
        L.append(Case("history-%d-%d" % (n, g), "h_hf_history", BASE + U(3 * n), 2 + n * (1 + 7 * g), [fam(n)], hist_spec(n, g), hist_oracle(n, g), k=n, k2=g, engine_hook=hf.hook, timeout=200, prune=True))
    for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5, 6)):
        L.append(Case("throttles-%d" % n, "h_hf_throttles", [1., 0., 0., 0., 1., 0., 1., 0., 1., 0., -1., 0., 0., 1., 1., 1., 1., 1., "cut"] + U(3 * n), 2 + n + 3 * n * n,
                      [C19.anyfam(n)], C19.spec(n), C19.oracle(n), k=n, engine_hook=hf.hook, prune=True))
    return L + der_case()
def run(R):
    R.setup(build.paths("hf", ["h_hf.cpp"]), "hf", native=build.paths("ta", ["h_ta.cpp"]))
    hf.set_native(R.nat)
    R.bounds += ["1 to 3 segments (thorough: 8), every cut; heyoka is replaced by a stand-in whose flow is uninterpreted"]
    R.run(cases(R.tier))
