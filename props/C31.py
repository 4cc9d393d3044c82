"""Stark problem: propagate is the flow of the equations with the given thrust, propagate_var adds its exact variations; stateless."""
import dag
from prop import *
import hf
from hf import *
A1 = ["mu", "ve"] + RS + ["ms", "T0", "T1", "T2", "tof"]
A2 = ["w_" + x for x in A1]
def family(second, mass=True):
    def setup(A):
        for v in A1 + (A2 if second else []):
            A.newvar(v)
            if v.split("_")[-1] in ("mu", "ve", "ms"): A.varsign[A.index[v]] = 1
        for p in (["", "w_"] if second else [""]):
            import families as F
            A.assume_pos(F.rat(A, *[(1, p + x, p + x) for x in RS[:3]]))
            A.assume_pos(F.rat(A, *[(1, p + x, p + x) for x in ("T0", "T1", "T2")]))
    def sample(rng, k):
        S = {}
        for p in (["", "w_"] if second else [""]):
            s = {x: rng.normal(size=k) for x in A1}
            a = rng.uniform(0.3, 3, k)
            for x in RS[:3]: s[x] = s[x] * a + 0.2 * a
            s["mu"] = np.exp(rng.normal(size=k)); s["ve"] = np.exp(rng.normal(size=k)) * 3; s["ms"] = np.exp(rng.normal(size=k))
            for x in ("T0", "T1", "T2"): s[x] *= 0.1 * s["ms"]
            s["tof"] = rng.choice([-1, 1], k) * rng.uniform(0.05, 1.5, k)
            S.update({p + x: s[x] for x in A1})
        return S
    def keep(S):
        g = True
        for p in (["", "w_"] if second else [""]):
            S_ = lambda x: S[p + x]
            r = np.sqrt(S_(RS[0]) ** 2 + S_(RS[1]) ** 2 + S_(RS[2]) ** 2)
            g = g & (r > 0.2) & (S_("mu") > 0.01) & (S_("ve") > 0.01) & (S_("ms") > 0.01) if mass else g & (r > 0.2)
            if mass: g = g & (np.sqrt(S_("T0") ** 2 + S_("T1") ** 2 + S_("T2") ** 2) * np.abs(S_("tof")) < 0.5 * S_("ve") * S_("ms"))
        return g
    return Family("states", setup, sample, "every state of positive mass, thrust, parameters and time", keep=keep)
def spec(var):
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s)" % c.throws, False); return
        v = c.v; x = [v(q) for q in A1[2:9]]; p = [v("mu"), v("ve"), v("T0"), v("T1"), v("T2")]; t = v("tof")
        f = flow(x, p, t); M = hf.var(x, p, t)
        for i in range(7): yield Zero("final state %d" % i, c.o[i] - f[i])
        if var:
            for i in range(7):
                for j in range(7): yield Zero("d state %d / d state %d" % (i, j), c.o[7 + 7 * i + j] - M[i][j])
                for j in range(3): yield Zero("d state %d / d thrust %d" % (i, j), c.o[56 + 3 * i + j] - M[i][7 + j])
        yield from gets(c)
    return sp
def gets(c):
    yield Zero("get_mu", c.o[77] - c.v("mu")); yield Zero("get_veff", c.o[78] - c.v("ve"))
    yield Truth("tolerances", all(c.o[i].op == "const" and c.o[i].val == 1 for i in (79, 80, 81)))
def oracle(var):
    def orc(inp, rc, o):
        if rc != 0: return "raised %s" % CODES.get(rc, rc)
        x, p, t = [float(q) for q in inp[2:9]], [float(inp[0]), float(inp[1])] + [float(q) for q in inp[9:12]], float(inp[12])
        if (o[77], o[78]) != (inp[0], inp[1]) or any(q != 1 for q in o[79:82]): return "getters: %s" % (o[77:82],)
        try: f = num_flow(x, p, t); f2 = num_flow([q * (1 + 1e-10) for q in x], p, t)
        except ValueError: return None
        sc = scales(f, x); r2 = [abs(f[i] - f2[i]) < 1e-7 * sc[i] for i in range(7)]
        if not all(r2): return None
        r = cmp7(o, f, sc, "final state")
        if r or not var: return r
        def col(vary, base, st, j0):
            for j in range(len(vary)):
                e = 1e-4 * max(1e-2, abs(vary[j])); F = {}
                for s in (-2, -1, 1, 2):
                    w = list(vary); w[j] += s * e
                    F[s] = num_flow(w, p, t) if j0 == 0 else num_flow(x, p[:2] + w, t)
                ref = (8 * (F[1] - F[-1]) - (F[2] - F[-2])) / (12 * e); alt = (F[1] - F[-1]) / (2 * e); scl = float(np.max(np.abs(ref))) + 1e-12
                for i in range(7):
                    val = o[base + st * i + j]
                    if not abs(val - ref[i]) <= 1e-5 * scl + 10 * abs(ref[i] - alt[i]) + 1e-10 / e: return "d state %d / d %s %d is %r, expected %r" % (i, "state" if j0 == 0 else "thrust", j, val, float(ref[i]))
        try: return col(x, 7, 7, 0) or col(p[2:], 56, 3, 1)
        except ValueError: return None
    return orc
def zero_mass(var):
    names = A1[:8] + [0.0] + A1[9:]
    f = family(False, False)
    return Case("massless-%s" % ("propagate_var" if var else "propagate"), "h_stark", names, 82, [f],
                lambda c: [Truth("a null mass is refused with a domain error", c.kind == "throw" and "domain_error" in str(c.throws))],
                lambda inp, rc, o: None if rc == -1 else "a null mass gave %s" % CODES.get(rc, rc), k=var, k2=0, engine_hook=hf.hook, prune=True)
NM = ["first-call", "after-another-call", "after-set_mu-set_veff"]
def cases(tier):
    cs = [Case("%s-%s" % ("propagate_var" if v else "propagate", NM[h]), "h_stark", A1 + (A2 if h else []), 82, [family(bool(h))], spec(v), oracle(v), k=v, k2=h, engine_hook=hf.hook, timeout=200, prune=True)
          for v in (0, 1) for h in (0, 1, 2)]
    return cs + [zero_mass(0), zero_mass(1)]
def run(R):
    R.setup(build.paths("hf", ["h_hf.cpp"]), "hf", native=build.paths("ta", ["h_ta.cpp"]))
    hf.set_native(R.nat)
    R.bounds += ["every state of positive mass, non-null thrust, mu, veff > 0 and time of either sign; first call, call after another one with other data, call after set_mu and set_veff; heyoka is replaced by a stand-in whose flow and variations are uninterpreted (their equations: C32)"]
    R.run(cases(R.tier))
