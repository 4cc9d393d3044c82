"""Propagating over a grid of times is propagating to each of them."""
import dag, oracles as O, numpy as np, symex
from prop import *
import families as F
from C05 import RV

def uf(i, x, t, mu): return dag.uf("gphi%d" % i, x + [t, mu])
def um(i, x, t, mu): return dag.uf("gM%d" % i, x + [t, mu])
def model(E, a):
    ret, px, t, mu, want = a[:5]
    if not isinstance(want, int): raise symex.Unsupported("symbolic flag")
    x = [E.load_d(px + 8 * i) for i in range(6)]
    for i in range(6): E.raw_store(ret + 8 * i, 8, uf(i, x, t, mu))
    if want & 1:
        for i in range(36): E.raw_store(ret + 48 + 8 * i, 8, um(i, x, t, mu))
    E.raw_store(ret + 336, 1, want & 1)
    E.stub_used.add("propagate_lagrangian = the Keplerian flow and its Jacobian, uninterpreted (C05, C08)")
def hook(E):
    for m in E.mods:
        for nm in list(m.fns) + list(getattr(m, "decls", [])):
            if "4kep3" in nm and any(k in nm for k in ("20propagate_lagrangianE", "22propagate_lagrangian_uE", "19propagate_keplerianE")): E.models[nm] = model
def spec(n, stm):
    def sp(c):
        if c.kind != "ok": yield Truth("no exception", False); return
        yield Truth("one result per time, with the matrix exactly when asked for", c.rc in (0,))
        x = [c.v(q) for q in RV]; w = 42 if stm else 6
        for j in range(n):
            t = c.v("t%d" % j)
            for i in range(6): yield Zero("time %d component %d" % (j, i), c.o[w * j + i] - uf(i, x, t, c.v("mu")))
            for i in range(36 if stm else 0): yield Zero("time %d matrix entry %d" % (j, i), c.o[w * j + 6 + i] - um(i, x, t, c.v("mu")))
    return sp
def oracle(n, stm):
    def orc(inp, rc, o):
        if rc: return "grid propagation: %s" % {100: "matrix missing or not asked for", 101: "wrong number of results"}.get(rc, CODES.get(rc, rc))
        w = 42 if stm else 6
        for j in range(n):
            r = O.flow_oracle(inp[:6] + [inp[7 + j], inp[6]], o[w * j:w * j + 6])
            if r: return "time %d: %s" % (j, r)
            if stm:
                a, e, ok = None, None, True
                try: M = O.kepler_stm([O.mpf(t) for t in inp[:3]], [O.mpf(t) for t in inp[3:6]], O.mpf(inp[7 + j]), O.mpf(inp[6]))
                except Exception: continue
                sc = max(abs(x) for r_ in M for x in r_) if isinstance(M[0], (list, tuple)) else max(abs(x) for x in M)
                fl = [x for r_ in M for x in r_] if isinstance(M[0], (list, tuple)) else list(M)
                for i in range(36):
                    if not abs(o[w * j + 6 + i] - fl[i]) <= 1e-3 * sc: return "time %d: matrix entry %d is %r, expected %s" % (j, i, o[w * j + 6 + i], mp.nstr(fl[i], 12))
    return orc
def fam(n, h):
    f = F.orbit(h, tof=None); s0, u0 = f.setup, f.sample
    def setup(A):
        s0(A)
        for j in range(n): A.newvar("t%d" % j)
    def sample(rng, k):
        S = u0(rng, k)
        for j in range(n): S["t%d" % j] = np.where(rng.random(k) < 0.2, rng.choice([0., 1., -1.], k), rng.normal(size=k))
        return S
    return Family(f.name, setup, sample, f.desc)
def cases(tier):
    cs = []
    for n in range(0, 5 if tier == "quick" else 12):
        for stm in (0, 1):
            cs.append(Case("grid-%d%s" % (n, "-stm" if stm else ""), "h_prop_v", RV + ["mu"] + ["t%d" % j for j in range(n)], n * (42 if stm else 6), [fam(n, h) for h in (False, True)], spec(n, stm), oracle(n, stm), k=n, k2=stm, engine_hook=hook))
    return cs
def run(R):
    R.bounds += ["every state, mu and list of up to %d times (any signs, any order, repeated or not)" % (4 if R.tier == "quick" else 11), "propagate_lagrangian enters through its contract (C05, C08)"]
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
