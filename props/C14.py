"""The Lambert solver rejects invalid problems, and only those."""
import dag, numpy as np, math
from prop import *
import families as F
import C13
from C13 import IN, setup_geo, sample_geo, good, geo, hook

def over(name, desc, setup, change):
    """the valid geometries with something replaced"""
    def smp(rng, n):
        S_ = sample_geo(rng, n, 0)
        S_["tof"] = np.where(np.isfinite(S_["tof"]), S_["tof"], 1.0)
        change(S_, rng, n); return S_
    return Family(name, setup, smp, desc)

def sign_fam(v, sg):
    def setup(A):
        setup_geo(A, 1)
        if sg == 0: A.inputs[v] = A.const(0)
        else: A.newvar("ng"); A.varsign[A.index["ng"]] = 1; A.inputs[v] = F.rat(A, (-1, "ng", "ng"))
    def ch(S_, rng, n): S_[v] = -np.exp(rng.uniform(-30, 4, n)) if sg else np.zeros(n)
    return over("%s %s 0" % (v, "<" if sg else "="), "any geometry, %s %s 0" % (v, "<" if sg else "="), setup, ch)

def line_fam(sg):
    """r1 = +- (positive number) r0"""
    def setup(A):
        for n in "R0 R1 m tof".split(): A.newvar(n); A.varsign[A.index[n]] = 1
        e1, e2, e3 = F.frame(A)
        for i in range(3):
            A.inputs["xyz"[i] + "0"] = A.mul(F.g(A, "R0"), e1[i]); A.inputs["xyz"[i] + "1"] = A.mul(A.mul(A.const(sg), F.g(A, "R1")), e1[i])
        A.inputs["mu"] = F.rat(A, (1, "m", "m"))
    def ch(S_, rng, n):
        k = sg * 2.0 ** rng.integers(-6, 7, n)           # exactly collinear in binary arithmetic too
        ax = rng.integers(0, 6, n)                         # a share along the axes
        for i in range(3):
            S_["xyz"[i] + "0"] = np.where(ax < 3, np.where(ax == i, S_["xyz"[i] + "0"], 0.0), S_["xyz"[i] + "0"])
        for i in range(3): S_["xyz"[i] + "1"] = k * S_["xyz"[i] + "0"]
    return over("r1 = %sk r0" % ("-" if sg < 0 else ""), "r1 = %s k r0, k > 0" % ("-" if sg < 0 else ""), setup, ch)

def vertical_fam():
    """the z axis lies in the plane of motion: (x1, y1) = k (x0, y0)"""
    def setup(A):
        for n in "x0 y0 z0 z1 kk m tof".split(): A.newvar(n)
        for n in "m tof".split(): A.varsign[A.index[n]] = 1
        A.inputs["x1"] = F.rat(A, (1, "kk", "x0")); A.inputs["y1"] = F.rat(A, (1, "kk", "y0"))
        A.inputs["mu"] = F.rat(A, (1, "m", "m"))
        h = A.const(1)
        A.assume_pos(F.rat(A, (1, "x0", "x0"), (1, "y0", "y0"), (1, "z0", "z0")))
        A.assume_pos(F.rat(A, (1, "kk", "kk", "x0", "x0"), (1, "kk", "kk", "y0", "y0"), (1, "z1", "z1")))
    def ch(S_, rng, n):
        u = rng.random(n) < 0.5
        for a in "01": S_["x" + a] = np.where(u, 0.0, S_["x" + a]); S_["y" + a] = np.where(u, S_["y" + a], 0.0)
    return over("plane of motion contains the z axis", "h_z = 0", setup, ch)

def null_fam(which):
    P = ["x" + which, "y" + which, "z" + which]
    def setup(A):
        for n in IN:
            if n in P: A.inputs[n] = A.const(0)
            else: A.newvar(n)
        for n in ("tof", "mu"): A.varsign[A.index[n]] = 1
        Q = ["x" + "10"[int(which)], "y" + "10"[int(which)], "z" + "10"[int(which)]]
        A.assume_pos(F.rat(A, *[(1, q, q) for q in Q]))
    def ch(S_, rng, n):
        for p in P: S_[p] = np.zeros(n)
    return over("r%s = 0" % which, "null position", setup, ch)

def spec_reject(c):
    yield Truth("rejected with an exception", c.kind == "throw")
def spec_accept(c):
    yield Truth("a valid problem is solved", c.kind == "ok" and c.rc == 0)
def orc_reject(inp, rc, o):
    if rc < 0: return None
    return "invalid problem accepted: Nmax %s, first velocity %s" % (o[6], o[:3])
def orc_accept(inp, rc, o):
    if rc < 0: return "raised %s on a valid problem" % CODES.get(rc, rc)
    return None if all(math.isfinite(v) for v in o[:6]) else "velocities not finite: %s" % (o[:6],)

def cases(tier):
    L = []
    ks = ((0, 0), (1, 1)) if tier == "quick" else ((0, 0), (1, 1), (2, 3))
    for k, idx in ks:
        for cw in (0, 100):
            kw = dict(k=k, k2=idx + cw, hidden=("xs", "Tm"), engine_hook=hook(idx, k), prune=True, maxpaths=60, timeout=60)
            t = "/%d%s" % (k, "-cw" if cw else "")
            bad = [sign_fam("tof", 1), sign_fam("tof", 0), sign_fam("mu", 1), sign_fam("mu", 0), line_fam(1), line_fam(-1), vertical_fam()]
            for f in bad: L.append(Case("reject %s%s" % (f.name, t), "h_lambert", IN, 11, [f], spec_reject, orc_reject, **kw))
            for w in "01":
                inp = [0.0 if n in ("x" + w, "y" + w, "z" + w) else n for n in IN]
                L.append(Case("reject r%s = 0%s" % (w, t), "h_lambert", inp, 11, [null_fam(w)], spec_reject, orc_reject, **kw))
            if idx == 0: L.append(Case("accept%s" % t, "h_lambert", IN, 11, geo(0, bool(cw)), spec_accept, orc_accept, prep=C13.prep, elim="tof", **kw))
    return L

def run(R):
    R.setup(build.paths("lambert", ["h_lambert.cpp"]), "lambert")
    R.run(cases(R.tier))
