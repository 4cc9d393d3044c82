"""Integrators: the equations of motion are the documented ones, the variations are those with respect to the documented quantities, one cached integrator per tolerance."""
import dag, math
from prop import *
import hf, numpy as np
ONE, ZERO, TWO = dag.ONE, dag.ZERO, dag.TWO
P = ["p%d" % i for i in range(5)]
X = ["x", "y", "z", "vx", "vy", "vz", "m"]
def cr3bp(x, p, sqrt, num=lambda q: dag.const(q)):
    """synodic frame, unit distance and angular velocity, primaries of mass 1 - mu at (-mu, 0, 0) and mu at (1 - mu, 0, 0)"""
    mu = p[0]; one, two = num(1.0), num(2.0)
    a, b = x[0] + mu, x[0] + mu - one
    yz = x[1] * x[1] + x[2] * x[2]
    R1, R2 = sqrt(a * a + yz), sqrt(b * b + yz)
    A, B = (one - mu) / (R1 * R1 * R1), mu / (R2 * R2 * R2)
    return [x[3], x[4], x[5], two * x[4] + x[0] - A * a - B * b, x[1] - two * x[3] - A * x[1] - B * x[1], -num(1.0) * (A * x[2] + B * x[2])]
NSTATE = {0: 7, 1: 7, 2: 6, 3: 6}
NPAR = {0: 5, 1: 5, 2: 1, 3: 1}
ARGS = {0: [], 1: [0, 1, 2, 3, 4, 5, 6, 102, 103, 104], 2: [], 3: [0, 1, 2, 3, 4, 5]}
NAME = ["stark", "stark_var", "cr3bp", "cr3bp_var"]
def equations(which, x, p):
    return hf.drhs(x, p) if which < 2 else cr3bp(x, p, dag.sqrt)
def sizes(which, o, isnum):
    """-> problem or None"""
    n, args = NSTATE[which], ARGS[which]; v = (lambda q: q) if isnum else (lambda q: float(q.val) if q.op == "const" else None)
    if v(o[0]) != n: return "dimension %r, expected %d" % (v(o[0]), n)
    if v(o[1]) != NPAR[which]: return "%r parameters, expected %d" % (v(o[1]), NPAR[which])
    if v(o[2]) != len(args): return "%r variational arguments, expected %d" % (v(o[2]), len(args))
    if [v(q) for q in o[3:3 + len(args)]] != args: return "variations with respect to %r, expected %r" % ([v(q) for q in o[3:3 + len(args)]], args)
    N = n + n * len(args)
    if v(o[27]) != N: return "state of size %r, expected %d" % (v(o[27]), N)
    if v(o[28]) != NPAR[which]: return "%r parameter values, expected %d" % (v(o[28]), NPAR[which])
    for i in range(n):
        for j in range(len(args)):
            q = v(o[29 + n + i * len(args) + j])
            if q != (1 if args[j] == i else 0): return "initial variation (%d, %d) is %r" % (i, j, q)
    if v(o[109]) != 1e-12: return "tolerance %r, expected 1e-12" % v(o[109])
def rhs_case(which, zero_thrust):
    n = NSTATE[which]
    pn = (P[:2] + ([0.0] * 3 if zero_thrust else P[2:])) if which < 2 else [P[0]] + [0.0] * 4
    names = pn + X[:n]
    used = [q for q in names if isinstance(q, str)]
    def setup(A):
        import families as F
        for q in used: A.newvar(q)
        if which < 2:
            for q in ("p0", "p1", "m"): A.varsign[A.index[q]] = 1
            A.assume_pos(F.rat(A, *[(1, q, q) for q in X[:3]]))
            if not zero_thrust: A.assume_pos(F.rat(A, *[(1, q, q) for q in P[2:]]))
        else:                                    # away from the primaries
            A.assume_pos(F.rat(A, *[(1, q, q) for q in X[1:3]]))
    def smp(rng, k):
        S = {q: rng.normal(size=k) for q in used}
        for q in ("p0", "p1", "m"):
            if q in S: S[q] = np.abs(S[q]) + 0.1
        return S
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s)" % c.throws, False); return
        r = sizes(which, c.o, False)
        yield Truth("integrator: %s" % (r or "sizes, variational arguments, their initial values and tolerance"), r is None)
        x = [c.v(q) for q in X[:n]]
        p = [c.v(q) if isinstance(q, str) else ZERO for q in pn]
        e = equations(which, x, p)
        if zero_thrust: e[6] = ZERO
        for i in range(n): yield Zero("d %s / dt" % X[i], c.o[19 + i] - e[i])
    def orc(inp, rc, o):
        if rc: return "raised %s" % CODES.get(rc, rc)
        r = sizes(which, o, True)
        if r: return r
        p, x = list(inp[:5]), list(inp[5:5 + n])
        if which < 2:
            R3 = sum(q * q for q in x[:3]) ** 1.5; T = math.sqrt(sum(q * q for q in p[2:]))
            e = x[3:6] + [-p[0] * x[i] / R3 + p[2 + i] / x[6] for i in range(3)] + [-T / p[1] if T else 0.]
        else: e = cr3bp(x, p, math.sqrt, float)
        sc = 1 + max(abs(q) for q in e)
        for i in range(n):
            if not abs(o[19 + i] - e[i]) <= 1e-9 * sc: return "d %s / dt is %r, expected %r" % (X[i], o[19 + i], e[i])
    return Case("%s%s" % (NAME[which], "-no-thrust" if zero_thrust else ""), "h_ta_rhs", names, 110, [Family("states", setup, smp, "every state and parameter values")], sp, orc, k=which, k2=0, prune=True, timeout=100)
def dyn_case(k):
    n = 7 - k; which = 2 * k
    pn = P if k == 0 else [P[0]] + [0.0] * 4
    base = rhs_case(which, False)
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s)" % c.throws, False); return
        ok = c.o[0].op == "const" and c.o[0].val == n and all(c.o[1 + i].op == "const" and c.o[1 + i].val == i for i in range(n))
        yield Truth("%d equations, in the order of the state" % n, ok)
        e = equations(which, [c.v(q) for q in X[:n]], [c.v(q) if isinstance(q, str) else ZERO for q in pn])
        for i in range(n): yield Zero("d %s / dt" % X[i], c.o[9 + i] - e[i])
    def orc(inp, rc, o):
        if rc: return "raised"
        if o[0] != n or list(o[1:1 + n]) != list(range(n)): return "equations %r" % (o[:9],)
        p, x = list(inp[:5]), list(inp[5:5 + n])
        if k == 0:
            R3 = sum(q * q for q in x[:3]) ** 1.5; T = math.sqrt(sum(q * q for q in p[2:]))
            e = x[3:6] + [-p[0] * x[i] / R3 + p[2 + i] / x[6] for i in range(3)] + [-T / p[1] if T else 0.]
        else: e = cr3bp(x, p, math.sqrt, float)
        sc = 1 + max(abs(q) for q in e)
        for i in range(n):
            if not abs(o[9 + i] - e[i]) <= 1e-9 * sc: return "d %s / dt is %r, expected %r" % (X[i], o[9 + i], e[i])
    return Case("%s_dyn" % NAME[which], "h_ta_dyn", pn + X[:n], 17, base.families, sp, orc, k=k, k2=0, prune=True, timeout=100)
def cache_case(which):
    dims = [1, 2, 3, 3]
    def bad(o):
        for i in range(4):
            if o[3 * i] != 1: return "request %d is answered with another tolerance" % i
            if o[3 * i + 1] != dims[i]: return "cache holds %r integrators after %d requests, expected %d" % (o[3 * i + 1], i + 1, dims[i])
            if o[3 * i + 2] != 1: return "the same tolerance gives another integrator"
    def sp(c):
        if c.kind == "throw" or any(q.op != "const" for q in c.o[:12]): yield Truth("definite outcome", False); return
        r = bad([float(q.val) for q in c.o[:12]])
        yield Truth(r or "one integrator per tolerance", r is None)
    return Case("cache-%s" % NAME[which], "h_ta_cache", [], 12, [Family("any", lambda A: None, lambda rng, k: {}, "four requests")], sp,
                lambda inp, rc, o: "raised" if rc else bad(o), k=which, k2=0, prune=True)
def run(R):
    R.setup(build.paths("ta", ["h_ta.cpp"]), "ta")
    R.bounds += ["every state off the singularities, every parameter value, thrust null or not; heyoka's expressions are recorded by a stand-in and evaluated by the executor"]
    R.run([rhs_case(w, z) for w in range(4) for z in ((False, True) if w < 2 else (False,))] + [dyn_case(0), dyn_case(1)] + [cache_case(w) for w in range(4)])
