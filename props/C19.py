"""Throttle constraints and their gradient are exact."""
import dag
from prop import *
import sf
from sf import *

def spec(n):
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s) on a valid leg" % c.throws, False); return
        if any(x.op != "const" for x in c.o[:2]): yield Truth("sizes are definite", False); return
        yield Truth("one constraint per segment", int(c.o[0].val) == n)
        yield Truth("size of the gradient", int(c.o[1].val) == 3 * n * n)
        if (int(c.o[0].val), int(c.o[1].val)) != (n, 3 * n * n): return
        u = [c.v(x) for x in U(3 * n)]
        for i in range(n):
            a, b, d = u[3 * i:3 * i + 3]; con = a * a + b * b + d * d - ONE
            yield Zero("throttle constraint is |u|^2 - 1", c.o[2 + i] - con)
            for j in range(3 * n):
                yield Zero("gradient is the Jacobian", c.o[2 + n + 3 * n * i + j] - dag.Diff(u[j])(con))
    return sp
def oracle(n):
    def orc(inp, rc, o):
        if rc != 0: return "raised %s on a valid leg" % CODES.get(rc, rc)
        if (o[0], o[1]) != (n, 3 * n * n): return "sizes %r" % o[:2]
        u = inp[19:]
        for i in range(n):
            e = sum(x * x for x in u[3 * i:3 * i + 3]) - 1
            if not abs(o[2 + i] - e) <= 1e-12 * (1 + abs(e)): return "constraint %d = %r, expected %r" % (i, o[2 + i], e)
            for j in range(3 * n):
                e = 2 * u[j] if j // 3 == i else 0.0
                if not abs(o[2 + n + 3 * n * i + j] - e) <= 1e-12 * (1 + abs(e)): return "gradient (%d, %d) = %r, expected %r" % (i, j, o[2 + n + 3 * n * i + j], e)
        return None
    return orc
def anyfam(n):
    def setup(A):
        for v in U(3 * n) + ["cut"]: A.newvar(v)
        A.assume_weak(A.vr(A.index["cut"]), 1); A.assume_weak(A.sub(A.const(1), A.vr(A.index["cut"])), 1)
    def smp(rng, k):
        S = {x: np.where(rng.random(k) < 0.2, 0.0, rng.normal(size=k)) for x in U(3 * n)}
        S["cut"] = np.where(rng.random(k) < 0.5, rng.random(k), rng.integers(0, n + 1, k) / n); return S
    return Family("%d segments" % n, setup, smp, "every throttle vector (any sign, zero included), every cut",
                  keep=lambda S: (S["cut"] >= 0) & (S["cut"] <= 1) & np.all([abs(S[x]) < 1e6 for x in U(3 * n)], 0))
def cases(tier):
    return [Case("throttles-%d" % n, "h_sf_throttles", [1., 0., 0., 0., 1., 0., 1., 0., 1., 0., -1., 0., 0., 1., 1., 1., 1., 1., "cut"] + U(3 * n), 2 + n + 3 * n * n,
                 [anyfam(n)], spec(n), oracle(n), k=n, prune=True) for n in ((1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8))]
def run(R):
    R.setup(build.paths("sf", ["h_sf.cpp"]), "sf", native=build.paths("core", []))
    R.bounds += ["1 to 5 segments (thorough: up to 8)"]
    R.run(cases(R.tier))
