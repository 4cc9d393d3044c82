"""Julian date conversions."""
import dag, oracles as O, numpy as np
from prop import *
import families as F
OFF = [-2400000.5, -2451544.5, 2400000.5, -51544.0, 2451544.5, 51544.0]
NM = ["jd2mjd", "jd2mjd2000", "mjd2jd", "mjd2mjd2000", "mjd20002jd", "mjd20002mjd"]
def spec(c):
    yield Truth("no exception", c.kind == "ok")
    for i in range(6): yield Zero(NM[i], c.o[i] - (c.v("d") + dag.const(OFF[i])))
def oracle(inp, rc, o):
    if rc != 0: return "raised"
    for i in range(6):
        if o[i] != o[i] or abs(O.mpf(o[i]) - (O.mpf(inp[0]) + OFF[i])) > 1e-9 * max(1, abs(inp[0]) * 1e-6): return "%s(%r) = %r, expected %s" % (NM[i], inp[0], o[i], mp.nstr(O.mpf(inp[0]) + OFF[i], 17))
def cases(tier):
    fam = Family("date", lambda A: A.newvar("d"), lambda rng, n: {"d": np.where(rng.random(n) < 0.5, rng.uniform(-1e5, 3e6, n), rng.integers(-10000, 3000000, n))}, "every date")
    return [Case("julian", "h_julian", ["d"], 6, [fam], spec, oracle)]
def run(R):
    R.bounds += ["every real date; real arithmetic"]
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
