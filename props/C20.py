"""A Sims-Flanagan leg never holds invalid data and its setters take effect."""
import dag, z3, symex
from prop import *
import sf
from sf import *
N1 = BASE + U(6)
def nw(k): return ["n_" + x for x in BASE + U(k)]
FIELDS = BASE                                           # order of out[0..18]
BOUNDED = ["tof", "Tm", "isp", "mu"]                    # must not be negative; cut in [0, 1]
SETTERS = {0: ["tof"], 1: RS, 2: ["ms"], 3: ["u"], 4: ["u"], 5: RF, 6: ["mf"], 7: ["Tm"], 8: ["isp"], 9: ["mu"], 10: ["cut"],
           11: BASE + ["u"], 12: [x for x in BASE if x != "cut"] + ["u"]}
NAMES = "set_tof set_rvs set_ms set_throttles set_throttles(iterators) set_rvf set_mf set_max_thrust set_isp set_mu set_cut set set(default-cut)".split()

def any_unsigned(nmax):
    """conversion to unsigned outside 0..nmax gives any value (it is undefined)"""
    def h(E, v, w, signed):
        if signed: return None
        if E.decide(dag.cmp("le", v, dag.const(-1))) or not E.decide(dag.cmp("lt", v, dag.const(nmax + 1))):
            E.fresh += 1; return z3.BitVec("conv%d" % E.fresh, w)
        for k in range(nmax + 1):
            if E.decide(dag.cmp("lt", v, dag.const(k + 1))): return k
        raise symex.Infeasible()
    return h
def ehook(nmax):
    def f(E): sf.hook(E); E.dtoi_hook = any_unsigned(nmax)
    return f

def valid_conds(pre, names, k):
    """conditions every one of which holds for valid data: [(label, node >= 0)]"""
    L = []
    for x in BOUNDED:
        if x in names: L.append(("%s not negative" % x, dag.var(pre + x)))
    if "cut" in names: L += [("cut not negative", dag.var(pre + "cut")), ("cut at most 1", ONE - dag.var(pre + "cut"))]
    return L
def bad_size(k): return k % 3 != 0 or k == 0

def state_obls(c, o, vals, u, what):
    """the state in o is exactly vals (dict of nodes) and throttles u"""
    n = len(u) // 3
    for i, x in enumerate(FIELDS): yield Zero("%s: %s" % (what, x), o[i] - vals[x])
    if any(x.op != "const" for x in o[19:23]): yield Truth("%s: sizes are definite" % what, False); return
    N, nf, nb, sz = (int(x.val) for x in o[19:23])
    yield Truth("%s: throttle size, number of segments" % what, sz == len(u) and N == n and nf + nb == n)
    for i, x in enumerate(u): yield Zero("%s: throttles" % what, o[23 + i] - x)
    k = dag.const(n) * vals["cut"] - dag.const(nf)
    yield NonNeg("%s: forward segments at most n cut" % what, k); yield Pos("%s: forward segments more than n cut - 1" % what, ONE - k)

def set_spec(which, k):
    def sp(c):
        if c.kind == "throw": yield Truth("no exception outside the setter", False); return
        changed = SETTERS[which]; sized = "u" in changed
        if c.o[0].op != "const": yield Truth("outcome is definite", False); return
        conds = valid_conds("n_", changed, k)
        old = {x: c.v(x) for x in BASE}; uo = [c.v(x) for x in U(6)]
        if c.o[0].val == 1:
            if not (sized and bad_size(k)): yield Never("rejects only invalid data", [(n, ">=") for _, n in conds])
            yield from state_obls(c, c.o[1:], old, uo, "a rejected call changes nothing")
        else:
            if sized: yield Truth("throttles of a valid size", not bad_size(k))
            for l, n in conds: yield NonNeg("accepted: " + l, n)
            if sized and bad_size(k): return
            v = {x: c.v("n_" + x) if x in changed else old[x] for x in BASE}
            if which == 12: v["cut"] = dag.const(0.5)
            yield from state_obls(c, c.o[1:], v, [c.v("n_" + x) for x in U(k)] if sized else uo, "only the named quantity changes")
    return sp
def check_state(o, vals, u, cut):
    n = len(u) // 3; nf = int(math.floor(n * cut))
    for i, x in enumerate(FIELDS):
        if o[i] != vals[i]: return "%s is %r, expected %r" % (x, o[i], vals[i])
    if tuple(o[19:23]) != (n, nf, n - nf, len(u)): return "segments, forward, backward, throttles = %r, expected %r" % (o[19:23], (n, nf, n - nf, len(u)))
    for i, x in enumerate(u):
        if o[23 + i] != x: return "throttle %d is %r, expected %r" % (i, o[23 + i], x)
def is_valid(v, names, k):
    return all(not v[BASE.index(x)] < 0 for x in BOUNDED if x in names) and (("cut" not in names) or 0 <= v[18] <= 1) and not ("u" in names and bad_size(k))
def set_oracle(which, k):
    def orc(inp, rc, o):
        if rc != 0: return "raised %s outside the setter" % CODES.get(rc, rc)
        changed = SETTERS[which]; new = inp[25:]; old = inp[:25]
        if not 0 <= old[18] <= 1: return None
        ok = is_valid(new, changed, k)
        if bool(o[0]) == ok: return "%s %s %s data" % (NAMES[which], "rejected" if ok else "accepted", "valid" if ok else "invalid")
        v = list(old[:19]); u = list(old[19:25])
        if ok:
            for i, x in enumerate(BASE):
                if x in changed: v[i] = new[i]
            if which == 12: v[18] = 0.5
            if "u" in changed: u = list(new[19:19 + k])
        r = check_state(o[1:], v, u, v[18])
        return r and "after %s%s: %s" % (NAMES[which], "" if ok else " (rejected)", r)
    return orc

def family(new, k, two=True):
    vs = list(N1) if two else []
    def setup(A):
        for v in vs:
            A.newvar(v)
            if v in BOUNDED: A.assume_weak(A.vr(A.index[v]), 1)
        if two: A.assume_weak(A.vr(A.index["cut"]), 1); A.assume_weak(A.sub(A.const(1), A.vr(A.index["cut"])), 1)
        for v in new: A.newvar(v)
    def smp(rng, m):
        S = {v: rng.normal(size=m) for v in vs + list(new)}
        for v in S:
            b = v.split("_")[-1]
            if b in BOUNDED and v in vs: S[v] = abs(S[v])
            elif b in BOUNDED: S[v] = np.where(rng.random(m) < 0.85, abs(S[v]), S[v])
            elif b == "cut": S[v] = np.where(rng.random(m) < 0.6, rng.random(m), rng.integers(0, 3, m) / 2)
            if b == "cut" and v in new: S[v] = np.where(rng.random(m) < 0.8, S[v], rng.normal(size=m) * 3)
        return S
    def keep(S):
        r = np.all([abs(S[x]) < 1e9 for x in S], 0)
        if two: r = r & (S["cut"] >= 0) & (S["cut"] <= 1) & np.all([S[x] >= 0 for x in BOUNDED], 0)
        return r
    return Family("every new value", setup, smp, "every valid leg of two segments; every real new value, valid or not", keep=keep)

def set_case(which, k):
    ch = SETTERS[which]
    new = [("n_" + x if x in ch else 0.0) for x in BASE] + (["n_" + x for x in U(k)] if "u" in ch else [])
    return Case("%s%s" % (NAMES[which], "-%d" % k if "u" in ch else ""), "h_sf_set", N1 + new, 1 + 23 + max(6, k), [family([x for x in new if isinstance(x, str)], k)],
                set_spec(which, k), set_oracle(which, k), k=k, k2=which, engine_hook=ehook(max(2, k // 3)), prune=True, timeout=60)

def ctor_spec(k):
    def sp(c):
        conds = valid_conds("", BASE, k)
        if c.kind == "throw":
            if not bad_size(k): yield Never("rejects only invalid data", [(n, ">=") for _, n in conds])
            else: yield Truth("rejects throttles of an invalid size", True)
            return
        yield Truth("throttles of a valid size", not bad_size(k))
        if bad_size(k): return
        for l, n in conds: yield NonNeg("accepted: " + l, n)
        yield from state_obls(c, c.o, {x: c.v(x) for x in BASE}, [c.v(x) for x in U(k)], "constructed leg")
    return sp
def ctor_oracle(k):
    def orc(inp, rc, o):
        ok = is_valid(inp, BASE + ["u"], k)
        if (rc == 0) != ok: return "constructor %s %s data" % ("accepted" if rc == 0 else "rejected", "valid" if ok else "invalid")
        if ok:
            r = check_state(o, inp[:19], inp[19:19 + k], inp[18])
            return r and "constructed leg: " + r
    return orc
def ctor_case(k):
    f = family(BASE + U(k), k, two=False)
    return Case("constructor-%d" % k, "h_sf_ctor", BASE + U(k), 23 + k, [f], ctor_spec(k), ctor_oracle(k), k=k, engine_hook=ehook(max(2, k // 3)), prune=True, timeout=60)

def def_spec(c):
    if c.kind == "throw" or any(x.op != "const" for x in c.o[:23]): yield Truth("default leg is definite", False); return
    v = [float(x.val) for x in c.o[:23]]; k = int(v[22])
    yield Truth("default leg is valid", is_valid(v, BASE + ["u"], k))
    yield Truth("default leg is consistent", v[19] * 3 == k and v[20] + v[21] == v[19] and v[20] == math.floor(v[19] * v[18]))
def def_oracle(inp, rc, o):
    if rc: return "default constructor raised"
    k = int(o[22])
    return None if is_valid(o, BASE + ["u"], k) and o[19] * 3 == k and o[20] + o[21] == o[19] and o[20] == math.floor(o[19] * o[18]) else "default leg is inconsistent: %r" % o

def order_spec(k):
    """set_throttles and set_cut commute"""
    def sp(c):
        if c.kind == "throw": yield Truth("no exception", False); return
        v = {x: c.v(x) for x in BASE}; v["cut"] = c.v("n_cut")
        yield from state_obls(c, c.o, v, [c.v("n_" + x) for x in U(k)], "throttles and cut set")
    return sp
def order_oracle(k):
    def orc(inp, rc, o):
        if rc: return "raised %s" % CODES.get(rc, rc)
        if not (0 <= inp[18] <= 1 and 0 <= inp[43] <= 1): return None
        return check_state(o, list(inp[:18]) + [inp[43]], inp[44:44 + k], inp[43])
    return orc
def order_case(k, o):
    new = [0.0] * 18 + ["n_cut"] + ["n_" + x for x in U(k)]
    f = family([x for x in new if isinstance(x, str)], k); s0 = f.setup
    def setup(A):
        s0(A); A.assume_weak(A.vr(A.index["n_cut"]), 1); A.assume_weak(A.sub(A.const(1), A.vr(A.index["n_cut"])), 1)
    f.setup = setup; k0 = f.keep; f.keep = lambda S: k0(S) & (S["n_cut"] >= 0) & (S["n_cut"] <= 1)
    return Case("throttles-and-cut-%d-%d" % (k, o), "h_sf_order", N1 + new, 23 + max(6, k), [f], order_spec(k), order_oracle(k), k=k, k2=o, engine_hook=ehook(max(2, k // 3)), prune=True, timeout=60)

def cases(tier):
    L = [Case("default", "h_sf_default", [], 23 + 18, [Family("default", lambda A: None, lambda r, k: {}, "the default leg")], def_spec, def_oracle, engine_hook=ehook(2))]
    L += [ctor_case(k) for k in ((0, 1, 2, 3, 4, 5, 6, 9) if tier == "quick" else range(19))]
    for w in SETTERS:
        for k in (((0, 1, 3, 5, 6, 9) if tier == "quick" else range(16)) if "u" in SETTERS[w] else (0,)): L.append(set_case(w, k))
    L += [order_case(k, o) for k in ((3, 9) if tier == "quick" else (3, 6, 9, 12)) for o in (0, 1)]
    return L
def run(R):
    R.setup(build.paths("sf", ["h_sf.cpp"]), "sf", native=build.paths("core", []))
    R.bounds += ["up to 9 throttle values (thorough: 18); one setter call on any valid leg of two segments, and set_throttles / set_cut in both orders"]
    R.run(cases(R.tier))
