"""A high-fidelity leg never holds invalid data, and every setter takes effect in all that is computed afterwards."""
import dag, z3, symex
from prop import *
import hf, sf, C20, C26
from hf import *
from C20 import BOUNDED, bad_size, valid_conds, family, N1, is_valid
ALL = BASE + ["u"]
STATES = RS + ["ms"] + RF + ["mf", "tof", "u"]
SETTERS = {0: ["tof"], 1: RS, 2: ["ms"], 3: ["u"], 4: ["u"], 5: RF, 6: ["mf"], 7: ["Tm"], 8: ["isp"], 9: ["mu"], 10: ["cut"],
           11: ALL, 12: [x for x in ALL if x != "cut"], 13: ALL, 14: [x for x in ALL if x != "cut"], 15: STATES, 16: RS + ["ms"], 17: RF + ["mf"]}
NAMES = ("set_tof set_rvs set_ms set_throttles set_throttles(iterators) set_rvf set_mf set_max_thrust set_isp set_mu set_cut set(rv) set(rv,default-cut) set(rvm) "
         "set(rvm,default-cut) set(rvm,tof) set_rvms set_rvmf set_tol").split()
TOL = 1e-12
def ehook(nmax):
    def f(E): hf.hook(E); E.dtoi_hook = C20.any_unsigned(nmax)
    return f
def full_obls(c, o, vals, u, tol, what):
    yield from C20.state_obls(c, o, vals, u, what)
    yield Truth("%s: tolerance" % what, o[41].op == "const" and float(o[41].val) == tol)
    for i in range(3):
        yield Zero("%s: get_rvs" % what, o[42 + i] - vals[RS[i]]); yield Zero("%s: get_rvs" % what, o[45 + i] - vals[RS[3 + i]])
        yield Zero("%s: get_rvf" % what, o[49 + i] - vals[RF[i]]); yield Zero("%s: get_rvf" % what, o[52 + i] - vals[RF[3 + i]])
    yield Zero("%s: get_ms" % what, o[48] - vals["ms"]); yield Zero("%s: get_mf" % what, o[55] - vals["mf"])
def check_full(o, vals, u, cut, tol):
    r = C20.check_state(o, vals, u, cut)
    if r: return r
    if o[41] != tol: return "tolerance is %r, expected %r" % (o[41], tol)
    if tuple(o[42:56]) != tuple(vals[:6]) + (vals[6],) + tuple(vals[7:13]) + (vals[13],): return "boundary states of the getters are %r" % (o[42:56],)
def deftol(which): return 1e-16 if which in (12, 14) else TOL
def set_spec(which, k):
    def sp(c):
        if c.kind == "throw": yield Truth("no exception outside the setter", False); return
        changed = SETTERS[which]; sized = "u" in changed
        if c.o[0].op != "const": yield Truth("outcome is definite", False); return
        conds = valid_conds("n_", changed, k)
        old = {x: c.v(x) for x in BASE}; uo = [c.v(x) for x in U(6)]
        if c.o[0].val == 1:
            if not (sized and bad_size(k)): yield Never("rejects only invalid data", [(n, ">=") for _, n in conds])
            yield from full_obls(c, c.o[1:], old, uo, TOL, "a rejected call changes nothing")
        else:
            if sized: yield Truth("throttles of a valid size", not bad_size(k))
            for l, n in conds: yield NonNeg("accepted: " + l, n)
            if sized and bad_size(k): return
            v = {x: c.v("n_" + x) if x in changed else old[x] for x in BASE}
            if which in (12, 14): v["cut"] = dag.const(0.5)
            yield from full_obls(c, c.o[1:], v, [c.v("n_" + x) for x in U(k)] if sized else uo, deftol(which), "only the named quantity changes")
    return sp
def new_vals(which, k, inp):
    v = list(inp[:19]); u = list(inp[19:25]); new = inp[25:]
    for i, x in enumerate(BASE):
        if x in SETTERS[which]: v[i] = new[i]
    if which in (12, 14): v[18] = 0.5
    if "u" in SETTERS[which]: u = list(new[19:19 + k])
    return v, u
def set_oracle(which, k):
    def orc(inp, rc, o):
        if rc != 0: return "raised %s outside the setter" % CODES.get(rc, rc)
        changed = SETTERS[which]; new = inp[25:]; old = inp[:25]
        if not 0 <= old[18] <= 1: return None
        ok = is_valid(new, changed, k)
        if bool(o[0]) == ok: return "%s %s %s data" % (NAMES[which], "rejected" if ok else "accepted", "valid" if ok else "invalid")
        v, u = new_vals(which, k, inp) if ok else (list(old[:19]), list(old[19:25]))
        r = check_full(o[1:], v, u, v[18], deftol(which) if ok else TOL)
        return r and "after %s%s: %s" % (NAMES[which], "" if ok else " (rejected)", r)
    return orc
def set_case(which, k):
    ch = SETTERS[which]
    new = [("n_" + x if x in ch else 0.0) for x in BASE] + (["n_" + x for x in U(k)] if "u" in ch else [])
    return Case("%s%s" % (NAMES[which], "-%d" % k if "u" in ch else ""), "h_hf_set", N1 + new, 1 + 56, [family([x for x in new if isinstance(x, str)], k)],
                set_spec(which, k), set_oracle(which, k), k=k, k2=which, engine_hook=ehook(max(2, k // 3)), prune=True, timeout=60)
def ctor_spec(k):
    def sp(c):
        conds = valid_conds("", BASE, k)
        if c.kind == "throw":
            if not bad_size(k): yield Never("rejects only invalid data", [(n, ">=") for _, n in conds])
            else: yield Truth("rejects throttles of an invalid size", True)
            return
        yield Truth("throttles of a valid size", not bad_size(k))
        if bad_size(k): return
        for l, n in conds: yield NonNeg("accepted: " + l, n)
        yield from full_obls(c, c.o, {x: c.v(x) for x in BASE}, [c.v(x) for x in U(k)], TOL, "constructed leg")
    return sp
def ctor_oracle(k):
    def orc(inp, rc, o):
        ok = is_valid(inp, BASE + ["u"], k)
        if (rc == 0) != ok: return "constructor %s %s data" % ("accepted" if rc == 0 else "rejected", "valid" if ok else "invalid")
        if ok:
            r = check_full(o, inp[:19], inp[19:19 + k], inp[18], TOL)
            return r and "constructed leg: " + r
    return orc
def ctor_case(k, form):
    return Case("constructor-%d-%d" % (form, k), "h_hf_ctor", BASE + U(k), 56, [family(BASE + U(k), k, two=False)], ctor_spec(k), ctor_oracle(k), k=k, k2=form, engine_hook=ehook(max(2, k // 3)), prune=True, timeout=60)
TOLS = [1e-12, 1., 0., -1., 2.]
def tol_case(k, form):
    good = 0 < TOLS[k] <= 1
    return Case("constructor-%d-tol-%g" % (form, TOLS[k]), "h_hf_tol", N1, 56, [family([], 6)],
                lambda c: [Truth("a tolerance of %g is %s" % (TOLS[k], "accepted" if good else "rejected"), (c.kind != "throw") == good)],
                lambda inp, rc, o: None if not 0 <= inp[18] <= 1 or (rc == 0) == good else "constructor %s the tolerance %g" % ("accepted" if rc == 0 else "rejected", TOLS[k]),
                k=k, k2=form, engine_hook=ehook(2), prune=True)
def settol_case(t):
    good = 0 < t <= 1
    def sp(c):
        if c.kind == "throw" or c.o[0].op != "const": yield Truth("outcome is definite", False); return
        yield Truth("the tolerance %g is %s" % (t, "accepted" if good else "rejected"), (c.o[0].val == 0) == good)
        yield from full_obls(c, c.o[1:], {x: c.v(x) for x in BASE}, [c.v(x) for x in U(6)], t if good else TOL, "set_tol")
    def orc(inp, rc, o):
        if rc: return "raised"
        if (o[0] == 0) != good: return "set_tol(%g) %s" % (t, "accepted" if o[0] == 0 else "rejected")
        return check_full(o[1:], inp[:19], inp[19:25], inp[18], t if good else TOL)
    return Case("set_tol-%g" % t, "h_hf_set", N1 + [0.0] * 25 + [t], 57, [family([], 6)], sp, orc, k=0, k2=18, engine_hook=ehook(2), prune=True)
# ---- what is computed afterwards ------------------------------------------------------
def after_fam(which, k):
    """a valid leg and valid new values, both physical"""
    new = ["n_" + x for x in BASE + U(k) if x in SETTERS[which] or (x[0] == "u" and x[1:].isdigit() and "u" in SETTERS[which])]
    f0 = C26.fam2(2)
    def setup(A):
        f0.setup(A)
        for v in new:
            A.newvar(v)
            if v in ("n_ms", "n_mf", "n_tof", "n_Tm", "n_isp", "n_mu"): A.varsign[A.index[v]] = 1
        if "n_cut" in new: A.assume_weak(A.vr(A.index["n_cut"]), 1); A.assume_weak(A.sub(A.const(1), A.vr(A.index["n_cut"])), 1)
        import families as F
        if "n_u0" in new:
            for i in range(k // 3): A.assume_pos(F.rat(A, *[(1, "n_u%d" % j, "n_u%d" % j) for j in range(3 * i, 3 * i + 3)]))
    fk = C26.fam2(max(1, k // 3) if k else 2)
    def merge(S):
        """the leg after the setter"""
        return {x: S["n_" + x] if "n_" + x in S else S[x] for x in BASE + (U(k) if "n_u0" in new else U(6)) if x in S or "n_" + x in S}
    def smp(rng, m):
        S = dict(f0.sample(rng, m)); T = fk.sample(rng, m)
        S.update({v: T[v[2:]] for v in new}); return S
    return Family("valid legs", setup, smp, "every valid leg of two segments and every valid new value", keep=lambda S: f0.keep(S) & fk.keep(merge(S)))
def after_names(which, k):
    return N1 + [("n_" + x if x in SETTERS[which] else 0.0) for x in BASE] + (["n_" + x for x in U(k)] if "u" in SETTERS[which] else [0.0] * k)
def after_spec(which, k):
    n = k // 3 if "u" in SETTERS[which] else 2
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s) on a valid leg" % c.throws, False); return
        if any(x.op != "const" for x in c.o[:5]): yield Truth("sizes are definite", False); return
        N, nf = int(c.o[0].val), int(c.o[1].val)
        yield Truth("segments", N == n and 0 <= nf <= n)
        yield Truth("the integrators have the tolerance of the leg", c.o[2].val == c.o[4].val == c.o[3].val)
        if N != n or not 0 <= nf <= n: return
        def name(x):
            if x[0] == "u" and x[1:].isdigit(): return "n_" + x if "u" in SETTERS[which] else x
            return "n_" + x if x in SETTERS[which] else x
        K, a, b = dag_ref(c, n, nf, name); mm = [a[i] - b[i] for i in range(7)]
        for i in range(7): yield Zero("mismatch after the setter", c.o[5 + i] - mm[i])
        yield from C26.grad_obls(c.o[12:], n, nf, K, [c.v(name(x)) for x in U(3 * n)], mm)
    return sp
def after_oracle(which, k):
    n = k // 3 if "u" in SETTERS[which] else 2
    def orc(inp, rc, o):
        if rc != 0: return "raised %s on a valid leg" % CODES.get(rc, rc)
        v, u = new_vals(which, k, inp); nf = nfwd(n, v[18])
        if int(o[0]) != n or int(o[1]) != nf: return "segments %s" % o[:2]
        if not o[2] == o[4] == o[3]: return "after %s: tolerance of the leg %r, of the integrators %r" % (NAMES[which], o[4], o[2:4])
        w = list(v) + list(u)
        try:
            a, b = num_ref(w, n, nf)
            if not stable(w, n, nf, a, b): return None
            r = cmp7(o[5:], a - b, scales(a, b), "mismatch") or C26.check_grad(o[12:], w, n, nf)
        except ValueError: return None
        return r and "after %s: %s" % (NAMES[which], r)
    return orc
def after_case(which, k):
    n = k // 3 if "u" in SETTERS[which] else 2
    c = Case("after-%s%s" % (NAMES[which], "-%d" % k if "u" in SETTERS[which] else ""), "h_hf_after", after_names(which, k), 12 + 100 + 7 * (3 * n + 1), [after_fam(which, k)],
             after_spec(which, k), after_oracle(which, k), k=k, k2=which, engine_hook=ehook(max(2, n)), prune=True, timeout=120)
    return c
def aftertol_case():
    f = C26.fam2(2)
    return Case("after-set_tol", "h_hf_after", N1 + [0.0] * 25 + [1e-9], 212, [f],
                lambda c: [Truth("no exception", c.kind != "throw")] + ([Truth("the integrators have the tolerance of the leg", all(c.o[i].op == "const" and float(c.o[i].val) == 1e-9 for i in (2, 3, 4)))] if c.kind != "throw" else []),
                lambda inp, rc, o: "raised" if rc else None if o[2] == o[3] == o[4] == 1e-9 else "after set_tol(1e-9): tolerance of the leg %r, of the integrators %r" % (o[4], o[2:4]),
                k=0, k2=18, engine_hook=ehook(2), prune=True)
# ---- the optimiser's entry point --------------------------------------------------------
def chrom_case(n):
    new = ["n_" + x for x in BASE[:15]]
    names = BASE + U(3 * n) + new + [0.] * 4 + ["n_" + x for x in U(3 * n)]
    f0 = C26.fam2(n); w = 15
    def setup(A):
        f0.setup(A)
        for v in new + ["n_" + x for x in U(3 * n)]:
            A.newvar(v)
            if v in ("n_ms", "n_mf", "n_tof"): A.varsign[A.index[v]] = 1
    def smp(rng, m):
        S = dict(f0.sample(rng, m)); T = f0.sample(rng, m)
        S.update({v: T[v[2:]] for v in new + ["n_" + x for x in U(3 * n)]}); return S
    f = Family("valid legs", setup, smp, "every valid leg, every valid chromosome", keep=lambda S: f0.keep(S) & f0.keep({x: S["n_" + x] if "n_" + x in S else S[x] for x in BASE + U(3 * n)}))
    def sp(c):
        if c.kind == "throw": yield Truth("no exception (%s) on a valid leg" % c.throws, False); return
        if c.o[0].op != "const" or c.o[60].op != "const": yield Truth("sizes are definite", False); return
        nf = int(c.o[60].val)
        yield Truth("number of constraints", int(c.o[0].val) == 7 + n)
        nm = lambda x: x if x in ("Tm", "isp", "mu", "cut") else "n_" + x
        K, a, b = dag_ref(c, n, nf, nm); u = [c.v("n_" + x) for x in U(3 * n)]
        for i in range(7): yield Zero("mismatch of the chromosome", c.o[1 + i] - (a[i] - b[i]))
        for i in range(n): yield Zero("throttle constraint of the chromosome", c.o[8 + i] - (u[3 * i] * u[3 * i] + u[3 * i + 1] * u[3 * i + 1] + u[3 * i + 2] * u[3 * i + 2] - ONE))
    def orc(inp, rc, o):
        if rc != 0: return "raised %s on a valid leg" % CODES.get(rc, rc)
        new = inp[19 + 3 * n:]; v = list(new[:15]) + list(inp[15:19]) + list(new[19:]); nf = nfwd(n, v[18])
        if int(o[0]) != 7 + n: return "%r constraints" % o[0]
        try:
            a, b = num_ref(v, n, nf)
            if not stable(v, n, nf, a, b): return None
        except ValueError: return None
        u = v[19:]
        for i in range(n):
            e = sum(x * x for x in u[3 * i:3 * i + 3]) - 1
            if not abs(o[8 + i] - e) <= 1e-12 * (1 + abs(e)): return "throttle constraint %d = %r, expected %r" % (i, o[8 + i], e)
        r = cmp7(o[1:], a - b, scales(a, b), "mismatch")
        return r and "set_and_compute_constraints: " + r
    return Case("chromosome-%d" % n, "h_hf_chromosome", names, 61, [f], sp, orc, k=n, engine_hook=ehook(max(2, n)), prune=True, timeout=120)
def order_case(k, o):
    new = [0.0] * 18 + ["n_cut"] + ["n_" + x for x in U(k)]
    c = C20.order_case(k, o); c.entry = "h_hf_order"; c.engine_hook = ehook(max(2, k // 3)); c.nout = 56
    return c
def cases(tier):
    L = [Case("default", "h_hf_default", [], 56, [Family("default", lambda A: None, lambda r, k: {}, "the default leg")], C20.def_spec, C20.def_oracle, engine_hook=ehook(2))]
    L += [ctor_case(k, f) for f in (0, 1) for k in ((0, 1, 3, 6, 8) if tier == "quick" else range(13))]
    L += [tol_case(k, f) for k in range(5) for f in (0, 1)] + [settol_case(t) for t in (1e-9, 1., 0., -1., 3.)]
    for w in SETTERS:
        for k in (((0, 1, 3, 9) if tier == "quick" else range(13)) if "u" in SETTERS[w] else (0,)): L.append(set_case(w, k))
    for w in SETTERS: L.append(after_case(w, 6 if "u" in SETTERS[w] else 0))
    if tier != "quick":
        for w in SETTERS:
            if "u" in SETTERS[w]: L += [after_case(w, 3), after_case(w, 9)]
    else: L += [after_case(3, 3), after_case(4, 9)]
    return L + [aftertol_case(), chrom_case(1), chrom_case(2)] + [order_case(k, o) for k in ((3, 9) if tier == "quick" else (3, 6, 9, 12)) for o in (0, 1)]
def run(R):
    R.setup(build.paths("hf", ["h_hf.cpp"]), "hf", native=build.paths("ta", ["h_ta.cpp"]))
    hf.set_native(R.nat)
    R.bounds += ["up to 9 throttle values (thorough: 12); one setter call on any valid leg of two segments; tolerances from a list; heyoka is replaced by a stand-in"]
    R.run(cases(R.tier))
