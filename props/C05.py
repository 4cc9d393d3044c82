"""propagate_lagrangian is the Keplerian flow."""
import dag, oracles as O
from prop import *
import families as F
RV = "x y z vx vy vz".split()

def flow_spec(tofname="tof", rc_ok=0, cands=None, monotone=True, scale=None):
    """ODE in tof, strict monotonicity of the root equation, and the state at tof = 0"""
    def spec(c):
        if c.kind == "throw":
            yield Truth("no exception (%s) on a valid state" % c.throws, False); return
        yield Truth("return code", c.rc == rc_ok)
        for rec in c.roots: c.hint(dag.Diff(rec["x"])(rec["f"]))
        r, v = c.o[:3], c.o[3:6]
        mu = c.v("mu"); D = c.D(tofname)
        for i in range(3): yield Zero("dr/dt = v [%d]" % i, D(r[i]) - v[i])
        rr = dag.sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2])
        for i in range(3): yield Zero("dv/dt = -mu r/|r|^3 [%d]" % i, D(v[i]) + mu * r[i] / (rr * rr * rr))
        yield from root_obl(c, monotone=monotone)
        if scale is not None and c.fam.name == "hyperbolic":
            for rec in c.roots:
                yield NonNeg("search interval covers hyperbolic anomaly differences up to 45", rec["hi"] - scale(c) * 45)
                yield NonNeg("search interval covers hyperbolic anomaly differences down to -45", dag.neg(scale(c)) * 45 - rec["lo"])
        yield from at_zero(c, tofname)
    return spec

def at_zero(c, tofname="tof"):
    """the branch expression continued to tof = 0 is the initial state"""
    sub = {c.v(tofname): dag.ZERO}
    for rec in c.roots:
        f0 = dag.subst(rec["f"], sub)
        # atan2(sin X, cos X) at tof = 0 is X: the initial mean anomaly is in (-pi, pi)
        wrap = {}
        for n in dag.topo([f0]):
            if n.op == "atan2" and n.args[0].op == "sin" and n.args[1].op == "cos" and n.args[0].args[0] is n.args[1].args[0] and rec["x"] not in dag.variables([n]):
                wrap[n] = n.args[0].args[0]
        if wrap: f0 = dag.subst(f0, wrap); sub.update(wrap)
        hit = None
        cands = [dag.ZERO, dag.TWO * dag.PI, dag.neg(dag.TWO * dag.PI)]
        for n in dag.topo([f0]):
            if n.op in ("atan", "atan2", "asinh", "atanh", "acosh", "log") and rec["x"] not in dag.variables([n]): cands += [dag.TWO * n, n]
        for x0 in cands[:16]:
            g = dag.subst(f0, {rec["x"]: x0})
            if dag.special(g): continue
            try:
                if c.A.ev(g).is_zero(): hit = x0; break
            except (Blowup, CannotEncode): pass
        if hit is None: break
        sub[rec["x"]] = hit
    outs = dag.subst(c.o[:6], sub)
    if hit_all(c, sub) and not any(dag.special(x) for x in outs):
        for i, (n, e) in enumerate(zip(RV, outs)): yield Zero("state at tof = 0 [%s]" % n, e - c.v(n))
        return
    # removable singularity at the zero anomaly: series of the trigonometric functions
    if len(c.roots) != 1:
        yield Truth("known solution at tof = 0", False); return
    x = c.roots[0]["x"]
    A = Alg(deadline=time.time() + 60); Zc = solve.Z(A); A.sign_hook = Zc.hook()
    c.fam.setup(A)
    if c.case.prep: c.case.prep(A, c.path)
    A.series = A.newvar(x.val)
    path_feasible(c.path, A, Zc)
    sub = {c.v(tofname): dag.ZERO}
    def lim(n):
        r = A.at0(A.ev(dag.subst(n, sub)), A.series)
        return r is not None and r.is_zero()
    yield Truth("root 1: zero anomaly solves the equation at tof = 0 (limit)", lim(c.roots[0]["f"]))
    for i, n in enumerate(RV): yield Truth("state in the limit tof -> 0 [%s]" % n, lim(c.o[i] - c.v(n)))

def hit_all(c, sub): return all(r["x"] in sub for r in c.roots)

def root_obl(c, deriv=True, monotone=True, digits=40, maxit=30):
    """obligations on the iterative root searches of the path"""
    for rec in c.roots:
        if rec.get("f") is None: yield Truth("root function recorded", False); continue
        x = rec["x"]
        if deriv and rec.get("df") is not None:
            yield Zero("root %d: derivative passed to the solver" % rec["n"], dag.Diff(x)(rec["f"]) - rec["df"])
            if rec.get("ddf") is not None: yield Zero("root %d: second derivative" % rec["n"], dag.Diff(x)(rec["df"]) - rec["ddf"])
        if monotone: yield Pos("root %d: equation strictly increasing" % rec["n"], dag.Diff(x)(rec["f"]))
        yield Truth("root %d: precision (digits) and iteration budget" % rec["n"], not isinstance(rec["digits"], int) or not isinstance(rec["maxit"], int) or (rec["digits"] >= digits and rec["maxit"] >= maxit))
        yield Pos("root %d: search interval not empty" % rec["n"], rec["hi"] - rec["lo"])
        yield Pos("root %d: guess above lower end" % rec["n"], rec["guess"] - rec["lo"])
        yield Pos("root %d: guess below upper end" % rec["n"], rec["hi"] - rec["guess"])

def ic_spec(c):
    """tof = 0: the state is returned unchanged"""
    if c.kind == "throw":
        yield Truth("no exception on a valid state", False); return
    # at tof = 0 the anomaly difference 0 solves the path's root equation; it is the
    # only solution where the equation is monotone
    sub = {}
    for rec in c.roots:
        f0 = dag.subst(rec["f"], {rec["x"]: dag.ZERO})
        yield Zero("root %d: zero anomaly solves the equation at tof = 0" % rec["n"], f0)
        sub[rec["x"]] = dag.ZERO
    outs = dag.subst(c.o[:6], sub) if sub else c.o[:6]
    for i, n in enumerate(RV): yield Zero("state at tof=0 [%s]" % n, outs[i] - c.v(n))

def noconv_spec(c):
    yield Truth("a search that did not converge is reported (domain_error)", c.kind == "throw" and "domain_error" in str(c.throws))

def oracle(inp, rc, o):
    if rc != 0: return "returned %s on a valid state" % CODES.get(rc, rc)
    return O.flow_oracle(inp, o)

def cases(tier):
    fams = [F.orbit(False, emax=0.995, far=True), F.orbit(True, far=True)]
    fams0 = [F.orbit(False, tof=None), F.orbit(True, tof=None)]
    return [Case("lagrangian", "h_prop_lagr", RV + ["tof", "mu"], 6, fams, flow_spec(scale=lambda c: dag.ONE), oracle),
            Case("lagrangian-t0", "h_prop_lagr", RV + [0.0, "mu"], 6, fams0, ic_spec, oracle),
            Case("lagrangian-noconv", "h_prop_lagr", RV + ["tof", "mu"], 6, fams, noconv_spec, oracle, root_mode="noconv")]

def run(R):
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
