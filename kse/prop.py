"""Property runner: symbolic paths x input families -> obligations -> solver
verdicts -> counterexample search -> native replay -> evidence."""
import os, sys, json, time, ctypes, struct, signal, traceback, math, random
import mpmath as mp
import numpy as np
import dag, alg, solve, symex, ir, build, extmodels
from dag import Node
from alg import Alg, Rat, Blowup, CannotEncode

ROOT = build.HERE
np.seterr(all="ignore")
NC = 8
CODES = {-1: "domain_error", -2: "logic_error", -3: "invalid_argument", -4: "out_of_range", -5: "length_error",
         -6: "runtime_error", -7: "bad_alloc", -8: "exception", -99: "crash", -98: "timeout"}

# ------------------------------------------------------------------ native side
class Native:
    def __init__(self, so): self.lib = ctypes.CDLL(so); self.cache = {}
    def raw(self, fn, inp, nout, k=0, k2=0):
        f = getattr(self.lib, fn)
        i = (ctypes.c_double * max(1, len(inp)))(*inp); o = (ctypes.c_double * max(1, nout))(*([float("nan")] * nout))
        f.restype = ctypes.c_int
        rc = f(i, o, ctypes.c_int(k), ctypes.c_int(k2))
        return rc, list(o)[:nout]
    def __call__(self, fn, inp, nout, k=0, k2=0, timeout=20):
        """isolated in a child: a crash or a hang of the code under test is a result"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r); signal.alarm(timeout)
                import resource; resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
                rc, o = self.raw(fn, inp, nout, k, k2)
                os.write(w, struct.pack("<i%dd" % nout, rc, *o))
            except BaseException: pass
            os._exit(0)
        os.close(w)
        buf = b""
        while True:
            b = os.read(r, 65536)
            if not b: break
            buf += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if len(buf) == 4 + 8 * nout:
            v = struct.unpack("<i%dd" % nout, buf); return v[0], list(v[1:])
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM: return -98, [float("nan")] * nout
        return -99, [float("nan")] * nout

# ------------------------------------------------------------------ cases
class Family:
    """a parametrisation of the inputs: exact (setup) and numeric (sample)"""
    def __init__(self, name, setup, sample, desc="", keep=None): self.name = name; self.setup = setup; self.sample = sample; self.desc = desc; self.keep = keep

class Case:
    def __init__(self, name, entry, inputs, nout, families, spec, oracle, k=0, k2=0, root_mode="conv", maxpaths=200,
                 pins=None, timeout=120, definedness=False, thr_ok=None, explore_time=200, engine_hook=None, nat_in=None, prep=None, elim=None,
                 nat_k=None, nat_k2=None, bounded=None, hidden=(), prune=False):
        """k (or k2) may be the name of an input: the integer argument is then symbolic (a real
        variable, usable by conversion to double), and replays use the sampled value"""
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.xin = list(inputs) + [n for n in (k, k2) if isinstance(n, str)] + list(hidden)
    def nat_call(self, nat, env):
        inp = [env[n] if isinstance(n, str) else float(n) for n in self.inputs]
        ks = [v if v is not None else (int(round(env[d])) if isinstance(d, str) else d) for v, d in ((self.nat_k, self.k), (self.nat_k2, self.k2))]
        rc, outs = nat(self.entry, inp, self.nout, *ks)
        return inp + [float(ks[0]) for d in (self.k,) if isinstance(d, str)] + [float(ks[1]) for d in (self.k2,) if isinstance(d, str)], rc, outs, ks

class Ctx:
    """what a spec sees"""
    def __init__(self, case, path, fam, A, Zc):
        self.case = case; self.path = path; self.fam = fam; self.A = A; self.Z = Zc
        self.kind = path.kind
        self.throws = path.res if path.kind == "throw" else None
        self.rc, self.o = (path.res if path.kind == "ok" else (None, None))
        self.roots = [rec for k, rec in path.facts if k == "root"]
        self.invs = [rec for k, rec in path.facts if k == "inverse"]
        self.rootfacts = {r["x"].id: r["f"] for r in self.roots if r.get("f") is not None}
    def v(self, n): return dag.var(n)
    def D(self, wrt, ufrule=None): return dag.Diff(self.v(wrt) if isinstance(wrt, str) else wrt, self.rootfacts, ufrule)
    def hint(self, node):
        try: self.A.hint(self.A.ev(node))
        except (Blowup, CannotEncode): pass

def Zero(label, n): return ("zero", label, n)
def Pos(label, n): return ("pos", label, n)
def NonNeg(label, n): return ("nonneg", label, n)
def Never(label, conds):
    """no input on the path satisfies every (node, op)"""
    return ("never", label, conds)
def Truth(label, b): return ("true", label, bool(b))

def make_thunk(mods, case):
    if hasattr(case, "thunk"): return case.thunk
    def thunk(E):
        names = case.inputs
        a = E.alloc(8 * max(1, len(names)), "in"); o = E.alloc(8 * max(1, case.nout), "out")
        for i, n in enumerate(names):
            E.raw_store(a + 8 * i, 8, dag.var(n) if isinstance(n, str) else dag.lift(n))
        E.itod_hook = sym_itod if isinstance(case.k, str) or isinstance(case.k2, str) else None
        E.models = {}; E.dtoi_hook = None; E.share_roots = False; E.max_steps = 3_000_000
        if case.engine_hook: case.engine_hook(E)
        rc = E.call(mods[0], case.entry, [a, o] + [dag.var(x) if isinstance(x, str) else x & 0xffffffff for x in (case.k, case.k2)])
        if not isinstance(rc, int): rc = E.concretize(rc)
        return symex.sx(rc, 32), [out_load(E, o + 8 * i) for i in range(case.nout)]
    return thunk
def sym_itod(E, v, w, signed):
    if isinstance(v, Node) and v.op == "var": return v
    raise symex.Unsupported("int to double of symbolic int")
def out_load(E, addr):
    try: return E.load_d(addr)
    except symex.Unsupported: return dag.NAN

class Budget(Exception): pass

# ------------------------------------------------------------------ numeric witnesses
def const_bias(path, names):
    """constants that inputs are compared with on the path"""
    out = {}
    for c, d in path.trail:
        if isinstance(c, Node) and c.op in ("lt", "le", "eq"):
            for x, y in (c.args, c.args[::-1]):
                if x.op == "var" and y.op == "const": out.setdefault(x.val, set()).add(float(y.val))
    return out

class Numeric:
    """vectorised evaluation of a path: inputs -> roots -> conditions / outputs"""
    def __init__(self, path, names):
        self.names = [n for n in names if isinstance(n, str)]
        self.path = path; self.steps = []
        known = list(self.names)
        for k, rec in path.facts:
            if k == "inverse":
                A, X = rec["A"], rec["X"]; n = len(A)
                self.steps.append(("inverse", n, dag.npfun([e for r in A for e in r], known), len(known)))
                known += [e.val for r in X for e in r]; continue
            if k != "root" or rec.get("f") is None: continue
            x = rec["x"].val
            if rec.get("given"):
                self.steps.append(("given", dag.npfun([rec["guess"]], known), dag.npfun([rec["f"], rec["scale"]], known + [x]), len(known))); known.append(x); continue
            self.steps.append((x, dag.npfun([rec["lo"], rec["hi"], rec["guess"]], known), dag.npfun([rec["f"]], known + [x]), len(known)))
            known.append(x)
        self.known = known
        conds = [(c, d) for c, d in path.trail if isinstance(c, Node)]
        self.cd = [bool(d) for c, d in conds]
        self.cf = dag.npfun([c for c, d in conds], known) if conds else None
    def env(self, S):
        """S: {name: array} -> list of arrays for known vars"""
        n = len(next(iter(S.values()))) if S else 1
        vals = [np.asarray(S[k], dtype=float) for k in self.names]
        self.good = np.ones(n, bool)
        with np.errstate(all="ignore"):
            for x, bf, f, nk in self.steps:
                if x == "given":
                    g = np.broadcast_to(np.asarray(bf(*vals[:nk])[0], float), (n,)).copy()
                    r, sc = f(*vals[:nk], g)
                    self.good &= np.broadcast_to(np.abs(r) <= 1e-7 * np.abs(sc), (n,)); vals.append(g); continue
                if x == "inverse":
                    a = np.stack([np.broadcast_to(np.asarray(t, float), (n,)) for t in f(*vals[:nk])], 1).reshape(n, bf, bf)
                    a = np.where(np.isfinite(a).all(axis=(1, 2))[:, None, None] & (np.abs(np.linalg.det(np.nan_to_num(a))) > 1e-300)[:, None, None], a, np.eye(bf))
                    r = np.linalg.inv(a).reshape(n, -1); vals += [r[:, i] for i in range(bf * bf)]; continue
                lo, hi, g = [np.broadcast_to(np.asarray(t, float), (n,)).copy() for t in bf(*vals[:nk])]
                flo = f(*vals[:nk], lo)[0]; fhi = f(*vals[:nk], hi)[0]
                bad = ~(flo * fhi <= 0)
                # fall back to a widened bracket when the stated one is not one
                w = np.maximum(np.abs(hi - lo), 1.0)
                for _ in range(6):
                    lo = np.where(bad, lo - w, lo); hi = np.where(bad, hi + w, hi)
                    flo = f(*vals[:nk], lo)[0]; fhi = f(*vals[:nk], hi)[0]; bad = ~(flo * fhi <= 0)
                    w = w * 2
                    if not bad.any(): break
                for _ in range(90):
                    mid = 0.5 * (lo + hi); fm = f(*vals[:nk], mid)[0]
                    left = (flo * fm <= 0)
                    hi = np.where(left, mid, hi); lo = np.where(left, lo, mid); flo = np.where(left, flo, fm)
                vals.append(0.5 * (lo + hi))
        return vals
    def ok(self, vals):
        n = len(vals[0]) if vals else 1
        m = np.ones(n, bool)
        if getattr(self, "good", None) is not None and len(self.good) == n: m &= self.good
        if self.cf is None: return m
        for r, d in zip(self.cf(*vals), self.cd):
            m &= (np.broadcast_to(r, (n,)) == d)
        return m

def biased(fam, rng, n, bias):
    """members of the family, inputs also near the constants they are compared with"""
    S = fam.sample(rng, n)
    for nm, cs in (bias or {}).items():
        if nm not in S: continue
        cs = sorted(cs); a = S[nm].copy(); sel = rng.random(n) < 0.5
        c = rng.choice(cs, n); d = rng.choice([0.0, 1e-9, -1e-9, 1e-3, -1e-3, 0.1, -0.1, 1, -1], n)
        a[sel] = (c + d * np.maximum(1.0, np.abs(c)))[sel]
        S[nm] = a
    return S

def find_witnesses(path, case, fam, rng, n=4000, want=12, rounds=3):
    """numeric inputs that follow the path: list of dicts"""
    try: num = Numeric(path, case.xin)
    except (NotImplementedError, KeyError): return None, []
    bias = const_bias(path, case.xin)
    out = []
    for rd in range(rounds):
        S = biased(fam, rng, n, bias)
        vals = num.env(S)
        m = num.ok(vals)
        if fam.keep is not None: m &= fam.keep(S)
        idx = np.nonzero(m)[0]
        for i in idx[:want]: out.append({k: float(S[k][i]) for k in num.names})
        if len(out) >= want: break
    return num, out

def positive(A, n):
    r = A.inputs.get(n)
    if r is None: return n in A.index and A.varsign.get(A.index[n]) == 1
    try: return A.rsign(r) == 1
    except Exception: return False
def model_inputs(Zc, A, model, names, rootnames=()):
    """z3 model -> numeric inputs (through the family parametrisation)"""
    def val(i):
        x = model.eval(Zc.var(i), model_completion=True)
        try:
            if x.is_real() and hasattr(x, "numerator_as_long"): return float(x.numerator_as_long()) / float(x.denominator_as_long())
        except Exception: pass
        try: return float(x.approx(20).as_fraction())
        except Exception: return 0.0
    memo = {}
    def g(i):
        if i not in memo: memo[i] = val(i)
        return memo[i]
    def pv(p):
        t = 0.0
        for m, c in p.items():
            x = float(c); i = 0
            while m:
                e = m & alg.MASK
                if e: x *= g(i) ** e
                m >>= alg.SH; i += 1
            t += x
        return t
    out = {}
    for n in names:
        if not isinstance(n, str): continue
        r = A.inputs.get(n)
        if r is None:
            out[n] = g(A.index[n]) if n in A.index else 0.37
            continue
        x = float(r.k) * pv(r.num)
        for f, e in r.den.items():
            d = pv(A.factors[f])
            if d == 0: return None
            x /= d ** e
        out[n] = x
    if not all(math.isfinite(x) for x in out.values()): return None
    big = max([abs(x) for x in out.values()] + [0.0])
    for n in out:                                     # algebraic zeros come back as 1e-16
        if abs(out[n]) < 1e-12 * big and not positive(A, n): out[n] = 0.0
    return out if big < 1e18 else None

# ------------------------------------------------------------------ one job = path x family
OPS = {"lt": "<", "le": "<=", "eq": "=="}
NOT = {"<": ">=", "<=": ">", "==": "!="}

def path_feasible(path, A, Zc, budget=20.0):
    """add the path condition to Z; False when z3 refutes it"""
    t0 = time.time()
    seeds = set(); cons = []
    for c, d in path.trail:
        if not isinstance(c, Node) or c.op not in OPS: continue
        try: r = A.ev(dag.sub(c.args[0], c.args[1]))
        except CannotEncode as e:
            if "negative" in str(e): return False
            continue
        except Blowup: continue
        op = OPS[c.op]
        if not d: op = NOT[op]
        q = A.asconst(r)
        if q is not None:
            if not {"<": q < 0, "<=": q <= 0, "==": q == 0, ">": q > 0, ">=": q >= 0, "!=": q != 0}[op]: return False
            continue
        p = Zc.signpoly(r)
        if len(p) <= 120 and time.time() - t0 < budget:
            s = solve.run(Zc.base(Zc.pvars(p)) + [Zc.cmp(p, op)], 2500)
            if s == "unsat": return False
        Zc.assume(r, op)
    return True

class Pruner:
    """refutes branch directions during exploration: a direction is dropped when the path
    condition so far together with it has no member in any of the case's families"""
    def __init__(self, case): self.case = case; self.key = None; self.n = 0; self.cut = 0
    def __call__(self, E, trail):
        pre, (cond, d) = trail[:-1], trail[-1]
        if not isinstance(cond, Node) or cond.op not in OPS: return True
        if self.key is not E.trail or len(self.state) != len(self.case.families):
            self.key = E.trail; self.pos = 0; self.state = []; self.dead = set()
            for fam in self.case.families:
                A = Alg(deadline=time.time() + 1e6); Zc = solve.Z(A); A.sign_hook = Zc.hook(); fam.setup(A)
                self.state.append((A, Zc))
        live = False
        for i, (A, Zc) in enumerate(self.state):
            if i in self.dead: continue
            A.deadline = time.time() + 10
            if self.case.prep: self.case.prep(A, E)
            try:
                if not path_feasible(PathView(pre[self.pos:], E), A, Zc, budget=0): self.dead.add(i); continue
                live = live or self.refuted(A, Zc, cond, d) is False
            except (Blowup, CannotEncode, NotImplementedError): live = True
        self.pos = len(pre); self.n += 1
        if not live: self.cut += 1
        return live
    def refuted(self, A, Zc, c, d):
        try: r = A.ev(dag.sub(c.args[0], c.args[1]))
        except CannotEncode as e: return "negative" in str(e)
        op = OPS[c.op]
        if not d: op = NOT[op]
        q = A.asconst(r)
        if q is not None: return not {"<": q < 0, "<=": q <= 0, "==": q == 0, ">": q > 0, ">=": q >= 0, "!=": q != 0}[op]
        p = Zc.signpoly(r)
        if len(p) > 120: return False
        return solve.run(Zc.base(Zc.pvars(p)) + [Zc.cmp(p, op)], 1500) == "unsat"
class PathView:
    def __init__(self, trail, E): self.trail = trail; self.facts = E.facts

def run_job(args):
    case, pi, path, fam, nat, seed, tier = args
    solve.STATS.update({"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0})
    R = {"case": case.name, "path": pi, "family": fam.name, "kind": path.kind, "proved": [], "open": [], "viol": [], "notes": [],
         "feasible": True, "witness": 0, "replays": 0, "mismatch": [], "roots": len([1 for f in path.facts if f[0] == "root"])}
    t0 = time.time()
    rng = np.random.default_rng(seed * 1000 + pi)
    def viol(inp, rc, outs, why, label, ks):
        R["viol"].append({"case": case.name, "label": label, "path": pi, "family": fam.name, "entry": case.entry, "k": ks[0], "k2": ks[1],
                          "inputs": inp, "names": case.inputs, "nout": case.nout, "rc": rc, "out": outs, "why": why})
    def replay(env, label):
        inp, rc, outs, ks = case.nat_call(nat, env); R["replays"] += 1
        try: why = case.oracle(inp, rc, outs) if case.oracle else None
        except Exception as e: why = None; R["notes"].append("oracle: %s %s" % (type(e).__name__, e))
        if why: viol(inp, rc, outs, why, label, ks); return True
        return False
    try:
        A = Alg(deadline=t0 + case.timeout)
        Zc = solve.Z(A); A.sign_hook = Zc.hook()
        fam.setup(A)
        if case.prep: case.prep(A, path)
        feas = True
        try: feas = path_feasible(path, A, Zc)
        except (Blowup, CannotEncode, NotImplementedError) as e: R["notes"].append("path condition: %s" % e)
        if not feas: R["feasible"] = False
        if feas and case.elim: eliminate(case.elim, path, A, R)
        num, wit = find_witnesses(path, case, fam, rng) if feas else (None, [])
        if not feas:
            R["wall"] = time.time() - t0; R["stats"] = dict(solve.STATS); return R
        R["witness"] = len(wit)
        if path.kind in ("bound", "cutoff") and case.bounded:
            R["notes"].append("bound reached: %s" % case.bounded); obs = []
        elif path.kind in ("unsupported", "bound", "cutoff"):
            R["open"].append("%s: %s" % (path.kind, path.res or path.note)); obs = []
        else:
            ctx = Ctx(case, path, fam, A, Zc)
            try: obs = list(case.spec(ctx)) + [Zero("equal root searches", a - b) for k, ab in path.facts if k == "same" for a, b in [ab]]
            except (NotImplementedError, Blowup, CannotEncode, ZeroDivisionError, KeyError, AttributeError, IndexError) as e:
                if os.environ.get("KSE_DEBUG"): traceback.print_exc()
                R["open"].append("spec: %s %s" % (type(e).__name__, e)); obs = []
        failed = []
        for kind, label, n in obs:
            try:
                if kind == "true":
                    (R["proved"] if n else failed).append(label if n else (label, None, None)); continue
                if kind == "never":
                    cs = []; vs = set()
                    for x, op in n:
                        p = Zc.signpoly(A.ev(x)); vs |= Zc.pvars(p); cs.append(Zc.cmp(p, op))
                    if solve.run(Zc.base(vs) + cs, 8000) == "unsat": R["proved"].append(label)
                    else: failed.append((label, kind, None))
                    continue
                r = A.ev(n) if isinstance(n, Node) else n
                if kind == "zero":
                    if r.is_zero(): res = decide([], r, A, Zc, "!=")
                    else: res = decide(None, r, A, Zc, "!=") if len(r.num) < 60 else "open"
                elif kind == "pos": res = decide(None, r, A, Zc, "<=")
                else: res = decide(None, r, A, Zc, "<")
                if res == "unsat": R["proved"].append(label)
                else: failed.append((label, kind, n if isinstance(n, Node) else None))
            except (Blowup, CannotEncode, NotImplementedError) as e:
                R["notes"].append("%s: %s %s" % (label, type(e).__name__, e)); failed.append((label, kind, n if isinstance(n, Node) else None))
        if path.kind == "ok" and obs:
            bad = 0; ne = 0; td = time.time()
            for d in path.dropped:
                if time.time() - td > case.timeout / 10: ne += 1; continue
                try: A.ev(d)
                except CannotEncode as e:
                    if "identically zero" in str(e): bad += 1
                    else: ne += 1
                except (Blowup, NotImplementedError): ne += 1
            if ne: R["notes"].append("%d of %d removed terms not examined" % (ne, len(path.dropped)))
            if bad: failed.append(("every term the result depends on is defined", None, None))
            elif path.dropped: R["proved"].append("every term that cancels is defined")
        # vacuity / engine validation on witnesses
        for j, w in enumerate(wit):
            if replay(w, "witness"): break
            if j < 3: check_engine(case, path, num, w, nat, R)
        if failed or R["open"]:
            R["open"] += [l for l, _, _ in failed]
            if not R["viol"]: hunt(case, path, fam, num, wit, failed, rng, replay, A, Zc, R, tier)
    except Exception as e:
        if os.environ.get("KSE_DEBUG"): traceback.print_exc()
        R["open"].append("%s: %s" % (type(e).__name__, e))
    R["wall"] = time.time() - t0; R["stats"] = dict(solve.STATS)
    return R

def eliminate(name, path, A, R):
    """solve a root equation that is linear in input `name` for that input"""
    v = dag.var(name)
    for k, rec in path.facts:
        if k != "root" or rec.get("f") is None: continue
        df = dag.Diff(v)(rec["f"])
        if v in dag.variables([df]): continue
        try:
            den = A.ev(df)
            if den.is_zero(): continue
            r = A.neg(A.div(A.ev(dag.subst(rec["f"], {v: dag.ZERO})), den))
        except (Blowup, CannotEncode): continue
        A.memo.clear(); A.inputs[name] = r
        return

def contradicts(p, A, Zc, op):
    """`p op 0` contradicts a path condition literally"""
    g, q = A.prim(p); FL = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
    for pe, oe in Zc.extra:
        if len(pe) != len(q) or oe not in FL: continue
        ge, qe = A.prim(pe)
        if qe == q:
            o1 = op if g > 0 else FL[op]; o2 = oe if ge > 0 else FL[oe]
            if (o1[0] != o2[0]) and (len(o1) == 1 or len(o2) == 1): return True
    return False

def literally(c, n, op):
    """the path condition says n op 0 in so many words (op: >= or <=, > or <)"""
    try: return contradicts(c.Z.signpoly(c.A.ev(n)), c.A, c.Z, {">=": "<", "<=": ">", ">": "<=", "<": ">="}[op])
    except (Blowup, CannotEncode): return False

def decide(b, r, A, Zc, op, timeout=8000):
    """solver verdict on 'path and (r op 0)': unsat = the obligation holds"""
    p = Zc.signpoly(r) if not r.is_zero() else {}
    if p and op != "!=" and contradicts(p, A, Zc, op): return "unsat"
    if b is None:
        if p and op != "!=" and len(p) < 60 and solve.run(Zc.base(Zc.pvars(p), light=True) + [Zc.cmp(p, op)], 500) == "unsat": return "unsat"
        b = Zc.base(Zc.pvars(p))
    return solve.run(b + [Zc.cmp(p, op)], timeout)

def check_engine(case, path, num, w, nat, R):
    """native result on a witness of the path vs the executor's expressions"""
    if num is None or path.kind != "ok" or not path.res[1]: return
    try: f = dag.npfun([x for x in path.res[1]], num.known)
    except (NotImplementedError, KeyError): return
    S = {k: np.array([w[k]]) for k in num.names}
    vals = num.env(S)
    exp = [float(np.asarray(x).reshape(-1)[0]) for x in f(*vals)]
    inp, rc, outs, _ = case.nat_call(nat, w)
    if rc != path.res[0]: R["mismatch"].append("rc %d vs %d at %s" % (rc, path.res[0], inp)); return
    sc = max([abs(x) for x in exp if math.isfinite(x)] + [1e-300])
    bad = [i for i in range(len(exp)) if math.isfinite(exp[i]) and not abs(exp[i] - outs[i]) <= 1e-4 * max(abs(exp[i]), 1e-3 * sc)]
    if bad: R["mismatch"].append("out[%d] native %r executor %r at %s" % (bad[0], outs[bad[0]], exp[bad[0]], inp))
    else: R["validated"] = R.get("validated", 0) + 1

def hunt(case, path, fam, num, wit, failed, rng, replay, A, Zc, R, tier):
    """candidates for unproved obligations, each replayed natively"""
    # 1. z3 model of path and not obligation
    for label, kind, n in failed[:6]:
        if kind is None or n is None: continue
        try:
            r = A.ev(n)
            p = Zc.signpoly(r)
            if len(p) > 80: continue
            op = {"zero": "!=", "pos": "<=", "nonneg": "<"}[kind]
            s, m = solve.run(Zc.base(Zc.pvars(p)) + [Zc.cmp(p, op)], 4000, True)
            if m is not None:
                env = model_inputs(Zc, A, m, case.xin)
                if env and (fam.keep is None or bool(fam.keep(env))) and replay(env, label): return
        except (Blowup, CannotEncode, NotImplementedError): pass
    if all(k is None for _, k, _ in failed):
        try:
            sd = set()
            for p, op in Zc.extra[:12]: sd |= Zc.pvars(p)
            s, m = solve.run(Zc.base(sd), 4000, True)
            if m is not None:
                env = model_inputs(Zc, A, m, case.xin)
                if env and (fam.keep is None or bool(fam.keep(env))) and replay(env, failed[0][0] if failed else R["open"][0]): return
        except (Blowup, CannotEncode, NotImplementedError): pass
    lab = failed[0][0] if failed else (R["open"][0] if R["open"] else "open")
    if num is None:
        raw_replays(case, path, fam, rng, replay, lab, R, 120); return
    # 2. path witnesses ranked by the size of the violated residual
    nodes = [n for _, k, n in failed if n is not None and k is not None]
    cands = []
    try: f = dag.npfun(nodes, num.known) if nodes else None
    except (NotImplementedError, KeyError): f = None
    per = []; bias = const_bias(path, case.xin)
    for rd in range(4 if tier == "quick" else 12):
        S = biased(fam, rng, 3000, bias if rd % 2 else None)
        vals = num.env(S); ok = num.ok(vals)
        if fam.keep is not None: ok &= fam.keep(S)
        idx = np.nonzero(ok)[0]
        if not len(idx): continue
        if f is not None:
            with np.errstate(all="ignore"):
                score = np.zeros(len(idx))
                for (lab, kind, n), col in zip([x for x in failed if x[2] is not None and x[1] is not None], f(*vals)):
                    c = np.broadcast_to(np.asarray(col, float), ok.shape)[idx]
                    c = np.abs(c) if kind == "zero" else np.maximum(-c, 0)
                    score = np.fmax(score, np.nan_to_num(c, nan=0, posinf=0))
            order = np.argsort(-score)
            pick = list(order[:6]) + list(rng.choice(len(idx), min(8, len(idx)), replace=False))
        else: pick = list(rng.choice(len(idx), min(20, len(idx)), replace=False))
        for j in pick: per.append({k: float(S[k][idx[j]]) for k in num.names})
    R["candidates"] = len(per)
    for w in per + wit:
        if replay(w, lab): return
    raw_replays(case, path, fam, rng, replay, lab, R, 30 if per else 120)

def raw_replays(case, path, fam, rng, replay, lab, R, n):
    """members of the family irrespective of the path (the executor's numeric path filter may be off)"""
    t0 = time.time()
    S = biased(fam, rng, 4 * n, const_bias(path, case.xin)); done = 0
    m = fam.keep(S) if fam.keep is not None else np.ones(4 * n, bool)
    for j in np.nonzero(m)[0]:
        if done >= n or time.time() - t0 > 60: break
        done += 1
        if replay({k: float(S[k][j]) for k in case.xin if isinstance(k, str)}, lab): return True

# ------------------------------------------------------------------ property driver
_G = {}
def _worker(i): return run_job(_G["jobs"][i])

class Runner:
    def __init__(self, pid, title, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed; self.t0 = time.time(); self.title = title
        self.results = []; self.calls = {}; self.stubs = set(); self.npaths = {}; self.pruned = {}; self.extra_notes = []; self.bounds = []
        self.direct = []; self.own_stats = {}
        self.budget = float(os.environ.get("KSE_BUDGET", "780" if tier == "quick" else "870"))
    def setup(self, files, key="core", native=(), extra=()):
        """native: further sources for the native build only (their functions have contracts in the IR)"""
        lls, so = build.both(files, files + [f for f in native if f not in files], name=key, extra=extra)
        self.mods = [ir.Module(open(f).read(), f) for f in lls]
        self.nat = Native(so)
        self.E = symex.Engine(self.mods)
        self.E.debug = bool(os.environ.get("KSE_DEBUG"))
    def explore(self, case):
        self.E.root_mode = case.root_mode
        self.E.feasible = Pruner(case) if case.prune else None
        ps = []
        for p in self.E.explore(make_thunk(self.mods, case), case.maxpaths, case.explore_time): ps.append(p)
        for x in getattr(self.E, "init_failed", []):
            t = "static initialiser only partly run: " + x
            if t not in self.extra_notes: self.extra_notes.append(t)
        for k, v in self.E.calls_seen.items(): self.calls[k] = self.calls.get(k, 0) + (v if isinstance(v, int) else 1)
        self.stubs |= self.E.stub_used
        self.npaths[case.name] = len(ps)
        if case.prune: self.pruned[case.name] = "%d of %d branch directions refuted while exploring" % (self.E.feasible.cut, self.E.feasible.n)
        self.E.feasible = None
        return ps
    def run(self, cases):
        jobs = []
        only = os.environ.get("KSE_CASE")
        for c in cases:
            if only and c.name not in only.split(","): continue
            try: ps = self.explore(c)
            except Exception as e:
                if os.environ.get("KSE_DEBUG"): traceback.print_exc()
                self.extra_notes.append("%s: exploration failed: %s %s" % (c.name, type(e).__name__, e)); 
                ps = [symex.Path("unsupported", str(e), [], self.E)]
            if not ps: ps = [symex.Path("unsupported", "no path", [], self.E)]
            for i, p in enumerate(ps):
                for f in c.families:
                    jobs.append((c, i, p, f, self.nat, self.seed, self.tier))
        _G["jobs"] = jobs
        self.pool(len(jobs))
    def pool(self, n):
        left = self.budget - (time.time() - self.t0)
        pend = {}
        todo = list(range(n)); res = {}; known = load_known(self.pid)
        while todo or pend:
            while todo and len(pend) < NC:
                i = todo.pop(0)
                r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        import resource; resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                        out = _worker(i)
                        with os.fdopen(w, "w") as fh: fh.write(json.dumps(out, default=str))
                    except BaseException as e:
                        if os.environ.get("KSE_DEBUG"): traceback.print_exc()
                    os._exit(0)
                os.close(w); pend[pid] = (i, r, [], time.time())
            import select
            rd, _, _ = select.select([v[1] for v in pend.values()], [], [], 0.5)
            for pid, (i, r, buf, ts) in list(pend.items()):
                lim = _G["jobs"][i][0].timeout * 2 + 60
                if r in rd:
                    b = os.read(r, 1 << 20)
                    if b: buf.append(b); continue
                    os.close(r); os.waitpid(pid, 0); del pend[pid]
                    try: res[i] = json.loads(b"".join(buf))
                    except ValueError: res[i] = self.lost(i, "job died")
                elif time.time() - ts > lim or time.time() - self.t0 > self.budget:
                    try: os.kill(pid, 9)
                    except OSError: pass
                    os.waitpid(pid, 0); os.close(r); del pend[pid]; res[i] = self.lost(i, "time limit")
            if todo and not os.environ.get("KSE_ALL") and sum(1 for r in res.values() if any(not any(k in signature(v) for k in known) for v in r["viol"])) >= 8:
                for i in todo: res[i] = self.lost(i, "not started: violations already found")
                todo = []
            if time.time() - self.t0 > self.budget:
                for i in todo: res[i] = self.lost(i, "not started: time budget")
                todo = []
        self.results += [res[i] for i in sorted(res)]
    def lost(self, i, why):
        c, pi, p, f = _G["jobs"][i][:4]
        self.lostn = getattr(self, "lostn", 0) + 1
        return {"case": c.name, "path": pi, "family": f.name, "kind": p.kind, "proved": [], "open": [why], "viol": [], "notes": [], "feasible": True,
                "witness": 0, "replays": 0, "mismatch": [], "stats": {}, "wall": 0}
    # direct obligation (python-side z3 query), viol: replay dict or None
    def obligation(self, case, label, ok, viol=None, note=None):
        self.results.append({"case": case, "path": 0, "family": "-", "kind": "ok", "proved": [label] if ok else [], "open": [] if ok else [label],
                             "viol": [viol] if viol else [], "notes": [note] if note else [], "feasible": True, "witness": 0, "replays": 0, "mismatch": [], "stats": {}, "wall": 0})
    def finish(self):
        known = load_known(self.pid)
        V = [v for r in self.results for v in r["viol"]]
        new = []; seen = set()
        for v in V:
            sig = signature(v)
            if any(k in sig for k in known):
                if sig not in seen: print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, sig, v["why"]))
                seen.add(sig)
            else: new.append(v)
        proved = sum(len(r["proved"]) for r in self.results)
        openn = sum(len(r["open"]) for r in self.results)
        S = dict(solve.STATS) if not self.results else {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}
        for r in self.results:
            for k, x in (r.get("stats") or {}).items(): S[k] = S.get(k, 0) + x
        for k, x in self.own_stats.items(): S[k] = S.get(k, 0) + x
        feas = [r for r in self.results if r["feasible"]]
        cov = {"explanation": EXPL, "obligations": proved + openn, "discharged": proved,
               "checker_cmd": "z3 %s (python API, tactic qfnra-nlsat) via %s" % (solve.z3.get_version_string(), "python3-vt /verif/check.py %s" % self.pid),
               "trusted_base": ["clang-18 -O1 LLVM IR of /repo's current sources", "kse symbolic executor (kse/symex.py) and libm/BLAS/LAPACK/boost-root contracts (kse/extmodels.py, harness/shadow)",
                                "kse/alg.py normal form modulo defining relations", "z3", "real-number semantics of double arithmetic"],
               "functions_encoded": sorted(demangle(k) for k in self.calls if "kep3" in k or k.startswith("h_"))[:200],
               "stubs": sorted(self.stubs), "paths": self.npaths, "pruned": self.pruned, "jobs": len(self.results), "feasible_jobs": len(feas),
               "jobs_with_numeric_witness": sum(1 for r in feas if r["witness"]), "native_replays": sum(r["replays"] for r in self.results),
               "executor_validated_against_native": sum(r.get("validated", 0) for r in self.results),
               "solver_queries": S["queries"], "solver_unsat": S["unsat"], "solver_sat": S["sat"], "solver_unknown": S["unknown"],
               "solver_time_s": round(S["time"], 2), "bounds": self.bounds,
               "open_obligations": sorted({"%s/%s/p%d: %s" % (r["case"], r["family"], r["path"], str(l)[:160]) for r in self.results for l in r["open"]})[:60],
               "executor_mismatches": sorted({"%s p%d %s" % (r["case"], r["path"], m) for r in self.results for m in r["mismatch"]})[:20],
               "notes": (self.extra_notes + sorted({"%s/%s/p%d: %s" % (r["case"], r["family"], r["path"], str(l)[:200]) for r in self.results for l in r["notes"]}))[:40],
               "samples": sorted({"%s/%s: %s" % (r["case"], r["family"], l) for r in self.results for l in r["proved"]})[:40]}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
              "assumptions": self.bounds}
        os.makedirs(os.path.join(os.environ.get("KSE_EVID", ROOT), "evidence"), exist_ok=True)
        rp = None
        if new:
            d = os.path.join(os.environ.get("KSE_EVID", ROOT), "evidence", "replay"); os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s.json" % self.pid)
            json.dump({"property": self.pid, "violations": new[:20]}, open(rp, "w"), indent=1)
        json.dump(ev, open(os.path.join(os.environ.get("KSE_EVID", ROOT), "evidence", self.pid + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d open, %d jobs (%d feasible), %d solver queries, %.1f s" %
              (self.pid, proved + openn, proved, openn, len(self.results), len(feas), S["queries"], time.time() - self.t0))
        oe = [(r["case"], x) for r in self.results for x in r["notes"] if str(x).startswith("oracle: ")]
        if oe: print("note: %d oracle errors, first: %s %s" % (len(oe), oe[0][0], str(oe[0][1])[:200]))
        if os.environ.get("KSE_VERBOSE"):
            for r in self.results:
                print("  ", r["case"], r["family"], "p%d" % r["path"], r["kind"], "feas" if r["feasible"] else "INFEAS", "wit=%d" % r["witness"], "proved=%d" % len(r["proved"]),
                      "open=%s" % [str(x)[:90] for x in r["open"]][:5], "val=%d" % r.get("validated", 0), "mm=%s" % [m[:int(os.environ.get("KSE_W","150"))] for m in r["mismatch"]][:2], "%.1fs" % r.get("wall", 0), [str(x)[:120] for x in r["notes"]][:3])
        if new:
            v = new[0]
            print("  %s [%s] inputs=%s rc=%s: %s" % (v["case"], v["label"], v["inputs"], v["rc"], v["why"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0

EXPL = ("Solver-based checking: the functions below are executed symbolically from the LLVM IR of /repo's current sources; every path's "
        "outputs are exact symbolic expressions over real-valued inputs. Each obligation (identity, sign or truth) is decided for every input of the "
        "stated family on that path by exact rewriting modulo the defining relations plus z3 (unsat of path and not obligation). Unproved obligations are "
        "listed as open and searched for counterexamples, which count only when a replay of the real code confirms them.")
def demangle(k):
    try:
        if k in _dem: return _dem[k]
        import subprocess
        _dem[k] = subprocess.run(["c++filt", "-p", k], capture_output=True, text=True).stdout.strip() or k
    except Exception: _dem[k] = k
    return _dem[k]
_dem = {}

def signature(v): return "%s:%s" % (v["case"], v["label"])

def load_known(pid):
    out = []
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known:") and ("property=%s " % pid) in l:
                for w in l.split():
                    if w.startswith("sig="): out.append(w[4:])
    except OSError: pass
    return out
