"""Symbolic execution of pykep's Python modules: the real functions run on symbolic numbers (operators build the expression DAG, a
comparison is a decision of the executor); numpy works on arrays of them; the compiled core is a stand-in with uninterpreted results."""
import sys, types, os, re, math, zlib, importlib.util, warnings
warnings.filterwarnings("ignore", category=SyntaxWarning)
import numpy as np
import dag, symex, build
from prop import *
ONE, ZERO, TWO = dag.ONE, dag.ZERO, dag.TWO

class S:
    """a symbolic float"""
    __slots__ = ("n",)
    E = None
    def __init__(s, n): s.n = n
    def _b(f):
        def g(s, o):
            x = nod(o)
            return NotImplemented if x is None else S(f(s.n, x))
        return g
    __add__ = _b(lambda a, b: a + b); __radd__ = _b(lambda a, b: b + a); __sub__ = _b(lambda a, b: a - b); __rsub__ = _b(lambda a, b: b - a)
    __mul__ = _b(lambda a, b: a * b); __rmul__ = _b(lambda a, b: b * a); __truediv__ = _b(lambda a, b: a / b); __rtruediv__ = _b(lambda a, b: b / a)
    def __neg__(s): return S(-s.n)
    def __pos__(s): return s
    def __abs__(s): return s if s >= 0 else -s
    def __pow__(s, k):
        if isinstance(k, (int, np.integer)): return S(s.n ** int(k))
        return S(dag.pow_(s.n, nod(k)))
    def _c(op, sw):
        def g(s, o):
            x = nod(o)
            if x is None: return NotImplemented
            c = dag.cmp(op, x, s.n) if sw else dag.cmp(op, s.n, x)
            return bool(S.E.decide(c if isinstance(c, dag.Node) else int(c)))
        return g
    __lt__ = _c("lt", 0); __le__ = _c("le", 0); __gt__ = _c("lt", 1); __ge__ = _c("le", 1); __eq__ = _c("eq", 0)
    def __ne__(s, o):
        r = s.__eq__(o)
        return r if r is NotImplemented else not r
    def __hash__(s): return hash(s.n.id)
    def __bool__(s): return s != 0
    def __copy__(s): return s
    def __deepcopy__(s, m): return s
    def __float__(s): raise symex.Unsupported("float() of a symbolic number")
    def sqrt(s): return S(dag.sqrt(s.n))
    def log(s): return S(s.n.args[0] if s.n.op == "exp" else dag.log(s.n))
    def exp(s): return S(dag.exp(s.n))
    def sin(s): return S(dag.sin(s.n))
    def cos(s): return S(dag.cos(s.n))
    def arccos(s): return S(dag.acos(s.n))
    acos = arccos
    def conjugate(s): return s
    def square(s): return s * s
    def floor(s): return S(dag.uf("floor", [s.n]))
    __floor__ = floor
    def trunc(s): return S(dag.uf("trunc", [s.n]))
    __trunc__ = trunc
    def __floordiv__(s, o): return (s / o).floor()
    def __mod__(s, o): return s - (s / o).floor() * o
    def __divmod__(s, o): q = (s / o).floor(); return q, s - q * o
def nod(o):
    if isinstance(o, S): return o.n
    if isinstance(o, dag.Node): return o
    if isinstance(o, (bool, np.bool_)): return dag.const(int(o))
    if isinstance(o, (int, np.integer)): return dag.const(int(o))
    if isinstance(o, (float, np.floating)): return dag.const(float(o))
    return None

# ------------------------------------------------------------------ numpy on arrays of symbolic numbers
def issym(x):
    try: return np.asarray(x, dtype=object).dtype == object and any(isinstance(e, S) for e in np.asarray(x, dtype=object).reshape(-1))
    except Exception: return False
def norm(x, *a, **k):
    if not issym(x): return np.linalg.norm(x, *a, **k)
    if a or k: raise symex.Unsupported("norm with options")
    t = 0
    for e in np.asarray(x, dtype=object).reshape(-1): t = t + e * e
    return t.sqrt() if isinstance(t, S) else math.sqrt(t)
class _Lin(types.ModuleType):
    def __getattr__(s, a): return getattr(np.linalg, a)
class _Np(types.ModuleType):
    def __getattr__(s, a): return getattr(np, a)
    @staticmethod
    def zeros(shape, dtype=None, **k): return np.zeros(shape, dtype=object if S.E is not None and dtype in (None, float) else dtype, **k)
    @staticmethod
    def empty(shape, dtype=None, **k): return _Np.zeros(shape, dtype)
    @staticmethod
    def ones(shape, dtype=None, **k): return _Np.zeros(shape, dtype) + 1
    @staticmethod
    def asarray(x, dtype=None, **k): return np.asarray(x, dtype=object if issym(x) else dtype, **k)
    @staticmethod
    def array(x, dtype=None, **k): return np.array(x, dtype=object if issym(x) else dtype, **k)
    @staticmethod
    def maximum(a, b): return np.maximum(a, b) if not (isinstance(a, S) or isinstance(b, S)) else (b if a < b else a)
    @staticmethod
    def minimum(a, b): return np.minimum(a, b) if not (isinstance(a, S) or isinstance(b, S)) else (a if a < b else b)
    @staticmethod
    def _math(nm, x):
        return getattr(x, nm)() if isinstance(x, S) else getattr(np, nm)(x)
    @staticmethod
    def linspace(a, b, n=50, **k):
        if not (issym([a]) or issym([b])) or k: return np.linspace(a, b, n, **k)
        return NP.array([a] + [a + (b - a) * i / (n - 1) for i in range(1, n)])
    @staticmethod
    def clip(x, lo, hi, **k): return np.clip(x, lo, hi, **k) if not isinstance(x, S) else (lo if x < lo else hi if x > hi else x)
    @staticmethod
    def abs(x): return abs(x) if not isinstance(x, (list, tuple)) else np.abs(np.array(x, dtype=object if issym(x) else None))
    absolute = fabs = abs
for _n in ("sqrt", "log", "exp", "sin", "cos", "square", "floor", "trunc", "arccos"): setattr(_Np, _n, staticmethod(lambda x, _n=_n: _Np._math(_n, x)))
class _Math(types.ModuleType):
    def __getattr__(s, a):
        f = getattr(math, a)
        if not callable(f): return f
        return lambda *x: getattr(x[0], a)() if len(x) == 1 and isinstance(x[0], S) and hasattr(S, a) else f(*x)
LIN = _Lin("numpy.linalg"); LIN.norm = norm
NP = _Np("numpy"); NP.linalg = LIN
MATH = _Math("math"); MATH.fabs = abs
MATH.pow = lambda a, b: a ** b
MATH.fsum = lambda x: sum(x)

# ------------------------------------------------------------------ the compiled core's stand-in
def consts():
    t = open(build.REPO + "/include/kep3/core_astro/constants.hpp").read(); d = {}
    for n, e in re.findall(r"constexpr double (\w+)\s*=\s*([^;]+);", t):
        try: d[n] = float(eval(e.replace("std::", "").replace("numbers::pi", "pi"), {"pi": math.pi}, d))
        except Exception: pass
    return d
def uf(name, args):
    """uninterpreted when anything is symbolic, else its numeric meaning"""
    if any(isinstance(a, S) for a in args): return S(dag.uf(name, [nod(a) for a in args]))
    return float(num(name)(*[float(a) for a in args]))
COEF = {}
def coef(name, n):
    if (name, n) not in COEF:
        r = np.random.default_rng(zlib.crc32(name.encode())); COEF[name, n] = (r.uniform(0.4, 1.2, n) * r.choice([-1, 1], n), r.uniform(0.3, 1.1, n), r.uniform(0, 6, n))
    return COEF[name, n]
def num(name):
    """a smooth function of its name; Gname_j is its derivative with respect to argument j"""
    if dict.__contains__(dag.UFNUM, name): return dict.__getitem__(dag.UFNUM, name)
    m = re.match(r"G(.+)_(\d+)$", name)
    if m:
        base, j = m.group(1), int(m.group(2))
        def f(*a):
            A, w, b = coef(base, len(a)); return A[j] * w[j] * np.cos(w[j] * a[j] + b[j])
    else:
        def f(*a):
            A, w, b = coef(name, len(a)); t = 0.3
            for k in range(len(a)): t = t + A[k] * np.sin(w[k] * a[k] + b[k])
            return t
    dag.UFNUM[name] = f
    return f
dag.UFNUM["floor"] = np.floor; dag.UFNUM["trunc"] = np.trunc
class Ufnum(dict):
    """every uninterpreted function has a numeric meaning"""
    def __contains__(s, k):
        if not dict.__contains__(s, k): num(k)
        return True
    def __getitem__(s, k):
        if not dict.__contains__(s, k): num(k)
        return dict.__getitem__(s, k)
class Epoch:
    class julian_type: MJD2000 = 0; MJD = 1; JD = 2
    def __init__(s, x=0., t=0):
        s.mjd2000 = x.mjd2000 if isinstance(x, Epoch) else x if t == 0 else x - (51544. if t == 1 else 2451544.5)
    def __add__(s, d): return Epoch(s.mjd2000 + d)
    __radd__ = __add__
    def __sub__(s, d): return s.mjd2000 - d.mjd2000 if isinstance(d, Epoch) else Epoch(s.mjd2000 - d)
    mjd = property(lambda s: s.mjd2000 + 51544.); jd = property(lambda s: s.mjd2000 + 2451544.5)
class Planet:
    """eph and the parameters: any planet"""
    def __init__(s, u=None, i=0, mu=None, mus=None, vel=None): s.i = i; s.mu = mu; s.mus = mus; s.vel = vel; s.u = u
    def eph(s, t):
        if isinstance(t, Epoch): t = t.mjd2000
        a = [t, s.mu]
        return [uf("eph%d_%d" % (s.i, k), a) for k in range(3)], [uf("eph%d_%d" % (s.i, 3 + k), a) for k in range(3)]
    def get_mu_central_body(s): return s.mu
    def get_mu_self(s): return s.mus
    def get_radius(s): return uf("rad", [float(s.i)])
    def get_safe_radius(s): return uf("srad", [float(s.i)])
    def get_name(s): return "planet %d" % s.i
class Wrapped:
    """pk.planet(u) of a Python user-defined planet"""
    def __init__(s, u): s.u = u
    def eph(s, t): return s.u.eph(t.mjd2000 if isinstance(t, Epoch) else t)
def planet(u=None, *a, **k): return Planet(u) if isinstance(u, str) or u is None else Wrapped(u)
class Lambert:
    def __init__(s, r0=None, r1=None, tof=None, mu=None, cw=False, multi_revs=0):
        s.r0, s.r1, s.tof, s.mu, s.cw = r0, r1, tof, mu, cw
        a = list(r0) + list(r1) + [tof, mu]; tag = "c" if cw else ""
        s.Nmax = multi_revs
        s.v0 = [[uf("l%sv0_%d_%d" % (tag, i, k), a) for k in range(3)] for i in range(2 * multi_revs + 1)]
        s.v1 = [[uf("l%sv1_%d_%d" % (tag, i, k), a) for k in range(3)] for i in range(2 * multi_revs + 1)]
def propagate_lagrangian(rv=None, tof=None, mu=None, stm=False):
    """Kepler's flow, a one-parameter group (C05): a flow of a flow is the flow of the sum of the times"""
    if stm: raise symex.Unsupported("state transition matrix not in the stand-in")
    x = list(rv[0]) + list(rv[1]); m = nod(mu)
    if issym(x) and all(isinstance(e, S) and e.n.op == "uf" and e.n.val == "kp%d" % k and e.n.args == x[0].n.args for k, e in enumerate(x)) and x[0].n.args[7] is m:
        o = [S(q) for q in x[0].n.args]; x = o[:6]; tof = o[6] + tof
    if isinstance(tof, S) and tof.n.op == "const" and not tof.n.val or not isinstance(tof, S) and tof == 0: return list(x[:3]), list(x[3:])
    a = x + [tof, mu]
    return [uf("kp%d" % k, a) for k in range(3)], [uf("kp%d" % (3 + k), a) for k in range(3)]
def _flow(k):
    # numbers: a harmonic oscillator has the same group property
    def f(*a):
        w = np.sqrt(abs(a[7])) + 0.1; c, s = np.cos(w * a[6] / 1e5), np.sin(w * a[6] / 1e5)
        return a[k] * c + a[k + 3] * s / w if k < 3 else a[k] * c - a[k - 3] * w * s
    return f
for _i in range(6): dag.UFNUM["kp%d" % _i] = _flow(_i)
def fb_dv(v_rel_in=None, v_rel_out=None, p=None, *a, **k):
    return uf("fbdv%d" % p.i, list(v_rel_in) + list(v_rel_out))
class Leg:
    """the interface and the contract of leg.sims_flanagan (C17-C20)"""
    def __init__(s, *a, **k):
        s.rvs = [[1., 0., 0.], [0., 1., 0.]]; s.ms = 1.; s._th = [0.] * 6; s.rvf = [[0., 1., 0.], [-1., 0., 0.]]; s.mf = 1.
        s.tof = 1.5707; s.max_thrust = 1.; s.isp = 1.; s.mu = 1.; s.cut = 0.5
    def __setattr__(s, k, v):
        if k == "throttles":
            v = list(v)
            if len(v) == 0 or len(v) % 3: raise RuntimeError("throttles")
            k = "_th"
        elif k in ("rvs", "rvf"): v = [list(v[0]), list(v[1])]
        elif k not in ("ms", "mf", "tof", "max_thrust", "isp", "mu", "cut", "_th"): raise AttributeError(k)
        object.__setattr__(s, k, v)
    throttles = property(lambda s: s._th)
    nseg = property(lambda s: len(s._th) // 3)
    def args(s): return leg_args(s.rvs, s.ms, s._th, s.rvf, s.mf, s.tof, s.max_thrust, s.isp, s.mu, s.cut)
    def compute_mismatch_constraints(s): return mismatch(s.args(), s.nseg)
    def compute_throttle_constraints(s):
        u = s._th; return [u[3 * i] * u[3 * i] + u[3 * i + 1] * u[3 * i + 1] + u[3 * i + 2] * u[3 * i + 2] - 1. for i in range(s.nseg)]
    def compute_mc_grad(s):
        a, n = s.args(), s.nseg; T = 14 + 3 * n
        def g(i, j): return 0. if i == 6 and (j < 6 or 7 + 3 * n <= j < 13 + 3 * n) else uf("Gmc%d_%d_%d" % (n, i, j), reduced(a, n) if i == 6 else a)
        def arr(js): return NP.array([[g(i, j) for j in js] for i in range(7)])
        return arr(range(7)), arr(range(7 + 3 * n, T)), arr(list(range(7, 7 + 3 * n)) + [T])
    def compute_tc_grad(s):
        n = s.nseg; m = [[0.] * (3 * n) for _ in range(n)]
        for i in range(n):
            for k in range(3): m[i][3 * i + k] = 2 * s._th[3 * i + k]
        return NP.array(m)
def leg_args(rvs, ms, th, rvf, mf, tof, Tm, isp, mu, cut): return list(rvs[0]) + list(rvs[1]) + [ms] + list(th) + list(rvf[0]) + list(rvf[1]) + [mf, tof, Tm, isp, mu, cut]
def mismatch(a, n):
    # the mass does not depend on positions and velocities: those arguments are left out
    return [uf("mc%d_%d" % (n, i), a) for i in range(6)] + [uf("mc%d_6" % n, reduced(a, n))]
def reduced(a, n): return [0. if j < 6 or 7 + 3 * n <= j < 13 + 3 * n else v for j, v in enumerate(a)]
def ufrule(n, d):
    m = re.match(r"mc(\d+)_(\d+)$", n.val)
    r = ZERO
    if m:
        for j, x in enumerate(d):
            if x is not ZERO: r = r + dag.uf("G%s_%d" % (n.val, j), list(n.args)) * x
        return r
    m = re.match(r"eph(\d+)_(\d)$", n.val)
    if m:
        i, k = int(m.group(1)), int(m.group(2)); a = list(n.args)
        if d[1] is not ZERO: raise NotImplementedError("d/dmu")
        if d[0] is ZERO: return ZERO
        if k < 3: return dag.uf("eph%d_%d" % (i, k + 3), a) * d[0] * dag.const(86400)
        p = [dag.uf("eph%d_%d" % (i, q), a) for q in range(3)]; R = dag.sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2])
        return -(a[1] * p[k - 3] / (R * R * R)) * d[0] * dag.const(86400)
    raise NotImplementedError(n.val)
for _i in range(6):
    def _mk(i):
        R = 0.8 + 0.35 * i; inc = 0.3 + 0.2 * i; ph = 0.7 * i
        def at(k):
            def f(t, mu):
                w = np.sqrt(mu / R ** 3); th = w * t * 86400. + ph
                return [R * np.cos(th), R * np.sin(th) * np.cos(inc), R * np.sin(th) * np.sin(inc),
                        -R * w * np.sin(th), R * w * np.cos(th) * np.cos(inc), R * w * np.cos(th) * np.sin(inc)][k]
            return f
        for k in range(6): dag.UFNUM["eph%d_%d" % (i, k)] = at(k)
    _mk(_i)

def stub():
    pk = types.ModuleType("pykep"); pk.__path__ = []
    for k, v in consts().items(): setattr(pk, k, v)
    class Any(types.ModuleType):
        def __getattr__(s, a):
            if a.startswith("__"): raise AttributeError(a)
            return lambda *x, **k: "body"
    pk.udpla = Any("pykep.udpla"); pk.plot = Any("pykep.plot")
    pk.epoch = Epoch; pk.planet = planet; pk.lambert_problem = Lambert; pk.fb_dv = fb_dv
    pk.propagate_lagrangian = propagate_lagrangian
    pk.leg = types.ModuleType("pykep.leg"); pk.leg.sims_flanagan = Leg
    return pk
class _Int(type):
    def __instancecheck__(c, x): return isinstance(x, int)
    def __call__(c, x=0, *a): return S(dag.uf("trunc", [x.n])) if isinstance(x, S) else int(x, *a)
class symint(int, metaclass=_Int): pass
def load(rel, name=None, pk=None, extra={}):
    """the module of /repo executed with numpy, math and pykep replaced by the stand-ins"""
    pk = pk or stub(); keep = {}
    rep = {"pykep": pk, "numpy": NP, "numpy.linalg": LIN, "math": MATH, "pykep.leg": pk.leg, "pykep.udpla": pk.udpla, "pykep.plot": pk.plot}
    rep.update(extra)
    for k, v in rep.items(): keep[k] = sys.modules.get(k); sys.modules[k] = v
    try:
        f = os.path.join(build.REPO, rel)
        spec = importlib.util.spec_from_file_location(name or "pykep_" + re.sub(r"\W", "_", rel), f)
        m = importlib.util.module_from_spec(spec); m.int = symint; m.print = lambda *a, **k: None; spec.loader.exec_module(m)
    except Exception as e: raise build.BuildError("%s: %s %s" % (rel, type(e).__name__, e))
    finally:
        for k, v in keep.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return m

# ------------------------------------------------------------------ cases
class Sym:
    """operations of a reference computed along with the code"""
    sym = True
    def __init__(s, E): s.E = E
    def max0(s, a): return a if a > 0 else 0.
    def sqrt(s, a): return NP.sqrt(a)
    def grads(s, f, x, fx):
        """derivative of every value of f with respect to every entry of x"""
        out = []
        for j in range(len(x)):
            D = dag.Diff(x[j].n, ufrule=ufrule); out.append([S(D(nod(v))) for v in fx])
        return [[out[j][i] for j in range(len(x))] for i in range(len(fx))]
class Numb:
    sym = False
    def max0(s, a): return max(a, 0.)
    def sqrt(s, a): return math.sqrt(a)
    def grads(s, f, x, fx):
        out = []
        for j in range(len(x)):
            h = 1e-4 * (abs(x[j]) + 1e-5)
            def at(k): y = list(x); y[j] += k * h; return np.array([float(v) for v in f(y)])
            out.append(list((8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)))
        return [[out[j][i] for j in range(len(x))] for i in range(len(fx))]
EXC = {ValueError: 1, IndexError: 3, ZeroDivisionError: 4, NameError: 5, KeyError: 6, RuntimeError: 7, AssertionError: 8}
class PyCase(Case):
    """pyfun(ops, inputs) -> (what the code says, what it should say, labels)"""
    def __init__(s, name, pyfun, inputs, families, tol=1e-8, dom=None, **kw):
        super().__init__(name, name, inputs, 0, families, s.pspec, s.poracle, **kw)
        s.pyfun = pyfun; s.tol = tol; s.labels = None; s.dom = dom
    def thunk(s, E):
        S.E = E
        try:
            code, ref, lab = s.pyfun(Sym(E), [S(dag.var(n)) for n in s.inputs])
            s.labels = lab
            if len(code) != len(ref): return 50, []
            z = [nod(v) for v in code] + [nod(v) for v in ref]
            E.facts.append(("labels", lab))
            return 0, z
        except tuple(EXC) + (TypeError, AttributeError, OverflowError) as e:
            if type(e) not in EXC: raise symex.Unsupported("%s: %s" % (type(e).__name__, e))
            if os.environ.get("KSE_DEBUG"): import traceback; traceback.print_exc()
            E.facts.append(("labels", [str(e)]))
            return EXC.get(type(e), 9), []
        finally: S.E = None
    def nat_call(s, nat, env):
        inp = [env[n] for n in s.inputs]
        if s.dom and not s.dom(env): return inp, 0, [], [0, 0]
        try:
            code, ref, lab = s.pyfun(Numb(), [float(x) for x in inp]); s.labels = lab
            rc, outs = (0, [float(v) for v in code] + [float(v) for v in ref]) if len(code) == len(ref) else (50, [])
        except Exception as e: rc, outs = EXC.get(type(e), -1), []; s.err = "%s: %s" % (type(e).__name__, e)
        return inp, rc, outs, [0, 0]
    def pspec(s, c):
        lab = dict((k, v) for k, v in c.path.facts if k in ("labels",)).get("labels", [])
        if c.kind == "throw" or c.rc: yield Truth("no exception (%s)" % (lab or c.throws), False); return
        n = len(c.o) // 2
        for i in range(n):
            a, b = c.o[i], c.o[n + i]
            if a is b: yield Truth(lab[i], True)
            elif a is dag.NAN or b is dag.NAN: yield Truth(lab[i], False)
            else: yield Zero(lab[i], a - b)
    def poracle(s, inp, rc, o):
        if s.dom and not s.dom(dict(zip(s.inputs, inp))): return None
        if rc == 50: return "%s: wrong number of values" % s.name
        if rc == -1: return None                # not provided by the stand-in: undecided
        if rc: return "%s: exception %s" % (s.name, getattr(s, "err", rc))
        n = len(o) // 2
        sc = max([abs(v) for v in o[n:]] + [1e-300]) if n else 1
        for i in range(n):
            if not math.isfinite(o[n + i]) and not math.isfinite(o[i]): continue
            if not (abs(o[i] - o[n + i]) <= s.tol * max(abs(o[n + i]), 1e-4 * sc)): return "%s: %s is %.10g, should be %.10g" % (s.name, s.labels[i], o[i], o[n + i])
def setup(R, files):
    dag.UFNUM = Ufnum(dag.UFNUM)
    R.mods = []; R.nat = None; R.E = symex.Engine([]); R.E.debug = bool(os.environ.get("KSE_DEBUG")); R.E.snap = ([], {}, {}, {})
    for f in files: R.calls["kep3 (Python source) " + f] = 1
    R.stubs.add("compiled pykep core: uninterpreted functions with the contracts of C05, C13, C17-C20, C22, C24")
    R.bounds.append("the Python functions are executed on symbolic numbers (numpy on object arrays); real arithmetic")
