"""Hash-consed real-valued expression DAG used by the symbolic executor.

Leaves are symbolic inputs ('var') and constants.  A constant keeps the *exact*
value of the double that appears in the IR (as a Fraction); alg.py decides
whether that double is the rounding of a simple rational or of a rational
multiple of pi.
"""
from fractions import Fraction
import math, struct

class Node:
    __slots__ = ("op", "args", "val", "id", "__weakref__")
    def __init__(self, op, args, val, id):
        self.op = op; self.args = args; self.val = val; self.id = id
    def __repr__(self):
        return show(self)
    # operator sugar (used by spec code written in Python)
    def __add__(s, o): return add(s, lift(o))
    __radd__ = lambda s, o: add(lift(o), s)
    def __sub__(s, o): return sub(s, lift(o))
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    __rmul__ = lambda s, o: mul(lift(o), s)
    def __truediv__(s, o): return div(s, lift(o))
    def __rtruediv__(s, o): return div(lift(o), s)
    def __neg__(s): return neg(s)
    def __pow__(s, k):
        if isinstance(k, int):
            return powi(s, k)
        return pow_(s, lift(k))

_table = {}
_nodes = []

def reset():
    """forget everything (only between independent properties)"""
    _table.clear(); _nodes.clear()
    _init()

def mk(op, args=(), val=None):
    key = (op, tuple(a.id for a in args), val)
    n = _table.get(key)
    if n is None:
        n = Node(op, tuple(args), val, len(_nodes))
        _table[key] = n
        _nodes.append(n)
    return n

def const(v):
    if isinstance(v, float):
        if v != v: return NAN
        if v in (math.inf, -math.inf): return INF if v > 0 else NINF
        v = Fraction(v)
    elif not isinstance(v, Fraction):
        v = Fraction(v)
    return mk("const", (), v)

def var(name): return mk("var", (), name)

def _init():
    global ZERO, ONE, NAN, INF, NINF, PI, MONE, TWO, HALF
    ZERO = const(0); ONE = const(1); MONE = const(-1); TWO = const(2); HALF = const(Fraction(1, 2))
    NAN = mk("nan"); INF = mk("inf"); NINF = mk("ninf")
    PI = mk("pi")
_init()

def lift(x):
    if isinstance(x, Node): return x
    return const(x)

def special(n): return n.op in ("nan", "inf", "ninf")

def add(a, b):
    if a.op == "const":
        if b.op == "const": return const(a.val + b.val)
        if a.val == 0: return b
    elif b.op == "const" and b.val == 0: return a
    if a is NAN or b is NAN: return NAN
    if special(a): return a if not special(b) or a is b else NAN
    if special(b): return b
    if b.op == "neg":
        if b.args[0] is a: return ZERO
        return mk("sub", (a, b.args[0]))
    if a.op == "neg":
        return sub(b, a.args[0])
    if a.id > b.id: a, b = b, a
    return mk("add", (a, b))

# terms that simplification removes (0 * x, x - x, 0 / x): a job checks that they are defined
DROP = {}
def drop(x):
    if x.op not in ("const", "var"): DROP[x.id] = x
def sub(a, b):
    if a is b and not special(a):
        if a.op not in ("const", "var"): drop(a)
        return ZERO
    if b.op == "const":
        if a.op == "const": return const(a.val - b.val)
        if b.val == 0: return a
        return add(a, const(-b.val))
    if a.op == "const" and a.val == 0: return neg(b)
    if a is NAN or b is NAN: return NAN
    if special(a) or special(b): return add(a, neg(b))
    if b.op == "neg": return add(a, b.args[0])
    return mk("sub", (a, b))

def neg(a):
    if a.op == "const": return const(-a.val)
    if a.op == "neg": return a.args[0]
    if a.op == "sub": return mk("sub", (a.args[1], a.args[0]))
    if a is NAN: return a
    if a is INF: return NINF
    if a is NINF: return INF
    return mk("neg", (a,))

def mul(a, b):
    if a.op == "const":
        if b.op == "const": return const(a.val * b.val)
        if a.val == 0:
            if special(b): return NAN
            if b.op not in ("const", "var"): drop(b)
            return ZERO
        if a.val == 1: return b
        if a.val == -1: return neg(b)
    elif b.op == "const":
        return mul(b, a)
    if a is NAN or b is NAN: return NAN
    if special(a) or special(b): return mk("mul", (a, b))
    if a.op == "neg": return neg(mul(a.args[0], b))
    if b.op == "neg": return neg(mul(a, b.args[0]))
    if a.id > b.id: a, b = b, a
    return mk("mul", (a, b))

def div(a, b):
    if b.op == "const":
        if b.val == 0:
            if a.op == "const":
                return NAN if a.val == 0 else (INF if a.val > 0 else NINF)
            return mk("div", (a, b))
        if a.op == "const": return const(a.val / b.val)
        if b.val == 1: return a
        if b.val == -1: return neg(a)
    if a.op == "const" and a.val == 0 and not special(b):
        drop(mk("div", (ONE, b))); return ZERO
    if a is NAN or b is NAN: return NAN
    if a.op == "neg": return neg(div(a.args[0], b))
    if b.op == "neg": return neg(div(a, b.args[0]))
    return mk("div", (a, b))

def powi(a, k):
    if k == 0: return ONE
    if k < 0: return div(ONE, powi(a, -k))
    r = a
    out = None
    while k:
        if k & 1: out = r if out is None else mul(out, r)
        k >>= 1
        if k: r = mul(r, r)
    return out

def pow_(a, b):
    if b.op == "const":
        if b.val.denominator == 1 and abs(b.val) <= 64:
            return powi(a, int(b.val))
        if b.val.denominator == 2 and abs(b.val) <= 64:
            k = int(b.val * 2)
            s = un("sqrt", a)
            return powi(s, k)
        if a.op == "const" and a.val == 1: return ONE
        return mk("pow", (a, b))
    return mk("pow", (a, b))

_ODD = {"sin", "tan", "atan", "asin", "sinh", "tanh", "asinh", "atanh"}
_EVEN = {"cos", "cosh", "abs"}
_AT0 = {"sin": 0, "tan": 0, "atan": 0, "asin": 0, "sinh": 0, "tanh": 0, "asinh": 0, "atanh": 0,
        "cos": 1, "cosh": 1, "exp": 1, "abs": 0, "sqrt": 0, "cbrt": 0, "expm1": 0, "log1p": 0}

def un(op, a):
    if a is NAN: return NAN
    if a.op == "const" and a.val == 0 and op in _AT0: return const(_AT0[op])
    if op == "sqrt" and a.op == "const" and a.val > 0:
        n, d = math.isqrt(a.val.numerator), math.isqrt(a.val.denominator)
        if n * n == a.val.numerator and d * d == a.val.denominator: return const(Fraction(n, d))
    if op == "abs" and a.op == "const": return const(abs(a.val))
    if op == "log" and a.op == "const" and a.val == 1: return ZERO
    if op in ("acos",) and a.op == "const" and a.val == 1: return ZERO
    if op in ("floor", "ceil", "trunc") and a.op == "const":
        import math as m
        return const(Fraction({"floor": m.floor, "ceil": m.ceil, "trunc": m.trunc}[op](a.val)))
    if a.op == "neg":
        if op in _ODD: return neg(un(op, a.args[0]))
        if op in _EVEN: return un(op, a.args[0])
    if a.op == "const" and a.val < 0 and op in _ODD: return neg(un(op, const(-a.val)))
    if a.op == "const" and a.val < 0 and op in _EVEN: return un(op, const(-a.val))
    return mk(op, (a,))

def atan2(y, x):
    if y is NAN or x is NAN: return NAN
    if y.op == "const" and y.val == 0 and x.op == "const" and x.val != 0: return ZERO if x.val > 0 else PI
    return mk("atan2", (y, x))

def uf(name, args): return mk("uf", tuple(args), name)

def sqrt(a): return un("sqrt", lift(a))
def sin(a): return un("sin", lift(a))
def cos(a): return un("cos", lift(a))
def tan(a): return un("tan", lift(a))
def atan(a): return un("atan", lift(a))
def sinh(a): return un("sinh", lift(a))
def cosh(a): return un("cosh", lift(a))
def tanh(a): return un("tanh", lift(a))
def exp(a): return un("exp", lift(a))
def log(a): return un("log", lift(a))
def acos(a): return un("acos", lift(a))
def asin(a): return un("asin", lift(a))

# boolean nodes -------------------------------------------------------------
def cmp(op, a, b):
    """op in lt le eq ; returns True/False/Node(bool)"""
    if a.op == "const" and b.op == "const":
        return {"lt": a.val < b.val, "le": a.val <= b.val, "eq": a.val == b.val}[op]
    if a is NAN or b is NAN: return False
    if special(a) or special(b):
        ra = 1 if a is INF else (-1 if a is NINF else 0)
        rb = 1 if b is INF else (-1 if b is NINF else 0)
        return {"lt": ra < rb, "le": ra <= rb, "eq": ra == rb}[op]
    if a is b: return op != "lt"
    if op == "eq" and a.id > b.id: a, b = b, a
    return mk(op, (a, b))

def show(n, depth=6):
    if n.op == "const":
        v = n.val
        return str(v) if v.denominator < 10**6 else repr(float(v))
    if n.op in ("var",): return n.val
    if n.op in ("nan", "inf", "ninf", "pi"): return n.op
    if depth == 0: return "#%d" % n.id
    a = [show(x, depth - 1) for x in n.args]
    sym = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "=="}
    if n.op in sym: return "(" + sym[n.op].join(a) + ")"
    if n.op == "uf": return "%s(%s)" % (n.val, ",".join(a))
    return "%s(%s)" % (n.op, ",".join(a))

def topo(roots):
    """nodes reachable from roots, children first"""
    seen = set(); out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n); continue
        if n.id in seen: continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if a.id not in seen: stack.append((a, False))
    return out

def rebuild(n, args):
    op = n.op
    if op == "add": return add(*args)
    if op == "sub": return sub(*args)
    if op == "mul": return mul(*args)
    if op == "div": return div(*args)
    if op == "neg": return neg(*args)
    if op == "pow": return pow_(*args)
    if op == "atan2": return atan2(*args)
    if op in ("lt", "le", "eq"): return cmp(op, *args)
    if op in ("uf", "root", "var", "const", "nan", "inf", "ninf", "pi"): return mk(op, args, n.val)
    return un(op, args[0]) if len(args) == 1 else mk(op, args, n.val)

def subst(roots, mapping):
    """replace nodes (by identity) ; mapping: {Node: Node}"""
    m = {k.id: v for k, v in mapping.items()}
    memo = {}
    single = isinstance(roots, Node)
    rl = [roots] if single else list(roots)
    for n in topo(rl):
        if n.id in m: memo[n.id] = m[n.id]; continue
        if not n.args: memo[n.id] = n; continue
        na = tuple(memo[a.id] for a in n.args)
        memo[n.id] = n if all(x is y for x, y in zip(na, n.args)) else rebuild(n, na)
    return memo[rl[0].id] if single else [memo[r.id] for r in rl]

def variables(roots):
    return [n for n in topo(roots) if n.op == "var"]

# differentiation -----------------------------------------------------------
class Diff:
    """forward-mode symbolic differentiation with respect to one var.
    rootfacts: {root node id: (f node, root node)} -> implicit differentiation.
    ufrule(name, args, dargs) -> node for 'uf' nodes."""
    def __init__(self, wrt, rootfacts=None, ufrule=None):
        self.wrt = wrt; self.memo = {}; self.rootfacts = rootfacts or {}; self.ufrule = ufrule
    def __call__(self, root):
        for n in topo([root]):
            if n.id not in self.memo: self.memo[n.id] = self._d(n)
        return self.memo[root.id]
    def _d(self, n):
        if n is self.wrt: return ONE
        op = n.op; d = [self.memo[a.id] for a in n.args]; a = n.args
        if op == "var":
            if n.id in self.rootfacts:
                f = self.rootfacts[n.id]
                rest = {k: v for k, v in self.rootfacts.items() if k != n.id}
                num = Diff(self.wrt, rest, self.ufrule)(f)
                den = Diff(n, rest, self.ufrule)(f)
                return neg(div(num, den))
            return ZERO
        if op in ("const", "pi", "nan", "inf", "ninf"): return ZERO
        if op == "add": return add(*d)
        if op == "sub": return sub(*d)
        if op == "neg": return neg(d[0])
        if op == "mul": return add(mul(d[0], a[1]), mul(a[0], d[1]))
        if op == "div": return sub(div(d[0], a[1]), div(mul(n, d[1]), a[1]))
        if op == "uf": return self.ufrule(n, d) if self.ufrule else (_ for _ in ()).throw(NotImplementedError("uf"))
        if all(x is ZERO for x in d): return ZERO
        if op == "sqrt": return div(d[0], mul(TWO, n))
        if op == "sin": return mul(cos(a[0]), d[0])
        if op == "cos": return neg(mul(sin(a[0]), d[0]))
        if op == "tan": return mul(add(ONE, mul(n, n)), d[0])
        if op == "atan": return div(d[0], add(ONE, mul(a[0], a[0])))
        if op == "asin": return div(d[0], sqrt(sub(ONE, mul(a[0], a[0]))))
        if op == "acos": return neg(div(d[0], sqrt(sub(ONE, mul(a[0], a[0])))))
        if op == "atan2":
            y, x = a
            return div(sub(mul(x, d[0]), mul(y, d[1])), add(mul(x, x), mul(y, y)))
        if op == "sinh": return mul(cosh(a[0]), d[0])
        if op == "cosh": return mul(sinh(a[0]), d[0])
        if op == "tanh": return mul(sub(ONE, mul(n, n)), d[0])
        if op == "asinh": return div(d[0], sqrt(add(ONE, mul(a[0], a[0]))))
        if op == "acosh": return div(d[0], sqrt(sub(mul(a[0], a[0]), ONE)))
        if op == "atanh": return div(d[0], sub(ONE, mul(a[0], a[0])))
        if op == "exp": return mul(n, d[0])
        if op == "log": return div(d[0], a[0])
        if op == "pow":
            if a[1].op == "const": return mul(mul(a[1], div(n, a[0])), d[0])
        raise NotImplementedError("d/d of " + op)

# numeric evaluation ----------------------------------------------------------
def evalf(roots, env, lib=math, conv=float, ufs=None):
    """env: {var name: value}; returns list of values (nan on domain error)"""
    memo = {}
    nan = conv("nan")
    single = isinstance(roots, Node)
    rl = [roots] if single else list(roots)
    for n in topo(rl):
        op = n.op
        try:
            if op == "const": v = conv(n.val.numerator) / conv(n.val.denominator) if conv is not float else float(n.val)
            elif op == "var": v = env[n.val]
            elif op == "pi": v = lib.pi + conv(0)
            elif op == "nan": v = nan
            elif op == "inf": v = conv("inf")
            elif op == "ninf": v = -conv("inf")
            else:
                a = [memo[x.id] for x in n.args]
                if op == "add": v = a[0] + a[1]
                elif op == "sub": v = a[0] - a[1]
                elif op == "mul": v = a[0] * a[1]
                elif op == "div": v = a[0] / a[1]
                elif op == "neg": v = -a[0]
                elif op == "lt": v = a[0] < a[1]
                elif op == "le": v = a[0] <= a[1]
                elif op == "eq": v = a[0] == a[1]
                elif op == "abs": v = abs(a[0])
                elif op == "pow": v = a[0] ** a[1]
                elif op == "uf": v = ufs(n.val, a)
                elif op in ("floor", "ceil"): v = conv(getattr(math, op)(a[0]))
                elif op == "trunc": v = conv(int(a[0]))
                elif op == "fmod": v = math.fmod(a[0], a[1])
                elif op == "sqrt":
                    v = lib.sqrt(a[0]) if a[0] >= 0 else nan
                elif op in ("acos", "asin"):
                    v = getattr(lib, op)(a[0]) if -1 <= a[0] <= 1 else nan
                elif op == "log": v = lib.log(a[0]) if a[0] > 0 else nan
                elif op == "acosh": v = lib.acosh(a[0]) if a[0] >= 1 else nan
                elif op == "atanh": v = lib.atanh(a[0]) if -1 < a[0] < 1 else nan
                else: v = getattr(lib, op)(*a)
                if isinstance(v, complex): v = nan
        except (ZeroDivisionError, OverflowError, ValueError):
            v = nan
        memo[n.id] = v
    return memo[rl[0].id] if single else [memo[r.id] for r in rl]

# vectorised numeric evaluation -------------------------------------------------
UFNUM = {}          # numeric meaning of uninterpreted functions (for witnesses)
def npfun(roots, names, extra=()):
    """compile DAG nodes to a function of numpy arrays: f(*[env[n] for n in names]) -> tuple"""
    import numpy as np
    order = topo(roots)
    lines = []; nm = {}
    consts = []
    un1 = {"sqrt": "np.sqrt", "sin": "np.sin", "cos": "np.cos", "tan": "np.tan", "atan": "np.arctan", "asin": "np.arcsin",
           "acos": "np.arccos", "sinh": "np.sinh", "cosh": "np.cosh", "tanh": "np.tanh", "asinh": "np.arcsinh",
           "acosh": "np.arccosh", "atanh": "np.arctanh", "exp": "np.exp", "log": "np.log", "abs": "np.abs",
           "floor": "np.floor", "ceil": "np.ceil", "trunc": "np.trunc", "cbrt": "np.cbrt", "expm1": "np.expm1", "log1p": "np.log1p"}
    bi = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "=="}
    for n in order:
        op = n.op; v = "t%d" % n.id; nm[n.id] = v; a = [nm[x.id] for x in n.args]
        if op == "const": e = "np.float64(%r)" % float(n.val)
        elif op == "var":
            if n.val not in names: raise KeyError("free variable " + n.val)
            e = "a%d" % names.index(n.val)
        elif op == "pi": e = "np.float64(np.pi)"
        elif op == "nan": e = "np.float64(np.nan)"
        elif op == "inf": e = "np.float64(np.inf)"
        elif op == "ninf": e = "np.float64(-np.inf)"
        elif op in bi: e = "%s %s %s" % (a[0], bi[op], a[1])
        elif op == "neg": e = "-%s" % a[0]
        elif op == "atan2": e = "np.arctan2(%s,%s)" % tuple(a)
        elif op == "pow": e = "np.power(%s,%s)" % tuple(a)
        elif op == "fmod": e = "np.fmod(%s,%s)" % tuple(a)
        elif op in un1: e = "%s(%s)" % (un1[op], a[0])
        elif op == "uf" and n.val in UFNUM: e = "UFNUM[%r](%s)" % (n.val, ",".join(a))
        else: raise NotImplementedError(op)
        lines.append("  %s = %s" % (v, e))
    src = "def f(%s):\n%s\n  return (%s,)" % (",".join("a%d" % i for i in range(len(names))), "\n".join(lines), ",".join(nm[r.id] for r in roots))
    env = {"np": np, "UFNUM": UFNUM}
    exec(src, env)
    g = env["f"]
    def call(*args):
        with np.errstate(all="ignore"): return g(*args)
    return call
