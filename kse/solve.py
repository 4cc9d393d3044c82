"""SMT side: translation of algebra contexts (alg.Alg) to z3 and the queries."""
import time, z3
import alg, dag
from alg import SH, MASK

STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}

def run(cons, timeout=3000, want_model=False):
    t = time.time()
    s = z3.Tactic("qfnra-nlsat").solver() if not want_model == "smt" else z3.Solver()
    s.set("timeout", timeout)
    for c in cons: s.add(c)
    try: r = str(s.check())
    except z3.Z3Exception: r = "unknown"
    STATS["queries"] += 1; STATS["time"] += time.time() - t; STATS[r] = STATS.get(r, 0) + 1
    if want_model: return r, (s.model() if r == "sat" else None)
    return r

class Z:
    def __init__(self, A):
        self.A = A; self.v = {}; self.extra = []      # list of (z3 bool, set of var indices)
        self.cache = {}
    def var(self, i):
        x = self.v.get(i)
        if x is None: x = self.v[i] = z3.Real(self.A.names[i] + "_%d" % i)
        return x
    def pvars(self, p):
        u = 0
        for m in p: u |= m
        out = set(); i = 0
        while u:
            if u & MASK: out.add(i)
            u >>= SH; i += 1
        return out
    def poly(self, p):
        ts = []
        for m, c in p.items():
            f = [z3.RealVal(c)] if c != 1 or m == 0 else []
            i = 0
            while m:
                e = m & MASK
                f += [self.var(i)] * e
                m >>= SH; i += 1
            ts.append(f[0] if len(f) == 1 else z3.Product(f))
        return ts[0] if len(ts) == 1 else (z3.Sum(ts) if ts else z3.RealVal(0))
    def signpoly(self, r):
        """polynomial with the sign of Rat r"""
        A = self.A; p = r.num if r.k > 0 else alg.pscale(r.num, -1)
        for f, e in r.den.items():
            if e % 2:
                t = A.psign(A.factors[f], False)
                if t is None: p = A.pmul(p, A.factors[f])
                elif t < 0: p = alg.pscale(p, -1)
        return p
    def assume(self, r, op):
        """r op 0 where op in < <= == > >= !="""
        A = self.A
        if r.is_zero(): return
        p = self.signpoly(r)
        self.extra.append((p, op))
        if op in ("<", ">"): A.assume_pos(r, 1 if op == ">" else -1)
        elif op in ("<=", ">="): A.assume_weak(r, 1 if op == ">=" else -1)
    def cmp(self, p, op):
        x = self.poly(p)
        return {"<": x < 0, "<=": x <= 0, "==": x == 0, ">": x > 0, ">=": x >= 0, "!=": x != 0}[op]
    def base(self, seed, maxterms=400, light=False):
        """constraints in the cone of influence of the variables in seed
        (light: only the ranges of the variables themselves)"""
        A = self.A
        if light: maxterms = 0
        todo = set(seed); done = set(); out = []; used = set()
        allc = []
        for i, R in A.rel.items():
            allc.append((("rel", i), {i} | self.pvars(R), len(R)))
        for j, (p, op) in enumerate(self.extra): allc.append((("ex", j), self.pvars(p), len(p)))
        for kk, sg in A.possign.items():
            if len(kk) < 60:
                p = dict(kk); allc.append((("ps", kk), self.pvars(p), len(p)))
        for kk, sg in A.weakc:
            if len(kk) < 60: allc.append((("wk", kk, sg), self.pvars(dict(kk)), len(kk)))
        ch = True
        while ch:
            ch = False
            for key, vs, n in allc:
                if key in used or n > maxterms or not maxterms: continue
                if key[0] == "rel":
                    if key[1] not in todo and not (n <= 4 and vs - {key[1]} <= todo): continue
                elif not vs <= todo and not (key[0] == "ex" and vs & todo): continue
                used.add(key); ch = True
                todo |= vs
        for key, vs, n in allc:
            if key not in used: continue
            if key[0] == "rel": out.append(self.var(key[1]) * self.var(key[1]) == self.poly(A.rel[key[1]]))
            elif key[0] == "ex":
                p, op = self.extra[key[1]]; out.append(self.cmp(p, op))
            elif key[0] == "wk": out.append(self.cmp(dict(key[1]), ">=" if key[2] > 0 else "<="))
            else: out.append(self.cmp(dict(key[1]), ">" if A.possign[key[1]] > 0 else "<"))
        if A.PI is not None and any(A.kind[i] in ("atom:atan2", "atom:acos", "atom:atan", "atom:asin") for i in todo): todo.add(A.PI)
        for i in todo:
            sg = A.varsign.get(i)
            if sg: out.append(self.var(i) > 0 if sg > 0 else self.var(i) < 0)
            k = A.kind[i]
            if i == A.PI: out.append(z3.And(self.var(i) > z3.Q(314159265358979, 10**14), self.var(i) < z3.Q(314159265358980, 10**14)))
            if k == "cosh": out.append(self.var(i) >= 1)
            if k in ("atom:atan2", "atom:acos") and A.PI is not None:
                out.append(self.var(i) <= self.var(A.PI))
                out.append(self.var(i) > -self.var(A.PI) if k == "atom:atan2" else self.var(i) >= 0)
            if k in ("atom:atan", "atom:asin") and A.PI is not None:
                out.append(2 * self.var(i) <= self.var(A.PI)); out.append(2 * self.var(i) >= -self.var(A.PI))
            if k == "sgn" and i in getattr(A, "polysgn", {}):
                out.append(self.var(i) * self.poly(A.polysgn[i]) >= 0)
        return out
    def sign(self, p, timeout=2500):
        key = frozenset(p.items())
        if key in self.cache: return self.cache[key]
        if len(p) > 300: return None
        b = self.base(self.pvars(p))
        x = self.poly(p)
        r = None
        if run(b + [x <= 0], timeout) == "unsat": r = 1
        elif run(b + [x >= 0], timeout) == "unsat": r = -1
        self.cache[key] = r
        return r
    def hook(self):
        busy = [False]
        def h(A, p):
            if busy[0]: return None
            busy[0] = True
            try: return self.sign(p)
            finally: busy[0] = False
        return h
