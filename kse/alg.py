"""Exact real algebra: DAG -> rational functions over a tower of quadratic /
transcendental atoms, with rewriting modulo the defining relations.

Used as the theory front end of the solver: a residual that normalises to the
zero polynomial makes "path condition and residual != 0" unsatisfiable; anything
else is handed on to z3 (solve.py) together with the defining relations.
"""
from fractions import Fraction
from math import gcd, isqrt, pi as FPI
import dag, time

class Blowup(Exception): pass
class CannotEncode(Exception): pass

SH = 20
MASK = (1 << SH) - 1

# ---- constants ------------------------------------------------------------
_rcache = {}
def rationalize(v):
    """v: exact Fraction of a double.  Returns Fraction q, or ('pi', q) for q*pi,
    or the exact value when it is not the rounding of anything simple."""
    if v in _rcache: return _rcache[v]
    r = v
    d = v.denominator
    if d == 1 or v == 0: r = v
    elif d <= 4096: r = v
    else:
        tol = abs(v) * Fraction(1, 1 << 51)
        q = v.limit_denominator(200000)
        if abs(q - v) <= tol and q != 0 and (q.numerator.bit_length() + q.denominator.bit_length()) <= 40: r = q
        else:
            done = False
            f = float(v)
            for p, nm in ((FPI, 1), (1 / FPI, -1)):
                x = Fraction(f / p)
                q = x.limit_denominator(20000)
                if q != 0 and abs(float(q) * p - f) <= abs(f) * 5e-16 and q.numerator.bit_length() + q.denominator.bit_length() <= 34:
                    r = ("pi", q, nm); done = True; break
            if not done:
                # decimal literals such as 9.80665e-3 / 1.32712440018e20
                s = repr(f)
                q = Fraction(s)
                if len(s.replace(".", "").replace("-", "").split("e")[0].strip("0")) <= 13: r = q
    _rcache[v] = r
    return r

# ---- polynomials: dict packed-monomial -> int -------------------------------
def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c
        if n: r[m] = n
        else: del r[m]
    return r
def pscale(a, k):
    if k == 1: return a
    if k == 0: return {}
    return {m: c * k for m, c in a.items()}
def pmul_raw(a, b, limit=None):
    if len(a) > len(b): a, b = b, a
    if limit and len(a) * len(b) > limit: raise Blowup("product %d x %d" % (len(a), len(b)))
    if len(a) == 1:
        (m0, c0), = a.items()
        return {m + m0: c * c0 for m, c in b.items()}
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}
ONEP = {0: 1}

def content(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1: return 1
    return g or 1

class Rat:
    __slots__ = ("num", "den", "k")     # value = num * k / prod(factor^e) ; k Fraction
    def __init__(s, num, den=None, k=Fraction(1)): s.num = num; s.den = den or {}; s.k = k
    def is_zero(s): return not s.num or s.k == 0

class Alg:
    """one algebra context (= one path of one harness)"""
    def __init__(s, limit=4_000_000, deadline=None, sign_hook=None):
        s.names = []; s.index = {}; s.kind = []      # variables
        s.rel = {}                                    # var index -> Poly (replacement of var^2)
        s.factors = []                                # denominator factors (Poly)
        s.fkey = {}
        s.memo = {}
        s.trig = []                                   # (Rat generator, s var, c var)
        s.hyp = []
        s.exps = []
        s.atoms = {}                                  # op -> [(args Rats, var)]
        s.angles = {}                                 # angle atom var -> (cos Rat, sin Rat)
        s.hangles = {}
        s.possign = {}                                # poly key -> +1/-1
        s.sqrtf = {}                                  # factor key -> var (sqrt of that factor)
        s.limit = limit; s.deadline = deadline
        s.sign_hook = sign_hook
        s.varsign = {}
        s.defcond = []                                # definedness conditions met on the way
        s.numval = {}                                 # var index -> DAG-ish callable for numeric value
        s.PI = None
        s.inputs = {}
        s.hints = []; s.sqcache = {}
        s.series = None
    # variables
    def newvar(s, name, kind="free"):
        if name in s.index: return s.index[name]
        i = len(s.names); s.names.append(name); s.index[name] = i; s.kind.append(kind); return i
    def V(s, i): return {1 << (SH * i): 1}
    def vr(s, i): return Rat(s.V(i))
    def pi(s):
        if s.PI is None: s.PI = s.newvar("PI", "pi"); s.varsign[s.PI] = 1
        return s.PI
    def addrel(s, i, poly):
        """var_i^2 == poly"""
        s.rel[i] = s.reduce(poly)
    # reduction modulo relations
    def reduce(s, p):
        if not s.rel: return p
        for i in sorted(s.rel, reverse=True):
            sh = SH * i
            two = 2 << sh
            msk = MASK << sh
            todo = None
            for m in p:
                if (m & msk) >= two: todo = True; break
            if not todo: continue
            R = s.rel[i]
            pows = {0: ONEP}
            groups = {}
            for m, c in p.items():
                e = (m & msk) >> sh
                h = e >> 1
                mm = m - ((h * 2) << sh)
                g = groups.setdefault(h, {})
                n = g.get(mm, 0) + c
                if n: g[mm] = n
                else: del g[mm]
            r = groups.pop(0, {})
            maxh = max(groups) if groups else 0
            for h in range(1, maxh + 1):
                pows[h] = s.reduce(pmul_raw(pows[h - 1], R, s.limit))
            for h, g in groups.items():
                if g: r = padd(r, pmul_raw(g, pows[h], s.limit))
            return s.reduce(r)
        return p
    def pmul(s, a, b):
        if s.deadline and time.time() > s.deadline: raise Blowup("time")
        if a is ONEP: return b
        if b is ONEP: return a
        return s.reduce(pmul_raw(a, b, s.limit))
    def ppow(s, a, e):
        r = ONEP
        while e:
            if e & 1: r = s.pmul(r, a)
            e >>= 1
            if e: a = s.pmul(a, a)
        return r
    # factors
    def prim(s, p):
        """(scale, primitive poly with canonical sign)"""
        g = content(p)
        lead = p[max(p)]
        if lead < 0: g = -g
        if g != 1: p = {m: c // g for m, c in p.items()}
        return g, p
    def fid(s, p):
        key = frozenset(p.items())
        f = s.fkey.get(key)
        if f is None:
            f = len(s.factors); s.factors.append(p); s.fkey[key] = f
        return f
    def monosplit(s, p):
        """common monomial of p: {var: exp}, rest"""
        it = iter(p)
        m0 = next(it)
        if m0 == 0: return {}, p
        ex = {}
        i = 0; mm = m0
        while mm:
            e = mm & MASK
            if e: ex[i] = e
            mm >>= SH; i += 1
        for m in it:
            for v in list(ex):
                e = (m >> (SH * v)) & MASK
                if e < ex[v]:
                    if e == 0: del ex[v]
                    else: ex[v] = e
            if not ex: return {}, p
        sub = sum(e << (SH * v) for v, e in ex.items())
        return ex, {m - sub: c for m, c in p.items()}
    def exactdiv(s, a, b):
        """a / b if exact in the free polynomial ring (no relations), else None"""
        if len(b) == 1:
            (mb, cb), = b.items()
            r = {}
            for m, c in a.items():
                if c % cb: return None
                x = m; y = mb
                while y:
                    if (x & MASK) < (y & MASK): return None
                    x >>= SH; y >>= SH
                r[m - mb] = c // cb
            return r
        if len(a) < len(b): return None
        lb = max(b); cb = b[lb]
        r = {}; a = dict(a); steps = 0
        import heapq
        heap = [-m for m in a]; heapq.heapify(heap)
        while a:
            la = -heapq.heappop(heap)
            while la not in a:
                if not heap: return None
                la = -heapq.heappop(heap)
            ca = a[la]
            x = la; y = lb
            while y:
                if (x & MASK) < (y & MASK): return None
                x >>= SH; y >>= SH
            if ca % cb: return None
            q = ca // cb; mq = la - lb
            if mq < 0: return None
            r[mq] = q
            for m, c in b.items():
                k = m + mq
                old = a.get(k)
                n = (old or 0) - q * c
                if n: 
                    a[k] = n
                    if old is None: heapq.heappush(heap, -k)
                elif old is not None: del a[k]
            steps += 1
            if steps > 3000: return None
        return r
    # Rat arithmetic
    def const(s, q): 
        q = Fraction(q)
        return Rat(ONEP, {}, q) if q else Rat({}, {}, Fraction(1))
    def norm(s, r):
        if not r.num or r.k == 0: return Rat({}, {}, Fraction(1))
        g = content(r.num)
        if g != 1: r = Rat({m: c // g for m, c in r.num.items()}, r.den, r.k * g)
        if r.den:
            for f, e in r.den.items():
                if e >= 2:
                    p = s.factors[f]
                    if len(p) != 1: continue
                    (mm, cc), = p.items()
                    v = s.single(mm)
                    if v is None or v not in s.rel or cc != 1: continue
                    den = dict(r.den); del den[f]
                    if e % 2: den[f] = 1
                    base = Rat(r.num, den, r.k)
                    R = s.inv(Rat(s.rel[v]))
                    for _ in range(e // 2):
                        d2 = dict(base.den)
                        for ff, ee in R.den.items(): d2[ff] = d2.get(ff, 0) + ee
                        base = Rat(s.pmul(base.num, R.num), d2, base.k * R.k)
                    return s.norm(base)
            # cancel common monomials / equal factors
            den = None; num = r.num
            ex = None
            for f in list(r.den):
                p = s.factors[f]
                e = r.den[f]
                while e:
                    if len(p) == 1:
                        if ex is None: ex, _ = s.monosplit(num)
                        if not ex: break
                        q = s.exactdiv(num, p)
                    elif len(num) >= len(p) and len(num) * len(p) < 20000:
                        q = s.exactdiv(num, p)
                    else: q = None
                    if q is None: break
                    num = q; e -= 1; ex = None
                if e != r.den[f]:
                    if den is None: den = dict(r.den)
                    if e: den[f] = e
                    else: del den[f]
            if den is not None: r = Rat(num, den, r.k)
        return r
    def add(s, a, b):
        if a.is_zero(): return b
        if b.is_zero(): return a
        den = dict(a.den); na, nb = a.num, b.num
        for f, e in b.den.items():
            ea = den.get(f, 0)
            if e > ea: den[f] = e
        for f, e in den.items():
            d = e - a.den.get(f, 0)
            if d: na = s.pmul(na, s.ppow(s.factors[f], d))
            d = e - b.den.get(f, 0)
            if d: nb = s.pmul(nb, s.ppow(s.factors[f], d))
        ka, kb = a.k, b.k
        # common k
        L = ka.denominator * kb.denominator // gcd(ka.denominator, kb.denominator)
        ia = ka.numerator * (L // ka.denominator); ib = kb.numerator * (L // kb.denominator)
        g = gcd(ia, ib) or 1
        n = padd(pscale(na, ia // g), pscale(nb, ib // g))
        return s.norm(Rat(n, den, Fraction(g, L)))
    def neg(s, a): return Rat(a.num, a.den, -a.k)
    def sub(s, a, b): return s.add(a, s.neg(b))
    def mul(s, a, b):
        if a.is_zero() or b.is_zero(): return Rat({}, {}, Fraction(1))
        # cross-cancel monomials before multiplying
        den = dict(a.den)
        for f, e in b.den.items(): den[f] = den.get(f, 0) + e
        na, nb = a.num, b.num
        return s.norm(Rat(s.pmul(na, nb), den, a.k * b.k))
    def inv(s, a):
        if a.is_zero(): raise CannotEncode("division by an expression that is identically zero")
        num = ONEP
        for f, e in a.den.items(): num = s.pmul(num, s.ppow(s.factors[f], e))
        ex, rest = s.monosplit(a.num)
        g, rest = s.prim(rest)
        den = {}
        for v, e in ex.items(): den[s.fid(s.V(v))] = e
        if not (len(rest) == 1 and 0 in rest):
            # split by known factors
            for f, e in s.split(rest).items(): den[f] = den.get(f, 0) + e
        return s.norm(Rat(num, den, 1 / (a.k * g)))
    def split(s, p):
        """factor primitive poly p over the known factors (trial division)"""
        out = {}
        key = frozenset(p.items())
        if key in s.fkey: return {s.fkey[key]: 1}
        if len(p) < 400:
            for f in range(len(s.factors)):
                q = s.factors[f]
                if len(q) == 1 or len(q) > len(p): continue
                while True:
                    d = s.exactdiv(p, q)
                    if d is None: break
                    out[f] = out.get(f, 0) + 1; p = d
                    if len(p) == 1 and 0 in p: break
                if len(p) == 1 and 0 in p: break
        if not (len(p) == 1 and 0 in p):
            g, p = s.prim(p)
            f = s.fid(p); out[f] = out.get(f, 0) + 1
            # sign/scale lost here is +-1 constant: p primitive, g == +-1
            if g != 1:
                # fold sign into a constant factor: represent by negated poly
                del out[f]
                if out.get(f) == 0: del out[f]
                f2 = s.fid({m: c * g for m, c in p.items()}); out[f2] = out.get(f2, 0) + 1
        return out
    def div(s, a, b): return s.mul(a, s.inv(b))
    def rpow(s, a, k):
        if k < 0: return s.inv(s.rpow(a, -k))
        r = s.const(1)
        while k:
            if k & 1: r = s.mul(r, a)
            k >>= 1
            if k: a = s.mul(a, a)
        return r
    def equal(s, a, b): return s.sub(a, b).is_zero()
    def asconst(s, r):
        """Fraction if r is constant else None"""
        if r.is_zero(): return Fraction(0)
        if r.den: return None
        if len(r.num) == 1 and 0 in r.num: return r.k * r.num[0]
        return None
    # signs ---------------------------------------------------------------
    def assume_pos(s, r, sign=1, strict=True):
        """record that Rat r is > 0 (sign=1) or < 0; used by sqrt splitting"""
        if r.is_zero(): return
        # if all denominators signs known, numerators sign follows
        sg = sign
        for f, e in r.den.items():
            if e % 2:
                t = s.psign(s.factors[f])
                if t is None: return
                sg *= t
        if r.k < 0: sg = -sg
        ex, rest = s.monosplit(r.num)
        for v, e in ex.items():
            if e % 2:
                t = s.varsign.get(v)
                if t is None:
                    if len(rest) == 1 and 0 in rest and sum(1 for x in ex.values() if x % 2) == 1:
                        s.varsign[v] = sg * (1 if rest[0] > 0 else -1)
                    return
                sg *= t
        g, rest = s.prim(rest)
        if g < 0: sg = -sg
        if len(rest) == 1 and 0 in rest: return
        s.possign[frozenset(rest.items())] = sg
        s.fid(rest)
    weak = {}; weakc = frozenset()
    def strip(s, p):
        """(sign, rest) with p = rest times factors of known sign and squares"""
        sign = 1
        ex, q = s.monosplit(p); left = 0
        for v, e in ex.items():
            if e % 2:
                t = s.varsign.get(v)
                if t is None: left += 1 << (SH * v)
                else: sign *= t
        for kk, t in list(s.possign.items()):
            f = dict(kk)
            while len(f) > 1 and len(q) >= len(f):
                d = s.exactdiv(q, f)
                if d is None: break
                q = d; sign *= t
        g, q = s.prim(q)
        if len(q) > 1:
            t = s.psign(q, False)
            if t: q = {0: 1}; sign *= t
        if left: q = {m + left: c for m, c in q.items()}
        return (sign if g > 0 else -sign), q
    def assume_weak(s, r, sign):
        """record that Rat r is >= 0 (sign=1) or <= 0"""
        for f, e in r.den.items():
            if e % 2:
                t = s.psign(s.factors[f])
                if t is None: return
                sign *= t
        if r.k < 0: sign = -sign
        sg, q = s.strip(r.num); sign *= sg
        s.weak = dict(s.weak); s.weak[frozenset(q.items())] = sign
        s.weakc = s.weakc | {(frozenset(q.items()), sign)}
    def psign(s, p, hook=True):
        """sign of a polynomial under the current assumptions, or None"""
        if not p: return 0
        ex, rest = s.monosplit(p)
        sg = 1
        for v, e in ex.items():
            if e % 2:
                t = s.varsign.get(v)
                if t is None: return s._hook(p) if hook else None
                sg *= t
        g, rest = s.prim(rest)
        if g < 0: sg = -sg
        if len(rest) == 1 and 0 in rest: return sg
        k = frozenset(rest.items())
        if k in s.possign: return sg * s.possign[k]
        # syntactic positivity: every monomial of one sign
        signs = set()
        for m, c in rest.items():
            t = 1 if c > 0 else -1
            i = 0; mm = m
            while mm:
                if (mm & MASK) % 2:
                    q = s.varsign.get(i)
                    if q is None: t = None; break
                    t *= q
                mm >>= SH; i += 1
            signs.add(t)
            if t is None or len(signs) > 1: break
        if len(signs) == 1 and None not in signs:
            t = signs.pop()
            s.possign[k] = t
            return sg * t
        # factor with known-sign factors
        if len(rest) < 200:
            prod = 1; q = rest; hit = False
            for kk, t in list(s.possign.items()):
                f = dict(kk)
                while len(q) >= len(f) and len(f) > 1:
                    d = s.exactdiv(q, f)
                    if d is None: break
                    q = d; prod *= t; hit = True
            if hit:
                t = s.psign(q, False)
                if t is not None: return sg * prod * t
        t = s._hook(rest) if hook else None
        if t is not None:
            s.possign[k] = t
            return sg * t
        return None
    def _hook(s, p):
        if s.sign_hook is None: return None
        return s.sign_hook(s, p)
    def rsign(s, r):
        if r.is_zero(): return 0
        sg = 1 if r.k > 0 else -1
        for f, e in r.den.items():
            if e % 2:
                t = s.psign(s.factors[f])
                if t is None: return None
                sg *= t
        t = s.psign(r.num)
        return None if t is None else sg * t
    def sgnvar(s, p):
        """variable equal to sign(p) (p an unsigned polynomial)"""
        g, q = s.prim(p)
        lst = s.atoms.setdefault("sgn", [])
        for a, v in lst:
            if a == q: break
        else:
            v = s.newvar("sgn%d" % len(lst), "sgn"); s.rel[v] = ONEP; lst.append((q, v))
            s.polysgn = getattr(s, "polysgn", {}); s.polysgn[v] = q
        r = s.vr(v)
        return s.neg(r) if g < 0 else r
    def absolute(s, r):
        t = s.rsign(r)
        if t is not None: return r if t >= 0 else s.neg(r)
        sg, q = s.strip(r.num)
        w = s.weak.get(frozenset(q.items()))
        if w is not None:
            w = w * sg * (1 if r.k > 0 else -1)
            for f, e in r.den.items():
                if e % 2:
                    t = s.psign(s.factors[f])
                    w = w * t if t is not None and w is not None else None
            if w is not None: return r if w > 0 else s.neg(r)
        # |num/den| = num/den * sgn(num) * prod sgn(den odd)
        out = r
        out = s.mul(out, s.sgnvar(r.num) if r.k > 0 else s.neg(s.sgnvar(r.num)))
        for f, e in r.den.items():
            if e % 2:
                t = s.psign(s.factors[f])
                if t is None: out = s.mul(out, s.sgnvar(s.factors[f]))
                elif t < 0: out = s.neg(out)
        return out
    # square roots -----------------------------------------------------------
    def polysqrt(s, p):
        """q with q^2 == p in the free ring, or None"""
        lead = max(p)
        c = p[lead]
        if c < 0: return None
        r = isqrt(c)
        if r * r != c: return None
        x = lead; i = 0
        while x:
            if (x & MASK) % 2: return None
            x >>= SH
        hm = 0; x = lead; i = 0
        while x:
            hm |= ((x & MASK) // 2) << (SH * i); x >>= SH; i += 1
        q = {hm: r}
        n = len(p)
        for _ in range(40):
            d = padd(p, pscale(pmul_raw(q, q), -1))
            if not d: return q
            ld = max(d)
            if ld >= lead: return None
            mq = ld - hm
            if mq < 0: return None
            x = ld; y = hm
            while y:
                if (x & MASK) < (y & MASK): return None
                x >>= SH; y >>= SH
            if d[ld] % (2 * r): return None
            if mq in q: return None
            q[mq] = d[ld] // (2 * r)
            if len(q) > n: return None
        return None
    def hint(s, r):
        """r may be the square root of something the code will take the sqrt of"""
        if not r.is_zero():
            ex, rest = s.monosplit(r.num)
            s.hints.append(s.prim(rest)[1])
    def modsquare(s, rest):
        """(q, g, mono) with rest*g*mono == q^2 modulo the relations, q among the
        hints / known factors / relation-free candidates; else None"""
        n = len(rest)
        for q in s.hints + [f for f in s.factors if 1 < len(f) <= 4 * n]:
            key = frozenset(q.items())
            sq = s.sqcache.get(key)
            if sq is None or sq[0] != len(s.rel):
                try: full = s.pmul(q, q)
                except Blowup: full = {}
                if full:
                    ex, rr = s.monosplit(full); g, rr = s.prim(rr)
                else: ex, rr, g = {}, {}, 1
                sq = (len(s.rel), ex, rr, g); s.sqcache[key] = sq
            _, ex, rr, g = sq
            if rr == rest: return q, g, ex
            if g < 0 and len(rr) == n and {m: -c for m, c in rr.items()} == rest: return q, -g, ex
        return None
    def sqrt(s, r):
        if r.is_zero(): return r
        t = s.rsign(r)
        out = s.const(1)
        # integer content
        ex, rest = s.monosplit(r.num)
        g, rest = s.prim(rest)
        k = r.k * g
        pieces = []      # (poly, exp) odd/even
        for v, e in ex.items(): pieces.append((s.V(v), e))
        if not (len(rest) == 1 and 0 in rest):
            q = s.polysqrt(rest)
            if q is not None: pieces.append((q, 2))
            elif (h := s.modsquare(rest)) is not None:
                q, gq, mono = h                     # rest * gq * mono == q^2
                k = k / gq
                pieces.append((q, 2))
                for v, e in mono.items(): pieces.append((s.V(v), -e))
            else:
                for f, e in s.splitsq(rest).items(): pieces.append((f if isinstance(f, dict) else s.factors[f], e))
        for f, e in r.den.items():
            pieces.append((s.factors[f], -e))
        for j, (p, e) in enumerate(pieces):
            if e % 2 and len(p) > 1:
                q = s.polysqrt(p)
                if q is not None: pieces[j] = (q, 2 * e)
        odd = []; neg = 1
        for p, e in pieces:
            h = e // 2
            if e % 2 == 0:
                sg = s.psign(p)
                pr = Rat(p)
                if h % 2:
                    if sg is None: pr = s.absolute(pr)
                    elif sg < 0: pr = s.neg(pr)
                out = s.mul(out, s.rpow(pr, h))
            else:
                # p^e = p^(2h) * p, e = 2h+1
                sg = s.psign(p)
                if sg is None:
                    odd.append((p, None))
                    if h:
                        pr = s.absolute(Rat(p)) if h % 2 else Rat(p)
                        out = s.mul(out, s.rpow(pr, h))
                else:
                    if sg < 0: neg = -neg
                    pp = p if sg > 0 else pscale(p, -1)
                    odd.append((pp, 1))
                    if h: out = s.mul(out, s.rpow(Rat(pp), h))
        k = k * neg
        unk = [p for p, t in odd if t is None]
        if len(unk) == 0 and k < 0: raise CannotEncode("sqrt of a negative quantity")
        if len(unk) >= 1:
            # group unknown-sign factors (with the sign of k) into one poly
            P = ONEP
            for p in unk: P = s.pmul(P, p)
            if k < 0: P = pscale(P, -1); k = -k
            odd = [(p, t) for p, t in odd if t is not None] + [(P, 1)]
        # rational constant
        def sqint(n):
            a = 1; b = 1; d = 2
            while d * d <= n and d < 2000:
                e = 0
                while n % d == 0: n //= d; e += 1
                a *= d ** (e // 2)
                if e % 2: b *= d
                d += 1
            if n > 1:
                h = isqrt(n)
                if h * h == n: a *= h
                else: b *= n
            return a, b
        a1, b1 = sqint(k.numerator); a2, b2 = sqint(k.denominator)
        out = s.mul(out, s.const(Fraction(a1, a2) / b2))
        c = b1 * b2
        if c > 1:
            out = s.mul(out, s.intsqrt(c))
        for p, _ in odd: out = s.mul(out, s.sqrtatom(p))
        return out
    def intsqrt(s, c):
        nm = "sqrt_%d" % c
        if nm in s.index: return s.vr(s.index[nm])
        v = s.newvar(nm, "sqrt"); s.rel[v] = {0: c}; s.varsign[v] = 1
        return s.vr(v)
    def splitsq(s, p):
        """trial-divide by relation right-hand sides (whose sqrt is a variable)
        and by sign-known factors"""
        out = {}
        cands = []
        for v, R in s.rel.items():
            if len(R) > 1:
                g, q = s.prim(R); cands.append(q)
        for kk in s.possign: cands.append(dict(kk))
        for q in cands:
            if len(q) == 1: continue
            while len(p) >= len(q):
                d = s.exactdiv(p, q)
                if d is None: break
                f = s.fid(q); out[f] = out.get(f, 0) + 1; p = d
        if not (len(p) == 1 and 0 in p):
            ex, rest = s.monosplit(p)
            for v, e in ex.items():
                f = s.fid(s.V(v)); out[f] = out.get(f, 0) + e
            if not (len(rest) == 1 and 0 in rest):
                q = s.polysqrt(rest)
                if q is not None:
                    f = s.fid(q); out[f] = out.get(f, 0) + 2
                else:
                    f = s.fid(rest); out[f] = out.get(f, 0) + 1
            elif rest[0] != 1:
                f = s.fid({0: rest[0]}); out[f] = out.get(f, 0) + 1
        elif p[0] != 1:
            f = s.fid({0: p[0]}); out[f] = out.get(f, 0) + 1
        return out
    def sqrtatom(s, p):
        """sqrt of a positive polynomial p (squarefree as far as we know)"""
        if len(p) == 1 and 0 in p:
            h = isqrt(p[0])
            return s.const(h) if h * h == p[0] else s.intsqrt(p[0])
        # equal to var^2 by a relation?
        for v, R in s.rel.items():
            if R == p:
                sg = s.varsign.get(v)
                if sg is None: return s.absolute(s.vr(v))
                return s.vr(v) if sg > 0 else s.neg(s.vr(v))
            if len(R) == len(p) and len(R) > 1:
                g, q = s.prim(R); g2, q2 = s.prim(p)
                if q == q2 and Fraction(g2, g) > 0:
                    # p = (g2/g) R
                    base = s.sqrtatom(R)
                    return s.mul(base, s.sqrt(s.const(Fraction(g2, g))))
        g = content(p)
        if g != 1:
            return s.mul(s.sqrt(s.const(g)), s.sqrtatom({m: c // g for m, c in p.items()}))
        v = s.newvar("q%d" % len(s.names), "sqrt")
        s.rel[v] = s.reduce(p); s.varsign[v] = 1
        s.possign[frozenset(s.prim(p)[1].items())] = 1 if s.prim(p)[0] > 0 else -1
        return s.vr(v)
    # angles -------------------------------------------------------------------
    def lin(s, r):
        """decompose angle Rat into [(Fraction coef, generator Rat)] """
        out = []
        if len(r.num) > 6: return [(Fraction(1), r)]
        for m, c in r.num.items():
            g = s.norm(Rat({m: 1}, r.den, Fraction(1)))
            out.append((r.k * c, g))
        return out
    def sincos(s, r):
        """(sin, cos) of the angle Rat"""
        if r.is_zero(): return s.const(0), s.const(1)
        parts = s.lin(r)
        S, C = s.const(0), s.const(1)
        for c, g in parts:
            s1, c1 = s.sincos1(c, g)
            S, C = s.add(s.mul(S, c1), s.mul(C, s1)), s.sub(s.mul(C, c1), s.mul(S, s1))
        return S, C
    def sincos1(s, c, g):
        # multiple of pi?
        if not g.den and len(g.num) == 1:
            (m, cc), = g.num.items()
            v = s.single(m)
            if v is not None:
                if v == s.PI:
                    x = c * cc * 2
                    if x.denominator == 1:
                        t = int(x) % 4
                        return s.const([0, 1, 0, -1][t]), s.const([1, 0, -1, 0][t])
                    x = c * cc * 4
                    if x.denominator == 1:
                        h = s.mul(s.intsqrt(2), s.const(Fraction(1, 2)))
                        t = int(x) % 8
                        sg = {1: (1, 1), 3: (1, -1), 5: (-1, -1), 7: (-1, 1)}[t]
                        return s.mul(s.const(sg[0]), h), s.mul(s.const(sg[1]), h)
                if v in s.angles and c.denominator == 1 and cc == 1:
                    cs, sn = s.angles[v]
                    return s.multi(int(c), sn, cs)
        if c < 0:
            a, b = s.sincos1(-c, g); return s.neg(a), b
        ser = s.series_of(c, g, False)
        if ser: return ser
        # generator table; unit = 1/d
        for i, (gg, d, sv, cv) in enumerate(s.trig):
            if s.equal(gg, g):
                x = c * d
                if x.denominator == 1: return s.multi(int(x), s.vr(sv), s.vr(cv))
        d = c.denominator
        # tan half angle helper: is 2c an existing integer multiple? (handled in tan)
        i = len(s.trig)
        cv = s.newvar("C%d" % i, "cos"); sv = s.newvar("S%d" % i, "sin")
        # order: S has the higher index and is eliminated: S^2 = 1 - C^2
        s.rel[sv] = {0: 1, 2 << (SH * cv): -1}
        s.trig.append((g, d, sv, cv))
        return s.multi(int(c * d), s.vr(sv), s.vr(cv))
    def series_of(s, c, g, hyp):
        """near zero of the variable s.series: sin y = y - y^3 s3, cos y = 1 - y^2/2 + y^4 c4 (s3, c4 bounded)"""
        v = s.series
        if v is None: return None
        for m in g.num:
            if not (m >> (SH * v)) & MASK: return None
        y = s.mul(s.const(c), g)
        key = "h" if hyp else "t"
        lst = s.atoms.setdefault("series" + key, [])
        for yy, a, b in lst:
            if s.equal(yy, y): break
        else:
            a = s.newvar("s3%s%d" % (key, len(lst))); b = s.newvar("c4%s%d" % (key, len(lst))); lst.append((y, a, b))
        y2 = s.mul(y, y); sg = s.const(1 if hyp else -1)
        S = s.add(y, s.mul(sg, s.mul(s.mul(y, y2), s.vr(a))))
        C = s.add(s.add(s.const(1), s.mul(s.mul(sg, s.const(Fraction(1, 2))), y2)), s.mul(s.mul(y2, y2), s.vr(b)))
        return S, C
    def at0(s, r, v):
        """value of Rat r at variable v = 0, or None when its denominator vanishes there"""
        def z(p): return {m: c for m, c in p.items() if not (m >> (SH * v)) & MASK}
        out = s.norm(Rat(z(r.num), {}, r.k))
        for f, e in r.den.items():
            q = z(s.factors[f])
            if not q: return None
            out = s.div(out, s.rpow(Rat(q), e))
        return out
    def single(s, m):
        """variable index if monomial m is a single variable^1"""
        if m == 0: return None
        i = 0
        while m & MASK == 0: m >>= SH; i += 1
        return i if m == 1 else None
    def multi(s, k, S, C):
        if k < 0:
            a, b = s.multi(-k, S, C); return s.neg(a), b
        rs, rc = s.const(0), s.const(1)
        for _ in range(k):
            rs, rc = s.add(s.mul(rs, C), s.mul(rc, S)), s.sub(s.mul(rc, C), s.mul(rs, S))
        return rs, rc
    def tan(s, r):
        if r.is_zero(): return r
        # tan(c*g) with 2c*g of known unit: S/(1+C)
        parts = s.lin(r)
        if parts:
            if all(c.denominator in (1, 2) for c, g in parts) and any(c.denominator == 2 for c, g in parts):
                dbl = s.mul(r, s.const(2))
                S, C = s.sincos(dbl)
                return s.div(S, s.add(s.const(1), C))
        S, C = s.sincos(r)
        return s.div(S, C)
    def sinhcosh(s, r):
        if r.is_zero(): return s.const(0), s.const(1)
        S, C = s.const(0), s.const(1)
        for c, g in s.lin(r):
            s1, c1 = s.sh1(c, g)
            S, C = s.add(s.mul(S, c1), s.mul(C, s1)), s.add(s.mul(C, c1), s.mul(S, s1))
        return S, C
    def sh1(s, c, g):
        if c < 0:
            a, b = s.sh1(-c, g); return s.neg(a), b
        def mult(k, S, C):
            rs, rc = s.const(0), s.const(1)
            for _ in range(k):
                rs, rc = s.add(s.mul(rs, C), s.mul(rc, S)), s.add(s.mul(rc, C), s.mul(rs, S))
            return rs, rc
        if not g.den and len(g.num) == 1:
            (m, cc), = g.num.items()
            v = s.single(m)
            if v is not None and v in s.hangles and c.denominator == 1 and cc == 1:
                ch, sh = s.hangles[v]
                return mult(int(c), sh, ch)
        ser = s.series_of(c, g, True)
        if ser: return ser
        for gg, d, sv, cv in s.hyp:
            if s.equal(gg, g):
                x = c * d
                if x.denominator == 1: return mult(int(x), s.vr(sv), s.vr(cv))
        i = len(s.hyp); d = c.denominator
        cv = s.newvar("Ch%d" % i, "cosh"); sv = s.newvar("Sh%d" % i, "sinh")
        s.rel[sv] = {0: -1, 2 << (SH * cv): 1}
        s.varsign[cv] = 1
        # cosh >= 1
        s.hyp.append((g, d, sv, cv))
        return mult(int(c * d), s.vr(sv), s.vr(cv))
    def expr_exp(s, r):
        if r.is_zero(): return s.const(1)
        out = s.const(1)
        for c, g in s.lin(r):
            if not g.den and len(g.num) == 1:
                (m, cc), = g.num.items(); v = s.single(m)
                if v is not None and v in getattr(s, "logs", {}) and cc == 1:
                    if c.denominator == 1: out = s.mul(out, s.rpow(s.logs[v], int(c))); continue
                    if c.denominator == 2: out = s.mul(out, s.rpow(s.sqrt(s.logs[v]), int(c * 2))); continue
            for gg, d, v in s.exps:
                if s.equal(gg, g) and (c * d).denominator == 1:
                    out = s.mul(out, s.rpow(s.vr(v), int(c * d))); break
            else:
                d = c.denominator
                v = s.newvar("exp%d" % len(s.exps), "exp"); s.varsign[v] = 1
                s.exps.append((g, d, v))
                out = s.mul(out, s.rpow(s.vr(v), int(c * d)))
        return out
    def atom(s, op, args, build=None):
        """opaque atom identified up to algebraic equality of its arguments"""
        lst = s.atoms.setdefault(op, [])
        for a, v in lst:
            if len(a) == len(args) and all(s.equal(x, y) for x, y in zip(a, args)): return s.vr(v), v, False
        v = s.newvar("%s%d" % (op, len(lst)), "atom:" + op)
        lst.append((args, v))
        return s.vr(v), v, True
    # DAG evaluation --------------------------------------------------------------
    def ev(s, node):
        memo = s.memo
        r = memo.get(node.id)
        if r is not None: return r
        for n in dag.topo([node]):
            if n.id not in memo:
                if s.deadline and time.time() > s.deadline: raise Blowup("time")
                memo[n.id] = s._ev(n)
        return memo[node.id]
    def _ev(s, n):
        op = n.op
        a = [s.memo[x.id] for x in n.args]
        if op == "const":
            q = rationalize(n.val)
            if isinstance(q, tuple):
                return s.mul(s.const(q[1]), s.rpow(s.vr(s.pi()), q[2]))
            return s.const(q)
        if op == "var":
            inp = s.inputs.get(n.val)
            if inp is not None: return inp
            return s.vr(s.newvar(n.val))
        if op == "pi": return s.vr(s.pi())
        if op == "add": return s.add(*a)
        if op == "sub": return s.sub(*a)
        if op == "mul": return s.mul(*a)
        if op == "neg": return s.neg(a[0])
        if op == "div": return s.div(*a)
        if op == "sqrt": return s.sqrt(a[0])
        if op == "abs": return s.absolute(a[0])
        if op in ("sin", "cos"):
            S, C = s.sincos(a[0])
            return S if op == "sin" else C
        if op == "tan": return s.tan(a[0])
        if op in ("sinh", "cosh"):
            S, C = s.sinhcosh(a[0]); return S if op == "sinh" else C
        if op == "tanh":
            parts = s.lin(a[0])
            if len(parts) == 1 and parts[0][0].denominator == 2:
                S, C = s.sinhcosh(s.mul(a[0], s.const(2)))
                return s.div(S, s.add(s.const(1), C))
            S, C = s.sinhcosh(a[0]); return s.div(S, C)
        if op == "exp": return s.expr_exp(a[0])
        if op in ("atan2", "acos", "asin", "atan"):
            if a[0].is_zero() and op in ("asin", "atan"): return a[0]
            if op == "acos":
                c = s.asconst(a[0])
                if c is not None and c in (1, -1, 0):
                    return s.const(0) if c == 1 else s.mul(s.vr(s.pi()), s.const(1 if c == -1 else Fraction(1, 2)))
            r, v, new = s.atom(op, a)
            if new:
                if op == "atan2":
                    h = s.sqrt(s.add(s.mul(a[0], a[0]), s.mul(a[1], a[1])))
                    s.angles[v] = (s.div(a[1], h), s.div(a[0], h))
                elif op == "acos":
                    s.angles[v] = (a[0], s.sqrt(s.sub(s.const(1), s.mul(a[0], a[0])))); s.varsign[v] = 1
                elif op == "asin":
                    s.angles[v] = (s.sqrt(s.sub(s.const(1), s.mul(a[0], a[0]))), a[0])
                else:
                    h = s.sqrt(s.add(s.const(1), s.mul(a[0], a[0])))
                    s.angles[v] = (s.inv(h), s.div(a[0], h))
                if op in ("atan", "asin"):
                    t = s.rsign(a[0])
                    if t: s.varsign[v] = t
            return r
        if op in ("asinh", "acosh", "atanh"):
            if a[0].is_zero(): return a[0]
            r, v, new = s.atom(op, a)
            if new:
                u2 = s.mul(a[0], a[0])
                if op == "asinh": s.hangles[v] = (s.sqrt(s.add(s.const(1), u2)), a[0])
                elif op == "acosh": s.hangles[v] = (a[0], s.sqrt(s.sub(u2, s.const(1))))
                else:
                    h = s.inv(s.sqrt(s.sub(s.const(1), u2))); s.hangles[v] = (h, s.mul(a[0], h))
            return r
        if op == "log":
            r, v, new = s.atom(op, a)
            if new:
                if not hasattr(s, "logs"): s.logs = {}
                s.logs[v] = a[0]
                try:
                    iv = s.inv(a[0]); h = s.const(Fraction(1, 2))
                    s.hangles[v] = (s.mul(h, s.add(a[0], iv)), s.mul(h, s.sub(a[0], iv)))
                except (Blowup, ZeroDivisionError): pass
            return r
        if op == "pow":
            c = s.asconst(a[1])
            if c is not None:
                if c.denominator == 1: return s.rpow(a[0], int(c))
                if c.denominator == 2: return s.rpow(s.sqrt(a[0]), int(c * 2))
            r, v, new = s.atom("pow", a); s.varsign[v] = 1
            return r
        if op == "uf":
            r, v, new = s.atom("uf:" + str(n.val), a); return r
        if op in ("floor", "ceil", "trunc", "fmod"):
            r, v, new = s.atom(op, a); return r
        raise CannotEncode(op)
    # printing ---------------------------------------------------------------------
    def pstr(s, p, maxterms=12):
        out = []
        for m, c in sorted(p.items(), reverse=True)[:maxterms]:
            t = [str(c)] if c != 1 or m == 0 else []
            i = 0
            while m:
                e = m & MASK
                if e: t.append(s.names[i] + ("^%d" % e if e > 1 else ""))
                m >>= SH; i += 1
            out.append("*".join(t))
        if len(p) > maxterms: out.append("...(%d terms)" % len(p))
        return " + ".join(out) if out else "0"
    def rstr(s, r):
        d = "*".join("(%s)^%d" % (s.pstr(s.factors[f]), e) for f, e in r.den.items())
        return "%s * (%s)%s" % (r.k, s.pstr(r.num), " / " + d if d else "")
