"""Multiple gravity assist problem (pykep.trajopt.mga): encodings of the times of flight, cost of the trajectory, spacecraft ephemeris."""
import dag, pyk
from pyk import *
from prop import *
def nn(a): return NP.sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2])
def sub3(a, b): return [p - q for p, q in zip(a, b)]
def make(M, n, enc, d, oi=False, mo=False):
    seq = [Planet(i=i, mu=d["mu"], mus=d["mus%d" % i]) for i in range(n + 1)]
    tof = {"direct": [[30., 200.]] * n, "alpha": [30., 900.], "eta": 900.}[enc]
    p = M.mga(seq=seq, t0=[0., 1000.], tof=tof, vinf=d["vinf"], multi_objective=mo, tof_encoding=enc, orbit_insertion=oi, e_target=d["et"], rp_target=d["rp"])
    if enc == "eta": p.tof = d["tmax"]
    return p, seq
def times(enc, x, d):
    """times of flight the documentation gives for a chromosome"""
    if enc == "direct": return list(x[1:])
    if enc == "alpha":
        L = [NP.log(a) for a in x[2:]]; t = L[0]
        for q in L[1:]: t = t + q
        return [x[1] * q / t for q in L]
    T = []; left = d["tmax"]
    for a in x[1:]: T.append(left * a); left = left - T[-1]
    return T
def cost(ops, seq, t0, T, d, oi):
    ep = [t0]
    for t in T: ep.append(ep[-1] + t)
    rv = [p.eph(e) for p, e in zip(seq, ep)]
    L = [Lambert(rv[i][0], rv[i + 1][0], T[i] * 86400., d["mu"]) for i in range(len(T))]
    dv = ops.max0(nn(sub3(rv[0][1], L[0].v0[0])) - d["vinf"] * 1000.)
    for i in range(len(T) - 1): dv = dv + fb_dv(sub3(L[i].v1[0], rv[i + 1][1]), sub3(L[i + 1].v0[0], rv[i + 1][1]), seq[i + 1])
    a = nn(sub3(rv[-1][1], L[-1].v1[0]))
    if oi:   # from the hyperbola to the pericentre of the target ellipse
        m = seq[-1].get_mu_self()
        h = NP.sqrt(a * a + 2 * m / d["rp"]) - NP.sqrt(m * (1. + d["et"]) / d["rp"])
        a = abs(h)
    return dv + a, ep, L
FIX = ["mu", "vinf", "et", "rp", "tmax"]
def ins(n, enc): return FIX + ["mus%d" % i for i in range(n + 1)] + {"direct": ["t0"] + ["T%d" % i for i in range(n)], "alpha": ["t0", "T"] + ["b%d" % i for i in range(n)], "eta": ["t0"] + ["e%d" % i for i in range(n)]}[enc]
def chrom(d, n, enc):
    # every alpha in (0, 1) is exp(-b) for one b > 0
    return [NP.exp(-d[k]) if k[0] == "b" else d[k] for k in ins(n, enc)[len(FIX) + n + 1:]]
def fitness(M, n, enc, oi, mo):
    names = ins(n, enc)
    def f(ops, v):
        d = dict(zip(names, v)); p, seq = make(M, n, enc, d, oi, mo); x = chrom(d, n, enc)
        fit = list(p.fitness(NP.array(x)))
        T = times(enc, x, d); c, ep, L = cost(ops, seq, x[0], T, d, oi)
        tot = T[0]
        for t in T[1:]: tot = tot + t
        lb, ub = p.get_bounds()
        return fit + [float(p.get_nobj()), float(len(lb)), float(len(ub))], [c] + ([tot] if mo else []) + [2. if mo else 1., float(len(x)), float(len(x))], \
            ["total delta-v"] + (["total time of flight"] if mo else []) + ["number of objectives", "lower bounds", "upper bounds"]
    return names, f
def encodings(M, n, enc):
    names = ins(n, enc)
    def f(ops, v):
        d = dict(zip(names, v)); x = chrom(d, n, enc); A = NP.array
        if enc == "direct":
            p, _ = make(M, n, "alpha", d); q, _ = make(M, n, "eta", d)
            a = list(p.direct2alpha(A(x))); e = list(q.direct2eta(A(x)))
            b1, b2 = list(p.alpha2direct(A(a))), list(q.eta2direct(A(e)))
            return [float(len(a)), float(len(e))] + b1 + b2, [float(n + 2), float(n + 1)] + x + x, ["length in the alpha encoding", "length in the eta encoding"] \
                + ["to alpha and back: %d" % i for i in range(n + 1)] + ["to eta and back: %d" % i for i in range(n + 1)]
        p, _ = make(M, n, enc, d); T = times(enc, x, d)
        if enc == "alpha":
            y = list(p.alpha2direct(A(x)))
            return y + list(p._decode_tofs(A(x))), [x[0]] + T + T, ["alpha to direct: %d" % i for i in range(n + 1)] + ["decoded: %d" % i for i in range(n)]
        y = list(p.eta2direct(A(x)))
        return y + list(p.direct2eta(A(y))) + list(p._decode_tofs(A(x))), [x[0]] + T + x + T, ["eta to direct: %d" % i for i in range(n + 1)] + ["eta to direct and back: %d" % i for i in range(n + 1)] + ["decoded: %d" % i for i in range(n)]
    return names, f
def craft(M, n, enc):
    """the spacecraft as a planet: leg by leg, nothing outside"""
    names = ins(n, enc) + ["t"]
    def f(ops, v):
        d = dict(zip(names, v)); p, seq = make(M, n, enc, d); x = chrom(d, n, enc); t = d["t"]
        sc = p.to_planet(NP.array(x))
        T = times(enc, x, d); _, ep, L = cost(ops, seq, x[0], T, d, False)
        try: rv = sc.eph(t); out = [0.] + list(rv[0]) + list(rv[1])
        except ValueError: out = [1.] + [0.] * 6
        if t < ep[0] or t > ep[-1]: ref = [1.] + [0.] * 6
        elif t == ep[0]: ref = [0.] + list(L[0].r0) + list(L[0].v0[0])
        else:
            i = next(i for i in range(n) if t <= ep[i + 1])
            r, w = propagate_lagrangian([L[i].r0, L[i].v0[0]], (t - ep[i]) * 86400., d["mu"]); ref = [0.] + r + w
        return out, ref, ["refused outside of the trajectory"] + ["position %s" % c for c in "xyz"] + ["velocity %s" % c for c in "xyz"]
    return names, f
POS = lambda q: q in ("mu", "rp", "tmax", "vinf", "T") or q.startswith("mus") or q[0] == "b" or (q[0] == "T" and q[1:].isdigit())
UNIT = lambda q: q == "et" or (q[0] in "e" and q[1:].isdigit())
def fam(names):
    def setup(A):
        import families as F
        for n in names:
            A.newvar(n)
            if POS(n) or UNIT(n): A.varsign[A.index[n]] = 1
        for n in names:
            if UNIT(n): A.assume_pos(F.rat(A, (1,), (-1, n)))
    def sample(rng, k):
        S_ = {}
        for n in names:
            S_[n] = rng.uniform(0.05, 0.95, k) if UNIT(n) else rng.uniform(0.4, 2, k) if POS(n) else rng.normal(size=k)
            if n == "vinf": S_[n] = S_[n] * rng.choice([0.0002, 0.01], k)
            if n in ("t0", "t", "tmax") or n == "T" or n[0] == "T" and n[1:].isdigit(): S_[n] = S_[n] / 86400
        if "t" in S_:
            q = rng.random(k); S_["t"] = np.where(q < 0.8, S_["t0"] + q * 1.6 * sum(S_[m] for m in names if m[0] == "T" and m[1:].isdigit()) if "T0" in S_ else S_["t0"] + q * S_.get("T", S_["tmax"]), S_["t"])
            S_["t"] = np.where(rng.random(k) < 0.06, S_["t0"], S_["t"])
        return S_
    return Family("all", setup, sample, "every chromosome and every data of the problem")
def dom(e): return all((e[q] > 0 if POS(q) else 0 < e[q] < 1) for q in e if POS(q) or UNIT(q))
def run(R):
    F1 = "pykep/trajopt/_mga.py"
    pyk.setup(R, [F1]); M = load(F1)
    R.bounds += ["1 to 3 legs (thorough: 5), the three encodings, with and without orbit insertion, one and two objectives"]
    cs = []; big = R.tier != "quick"
    for n in ((1, 2, 3) if not big else (1, 2, 3, 4, 5)):
        for enc in ("direct", "alpha", "eta"):
            for oi, mo in ((0, 0), (1, 1), (1, 0), (0, 1)):
                if n > 1 and (oi, mo) not in ((0, 0), (1, 1)): continue
                nm, f = fitness(M, n, enc, bool(oi), bool(mo)); cs.append(PyCase("fitness-%s-%d%s%s" % (enc, n, "-insertion" if oi else "", "-two" if mo else ""), f, nm, [fam(nm)], timeout=60, dom=dom))
            nm, f = encodings(M, n, enc); cs.append(PyCase("encoding-%s-%d" % (enc, n), f, nm, [fam(nm)], timeout=60, dom=dom))
            nm, f = craft(M, n, enc); cs.append(PyCase("spacecraft-%s-%d" % (enc, n), f, nm, [fam(nm)], timeout=60, dom=dom, maxpaths=100))
    R.run(cs)
