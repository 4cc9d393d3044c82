"""Epochs: one exact count of microseconds behind every way of giving, reading, shifting and comparing a date."""
import dag, z3, symex, time, re, subprocess
from prop import *
T0 = 946684800 * 10**6; DAY = 86400 * 10**6
from fractions import Fraction
OFF = [Fraction(0), Fraction(51544), Fraction(4903089, 2)]         # MJD2000, MJD, JD of 2000-01-01T00:00
CAL = ["MJD2000", "MJD", "JD"]
UNIT = [1, 10**3, 10**6, 3600 * 10**6, DAY, DAY, 10**6, DAY]
UNAME = "microseconds milliseconds seconds hours days days() sec() real-days".split()
OPS = ["+", "-", "+=", "-="]
K = dag.const
INTS = ("t", "t2", "n")

# ------------------------------------------------------------------ integer-valued reals
def hook(E):
    def d2i(E, v, w, signed):
        if v.op == "var" and v.val in INTS: return symex.IntN(v)
        return E.truncated(v)
    E.dtoi_hook = d2i
def fam(ints=(), reals=(), tmax=2e15, nmax=10**6, dmax=36525.0, doff=0.0):
    def smp(rng, n):
        S = {}
        for x in ints: S[x] = (np.where(rng.random(n) < 0.3, rng.integers(-5, 6, n), rng.integers(-int(tmax), int(tmax), n)) if x != "n" else rng.integers(-nmax, nmax, n)).astype(float)
        for x in reals: S[x] = doff + np.where(rng.random(n) < 0.3, rng.integers(-3000, 3000, n), rng.uniform(-dmax, dmax, n))
        if "t2" in S: S["t2"] = np.where(rng.random(n) < 0.3, S["t"], S["t2"])
        return S
    keep = (lambda S: np.all([(S[x] == np.floor(S[x])) & (abs(S[x]) < 2.0**52) for x in ints], 0)) if ints else None
    return Family("every value", lambda A: [A.newvar(x) for x in list(ints) + list(reals)], smp, "every integer count / every real number of days", keep=keep)
def reps(c, o, ticks):
    """the three day counts of a tick count"""
    for i in range(3): yield Zero(CAL[i] + " of the epoch", o[i] - ((ticks - K(T0)) / K(DAY) + K(OFF[i])))
def within(label, d, b):
    yield Pos(label + " (above)", K(b) - d); yield Pos(label + " (below)", d + K(b))
def days_spec(k):
    def sp(c):
        if c.kind != "ok": yield Truth("no exception", False); return
        d = c.v("d"); yield from reps(c, c.o, c.o[3])
        yield from within("round trip within a microsecond", c.o[k] - d, Fraction(1, DAY))
    return sp
def ulp(x): return 8 * abs(x) * 2.0**-52
def reps_bad(o, ticks):
    for i in range(3):
        e = (Fraction(ticks) - T0) / DAY + OFF[i]
        if not abs(Fraction(o[i]) - e) <= ulp(float(e)) + 1e-15: return "%s is %r, expected %r" % (CAL[i], o[i], float(e))
def days_or(k):
    def orc(inp, rc, o):
        if rc: return "raised %s" % CODES.get(rc, rc)
        r = reps_bad(o, int(o[3]))
        if r: return r
        if not abs(o[k] - inp[0]) <= 1.0 / DAY + ulp(inp[0]): return "epoch(%r, %s) reads back as %r" % (inp[0], CAL[k], o[k])
    return orc
def ticks_spec(c):
    if c.kind != "ok": yield Truth("no exception", False); return
    yield Zero("tick count kept", c.o[3] - c.v("t")); yield from reps(c, c.o, c.v("t"))
def ticks_or(inp, rc, o):
    if rc: return "raised %s" % CODES.get(rc, rc)
    return "tick count %r became %r" % (inp[0], o[3]) if o[3] != inp[0] else reps_bad(o, int(inp[0]))
def shift_spec(op, u):
    def sp(c):
        if c.kind != "ok": yield Truth("no exception", False); return
        s = K(UNIT[u] * (-1 if op & 1 else 1)); d = c.o[0] - c.v("t") - s * c.v("n" if u < 5 else "d")
        if u < 5: yield Zero("shifted by exactly the duration", d)
        else: yield from within("shifted by the duration within a microsecond", d, 1)
    return sp
def shift_or(op, u):
    def orc(inp, rc, o):
        if rc: return "raised %s" % CODES.get(rc, rc)
        e = Fraction(inp[0]) + Fraction(inp[1]) * UNIT[u] * (-1 if op & 1 else 1)
        if abs(e) > 2**52: return None
        if (o[0] != e) if u < 5 else not abs(Fraction(o[0]) - e) <= 1 + Fraction(ulp(inp[1])) * UNIT[u]: return "epoch %s %r %s: count %r, expected %s" % (OPS[op], inp[1], UNAME[u], o[0], float(e))
    return orc
def cmp_spec(c):
    if c.kind != "ok": yield Truth("no exception", False); return
    d = c.v("t") - c.v("t2"); yield Zero("difference", c.o[0] - d); yield Zero("difference in seconds", c.o[1] - d / K(10**6))
    if any(x.op != "const" for x in c.o[2:8]): yield Truth("comparisons are definite", False); return
    lt, le, gt, ge, eq, ne = (x.val == 1 for x in c.o[2:8])
    yield Truth("exactly one of <, ==, > and the others are their negations", [lt, eq, gt].count(True) == 1 and le == (not gt) and ge == (not lt) and ne == (not eq))
    yield Pos("a < b only when earlier", -d) if lt else Pos("a > b only when later", d) if gt else Zero("a == b only when equal", d)
def cmp_or(inp, rc, o):
    if rc: return "raised %s" % CODES.get(rc, rc)
    a, b = inp; e = [a < b, a <= b, a > b, a >= b, a == b, a != b]
    if o[0] != a - b: return "difference %r, expected %r" % (o[0], a - b)
    if abs(o[1] - (a - b) * 1e-6) > ulp(o[1]): return "as_sec %r, expected %r" % (o[1], (a - b) * 1e-6)
    if [x == 1 for x in o[2:8]] != e: return "comparisons (<,<=,>,>=,==,!=) of counts %r, %r: %r" % (a, b, o[2:8])
def zero_spec(c):
    if c.kind != "ok": yield Truth("no exception", False); return
    yield Zero("default epoch is 0 MJD2000", c.o[0] - K(T0))
    yield Zero("epoch of a duration counts from 0 MJD2000", c.o[1] - K(T0) - K(10**6) * c.v("n"))
def zero_or(inp, rc, o):
    if rc: return "raised %s" % CODES.get(rc, rc)
    if o[0] != T0: return "default epoch: count %r" % o[0]
    if o[1] != T0 + 10**6 * inp[0]: return "epoch(%d s) has count %r, expected %r (reference 0 MJD2000)" % (inp[0], o[1], T0 + 10**6 * inp[0])
def cases(tier):
    L = [Case("days-" + CAL[k], "h_ep_days", ["d"], 4, [fam(reals=["d"], doff=float(OFF[k]))], days_spec(k), days_or(k), k=k, engine_hook=hook) for k in range(3)]
    L.append(Case("ticks", "h_ep_ticks", ["t"], 4, [fam(["t"])], ticks_spec, ticks_or, engine_hook=hook))
    for op in range(4):
        for u in range(8):
            big = UNIT[u] >= DAY // 24
            f = fam(["t"] + (["n"] if u < 5 else []), [] if u < 5 else ["d"], nmax=10**4 if big else 10**9 if u < 3 else 10**6)
            L.append(Case("shift%s-%s" % (OPS[op], UNAME[u]), "h_ep_shift", ["t", "n" if u < 5 else "d"], 1, [f], shift_spec(op, u), shift_or(op, u), k=op, k2=u, engine_hook=hook))
    L.append(Case("compare", "h_ep_cmp", ["t", "t2"], 8, [fam(["t", "t2"])], cmp_spec, cmp_or, engine_hook=hook))
    L.append(Case("reference", "h_ep_zero", ["n"], 2, [fam(["n"], nmax=10**9)], zero_spec, zero_or, engine_hook=hook))
    return L

# ------------------------------------------------------------------ the calendar: bit-vectors
def query(cons, ms, names):
    """z3 on the bit-vectors for a second, then cvc5 on their integer translation -> verdict, values of names"""
    t = time.time(); s = z3.SolverFor("QF_BV"); s.set("timeout", 1000); s.add(*cons)
    try: r = str(s.check())
    except z3.Z3Exception: r = "unknown"
    vals = None; cubes = "y" in names
    if r == "sat": m = s.model(); vals = {n: m.eval(z3.BitVec(n, 32), model_completion=True).as_signed_long() for n in names}
    if r == "unknown":
        tl = 15000 if cubes else ms; plain = z3.Solver(); plain.add(*cons)
        txt = re.sub(r"(bv(?:udiv|sdiv|urem|srem|smod))_i\b", r"\1", plain.sexpr()) + "(check-sat)\n"
        for n in names:
            if "(declare-fun %s " % n not in txt: txt = "(declare-fun %s () (_ BitVec 32))\n" % n + txt
        try:
            out = subprocess.run(["cvc5", "--solve-bv-as-int=sum", "--produce-models", "--tlimit=%d" % tl, "-"], text=True, capture_output=True, timeout=tl / 1000 + 10,
                                 input="(set-logic ALL)\n" + txt + ("(get-value (%s))\n" % " ".join(names) if names else "")).stdout
        except (OSError, subprocess.TimeoutExpired): out = ""
        if os.environ.get("KSE_DEBUG"): print(out[:300], txt[:200])
        r = out.split("\n")[0].strip()
        if r not in ("sat", "unsat"): r = "unknown"
        if r == "sat":
            vals = {}
            for n, x in re.findall(r"\((\w+) #b([01]+)\)", out): vals[n] = int(x, 2) - (1 << 32 if x[0] == "1" else 0)
            if len(vals) != len(names): r = "unknown"
    if r == "unknown" and cubes:                  # cubes of 1024 years, bit-blasted
        y = z3.BitVec("y", 32); r = "unsat"; s.set("timeout", ms)
        for lo in range(-32768, 32768, 1024):
            s.push(); s.add(y >= lo, y < lo + 1024); c = str(s.check())
            if c == "sat": m = s.model(); vals = {n: m.eval(z3.BitVec(n, 32), model_completion=True).as_signed_long() for n in names}
            s.pop()
            if c != "unsat": r = c; break
        if r == "unsat": s.add(z3.Or(y < -32768, y >= 32768)); r = str(s.check())
    S = solve.STATS; S["queries"] += 1; S["time"] += time.time() - t; S[r] = S.get(r, 0) + 1
    return r, vals
def sgn(m, v): return m.eval(v, model_completion=True).as_signed_long()
def errno(E, a):
    r = E.gaddr.get("errno")
    if r is None: r = E.gaddr["errno"] = E.alloc(4, "errno"); E.raw_store(r, 4, 0)
    return r
def strtol(E, a):
    """base 10; a symbolic character must be a digit for every input of the path"""
    p, end = a[0], a[1]
    if a[2] != 10: raise symex.Unsupported("strtol base")
    byte = lambda q: E.load_i(q, 8)
    q = p; b = byte(q); neg = False
    while isinstance(b, int) and (b == 32 or 9 <= b <= 13): q += 1; b = byte(q)
    if isinstance(b, int) and b in (43, 45): neg = b == 45; q += 1; b = byte(q)
    v = 0; n = 0
    while True:
        if isinstance(b, int):
            if not 48 <= b <= 57: break
            d = b - 48
        else:
            f = E.zforced(z3.And(z3.UGE(b, 48), z3.ULE(b, 57)))
            if f is None: raise symex.Unsupported("strtol of a character that may not be a digit")
            if f == 0: break
            d = z3.ZeroExt(56, b - 48)
        v = v * 10 + d; n += 1; q += 1; b = byte(q)
        if n > 17: raise symex.Unsupported("strtol of a long number")
    if end: E.raw_store(end, 8, q if n else p)
    if neg: v = -v
    return v & ((1 << 64) - 1) if isinstance(v, int) else z3.simplify(v)
def bv_case(R, name, entry, names, facts, label, k=0, nout=1, maxpaths=600, want=None, ms=60000):
    """entry returns 1 for every integer input that meets facts"""
    if os.environ.get("KSE_CASE") and name not in os.environ["KSE_CASE"].split(","): return
    V = {n: z3.BitVec(n, 32) for n in names}; st0 = dict(solve.STATS)
    F = facts(V)
    def viol(vals, why=None):
        inp = [float(vals[n]) for n in names]
        rc, o = R.nat(entry, inp, nout, k)
        if rc == 1: return None
        return {"case": name, "label": label, "path": 0, "family": "-", "entry": entry, "k": k, "k2": 0, "inputs": inp, "names": names, "nout": nout,
                "rc": rc, "out": o, "why": (want(vals) if want else "%s does not hold for %s" % (label, vals)) + ("" if rc == 0 else " (raised %s)" % CODES.get(rc, rc))}
    def thunk(E):
        a = E.alloc(8 * max(1, len(names)), "in"); o = E.alloc(8 * nout, "out")
        for i, n in enumerate(names): E.raw_store(a + 8 * i, 8, dag.var(n))
        E.models = {"strtol": strtol, "__isoc23_strtol": strtol, "__errno_location": errno}; E.itod_hook = None; E.max_steps = 3_000_000; E.zfacts = list(F)
        def d2i(E, v, w, signed):
            if v.op == "var" and v.val in V: return V[v.val] if w == 32 else z3.SignExt(w - 32, V[v.val])
        E.dtoi_hook = d2i
        return E.call(R.mods[0], entry, [a, o, k, 0])
    E = R.E; E.feasible = None; E.root_mode = "conv"; n = 0; bad = []; v = None; open_ = []
    for p in E.explore(thunk, maxpaths, 240):
        n += 1; cons = list(F) + [c if d else z3.Not(c) for c, d in p.trail if not isinstance(c, Node)]
        if p.kind == "ok":
            rc = p.res
            if isinstance(rc, int):
                if rc == 1: continue
            else: cons.append(rc != 1)
        elif p.kind != "throw": open_.append("%s: %s" % (p.kind, p.res or p.note)); 
        r, vals = query(cons, ms, names)
        if r == "unsat":
            if p.kind in ("ok", "throw"): continue
            open_.pop() if open_ else None; continue
        if r == "unknown": open_.append("%s: solver gave no answer" % label); continue
        v = viol(vals)
        if v: break
        if p.kind in ("ok", "throw"): open_.append("%s: the executor and the code differ at %s" % (label, vals))
    for k_, c in E.calls_seen.items(): R.calls[k_] = R.calls.get(k_, 0) + (c if isinstance(c, int) else 1)
    R.npaths[name] = n
    if not v and (open_ or not n):                        # open: look for a counterexample natively before giving up
        rng = np.random.default_rng(R.seed); s = z3.Solver(); s.add(*F)
        for _ in range(20):
            if s.check() != z3.sat: break
            m = s.model(); vals = {x: sgn(m, V[x]) for x in names}; v = viol(vals)
            if v: break
            s.add(z3.Or([V[x] != vals[x] for x in names]) if names else z3.BoolVal(False))
    ok = not v and not open_ and n > 0
    R.obligation(name, label, ok, v, None if ok else "; ".join(open_[:3]))
    R.results[-1]["stats"] = {k_: solve.STATS[k_] - st0.get(k_, 0) for k_ in solve.STATS}

def year(v, lo=-32767, hi=32767): return [v >= lo, v <= hi]
def rng_(v, lo, hi): return [v >= lo, v <= hi]
def digits(V): return [c for v in V.values() for c in rng_(v, 0, 9)]
def calendar(R):
    """the bit-vector cases, eight at a time"""
    jobs = []; names = set()
    def bv(*a, **k): jobs.append((a, k))
    calendar_cases(bv)
    only = os.environ.get("KSE_CASE")
    if only: jobs[:] = [j for j in jobs if j[0][0] in only.split(",")]
    def work(j):
        R.results = []; R.calls = {}; R.npaths = {}
        bv_case(R, *j[0], **j[1]); return json.dumps([R.results, R.calls, R.npaths], default=str)
    global _work; _work = lambda i: work(jobs[i])
    import multiprocessing as mpc
    with mpc.get_context("fork").Pool(8, maxtasksperchild=1) as P:
        left = lambda: max(5.0, R.budget - (time.time() - R.t0))
        rs = [P.apply_async(_call, (i,)) for i in range(len(jobs))]
        for (a, k), r in zip(jobs, rs):
            try:
                res, calls, paths = json.loads(r.get(left())); R.results += res; R.npaths.update(paths)
                for x, n in calls.items(): R.calls[x] = R.calls.get(x, 0) + n
            except (mpc.TimeoutError, ValueError): R.obligation(a[0], "time limit", False)
        P.terminate()
def _call(i): return _work(i)
def calendar_cases(bv_case):
    bv_case("origins", "h_ep_origin", [], lambda V: [], "2000-01-01, 1970-01-01 and 1858-11-17 are the calendars' origins")
    for m in range(1, 13):
        bv_case("day-of-month-%d" % m, "h_ep_day", ["y", "d"], lambda V: year(V["y"]) + rng_(V["d"], 1, 31), "consecutive days are 86400 s apart", k=m)
        bv_case("month-%d" % m, "h_ep_month", ["y"], lambda V: year(V["y"], -32767, 32766), "the month has its Gregorian length", k=m)
    big = 2**31 - 1
    bv_case("time-of-day", "h_ep_time", ["h", "mi", "s", "ms", "us"], lambda V: [], "hours, minutes, seconds, milli- and microseconds add up", ms=120000)
    bv_case("range", "h_ep_reject", ["y", "m", "d"], lambda V: [], "a date is rejected exactly when year, month or day is out of range",
            want=lambda v: "epoch(%d, %d, %d) is %s" % (v["y"], v["m"] % 2**32, v["d"] % 2**32, "accepted" if not (-32767 <= v["y"] <= 32767 and 1 <= v["m"] <= 12 and 1 <= v["d"] <= 31) else "rejected"))
    N = ["c%d" % i for i in range(20)]
    for k in (7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26):
        bv_case("string-%d" % k, "h_ep_string", N, digits, "the string and its fields give the same epoch", k=k)
    for k in range(27):
        bv_case("length-%d" % k, "h_ep_badlength", [], lambda V: [], "a string of another length is rejected", k=k) if k not in (7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26) else None
def run(R):
    R.bounds += ["counts of microseconds as unbounded integers (no overflow); real arithmetic for day counts", "calendar: every 16-bit year chrono allows, every day and month, 32-bit times of day",
                 "strings: every digit of every accepted length, with the separators of the ISO format"]
    R.setup([build.REPO + "/src/epoch.cpp", build.H + "/h_epoch.cpp"], "epoch")
    R.run(cases(R.tier))
    calendar(R)
