"""The shared integrator caches can be used from several threads: no data race, no deadlock, for every interleaving of two threads."""
import os, subprocess, time, z3
import dag, symex, build, solve
from prop import *
FAMS = ["get_ta_stark", "get_ta_stark_var", "get_ta_cr3bp", "get_ta_cr3bp_var"]
ACTS = ["%s(%s)" % (f, x) if x else f + "_cache_dim()" for f in FAMS for x in ("known tolerance, then use", "new tolerance", "")]

class Trace:
    """events of the code between the marks: (kind, object, offset, size) with kind L/l/U (lock exclusive, lock shared, unlock), R, W"""
    def __init__(self): self.on = False; self.ev = []; self.inG = []; self.passed = []; self.nobj = 0
def ident(E, a):
    o = E.objs[a >> 32]; return a >> 32 if o.name == "heap" else o.name
def instrument(E, T):
    rl, rs, mc, ms, al = (getattr(type(E), n).__get__(E) for n in ("raw_load", "raw_store", "memcpy", "memset", "alloc"))
    def rec(kind, addr, size):
        if not T.on or not isinstance(addr, int) or not isinstance(size, int) or not size: return
        i, off = addr >> 32, addr & 0xffffffff
        if i >= len(E.objs): return
        o = E.objs[i]; nm = o.name
        if i in T.mine or nm in ("alloca", "in", "out", "exc") or nm.startswith(("fn:", "_ZGV", "ext:")) or "heyoka3kse" in nm or nm == "heap" and i >= T.nobj: return
        T.ev.append((kind, i if nm == "heap" else nm, off, size, tuple(T.inG), tuple(T.passed), nm))
    def load(addr, size): rec("R", addr, size); return rl(addr, size)
    def store(addr, size, v): rec("W", addr, size); return rs(addr, size, v)
    def memcpy(d, s, n):
        n = E.concretize(n); rec("R", s, n); rec("W", d, n); return mc(d, s, n)
    def memset(d, v, n):
        n = E.concretize(n); rec("W", d, n); return ms(d, v, n)
    def alloc(size, name=""):
        a = al(size, name)
        if T.on and name in ("heap", "alloca", "exc"): T.mine.add(a >> 32)
        return a
    ga = type(E).gaddress.__get__(E)
    def gaddress(mod, name):                     # a global the executor sets up on first use is no access of the program
        on, T.on = T.on, False
        try: return ga(mod, name)
        finally: T.on = on
    T.mine = set(); E.gaddress = gaddress
    E.raw_load, E.raw_store, E.memcpy, E.memset, E.alloc = load, store, memcpy, memset, alloc
    def mark(E, a):
        T.on = bool(a[0])
        if T.on: T.nobj = len(E.objs); T.held = []
        return 0
    def lock(mode):
        def f(E, a):
            if T.on: T.ev.append((mode, ident(E, a[0]), a[0] & 0xffffffff, 0, tuple(T.inG), tuple(T.passed), E.objs[a[0] >> 32].name))
            return 0
        return f
    def gacq(E, a):
        r = E_guard_acq(E, a)
        if T.on and r: T.ev.append(("L", ident(E, a[0]), a[0] & 0xffffffff, 0, (), (), "guard")); T.inG.append(ident(E, a[0]))
        if T.on and ident(E, a[0]) not in T.passed: T.passed.append(ident(E, a[0]))
        return r
    def grel(E, a):
        r = E_guard_rel(E, a)
        if T.on and ident(E, a[0]) in T.inG: T.inG.remove(ident(E, a[0])); T.ev.append(("U", ident(E, a[0]), a[0] & 0xffffffff, 0, (), (), "guard"))
        return r
    import extmodels as X
    E_guard_acq, E_guard_rel = X._guard_acq, X._guard_rel
    def free(E, a):
        if a[0] and isinstance(a[0], int): rec("W", a[0], E.objs[a[0] >> 32].size)
        return 0
    M = E.models
    M["kse_mark"] = mark; M["__cxa_guard_acquire"] = gacq; M["__cxa_guard_release"] = grel
    for n in ("pthread_mutex_lock", "pthread_mutex_trylock", "pthread_rwlock_wrlock"): M[n] = lock("L")
    M["pthread_rwlock_rdlock"] = lock("l")
    for n in ("pthread_mutex_unlock", "pthread_rwlock_unlock"): M[n] = lock("U")
    for n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free"): M[n] = free

def trace(R, act, filled):
    """-> (Trace or None, reason)"""
    T = Trace(); out = []
    case = Case("t", "h_ta_thread", [], 1, [], None, None, k=act, k2=filled, engine_hook=lambda E: instrument(E, T))
    E = R.E
    try:
        for p in E.explore(make_thunk(R.mods, case), 4, 60):
            out.append(p)
            if p.kind == "unsupported": break
    finally:
        for n in ("raw_load", "raw_store", "memcpy", "memset", "alloc", "gaddress"): E.__dict__.pop(n, None)
        E.models = {}
    for k, v in E.calls_seen.items(): R.calls[k] = R.calls.get(k, 0) + (v if isinstance(v, int) else 1)
    R.npaths["thread %s%s" % (ACTS[act], " with %d cached" % filled)] = len(out)
    if len(out) != 1: return None, "%d paths" % len(out)
    if out[0].kind != "ok": return None, "%s %s" % (out[0].kind, out[0].res)
    return T, None

def regions(ev):
    """[(mutex, shared?, index of lock, index of unlock)], mutexes still held, relocked mutex or None"""
    st = []; R = []; again = None
    for i, e in enumerate(ev):
        if e[0] in "Ll":
            m = e[1:3]
            if any(s[0] == m for s in st) and e[0] == "L": again = m
            st.append((m, e[0] == "l", i))
        elif e[0] == "U":
            for j in range(len(st) - 1, -1, -1):
                if st[j][0] == e[1:3]: m, s, k = st.pop(j); R.append((m, s, k, i)); break
    for m, s, k in st: R.append((m, s, k, len(ev)))
    return R, [s[0] for s in st], again
def compress(ev):
    """one access of each kind, object and bytes between two lock operations"""
    out = []; seen = set()
    for e in ev:
        if e[0] in "LlU": seen = set(); out.append(e)
        elif e not in seen: seen.add(e); out.append(e)
    return out
def overlap(a, b): return a[1] == b[1] and a[2] < b[2] + b[3] and b[2] < a[2] + a[3]
STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}
def ask(S):
    t0 = time.time(); r = S.check()
    STATS["queries"] += 1; STATS["time"] += time.time() - t0; STATS["unsat" if r == z3.unsat else "sat" if r == z3.sat else "unknown"] += 1
    return r
def race(A, B):
    """is there a schedule of the two threads in which two conflicting accesses are simultaneous? -> None or (eventA, eventB); 'unknown'"""
    A, B = compress(A), compress(B)
    S = z3.Solver(); S.set("timeout", 60000)
    ta = [z3.Int("a%d" % i) for i in range(len(A) + 1)]; tb = [z3.Int("b%d" % i) for i in range(len(B) + 1)]
    for t in (ta, tb):
        S.add(t[0] >= 0)
        for x, y in zip(t, t[1:]): S.add(x < y)
    RA, RB = regions(A)[0], regions(B)[0]
    for m, s, i, j in RA:
        for m2, s2, k, l in RB:
            if m == m2 and not (s and s2): S.add(z3.Or(ta[j] < tb[k], tb[l] < ta[i]))
    pairs = []
    byobj = {}
    for j, b in enumerate(B):
        if b[0] in "RW": byobj.setdefault(b[1], []).append((j, b))
    for i, a in enumerate(A):
        if a[0] not in "RW": continue
        for j, b in byobj.get(a[1], ()):
            if (a[0] == "W" or b[0] == "W") and overlap(a, b) and not (set(a[4]) & set(b[5]) or set(b[4]) & set(a[5])): pairs.append((i, j))
    v = [z3.Bool("p%d" % n) for n in range(len(pairs))]
    for x, (i, j) in zip(v, pairs): S.add(z3.Implies(x, ta[i] == tb[j]))
    S.add(z3.Or(v) if v else z3.BoolVal(False))
    r = ask(S)
    if r == z3.unsat: return None, len(pairs)
    if r != z3.sat: return "unknown", len(pairs)
    m = S.model()
    n = next(n for n, x in enumerate(v) if z3.is_true(m[x]))
    return (A[pairs[n][0]], B[pairs[n][1]]), len(pairs)
def deadlock(A, B):
    """a reachable state in which both threads wait for a mutex the other holds"""
    A, B = compress(A), compress(B)
    S = z3.Solver(); S.set("timeout", 30000)
    ia, ib = z3.Ints("ia ib")
    RA, RB = regions(A)[0], regions(B)[0]; opts = []
    for m, s, i, j in RA:                        # A waits for m at i; B waits for m2 at k
        for m2, s2, k, l in RB:
            ha = any(q[0] == m2 and q[2] < i < q[3] and not (q[1] and s2) for q in RA)
            hb = any(q[0] == m and q[2] < k < q[3] and not (q[1] and s) for q in RB)
            if ha and hb: opts.append(z3.And(ia == i, ib == k))
    # both prefixes must be jointly executable: mutual exclusion of the regions open at (ia, ib)
    for m, s, i, j in RA:
        for m2, s2, k, l in RB:
            if m == m2 and not (s and s2): S.add(z3.Not(z3.And(i < ia, ia <= j, k < ib, ib <= l)))
    S.add(z3.Or(opts) if opts else z3.BoolVal(False))
    r = ask(S)
    return r
_exe = []
def tsan(a, b, filled):
    """the real code in two threads under the race detector -> text or None"""
    if not _exe:
        exe = os.path.join(build.work(), "tsan"); _exe.append(exe)
        build._run(["clang++-18", "-std=c++20", "-O1", "-g", "-fsanitize=thread", "-w", "-DKSE_TSAN", "-DKSE_NATIVE", "-DBOOST_ALLOW_DEPRECATED_HEADERS"] + build.inc(False) + build.paths("ta", ["h_tat.cpp"]) + ["-o", exe, "-lpthread"])
    for i in range(6):
        try: p = subprocess.run([_exe[0], str(a), str(b), str(filled)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=10, errors="replace")
        except subprocess.TimeoutExpired: return "the two threads never finish (deadlock)"
        if "data race" in p.stdout or "lock-order-inversion" in p.stdout or "double lock" in p.stdout:
            l = [x.strip() for x in p.stdout.split("\n") if "kep3::ta::" in x]
            return "the race detector reports %s: %s" % ("a data race" if "data race" in p.stdout else "a lock error", "; ".join(x[:160] for x in l[:4]))
        if p.returncode not in (0, 66): return "crash (exit %d)" % p.returncode
    return None
def run(R):
    R.bounds += ["two threads, each one call of the four caches' accessors (known tolerance and use of the answer, new tolerance, size), on caches that hold 0 to 3 integrators; every interleaving of their memory accesses and lock operations is a solution of the schedule variables",
                 "the trace of a call is the one it has when it runs alone from that state (a race or deadlock is searched in the first conflicting accesses); heyoka is replaced by a stand-in whose own storage is not counted"]
    R.setup(build.paths("ta", ["h_ta.cpp", "h_tat.cpp"]), "ta")
    tr = {}
    for e in range(4):
        for a in range(12):
            if not e and a % 3 == 0: continue    # no known tolerance in empty caches
            T, why = trace(R, a, e)
            if T is None: R.obligation("trace", "%s%s" % (ACTS[a], " with %d cached" % e), False, note=why); continue
            tr[a, e] = T.ev
            _, held, again = regions(T.ev)
            n = "%s%s" % (ACTS[a], " with %d cached" % e)
            def viol(lab, a=a, e=e):
                t = tsan(a, a, e)
                return t and {"case": n, "label": lab, "inputs": [a, a, e], "rc": 0, "why": t, "entry": "h_tat", "k": a, "k2": e}
            R.obligation(n, "every mutex is released", not held, viol("every mutex is released") if held else None)
            R.obligation(n, "no mutex is locked twice", again is None, viol("no mutex is locked twice") if again else None)
    todo = [(a, b, e) for (a, e) in tr for b in range(a, 12) if (b, e) in tr]
    bad = 0
    for a, b, e in todo:
        nm = "%s || %s%s" % (ACTS[a], ACTS[b], " with %d cached" % e)
        if bad >= 4: R.obligation(nm, "no data race", False, note="not decided: violations already found"); continue
        r, n = race(tr[a, e], tr[b, e])
        v = None
        if r is not None and r != "unknown":
            t = tsan(a, b, e)
            if t:
                v = {"case": nm, "label": "no data race", "inputs": [a, b, e], "rc": 0, "entry": "h_tat", "k": a, "k2": e, "why": "%s (schedule: the first thread %ss %s+%d while the second %ss it)" % (t, "write" if r[0][0] == "W" else "read", r[0][6], r[0][2], "write" if r[1][0] == "W" else "read")}; bad += 1
        R.obligation(nm, "no data race (%d conflicting pairs)" % n if r is None else "no data race", r is None, v, None if r is None or v else "solver %s, not confirmed by the race detector" % ("unknown" if r == "unknown" else "schedule"))
        d = deadlock(tr[a, e], tr[b, e]); v = None
        if d == z3.sat:
            t = tsan(a, b, e)
            if t: v = {"case": nm, "label": "no deadlock", "inputs": [a, b, e], "rc": 0, "entry": "h_tat", "k": a, "k2": e, "why": t}
        R.obligation(nm, "no deadlock", d == z3.unsat, v)
    R.own_stats = STATS
