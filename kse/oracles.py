"""Independent high-precision references (mpmath), used only to judge native replays."""
import mpmath as mp, math
mp.mp.dps = 40
mpf = mp.mpf

def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def norm(a): return mp.sqrt(dot(a, a))

def kepler_ell(M, e):
    """E in real line with E - e sin E = M"""
    k = mp.nint(M / (2 * mp.pi)); m = M - 2 * mp.pi * k
    lo, hi = m - e, m + e
    for _ in range(30):
        c = (lo + hi) / 2
        if c - e * mp.sin(c) > m: hi = c
        else: lo = c
    x = (lo + hi) / 2
    for _ in range(60):
        d = (x - e * mp.sin(x) - m) / (1 - e * mp.cos(x)); y = x - d
        if not lo <= y <= hi: y = (lo + hi) / 2
        if y - e * mp.sin(y) > m: hi = y
        else: lo = y
        if abs(y - x) < mpf(10) ** (-36): x = y; break
        x = y
    return x + 2 * mp.pi * k
def kepler_hyp(N, e):
    s = 1 if N >= 0 else -1; n = abs(N)
    lo, hi = mpf(0), mp.asinh(n / e) + 1
    while e * mp.sinh(hi) - hi < n: hi *= 2
    x = hi
    for _ in range(300):
        f = e * mp.sinh(x) - x - n
        if f > 0: hi = x
        else: lo = x
        y = x - f / (e * mp.cosh(x) - 1)
        if not lo < y < hi: y = (lo + hi) / 2
        if abs(y - x) < mpf(10) ** (-36) * max(1, abs(x)): x = y; break
        x = y
    return s * x

def kepler_flow(r, v, t, mu):
    """Keplerian flow by way of the eccentricity vector (not Lagrange coefficients)"""
    r = [mpf(x) for x in r]; v = [mpf(x) for x in v]; t = mpf(t); mu = mpf(mu)
    R = norm(r); h = cross(r, v); H2 = dot(h, h)
    en = dot(v, v) / 2 - mu / R; a = -mu / (2 * en)
    rv = dot(r, v)
    ev = [((dot(v, v) - mu / R) * r[i] - rv * v[i]) / mu for i in range(3)]
    e = norm(ev)
    if e < mpf(10) ** -30:
        ph = [x / R for x in r]; e = mpf(0)
    else: ph = [x / e for x in ev]
    H = mp.sqrt(H2); wh = [x / H for x in h]; qh = cross(wh, ph)
    if a > 0:
        n = mp.sqrt(mu / a ** 3)
        E0 = mp.atan2(dot(r, qh) / mp.sqrt(1 - e * e), dot(r, ph) + a * e)
        E = kepler_ell(E0 - e * mp.sin(E0) + n * t, e)
        b = a * mp.sqrt(1 - e * e)
        X = a * (mp.cos(E) - e); Y = b * mp.sin(E); Rf = a * (1 - e * mp.cos(E))
        Ed = n * a / Rf
        VX = -a * mp.sin(E) * Ed; VY = b * mp.cos(E) * Ed
    else:
        n = mp.sqrt(-mu / a ** 3); al = -a
        b = al * mp.sqrt(e * e - 1)
        F0 = mp.asinh(dot(r, qh) / b)
        F = kepler_hyp(e * mp.sinh(F0) - F0 + n * t, e)
        X = al * (e - mp.cosh(F)); Y = b * mp.sinh(F); Rf = al * (e * mp.cosh(F) - 1)
        Fd = n * al / Rf
        VX = -al * mp.sinh(F) * Fd; VY = b * mp.cosh(F) * Fd
    return [X * ph[i] + Y * qh[i] for i in range(3)] + [VX * ph[i] + VY * qh[i] for i in range(3)]

def kepler_stm(r, v, t, mu, h=None):
    """Jacobian of the flow by central differences in 40+ digit arithmetic"""
    y = [mpf(x) for x in list(r) + list(v)]
    R = norm(y[:3]); V = norm(y[3:])
    J = [[None] * 6 for _ in range(6)]
    old = mp.mp.dps; mp.mp.dps = 50
    try:
        for j in range(6):
            d = (R if j < 3 else V) * mpf(10) ** -16
            p = list(y); p[j] += d; m = list(y); m[j] -= d
            a = kepler_flow(p[:3], p[3:], t, mu); b = kepler_flow(m[:3], m[3:], t, mu)
            for i in range(6): J[i][j] = (a[i] - b[i]) / (2 * d)
    finally: mp.mp.dps = old
    return J

def close(got, exp, tol, scale=None):
    """None when |got-exp| <= tol*scale for all, else text"""
    for i, (g, e) in enumerate(zip(got, exp)):
        sc = scale[i] if isinstance(scale, (list, tuple)) else (scale if scale is not None else max(1, abs(e)))
        if not (g == g) or abs(mpf(g) - e) > tol * sc:
            return "component %d: got %r, expected %s (tolerance %s)" % (i, float(g), mp.nstr(e, 17), mp.nstr(mpf(tol) * sc, 3))
    return None

def flow_oracle(inp, outs, base=1e-7, sens=1e5):
    """final state vs reference; tolerance grows with the conditioning of the problem"""
    r, v, t, mu = inp[:3], inp[3:6], inp[6], inp[7]
    ref = kepler_flow(r, v, t, mu)
    Rr = norm([mpf(x) for x in r]); Vr = norm([mpf(x) for x in v])
    sc = [max(Rr, norm(ref[:3]))] * 3 + [max(Vr, norm(ref[3:]))] * 3
    tol = [base * s for s in sc]
    eps = mpf(2) ** -52
    pert = [(list(r), list(v), t * (1 + eps)), ([r[0] + float(Rr) * 0 + mpf(r[0]) * eps, r[1], r[2] * (1 + eps)], v, t), (r, [v[0] * (1 + eps), v[1] * (1 + 2 * eps), v[2] * (1 - eps)], t), (r, v, mpf(t) * (1 - 3 * eps))]
    for a, b, c in pert:
        p = kepler_flow(a, b, c, mu)
        for i in range(6): tol[i] += sens * abs(p[i] - ref[i])
    for i in range(6):
        if tol[i] > 0.05 * sc[i]: return None            # too ill-conditioned to judge
    return close(outs, ref, 1, tol)
