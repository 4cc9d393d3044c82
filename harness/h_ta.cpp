// Entry points for the integrators' equations of motion; the native flow behind the heyoka stand-in.
#include <array>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <vector>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
#include <heyoka/taylor.hpp>
#include "kse.hpp"
using heyoka::kse::arena;
namespace hk = heyoka::kse;
static double ev_(int i, const double *x, const double *p)
{
    const auto &q = arena[i];
    switch (q.o) {
        case hk::NUM: return q.v;
        case hk::VAR: return x[q.a];
        case hk::PAR: return p[q.a];
        case hk::ADD: return ev_(q.a, x, p) + ev_(q.b, x, p);
        case hk::SUB: return ev_(q.a, x, p) - ev_(q.b, x, p);
        case hk::MUL: return ev_(q.a, x, p) * ev_(q.b, x, p);
        case hk::DIV: return ev_(q.a, x, p) / ev_(q.b, x, p);
        case hk::POW: return std::pow(ev_(q.a, x, p), arena[q.b].v);
        case hk::SQRT: return std::sqrt(ev_(q.a, x, p));
        case hk::EQ: return ev_(q.a, x, p) == ev_(q.b, x, p) ? 1. : 0.;
        default: return ev_(q.a, x, p) != 0. ? ev_(q.b, x, p) : ev_(q.c, x, p);
    }
}
#ifdef KSE_NATIVE
namespace
{
struct dual { double v; std::array<double, 16> d; };
// the nodes an equation system needs, in evaluation order (children precede their parents in the arena)
struct tape { std::vector<int> order; };
tape make_tape(const hk::system &s)
{
    std::vector<char> need(static_cast<unsigned>(hk::used), 0);
    for (int k = 0; k < s.n; ++k) need[s.rhs[k]] = 1;
    tape t;
    for (int i = hk::used - 1; i >= 0; --i) {
        if (!need[i]) continue;
        const auto &q = arena[i];
        if (q.o >= hk::ADD) need[q.a] = 1;
        if (q.o >= hk::ADD && q.o != hk::SQRT) need[q.b] = 1;
        if (q.o == hk::SEL) need[q.c] = 1;
    }
    for (int i = 0; i < hk::used; ++i) if (need[i]) t.order.push_back(i);
    return t;
}
void deriv(const hk::system &s, const tape &t, std::vector<dual> &w, const double *y, const double *p, double *f)
{
    const int nv = s.nv;
    for (int i : t.order) {
        const auto &q = arena[i];
        dual &r = w[i];
        for (int k = 0; k < nv; ++k) r.d[k] = 0;
        const dual &a = w[q.o >= hk::ADD ? q.a : 0], &b = w[q.o >= hk::ADD && q.o != hk::SQRT ? q.b : 0];
        auto lin = [&](double ka, double kb) { for (int k = 0; k < nv; ++k) r.d[k] = ka * a.d[k] + kb * b.d[k]; };
        switch (q.o) {
            case hk::NUM: r.v = q.v; break;
            case hk::VAR: r.v = y[q.a]; for (int k = 0; k < nv; ++k) r.d[k] = y[s.n + q.a * nv + k]; break;
            case hk::PAR: r.v = p[q.a]; for (int k = 0; k < nv; ++k) r.d[k] = s.arg[k] == 100 + q.a; break;
            case hk::ADD: r.v = a.v + b.v; lin(1, 1); break;
            case hk::SUB: r.v = a.v - b.v; lin(1, -1); break;
            case hk::MUL: r.v = a.v * b.v; lin(b.v, a.v); break;
            case hk::DIV: r.v = a.v / b.v; lin(1 / b.v, -r.v / b.v); break;
            case hk::POW: { r.v = std::pow(a.v, b.v); const double g = b.v * r.v / a.v; for (int k = 0; k < nv; ++k) r.d[k] = g * a.d[k]; break; }
            case hk::SQRT: { r.v = std::sqrt(a.v); const double g = .5 / r.v; for (int k = 0; k < nv; ++k) r.d[k] = g * a.d[k]; break; }
            case hk::EQ: r.v = a.v == b.v ? 1. : 0.; break;
            default: r = a.v != 0. ? b : w[q.c]; break;
        }
    }
    for (int k = 0; k < s.n; ++k) {
        f[k] = w[s.rhs[k]].v;
        for (int j = 0; j < nv; ++j) f[s.n + k * nv + j] = w[s.rhs[k]].d[j];
    }
}
}
// Gragg-Bulirsch-Stoer, 8 columns
extern "C" void kse_ta_flow(const hk::system *sp, const double *x0, const double *p, double dt, double *out)
{
    const auto &s = *sp;
    const int N = s.n + s.n * s.nv;
    std::vector<double> y(x0, x0 + N);
    const auto tp = make_tape(s);
    std::vector<dual> w(static_cast<unsigned>(hk::used));
    double t = 0, H = dt / (1 + std::floor(std::fmin(50., 3 * std::fabs(dt))));
    for (int st = 0; st < 2000 && t != dt; ++st) {
        if (std::fabs(H) > std::fabs(dt - t)) H = dt - t;
        std::vector<std::vector<double>> T;
        std::vector<double> a(N), b(N), c(N), f(N);
        for (int k = 1; k <= 8; ++k) {
            const int m = 2 * k;
            const double h = H / m;
            a = y;
            deriv(s, tp, w, a.data(), p, f.data());
            for (int i = 0; i < N; ++i) b[i] = a[i] + h * f[i];
            for (int j = 1; j < m; ++j) {
                deriv(s, tp, w, b.data(), p, f.data());
                for (int i = 0; i < N; ++i) c[i] = a[i] + 2 * h * f[i];
                a.swap(b); b.swap(c);
            }
            deriv(s, tp, w, b.data(), p, f.data());
            std::vector<double> r(N);
            for (int i = 0; i < N; ++i) r[i] = .5 * (a[i] + b[i] + h * f[i]);
            std::vector<std::vector<double>> row(1, r);
            for (int j = 1; j < k; ++j) {
                const double q = static_cast<double>(k) / (k - j), g = 1 / (q * q - 1);
                std::vector<double> n(N);
                for (int i = 0; i < N; ++i) n[i] = row[j - 1][i] + (row[j - 1][i] - T[j - 1][i]) * g;
                row.push_back(n);
            }
            T.swap(row);
        }
        double e = 0;
        for (int i = 0; i < N; ++i) {
            const int b = i < s.n ? (i < 6 ? i - i % 3 : 6) : s.n + (i - s.n) / s.nv * s.nv, l = i < s.n ? (i < 6 ? 3 : s.n - 6) : s.nv;
            double sc = 0;
            for (int j = b; j < b + l; ++j) sc = std::fmax(sc, std::fabs(T[7][j]));
            e = std::fmax(e, std::fabs(T[7][i] - T[6][i]) / (sc + 1e-300));
        }
        if (!(e <= 1e-12) && st < 1990 && std::isfinite(e)) { H /= 2; continue; }
        y = T[7];
        t = H == dt - t ? dt : t + H;
        if (e < 1e-14) H *= 1.5;
    }
    if (t != dt) for (double &v : y) v = std::numeric_limits<double>::quiet_NaN();
    for (int i = 0; i < N; ++i) out[i] = y[i];
}
#endif

// which: 0 stark, 1 stark variational, 2 cr3bp, 3 cr3bp variational
static const heyoka::taylor_adaptive<double> &get(int which, double tol)
{
    switch (which) {
        case 0: return kep3::ta::get_ta_stark(tol);
        case 1: return kep3::ta::get_ta_stark_var(tol);
        case 2: return kep3::ta::get_ta_cr3bp(tol);
        default: return kep3::ta::get_ta_cr3bp_var(tol);
    }
}
// in: parameters(5) state(n).  out: n np nv args(16) rhs(8), variational initial conditions
KSE_ENTRY(h_ta_rhs)
{
    const auto ta = get(k, 1e-12);
    const auto &s = ta.kse_system();
    out[0] = s.n; out[1] = s.np; out[2] = s.nv;
    for (int i = 0; i < s.nv && i < 16; ++i) out[3 + i] = s.arg[i];
    for (int i = 0; i < s.n && i < 8; ++i) out[19 + i] = ev_(s.rhs[i], in + 5, in);
    out[27] = static_cast<double>(ta.get_state().size()); out[28] = static_cast<double>(ta.get_pars().size());
    for (unsigned i = 0; i < ta.get_state().size() && i < 80u; ++i) out[29 + i] = ta.get_state()[i];
    out[109] = ta.get_tol();
    return 0;
}
KSE_END
// the dynamics as such
KSE_ENTRY(h_ta_dyn)
{
    const auto d = k == 0 ? kep3::ta::stark_dyn() : kep3::ta::cr3bp_dyn();
    out[0] = static_cast<double>(d.size());
    for (unsigned i = 0; i < d.size() && i < 8u; ++i) {
        const auto &q = arena[d[i].first.i];
        out[1 + i] = q.o == hk::VAR ? q.a : -1;
        out[9 + i] = ev_(d[i].second.i, in + 5, in);
    }
    return 0;
}
KSE_END
// caches: a sequence of tolerances 10^-in; out: tolerance of the answer, cache sizes
KSE_ENTRY(h_ta_cache)
{
    static const double tols[4] = {1e-16, 1e-12, 1e-8, 1e-12};
    int o = 0;
    for (int i = 0; i < 4; ++i) {
        const auto &a = get(k, tols[i]);
        out[o++] = a.get_tol() == tols[i];
        out[o++] = static_cast<double>(k == 0 ? kep3::ta::get_ta_stark_cache_dim() : k == 1 ? kep3::ta::get_ta_stark_var_cache_dim() : k == 2 ? kep3::ta::get_ta_cr3bp_cache_dim() : kep3::ta::get_ta_cr3bp_var_cache_dim());
        out[o++] = &a == &get(k, tols[i]);
    }
    return 0;
}
KSE_END
// the native flow: in: parameters(5) state(7) dt; k != 0: with variations
KSE_ENTRY(h_ta_flow)
{
    auto ta = get(k, 1e-16);
    for (unsigned i = 0; i < ta.get_pars().size(); ++i) ta.get_pars_data()[i] = in[i];
    const int n = ta.kse_system().n;
    for (int i = 0; i < n; ++i) ta.get_state_data()[i] = in[5 + i];
    ta.set_time(0.);
    ta.propagate_until(in[12]);
    for (unsigned i = 0; i < ta.get_state().size(); ++i) out[i] = ta.get_state()[i];
    return 0;
}
KSE_END
