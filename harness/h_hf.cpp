// Entry points for the high-fidelity leg and the Stark problem (heyoka replaced by harness/shim).
#include <array>
#include <cmath>
#include <stdexcept>
#include <vector>
#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/stark_problem.hpp>
#include "kse.hpp"
using a7 = std::array<double, 7>;
using rv_t = std::array<std::array<double, 3>, 2>;
using leg_t = kep3::leg::sims_flanagan_hf;
static a7 get7(const double *p) { a7 r; for (int i = 0; i < 7; ++i) r[i] = p[i]; return r; }
static rv_t get_rv(const double *p)
{
    rv_t r;
    for (int i = 0; i < 3; ++i) { r[0][i] = p[i]; r[1][i] = p[3 + i]; }
    return r;
}
// in: rvms(7) rvmf(7) tof max_thrust isp mu cut throttles(n), tol concrete; form 0/1: the two constructors
static leg_t mk(const double *in, int n, int form, double tol = 1e-12)
{
    const std::vector<double> t(in + 19, in + 19 + n);
    if (form == 0) return leg_t(get7(in), t, get7(in + 7), in[14], in[15], in[16], in[17], in[18], tol);
    return leg_t(get_rv(in), in[6], t, get_rv(in + 7), in[13], in[14], in[15], in[16], in[17], in[18], tol);
}
static void state(const leg_t &l, double *o)
{
    for (int i = 0; i < 7; ++i) { o[i] = l.get_rvms()[i]; o[7 + i] = l.get_rvmf()[i]; }
    o[14] = l.get_tof(); o[15] = l.get_max_thrust(); o[16] = l.get_isp(); o[17] = l.get_mu(); o[18] = l.get_cut();
    o[19] = l.get_nseg(); o[20] = l.get_nseg_fwd(); o[21] = l.get_nseg_bck(); o[22] = static_cast<double>(l.get_throttles().size());
    for (unsigned i = 0; i < l.get_throttles().size() && i < 18u; ++i) o[23 + i] = l.get_throttles()[i];
    o[41] = l.get_tol();
    for (int i = 0; i < 3; ++i) { o[42 + i] = l.get_rvs()[0][i]; o[45 + i] = l.get_rvs()[1][i]; o[49 + i] = l.get_rvf()[0][i]; o[52 + i] = l.get_rvf()[1][i]; }
    o[48] = l.get_ms(); o[55] = l.get_mf();
}
static int mismatch(const leg_t &l, double *out)
{
    const auto m = l.compute_mismatch_constraints();
    for (int i = 0; i < 7; ++i) out[i] = m[i];
    return 7;
}
static int grad(const leg_t &l, double *out)
{
    const auto [gs, gf, g] = l.compute_mc_grad();
    for (int i = 0; i < 49; ++i) { out[i] = gs[i]; out[49 + i] = gf[i]; }
    out[98] = static_cast<double>(g.size()); out[99] = l.get_nseg_fwd();
    for (unsigned i = 0; i < g.size(); ++i) out[100 + i] = g[i];
    return 100 + static_cast<int>(g.size());
}
// k segments; k2: constructor
KSE_ENTRY(h_hf_mismatch)
{
    const leg_t l = mk(in, 3 * k, k2);
    mismatch(l, out);
    out[7] = l.get_nseg(); out[8] = l.get_nseg_fwd(); out[9] = l.get_nseg_bck();
    const auto c = l.compute_constraints();
    out[10] = static_cast<double>(c.size());
    for (unsigned i = 0; i < c.size() && i < 30u; ++i) out[11 + i] = c[i];
    return 0;
}
KSE_END
KSE_ENTRY(h_hf_grad) { const leg_t l = mk(in, 3 * k, k2); grad(l, out); return 0; } KSE_END
KSE_ENTRY(h_hf_throttles)
{
    const leg_t l = mk(in, 3 * k, k2);
    const auto c = l.compute_throttle_constraints();
    const auto g = l.compute_tc_grad();
    out[0] = static_cast<double>(c.size()); out[1] = static_cast<double>(g.size());
    for (unsigned i = 0; i < c.size(); ++i) out[2 + i] = c[i];
    for (unsigned i = 0; i < g.size(); ++i) out[2 + c.size() + i] = g[i];
    return 0;
}
KSE_END
KSE_ENTRY(h_hf_derivative)
{
    const leg_t l = mk(in, 3, 0);
    const auto d = l.get_state_derivative(get7(in + 22), {in[29], in[30], in[31]});
    for (int i = 0; i < 7; ++i) out[i] = d[i];
    return 0;
}
KSE_END
// k segments, k2 points per segment
KSE_ENTRY(h_hf_history)
{
    const leg_t l = mk(in, 3 * k, 0);
    const auto h = l.get_state_history(static_cast<unsigned>(k2));
    out[0] = static_cast<double>(h.size()); out[1] = l.get_nseg_fwd();
    int o = 2;
    for (const auto &s : h) {
        out[o++] = static_cast<double>(s.size());
        for (unsigned i = 0; i < static_cast<unsigned>(7 * k2); ++i) out[o++] = i < s.size() ? s[i] : 0.;
    }
    return 0;
}
KSE_END
KSE_ENTRY(h_hf_ctor) { const leg_t l = mk(in, k, k2); state(l, out); return 0; } KSE_END
KSE_ENTRY(h_hf_tol)
{
    static const double tols[5] = {1e-12, 1., 0., -1., 2.};
    const leg_t l = mk(in, 6, k2, tols[k]);
    state(l, out);
    return 0;
}
KSE_END
KSE_ENTRY(h_hf_default) { const leg_t l; state(l, out); return 0; } KSE_END
static void apply(leg_t &l, const double *v, int k, int which)
{
    const std::vector<double> t(v + 19, v + 19 + k);
    switch (which) {
        case 0: l.set_tof(v[14]); break;
        case 1: l.set_rvs(get_rv(v)); break;
        case 2: l.set_ms(v[6]); break;
        case 3: l.set_throttles(t); break;
        case 4: l.set_throttles(t.begin(), t.end()); break;
        case 5: l.set_rvf(get_rv(v + 7)); break;
        case 6: l.set_mf(v[13]); break;
        case 7: l.set_max_thrust(v[15]); break;
        case 8: l.set_isp(v[16]); break;
        case 9: l.set_mu(v[17]); break;
        case 10: l.set_cut(v[18]); break;
        case 11: l.set(get_rv(v), v[6], t, get_rv(v + 7), v[13], v[14], v[15], v[16], v[17], v[18], 1e-12); break;
        case 12: l.set(get_rv(v), v[6], t, get_rv(v + 7), v[13], v[14], v[15], v[16], v[17]); break;
        case 13: l.set(get7(v), t, get7(v + 7), v[14], v[15], v[16], v[17], v[18], 1e-12); break;
        case 14: l.set(get7(v), t, get7(v + 7), v[14], v[15], v[16], v[17]); break;
        case 15: l.set(get7(v), t, get7(v + 7), v[14]); break;
        case 16: l.set_rvms(get7(v)); break;
        case 17: l.set_rvmf(get7(v + 7)); break;
        case 18: l.set_tol(v[25]); break;
        default: throw std::bad_alloc();
    }
}
// leg of 6 throttles at in, new values (same layout) at in + 25; out: 1 when it threw, state afterwards, then (k2 >= 100) what
// the leg computes afterwards
KSE_ENTRY(h_hf_set)
{
    leg_t l = mk(in, 6, 0);
    out[0] = 0.;
    try { apply(l, in + 25, k, k2); } catch (const std::exception &) { out[0] = 1.; }
    state(l, out + 1);
    return 0;
}
KSE_END
// behaviour after the setter: mismatch and gradient are those of a leg constructed with the new values
KSE_ENTRY(h_hf_after)
{
    leg_t l = mk(in, 6, 0);
    apply(l, in + 25, k, k2);
    out[0] = l.get_nseg(); out[1] = l.get_nseg_fwd();
    out[2] = l.get_tas().get_tol(); out[3] = l.get_tas_var().get_tol();
    out[4] = l.get_tol();
    mismatch(l, out + 5);
    grad(l, out + 12);
    return 0;
}
KSE_END
// set_and_compute_constraints on the leg at in with the chromosome built of the new values
KSE_ENTRY(h_hf_chromosome)
{
    leg_t l = mk(in, 3 * k, 0);
    const double *v = in + 19 + 3 * k;
    std::vector<double> c(v, v + 7);
    c.insert(c.end(), v + 19, v + 19 + 3 * k);
    c.insert(c.end(), v + 7, v + 15);
    const auto r = l.set_and_compute_constraints(c);
    out[0] = static_cast<double>(r.size());
    for (unsigned i = 0; i < r.size(); ++i) out[1 + i] = r[i];
    out[60] = l.get_nseg_fwd();
    return 0;
}
KSE_END
KSE_ENTRY(h_hf_order)
{
    leg_t l = mk(in, 6, 0);
    const double *v = in + 25;
    const std::vector<double> t(v + 19, v + 19 + k);
    if (k2 == 0) { l.set_throttles(t); l.set_cut(v[18]); }
    else { l.set_cut(v[18]); l.set_throttles(t.begin(), t.end()); }
    state(l, out);
    return 0;
}
KSE_END
// Stark problem.  in: mu veff state(7) thrust(3) tof | second: mu veff state thrust tof
static void prop(kep3::stark_problem &s, const double *v, int var, double *out)
{
    const std::array<double, 3> u = {v[9], v[10], v[11]};
    if (var == 0) {
        const auto r = s.propagate(get7(v + 2), u, v[12]);
        for (int i = 0; i < 7; ++i) out[i] = r[i];
    } else {
        const auto [r, dx, du] = s.propagate_var(get7(v + 2), u, v[12]);
        for (int i = 0; i < 7; ++i) out[i] = r[i];
        for (int i = 0; i < 49; ++i) out[7 + i] = dx[i];
        for (int i = 0; i < 21; ++i) out[56 + i] = du[i];
    }
}
// k: 0 propagate, 1 propagate_var; k2: 0 first call; 1 after a call with the second values; 2 with mu, veff set afterwards
KSE_ENTRY(h_stark)
{
    kep3::stark_problem s(k2 == 2 ? in[13] : in[0], k2 == 2 ? in[14] : in[1], 1e-12);
    double tmp[77];
    if (k2) prop(s, in + 13, k, tmp);
    if (k2 == 2) { s.set_mu(in[0]); s.set_veff(in[1]); }
    prop(s, in, k, out);
    out[77] = s.get_mu(); out[78] = s.get_veff(); out[79] = s.get_tol() == 1e-12; out[80] = s.get_ta().get_tol() == 1e-12; out[81] = s.get_ta_var().get_tol() == 1e-12;
    return 0;
}
KSE_END
