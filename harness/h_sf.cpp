// Entry points for the Sims-Flanagan leg.
#include <array>
#include <cmath>
#include <stdexcept>
#include <vector>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include "kse.hpp"

using rv_t = std::array<std::array<double, 3>, 2>;
using leg_t = kep3::leg::sims_flanagan;
static rv_t get_rv(const double *p)
{
    rv_t r;
    for (int i = 0; i < 3; ++i) { r[0][i] = p[i]; r[1][i] = p[3 + i]; }
    return r;
}
// in: rvs(6) ms rvf(6) mf tof max_thrust isp mu cut throttles(n)
static leg_t mk(const double *in, int n)
{
    return leg_t(get_rv(in), in[6], std::vector<double>(in + 19, in + 19 + n), get_rv(in + 7), in[13], in[14], in[15], in[16], in[17], in[18]);
}
static void state(const leg_t &l, double *o)
{
    for (int i = 0; i < 3; ++i) { o[i] = l.get_rvs()[0][i]; o[3 + i] = l.get_rvs()[1][i]; o[7 + i] = l.get_rvf()[0][i]; o[10 + i] = l.get_rvf()[1][i]; }
    o[6] = l.get_ms(); o[13] = l.get_mf(); o[14] = l.get_tof(); o[15] = l.get_max_thrust(); o[16] = l.get_isp(); o[17] = l.get_mu(); o[18] = l.get_cut();
    o[19] = l.get_nseg(); o[20] = l.get_nseg_fwd(); o[21] = l.get_nseg_bck(); o[22] = static_cast<double>(l.get_throttles().size());
    for (unsigned i = 0; i < l.get_throttles().size() && i < 18u; ++i) o[23 + i] = l.get_throttles()[i];
}
KSE_ENTRY(h_sf_flow)
{
    auto r = kep3::propagate_lagrangian(get_rv(in), in[6], in[7], true);
    for (int i = 0; i < 3; ++i) { out[i] = r.first[0][i]; out[3 + i] = r.first[1][i]; }
    for (int i = 0; i < 36; ++i) out[6 + i] = (*r.second)[i];
    return 0;
}
KSE_END
KSE_ENTRY(h_sf_mismatch)
{
    const leg_t l = mk(in, 3 * k);
    const auto m = l.compute_mismatch_constraints();
    for (int i = 0; i < 7; ++i) out[i] = m[i];
    out[7] = l.get_nseg(); out[8] = l.get_nseg_fwd(); out[9] = l.get_nseg_bck();
    return 0;
}
KSE_END
KSE_ENTRY(h_sf_grad)
{
    const leg_t l = mk(in, 3 * k);
    const auto [gs, gf, g] = l.compute_mc_grad();
    for (int i = 0; i < 49; ++i) { out[i] = gs[i]; out[49 + i] = gf[i]; }
    out[98] = static_cast<double>(g.size()); out[99] = l.get_nseg_fwd();
    for (unsigned i = 0; i < g.size(); ++i) out[100 + i] = g[i];
    return 0;
}
KSE_END
KSE_ENTRY(h_sf_throttles)
{
    const leg_t l = mk(in, 3 * k);
    const auto c = l.compute_throttle_constraints();
    const auto g = l.compute_tc_grad();
    out[0] = static_cast<double>(c.size()); out[1] = static_cast<double>(g.size());
    for (unsigned i = 0; i < c.size(); ++i) out[2 + i] = c[i];
    for (unsigned i = 0; i < g.size(); ++i) out[2 + c.size() + i] = g[i];
    return 0;
}
KSE_END
// k = number of throttle values: construct, report
KSE_ENTRY(h_sf_ctor) { const leg_t l = mk(in, k); state(l, out); return 0; } KSE_END
KSE_ENTRY(h_sf_default) { const leg_t l; state(l, out); return 0; } KSE_END
// valid leg of 6 throttles at in, new values (same layout) at in + 25; k = number of new throttle values,
// k2 = setter.  out: 1 when it threw, state afterwards.
KSE_ENTRY(h_sf_set)
{
    leg_t l = mk(in, 6);
    const double *v = in + 25;
    const std::vector<double> t(v + 19, v + 19 + k);
    out[0] = 0.;
    try {
        switch (k2) {
            case 0: l.set_tof(v[14]); break;
            case 1: l.set_rvs(get_rv(v)); break;
            case 2: l.set_ms(v[6]); break;
            case 3: l.set_throttles(t); break;
            case 4: l.set_throttles(t.begin(), t.end()); break;
            case 5: l.set_rvf(get_rv(v + 7)); break;
            case 6: l.set_mf(v[13]); break;
            case 7: l.set_max_thrust(v[15]); break;
            case 8: l.set_isp(v[16]); break;
            case 9: l.set_mu(v[17]); break;
            case 10: l.set_cut(v[18]); break;
            case 11: l.set(get_rv(v), v[6], t, get_rv(v + 7), v[13], v[14], v[15], v[16], v[17], v[18]); break;
            case 12: l.set(get_rv(v), v[6], t, get_rv(v + 7), v[13], v[14], v[15], v[16], v[17]); break;
            default: return 50;
        }
    } catch (const std::exception &) {
        out[0] = 1.;
    }
    state(l, out + 1);
    return 0;
}
KSE_END
// set_throttles then set_cut (k2 = 0) or the other way round (k2 = 1): the two orders agree
KSE_ENTRY(h_sf_order)
{
    leg_t l = mk(in, 6);
    const double *v = in + 25;
    const std::vector<double> t(v + 19, v + 19 + k);
    if (k2 == 0) { l.set_throttles(t); l.set_cut(v[18]); }
    else { l.set_cut(v[18]); l.set_throttles(t.begin(), t.end()); }
    state(l, out);
    return 0;
}
KSE_END
