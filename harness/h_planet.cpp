// Entry points for fly-bys, epochs and planets.
#include <array>
#include <cmath>
#include <stdexcept>
#include <vector>
#include <kep3/core_astro/flyby.hpp>
#include <kep3/epoch.hpp>
#include <kep3/planet.hpp>
#include "kse.hpp"
using v3 = std::array<double, 3>;
static v3 get3(const double *p) { return {p[0], p[1], p[2]}; }
// in: v_in(3) v_out(3) mu safe_radius
KSE_ENTRY(h_fb_con)
{
    const auto r = kep3::fb_con(get3(in), get3(in + 3), in[6], in[7]);
    out[0] = r.first; out[1] = r.second; return 0;
}
KSE_END
KSE_ENTRY(h_fb_dv) { out[0] = kep3::fb_dv(get3(in), get3(in + 3), in[6], in[7]); return 0; } KSE_END
// a planet that only knows its parameters
struct kse_body {
    double mu = 1., rad = 1.;
    std::array<v3, 2> eph(double) const { return {{{1., 0., 0.}, {0., 1., 0.}}}; }
    double get_mu_self() const { return mu; }
    double get_safe_radius() const { return rad; }
};
// the overloads that take the planet: k = 0 constraints, 1 delta-v
KSE_ENTRY(h_fb_planet)
{
    const kep3::planet pl{kse_body{in[6], in[7]}};
    if (k == 0) { const auto r = kep3::fb_con(get3(in), get3(in + 3), pl); out[0] = r.first; out[1] = r.second; }
    else { out[0] = kep3::fb_dv(get3(in), get3(in + 3), pl); out[1] = 0.; }
    return 0;
}
KSE_END
// in: v_in(3) v_pla(3) rp beta mu
KSE_ENTRY(h_fb_vout)
{
    const v3 r = kep3::fb_vout(get3(in), get3(in + 3), in[6], in[7], in[8]);
    for (int i = 0; i < 3; ++i) out[i] = r[i];
    return 0;
}
KSE_END
