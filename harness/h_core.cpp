// Entry points through which the analysed functions are called, both by the
// symbolic executor (compiled to LLVM IR) and by native replays (shared library).
#include <array>
#include <cmath>
#include <cstring>
#include <optional>
#include <stdexcept>
#include <vector>
#include <new>

#include <kep3/core_astro/constants.hpp>
#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/convert_julian_dates.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/kepler_equations.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/special_functions.hpp>
#include <kep3/core_astro/stm.hpp>

#include "kse.hpp"

using rv_t = std::array<std::array<double, 3>, 2>;
static rv_t get_rv(const double *p)
{
    rv_t r;
    for (int i = 0; i < 3; ++i) { r[0][i] = p[i]; r[1][i] = p[3 + i]; }
    return r;
}
static void put_rv(const rv_t &r, double *o)
{
    for (int i = 0; i < 3; ++i) { o[i] = r[0][i]; o[3 + i] = r[1][i]; }
}
static std::array<double, 6> get6(const double *p)
{
    std::array<double, 6> a;
    for (int i = 0; i < 6; ++i) a[i] = p[i];
    return a;
}

// in: M/E/f/N/H , ecc
KSE_ENTRY(h_m2e) { out[0] = kep3::m2e(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_e2m) { out[0] = kep3::e2m(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_e2f) { out[0] = kep3::e2f(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_f2e) { out[0] = kep3::f2e(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_m2f) { out[0] = kep3::m2f(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_f2m) { out[0] = kep3::f2m(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_zeta2f) { out[0] = kep3::zeta2f(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_f2zeta) { out[0] = kep3::f2zeta(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_n2h) { out[0] = kep3::n2h(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_h2n) { out[0] = kep3::h2n(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_h2f) { out[0] = kep3::h2f(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_f2h) { out[0] = kep3::f2h(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_n2f) { out[0] = kep3::n2f(in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_f2n) { out[0] = kep3::f2n(in[0], in[1]); return 0; } KSE_END
// round trips
KSE_ENTRY(h_f2e_e2f) { out[0] = kep3::f2e(kep3::e2f(in[0], in[1]), in[1]); return 0; } KSE_END
KSE_ENTRY(h_e2f_f2e) { out[0] = kep3::e2f(kep3::f2e(in[0], in[1]), in[1]); return 0; } KSE_END
KSE_ENTRY(h_zeta_rt) { out[0] = kep3::f2zeta(kep3::zeta2f(in[0], in[1]), in[1]); out[1] = kep3::zeta2f(kep3::f2zeta(in[0], in[1]), in[1]); return 0; } KSE_END
KSE_ENTRY(h_hyp_rt) { out[0] = kep3::f2h(kep3::h2f(in[0], in[1]), in[1]); return 0; } KSE_END
KSE_ENTRY(h_hyp_rt2) { out[0] = kep3::h2f(kep3::f2h(in[0], in[1]), in[1]); return 0; } KSE_END

// Kepler equation families
KSE_ENTRY(h_kepE) { out[0] = kep3::kepE(in[0], in[1], in[2]); out[1] = kep3::d_kepE(in[0], in[2]); out[2] = kep3::dd_kepE(in[0], in[2]); return 0; } KSE_END
KSE_ENTRY(h_kepH) { out[0] = kep3::kepH(in[0], in[1], in[2]); out[1] = kep3::d_kepH(in[0], in[2]); out[2] = kep3::dd_kepH(in[0], in[2]); return 0; } KSE_END
// DE DM sigma0 sqrta a R
KSE_ENTRY(h_kepDE) { out[0] = kep3::kepDE(in[0], in[1], in[2], in[3], in[4], in[5]); out[1] = kep3::d_kepDE(in[0], in[2], in[3], in[4], in[5]); out[2] = kep3::dd_kepDE(in[0], in[2], in[3], in[4], in[5]); return 0; } KSE_END
KSE_ENTRY(h_kepDH) { out[0] = kep3::kepDH(in[0], in[1], in[2], in[3], in[4], in[5]); out[1] = kep3::d_kepDH(in[0], in[2], in[3], in[4], in[5]); out[2] = kep3::dd_kepDH(in[0], in[2], in[3], in[4], in[5]); return 0; } KSE_END
// DS DT r0 vr0 alpha mu
KSE_ENTRY(h_kepDS) { out[0] = kep3::kepDS(in[0], in[1], in[2], in[3], in[4], in[5]); out[1] = kep3::d_kepDS(in[0], in[2], in[3], in[4], in[5]); out[2] = kep3::dd_kepDS(in[0], in[2], in[3], in[4], in[5]); return 0; } KSE_END
KSE_ENTRY(h_stumpff) { out[0] = kep3::stumpff_s(in[0]); out[1] = kep3::stumpff_c(in[0]); return 0; } KSE_END

// r v tof mu -> rv [stm]
KSE_ENTRY(h_prop_lagr) {
    auto res = kep3::propagate_lagrangian(get_rv(in), in[6], in[7], false);
    put_rv(res.first, out); return res.second.has_value() ? 100 : 0;
} KSE_END
KSE_ENTRY(h_prop_lagr_stm) {
    auto res = kep3::propagate_lagrangian(get_rv(in), in[6], in[7], true);
    put_rv(res.first, out);
    if (!res.second) return 100;
    for (int i = 0; i < 36; ++i) out[6 + i] = (*res.second)[i];
    return 0;
} KSE_END
KSE_ENTRY(h_prop_u) {
    auto res = kep3::propagate_lagrangian_u(get_rv(in), in[6], in[7], false);
    put_rv(res.first, out); return res.second.has_value() ? 100 : 0;
} KSE_END
KSE_ENTRY(h_prop_kep) {
    auto res = kep3::propagate_keplerian(get_rv(in), in[6], in[7], false);
    put_rv(res.first, out); return res.second.has_value() ? 100 : 0;
} KSE_END
// r v mu n tof... -> n * 6 , k = n, k2 = stm
KSE_ENTRY(h_prop_v) {
    std::vector<double> tofs;
    for (int i = 0; i < k; ++i) tofs.push_back(in[7 + i]);
    auto res = kep3::propagate_lagrangian_v(get_rv(in), tofs, in[6], k2 != 0);
    if (static_cast<int>(res.size()) != k) return 101;
    for (int i = 0; i < k; ++i) {
        double *o = out + (k2 ? 42 : 6) * i;
        put_rv(res[i].first, o);
        if (res[i].second.has_value() != (k2 != 0)) return 100;
        if (k2) for (int j = 0; j < 36; ++j) o[6 + j] = (*res[i].second)[j];
    }
    return 0;
} KSE_END
// r0 v0 rf vf tof mu -> 36
KSE_ENTRY(h_reynolds) {
    auto res = kep3::stm_reynolds(get_rv(in), get_rv(in + 6), in[12], in[13]);
    for (int i = 0; i < 36; ++i) out[i] = res[i];
    return 0;
} KSE_END
KSE_ENTRY(h_prop_reynolds) {
    auto res = kep3::propagate_stm_reynolds(get_rv(in), in[6], in[7], k != 0);
    put_rv(res.first, out);
    if (res.second.has_value() != (k != 0)) return 100;
    if (k) for (int i = 0; i < 36; ++i) out[6 + i] = (*res.second)[i];
    return 0;
} KSE_END

// element conversions
KSE_ENTRY(h_ic2par) { auto r = kep3::ic2par(get_rv(in), in[6]); for (int i = 0; i < 6; ++i) out[i] = r[i]; return 0; } KSE_END
KSE_ENTRY(h_par2ic) { put_rv(kep3::par2ic(get6(in), in[6]), out); return 0; } KSE_END
KSE_ENTRY(h_ic2eq) { auto r = kep3::ic2eq(get_rv(in), in[6], k != 0); for (int i = 0; i < 6; ++i) out[i] = r[i]; return 0; } KSE_END
KSE_ENTRY(h_eq2ic) { put_rv(kep3::eq2ic(get6(in), in[6], k != 0), out); return 0; } KSE_END
KSE_ENTRY(h_par2eq) { auto r = kep3::par2eq(get6(in), k != 0); for (int i = 0; i < 6; ++i) out[i] = r[i]; return 0; } KSE_END
KSE_ENTRY(h_eq2par) { auto r = kep3::eq2par(get6(in), k != 0); for (int i = 0; i < 6; ++i) out[i] = r[i]; return 0; } KSE_END
KSE_ENTRY(h_par_rt) { auto e = kep3::par2ic(get6(in), in[6]); auto r = kep3::ic2par(e, in[6]); for (int i = 0; i < 6; ++i) out[i] = r[i]; return 0; } KSE_END
KSE_ENTRY(h_ic_rt) { auto e = kep3::ic2par(get_rv(in), in[6]); put_rv(kep3::par2ic(e, in[6]), out); return 0; } KSE_END
KSE_ENTRY(h_iceq_rt) { auto e = kep3::ic2eq(get_rv(in), in[6], k != 0); put_rv(kep3::eq2ic(e, in[6], k != 0), out); return 0; } KSE_END
KSE_ENTRY(h_eqic_rt) { auto e = kep3::eq2ic(get6(in), in[6], k != 0); auto r = kep3::ic2eq(e, in[6], k != 0); for (int i = 0; i < 6; ++i) out[i] = r[i]; return 0; } KSE_END
KSE_ENTRY(h_pareq_rt) { auto e = kep3::par2eq(get6(in), k != 0); auto r = kep3::eq2par(e, k != 0); for (int i = 0; i < 6; ++i) out[i] = r[i]; return 0; } KSE_END
KSE_ENTRY(h_eqpar_rt) { auto e = kep3::eq2par(get6(in), k != 0); auto r = kep3::par2eq(e, k != 0); for (int i = 0; i < 6; ++i) out[i] = r[i]; return 0; } KSE_END
KSE_ENTRY(h_pareqic) { put_rv(kep3::eq2ic(kep3::par2eq(get6(in), k != 0), in[6], k != 0), out); put_rv(kep3::par2ic(get6(in), in[6]), out + 6); return 0; } KSE_END

KSE_ENTRY(h_julian) { out[0] = kep3::jd2mjd(in[0]); out[1] = kep3::jd2mjd2000(in[0]); out[2] = kep3::mjd2jd(in[0]); out[3] = kep3::mjd2mjd2000(in[0]); out[4] = kep3::mjd20002jd(in[0]); out[5] = kep3::mjd20002mjd(in[0]); return 0; } KSE_END
