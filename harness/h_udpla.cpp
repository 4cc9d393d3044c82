// Entry points for planets: each puts what the planet reports next to the composition of the
// (separately checked) conversion and propagation functions that it must equal.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <random>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
#include <fmt/core.h>
#include <fmt/ranges.h>
#include <kep3/core_astro/constants.hpp>
#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/epoch.hpp>
#include <kep3/exceptions.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/keplerian.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include "kse.hpp"
using v3 = std::array<double, 3>;
using pv = std::array<v3, 2>;
using v6 = std::array<double, 6>;
using ET = kep3::elements_type;
static const ET TYPES[] = {ET::KEP_F, ET::KEP_M, ET::MEQ, ET::MEQ_R};
static std::int64_t I(double x) { return static_cast<std::int64_t>(x); }
static kep3::epoch at(std::int64_t x) { return kep3::epoch(kep3::time_point(kep3::microseconds(x))); }
static pv get_pv(const double *p) { return {{{p[0], p[1], p[2]}, {p[3], p[4], p[5]}}}; }
static v6 get6(const double *p) { return {p[0], p[1], p[2], p[3], p[4], p[5]}; }
static void put(const pv &r, double *o) { for (int i = 0; i < 3; ++i) { o[i] = r[0][i]; o[3 + i] = r[1][i]; } }
static void put(const v6 &r, double *o) { for (int i = 0; i < 6; ++i) o[i] = r[i]; }
// classical elements with true anomaly from any type; and back
static v6 to_f(v6 e, int type)
{
    if (type == 1) e[5] = kep3::m2f(e[5], e[1]);
    else if (type >= 2) e = kep3::eq2par(e, type == 3);
    return e;
}
static v6 from_f(v6 e, int type)
{
    if (type == 1) e[5] = kep3::f2m(e[5], e[1]);
    else if (type >= 2) e = kep3::par2eq(e, type == 3);
    return e;
}
static kep3::udpla::keplerian make(const double *p, double mu, const kep3::epoch &ref, int type, v3 added)
{
    if (type < 0) return kep3::udpla::keplerian(ref, get_pv(p), mu, "x", added);
    return kep3::udpla::keplerian(ref, get6(p), mu, "x", added, TYPES[type]);
}
static pv state0(const double *p, double mu, int type) { return type < 0 ? get_pv(p) : kep3::par2ic(to_f(get6(p), type), mu); }
// in: six numbers, mu, reference tick, epoch (days mjd2000) or tick offset; k: type of the six numbers (-1 state); k2: way of asking
KSE_ENTRY(h_kep_eph)
{
    const kep3::epoch ref = at(I(in[7]));
    const kep3::udpla::keplerian u = make(in, in[6], ref, k, {1., 2., 3.});
    const kep3::planet pl{u};
    double dt = (in[8] - ref.mjd2000()) * 86400.;
    pv r{};
    if (k2 == 0) r = pl.eph(in[8]);
    else if (k2 == 1) { r = pl.eph(at(I(in[7]) + I(in[8]))); dt = static_cast<double>(I(in[8])) / 1e6; }
    else if (k2 == 2) r = u.eph(in[8]);
    else {
        const auto e = pl.eph_v(std::vector<double>{1., in[8], 2.});
        if (e.size() != 18u) return 101;
        for (int i = 0; i < 3; ++i) { r[0][i] = e[6 + i]; r[1][i] = e[9 + i]; }
    }
    put(r, out);
    put(kep3::propagate_lagrangian(state0(in, in[6], k), dt, in[6], false).first, out + 6);
    return 0;
}
KSE_END
// in: six numbers, mu, reference tick, mu_self, radius, safe radius, epoch; k: type of the six numbers; k2: type asked for + 8 * through epoch
KSE_ENTRY(h_kep_elements)
{
    const kep3::epoch ref = at(I(in[7]));
    const kep3::planet pl{make(in, in[6], ref, k, {in[8], in[9], in[10]})};
    const v6 f = k < 0 ? kep3::ic2par(get_pv(in), in[6]) : to_f(get6(in), k);
    put(k2 & 8 ? pl.elements(ref, TYPES[k2 & 7]) : pl.elements(in[11], TYPES[k2]), out);
    put(from_f(f, k2 & 7), out + 6);
    return 0;
}
KSE_END
KSE_ENTRY(h_kep_data)
{
    const kep3::epoch ref = at(I(in[7]));
    const kep3::udpla::keplerian u = make(in, in[6], ref, k, {in[8], in[9], in[10]});
    const kep3::planet pl{u};
    out[0] = k2 ? pl.period(ref) : pl.period(in[11]);
    out[1] = pl.get_mu_central_body(); out[2] = pl.get_mu_self(); out[3] = pl.get_radius(); out[4] = pl.get_safe_radius();
    out[5] = static_cast<double>(u.get_ref_epoch().get_tp().time_since_epoch().count());
    out[6] = pl.get_name().size() == 1u && pl.get_name()[0] == 'x' ? 1. : 0.;
    return 0;
}
KSE_END
// construction only: accepted or not
KSE_ENTRY(h_kep_make) { (void)make(in, in[6], at(I(in[7])), k, {1., 2., 3.}); return 0; } KSE_END

// ---- planets that know less: defaults of the planet interface
struct kse_orbiter {
    v6 s{};
    double mu = 1., t0 = 0.;
    // at t0 the state s; later elsewhere, so that the epoch asked for matters
    pv eph(double t) const { return {{{s[0], s[1], s[2] + (t - t0)}, {s[3], s[4], s[5]}}}; }
    double get_mu_central_body() const { return mu; }
};
struct kse_mute {
    double a = 1.;
    pv eph(double t) const { return {{{a, t, 1.}, {2., a + t, 3.}}}; }
};
struct kse_own {
    double a = 1.;
    pv eph(double) const { return {{{1., 0., 0.}, {0., 1., 0.}}}; }
    double get_mu_central_body() const { return a; }
    double get_mu_self() const { return a + 1.; }
    double get_radius() const { return a + 2.; }
    double get_safe_radius() const { return a + 3.; }
    double period(double t) const { return a * t; }
    v6 elements(double t, ET type) const { return {a, t, static_cast<double>(static_cast<int>(type)), a * t, a + t, a - t}; }
    std::vector<double> eph_v(const std::vector<double> &t) const { return {a, t[0], t[1]}; }
};
// in: state, mu, reference tick; k: -1 period, otherwise type of elements; k2: asked through 0 days, 1 epoch
KSE_ENTRY(h_def)
{
    const kep3::epoch ref = at(I(in[7]));
    kse_orbiter b; b.s = get6(in); b.mu = in[6]; b.t0 = ref.mjd2000();
    const kep3::planet pl{b};
    if (k < 0) { out[0] = k2 ? pl.period(ref) : pl.period(ref.mjd2000()); return 0; }
    put(k2 ? pl.elements(ref, TYPES[k]) : pl.elements(ref.mjd2000(), TYPES[k]), out);
    put(from_f(kep3::ic2par(get_pv(in), in[6]), k), out + 6);
    return 0;
}
KSE_END
// in: a, three epochs; k: how many of them
KSE_ENTRY(h_def_v)
{
    kse_mute b; b.a = in[0];
    const kep3::planet pl{b};
    const auto e = pl.eph_v(std::vector<double>(in + 1, in + 1 + k));
    if (e.size() != 6u * static_cast<unsigned>(k)) return 101;
    for (int i = 0; i < k; ++i) { for (int j = 0; j < 6; ++j) out[12 * i + j] = e[6u * i + j]; put(pl.eph(in[1 + i]), out + 12 * i + 6); }
    return 0;
}
KSE_END
// in: a, t; k: 0 period, 1 elements (both must say not implemented), 2 getters
KSE_ENTRY(h_def_missing)
{
    kse_mute b; b.a = in[0];
    const kep3::planet pl{b};
    if (k == 2) {
        out[0] = pl.get_mu_central_body(); out[1] = pl.get_mu_self(); out[2] = pl.get_radius(); out[3] = pl.get_safe_radius();
        out[4] = pl.get_extra_info().empty() ? 1. : 0.;
        return 0;
    }
    out[0] = 0.;
    try { if (k == 0) (void)pl.period(in[1]); else (void)pl.elements(in[1], ET::KEP_F); }
    catch (const kep3::not_implemented_error &) { out[0] = 1.; }
    return 0;
}
KSE_END
// a body that provides everything itself: nothing is replaced by a default.  in: a, t, t2
KSE_ENTRY(h_def_own)
{
    kse_own b; b.a = in[0];
    const kep3::planet pl{b};
    out[0] = pl.get_mu_central_body(); out[1] = pl.get_mu_self(); out[2] = pl.get_radius(); out[3] = pl.get_safe_radius();
    out[4] = pl.period(in[1]);
    put(pl.elements(in[1], TYPES[k]), out + 5);
    out[11] = static_cast<double>(static_cast<int>(TYPES[k]));
    const auto e = pl.eph_v(std::vector<double>{in[1], in[2]});
    if (e.size() != 3u) return 101;
    out[12] = e[0]; out[13] = e[1]; out[14] = e[2];
    return 0;
}
KSE_END

// ---- low-precision ephemerides
// Keplerian elements and their rates per century, as published by JPL (ssd.jpl.nasa.gov/planets/approx_pos.html,
// table 1, 1800 AD - 2050 AD): a [AU], e, i, L, long. of perihelion, long. of node [deg]
static const double EL[8][12] = {
    {0.38709927, 0.20563593, 7.00497902, 252.25032350, 77.45779628, 48.33076593, 0.00000037, 0.00001906, -0.00594749, 149472.67411175, 0.16047689, -0.12534081},
    {0.72333566, 0.00677672, 3.39467605, 181.97909950, 131.60246718, 76.67984255, 0.00000390, -0.00004107, -0.00078890, 58517.81538729, 0.00268329, -0.27769418},
    {1.00000261, 0.01671123, -0.00001531, 100.46457166, 102.93768193, 0.0, 0.00000562, -0.00004392, -0.01294668, 35999.37244981, 0.32327364, 0.0},
    {1.52371034, 0.09339410, 1.84969142, -4.55343205, -23.94362959, 49.55953891, 0.00001847, 0.00007882, -0.00813131, 19140.30268499, 0.44441088, -0.29257343},
    {5.20288700, 0.04838624, 1.30439695, 34.39644051, 14.72847983, 100.47390909, -0.00011607, -0.00013253, -0.00183714, 3034.74612775, 0.21252668, 0.20469106},
    {9.53667594, 0.05386179, 2.48599187, 49.95424423, 92.59887831, 113.66242448, -0.00125060, -0.00050991, 0.00193609, 1222.49362201, -0.41897216, -0.28867794},
    {19.18916464, 0.04725744, 0.77263783, 313.23810451, 170.95427630, 74.01692503, -0.00196176, -0.00004397, -0.00242939, 428.48202785, 0.40805281, 0.04240589},
    {30.06992276, 0.00859048, 1.77004347, -55.12002969, 44.96476227, 131.78422574, 0.00026291, 0.00005105, 0.00035372, 218.45945325, -0.32241464, -0.00508664}};
static const char *N[] = {"mercury", "Venus", "EARTH", "mars", "jupiteR", "saturn", "uranus", "neptune", "pluto", "nibiru", ""};
// in: epoch; k: planet; k2: -1 state, otherwise type of elements, + 8 through the planet interface
KSE_ENTRY(h_jpl)
{
    const kep3::udpla::jpl_lp j{std::string(N[k])};
    const double *p = EL[k];
    const double T = (in[0] - 0.5) / 36525., deg = kep3::pi / 180.;
    v6 x{}, f{};
    for (int i = 0; i < 6; ++i) x[i] = p[i] + p[6 + i] * T;
    f = {x[0] * 149597870700.0, x[1], x[2] * deg, x[5] * deg, (x[4] - x[5]) * deg, kep3::m2f((x[3] - x[4]) * deg, x[1])};
    if (k2 == -1) { put(j.eph(in[0]), out); put(kep3::par2ic(f, kep3::MU_SUN), out + 6); }
    else if (k2 == 7) { put(kep3::planet(j).eph(in[0]), out); put(kep3::par2ic(f, kep3::MU_SUN), out + 6); }
    else { put(k2 & 8 ? kep3::planet(j).elements(in[0], TYPES[k2 & 7]) : j.elements(in[0], TYPES[k2]), out); put(from_f(f, k2 & 7), out + 6); }
    return 0;
}
KSE_END
// constants of a planet, by itself and through the planet interface
KSE_ENTRY(h_jpl_data)
{
    const kep3::udpla::jpl_lp j{std::string(N[k])};
    if (k2) {
        const kep3::planet p{j};
        out[0] = p.get_mu_central_body(); out[1] = p.get_mu_self(); out[2] = p.get_radius(); out[3] = p.get_safe_radius(); out[4] = 0.;
    } else { out[0] = j.get_mu_central_body(); out[1] = j.get_mu_self(); out[2] = j.get_radius(); out[3] = j.get_safe_radius(); out[4] = 0.; }
    return 0;
}
KSE_END
// numeric meaning of the functions that have contracts in the symbolic run
KSE_ENTRY(h_pl_flow) { put(kep3::propagate_lagrangian(get_pv(in), in[6], in[7], false).first, out); return 0; } KSE_END
KSE_ENTRY(h_pl_par) { put(kep3::ic2par(get_pv(in), in[6]), out); return 0; } KSE_END
