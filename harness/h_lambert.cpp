// Entry points for the Lambert solver.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fmt/core.h>
#include <fmt/ostream.h>
#include <boost/serialization/array.hpp>
#include <boost/serialization/vector.hpp>
#include <kep3/core_astro/constants.hpp>
#include <kep3/detail/s11n.hpp>
#define private public
#include <kep3/lambert_problem.hpp>
#undef private
#include "kse.hpp"

using v3 = std::array<double, 3>;
// in: r0 r1 tof mu cw ; k = multi_revs, k2 = solution index
// out: v0 v1 Nmax sizes(4)
KSE_ENTRY(h_lambert)
{
    const v3 a{in[0], in[1], in[2]}, b{in[3], in[4], in[5]};
    const kep3::lambert_problem lp(a, b, in[6], in[7], k2 >= 100, static_cast<unsigned>(k));
    const unsigned i = static_cast<unsigned>(k2 % 100);
    out[6] = lp.get_Nmax();
    out[7] = static_cast<double>(lp.get_v0().size());
    out[8] = static_cast<double>(lp.get_v1().size());
    out[9] = static_cast<double>(lp.get_x().size());
    out[10] = static_cast<double>(lp.get_iters().size());
    if (i >= lp.get_v0().size() || i >= lp.get_v1().size()) return 1;
    for (int j = 0; j < 3; ++j) { out[j] = lp.get_v0()[i][j]; out[3 + j] = lp.get_v1()[i][j]; }
    return 0;
}
KSE_END
// in: r0 r1 tof mu ; k = multi_revs, k2 = cw -> Nmax, sizes(4), x[0..]
KSE_ENTRY(h_lambert_x)
{
    const v3 a{in[0], in[1], in[2]}, b{in[3], in[4], in[5]};
    const kep3::lambert_problem lp(a, b, in[6], in[7], k2 != 0, static_cast<unsigned>(k));
    out[0] = lp.get_Nmax();
    out[1] = static_cast<double>(lp.get_v0().size());
    out[2] = static_cast<double>(lp.get_v1().size());
    out[3] = static_cast<double>(lp.get_x().size());
    out[4] = static_cast<double>(lp.get_iters().size());
    for (unsigned j = 0; j < lp.get_x().size() && j < 11u; ++j) out[5 + j] = lp.get_x()[j];
    return 0;
}
KSE_END
// in: r0 r1 tof mu -> getters echo the inputs
KSE_ENTRY(h_lambert_echo)
{
    const v3 a{in[0], in[1], in[2]}, b{in[3], in[4], in[5]};
    const kep3::lambert_problem lp(a, b, in[6], in[7], k2 != 0, static_cast<unsigned>(k));
    for (int j = 0; j < 3; ++j) { out[j] = lp.get_r0()[j]; out[3 + j] = lp.get_r1()[j]; }
    out[6] = lp.get_tof(); out[7] = lp.get_mu();
    return 0;
}
KSE_END
static void mk(kep3::lambert_problem *p, double lambda) { p->m_lambda = lambda; }
struct raw_lp {
    alignas(kep3::lambert_problem) unsigned char b[sizeof(kep3::lambert_problem)];
    kep3::lambert_problem *p() { return reinterpret_cast<kep3::lambert_problem *>(b); }
};
// in: x lambda ; k = N
KSE_ENTRY(h_x2tof) { raw_lp q; mk(q.p(), in[1]); double t = 0; q.p()->x2tof(t, in[0], k); out[0] = t; return 0; } KSE_END
KSE_ENTRY(h_x2tof2) { raw_lp q; mk(q.p(), in[1]); double t = 0; q.p()->x2tof2(t, in[0], k); out[0] = t; return 0; } KSE_END
// in: x lambda ; out: T DT DDT DDDT
KSE_ENTRY(h_dTdx) { raw_lp q; mk(q.p(), in[1]); double t = 0; q.p()->x2tof(t, in[0], k); out[0] = t; q.p()->dTdx(out[1], out[2], out[3], in[0], t); return 0; } KSE_END
// in: x T lambda: derivatives given T
KSE_ENTRY(h_dTdx_raw) { raw_lp q; mk(q.p(), in[2]); q.p()->dTdx(out[0], out[1], out[2], in[0], in[1]); return 0; } KSE_END
KSE_ENTRY(h_hyp) { out[0] = kep3::lambert_problem::hypergeometricF(in[0], in[1]); return 0; } KSE_END
// in: T x0 lambda eps ; k = N, k2 = iter_max
KSE_ENTRY(h_householder) { raw_lp q; mk(q.p(), in[2]); double x = in[1]; unsigned it = q.p()->householder(in[0], x, k, in[3], k2); out[0] = x; out[1] = it; return 0; } KSE_END
