// An object and its copy through an archive report the same.
#include <array>
#include <stdexcept>
#include <vector>
#include <kep3/lambert_problem.hpp>
#include "kse.hpp"
#include "kse_tape.hpp"
static void put(const kep3::lambert_problem &l, double *o)
{
    for (int i = 0; i < 3; ++i) { *o++ = l.get_r0()[i]; *o++ = l.get_r1()[i]; }
    *o++ = l.get_tof(); *o++ = l.get_mu(); *o++ = l.get_Nmax();
    *o++ = static_cast<double>(l.get_v0().size()); *o++ = static_cast<double>(l.get_v1().size());
    *o++ = static_cast<double>(l.get_x().size()); *o++ = static_cast<double>(l.get_iters().size());
    for (unsigned k = 0; k < l.get_x().size() && k < 3u; ++k) { *o++ = l.get_x()[k]; *o++ = l.get_iters()[k]; }
    for (const auto &v : l.get_v0()) for (double x : v) *o++ = x;
    for (const auto &v : l.get_v1()) for (double x : v) *o++ = x;
}
// in: r0 r1 tof mu; k: revolutions; k2: clockwise.  out: the problem (40), its copy (40)
KSE_ENTRY(h_ser_lambert)
{
    const std::array<double, 3> a = {in[0], in[1], in[2]}, b = {in[3], in[4], in[5]};
    // the target of the restoration: an object of zeros and empty vectors (constructing one would run the solver a second time)
    alignas(kep3::lambert_problem) unsigned char raw[sizeof(kep3::lambert_problem)];
    for (unsigned char &x : raw) x = 0;
    kep3::lambert_problem &c = *reinterpret_cast<kep3::lambert_problem *>(raw);
    const kep3::lambert_problem lp(a, b, in[6], in[7], k2 != 0, static_cast<unsigned>(k));
    for (int i = 0; i < 80; ++i) out[i] = 0.;
    put(lp, out);
    kse_copy(lp, c);
    put(c, out + 40);
    return 0;
}
KSE_END
