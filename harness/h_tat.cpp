// Concurrent use of the integrator caches: one action of one thread between two marks (IR), or two actions in two threads
// (TSan executable: argv = action of the first thread, of the second, number of cached tolerances).
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
#include <heyoka/taylor.hpp>
#include "kse.hpp"
static const heyoka::taylor_adaptive<double> &get(int which, double tol)
{
    switch (which) {
        case 0: return kep3::ta::get_ta_stark(tol);
        case 1: return kep3::ta::get_ta_stark_var(tol);
        case 2: return kep3::ta::get_ta_cr3bp(tol);
        default: return kep3::ta::get_ta_cr3bp_var(tol);
    }
}
static std::size_t dim(int which)
{
    switch (which) {
        case 0: return kep3::ta::get_ta_stark_cache_dim();
        case 1: return kep3::ta::get_ta_stark_var_cache_dim();
        case 2: return kep3::ta::get_ta_cr3bp_cache_dim();
        default: return kep3::ta::get_ta_cr3bp_var_cache_dim();
    }
}
// 3 * which + (0: known tolerance, used afterwards; 1: new tolerance; 2: size of the cache)
static double action(int a, double fresh)
{
    const int w = a / 3;
    if (a % 3 == 2) return static_cast<double>(dim(w));
    const auto &r = get(w, a % 3 ? fresh : 1e-16);
    double s = r.get_tol();
    for (double x : r.get_state()) s += x;
    return s;
}
// n cached tolerances each, the known one last
static void warm(int n)
{
    const double t[4] = {1e-10, 1e-12, 1e-8, 1e-16};
    for (int w = 0; w < 4; ++w)
        for (int i = 4 - n; i < 4; ++i) (void)get(w, t[i]);
}
#ifdef KSE_TSAN
#include <thread>
extern "C" void kse_ta_flow(const heyoka::kse::system *, const double *, const double *, double, double *) {}
int main(int, char **v)
{
    const int a = std::atoi(v[1]), b = std::atoi(v[2]);
    warm(std::atoi(v[3]));
    std::atomic<int> go{0};
    double ra = 0, rb = 0;
    double f = 1e-3;
    for (int i = 0; i < 3; ++i, f /= 4) {
        go = 0;
        std::thread s([&] { ++go; while (go < 2) {} ra += action(a, f); }), t([&] { ++go; while (go < 2) {} rb += action(b, f / 2); });
        s.join(); t.join();
    }
    std::printf("done %g %g\n", ra, rb);
    return 0;
}
#else
#ifdef KSE_NATIVE
extern "C" void kse_mark(int) {}
#else
extern "C" void kse_mark(int);
#endif
KSE_ENTRY(h_ta_thread)
{
    warm(k2);
    kse_mark(1);
    out[0] = action(k, 1e-3);
    kse_mark(0);
    return 0;
}
KSE_END
#endif
