// Stand-in for boost/math/tools/roots.hpp used ONLY when the code is encoded
// symbolically: an iterative solver call is replaced by its contract "returns a
// point x inside [lo, hi] with f(x) == 0" (kse_root); f and the derivatives the
// caller supplies are evaluated at x so that they become part of the encoding.
// Native replays use the real boost header.
#pragma once
#define newton_raphson_iterate kse_orig_newton_raphson_iterate
#define halley_iterate kse_orig_halley_iterate
#define schroder_iterate kse_orig_schroder_iterate
#define schroeder_iterate kse_orig_schroeder_iterate
#define bisect kse_orig_bisect
#include_next <boost/math/tools/roots.hpp>
#undef newton_raphson_iterate
#undef halley_iterate
#undef schroder_iterate
#undef schroeder_iterate
#undef bisect
#include <cstdint>
#include <tuple>
#include <utility>
extern "C" double kse_root(int kind, double guess, double lo, double hi, int digits, std::uintmax_t *iters);
extern "C" void kse_root_fn(double x, double f, double df, double ddf, int n);
namespace boost::math::tools
{
template <class F, class T>
T newton_raphson_iterate(F f, T guess, T min, T max, int digits, std::uintmax_t &max_iter)
{
    T x = kse_root(1, guess, min, max, digits, &max_iter);
    auto t = f(x);
    kse_root_fn(x, std::get<0>(t), std::get<1>(t), 0., 1);
    return x;
}
template <class F, class T>
T newton_raphson_iterate(F f, T guess, T min, T max, int digits)
{
    std::uintmax_t m = (std::numeric_limits<std::uintmax_t>::max)();
    return newton_raphson_iterate(f, guess, min, max, digits, m);
}
template <class F, class T>
T halley_iterate(F f, T guess, T min, T max, int digits, std::uintmax_t &max_iter)
{
    T x = kse_root(2, guess, min, max, digits, &max_iter);
    auto t = f(x);
    kse_root_fn(x, std::get<0>(t), std::get<1>(t), std::get<2>(t), 2);
    return x;
}
template <class F, class T>
T halley_iterate(F f, T guess, T min, T max, int digits)
{
    std::uintmax_t m = (std::numeric_limits<std::uintmax_t>::max)();
    return halley_iterate(f, guess, min, max, digits, m);
}
template <class F, class T>
T schroder_iterate(F f, T guess, T min, T max, int digits, std::uintmax_t &max_iter)
{
    return halley_iterate(f, guess, min, max, digits, max_iter);
}
template <class F, class T, class Tol>
std::pair<T, T> bisect(F f, T min, T max, Tol, std::uintmax_t &max_iter)
{
    T x = kse_root(0, (min + max) / 2, min, max, 50, &max_iter);
    kse_root_fn(x, f(x), 0., 0., 0);
    return {x, x};
}
} // namespace boost::math::tools
