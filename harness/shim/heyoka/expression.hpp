// Stand-in for heyoka (not installed): expressions are nodes of a static arena, so that the equations of motion the
// code builds can be evaluated (natively and by the symbolic executor).
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <initializer_list>
#include <utility>
#include <vector>
namespace heyoka
{
namespace kse
{
enum op { NUM, VAR, PAR, ADD, SUB, MUL, DIV, POW, SQRT, EQ, SEL };
struct node { int o, a, b, c; double v; };
#ifdef KSE_TSAN // the stand-in's own storage is not under examination
inline thread_local node arena[2048];
inline thread_local int used = 0;
#else
inline node arena[2048];
inline int used = 0;
#endif
inline int mk(int o, int a, int b, int c, double v)
{
    arena[used] = node{o, a, b, c, v};
    return used++;
}
}
struct expression {
    int i;
    expression() : i(kse::mk(kse::NUM, 0, 0, 0, 0.)) {}
    expression(double v) : i(kse::mk(kse::NUM, 0, 0, 0, v)) {}
    expression(int o, int a, int b, int c) : i(kse::mk(o, a, b, c, 0.)) {}
};
inline expression operator+(const expression &a, const expression &b) { return {kse::ADD, a.i, b.i, 0}; }
inline expression operator-(const expression &a, const expression &b) { return {kse::SUB, a.i, b.i, 0}; }
inline expression operator*(const expression &a, const expression &b) { return {kse::MUL, a.i, b.i, 0}; }
inline expression operator/(const expression &a, const expression &b) { return {kse::DIV, a.i, b.i, 0}; }
inline expression operator-(const expression &a) { return expression(0.) - a; }
inline expression operator+(const expression &a) { return a; }
inline expression &operator+=(expression &a, const expression &b) { return a = a + b; }
inline expression &operator-=(expression &a, const expression &b) { return a = a - b; }
inline expression &operator*=(expression &a, const expression &b) { return a = a * b; }
inline expression &operator/=(expression &a, const expression &b) { return a = a / b; }
inline expression pow(const expression &a, double e) { expression x(e); return {kse::POW, a.i, x.i, 0}; }
inline expression sqrt(const expression &a) { return {kse::SQRT, a.i, 0, 0}; }
inline expression eq(const expression &a, const expression &b) { return {kse::EQ, a.i, b.i, 0}; }
inline expression select(const expression &c, const expression &a, const expression &b) { return {kse::SEL, c.i, a.i, b.i}; }
inline expression sum(const std::vector<expression> &v)
{
    expression r = v[0];
    for (std::size_t k = 1; k < v.size(); ++k) r = r + v[k];
    return r;
}
inline expression prod(const std::vector<expression> &v)
{
    expression r = v[0];
    for (std::size_t k = 1; k < v.size(); ++k) r = r * v[k];
    return r;
}
namespace kse
{
struct par_t { expression operator[](int k) const { return {PAR, k, 0, 0}; } };
struct prime_t {
    expression x;
    std::pair<expression, expression> operator=(const expression &e) const { return {x, e}; }
};
}
inline constexpr kse::par_t par{};
inline kse::prime_t prime(const expression &x) { return kse::prime_t{x}; }
// the names do not matter: the k-th variable is named by its position in the call
template <typename... A>
inline std::array<expression, sizeof...(A)> make_vars(const A &...)
{
    std::array<expression, sizeof...(A)> r;
    for (std::size_t k = 0; k < sizeof...(A); ++k) r[k] = expression(kse::VAR, static_cast<int>(k), 0, 0);
    return r;
}
struct var_ode_sys {
    std::vector<std::pair<expression, expression>> sys;
    std::vector<expression> args;
    int order;
    var_ode_sys(std::vector<std::pair<expression, expression>> s, std::vector<expression> a, int o) : sys(std::move(s)), args(std::move(a)), order(o) {}
};
}
