// Stand-in for heyoka's Taylor integrator (not installed).  The flow itself is kse_ta_flow: an uninterpreted function for
// the symbolic executor (KSE_IR), an extrapolation integrator of the same equations natively.
#pragma once
#include <cstdint>
#include <functional>
#include <optional>
#include <stdexcept>
#include <tuple>
#include <heyoka/expression.hpp>
namespace heyoka
{
enum class taylor_outcome : std::int64_t { success = -4294967297, step_limit = -4294967298, time_limit = -4294967299, err_nf_state = -4294967300, cb_stop = -4294967301 };
namespace kse
{
struct system {
    int n, np, nv;          // states, parameters, variational arguments
    int rhs[8], arg[16];    // expression of each derivative; variational arguments (state k, or 100 + parameter k)
    bool good;
};
struct tol_t { struct v { double x; }; v operator=(double x) const { return {x}; } };
struct pars_t { struct v { std::vector<double> x; }; v operator=(std::vector<double> x) const { return {std::move(x)}; } };
struct cm_t { struct v { bool x; }; v operator=(bool x) const { return {x}; } };
struct time_t_ { struct v { double x; }; v operator=(double x) const { return {x}; } };
inline int parcount(int i)
{
    const node &q = arena[i];
    int r = 0;
    auto up = [&r](int x) { if (x > r) r = x; };
    if (q.o == PAR) return q.a + 1;
    if (q.o == NUM || q.o == VAR) return 0;
    up(parcount(q.a));
    if (q.o != SQRT) up(parcount(q.b));
    if (q.o == SEL) up(parcount(q.c));
    return r;
}
}
// out = state (and, with nv > 0, its derivatives) a time dt later, with parameters p
extern "C" void kse_ta_flow(const kse::system *s, const double *x, const double *p, double dt, double *out);
namespace kw
{
inline constexpr kse::tol_t tol{};
inline constexpr kse::pars_t pars{};
inline constexpr kse::cm_t compact_mode{};
inline constexpr kse::time_t_ time{};
}
template <typename T>
class taylor_adaptive
{
    kse::system s{};
    double m_time = 0, m_tol = 0;
    std::vector<double> m_state, m_pars;
    void opt(const kse::tol_t::v &v) { m_tol = v.x; }
    void opt(const kse::pars_t::v &v) { m_pars = v.x; }
    void opt(const kse::cm_t::v &) {}
    void opt(const kse::time_t_::v &v) { m_time = v.x; }
    void system(const std::vector<std::pair<expression, expression>> &e)
    {
        s.n = static_cast<int>(e.size());
        s.good = s.n <= 8;
        for (int k = 0; k < s.n && k < 8; ++k) {
            s.rhs[k] = e[static_cast<unsigned>(k)].second.i;
            const auto &q = kse::arena[e[static_cast<unsigned>(k)].first.i];
            if (q.o != kse::VAR || q.a != k) s.good = false;
            const int c = kse::parcount(s.rhs[k]);
            if (c > s.np) s.np = c;
        }
    }
    template <typename... K>
    void finish(std::vector<double> st, K... kws)
    {
        m_state = std::move(st);
        (opt(kws), ...);
        m_pars.resize(static_cast<std::size_t>(s.np), 0.);
        if (!s.good || static_cast<int>(m_state.size()) != s.n) throw std::invalid_argument("inconsistent system");
        for (int i = 0; i < s.n; ++i)
            for (int j = 0; j < s.nv; ++j) m_state.push_back(s.arg[j] == i ? 1. : 0.);
    }

public:
    taylor_adaptive() = default;
    template <typename... K>
    taylor_adaptive(const std::vector<std::pair<expression, expression>> &e, std::vector<double> st, K... kws)
    {
        system(e);
        finish(std::move(st), kws...);
    }
    template <typename... K>
    taylor_adaptive(const var_ode_sys &v, std::vector<double> st, K... kws)
    {
        system(v.sys);
        s.nv = static_cast<int>(v.args.size());
        if (v.order != 1 || s.nv > 16) s.good = false;
        for (int k = 0; k < s.nv && k < 16; ++k) {
            const auto &q = kse::arena[v.args[static_cast<unsigned>(k)].i];
            if (q.o != kse::VAR && q.o != kse::PAR) s.good = false;
            s.arg[k] = q.o == kse::VAR ? q.a : 100 + q.a;
        }
        finish(std::move(st), kws...);
    }
    const kse::system &kse_system() const { return s; }
    double get_time() const { return m_time; }
    void set_time(double t) { m_time = t; }
    double get_tol() const { return m_tol; }
    bool is_variational() const { return s.nv > 0; }
    std::vector<expression> get_vargs() const
    {
        std::vector<expression> r;
        for (int k = 0; k < s.nv; ++k) r.push_back(s.arg[k] < 100 ? expression(kse::VAR, s.arg[k], 0, 0) : expression(kse::PAR, s.arg[k] - 100, 0, 0));
        return r;
    }
    unsigned get_vorder() const { return 1u; }
    std::uint32_t get_n_orig_sv() const { return static_cast<std::uint32_t>(s.n); }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar & s.n; ar & s.np; ar & s.nv; ar & s.good;
        for (int &k : s.rhs) ar & k;
        for (int &k : s.arg) ar & k;
        ar & m_time; ar & m_tol; ar & m_state; ar & m_pars;
    }
    int get_dim() const { return static_cast<int>(m_state.size()); }
    const std::vector<double> &get_state() const { return m_state; }
    const double *get_state_data() const { return m_state.data(); }
    double *get_state_data() { return m_state.data(); }
    const std::vector<double> &get_pars() const { return m_pars; }
    const double *get_pars_data() const { return m_pars.data(); }
    double *get_pars_data() { return m_pars.data(); }
    std::tuple<taylor_outcome, double, double, std::size_t, std::optional<int>, int> propagate_until(double t)
    {
        double out[128];
        kse_ta_flow(&s, m_state.data(), m_pars.data(), t - m_time, out);
        for (std::size_t k = 0; k < m_state.size(); ++k) m_state[k] = out[k];
        m_time = t;
#ifndef KSE_IR
        for (double v : m_state)
            if (!std::isfinite(v)) return {taylor_outcome::err_nf_state, 0., 0., std::size_t(1), std::optional<int>{}, 0};
#endif
        return {taylor_outcome::time_limit, 0., 0., std::size_t(1), std::optional<int>{}, 0};
    }
    std::tuple<taylor_outcome, double, double, std::size_t, std::optional<int>, int> propagate_for(double dt)
    {
        return propagate_until(m_time + dt);
    }
    std::tuple<taylor_outcome, double, double, std::size_t, int, std::vector<double>> propagate_grid(const std::vector<double> &g)
    {
        std::vector<double> r;
        r.reserve(g.size() * m_state.size());
        if (g.empty()) throw std::invalid_argument("empty grid");
        for (double t : g) {
            propagate_until(t);
            for (double v : m_state) r.push_back(v);
        }
        return {taylor_outcome::time_limit, 0., 0., std::size_t(1), 0, r};
    }
};
}
