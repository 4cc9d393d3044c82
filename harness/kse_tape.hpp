// A serialisation archive: in the symbolic build a tape of numbers (what is written is what is read, in order);
// in the native build boost's own binary archives.
#pragma once
#include <array>
#include <cstddef>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/serialization/serialization.hpp>
#ifdef KSE_NATIVE
template <typename T>
void kse_copy(const T &from, T &to)
{
    std::stringstream s;
    { boost::archive::binary_oarchive a(s); a << from; }
    { boost::archive::binary_iarchive a(s); a >> to; }
}
#else
struct kse_cells {
    std::vector<double> d;
    std::vector<long long> i;
};
template <bool Save>
struct kse_tape {
    typedef boost::mpl::bool_<Save> is_saving;
    typedef boost::mpl::bool_<!Save> is_loading;
    kse_cells &c;
    std::size_t nd = 0, ni = 0;
    explicit kse_tape(kse_cells &x) : c(x) {}
    unsigned get_library_version() const { return 19; }
    void io(double &x) { if constexpr (Save) c.d.push_back(x); else x = c.d.at(nd++); }
    void io(long double &x) { double y = static_cast<double>(x); io(y); x = y; }
    void io(float &x) { double y = x; io(y); x = static_cast<float>(y); }
    template <typename T>
    std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>> io(T &x)
    {
        if constexpr (Save) c.i.push_back(static_cast<long long>(x));
        else x = static_cast<T>(c.i.at(ni++));
    }
    void io(std::string &s)
    {
        std::size_t n = s.size();
        io(n);
        if constexpr (!Save) s.resize(n);
        for (std::size_t k = 0; k < n; ++k) io(s[k]);
    }
    template <typename T, std::size_t N>
    void io(std::array<T, N> &a) { for (auto &x : a) io(x); }
    template <typename T, std::size_t N>
    void io(T (&a)[N]) { for (auto &x : a) io(x); }
    template <typename A, typename B>
    void io(std::pair<A, B> &p) { io(p.first); io(p.second); }
    template <typename T>
    void io(std::vector<T> &v)
    {
        std::size_t n = v.size();
        io(n);
        if constexpr (!Save) v.resize(n);
        for (std::size_t k = 0; k < n; ++k) io(v[k]);
    }
    template <typename T>
    std::enable_if_t<std::is_class_v<T>> io(T &x) { boost::serialization::serialize_adl(*this, x, 0u); }
    template <typename T>
    kse_tape &operator&(const T &x) { io(const_cast<T &>(x)); return *this; }
    template <typename T>
    kse_tape &operator&(T &x) { io(const_cast<std::remove_const_t<T> &>(x)); return *this; }
    template <typename T>
    kse_tape &operator<<(const T &x) { return *this & x; }
    template <typename T>
    kse_tape &operator>>(T &x) { return *this & x; }
};
template <typename T>
void kse_copy(const T &from, T &to)
{
    kse_cells c;
    kse_tape<true> o(c);
    o & from;
    kse_tape<false> i(c);
    i & to;
}
#endif
