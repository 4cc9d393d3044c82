// Entry points for epochs.  Integers arrive as (exact) doubles.
#include <array>
#include <cmath>
#include <cstdint>
#include <algorithm>
#include <stdexcept>
#include <string>
#include <vector>
#include <kep3/epoch.hpp>
#include "kse.hpp"
using kep3::epoch;
using us_t = kep3::microseconds;
static std::int64_t I(double x) { return static_cast<std::int64_t>(x); }
static epoch at(double x) { return epoch(kep3::time_point(us_t(I(x)))); }
static std::int64_t cnt(const epoch &e) { return e.get_tp().time_since_epoch().count(); }
static double D(std::int64_t x) { return static_cast<double>(x); }
static const epoch::julian_type JT[] = {epoch::julian_type::MJD2000, epoch::julian_type::MJD, epoch::julian_type::JD};
// in: days; k: calendar.  out: the three representations, ticks
KSE_ENTRY(h_ep_days)
{
    const epoch e(in[0], JT[k]);
    out[0] = e.mjd2000(); out[1] = e.mjd(); out[2] = e.jd(); out[3] = D(cnt(e));
    return 0;
}
KSE_END
// in: ticks
KSE_ENTRY(h_ep_ticks)
{
    const epoch e = at(in[0]);
    out[0] = e.mjd2000(); out[1] = e.mjd(); out[2] = e.jd(); out[3] = D(cnt(e));
    return 0;
}
KSE_END
// in: ticks, length; k: operation; k2: unit of the duration
template <typename Dur> static std::int64_t shift(double t, Dur d, int op)
{
    epoch e = at(t);
    if (op == 0) return cnt(e + d);
    if (op == 1) return cnt(e - d);
    if (op == 2) e += d; else e -= d;
    return cnt(e);
}
KSE_ENTRY(h_ep_shift)
{
    std::int64_t r = 0;
    switch (k2) {
        case 0: r = shift(in[0], us_t(I(in[1])), k); break;
        case 1: r = shift(in[0], std::chrono::duration<std::int64_t, std::milli>(I(in[1])), k); break;
        case 2: r = shift(in[0], std::chrono::duration<std::int64_t>(I(in[1])), k); break;
        case 3: r = shift(in[0], std::chrono::duration<std::int64_t, std::ratio<3600>>(I(in[1])), k); break;
        case 4: r = shift(in[0], std::chrono::duration<std::int64_t, std::ratio<86400>>(I(in[1])), k); break;
        case 5: r = shift(in[0], epoch::days(in[1]), k); break;
        case 6: r = shift(in[0], epoch::sec(in[1]), k); break;
        case 7: r = shift(in[0], std::chrono::duration<double, std::ratio<86400>>(in[1]), k); break;
        default: return 50;
    }
    out[0] = D(r);
    return 0;
}
KSE_END
// in: two tick counts
KSE_ENTRY(h_ep_cmp)
{
    const epoch a = at(in[0]), b = at(in[1]);
    out[0] = D((a - b).count()); out[1] = epoch::as_sec(a - b);
    out[2] = a < b ? 1. : 0.; out[3] = a <= b ? 1. : 0.; out[4] = a > b ? 1. : 0.; out[5] = a >= b ? 1. : 0.; out[6] = a == b ? 1. : 0.; out[7] = a != b ? 1. : 0.;
    return 0;
}
KSE_END
KSE_ENTRY(h_ep_zero) { out[0] = D(cnt(epoch())); out[1] = D(cnt(epoch(std::chrono::seconds(I(in[0]))))); return 0; } KSE_END

// ---- calendar: integers as bit-vectors; the entry returns 1 when the stated relation holds, 0 when not
static int J(double x) { return static_cast<int>(x); }
static std::int64_t date(int y, int m, int d) { return cnt(epoch(y, static_cast<unsigned>(m), static_cast<unsigned>(d))); }
constexpr std::int64_t DAY = 86400000000LL;
static int month_len(int y, int m)
{
    static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return L[m - 1] + ((m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0))) ? 1 : 0);
}
KSE_ENTRY(h_ep_origin) { return date(2000, 1, 1) == 946684800000000LL && date(1970, 1, 1) == 0 && date(1858, 11, 17) == 946684800000000LL - 51544 * DAY; } KSE_END
// in: year, day; k: month
KSE_ENTRY(h_ep_day) { return date(J(in[0]), k, J(in[1])) - date(J(in[0]), k, 1) == (J(in[1]) - 1) * DAY; } KSE_END
// in: year; k: month (the next month starts month_len days later)
KSE_ENTRY(h_ep_month)
{
    const int y = J(in[0]), y2 = k == 12 ? y + 1 : y, m2 = k == 12 ? 1 : k + 1;
    return date(y2, m2, 1) - date(y, k, 1) == month_len(y, k) * DAY;
}
KSE_END
// in: hour, minute, second, millisecond, microsecond
KSE_ENTRY(h_ep_time)
{
    const int h = J(in[0]), mi = J(in[1]), s = J(in[2]), ms = J(in[3]), us = J(in[4]);
    const std::int64_t a = cnt(epoch(2003, 7u, 11u, h, mi, s, ms, us)), b = date(2003, 7, 11);
    return a - b == ((std::int64_t(h) * 60 + mi) * 60 + s) * 1000000 + std::int64_t(ms) * 1000 + us;
}
KSE_END
// in: year, month, day: rejected exactly when out of range
KSE_ENTRY(h_ep_reject)
{
    const int y = J(in[0]), m = J(in[1]), d = J(in[2]);
    const bool ok = y >= -32767 && y <= 32767 && m >= 1 && m <= 12 && d >= 1 && d <= 31;
    bool threw = false;
    try { (void)date(y, m, d); } catch (const std::exception &) { threw = true; }
    return ok != threw;
}
KSE_END
// in: 20 digits YYYY MM DD hh mm ss uuuuuu; k: length of the string
KSE_ENTRY(h_ep_string)
{
    static const int pos[] = {0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18, 20, 21, 22, 23, 24, 25};
    char s[27] = "0000-00-00T00:00:00.000000";
    int v[20];
    for (int i = 0; i < 20; ++i) { v[i] = pos[i] < k ? J(in[i]) : 0; s[pos[i]] = static_cast<char>('0' + v[i]); }
    const int y = ((v[0] * 10 + v[1]) * 10 + v[2]) * 10 + v[3], mo = v[4] * 10 + v[5], d = k >= 10 ? v[6] * 10 + v[7] : 1;
    const int h = v[8] * 10 + v[9], mi = v[10] * 10 + v[11], se = v[12] * 10 + v[13];
    const int us = ((((v[14] * 10 + v[15]) * 10 + v[16]) * 10 + v[17]) * 10 + v[18]) * 10 + v[19];
    if (mo < 1 || mo > 12 || d < 1 || d > 31) return 1;
    return cnt(epoch(std::string(s, static_cast<std::size_t>(k)))) == cnt(epoch(y, static_cast<unsigned>(mo), static_cast<unsigned>(d), h, mi, se, 0, us));
}
KSE_END
// k: length; in: 20 digits as above.  Lengths that no format has are rejected
KSE_ENTRY(h_ep_badlength)
{
    char s[27] = "2001-02-03T04:05:06.123456";
    bool threw = false;
    try { (void)epoch(std::string(s, static_cast<std::size_t>(k))); } catch (const std::exception &) { threw = true; }
    return threw;
}
KSE_END
