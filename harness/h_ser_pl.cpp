#include "h_udpla.cpp"
#include "kse_tape.hpp"
KSE_ENTRY(h_ser_epoch)
{
    const kep3::epoch e = at(I(in[0]));
    kep3::epoch c(in[1]);
    kse_copy(e, c);
    out[0] = static_cast<double>(e.get_tp().time_since_epoch().count());
    out[1] = static_cast<double>(c.get_tp().time_since_epoch().count());
    return 0;
}
KSE_END
template <typename U>
static void data(const U &u, double t, double *o)
{
    put(u.eph(t), o);
    put(u.elements(t, ET::KEP_F), o + 6);
    o[12] = u.get_mu_central_body(); o[13] = u.get_mu_self(); o[14] = u.get_radius(); o[15] = u.get_safe_radius();
    const std::string n = u.get_name();
    o[16] = static_cast<double>(n.size());
    for (unsigned i = 0; i < 20u; ++i) o[17 + i] = i < n.size() ? static_cast<double>(n[i]) : 0.;
}
// in: as h_kep_data; k: type of the six numbers
KSE_ENTRY(h_ser_kep)
{
    const kep3::udpla::keplerian u = make(in, in[6], at(I(in[7])), k, {in[8], in[9], in[10]});
    kep3::udpla::keplerian c;
    kse_copy(u, c);
    data(u, in[11], out); data(c, in[11], out + 40);
    out[37] = u.period(in[11]); out[77] = c.period(in[11]);
    out[38] = static_cast<double>(u.get_ref_epoch().get_tp().time_since_epoch().count());
    out[78] = static_cast<double>(c.get_ref_epoch().get_tp().time_since_epoch().count());
    out[39] = out[79] = 0.;
    return 0;
}
KSE_END
KSE_ENTRY(h_ser_jpl)
{
    static const char *const names[] = {"mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"};
    const kep3::udpla::jpl_lp u(names[k]);
    kep3::udpla::jpl_lp c(names[(k + 3) % 8]);
    kse_copy(u, c);
    data(u, in[0], out); data(c, in[0], out + 40);
    for (int i = 37; i < 40; ++i) out[i] = out[40 + i] = 0.;
    return 0;
}
KSE_END
