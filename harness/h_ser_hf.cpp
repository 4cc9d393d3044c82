#include "h_hf.cpp"
#include "kse_tape.hpp"
// k segments; k2: 0 the leg as built, 1 after it was used.  out: state (56), mismatch (7), gradients of the leg; the same of its copy
KSE_ENTRY(h_ser_hf)
{
    const leg_t l = mk(in, 3 * k, 0, 1e-10);
    leg_t c;
    const int n = 63 + 100 + 7 * (3 * k + 1);
    for (int i = 0; i < 2 * n; ++i) out[i] = 0.;
    if (k2) mismatch(l, out);
    kse_copy(l, c);
    state(l, out); state(c, out + n);
    mismatch(l, out + 56); mismatch(c, out + n + 56);
    grad(l, out + 63); grad(c, out + n + 63);
    return 0;
}
KSE_END
// in: mu veff state(7) thrust(3) tof; k: 0 propagate, 1 propagate_var; k2: 1 after use with the second values
KSE_ENTRY(h_ser_stark)
{
    kep3::stark_problem s(in[0], in[1], 1e-10), c(3., 4., 1e-5);
    double tmp[77];
    if (k2) prop(s, in + 13, k, tmp);
    kse_copy(s, c);
    for (int j = 0; j < 2; ++j) {
        kep3::stark_problem &q = j ? c : s;
        double *o = out + 82 * j;
        prop(q, in, k, o);
        if (k == 0) for (int i = 7; i < 77; ++i) o[i] = 0.;
        o[77] = q.get_mu(); o[78] = q.get_veff(); o[79] = q.get_tol() == 1e-10; o[80] = q.get_ta().get_tol() == 1e-10; o[81] = q.get_ta_var().get_tol() == 1e-10;
    }
    return 0;
}
KSE_END
