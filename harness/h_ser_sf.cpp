#include "h_sf.cpp"
#include "kse_tape.hpp"
// k segments.  out: state (41), mismatch (7) of the leg; the same of its copy
KSE_ENTRY(h_ser_sf)
{
    const leg_t l = mk(in, 3 * k);
    leg_t c;
    for (int i = 0; i < 96; ++i) out[i] = 0.;
    kse_copy(l, c);
    state(l, out); state(c, out + 48);
    const auto m = l.compute_mismatch_constraints(), n = c.compute_mismatch_constraints();
    for (int i = 0; i < 7; ++i) { out[41 + i] = m[i]; out[89 + i] = n[i]; }
    return 0;
}
KSE_END
