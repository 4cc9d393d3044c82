#pragma once
// extern "C" int NAME(const double *in, double *out, int k, int k2)
// native build: exceptions become return codes; IR build: they propagate to the executor
#ifdef KSE_NATIVE
#define KSE_ENTRY(name)                                                                                                \
    extern "C" __attribute__((visibility("default"))) int name(const double *in, double *out, int k, int k2)           \
    {                                                                                                                  \
        (void)in; (void)out; (void)k; (void)k2;                                                                        \
        try
#define KSE_END                                                                                                        \
    catch (const std::domain_error &) { return -1; }                                                                   \
    catch (const std::invalid_argument &) { return -3; }                                                               \
    catch (const std::length_error &) { return -5; }                                                                   \
    catch (const std::out_of_range &) { return -4; }                                                                   \
    catch (const std::logic_error &) { return -2; }                                                                    \
    catch (const std::runtime_error &) { return -6; }                                                                  \
    catch (const std::bad_alloc &) { return -7; }                                                                      \
    catch (...) { return -8; }                                                                                         \
    }
#else
#define KSE_ENTRY(name)                                                                                                \
    extern "C" int name(const double *in, double *out, int k, int k2)                                                  \
    {                                                                                                                  \
        (void)in; (void)out; (void)k; (void)k2;
#define KSE_END }
#endif
