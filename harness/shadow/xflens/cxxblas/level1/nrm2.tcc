// Stand-in used only for symbolic encoding: the Euclidean norm without the
// overflow-avoiding scaling loop (same value over the reals).
#ifndef CXXBLAS_LEVEL1_NRM2_TCC
#define CXXBLAS_LEVEL1_NRM2_TCC 1
#include "xflens/cxxblas/cxxblas.h"
#include <cmath>
namespace cxxblas {
template <typename IndexType, typename X, typename T>
void nrm2(IndexType n, const X *x, IndexType incX, T &norm)
{
    using std::sqrt;
    if (incX < 0) x -= incX * (n - 1);
    T s(0);
    for (IndexType i = 0, iX = 0; i < n; ++i, iX += incX) s += x[iX] * x[iX];
    norm = sqrt(s);
}
template <typename IndexType, typename X, typename T>
void nrm2(IndexType n, const std::complex<X> *x, IndexType incX, T &norm)
{
    using std::sqrt;
    T s(0);
    for (IndexType i = 0, iX = 0; i < n; ++i, iX += incX) s += std::norm(x[iX]);
    norm = sqrt(s);
}
#ifdef HAVE_CBLAS
template <typename IndexType>
typename If<IndexType>::isBlasCompatibleInteger nrm2(IndexType n, const float *x, IndexType incX, float &norm) { nrm2<IndexType, float, float>(n, x, incX, norm); }
template <typename IndexType>
typename If<IndexType>::isBlasCompatibleInteger nrm2(IndexType n, const double *x, IndexType incX, double &norm) { nrm2<IndexType, double, double>(n, x, incX, norm); }
#endif
} // namespace cxxblas
#endif
