// Reference formula of the multiresolution prediction of order s: corrections
//   Q u(i) = sum_{m=1..s} G[s][m-1] (u(i+m) - u(i-m))   in each direction and their products.
// (that the 1D formula is exact on polynomials of degree 2s is checked by C17, which pins the coefficients)
#pragma once
static const double PRED_G[6][5] = {{0}, {-1. / 8}, {-22. / 128, 3. / 128}, {-201. / 1024, 44. / 1024, -5. / 1024}, {-6922. / 32768, 1898. / 32768, -370. / 32768, 35. / 32768}, {-58022. / 262144, 18208. / 262144, -4661. / 262144, 784. / 262144, -63. / 262144}};
template <int S, class F>
inline double Qg(F f)
{
    double q = 0;
    for (int m = 1; m <= S; ++m) q += PRED_G[S][m - 1] * (f(m) - f(-m));
    return q;
}
// value predicted for the child (si,sj,sk: +1 even, -1 odd) of the coarse cell around which u(i,j,k) gives the coarse
// values; sg: sign of the double cross corrections
template <int dim, int S, class U>
inline double pred_child(U u, int si, int sj, int sk, int sg)
{
    double r = u(0, 0, 0) + si * Qg<S>([&](int i) { return u(i, 0, 0); });
    if (dim > 1)
    {
        r += sj * Qg<S>([&](int j) { return u(0, j, 0); });
        r += sg * si * sj * Qg<S>([&](int i) { return Qg<S>([&](int j) { return u(i, j, 0); }); });
    }
    if (dim > 2)
    {
        r += sk * Qg<S>([&](int k) { return u(0, 0, k); });
        r += sg * si * sk * Qg<S>([&](int i) { return Qg<S>([&](int k) { return u(i, 0, k); }); });
        r += sg * sj * sk * Qg<S>([&](int j) { return Qg<S>([&](int k) { return u(0, j, k); }); });
        r += si * sj * sk * Qg<S>([&](int i) { return Qg<S>([&](int j) { return Qg<S>([&](int k) { return u(i, j, k); }); }); });
    }
    return r;
}
