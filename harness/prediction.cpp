// C17: the prediction operator is exact on polynomials of degree <= 2*order per direction (which determines it), and
// conservative for arbitrary data, whatever the place, parity and length of the predicted interval.
#include "freemesh.hpp"
#include "pred_oracle.hpp"
#include <samurai/algorithm.hpp>
#include <samurai/numeric/prediction.hpp>
#include <samurai/subset/subset_op.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef ORDER
#define ORDER 1
#endif
#ifndef NC
#define NC 1
#endif
#ifndef SOAL
#define SOAL false
#endif
#ifndef NMAX
#define NMAX 4
#endif
#ifndef DESTL
#define DESTL false
#endif
constexpr std::size_t dim = DIM;
using Config  = FreeConfig<dim, ORDER>;
using mesh_t  = FreeMesh<Config>;
using field_t = Field<mesh_t, double, NC, SOAL>;
static const int L = 3; // fine level

static double ipow(int x, int n) { double r = 1; while (n--) r *= x; return r; }
// cell averages of x^a, in units where the coarse cell is 2 wide: scaled by (a+1)*2
static double fine_avg(int k, int a) { return 2 * (ipow(k + 1, a + 1) - ipow(k, a + 1)); }
static double coarse_avg(int i, int a) { return ipow(2 * i + 2, a + 1) - ipow(2 * i, a + 1); }


constexpr int M = ORDER;
constexpr int MJ = DIM > 1 ? ORDER : 0, MK = DIM > 2 ? ORDER : 0;
static double U[NC][2 * MK + 1][2 * MJ + 1][NMAX + 2 * ORDER + 2]; // coarse data, U[c][k][j][t + M]
static double child(int c, int t, int si, int sj, int sk, int sg)
{
    return pred_child<DIM, ORDER>([&](int i, int j, int k) { return U[c][MK + k][MJ + j][M + t + i]; }, si, sj, sk, sg);
}

extern "C" void vp_main()
{
    // fine interval [s, s+n) on all the child rows of one coarse row; s = 2*o + par, o symbolic
    const int n   = (int)vp_concretize(vp_int(1, NMAX, "n"));
    const int par = DESTL ? 0 : (int)vp_concretize(vp_int(0, 1, "par"));
    const int BN  = 1 << 18;
    const int o = vp_int(-BN, BN, "o"), oj = DIM > 1 ? vp_int(-BN, BN, "oj") : 0, ok = DIM > 2 ? vp_int(-BN, BN, "ok") : 0;
    const int nc = DESTL ? n : (par + n + 1) / 2; // coarse cells concerned: t in [0, nc)
    typename mesh_t::cl_type cl;
    LevelCellList<dim, typename mesh_t::interval_t> on(DESTL ? L - 1 : L);
    for (int dk = -MK; dk <= MK; ++dk)
        for (int dj = -MJ; dj <= MJ; ++dj)
        {
            yz_t<dim> yz;
            if (DIM > 1) yz[0] = oj + dj;
            if (DIM > 2) yz[1] = ok + dk;
            cl[L - 1][yz].add_interval({o - M, o + nc + M});
            if (DESTL && dj == 0 && dk == 0) on[yz].add_interval({o, o + nc});
        }
    const int NJ = DIM > 1 ? 2 : 1, NK = DIM > 2 ? 2 : 1, x0 = DESTL ? 0 : par, x1 = DESTL ? 2 * nc : par + n;
    for (int ck = 0; ck < NK; ++ck)
        for (int cj = 0; cj < NJ; ++cj)
        {
            yz_t<dim> yz;
            if (DIM > 1) yz[0] = 2 * oj + cj;
            if (DIM > 2) yz[1] = 2 * ok + ck;
            cl[L][yz].add_interval({2 * o + x0, 2 * o + x1});
            if (!DESTL) on[yz].add_interval({2 * o + x0, 2 * o + x1});
        }
    LevelCellArray<dim, typename mesh_t::interval_t> ona(on);
    vp_select(1);
    mesh_t mesh(cl, L - 1, L);
    field_t f("f", mesh);
    vp_select(0);
    for (std::size_t q = 0; q < mesh.nb_cells() * NC; ++q) f.array().data()[q] = -12345.;
    auto at = [&](int c, std::size_t l, int x, int y, int z) -> double&
    {
#if DIM == 1
        return fval(f, c, l, x);
#elif DIM == 2
        return fval(f, c, l, x, y);
#else
        return fval(f, c, l, x, y, z);
#endif
    };
#ifdef POLY // 1D: polynomials of degree <= 2*order
    double pc[NC][2 * ORDER + 1];
    for (int c = 0; c < NC; ++c)
        for (auto& x : pc[c]) x = vp_real(12, "c");
    auto eval = [&](int c, int x, bool fine)
    {
        double r = 0;
        for (int a = 0; a <= 2 * ORDER; ++a) r += pc[c][a] * (fine ? fine_avg(x, a) : coarse_avg(x, a));
        return r;
    };
#endif
    for (int c = 0; c < NC; ++c)
        for (int dk = -MK; dk <= MK; ++dk)
            for (int dj = -MJ; dj <= MJ; ++dj)
                for (int t = -M; t < nc + M; ++t)
                {
#ifdef POLY
                    double v = eval(c, t, false);
#else
                    double v = vp_real(20, "v");
#endif
                    U[c][MK + dk][MJ + dj][M + t]         = v;
                    at(c, L - 1, o + t, oj + dj, ok + dk) = v;
                }
    vp_select(1);
    intersection(ona, ona).apply_op(prediction<ORDER, DESTL>(f));
    vp_select(0);
    bool plus = true, minus = true;
    for (int c = 0; c < NC; ++c)
    {
        for (int ck = 0; ck < NK; ++ck)
            for (int cj = 0; cj < NJ; ++cj)
                for (int x = x0; x < x1; ++x)
                {
                    double v = at(c, L, 2 * o + x, 2 * oj + cj, 2 * ok + ck);
#ifdef POLY
                    vp_assert(v == eval(c, x, true), "prediction.polynomial");
#else
                    int t = x / 2, si = x & 1 ? -1 : 1, sj = cj ? -1 : 1, sk = ck ? -1 : 1;
                    plus  = AND(plus, v == child(c, t, si, sj, sk, 1));
                    minus = AND(minus, v == child(c, t, si, sj, sk, -1));
#endif
                    vp_observe_f(v);
                }
        // the mean of the children of a coarse cell is its value
        for (int t = 0; t < nc; ++t)
            if (2 * t >= x0 && 2 * t + 1 < x1)
            {
                double s = 0;
                for (int ck = 0; ck < NK; ++ck)
                    for (int cj = 0; cj < NJ; ++cj)
                        for (int ci = 0; ci < 2; ++ci) s += at(c, L, 2 * (o + t) + ci, 2 * oj + cj, 2 * ok + ck);
                vp_assert(s == (1 << DIM) * at(c, L - 1, o + t, oj, ok), "prediction.conservative");
            }
        for (int dk = -MK; dk <= MK; ++dk)
            for (int dj = -MJ; dj <= MJ; ++dj)
                for (int t = -M; t < nc + M; ++t) vp_assert(at(c, L - 1, o + t, oj + dj, ok + dk) == U[c][MK + dk][MJ + dj][M + t], "prediction.source-untouched");
    }
#ifndef POLY
    // one-directional corrections and cross corrections, with one sign for the double cross corrections
    vp_assert(OR(plus, minus), "prediction.formula");
#ifdef CROSS // a tensor product of exact one-directional predictions is exact on products of polynomials
    vp_assert(plus, "prediction.exact-on-products");
#endif
#endif
    vp_cover("predicted");
}
