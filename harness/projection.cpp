// C16: the projection of a cell is the mean of its children, for every component, whatever the place of the cells.
#include "freemesh.hpp"
#include <samurai/algorithm.hpp>
#include <samurai/numeric/projection.hpp>
#include <samurai/subset/subset_op.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef NC
#define NC 1
#endif
#ifndef SOAL
#define SOAL false
#endif
#ifndef NMAX
#define NMAX 3
#endif
#ifndef VARIANT
#define VARIANT 0 // 0: in place, 1: other destination, 2: variadic
#endif
constexpr std::size_t dim = DIM;
using mesh_t  = FreeMesh<FreeConfig<dim>>;
using field_t = Field<mesh_t, double, NC, SOAL>;
static const int L = 3; // fine level
static double V[2][NC][2][2][2 * NMAX];
extern "C" void vp_main()
{
    const int n  = (int)vp_concretize(vp_int(1, NMAX, "n"));
    const int BN = 1 << 18, NJ = DIM > 1 ? 2 : 1, NK = DIM > 2 ? 2 : 1;
    const int o = vp_int(-BN, BN, "o"), oj = DIM > 1 ? vp_int(-BN, BN, "oj") : 0, ok = DIM > 2 ? vp_int(-BN, BN, "ok") : 0;
    typename mesh_t::cl_type cl;
    LevelCellList<dim, typename mesh_t::interval_t> on(L - 1);
    yz_t<dim> yz;
    if (DIM > 1) yz[0] = oj;
    if (DIM > 2) yz[1] = ok;
    cl[L - 1][yz].add_interval({o - 1, o + n + 1}); // one cell more on both sides: must not change
    on[yz].add_interval({o, o + n});
    for (int ck = 0; ck < NK; ++ck)
        for (int cj = 0; cj < NJ; ++cj)
        {
            if (DIM > 1) yz[0] = 2 * oj + cj;
            if (DIM > 2) yz[1] = 2 * ok + ck;
            cl[L][yz].add_interval({2 * o, 2 * (o + n)});
        }
    LevelCellArray<dim, typename mesh_t::interval_t> ona(on);
    vp_select(1);
    mesh_t mesh(cl, L - 1, L);
    field_t f("f", mesh), g("g", mesh);
    vp_select(0);
    f.fill(-777.);
    g.fill(-777.);
    auto at = [&](auto& fl, int c, std::size_t l, int x, int y, int z) -> double&
    {
#if DIM == 1
        return fval(fl, c, l, x);
#elif DIM == 2
        return fval(fl, c, l, x, y);
#else
        return fval(fl, c, l, x, y, z);
#endif
    };
    for (int w = 0; w < (VARIANT == 2 ? 2 : 1); ++w)
        for (int c = 0; c < NC; ++c)
            for (int ck = 0; ck < NK; ++ck)
                for (int cj = 0; cj < NJ; ++cj)
                    for (int x = 0; x < 2 * n; ++x) at(w ? g : f, c, L, 2 * o + x, 2 * oj + cj, 2 * ok + ck) = V[w][c][ck][cj][x] = vp_real(20, "v");
    vp_select(1);
    auto set = intersection(ona, ona);
#if VARIANT == 0
    set.apply_op(projection(f));
#elif VARIANT == 1
    set.apply_op(projection(g, f));
#else
    set.apply_op(variadic_projection(f, g));
#endif
    vp_select(0);
    for (int w = 0; w < (VARIANT == 2 ? 2 : 1); ++w)
    {
        auto& dst = (VARIANT == 1 || w) ? g : f;
        for (int c = 0; c < NC; ++c)
        {
            for (int t = 0; t < n; ++t)
            {
                double s = 0;
                for (int ck = 0; ck < NK; ++ck)
                    for (int cj = 0; cj < NJ; ++cj)
                        for (int ci = 0; ci < 2; ++ci) s += V[w][c][ck][cj][2 * t + ci];
                vp_assert(at(dst, c, L - 1, o + t, oj, ok) * (1 << DIM) == s, "projection.mean");
                vp_observe_f(at(dst, c, L - 1, o + t, oj, ok));
            }
            vp_assert(AND(at(dst, c, L - 1, o - 1, oj, ok) == -777., at(dst, c, L - 1, o + n, oj, ok) == -777.), "projection.others-untouched");
            for (int ck = 0; ck < NK; ++ck)
                for (int cj = 0; cj < NJ; ++cj)
                    for (int x = 0; x < 2 * n; ++x) vp_assert(at(w ? g : f, c, L, 2 * o + x, 2 * oj + cj, 2 * ok + ck) == V[w][c][ck][cj][x], "projection.source-untouched");
        }
    }
    vp_cover("projected");
}
