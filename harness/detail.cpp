// C28: the detail of a cell is its value minus the value predicted from the coarser level.
#include "freemesh.hpp"
#include "pred_oracle.hpp"
#include <samurai/algorithm.hpp>
#include <samurai/mr/operators.hpp>
#include <samurai/subset/subset_op.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef ORDER
#define ORDER 1
#endif
#ifndef NC
#define NC 1
#endif
#ifndef NC2
#define NC2 0 // > 0: tuple of two fields
#endif
#ifndef SOAL
#define SOAL false
#endif
#ifndef NMAX
#define NMAX 3
#endif
#ifndef LEV
#define LEV 2 // level of the set
#endif
constexpr std::size_t dim = DIM;
constexpr int NT          = NC + NC2;
using mesh_t  = FreeMesh<FreeConfig<dim, ORDER>>;
constexpr int M = ORDER, MJ = DIM > 1 ? ORDER : 0, MK = DIM > 2 ? ORDER : 0;
extern "C" void vp_main()
{
    const int n  = (int)vp_concretize(vp_int(1, NMAX, "n"));
    const int pi = (int)vp_concretize(vp_int(0, 1, "pi")), pj = DIM > 1 ? (int)vp_concretize(vp_int(0, 1, "pj")) : 0, pk = DIM > 2 ? (int)vp_concretize(vp_int(0, 1, "pk")) : 0;
    const int BN = 1 << 18, NJ = DIM > 1 ? 2 : 1, NK = DIM > 2 ? 2 : 1;
    const int q = vp_int(-BN, BN, "o"), qj = DIM > 1 ? vp_int(-BN, BN, "oj") : 0, qk = DIM > 2 ? vp_int(-BN, BN, "ok") : 0;
    const int o = 2 * q + pi, oj = 2 * qj + pj, ok = 2 * qk + pk; // first cell of the set, level LEV
    const int nc = (pi + n + 1) / 2;                              // its coarse cells: q .. q+nc-1
    typename mesh_t::cl_type cl;
    LevelCellList<dim, typename mesh_t::interval_t> on(LEV);
    yz_t<dim> yz;
    for (int dk = -MK; dk <= MK; ++dk)
        for (int dj = -MJ; dj <= MJ; ++dj)
        {
            if (DIM > 1) yz[0] = oj + dj;
            if (DIM > 2) yz[1] = ok + dk;
            cl[LEV][yz].add_interval({o - M, o + n + M});
            if (dj == 0 && dk == 0) on[yz].add_interval({o, o + n});
            if (LEV > 0)
            {
                if (DIM > 1) yz[0] = qj + dj;
                if (DIM > 2) yz[1] = qk + dk;
                cl[LEV - 1][yz].add_interval({q - M, q + nc + M});
            }
        }
    for (int ck = 0; ck < NK; ++ck)
        for (int cj = 0; cj < NJ; ++cj)
        {
            if (DIM > 1) yz[0] = 2 * oj + cj;
            if (DIM > 2) yz[1] = 2 * ok + ck;
            cl[LEV + 1][yz].add_interval({2 * o, 2 * (o + n)});
        }
    LevelCellArray<dim, typename mesh_t::interval_t> ona(on);
    vp_select(1);
    mesh_t mesh(cl, LEV > 0 ? LEV - 1 : 0, LEV + 1);
    auto f = make_field<double, NC, SOAL>("f", mesh);
#if NC2
    auto g = make_field<double, NC2, SOAL>("g", mesh);
#endif
    auto d = make_field<double, NT>("d", mesh);
    vp_select(0);
    d.fill(-777.);
    const std::size_t N = mesh.nb_cells();
    for (std::size_t x = 0; x < N * NC; ++x) f.array().data()[x] = vp_real(20, "v");
#if NC2
    for (std::size_t x = 0; x < N * NC2; ++x) g.array().data()[x] = vp_real(20, "w");
#endif
    auto at = [&](auto& fl, int c, std::size_t l, int x, int y, int z) -> double&
    {
#if DIM == 1
        return fval(fl, c, l, x);
#elif DIM == 2
        return fval(fl, c, l, x, y);
#else
        return fval(fl, c, l, x, y, z);
#endif
    };
    auto u = [&](int c, std::size_t l, int x, int y, int z)
    {
#if NC2
        if (c >= NC) return at(g, c - NC, l, x, y, z);
#endif
        return at(f, c, l, x, y, z);
    };
    vp_select(1);
    auto set = intersection(ona, ona);
#if NC2
    using f_t = decltype(f);
    using g_t = decltype(g);
    Field_tuple<f_t, g_t> tup(f, g);
    set.apply_op(compute_detail(d, tup));
#else
    set.apply_op(compute_detail(d, f));
#endif
    vp_select(0);
    bool plus = true, minus = true;
    for (int c = 0; c < NT; ++c)
        for (int t = 0; t < n; ++t)
        {
            auto ul = [&](int i, int j, int k) { return u(c, LEV, o + t + i, oj + j, ok + k); };
            for (int ck = 0; ck < NK; ++ck)
                for (int cj = 0; cj < NJ; ++cj)
                    for (int ci = 0; ci < 2; ++ci)
                    {
                        double v = at(d, c, LEV + 1, 2 * (o + t) + ci, 2 * oj + cj, 2 * ok + ck), x = u(c, LEV + 1, 2 * (o + t) + ci, 2 * oj + cj, 2 * ok + ck);
                        plus  = AND(plus, v == x - pred_child<DIM, ORDER>(ul, ci ? -1 : 1, cj ? -1 : 1, ck ? -1 : 1, 1));
                        minus = AND(minus, v == x - pred_child<DIM, ORDER>(ul, ci ? -1 : 1, cj ? -1 : 1, ck ? -1 : 1, -1));
                        vp_observe_f(v);
                    }
            if (LEV > 0)
            {
                double v  = at(d, c, LEV, o + t, oj, ok), x = u(c, LEV, o + t, oj, ok);
                auto uc   = [&](int i, int j, int k) { return u(c, LEV - 1, q + (pi + t) / 2 + i, qj + j, qk + k); };
                int si    = (pi + t) & 1 ? -1 : 1;
                plus  = AND(plus, v == x - pred_child<DIM, ORDER>(uc, si, pj ? -1 : 1, pk ? -1 : 1, 1));
                minus = AND(minus, v == x - pred_child<DIM, ORDER>(uc, si, pj ? -1 : 1, pk ? -1 : 1, -1));
                vp_observe_f(v);
            }
        }
    vp_assert(OR(plus, minus), "detail.value");
    if (M > 0) vp_assert(at(d, 0, LEV, o - 1, oj, ok) == -777., "detail.others-untouched");
    vp_cover("detail");
}
