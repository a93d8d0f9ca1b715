// C18: after the ghost update every stored value is the one the leaves determine: leaves unchanged, subdivided cells = mean
// of their children, other cells inside the domain = prediction from the level below, outside = boundary condition.
#include "freemesh.hpp"
#include "tree.hpp"
#include "pred_oracle.hpp"
#include <samurai/mr/mesh.hpp>
#include <samurai/algorithm/update.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef NX
#define NX 2
#endif
#ifndef NY
#define NY 1
#endif
#ifndef NZ
#define NZ 1
#endif
#ifndef NC
#define NC 1
#endif
#ifndef SOAL
#define SOAL false
#endif
#ifndef BCK
#define BCK 1 // 0 none, 1 Dirichlet, 2 Neumann
#endif
#ifndef NF
#define NF 1 // number of fields updated together
#endif
constexpr std::size_t dim = DIM;
using Config  = MRConfig<dim, 1, 1, 1>;
using mesh_t  = MRMesh<Config>;
using id_t_   = typename mesh_t::mesh_id_t;
using field_t = Field<mesh_t, double, NC, SOAL>;

extern "C" void vp_main()
{
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MAXL;
    T.n[0] = (int)vp_concretize(vp_int(1, NX, "n"));
    if (DIM > 1) T.n[1] = NY;
    if (DIM > 2) T.n[2] = NZ;
    T.per[0] = PERX; T.per[1] = PERY; T.per[2] = PERZ;
    const bool periodic = PERX || PERY || PERZ;
    const int BN = 1 << 16;
    for (int d = 0; d < DIM; ++d) T.o[d] = periodic ? 0 : vp_int(-BN, BN, "o");
#ifdef BUDGET
    T.budget = BUDGET;
#endif
#ifdef HOLES
    T.choose_holes();
#endif
    T.choose();
    typename mesh_t::cl_type cl;
    T.fill(cl);
    vp_select(1);
#if PERX || PERY || PERZ
    typename Box<double, dim>::point_t a, b;
    std::array<bool, dim> per;
    for (int d = 0; d < DIM; ++d) { a[d] = T.o[d]; b[d] = T.o[d] + T.n[d]; per[d] = T.per[d]; }
    mesh_t ref(Box<double, dim>(a, b), MINL, MAXL, per, 0., 1.);
    mesh_t mesh(cl, ref);
#else
    mesh_t mesh(cl, MINL, MAXL);
#endif
    field_t f("f", mesh);
    field_t g("g", mesh);
    vp_select(0);
    field_t* F[2] = {&f, &g};
    double bv[2][NC];
    std::vector<double> init[2];
    for (int t = 0; t < NF; ++t)
    {
        for (std::size_t q = 0; q < mesh.nb_cells() * NC; ++q) { double v = vp_real(20, "v"); F[t]->array().data()[q] = v; init[t].push_back(v); }
        for (int c = 0; c < NC; ++c) bv[t][c] = BCK ? vp_real(20, "bc") : 0;
#if BCK == 1 && NC == 1
        make_bc<Dirichlet<1>>(*F[t], bv[t][0]);
#elif BCK == 1 && NC == 2
        make_bc<Dirichlet<1>>(*F[t], bv[t][0], bv[t][1]);
#elif BCK == 2 && NC == 1
        make_bc<Neumann<1>>(*F[t], bv[t][0]);
#endif
    }
    vp_select(1);
#if NF == 2 && defined(TUPLE)
    std::tuple<field_t&, field_t&> tu(f, g);
    std::apply([](auto&... x) { update_ghost_mr(x...); }, tu);
#elif NF == 2
    update_ghost_mr(f, g);
#else
    update_ghost_mr(f);
#endif
    vp_select(0);
    std::vector<std::set<P3>> st(MAXL + 1);
    for (int l = 0; l <= MAXL; ++l) st[l] = T.stored(l, mesh[id_t_::reference][l]);
    int lo = MAXL;
    for (int l = MAXL; l >= 0 && l >= MINL - 1; --l) if (!st[l].empty()) lo = l; // coarser stored cells are never read
    for (int t = 0; t < NF; ++t)
        for (int c = 0; c < NC; ++c)
        {
            auto at = [&](int l, const P3& p) -> double&
            {
                P3 q = T.glob(l, p);
#if DIM == 1
                return fval(*F[t], c, l, q[0]);
#elif DIM == 2
                return fval(*F[t], c, l, q[0], q[1]);
#else
                return fval(*F[t], c, l, q[0], q[1], q[2]);
#endif
            };
            bool plus = true, minus = true;
            for (int l = lo; l <= T.top(); ++l)
                for (auto& p : st[l])
                {
                    double v = at(l, p);
                    if (T.leaf(l, p))
                    {
                        double* d = F[t]->array().data();
                        vp_assert(v == init[t][&at(l, p) - d], "ghosts.leaf-unchanged");
                    }
                    else if (T.in_domain(l, p) && T.covered(l, p)) // subdivided
                    {
                        double s = 0;
                        for (int m = 0; m < (1 << DIM); ++m)
                        {
                            P3 q{2 * p[0] + (m & 1), 2 * p[1] + (m >> 1 & 1), 2 * p[2] + (m >> 2)};
                            s += at(l + 1, q);
                        }
                        vp_assert(s == (1 << DIM) * v, "ghosts.mean-of-children");
                        vp_cover("projected");
                    }
                    else if (T.in_domain(l, p))
                    {
                        P3 q = T.par(p);
                        auto u = [&](int i, int j, int k) { return at(l - 1, P3{q[0] + i, q[1] + j, q[2] + k}); };
                        int si = p[0] & 1 ? -1 : 1, sj = p[1] & 1 ? -1 : 1, sk = p[2] & 1 ? -1 : 1;
                        plus  = AND(plus, v == pred_child<DIM, 1>(u, si, sj, sk, 1));
                        minus = AND(minus, v == pred_child<DIM, 1>(u, si, sj, sk, -1));
                        vp_cover("predicted");
                    }
                    else
                    {
                        if (!T.hole.empty()) continue;
                        P3 q = T.wrap(l, p);
                        if (q != p) // (partly) periodic: value of the image
                        {
                            bool far = false; // only ghost_width layers are maintained
                            for (int d = 0; d < DIM; ++d) far = far || p[d] < -1 || p[d] > T.n[d] << l;
                            if (!far && st[l].count(q)) { vp_assert(v == at(l, q), "ghosts.periodic-image"); vp_cover("periodic"); }
                            continue;
                        }
                        int out = 0;
                        P3 in = p;
                        for (int d = 0; d < DIM; ++d)
                        {
                            if (p[d] < 0) { in[d]++; out++; if (p[d] < -1) out = 9; }
                            if (p[d] >= T.n[d] << l) { in[d]--; out++; if (p[d] > T.n[d] << l) out = 9; }
                        }
                        if (out > 3 || !st[l].count(in)) continue;
                        if (out == 1 && BCK == 1) vp_assert(v == 2 * bv[t][c] - at(l, in), "ghosts.dirichlet");
                        else if (out == 1 && BCK == 2) vp_assert(v * (1 << l) == bv[t][c] + at(l, in) * (1 << l), "ghosts.neumann");
                        else vp_assert(v == at(l, in), "ghosts.extrapolated");
                        vp_cover("outside");
                    }
                }
            vp_assert(OR(plus, minus), "ghosts.prediction");
            vp_observe_f(at(lo, *st[lo].begin()));
        }
}
