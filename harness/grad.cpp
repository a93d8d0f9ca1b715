// C12: any refine/coarsen/keep tags on any graded leaf partition: graduation + update_field give a graded partition of the
// same domain within the level bounds, tagged cells are refined or kept, and the field values are carried over exactly.
#include "freemesh.hpp"
#include "tree.hpp"
#include "pred_oracle.hpp"
#include <samurai/amr/mesh.hpp>
#include <samurai/mr/adapt.hpp>
#include <samurai/mr/mesh.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef NX
#define NX 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef NZ
#define NZ 1
#endif
#ifndef KT
#define KT -1 // >=0: at most KT leaves with a tag of their own, a common one elsewhere
#endif
#ifndef NF
#define NF 1
#endif
constexpr std::size_t dim = DIM;
#ifdef MR
using Config = MRConfig<dim, 1, 1, 1>;
using mesh_t = MRMesh<Config>;
#else
using Config = amr::Config<dim, 1, 1>;
using mesh_t = amr::Mesh<Config>;
#endif
using id_t_   = typename mesh_t::mesh_id_t;
using field_t = Field<mesh_t, double, 1, false>;
static const int flags[3] = {static_cast<int>(CellFlag::keep), static_cast<int>(CellFlag::coarsen), static_cast<int>(CellFlag::refine)};

extern "C" void vp_main()
{
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MAXL;
    T.n[0] = NX;
    if (DIM > 1) T.n[1] = NY;
    if (DIM > 2) T.n[2] = NZ;
    const int BN = 1 << 16;
    for (int d = 0; d < DIM; ++d) T.o[d] = vp_int(-BN, BN, "o");
#ifdef BUDGET
    T.budget = BUDGET;
#endif
    T.choose();
    typename mesh_t::cl_type cl;
    T.fill(cl);
    vp_select(1);
    mesh_t mesh(cl, MINL, MAXL);
    field_t f("f", mesh), g("g", mesh);
    auto tag = make_field<int, 1>("tag", mesh);
    tag.fill(0);
    f.fill(0);
    g.fill(0);
    vp_select(0);
    auto cellref = [&](auto& fld, int l, const P3& p) -> auto&
    {
        P3 q = T.glob(l, p);
#if DIM == 1
        return fld.array()(static_cast<std::size_t>(fld.mesh().get_index(l, q[0])));
#elif DIM == 2
        return fld.array()(static_cast<std::size_t>(fld.mesh().get_index(l, q[0], q[1])));
#else
        return fld.array()(static_cast<std::size_t>(fld.mesh().get_index(l, q[0], q[1], q[2])));
#endif
    };
    field_t* F[2] = {&f, &g};
    std::vector<std::pair<int, P3>> leaves;
    for (int l = 0; l <= MAXL; ++l) T.each(l, [&](const P3& p) { if (T.leaf(l, p)) leaves.push_back({l, p}); });
    std::map<std::pair<int, P3>, int> want;
    std::map<std::pair<int, P3>, double> val[2];
    int bg = KT >= 0 ? (int)vp_concretize(vp_int(0, 2, "bg")) : 0, pos[4] = {-1, -1, -1, -1}, own[4];
    for (int k = 0; k < KT; ++k)
    {
        pos[k] = (int)vp_concretize(vp_int(k ? pos[k - 1] : 0, (int)leaves.size() - 1, "pos"));
        own[k] = (int)vp_concretize(vp_int(0, 2, "tag"));
    }
    for (int i = 0; i < (int)leaves.size(); ++i)
    {
        auto [l, p] = leaves[i];
        int w = bg;
        if (KT < 0) w = (int)vp_concretize(vp_int(0, 2, "tag"));
        for (int k = 0; k < KT; ++k) if (pos[k] == i) w = own[k];
        want[leaves[i]] = w;
        cellref(tag, l, p) = flags[w];
        for (int t = 0; t < NF; ++t) cellref(*F[t], l, p) = val[t][leaves[i]] = vp_real(16, "v");
    }
    for (int t = 0; t < NF; ++t) make_bc<Dirichlet<1>>(*F[t]);
    vp_select(1);
    graduation(tag, stencil_graduation::call(Dim<dim>{}));
#ifdef MR
    NF == 1 ? update_ghost_mr(f) : update_ghost_mr(f, g);
#else
    NF == 1 ? update_ghost(f) : update_ghost(f, g);
#endif
    vp_select(0);
    // what the refinement of a leaf must give: the prediction from the (ghost-updated) values
    std::map<std::pair<int, P3>, double> pp[2][2];
    for (int t = 0; t < NF; ++t)
        for (auto& [l, p] : leaves)
        {
            if (l == MAXL) continue;
            for (int m = 0; m < (1 << DIM); ++m)
                for (int s = 0; s < 2; ++s)
                {
                    P3 q = p;
                    auto u = [&](int i, int j, int k) { return cellref(*F[t], l, P3{q[0] + i, q[1] + j, q[2] + k}); };
                    pp[t][s][{l + 1, P3{2 * p[0] + (m & 1), 2 * p[1] + (m >> 1 & 1), 2 * p[2] + (m >> 2)}}] = pred_child<DIM, 1>(u, m & 1 ? -1 : 1, m & 2 ? -1 : 1, m & 4 ? -1 : 1, s ? -1 : 1);
                }
        }
    vp_select(1);
#ifdef MRU
    bool same = NF == 1 ? update_field_mr(tag, f) : update_field_mr(tag, f, g);
#else
    bool same = NF == 1 ? update_field(tag, f) : update_field(tag, f, g);
#endif
    vp_select(0);
    std::vector<std::set<P3>> nw(MAXL + 1);
    for (std::size_t l = 0; l <= Config::max_refinement_level; ++l)
    {
        if ((int)l < MINL || (int)l > MAXL) { vp_assert(mesh[id_t_::cells][l].empty(), "graduation.levels"); continue; }
        nw[l] = T.stored((int)l, mesh[id_t_::cells][l]);
    }
    bool inside = true, part = true, graded = true;
    for (int l = MINL; l <= MAXL; ++l)
        for (auto& p : nw[l]) inside = inside && T.in_domain(l, p);
    vp_assert(inside, "graduation.inside-domain");
    auto lev = [&](P3 p)
    {
        int r = -1;
        for (int l = MAXL; l >= MINL; --l)
        {
            if (nw[l].count(p)) r = r == -1 ? l : -2;
            p = T.par(p);
        }
        return r;
    };
    T.each(MAXL, [&](const P3& p)
           {
               int r = lev(p);
               if (r < 0) { part = false; return; }
               Tree<DIM>::around(p, 1, [&](const P3& q, const P3&)
                                 {
                                     if (!T.in_domain(MAXL, q)) return;
                                     int s = lev(q);
                                     if (s >= 0 && (s - r > 1 || r - s > 1)) graded = false;
                                 });
           });
    vp_assert(part, "graduation.partition");
    vp_assert(graded, "graduation.graded");
    if (!inside || !part) return;
    bool changed = false, refined = true, kept = true;
    for (auto& lp : leaves)
    {
        auto [l, p] = lp;
        bool here = nw[l].count(p), coarser = l > 0 && nw[l - 1].count(T.par(p));
        changed = changed || !here;
        if (want[lp] == 2 && l < MAXL) refined = refined && !here && !coarser;
        if (want[lp] != 1) kept = kept && !coarser;
    }
    vp_assert(refined, "graduation.tagged-are-refined");
    vp_assert(kept, "graduation.kept-are-not-coarsened");
    vp_assert(same == !changed, "graduation.reports-change");
    bool plus = true, minus = true;
    for (int t = 0; t < NF; ++t)
        for (int l = MINL; l <= MAXL; ++l)
            for (auto& p : nw[l])
            {
                double v = cellref(*F[t], l, p);
                if (T.leaf(l, p)) vp_assert(v == val[t][{l, p}], "graduation.unchanged-value");
                else if (T.covered(l, p))
                {
                    double s = 0;
                    for (int m = 0; m < (1 << DIM); ++m) s += val[t][{l + 1, P3{2 * p[0] + (m & 1), 2 * p[1] + (m >> 1 & 1), 2 * p[2] + (m >> 2)}}];
                    vp_assert(v * (1 << DIM) == s, "graduation.coarsened-mean");
                    vp_cover("coarsened");
                }
                else
                {
                    plus  = AND(plus, v == pp[t][0][{l, p}]);
                    minus = AND(minus, v == pp[t][1][{l, p}]);
                    vp_cover("refined");
                }
                vp_observe_f(v);
            }
    vp_assert(OR(plus, minus), "graduation.refined-prediction");
}
