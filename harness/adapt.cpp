// C20: multiresolution adaptation of any leaf partition with any field values: the new leaves partition the same domain,
// stay graded and within the level bounds, and every region kept by both meshes keeps its mean; unremarkable cells are
// coarsened, significant ones kept or refined.
#include "freemesh.hpp"
#include "tree.hpp"
#include "pred_oracle.hpp"
#include <samurai/mr/adapt.hpp>
#include <samurai/mr/mesh.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef NX
#define NX 2
#endif
#ifndef NY
#define NY 1
#endif
#ifndef NZ
#define NZ 1
#endif
#ifndef NC
#define NC 1
#endif
#ifndef SOAL
#define SOAL false
#endif
#ifndef REG
#define REG 0
#endif
#ifndef NF
#define NF 1 // 2: a second field is carried along; 3: two fields adapted together
#endif
constexpr std::size_t dim = DIM;
using Config  = MRConfig<dim, 1, 1, 1>;
using mesh_t  = MRMesh<Config>;
using id_t_   = typename mesh_t::mesh_id_t;
using field_t = Field<mesh_t, double, NC, SOAL>;

extern "C" void vp_main()
{
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MAXL;
    T.n[0] = NX;
    if (DIM > 1) T.n[1] = NY;
    if (DIM > 2) T.n[2] = NZ;
    T.per[0] = PERX; T.per[1] = PERY; T.per[2] = PERZ;
    const bool periodic = PERX || PERY || PERZ;
    const int BN = 1 << 16;
    for (int d = 0; d < DIM; ++d) T.o[d] = periodic ? 0 : vp_int(-BN, BN, "o");
#ifdef BUDGET
    T.budget = BUDGET;
#endif
    T.choose();
    typename mesh_t::cl_type cl;
    T.fill(cl);
    vp_select(1);
#if PERX || PERY || PERZ
    typename Box<double, dim>::point_t a, b;
    std::array<bool, dim> per;
    for (int d = 0; d < DIM; ++d) { a[d] = T.o[d]; b[d] = T.o[d] + T.n[d]; per[d] = T.per[d]; }
    mesh_t ref(Box<double, dim>(a, b), MINL, MAXL, per, 0., 1.);
    mesh_t mesh(cl, ref);
#else
    mesh_t mesh(cl, MINL, MAXL);
#endif
    field_t f("f", mesh), g("g", mesh);
    vp_select(0);
    field_t* F[2] = {&f, &g};
    const int nf = NF == 1 ? 1 : 2;
    auto at = [&](field_t& fld, int c, int l, const P3& p) -> double&
    {
        P3 q = T.glob(l, p);
#if DIM == 1
        return fval(fld, c, l, q[0]);
#elif DIM == 2
        return fval(fld, c, l, q[0], q[1]);
#else
        return fval(fld, c, l, q[0], q[1], q[2]);
#endif
    };
    // integral over each cell covered before, in units of the finest cell volume
    auto leaves_of = [&](int l, const P3& p, auto&& self, auto&& f2) -> void
    {
        if (T.leaf(l, p)) { f2(l, p); return; }
        for (int m = 0; m < (1 << DIM); ++m) self(l + 1, P3{2 * p[0] + (m & 1), 2 * p[1] + (m >> 1 & 1), 2 * p[2] + (m >> 2)}, self, f2);
    };
    std::vector<std::map<P3, double>> mean[2][NC];
    std::vector<std::set<P3>> old(MAXL + 1); // covered cells before
#ifdef CONSTANT
    double cst[2][NC];
#endif
    for (int t = 0; t < nf; ++t)
        for (int c = 0; c < NC; ++c)
        {
            mean[t][c].resize(MAXL + 1);
#ifdef CONSTANT
            cst[t][c] = vp_real(16, "v");
#endif
            for (int l = 0; l <= MAXL; ++l)
                T.each(l, [&](const P3& p)
                       {
#ifdef CONSTANT
                           if (T.leaf(l, p)) at(*F[t], c, l, p) = cst[t][c];
#else
                           if (T.leaf(l, p)) at(*F[t], c, l, p) = vp_real(16, "v");
#endif
                       });
            for (int l = MAXL; l >= 0; --l)
                T.each(l, [&](const P3& p)
                       {
                           if (!T.covered(l, p)) return;
                           old[l].insert(p);
                           double s = 0;
                           if (T.leaf(l, p)) s = at(*F[t], c, l, p);
                           else
                           {
                               for (int m = 0; m < (1 << DIM); ++m) s += mean[t][c][l + 1][P3{2 * p[0] + (m & 1), 2 * p[1] + (m >> 1 & 1), 2 * p[2] + (m >> 2)}];
                               s /= (1 << DIM);
                           }
                           mean[t][c][l][p] = s;
                       });
            make_bc<Dirichlet<1>>(*F[t]);
        }
    double eps = vp_int(0, 1 << 10, "eps");
#ifdef CONSTANT
    vp_assume(eps > 0);
    // homogeneous Neumann so that the constant is a fixed point of the ghost update
    f.get_bc().clear();
    g.get_bc().clear();
    make_bc<Neumann<1>>(f, 0.);
    make_bc<Neumann<1>>(g, 0.);
#endif
#ifdef DETAILS
    // the details, computed by the library's own ghost update (decided by C18)
    std::vector<std::map<P3, std::vector<double>>> det(MAXL + 1);
    for (int t = 0; t < (NF == 3 ? 2 : 1); ++t)
    {
        field_t h = *F[t];
        vp_select(1);
        update_ghost_mr(h);
        vp_select(0);
        for (int c = 0; c < NC; ++c)
            for (int l = MINL > 0 ? MINL : 1; l <= MAXL; ++l)
                T.each(l, [&](const P3& p)
                       {
                           if (!T.leaf(l, p)) return;
                           P3 q = T.par(p);
                           auto u = [&](int i, int j, int k) { return at(h, c, l - 1, P3{q[0] + i, q[1] + j, q[2] + k}); };
                           int si = p[0] & 1 ? -1 : 1, sj = p[1] & 1 ? -1 : 1, sk = p[2] & 1 ? -1 : 1;
                           det[l][p].push_back(at(h, c, l, p) - pred_child<DIM, 1>(u, si, sj, sk, -1));
                       });
    }
#endif
    vp_select(1);
#if NF == 1
    auto adapt = make_MRAdapt(f);
    adapt(eps, REG);
#elif NF == 2
    auto adapt = make_MRAdapt(f);
    adapt(eps, REG, g);
#else
    auto adapt = make_MRAdapt(f, g);
    adapt(eps, REG);
#endif
    vp_select(0);
    // new leaves
    std::vector<std::set<P3>> nw(MAXL + 1), cov(MAXL + 1);
    for (std::size_t l = 0; l <= Config::max_refinement_level; ++l)
    {
        if ((int)l < MINL || (int)l > MAXL) { vp_assert(mesh[id_t_::cells][l].empty(), "adapt.levels"); continue; }
        nw[l] = T.stored((int)l, mesh[id_t_::cells][l]);
    }
    bool inside = true, part = true, graded = true;
    for (int l = MINL; l <= MAXL; ++l)
        for (auto& p : nw[l]) inside = inside && T.in_domain(l, p);
    vp_assert(inside, "adapt.inside-domain");
    auto lev = [&](P3 p) // level of the leaf over a finest cell; -1: none or several
    {
        int r = -1;
        for (int l = MAXL; l >= MINL; --l)
        {
            if (nw[l].count(p)) r = r == -1 ? l : -2;
            p = T.par(p);
        }
        return r;
    };
    T.each(MAXL, [&](const P3& p)
           {
               int r = lev(p);
               if (r < 0) { part = false; return; }
               Tree<DIM>::around(p, 1, [&](const P3& q0, const P3&)
                                 {
                                     P3 q = T.wrap(MAXL, q0);
                                     if (!T.in_domain(MAXL, q)) return;
                                     int s = lev(q);
                                     if (s >= 0 && (s - r > 1 || r - s > 1)) graded = false;
                                 });
           });
    vp_assert(part, "adapt.partition");
    vp_assert(graded, "adapt.graded");
    if (!inside || !part) return;
    // covered cells after
    for (int l = MAXL; l >= 0; --l)
    {
        for (auto& p : nw[l]) cov[l].insert(p);
        if (l < MAXL) for (auto& p : cov[l + 1]) cov[l].insert(T.par(p));
    }
    for (int t = 0; t < nf; ++t)
        for (int c = 0; c < NC; ++c)
        {
            std::vector<std::map<P3, double>> m2(MAXL + 1);
            for (int l = MAXL; l >= 0; --l)
                for (auto& p : cov[l])
                {
                    double s = 0;
                    if (nw[l].count(p)) s = at(*F[t], c, l, p);
                    else
                    {
                        for (int m = 0; m < (1 << DIM); ++m) s += m2[l + 1][P3{2 * p[0] + (m & 1), 2 * p[1] + (m >> 1 & 1), 2 * p[2] + (m >> 2)}];
                        s /= (1 << DIM);
                    }
                    m2[l][p] = s;
                    if (old[l].count(p)) vp_assert(s == mean[t][c][l][p], "adapt.mean-conserved");
                }
            vp_observe_f(m2[0].begin()->second);
        }
    int nref = 0, ncoa = 0;
    for (int l = MINL; l <= MAXL; ++l)
        for (auto& p : nw[l])
        {
            if (!old[l].count(p)) { nref++; }
            else if (T.is_ref(l, p)) { ncoa++; }
        }
    if (nref) vp_cover("refined");
    if (ncoa) vp_cover("coarsened");
    vp_observe_i(nref);
    vp_observe_i(ncoa);
#ifdef CONSTANT
    // nothing to represent: all leaves merge into the coarsest level
    bool coarse = true;
    for (int l = MINL + 1; l <= MAXL; ++l) coarse = coarse && nw[l].empty();
    vp_assert(coarse, "adapt.constant-is-coarsened");
#endif
#ifdef DETAILS
    const double K = (double)(1 << (REG + DIM));
    for (int l = MINL; l <= MAXL; ++l)
        for (auto& [p, ds] : det[l])
            for (double d : ds) // of every component of every adapted field
            {
                double e = eps / (1 << (DIM * (MAXL - l)));
                // a leaf with a significant detail is never merged away; one with a large detail is refined
                if (!cov[l].count(p)) vp_assert(d < e && -d < e, "adapt.significant-kept");
                if (l < MAXL && nw[l].count(p)) vp_assert(d <= K * e && -d <= K * e, "adapt.large-refined");
            }
#endif
}
