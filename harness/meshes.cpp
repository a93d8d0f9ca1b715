// C14/C15: sub-meshes of an MR, AMR or uniform mesh built from any graded leaf partition: the leaves as given, the ghosts
// that stencils, projection and prediction need, one numbering, the domain and the metadata; swap exchanges everything.
#include "freemesh.hpp"
#include "tree.hpp"
#include "pred_oracle.hpp"
#ifndef MESH
#define MESH 1 // 1 MR, 2 AMR, 3 uniform
#endif
#include <samurai/mr/mesh.hpp>
#include <samurai/amr/mesh.hpp>
#include <samurai/uniform_mesh.hpp>
#include <samurai/algorithm/update.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef NX
#define NX 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef NZ
#define NZ 1
#endif
#ifndef SW
#define SW 1
#endif
#ifndef PO
#define PO 1
#endif
constexpr std::size_t dim = DIM;
#if MESH == 1
using mesh_t = MRMesh<MRConfig<dim, SW, 1, PO>>;
#elif MESH == 2
using mesh_t = amr::Mesh<amr::Config<dim, SW, 1, default_config::max_level, PO>>;
#else
using mesh_t = UniformMesh<UniformConfig<dim, SW>>;
#endif
using id_t_ = typename mesh_t::mesh_id_t;

extern "C" void vp_main()
{
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MESH == 3 ? MINL : MAXL;
    T.n[0] = (int)vp_concretize(vp_int(1, NX, "n"));
    if (DIM > 1) T.n[1] = NY;
    if (DIM > 2) T.n[2] = NZ;
    T.per[0] = PERX; T.per[1] = PERY; T.per[2] = PERZ;
    const int BN = 1 << 16;
    for (int d = 0; d < DIM; ++d) T.o[d] = PERX || PERY || PERZ ? 0 : vp_int(-BN, BN, "o");
#ifdef BUDGET
    T.budget = BUDGET;
#endif
#ifdef HOLES
    T.choose_holes();
#endif
    T.choose();
    const int lmax = T.maxl;
    typename Box<double, dim>::point_t org;
    for (int d = 0; d < DIM; ++d) org[d] = 0.25 + d;
    const double scale = 2.5;
#if MESH == 3
    typename mesh_t::cl_type cl(MINL, org, scale);
    T.each(MINL, [&](const P3& p) { if (!T.leaf(MINL, p)) return; P3 g = T.glob(MINL, p); yz_t<dim> yz; for (int d = 1; d < DIM; ++d) yz[d - 1] = g[d]; cl[yz].add_interval({g[0], g[0] + 1}); });
#else
    typename mesh_t::cl_type cl(org, scale);
    T.fill(cl);
#endif
    vp_select(1);
#if MESH == 3
    mesh_t mesh(cl);
#elif PERX || PERY || PERZ
    typename Box<double, dim>::point_t a, b;
    std::array<bool, dim> per;
    for (int d = 0; d < DIM; ++d) { a[d] = org[d]; b[d] = org[d] + scale * T.n[d]; per[d] = T.per[d]; }
    mesh_t refm(Box<double, dim>(a, b), MINL, MAXL, per, 0., scale);
    mesh_t mesh(cl, refm);
#else
    mesh_t mesh(cl, MINL, MAXL);
#endif
    vp_select(0);
#if MESH == 3
    auto level_of = [&](id_t_ id, int) -> auto& { return mesh[id]; };
#else
    auto level_of = [&](id_t_ id, int l) -> auto& { return mesh[id][l]; };
#endif
    auto sub = [&](id_t_ id, int l) { return T.stored(l, level_of(id, l)); };
    // leaves
    std::size_t total = 0;
    for (int l = MESH == 3 ? MINL : 0; l <= lmax; ++l)
    {
        std::set<P3> want;
        T.each(l, [&](const P3& p) { if (T.leaf(l, p)) want.insert(p); });
        vp_assert(sub(id_t_::cells, l) == want, "meshes.cells");
        total += want.size();
#if MESH != 3
        vp_assert(mesh.nb_cells(l, id_t_::cells) == want.size(), "meshes.nb-cells");
        vp_assert(mesh.nb_cells(l) == mesh[id_t_::reference][l].nb_cells(), "meshes.nb-cells-reference");
#endif
    }
    vp_assert(mesh.nb_cells(id_t_::cells) == total, "meshes.nb-cells");
    // metadata, passed on to every sub mesh
    for (int id = 0; id < (int)id_t_::count; ++id)
        for (int l = MESH == 3 ? MINL : 0; l <= lmax; ++l)
        {
            auto& s = level_of((id_t_)id, l);
            bool ok = s.scaling_factor() == scale;
            for (int d = 0; d < DIM; ++d) ok = AND(ok, s.origin_point()[d] == org[d]);
            vp_assert(ok, "meshes.geometry");
        }
    vp_assert(mesh.cell_length(MINL) * (1 << MINL) == scale, "meshes.cell-length");
    // one numbering: a bijection of the reference cells on 0..n-1, shared by every sub mesh
    std::map<std::array<int, 4>, int64_t> num;
    std::set<int64_t> used;
    for (int l = MESH == 3 ? MINL : 0; l <= lmax; ++l)
        for_each_interval(level_of(id_t_::reference, l),
                          [&](auto, const auto& i, const auto& yz)
                          {
                              int x0 = (int)vp_concretize(i.start - (T.o[0] << l)), x1 = (int)vp_concretize(i.end - (T.o[0] << l));
                              int64_t n0 = vp_concretize((int64_t)i.index + i.start);
                              std::array<int, 4> k{l, 0, 0, 0};
                              for (int d = 1; d < DIM; ++d) k[d + 1] = (int)vp_concretize(yz[d - 1] - (T.o[d] << l));
                              for (int x = x0; x < x1; ++x) { k[1] = x; num[k] = n0 + x - x0; used.insert(n0 + x - x0); }
                          });
    bool bij = num.size() == used.size() && mesh.nb_cells() == num.size() && (used.empty() || (*used.begin() == 0 && *used.rbegin() == (int64_t)num.size() - 1));
    vp_assert(bij, "meshes.numbering-bijection");
    for (int id = 0; id < (int)id_t_::count; ++id)
        for (int l = MESH == 3 ? MINL : 0; l <= lmax; ++l)
        {
            bool same = true;
            for_each_interval(level_of((id_t_)id, l),
                              [&](auto, const auto& i, const auto& yz)
                              {
                                  int x0 = (int)vp_concretize(i.start - (T.o[0] << l)), x1 = (int)vp_concretize(i.end - (T.o[0] << l));
                                  int64_t n0 = vp_concretize((int64_t)i.index + i.start);
                                  std::array<int, 4> k{l, 0, 0, 0};
                                  for (int d = 1; d < DIM; ++d) k[d + 1] = (int)vp_concretize(yz[d - 1] - (T.o[d] << l));
                                  for (int x = x0; x < x1; ++x)
                                  {
                                      k[1] = x;
                                      auto it = num.find(k);
#if MESH == 2
                                      if (it == num.end() && (id_t_)id == id_t_::pred_cells) continue;
#endif
                                      same = same && it != num.end() && it->second == n0 + x - x0;
                                  }
                              });
            vp_assert(same, "meshes.shared-numbering");
        }
    auto stored = [&](int l, const P3& p) { return num.count({l, p[0], p[1], p[2]}) > 0; };
    // ghosts around the leaves
    const int GWID = MESH == 2 ? (SW > PO ? SW : PO) : SW;
    for (int l = MESH == 3 ? MINL : 0; l <= lmax; ++l)
    {
        auto cg = sub(id_t_::cells_and_ghosts, l);
        std::set<P3> want;
        T.each(l, [&](const P3& p) { if (T.leaf(l, p)) T.around(p, GWID, [&](const P3& q, const P3&) { want.insert(q); }); });
        bool in = true;
        for (auto& q : want) in = in && cg.count(q);
        vp_assert(in, "meshes.stencil-ghosts");
        for (auto& q : want) in = in && stored(l, q);
        vp_assert(in, "meshes.stencil-ghosts-numbered");
#if MESH != 2
        vp_assert(cg == want, "meshes.no-other-ghosts");
#endif
    }
#if MESH != 3
    // domain and union
    {
        std::set<P3> dom, got = T.stored((int)mesh.domain().level(), mesh.domain()), gs = T.stored((int)mesh.subdomain().level(), mesh.subdomain());
        T.each((int)mesh.domain().level(), [&](const P3& p) { if (T.in_domain((int)mesh.domain().level(), p)) dom.insert(p); });
        vp_assert(got == dom, "meshes.domain");
        dom.clear();
        T.each((int)mesh.subdomain().level(), [&](const P3& p) { if (T.in_domain((int)mesh.subdomain().level(), p)) dom.insert(p); });
        vp_assert(gs == dom, "meshes.subdomain");
    }
    for (int l = MINL > 0 ? MINL - 1 : 0; l <= lmax; ++l)
    {
        std::set<P3> un;
        T.each(l, [&](const P3& p) { if (T.covered(l, p) && !T.leaf(l, p)) un.insert(p); });
        vp_assert(T.stored(l, mesh.get_union()[l]) == un, "meshes.union");
    }
    vp_assert(mesh.min_level() == MINL && mesh.max_level() == MAXL, "meshes.levels");
    // what projection and prediction need
    for (int l = 0; l <= lmax; ++l)
    {
        bool kids = true, stencil = true, parent = true, detail = true;
        std::set<P3> cg = sub(id_t_::cells_and_ghosts, l);
        for (auto& kv : num)
        {
            if (kv.first[0] != l) continue;
            P3 p{kv.first[1], kv.first[2], kv.first[3]};
            bool sd = T.in_domain(l, p) && T.covered(l, p) && !T.leaf(l, p);
            bool near = false; // within the stencil of a leaf
            T.around(p, GWID, [&](const P3& q, const P3&) { near = near || T.leaf(l, q); });
            if (sd && (MESH == 1 || near))
                for (int m = 0; m < (1 << DIM); ++m) kids = kids && stored(l + 1, P3{2 * p[0] + (m & 1), 2 * p[1] + (m >> 1 & 1), 2 * p[2] + (m >> 2)});
            if (near && T.in_domain(l, p) && !T.covered(l, p)) // predicted
                T.around(T.par(p), PO, [&](const P3& q, const P3&) { stencil = stencil && stored(l - 1, q); });
#if MESH == 1 && MINL != MAXL
            if (T.leaf(l, p) && l > 0) parent = parent && stored(l - 1, T.par(p));
            if (T.leaf(l, p) && l > 1) T.around(T.par(T.par(p)), PO, [&](const P3& q, const P3&) { detail = detail && stored(l - 2, q); });
#endif
        }
        vp_assert(kids, "meshes.children-stored");
        vp_assert(stencil, "meshes.prediction-stencil-stored");
        vp_assert(parent, "meshes.parent-stored");
        vp_assert(detail, "meshes.detail-stencil-stored");
#if MESH == 1 && MINL != MAXL
        std::set<P3> pj;
        for (auto& kv : num) if (kv.first[0] == l) { P3 p{kv.first[1], kv.first[2], kv.first[3]}; if (T.in_domain(l, p) && T.covered(l, p) && !T.leaf(l, p)) pj.insert(p); }
        if (l >= MINL - 1) vp_assert(sub(id_t_::proj_cells, l) == pj, "meshes.proj-cells");
#endif
    }
    // swap
    {
        typename mesh_t::cl_type one(org, 2 * scale);
        yz_t<dim> z;
        z.fill(0);
        one[MINL][z].add_interval({0, 1});
        vp_select(1);
        mesh_t other(one, MINL, MINL);
        mesh_t copy(mesh);
        vp_assert(copy == mesh, "meshes.copy");
        vp_assert(!(copy == other), "meshes.not-equal");
        copy.swap(other);
        vp_select(0);
        bool ok = other == mesh && other.max_level() == MAXL && copy.max_level() == MINL && other.nb_cells() == mesh.nb_cells() && copy.nb_cells(id_t_::cells) == 1
               && other.scaling_factor() == scale && copy.scaling_factor() == 2 * scale && other.domain() == mesh.domain() && other.get_union()[MINL] == mesh.get_union()[MINL];
        for (int d = 0; d < DIM; ++d) ok = ok && other.is_periodic(d) == mesh.is_periodic(d) && !copy.is_periodic(d);
        vp_assert(ok, "meshes.swap");
    }
#if MESH == 2
    // ghost update of a field on the AMR mesh
    Field<mesh_t, double, 1, false> f("f", mesh);
    auto at = [&](int l, const P3& p) -> double& { return f.array().data()[num[{l, p[0], p[1], p[2]}]]; };
    std::vector<double> init;
    for (std::size_t q = 0; q < mesh.nb_cells(); ++q) { double v = vp_real(20, "v"); f.array().data()[q] = v; init.push_back(v); }
    double bv = vp_real(20, "bc");
    make_bc<Dirichlet<1>>(f, bv);
    vp_select(1);
    update_ghost(f);
    vp_select(0);
    bool plus = true, minus = true;
    for (int l = MINL; l <= MAXL; ++l)
        for (auto& p : sub(id_t_::cells_and_ghosts, l))
        {
            bool near = false;
            T.around(p, 1, [&](const P3& q, const P3&) { near = near || T.leaf(l, q); });
            if (!near) continue;
            double v = at(l, p);
            if (T.leaf(l, p)) vp_assert(v == init[&at(l, p) - f.array().data()], "amr.leaf-unchanged");
            else if (T.in_domain(l, p) && T.covered(l, p))
            {
                double s = 0;
                for (int m = 0; m < (1 << DIM); ++m) s += at(l + 1, P3{2 * p[0] + (m & 1), 2 * p[1] + (m >> 1 & 1), 2 * p[2] + (m >> 2)});
                vp_assert(s == (1 << DIM) * v, "amr.mean-of-children");
                vp_cover("projected");
            }
            else if (T.in_domain(l, p))
            {
                P3 q = T.par(p);
                auto u = [&](int i, int j, int k) { return at(l - 1, P3{q[0] + i, q[1] + j, q[2] + k}); };
                int si = p[0] & 1 ? -1 : 1, sj = p[1] & 1 ? -1 : 1, sk = p[2] & 1 ? -1 : 1;
                plus  = AND(plus, v == pred_child<DIM, PO>(u, si, sj, sk, 1));
                minus = AND(minus, v == pred_child<DIM, PO>(u, si, sj, sk, -1));
                vp_cover("predicted");
            }
            else
            {
                int out = 0;
                P3 in = p;
                for (int d = 0; d < DIM; ++d)
                {
                    if (p[d] < 0) { in[d]++; out++; }
                    if (p[d] >= T.n[d] << l) { in[d]--; out++; }
                }
                if (out == 1 && T.in_domain(l, in)) vp_assert(v == 2 * bv - at(l, in), "amr.dirichlet");
            }
        }
    vp_assert(OR(plus, minus), "amr.prediction");
#endif
#endif
    vp_observe_i((int64_t)mesh.nb_cells());
}
