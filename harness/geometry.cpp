// C07: physical geometry: the domain built from a box, and the position of cells in space.
#include "freemesh.hpp"
#include "tree.hpp"
#include <samurai/amr/mesh.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/uniform_mesh.hpp>
#include <samurai/field.hpp>
#include <samurai/box.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MODE
#define MODE 1 // 1 box to domain, 2 cell, 3 mesh from box
#endif
#ifndef SHORT
#define SHORT 0 // the direction of the shortest length
#endif
#ifndef RATIO
#define RATIO 3
#endif
#ifndef NLEN
#define NLEN 3
#endif
#ifndef TOLS
#define TOLS 1
#endif
#ifndef LMAX
#define LMAX 2
#endif
constexpr std::size_t dim = DIM;
using box_t = Box<double, dim>;

extern "C" void vp_main()
{
#if MODE == 2
    static const double scales[] = {1., 0.5, 2.5, 0.375, 8.};
    double s = scales[vp_concretize(vp_int(0, 4, "s"))];
    int l = (int)vp_concretize(vp_int(0, 20, "l"));
    using cell_t = Cell<dim, interval_t>;
    typename cell_t::coords_t org;
    typename cell_t::indices_t ind;
    for (int d = 0; d < DIM; ++d) { org[d] = vp_real(12, "org") / 16; ind[d] = vp_int(-(1 << 16), 1 << 16, "i"); }
    auto idx = vp_long(0, 1ll << 40, "index");
    yz_t<dim> rest;
    for (int d = 1; d < DIM; ++d) rest[d - 1] = ind[d];
    vp_select(1);
    cell_t a(org, s, (std::size_t)l, ind, idx), b(org, s, (std::size_t)l, ind[0], rest, idx);
    vp_select(0);
    double h = s;
    for (int q = 0; q < l; ++q) h /= 2;
    for (auto* c : {&a, &b})
    {
        bool geo = AND(c->length == h, AND(c->level == (std::size_t)l, c->index == idx));
        auto co = c->corner();
        auto ce = c->center();
        for (int d = 0; d < DIM; ++d)
        {
            double x = org[d] + h * ind[d];
            geo = AND(geo, AND(c->indices[d] == ind[d], AND(co[d] == x, c->corner((std::size_t)d) == x)));
            geo = AND(geo, AND(ce[d] == x + h / 2, c->center((std::size_t)d) == x + h / 2));
            for (int e = 0; e < DIM; ++e)
                for (int sg = -1; sg <= 1; sg += 2)
                {
                    xt::xtensor_fixed<int, xt::xshape<dim>> dir;
                    dir.fill(0);
                    dir[e] = sg;
                    auto f = c->face_center(dir);
                    geo = AND(geo, f[d] == x + h / 2 + (e == d ? sg * h / 2 : 0.));
                }
        }
        vp_assert(geo, "cell.geometry");
    }
    // neighbours and children tile space: the corner of the next cell, of the children
    cell_t other = a;
    int which = (int)vp_concretize(vp_int(0, DIM + 2, "which"));
    if (which < DIM) other.indices[which] = vp_int(-(1 << 16), 1 << 16, "j");
    else if (which == DIM) { other.level = (std::size_t)l + 1; other.length = h / 2; }
    else if (which == DIM + 1) other.index = vp_long(0, 1ll << 40, "index2");
    bool same = AND(other.level == a.level, other.index == a.index);
    for (int d = 0; d < DIM; ++d) same = AND(same, other.indices[d] == a.indices[d]);
    vp_select(1);
    bool eq = a == other, ne = a != other;
    vp_select(0);
    vp_assert(AND(eq == same, ne == !same), "cell.equality");
#else
    // a box anywhere: the shortest length is one of a few values, the others are arbitrary
    static const double lens[] = {1., 2.5, 0.5, 3.};
    static const double tols[] = {0.0625, 0.25, 0.03125};
    double len[3] = {0, 0, 0};
    len[SHORT] = lens[vp_concretize(vp_int(0, NLEN - 1, "len"))];
    typename box_t::point_t a, b;
    for (int d = 0; d < DIM; ++d)
    {
        a[d] = vp_real(12, "a") / 16;
        if (d != SHORT)
        {
            len[d] = vp_real(12, "len") / 64;
            vp_assume(AND(len[d] >= len[SHORT], len[d] <= RATIO * len[SHORT]));
        }
        b[d] = a[d] + len[d];
    }
    box_t box(a, b);
    vp_assert(box.is_valid(), "box.valid");
    bool bx = box.min_length() == len[SHORT];
    for (int d = 0; d < DIM; ++d) bx = AND(bx, box.length()[d] == len[d]);
    box_t bb = box * 2.;
    for (int d = 0; d < DIM; ++d) bx = AND(bx, AND(bb.min_corner()[d] == 2 * a[d], bb.max_corner()[d] == 2 * b[d]));
    vp_assert(bx, "box.accessors");
#ifdef SCALE
    static const double scales[] = {0.5, 1.25, 2.};
    const double unit = scales[vp_concretize(vp_int(0, 2, "unit"))], tol = 0.;
    double given = unit;
#else
    const double tol = tols[vp_concretize(vp_int(0, TOLS - 1, "tol"))];
    double given = 0;
#endif
    int l = (int)vp_concretize(vp_int(0, LMAX, "l"));
#if MODE == 3
    const int lo = l > 0 ? l - 1 : 0;
    vp_select(1);
#if MESH == 1
    using mesh_t = MRMesh<MRConfig<dim>>;
#ifdef PERIODIC
    std::array<bool, dim> per;
    for (int d = 0; d < DIM; ++d) per[d] = vp_concretize(vp_bool("per"));
    mesh_t mesh(box, lo, l, per, tol, given);
    for (int d = 0; d < DIM; ++d) vp_assert(mesh.is_periodic(d) == per[d], "mesh.periodic");
#else
    mesh_t mesh(box, lo, l, tol, given);
    for (int d = 0; d < DIM; ++d) vp_assert(!mesh.is_periodic(d), "mesh.periodic");
#endif
#elif MESH == 2
    using mesh_t = amr::Mesh<amr::Config<dim>>;
    mesh_t mesh(box, l, lo, l); // (default tolerance 0.05)
    (void)given;
#else
    using mesh_t = UniformMesh<UniformConfig<dim>>;
    mesh_t mesh(box, l, tol, given);
#endif
    vp_select(0);
    using id_t_ = typename mesh_t::mesh_id_t;
#if MESH == 3
    auto& lca = mesh[id_t_::cells];
    auto level_of = [&](id_t_ id, int) -> auto& { return mesh[id]; };
#else
    auto& lca = mesh[id_t_::cells][l];
    auto level_of = [&](id_t_ id, int q) -> auto& { return mesh[id][q]; };
    vp_assert(AND(mesh.min_level() == (std::size_t)lo, mesh.max_level() == (std::size_t)l), "mesh.levels");
    for (int q = 0; q < l; ++q) vp_assert(mesh[id_t_::cells][q].empty(), "mesh.one-level");
    // the domain is the same set of cells
    vp_assert(AND(mesh.domain().level() == (std::size_t)l, mesh.domain().nb_cells() == lca.nb_cells()), "mesh.domain");
    for (int d = 0; d < DIM; ++d) vp_assert(AND(mesh.domain().min_indices()[d] == lca.min_indices()[d], mesh.domain().max_indices()[d] == lca.max_indices()[d]), "mesh.domain");
#endif
    for (int id = 0; id < (int)id_t_::count; ++id)
        for (int q = MESH == 3 ? l : 0; q <= l; ++q)
        {
            auto& sub = level_of((id_t_)id, q);
            bool ok = sub.scaling_factor() == lca.scaling_factor();
            for (int d = 0; d < DIM; ++d) ok = AND(ok, sub.origin_point()[d] == a[d]);
            vp_assert(ok, "mesh.geometry");
        }
#else
    vp_select(1);
    Lca<dim> lca((std::size_t)l, box, tol, given);
    vp_select(0);
#endif
    vp_assert(lca.level() == (std::size_t)l, "domain.level");
    auto mn = lca.min_indices(), mx = lca.max_indices();
    const double s = lca.scaling_factor();
    double h = s;
    for (int q = 0; q < l; ++q) h /= 2;
    vp_assert(lca.cell_length() == h, "domain.cell-length");
    bool org = true, start = true, cover = true, close = true, unitm = true;
    for (int d = 0; d < DIM; ++d)
    {
        org   = AND(org, lca.origin_point()[d] == a[d]);
        start = AND(start, mn[d] == 0);
        double L = h * mx[d];
        cover = AND(cover, L >= len[d]);
        unitm = AND(unitm, (mx[d] & ((1 << l) - 1)) == 0);
#ifdef SCALE
        close = AND(close, L - len[d] < unit);
#else
        close = AND(close, L - len[d] <= tol * len[d]);
#endif
    }
    vp_assert(org, "domain.origin");
    vp_assert(start, "domain.start");
    vp_assert(cover, "domain.covers-box");
    vp_assert(close, "domain.tolerance");
    vp_assert(unitm, "domain.whole-units");
#ifdef SCALE
    vp_assert(s == unit, "domain.scaling-kept");
#endif
    // exactly the cells of the box of indices
    Counter<dim> cnt;
    cnt.p = sym_point<dim>(-1000, 1000);
    bool in = true;
    for (int d = 0; d < DIM; ++d) in = AND(in, AND(cnt.p[d] >= 0, cnt.p[d] < mx[d]));
    for_each_interval(lca, [&](auto, const auto& i, const auto& yz) { cnt(i, yz); });
    vp_assert(cnt.n == (in ? 1 : 0), "domain.cells");
#endif
}
