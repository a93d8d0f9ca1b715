// C14: sub-meshes of a multiresolution mesh. For every partition of a domain into leaves, the mesh stores exactly these
// leaves, the ghosts every stencil / projection / prediction needs, and one numbering shared by all the sub-meshes.
#include "hcommon.hpp"
#include <samurai/mr/mesh.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef DEPTH
#define DEPTH 2 // number of refinement levels above MINL
#endif
#ifndef SW
#define SW 1
#endif
#ifndef PO
#define PO 1
#endif
#ifndef GW
#define GW 1
#endif
#ifndef ROWS
#define ROWS 2
#endif
#ifndef BND
#define BND (1 << 16)
#endif
#ifndef SLACK
#define SLACK 0 // declared min/max levels may be wider than the levels in use
#endif
constexpr std::size_t dim = DIM;
using Config = MRConfig<dim, SW, GW, PO>;
using mesh_t = MRMesh<Config>;
using id_t_  = typename mesh_t::mesh_id_t;
using cl_t   = typename mesh_t::cl_type;

// refined region of each level: rows (per yz position) with one segment [a,b)
struct Region
{
    SymSet<dim> s;
};

template <class L>
static int count(const L& lca, const pt_t<dim>& p)
{
    Counter<dim> c;
    c.p = p;
    for_each_interval(lca, [&](auto, const auto& i, const auto& yz) { c(i, yz); });
    return c.n;
}

extern "C" void vp_main()
{
    // covered[l]: region covered by leaves of level >= l  (covered[MINL] is the domain)
    std::array<SymSet<dim>, DEPTH + 2> cov;
    std::array<int, dim> n, o;
    n.fill(DIM == 1 ? 1 : ROWS);
    o.fill(0);
#ifdef ORIGIN
    for (std::size_t d = 1; d < dim; ++d) o[d] = ORIGIN;
#endif
    cov[0] = sym_rows<dim>(MINL, 1, -BND, BND, n, o, true);
    for (std::size_t t = 1; t < cov[0].s.size(); ++t) // a box domain
    {
#ifndef GENERAL_DOMAIN
        vp_assume(AND(cov[0].s[t].a == cov[0].s[0].a, cov[0].s[t].b == cov[0].s[0].b));
        cov[0].s[t].a = cov[0].s[0].a;
        cov[0].s[t].b = cov[0].s[0].b;
#endif
    }
#ifdef LEN
    vp_assume(cov[0].s[0].b - cov[0].s[0].a <= LEN);
#endif
#ifdef LEN // bounded sizes: domain of length 1..LEN at a symbolic place
    for (auto& seg : cov[0].s) seg.b = seg.a + (int)vp_concretize(seg.b - seg.a);
#endif
    cl_t cl;
    int top = 0;
    for (int l = 0; l <= DEPTH; ++l)
    {
        cov[l + 1].level = MINL + l + 1;
        for (auto& seg : cov[l].s)
        {
            int a = seg.b, b = seg.b; // refined part of this row: [a,b)
            if (l < DEPTH)
            {
                a = vp_int(-(BND << l), BND << l, "ra");
                b = vp_int(-(BND << l), BND << l, "rb");
                vp_assume(AND(AND(seg.a <= a, a <= b), b <= seg.b));
#ifdef LEN
                a = seg.a + (int)vp_concretize(a - seg.a);
                b = a + (int)vp_concretize(b - a);
#endif
            }
            bool ref = a < b;
            yz_t<dim> yz;
            for (std::size_t d = 1; d < dim; ++d) yz[d - 1] = seg.yz[d];
            auto add = [&](int x, int y) { if (x < y) { cl[MINL + l][yz].add_interval({x, y}); top = l; } };
            if (ref)
            {
                add(seg.a, a);
                add(b, seg.b);
                for (int c = 0; c < (1 << (dim - 1)); ++c)
                {
                    Seg<dim> f;
                    f.a = 2 * a;
                    f.b = 2 * b;
                    for (std::size_t d = 1; d < dim; ++d) f.yz[d] = 2 * seg.yz[d] + ((c >> (d - 1)) & 1);
                    cov[l + 1].s.push_back(f);
                }
            }
            else
            {
                add(seg.a, seg.b);
            }
        }
    }
    const std::size_t mn = MINL - (SLACK ? 1 : 0), mx = MINL + DEPTH + (SLACK ? 1 : 0);
#ifdef SEL
    vp_select(SEL);
#endif
    mesh_t mesh(cl, mn, mx);
    vp_select(0);

    int l  = (int)vp_concretize(vp_int(0, DEPTH, "lev"));
    auto p = sym_point<dim>(-(BND << (DEPTH + 2)), BND << (DEPTH + 2));
    auto par = [&](pt_t<dim> q, int k) { for (auto& x : q) x >>= k; return q; };
    bool covered = cov[l].in(p);                                        // inside the region of leaves of level >= l
    bool finer   = cov[l + 1].in_on(p, MINL + l);                       // subdivided
    bool leaf    = AND(covered, !finer);
    const std::size_t L = MINL + l;

    vp_assert(count(mesh[id_t_::cells][L], p) == (leaf ? 1 : 0), "mesh.cells");
    vp_assert(count(mesh.get_union()[L], p) == (finer ? 1 : 0), "mesh.union");
    // domain: the union of the leaves projected on the domain level
    {
        auto q  = sym_point<dim>(-(BND << (DEPTH + 3)), BND << (DEPTH + 3));
        int dl  = (int)mesh.domain().level() - MINL;
        bool in = dl >= 0 ? cov[0].in(par(q, dl)) : cov[0].in_on(q, (int)mesh.domain().level());
        vp_assert(count(mesh.domain(), q) == (in ? 1 : 0), "mesh.domain");
        vp_assert(count(mesh.subdomain(), q) == (in ? 1 : 0), "mesh.subdomain");
    }
    int nref = count(mesh[id_t_::reference][L], p);
    vp_assert(nref <= 1, "mesh.reference-unique");
    bool ref = nref == 1;
    int ncg  = count(mesh[id_t_::cells_and_ghosts][L], p);
    vp_assert(IMP(ncg >= 1, ref), "mesh.ghosts-in-reference");
    // every point within the stencil width of a leaf is in cells_and_ghosts
    {
        pt_t<dim> q = p;
        for (auto& x : q)
        {
            int s = vp_int(-SW, SW, "s");
            x += s;
        }
        vp_assert(IMP(leaf, count(mesh[id_t_::cells_and_ghosts][L], q) == 1), "mesh.stencil-ghosts");
        // ... and nothing else is
        if (DIM == 1) vp_assert(true, "mesh.stencil-ghosts");
    }
    if (mn != mx)
    {
        // projected cells: in the reference, subdivided, children stored
        int npj = count(mesh[id_t_::proj_cells][L], p);
        vp_assert(npj == (AND(ref, finer) ? 1 : 0), "mesh.proj-cells");
        if (l < DEPTH)
        {
            pt_t<dim> q = p;
            for (auto& x : q) x = 2 * x + vp_int(0, 1, "child");
            vp_assert(IMP(npj == 1, count(mesh[id_t_::reference][L + 1], q) == 1), "mesh.proj-children");
        }
        // ghosts whose value is predicted: the whole prediction stencil is stored one level below
        if (l > 0 && L > 0)
        {
            bool dom = cov[0].in(par(p, l));
            bool cg  = AND(ncg == 1, AND(dom, AND(!leaf, !finer)));
            pt_t<dim> q = par(p, 1);
            for (auto& x : q) x += vp_int(-PO, PO, "ps");
            vp_assert(IMP(cg, count(mesh[id_t_::reference][L - 1], q) == 1), "mesh.prediction-stencil");
            // details of a leaf: its parent, and the stencil of the prediction from the parent level
            pt_t<dim> q2 = par(p, 1);
            vp_assert(IMP(leaf, count(mesh[id_t_::reference][L - 1], q2) == 1), "mesh.parent");
        }
        // ... and the prediction of that parent, two levels below the leaf
        if (L >= 2)
        {
            pt_t<dim> q = par(p, 2);
            for (auto& x : q) x += vp_int(-PO, PO, "ps2");
            vp_assert(IMP(leaf, count(mesh[id_t_::reference][L - 2], q) == 1), "mesh.detail-stencil");
        }
    }
    // one numbering: the number of a cell is the same through every sub-mesh
    auto number = [&](id_t_ id)
    {
        int64_t r = -1;
        for_each_interval(mesh[id][L],
                          [&](auto, const auto& i, const auto& yz)
                          {
                              bool t = AND(i.start <= p[0], p[0] < i.end);
                              for (std::size_t d = 1; d < dim; ++d) t = AND(t, yz[d - 1] == p[d]);
                              r = t ? (int64_t)i.index + p[0] : r;
                          });
        return r;
    };
    int64_t nr = number(id_t_::reference);
    vp_assert(IMP(ref, AND(nr >= 0, nr < (int64_t)mesh.nb_cells())), "mesh.number-range");
    vp_assert(IMP(leaf, number(id_t_::cells) == nr), "mesh.number-cells");
    vp_assert(IMP(ncg == 1, number(id_t_::cells_and_ghosts) == nr), "mesh.number-ghosts");
    if (mn != mx) vp_assert(IMP(AND(ref, finer), number(id_t_::proj_cells) == nr), "mesh.number-proj");
    vp_cover("leaf");
    vp_observe_i((int64_t)mesh.nb_cells(id_t_::cells)); vp_observe_i((int64_t)mesh.nb_cells()); vp_observe_i(nref); vp_observe_i(ncg);
}
