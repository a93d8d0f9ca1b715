// C23: on any graded partition the interface loops visit every interior face and every boundary face exactly once, hand over
// the two leaves and the computational cells of the finer level shifted by the stencil, each with its own storage index; the
// stencil loops visit every leaf once with its shifted cells.
#include "freemesh.hpp"
#include "tree.hpp"
#include <samurai/interface.hpp>
#include <samurai/mr/mesh.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef NX
#define NX 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef NZ
#define NZ 1
#endif
#ifndef WIDTH
#define WIDTH 1
#endif
#ifndef AX
#define AX -1
#endif
constexpr std::size_t dim = DIM;
using Config = MRConfig<dim, WIDTH, 1, 1>;
using mesh_t = MRMesh<Config>;
using id_t_  = typename mesh_t::mesh_id_t;

extern "C" void vp_main()
{
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MAXL;
    T.n[0] = NX;
    if (DIM > 1) T.n[1] = NY;
    if (DIM > 2) T.n[2] = NZ;
    const int BN = 1 << 16;
    for (int d = 0; d < DIM; ++d) T.o[d] = vp_int(-BN, BN, "o");
#ifdef BUDGET
    T.budget = BUDGET;
#endif
#ifdef HOLES
    T.choose_holes();
#endif
    T.choose();
    typename mesh_t::cl_type cl;
    T.fill(cl);
    vp_select(1);
    mesh_t mesh(cl, MINL, MAXL);
    vp_select(0);

    auto loc = [&](const auto& cell)
    {
        P3 p{0, 0, 0};
        for (int d = 0; d < DIM; ++d) p[d] = (int)vp_concretize(cell.indices[d] - (T.o[d] << cell.level));
        return p;
    };
    bool idx_ok = true, len_ok = true;
    auto check_cell = [&](const auto& cell, int l, const P3& p)
    {
        P3 g = T.glob(l, p);
        bool s = (int)cell.level == l;
        for (int d = 0; d < DIM; ++d) s = AND(s, cell.indices[d] == g[d]);
        len_ok = AND(len_ok, cell.length * (1 << l) == 1.);
        if (!s) return false;
        // every cell handed over is stored and its index is that of the mesh
        yz_t<dim> yz;
        for (int d = 1; d < DIM; ++d) yz[d - 1] = g[d];
#if DIM == 1
        auto k = mesh.get_index(l, g[0]);
#elif DIM == 2
        auto k = mesh.get_index(l, g[0], g[1]);
#else
        auto k = mesh.get_index(l, g[0], g[1], g[2]);
#endif
        idx_ok = AND(idx_ok, cell.index == static_cast<decltype(cell.index)>(k));
        return true;
    };
    using key = std::array<int, 8>; // level0, p0, level1, p1
    for (int ax = 0; ax < DIM; ++ax)
    {
        if (AX >= 0 && AX != ax) continue;
        DirectionVector<dim> direction;
        direction.fill(0);
        direction[ax] = 1;
        P3 dv{0, 0, 0};
        dv[ax] = 1;
        auto shift = [](P3 p, const P3& v, int s) { for (int d = 0; d < 3; ++d) p[d] += s * v[d]; return p; };
        // ---- what there is
        std::map<key, int> want;
        std::map<std::array<int, 5>, int> wantb; // level, p, sign
        for (int l = MINL; l <= MAXL; ++l)
            T.each(l, [&](const P3& p)
                   {
                       if (!T.leaf(l, p)) return;
                       P3 q = shift(p, dv, 1), m = shift(p, dv, -1);
                       if (!T.in_domain(l, q)) wantb[{l, p[0], p[1], p[2], 1}] = 0;
                       else if (T.leaf(l, q)) want[{l, p[0], p[1], p[2], l, q[0], q[1], q[2]}] = 0;
                       else if (T.covered(l, q)) // finer on the right
                       {
                           for (int c = 0; c < (1 << (DIM - 1)); ++c)
                           {
                               P3 f{0, 0, 0};
                               int b = 0;
                               for (int d = 0; d < DIM; ++d) f[d] = d == ax ? 2 * q[d] : 2 * q[d] + ((c >> b++) & 1);
                               want[{l, p[0], p[1], p[2], l + 1, f[0], f[1], f[2]}] = 0;
                           }
                       }
                       if (!T.in_domain(l, m)) wantb[{l, p[0], p[1], p[2], -1}] = 0;
                       else if (T.covered(l, m) && !T.leaf(l, m)) // finer on the left
                       {
                           for (int c = 0; c < (1 << (DIM - 1)); ++c)
                           {
                               P3 f{0, 0, 0};
                               int b = 0;
                               for (int d = 0; d < DIM; ++d) f[d] = d == ax ? 2 * m[d] + 1 : 2 * m[d] + ((c >> b++) & 1);
                               want[{l + 1, f[0], f[1], f[2], l, p[0], p[1], p[2]}] = 0;
                           }
                       }
                   });
        auto want0  = want;
        auto wantb0 = wantb;
        bool stray = false, cells_ok = true;
        auto on_face = [&](const auto& ic, const auto& cc, const auto& st)
        {
            vp_select(0);
            P3 a = loc(ic[0]), b = loc(ic[1]);
            int la = (int)ic[0].level, lb = (int)ic[1].level;
            auto it = want.find({la, a[0], a[1], a[2], lb, b[0], b[1], b[2]});
            if (it == want.end()) { stray = true; vp_select(1); return; }
            it->second++;
            if (!check_cell(ic[0], la, a) || !check_cell(ic[1], lb, b)) cells_ok = false;
            // left cell of the face at the finer level
            int lf  = la > lb ? la : lb;
            P3 left = la >= lb ? a : shift(b, dv, -1);
            for (std::size_t k = 0; k < cc.size(); ++k)
            {
                P3 p = left;
                for (int d = 0; d < DIM; ++d) p[d] += st(k, d);
                if (!check_cell(cc[k], lf, p)) cells_ok = false;
            }
            vp_select(1);
        };
        auto on_bdry = [&](const auto& cell, const auto& cc, const auto& st, int sign) // sign 0: either
        {
            vp_select(0);
            P3 a = loc(cell);
            int l = (int)cell.level;
            // which side: the computational cells tell
            int s = sign;
            if (!s) { P3 c0 = loc(cc[0]); s = c0[ax] - a[ax] - st(0, ax) == 0 ? 1 : -1; }
            auto it = wantb.find({l, a[0], a[1], a[2], s});
            if (it == wantb.end()) { stray = true; vp_select(1); return; }
            it->second++;
            if (!check_cell(cell, l, a)) cells_ok = false;
            P3 left = s > 0 ? a : shift(a, dv, -1);
            for (std::size_t k = 0; k < cc.size(); ++k)
            {
                P3 p = left;
                for (int d = 0; d < DIM; ++d) p[d] += st(k, d);
                if (!check_cell(cc[k], l, p)) cells_ok = false;
            }
            vp_select(1);
        };
        auto all_one = [&](const auto& m) { for (auto& kv : m) if (kv.second != 1) return false; return true; };
        // ---- two cell stencil
        Stencil<2, dim> st2;
        st2.fill(0);
        st2(1, ax) = 1;
        vp_select(1);
        for_each_interior_interface(mesh, direction, [&](const auto& ic, const auto& cc) { on_face(ic, cc, st2); });
        vp_select(0);
        vp_assert(all_one(want), "iface.each-face-once");
        vp_assert(!stray, "iface.no-other-face");
        want = want0;
        vp_select(1);
        for_each_boundary_interface__both_directions(mesh, direction, [&](const auto& c, const auto& cc) { on_bdry(c, cc, st2, 0); });
        vp_select(0);
        vp_assert(all_one(wantb), "iface.each-boundary-face-once");
        vp_assert(!stray, "iface.no-other-boundary-face");
        wantb = wantb0;
        // ---- a wider, shuffled stencil
#if WIDTH > 1
        Stencil<4, dim> st4;
        st4.fill(0);
        st4(0, ax) = 2; st4(1, ax) = 0; st4(2, ax) = -1; st4(3, ax) = 1;
        vp_select(1);
        for_each_interior_interface(mesh, direction, st4, [&](const auto& ic, const auto& cc) { on_face(ic, cc, st4); });
        for_each_boundary_interface__direction(mesh, direction, st4, [&](const auto& c, const auto& cc) { on_bdry(c, cc, st4, 1); });
        vp_select(0);
        vp_assert(all_one(want), "iface.each-face-once-wide");
        vp_assert(!stray, "iface.no-other-face-wide");
        for (auto& kv : wantb) if (kv.first[4] < 0) kv.second++;
        vp_assert(all_one(wantb), "iface.each-boundary-face-once-wide");
        wantb = wantb0;
        vp_select(1);
        for_each_boundary_interface__both_directions(mesh, direction, st4, [&](const auto& c, const auto& cc) { on_bdry(c, cc, st4, 0); });
        vp_select(0);
        vp_assert(all_one(wantb), "iface.each-boundary-face-once-wide-both");
        vp_assert(!stray, "iface.no-other-boundary-face-wide");
#endif
        vp_assert(cells_ok, "iface.computational-cells");
    }
    // ---- every leaf once with its star
    {
        std::map<std::array<int, 4>, int> want;
        for (int l = MINL; l <= MAXL; ++l) T.each(l, [&](const P3& p) { if (T.leaf(l, p)) want[{l, p[0], p[1], p[2]}] = 0; });
        bool ok = true;
        auto st = star_stencil<dim>();
        int org = -1, seen = 0;
        for (std::size_t k = 0; k < 2 * dim + 1; ++k)
        {
            int s = 0, w = 0;
            for (int d = 0; d < DIM; ++d) { s += st(k, d) * st(k, d); w += (st(k, d) + 1) * (d == 0 ? 1 : d == 1 ? 3 : 9); }
            if (s == 0) org = (int)k;
            if (s > 1 || (seen >> w & 1)) ok = false;
            seen |= 1 << w;
        }
        vp_select(1);
        for_each_stencil(mesh, st,
                         [&](const auto& cc)
                         {
                             vp_select(0);
                             P3 a = loc(cc[org]);
                             int l = (int)cc[org].level;
                             auto it = want.find({l, a[0], a[1], a[2]});
                             if (it == want.end()) ok = false;
                             else
                             {
                                 it->second++;
                                 for (std::size_t k = 0; k < cc.size(); ++k)
                                 {
                                     P3 p = a;
                                     for (int d = 0; d < DIM; ++d) p[d] += st(k, d);
                                     if (!check_cell(cc[k], l, p)) ok = false;
                                 }
                             }
                             vp_select(1);
                         });
        vp_select(0);
        for (auto& kv : want) if (kv.second != 1) ok = false;
        vp_assert(ok, "iface.stencil-loop");
    }
    vp_assert(idx_ok, "iface.storage-index");
    vp_assert(len_ok, "iface.cell-length");
}
