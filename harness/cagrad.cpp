// C30: is_graduated decides gradation; make_graduation yields the coarsest graded refinement of the cells it is given.
#include "tree.hpp"
#include <samurai/cell_array.hpp>
#include <samurai/cell_list.hpp>
#include <samurai/graduation.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 3
#endif
#ifndef NX
#define NX 1
#endif
#ifndef WID
#define WID 1 // neighbourhood width
#endif
#ifndef NY
#define NY 1
#endif
constexpr std::size_t dim = DIM;
using ca_t                = CellArray<dim>;
using T_t                 = Tree<DIM>;

// the leaf that contains cell (l, p), or level -1
static int leaf_level(const T_t& t, int l, P3 p)
{
    if (!t.in_domain(l, p)) return -1;
    while (!t.covered(l, p)) { p = T_t::par(p); l--; }
    return l;
}
static P3 up(P3 p, int s)
{
    for (auto& x : p) x >>= s;
    return p;
}
// a leaf facing a leaf two levels finer or more: refine it (returns false when there is none)
static bool fix_one(T_t& t, bool apply)
{
    bool done = false;
    for (int l = t.maxl; l >= 2; --l)
        t.each(l, [&](const P3& p)
               {
                   if (done || !t.leaf(l, p)) return;
                   for (int d = 0; d < DIM; ++d)
                       for (int s = -WID; s <= WID; ++s)
                       {
                           P3 q = p;
                           q[d] += s;
                           if (!t.in_domain(l, q) || t.covered(l, q)) continue;
                           int m = leaf_level(t, l, q);
                           if (m < l - 1 && !done)
                           {
                               done = true;
                               if (apply) t.refined[m].insert(up(q, l - m));
                           }
                       }
               });
    return done;
}

extern "C" void vp_main()
{
    T_t t;
    t.minl = MINL;
    t.maxl = MAXL;
#ifdef BUDGET
    t.budget = BUDGET;
#endif
    const int BN = 1 << 16;
    t.o[0] = vp_int(-BN, BN, "ox");
    t.n[0] = (int)vp_concretize(vp_int(1, NX, "nx"));
    if (DIM > 1) { t.o[1] = vp_int(-BN, BN, "oy"); t.n[1] = (int)vp_concretize(vp_int(1, NY, "ny")); }
    if (DIM > 2) t.o[2] = vp_int(-BN, BN, "oz");
#ifdef HOLES
    t.choose_holes();
#endif
    t.choose(false); // any partition, graded or not
    typename ca_t::cl_type cl;
    t.fill(cl);
    ca_t ca{cl, true};

    T_t want = t;
    bool graded = !fix_one(want, false);
    while (fix_one(want, true)) {}

#if WID > 1
    auto is_gr = [](const ca_t& c) { return is_graduated<ca_t, WID>(c, star_stencil<dim, WID>()); };
    auto mk_gr = [](ca_t& c) { make_graduation<ca_t, WID>(c, star_stencil<dim, WID>()); };
#else
    auto is_gr = [](const ca_t& c) { return is_graduated(c); };
    auto mk_gr = [](ca_t& c) { make_graduation(c); };
#endif
    vp_assert(is_gr(ca) == graded, "graduation.is-graduated");
    mk_gr(ca);
    vp_assert(is_gr(ca), "graduation.result-graded");
    std::size_t total = 0;
    for (int l = 0; l <= MAXL; ++l)
    {
        std::set<P3> w;
        want.each(l, [&](const P3& p) { if (want.leaf(l, p)) w.insert(p); });
        vp_assert(t.stored(l, ca[(std::size_t)l]) == w, "graduation.coarsest-graded-refinement");
        total += w.size();
    }
    vp_assert(ca.nb_cells() == total, "graduation.nb-cells");
    // the numbering of the result is a bijection in traversal order
    long next = 0;
    for_each_cell(ca, [&](const auto& c) { vp_assert((long)c.index == next, "graduation.numbering"); next++; });
    vp_observe_i((int64_t)total);
}
