// Symbolic leaf partitions: a box of root cells (level 0) at a symbolic place, every cell of level minl..maxl-1 refined or
// not (symbolic, forked), graded. Coordinates are local: global = (origin << level) + local.
#pragma once
#include "hcommon.hpp"
#include <map>
#include <set>
#include <vector>
using P3 = std::array<int, 3>;
#ifndef PERX
#define PERX 0
#endif
#ifndef PERY
#define PERY 0
#endif
#ifndef PERZ
#define PERZ 0
#endif
template <int dim>
struct Tree
{
    int minl, maxl, per[3] = {0, 0, 0}, budget = 1 << 20; // budget: refined cells beyond the forced ones
    P3 o{0, 0, 0}, n{1, 1, 1};
    std::vector<std::set<P3>> refined;
    std::set<P3> hole; // root cells missing from the box
    void choose_holes() // any non-empty subset of the box is the domain
    {
        int left = 0;
        each(0, [&](const P3&) { left++; });
        std::set<P3> h;
        each(0, [&](const P3& p) { if (left > 1 && vp_concretize(vp_bool("hole"))) { h.insert(p); left--; } });
        hole = h;
    }

    bool in_domain(int l, const P3& p) const
    {
        for (int d = 0; d < dim; ++d)
            if (p[d] < 0 || p[d] >= (n[d] << l)) return false;
        return hole.empty() || !hole.count(P3{p[0] >> l, p[1] >> l, p[2] >> l});
    }
    P3 wrap(int l, P3 p) const
    {
        for (int d = 0; d < dim; ++d)
            if (per[d]) { int w = n[d] << l; p[d] = ((p[d] % w) + w) % w; }
        return p;
    }
    static P3 par(P3 p)
    {
        for (auto& x : p) x >>= 1;
        return p;
    }
    bool is_ref(int l, const P3& p) const { return l < (int)refined.size() && refined[l].count(p); }
    bool covered(int l, const P3& p) const { return in_domain(l, p) && (l == 0 || is_ref(l - 1, par(p))); } // leaf here or finer
    bool leaf(int l, const P3& p) const { return covered(l, p) && !is_ref(l, p); }
    template <class F>
    void each(int l, F f) const // cells of the domain at a level, x fastest
    {
        for (int z = 0; z < (dim > 2 ? n[2] << l : 1); ++z)
            for (int y = 0; y < (dim > 1 ? n[1] << l : 1); ++y)
                for (int x = 0; x < (n[0] << l); ++x) f(P3{x, y, z});
    }
    template <class F>
    static void around(const P3& p, int w, F f)
    {
        for (int k = dim > 2 ? -w : 0; k <= (dim > 2 ? w : 0); ++k)
            for (int j = dim > 1 ? -w : 0; j <= (dim > 1 ? w : 0); ++j)
                for (int i = -w; i <= w; ++i) f(P3{p[0] + i, p[1] + j, p[2] + k}, P3{i, j, k});
    }
    // pick: any graded partition
    void choose(bool graded = true)
    {
        refined.assign(maxl, {});
        for (int l = 0; l < maxl; ++l)
            each(l, [&](const P3& p)
                 {
                     if (!covered(l, p)) return;
                     bool r = l < minl;
                     if (!r)
                     {
                         bool ok = true;
                         if (graded) around(p, 1, [&](const P3& q0, const P3&) { P3 q = wrap(l, q0); if (in_domain(l, q) && !covered(l, q)) ok = false; });
                         if (ok && budget > 0) r = vp_concretize(vp_bool("ref"));
                         if (r) budget--;
                     }
                     if (r) refined[l].insert(p);
                 });
    }
    int top() const
    {
        int t = 0;
        for (int l = 0; l < maxl; ++l) if (!refined[l].empty()) t = l + 1;
        return t;
    }
    P3 glob(int l, const P3& p) const { return {(o[0] << l) + p[0], (o[1] << l) + p[1], (o[2] << l) + p[2]}; }
    template <class CL>
    void fill(CL& cl) const
    {
        for (int l = 0; l <= maxl; ++l)
            each(l, [&](const P3& p)
                 {
                     if (!leaf(l, p)) return;
                     P3 g = glob(l, p);
                     yz_t<dim> yz;
                     for (int d = 1; d < dim; ++d) yz[d - 1] = g[d];
                     cl[l][yz].add_interval({g[0], g[0] + 1});
                 });
    }
    // local coordinates of the cells stored in a level array
    template <class A>
    std::set<P3> stored(int l, const A& lca) const
    {
        std::set<P3> s;
        samurai::for_each_interval(lca,
                                   [&](auto, const auto& i, const auto& yz)
                                   {
                                       int a = (int)vp_concretize(i.start - (o[0] << l)), b = (int)vp_concretize(i.end - (o[0] << l));
                                       P3 p{0, 0, 0};
                                       for (int d = 1; d < dim; ++d) p[d] = (int)vp_concretize(yz[d - 1] - (o[d] << l));
                                       for (int x = a; x < b; ++x) { p[0] = x; s.insert(p); }
                                   });
        return s;
    }
};
