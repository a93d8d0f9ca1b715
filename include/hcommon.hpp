// Shared helpers of the harnesses: symbolic cell sets, their oracles, counting of emitted cells.
#pragma once
#include "vp.h"
#include <array>
#include <vector>
#include <samurai/cell_array.hpp>
#include <samurai/cell_list.hpp>
#include <samurai/level_cell_array.hpp>
#include <samurai/level_cell_list.hpp>
#include <samurai/subset/node_op.hpp>
#include <samurai/subset/subset_op.hpp>

using interval_t = samurai::default_config::interval_t;
template <std::size_t dim>
using Lca = samurai::LevelCellArray<dim>;
template <std::size_t dim>
using Lcl = samurai::LevelCellList<dim>;
template <std::size_t dim>
using yz_t = xt::xtensor_fixed<int, xt::xshape<dim - 1>>;
template <std::size_t dim>
using pt_t = std::array<int, dim>;

// A finite union of segments {[a,b) x {y} x {z}}; a >= b means absent.
template <std::size_t dim>
struct Seg
{
    int a, b;
    std::array<int, dim> yz; // yz[1..dim-1] used
};
template <std::size_t dim>
struct SymSet
{
    int level = 0;
    std::vector<Seg<dim>> s;

    bool in(const pt_t<dim>& p) const
    {
        bool r = false;
        for (auto& x : s)
        {
            bool t = AND(x.a <= p[0], p[0] < x.b);
            for (std::size_t d = 1; d < dim; ++d)
            {
                t = AND(t, x.yz[d] == p[d]);
            }
            r = OR(r, t);
        }
        return r;
    }

    // membership of the covering projection on a level
    bool in_on(const pt_t<dim>& p, int lvl) const
    {
        if (lvl >= level)
        {
            pt_t<dim> q = p;
            for (auto& c : q)
            {
                c >>= (lvl - level);
            }
            return in(q);
        }
        int k  = level - lvl;
        bool r = false;
        for (auto& x : s)
        {
            bool t = AND(AND(x.a < x.b, (x.a >> k) <= p[0]), p[0] <= ((x.b - 1) >> k));
            for (std::size_t d = 1; d < dim; ++d)
            {
                t = AND(t, (x.yz[d] >> k) == p[d]);
            }
            r = OR(r, t);
        }
        return r;
    }

    Lca<dim> lca() const
    {
        Lcl<dim> l(static_cast<std::size_t>(level));
        for (auto& x : s)
        {
            if (x.a < x.b) // (fork) rows are only touched when something is added
            {
                yz_t<dim> i;
                for (std::size_t d = 1; d < dim; ++d)
                {
                    i[d - 1] = x.yz[d];
                }
                l[i].add_interval({x.a, x.b});
            }
        }
        return Lca<dim>(l);
    }
};

// every row of the concrete grid origin + [0,n1) x [0,n2) holds at most k symbolic segments inside [lo,hi)
template <std::size_t dim>
inline SymSet<dim> sym_rows(int level, int k, int lo, int hi, std::array<int, dim> n, std::array<int, dim> origin, bool nonempty_segments = false)
{
    SymSet<dim> r;
    r.level   = level;
    int total = 1;
    for (std::size_t d = 1; d < dim; ++d)
    {
        total *= n[d];
    }
    for (int t = 0; t < total; ++t)
    {
        for (int j = 0; j < k; ++j)
        {
            Seg<dim> x;
            x.a = vp_int(lo, hi, "a") + origin[0];
            x.b = vp_int(lo, hi, "b") + origin[0];
            if (nonempty_segments)
            {
                vp_assume(x.a < x.b);
            }
            else
            {
                vp_assume(x.a <= x.b);
            }
            int q = t;
            for (std::size_t d = 1; d < dim; ++d)
            {
                x.yz[d] = origin[d] + q % n[d];
                q /= n[d];
            }
            r.s.push_back(x);
        }
    }
    return r;
}

template <std::size_t dim>
inline pt_t<dim> sym_point(int lo, int hi)
{
    pt_t<dim> p;
    for (std::size_t d = 0; d < dim; ++d)
    {
        p[d] = vp_int(lo, hi, "p");
    }
    return p;
}

// counts how often a (symbolic) cell is emitted
template <std::size_t dim>
struct Counter
{
    pt_t<dim> p;
    int n     = 0;
    bool bad  = false; // an emitted interval was empty or had a step other than 1
    int emits = 0;
    bool unsorted = false, touching = false;
    pt_t<dim> last;

    template <class I, class Y>
    void operator()(const I& i, const Y& yz)
    {
        bool t = AND(i.start <= p[0], p[0] < i.end);
        for (std::size_t d = 1; d < dim; ++d)
        {
            t = AND(t, yz[d - 1] == p[d]);
        }
        n += t ? 1 : 0;
        bad = OR(bad, i.end <= i.start);
        if (emits)
        {
            // sorted: rows in increasing (colexicographic) order; maximal: a gap between two intervals of a row
            bool same = true, less = false;
            for (std::size_t d = dim - 1; d >= 1; --d)
            {
                less = OR(less, AND(same, last[d] < yz[d - 1]));
                same = AND(same, last[d] == yz[d - 1]);
            }
            unsorted = OR(unsorted, !OR(less, AND(same, last[0] <= i.start)));
            touching = OR(touching, AND(same, last[0] == i.start));
        }
        last[0] = i.end;
        for (std::size_t d = 1; d < dim; ++d)
        {
            last[d] = yz[d - 1];
        }
        emits++;
    }
};
