// C03: converting inserted cells to the compressed storage keeps exactly the inserted cells, in canonical form.
#include "hcommon.hpp"
#include <samurai/box.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 2
#endif
#ifndef SEGS
#define SEGS 1
#endif
#ifndef ROWS
#define ROWS 3
#endif
constexpr std::size_t dim = DIM;
static const int B = 1 << 20;

template <class L>
static void canonical(const L& lca, const SymSet<dim>& A, const pt_t<dim>& p)
{
    Counter<dim> c;
    c.p = p;
    bool ok = true, first = true;
    int pe = 0;
    std::array<int, dim> py{};
    std::size_t cells = 0, rows0 = 0;
    for_each_interval(lca,
                      [&](auto level, const auto& i, const auto& yz)
                      {
                          c(i, yz);
                          ok = AND(ok, level == (std::size_t)A.level);
                          if (!first)
                          {
                              int cmp = 0; // rows ordered by last dimension first
                              for (std::size_t d = dim - 1; d > 0; --d)
                              {
                                  if (cmp == 0 && yz[d - 1] != py[d]) cmp = yz[d - 1] > py[d] ? 1 : -1;
                              }
                              ok = AND(ok, cmp >= 0);
                              if (cmp == 0) ok = AND(ok, i.start > pe); // disjoint, not adjacent, increasing
                          }
                          pe = i.end;
                          for (std::size_t d = 1; d < dim; ++d) py[d] = yz[d - 1];
                          cells += i.size();
                          rows0++;
                          first = false;
                      });
    vp_assert(c.n == (A.in(p) ? 1 : 0), "storage.cells");
    vp_assert(!c.bad, "storage.valid-intervals");
    vp_assert(ok, "storage.canonical-order");
    vp_assert(lca.nb_cells() == cells, "storage.nb-cells");
    vp_assert(lca.shape()[0] == rows0, "storage.shape");
    vp_assert(lca.empty() == (rows0 == 0), "storage.empty");
    if (rows0)
    {
        auto mn = lca.min_indices();
        auto mx = lca.max_indices();
        auto mm = lca.minmax_indices();
        bool in = A.in(p);
        for (std::size_t d = 0; d < dim; ++d)
        {
            vp_assert(IMP(in, AND(mn[d] <= p[d], p[d] < mx[d])), "storage.bounds-contain");
            vp_assert(AND(mm[d].first == mn[d], mm[d].second == mx[d]), "storage.minmax");
            // tight: some cell reaches the bound
            bool lo = false, hi = false;
            for (auto& s : A.s)
            {
                bool ne = s.a < s.b;
                lo = OR(lo, AND(ne, (d == 0 ? s.a : s.yz[d]) == mn[d]));
                hi = OR(hi, AND(ne, (d == 0 ? s.b : s.yz[d] + 1) == mx[d]));
            }
            vp_assert(AND(lo, hi), "storage.bounds-tight");
        }
    }
    vp_observe_i((int64_t)cells); vp_observe_i((int64_t)rows0); vp_observe_i(c.n);
}

extern "C" void vp_main()
{
    std::array<int, dim> n, o;
    n.fill(ROWS);
    o.fill(0);
    for (std::size_t d = 1; d < dim; ++d) o[d] = vp_int(-B, B, "oy");
    auto A = sym_rows<dim>(3, SEGS, -B, B, n, o);
    auto p = sym_point<dim>(-2 * B, 2 * B);
    int rev = vp_bool("reverse");
    // insertion order must not matter
    if (vp_concretize(rev)) { auto t = A.s; for (std::size_t k = 0; k < t.size(); ++k) A.s[k] = t[t.size() - 1 - k]; }
    Lca<dim> a = A.lca();
    vp_assert(a.level() == 3, "storage.level");
    canonical(a, A, p);
    Lca<dim> b = intersection(a, a); // built from a set expression
    canonical(b, A, p);
    CellList<dim> cl;
    for (auto& s : A.s)
        if (s.a < s.b)
        {
            yz_t<dim> i;
            for (std::size_t d = 1; d < dim; ++d) i[d - 1] = s.yz[d];
            cl[3][i].add_interval({s.a, s.b});
        }
    CellArray<dim> ca{cl, false};
    canonical(ca[3], A, p);
    vp_assert(ca[3] == a, "storage.equal-same-cells");
    vp_assert(AND(ca[2].empty(), ca.nb_cells() == a.nb_cells()), "storage.cellarray-levels");
    if (!a.empty()) { vp_assert(AND(ca.min_level() == 3, ca.max_level() == 3), "storage.minmax-level"); vp_cover("nonempty"); }
}
