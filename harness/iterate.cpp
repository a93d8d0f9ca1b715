// C05: every traversal of a cell container visits each stored interval/cell exactly once, in the same order, with the right row
// coordinates, level and number, forwards and backwards.
#include "hcommon.hpp"
#include <samurai/algorithm.hpp>
#include <samurai/mesh_interval.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 2
#endif
#ifndef SEGS
#define SEGS 1
#endif
#ifndef ROWS
#define ROWS 2
#endif
#ifndef LEVELS
#define LEVELS 2
#endif
#ifndef CELLS
#define CELLS 0 // 1: per-cell traversals (interval lengths bounded)
#endif
constexpr std::size_t dim = DIM;
static const int B = CELLS ? 2 : 1 << 20;
struct Rec { std::size_t l; int a, b; int64_t idx; std::array<int, dim> y; };

extern "C" void vp_main()
{
    CellList<dim> cl;
    std::vector<SymSet<dim>> sets;
    for (int l = 0; l < LEVELS; ++l)
    {
        std::array<int, dim> n, o;
        n.fill(ROWS);
        o.fill(0);
        for (std::size_t d = 1; d < dim; ++d) o[d] = vp_int(-1000, 1000, "oy");
        o[0] = CELLS ? vp_int(-1000, 1000, "ox") : 0;
        sets.push_back(sym_rows<dim>(l + 1, SEGS, -B, B, n, o));
        for (auto& s : sets.back().s)
            if (s.a < s.b)
            {
                yz_t<dim> i;
                for (std::size_t d = 1; d < dim; ++d) i[d - 1] = s.yz[d];
                cl[sets.back().level][i].add_interval({s.a, s.b});
            }
    }
    CellArray<dim> ca{cl, true};
    std::vector<Rec> rec;
    auto put = [&](std::size_t l, const auto& i, const auto& yz)
    {
        Rec r{l, i.start, i.end, (int64_t)i.index, {}};
        for (std::size_t d = 1; d < dim; ++d) r.y[d] = yz[d - 1];
        rec.push_back(r);
    };
    for_each_interval(ca, put);
    auto same = [&](const Rec& r, std::size_t l, const auto& i, const auto& yz)
    {
        bool ok = AND(AND(r.l == l, r.a == i.start), AND(r.b == i.end, r.idx == (int64_t)i.index));
        for (std::size_t d = 1; d < dim; ++d) ok = AND(ok, r.y[d] == yz[d - 1]);
        return ok;
    };
    // the reference traversal itself: each cell of the inserted sets exactly once
    for (int l = 0; l < LEVELS; ++l)
    {
        Counter<dim> c;
        c.p = sym_point<dim>(-2 * B - 1000, 2 * B + 1000);
        for (auto& r : rec)
            if (r.l == (std::size_t)(l + 1)) { std::array<int, dim> y{}; for (std::size_t d = 1; d < dim; ++d) y[d - 1] = r.y[d]; c(interval_t{r.a, r.b}, y); }
        vp_assert(c.n == (sets[l].in(c.p) ? 1 : 0), "iterate.intervals-cover");
    }
    for (std::size_t k = 1; k < rec.size(); ++k) vp_assert(rec[k - 1].l <= rec[k].l, "iterate.levels-increase");
    const auto& cca = ca;
    {
        std::size_t k = 0; bool ok = true;
        for_each_interval(cca, [&](auto l, const auto& i, const auto& yz) { ok = AND(ok, k < rec.size() ? same(rec[k], l, i, yz) : false); ++k; });
        vp_assert(AND(ok, k == rec.size()), "iterate.const");
        k = 0; ok = true;
        for_each_meshinterval(cca, [&](const auto& mi) { ok = AND(ok, k < rec.size() ? same(rec[k], mi.level, mi.i, mi.index) : false); ++k; });
        vp_assert(AND(ok, k == rec.size()), "iterate.meshinterval");
        std::vector<std::size_t> lv;
        for_each_level(cca, [&](std::size_t l) { lv.push_back(l); });
        std::size_t w = 0;
        for (int l = 1; l <= LEVELS; ++l) if (!ca[l].empty()) { vp_assert(w < lv.size() && lv[w] == (std::size_t)l, "iterate.levels"); ++w; }
        vp_assert(w == lv.size(), "iterate.levels");
    }
    for (int l = 1; l <= LEVELS; ++l) // one level
    {
        const auto& lca = cca[l];
        std::size_t base = 0; while (base < rec.size() && rec[base].l < (std::size_t)l) ++base;
        std::size_t n = lca.shape()[0], k = 0; bool ok = true;
#ifndef NO_EMPTY
        for_each_meshinterval(lca, [&](const auto& mi) { ok = AND(ok, k < n ? same(rec[base + k], mi.level, mi.i, mi.index) : false); ++k; });
        vp_assert(AND(ok, k == n), "iterate.level-meshinterval");
#endif
        if (lca.empty()) continue;
        k = 0; ok = true;
        auto it = lca.cbegin();
        for (; it != lca.cend(); ++it) { ok = AND(ok, k < n ? same(rec[base + k], it.level(), *it, it.index()) : false); ++k; }
        vp_assert(AND(ok, k == n), "iterate.level-forward");
        for (k = n; k-- > 0;) { --it; ok = AND(ok, same(rec[base + k], it.level(), *it, it.index())); }
        vp_assert(AND(ok, it == lca.cbegin()), "iterate.level-back-from-end");
        it = lca.cend();
        for (k = n; k-- > 0;) { --it; ok = AND(ok, same(rec[base + k], it.level(), *it, it.index())); }
        vp_assert(ok, "iterate.level-backward");
        k = 0;
        for (auto r = lca.rbegin(); r != lca.rend(); ++r) { ok = AND(ok, k < n ? AND(r->start == rec[base + n - 1 - k].a, r->end == rec[base + n - 1 - k].b) : false); ++k; }
        vp_assert(AND(ok, k == n), "iterate.level-reverse");
        for (k = 0; k < n; ++k) { auto j = lca.cbegin() + (std::ptrdiff_t)k; vp_assert(AND(same(rec[base + k], j.level(), *j, j.index()), j - lca.cbegin() == (std::ptrdiff_t)k), "iterate.level-random"); }
    }
    if (!rec.empty()) // all levels
    {
        std::size_t n = rec.size(), k = 0; bool ok = true;
        auto it = ca.begin();
        for (; it != ca.end(); ++it) { ok = AND(ok, k < n ? same(rec[k], it.level(), *it, it.index()) : false); ++k; if (k > n) break; }
        vp_assert(AND(ok, k == n), "iterate.forward");
        it = ca.end();
        for (k = n; k-- > 0;) { --it; ok = AND(ok, same(rec[k], it.level(), *it, it.index())); }
        vp_assert(AND(ok, it == ca.begin()), "iterate.backward");
        k = 0;
        for (auto r = cca.rbegin(); r != cca.rend(); ++r) { ok = AND(ok, k < n ? same(rec[n - 1 - k], r.level(), *r, r.index()) : false); ++k; if (k > n) break; }
        vp_assert(AND(ok, k == n), "iterate.reverse");
        for (k = 0; k < n; ++k) { auto j = ca.begin(); j += (std::ptrdiff_t)k; vp_assert(same(rec[k], j.level(), *j, j.index()), "iterate.random"); }
        vp_cover("nonempty");
        if (ca.min_level() + 1 < ca.max_level() && ca[ca.min_level() + 1].empty()) vp_cover("empty-middle-level");
    }
    vp_observe_i((int64_t)rec.size());
#if CELLS
    {
        std::size_t k = 0; int pos = 0; bool ok = true; int64_t num = 0;
        auto cell = [&](const auto& c)
        {
            while (k < rec.size() && rec[k].a + pos >= rec[k].b) { ++k; pos = 0; }
            if (k >= rec.size()) { ok = false; return; }
            ok = AND(ok, AND(AND(c.level == rec[k].l, c.indices[0] == rec[k].a + pos), c.index == num));
            for (std::size_t d = 1; d < dim; ++d) ok = AND(ok, c.indices[d] == rec[k].y[d]);
            ++pos; ++num;
        };
        for_each_cell(cca, cell);
        vp_assert(AND(ok, num == (int64_t)ca.nb_cells()), "iterate.cells");
        k = 0; pos = 0; num = 0;
        for (int l = 1; l <= LEVELS; ++l) for_each_cell(cca[l], cell);
        vp_assert(AND(ok, num == (int64_t)ca.nb_cells()), "iterate.level-cells");
        k = 0; pos = 0; num = 0;
        for (int l = 1; l <= LEVELS; ++l) { auto s = intersection(cca[l], cca[l]); for_each_cell(cca[l], s, cell); }
        vp_assert(AND(ok, num == (int64_t)ca.nb_cells()), "iterate.set-cells");
        vp_observe_i(num);
    }
#endif
}
