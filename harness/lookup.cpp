// C04/C06: lookup of a cell by its coordinates, and the numbering of the cells.
#include "hcommon.hpp"
using namespace samurai;
#ifndef DIM
#define DIM 2
#endif
#ifndef SEGS
#define SEGS 2
#endif
#ifndef ROWS
#define ROWS 2
#endif
#ifndef LEVELS
#define LEVELS 1
#endif
constexpr std::size_t dim = DIM;
static const int B = 1 << 20;
using coord_t = xt::xtensor_fixed<int, xt::xshape<dim>>;

extern "C" void vp_main()
{
    CellList<dim> cl;
    std::vector<SymSet<dim>> sets;
    int64_t total = 0;
    for (int l = 0; l < LEVELS; ++l)
    {
        std::array<int, dim> n, o;
        n.fill(ROWS);
        o.fill(0);
        for (std::size_t d = 1; d < dim; ++d) o[d] = vp_int(-B, B, "oy");
        sets.push_back(sym_rows<dim>(2 * l + 1, SEGS, -B, B, n, o));
        for (auto& s : sets.back().s)
            if (s.a < s.b)
            {
                yz_t<dim> i;
                for (std::size_t d = 1; d < dim; ++d) i[d - 1] = s.yz[d];
                cl[sets.back().level][i].add_interval({s.a, s.b});
            }
    }
    CellArray<dim> ca{cl, true};
    for (int l = 0; l < LEVELS; ++l) { ca[2 * l + 1].nb_cells(); total += (int64_t)ca[2 * l + 1].nb_cells(); }
    vp_assert((int64_t)ca.nb_cells() == total, "lookup.nb-cells");
    auto point = [&](int& l) -> coord_t
    {
        l = LEVELS > 1 ? (int)vp_concretize(vp_int(0, LEVELS - 1, "l")) : 0;
        auto p = sym_point<dim>(-2 * B, 2 * B);
        coord_t c;
        for (std::size_t d = 0; d < dim; ++d) c[d] = p[d];
        return c;
    };
    int lp, lq;
    coord_t p = point(lp);
    auto& lca = ca[2 * lp + 1];
    pt_t<dim> pp;
    for (std::size_t d = 0; d < dim; ++d) pp[d] = p[d];
    auto row  = find(lca, p);
    bool in   = sets[lp].in(pp);
    vp_assert(in == (row >= 0), "lookup.find-iff-present");
    vp_observe_i(row);
    if (row < 0) { vp_assert(row == -1, "lookup.find-absent"); vp_cover("absent"); return; }
    vp_cover("present");
    std::size_t L = (std::size_t)(2 * lp + 1);
    auto& itv = lca.get_interval(p);
    vp_assert(&itv == &lca[0][(std::size_t)row], "lookup.interval-row");
    vp_assert(AND(itv.start <= p[0], p[0] < itv.end), "lookup.interval-contains");
    auto idx = lca.get_index(p);
    vp_assert(AND(0 <= idx, idx < total), "lookup.index-range");
    interval_t one{p[0], p[0] + 1};
    yz_t<dim> yz;
    for (std::size_t d = 1; d < dim; ++d) yz[d - 1] = p[d];
    // every form of the query agrees
#if DIM == 1
    vp_assert(&lca.get_interval(one) == &itv, "lookup.forms");
    vp_assert(AND(lca.get_index(p[0]) == idx, ca.get_index(L, p[0]) == idx), "lookup.forms");
    auto cell = ca.get_cell(L, p[0]);
#elif DIM == 2
    vp_assert(AND(&lca.get_interval(one, p[1]) == &itv, &ca.get_interval(L, one, p[1]) == &itv), "lookup.forms");
    vp_assert(AND(lca.get_index(p[0], p[1]) == idx, ca.get_index(L, p[0], p[1]) == idx), "lookup.forms");
    vp_assert(ca.get_index(L, p[0], yz) == idx, "lookup.forms");
    auto cell = ca.get_cell(L, p[0], p[1]);
#else
    vp_assert(AND(&lca.get_interval(one, p[1], p[2]) == &itv, &ca.get_interval(L, one, p[1], p[2]) == &itv), "lookup.forms");
    vp_assert(AND(lca.get_index(p[0], p[1], p[2]) == idx, ca.get_index(L, p[0], p[1], p[2]) == idx), "lookup.forms");
    vp_assert(ca.get_index(L, p[0], yz) == idx, "lookup.forms");
    auto cell = ca.get_cell(L, p[0], p[1], p[2]);
#endif
    vp_assert(&lca.get_interval(one, yz) == &itv, "lookup.forms");
    vp_assert(ca.get_index(L, p) == idx, "lookup.forms");
    auto cell2 = ca.get_cell(L, p);
    bool okc = AND(AND(cell.level == L, cell.index == idx), AND(cell2.level == L, cell2.index == idx));
    for (std::size_t d = 0; d < dim; ++d) okc = AND(okc, AND(cell.indices[d] == p[d], cell2.indices[d] == p[d]));
    vp_assert(okc, "lookup.get-cell");
#ifdef NUMBERING
    // two stored cells have different numbers; neighbours of a row are consecutive
    coord_t q = point(lq);
    auto rq   = find(ca[2 * lq + 1], q);
    if (rq < 0) return;
    auto iq   = ca[2 * lq + 1].get_index(q);
    bool same = lp == lq;
    for (std::size_t d = 0; d < dim; ++d) same = AND(same, p[d] == q[d]);
    vp_assert((idx == iq) == same, "numbering.injective");
    if (lp == lq && rq == row) vp_assert(iq - idx == q[0] - p[0], "numbering.contiguous-in-interval");
    vp_assert(IMP(lp < lq, idx < iq), "numbering.by-level");
    vp_observe_i(iq);
#endif
    vp_observe_i(idx);
}
