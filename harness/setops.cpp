// Set algebra on one or several levels: the emitted cells are exactly those of the pointwise boolean
// combination of the (translated) sets, each projected on the level of the result; each is emitted once.
#include "hcommon.hpp"
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef SEGS
#define SEGS 2
#endif
#ifndef ROWS
#define ROWS 2
#endif
#ifndef LMAX
#define LMAX 0 // levels of the sets: 0..LMAX, level of the result 0..LMAX+1
#endif
#ifndef BND
#define BND (1 << 20)
#endif
#ifndef LEAVES
#define LEAVES 2
#endif
#ifndef OPLO
#define OPLO 0
#endif
#ifndef OPHI
#define OPHI (LEAVES == 2 ? 6 : 7)
#endif
#ifndef TRANSLATE
#define TRANSLATE 0
#endif
#ifndef SEGS1
#define SEGS1 SEGS
#endif
#ifndef SEL
#define SEL 1
#endif
#ifndef ROWS1
#define ROWS1 ROWS
#endif
#ifndef ROWSZ
#define ROWSZ ROWS
#endif
#ifndef ROWSZ1
#define ROWSZ1 ROWS1
#endif
constexpr std::size_t dim = DIM;
using vec_t = xt::xtensor_fixed<int, xt::xshape<dim>>;

extern "C" void vp_main()
{
    int lv[3] = {1, 1, 1}, com = 0;
    std::vector<SymSet<dim>> S;
    std::vector<Lca<dim>> l;
    int op = (int)vp_concretize(vp_int(OPLO, OPHI, "op"));
    for (int k = 0; k < LEAVES; ++k)
    {
        if (LMAX) lv[k] = (int)vp_concretize(vp_int(0, LMAX, "l"));
        com = lv[k] > com ? lv[k] : com;
    }
    int ref = LMAX ? (int)vp_concretize(vp_int(0, LMAX + 1, "ref")) : 1;
    std::array<int, dim> org;
    org.fill(0);
#ifdef ORIGIN
    for (std::size_t d = 1; d < dim; ++d) org[d] = vp_int(-1000, 1000, "oy");
#endif
    for (int k = 0; k < LEAVES; ++k)
    {
        std::array<int, dim> n, o = org;
        n.fill(k ? ROWS1 : ROWS);
        if (DIM == 3) n[DIM - 1] = k ? ROWSZ1 : ROWSZ;
#ifdef OFFSETS
        if (k) for (std::size_t d = 1; d < dim; ++d) o[d] += (int)vp_concretize(vp_int(-1, 1, "dy"));
#endif
        S.push_back(sym_rows<dim>(lv[k], k ? SEGS1 : SEGS, -BND, BND, n, o));
    }
    for (int k = 0; k < LEAVES; ++k) l.push_back(S[k].lca());
    vec_t t;
    t.fill(0);
    if (TRANSLATE)
    {
        t[0] = vp_int(-BND, BND, "tx");
        for (std::size_t d = 1; d < dim; ++d) t[d] = (int)vp_concretize(vp_int(-TRANSLATE, TRANSLATE, "ty"));
        for (auto& x : S[1].s) { x.a += t[0]; x.b += t[0]; for (std::size_t d = 1; d < dim; ++d) x.yz[d] += t[d]; }
    }
    int L = ref < com ? ref : com;
    Counter<dim> c;
    c.p = sym_point<dim>(-(BND << 3), BND << 3);
    pt_t<dim> q = c.p;
    for (auto& x : q) x >>= (ref - L);
    bool in[3] = {false, false, false};
    for (int k = 0; k < LEAVES; ++k) in[k] = S[k].in_on(q, L);
    bool want = false, unsorted = false, touching = false;
    auto run = [&](auto& set)
    {
        vp_select(SEL);
        set(c);
        vp_assert(set.level() == (std::size_t)ref, "set.level");
        int first = c.n;
        unsorted = c.unsorted;
        touching = c.touching;
        c.n = 0;
        set(c); // a set can be applied again
        vp_select(0);
        vp_assert(first == c.n, "set.reusable");
    };
    auto cb = [&](auto&& x) { if (LMAX) { auto s = x.on((std::size_t)ref); run(s); } else run(x); };
    auto& a = l[0];
    auto& b0 = l[1];
#if TRANSLATE
    auto b = translate(b0, t);
#else
    auto& b = b0;
#endif
#if LEAVES == 2
    switch (op)
    {
        case 0: cb(intersection(a, b)); want = AND(in[0], in[1]); break;
        case 1: cb(union_(a, b)); want = OR(in[0], in[1]); break;
        case 2: cb(difference(a, b)); want = AND(in[0], !in[1]); break;
        case 3: cb(difference(union_(a, b), intersection(a, b))); want = in[0] != in[1]; break;
        case 4: cb(union_(difference(a, b), difference(b, a))); want = in[0] != in[1]; break;
        case 5: cb(intersection(union_(a, b), b)); want = in[1]; break;
        default: cb(difference(b, a)); want = AND(in[1], !in[0]); break;
    }
#else
    auto& d = l[2];
    switch (op)
    {
        case 0: cb(intersection(a, b, d)); want = AND(AND(in[0], in[1]), in[2]); break;
        case 1: cb(union_(a, b, d)); want = OR(OR(in[0], in[1]), in[2]); break;
        case 2: cb(difference(a, union_(b, d))); want = AND(in[0], !OR(in[1], in[2])); break;
        case 3: cb(intersection(a, union_(b, d))); want = AND(in[0], OR(in[1], in[2])); break;
        case 4: cb(intersection(difference(a, b), d)); want = AND(AND(in[0], !in[1]), in[2]); break;
        case 5: cb(difference(difference(a, b), d)); want = AND(AND(in[0], !in[1]), !in[2]); break;
        case 6: cb(difference(a, difference(b, d))); want = AND(in[0], !AND(in[1], !in[2])); break;
        default: cb(difference(a, b, d)); want = AND(in[0], !OR(in[1], in[2])); break;
    }
#endif
    vp_assert(!c.bad, "set.valid-intervals");
    vp_assert(OR(ref > com, !unsorted), "set.sorted"); // evaluated on a finer level, each coarse row is expanded on its own
    vp_assert(!touching, "set.maximal");
    vp_assert(c.n == (want ? 1 : 0), "set.pointwise");
    if (c.n) vp_cover("emitted");
    vp_observe_i(c.n); vp_observe_i(c.emits);
}
