// C27: operators compose linearly: for any values, (c A)(u) = c A(u), (-A)(u) = -A(u), (A + B)(u) = A(u) + B(u),
// (A - B)(u) = A(u) - B(u), whatever the kinds of A and B, and building a combination changes none of its operands.
#include "freemesh.hpp"
#include "tree.hpp"
#include "fvall.hpp"
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef NC
#define NC 1
#endif
#ifndef MODE
#define MODE 1
#endif
constexpr std::size_t dim = DIM;
using Config  = MRConfig<dim, 2, 1, 1>;
using mesh_t  = MRMesh<Config>;
using field_t = Field<mesh_t, double, NC, false>;

static double gen(int a, int b, int c, int d) { return (double)(((a * 7 + b * 13 + c * 5 + d * 3 + a * b * 11 + c * d * 17 + a * c * 19) % 23) - 11) / 4; }

template <class C>
static void put(C& c, int who, int ax, int k, double h)
{
#if NC == 1
    c = gen(who, ax, k, 1) + gen(ax, who + 1, 2, k) * h;
#else
    for (int i = 0; i < NC; ++i) for (int j = 0; j < NC; ++j) c(i, j) = gen(who, ax + i, k, j) + gen(ax + j, who + 1, i, k) * h;
#endif
}
template <std::size_t ss>
static auto linhom(int who)
{
    using cfg = FluxConfig<SchemeType::LinearHomogeneous, NC, ss, field_t>;
    FluxDefinition<cfg> def;
    for (std::size_t ax = 0; ax < dim; ++ax)
        def[ax].cons_flux_function = [=](double h)
        {
            FluxStencilCoeffs<cfg> c;
            for (std::size_t k = 0; k < ss; ++k) put(c[k], who, (int)ax, (int)k, h);
            return c;
        };
    return make_flux_based_scheme(def);
}
template <std::size_t ss>
static auto linhet(int who)
{
    using cfg = FluxConfig<SchemeType::LinearHeterogeneous, NC, ss, field_t>;
    FluxDefinition<cfg> def;
    for (std::size_t ax = 0; ax < dim; ++ax)
        def[ax].cons_flux_function = [=](auto& cells)
        {
            FluxStencilCoeffs<cfg> c;
            for (std::size_t k = 0; k < ss; ++k) put(c[k], who, (int)ax, (int)k, cells[0].length);
            return c;
        };
    return make_flux_based_scheme(def);
}
template <std::size_t ss>
static auto nonlin(int who, bool pair)
{
    using cfg = FluxConfig<SchemeType::NonLinear, NC, ss, field_t>;
    FluxDefinition<cfg> def;
    for (std::size_t ax = 0; ax < dim; ++ax)
    {
        auto f = [=](auto& cells, const field_t& w)
        {
            FluxValue<cfg> r = gen(who, (int)ax, 0, 3) * w[cells[0]] + gen(who, (int)ax, 2, 5) * w[cells[ss - 1]];
            return r;
        };
        if (!pair) def[ax].cons_flux_function = f;
        else
            def[ax].flux_function = [=](auto& cells, const field_t& w)
            {
                FluxValuePair<cfg> r;
                r[0] = f(cells, w);
                r[1] = 3. * w[cells[0]];
                return r;
            };
    }
    return make_flux_based_scheme(def);
}
template <std::size_t nbw>
static auto celllin(int who)
{
    using cfg   = StarStencilSchemeConfig<SchemeType::LinearHomogeneous, NC, nbw, field_t>;
    auto scheme = make_cell_based_scheme<cfg>("c");
    scheme.coefficients_func() = [=](double h)
    {
        StencilCoeffs<cfg> c;
        for (std::size_t k = 0; k < cfg::stencil_size; ++k) put(c[k], who, 5, (int)k, h);
        return c;
    };
    return scheme;
}
template <std::size_t nbw>
static auto cellnon(int who)
{
    using cfg   = StarStencilSchemeConfig<SchemeType::NonLinear, NC, nbw, field_t>;
    auto scheme = make_cell_based_scheme<cfg>("n");
    auto f = [=](auto& cells, const auto& w)
    {
        SchemeValue<cfg> r;
        if constexpr (nbw == 0) r = gen(who, 2, 0, 3) * w[cells];
        else r = gen(who, 2, 0, 3) * w[cells[0]] + gen(who, 1, 0, 7) * w[cells[1]];
        return r;
    };
    scheme.set_scheme_function(f);
    return scheme;
}

extern "C" void vp_main()
{
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MAXL;
    for (int d = 0; d < DIM; ++d) T.o[d] = vp_int(-(1 << 16), 1 << 16, "o");
#ifdef BUDGET
    T.budget = BUDGET;
#endif
    T.choose();
    typename mesh_t::cl_type cl;
    T.fill(cl);
    mesh_t mesh(cl, MINL, MAXL);
    field_t u("u", mesh);
    for (std::size_t q = 0; q < mesh.nb_cells() * NC; ++q) u.array().data()[q] = vp_real(10, "v");
    auto at = [&](auto& f, int c, int l, const P3& p) -> double&
    {
        P3 g = T.glob(l, p);
#if DIM == 1
        return fval(f, c, l, g[0]);
#else
        return fval(f, c, l, g[0], g[1]);
#endif
    };
    static const double scal[5] = {-2, 0, 1, 0.5, -1};
    double s = scal[vp_concretize(vp_int(0, 4, "scalar"))];
    // want = x * a + y * b on every leaf
    auto same = [&](auto&& got, double x, auto& a, double y, auto& b)
    {
        bool ok = true;
        for (int l = MINL; l <= MAXL; ++l)
            T.each(l, [&](const P3& p)
                   {
                       if (!T.leaf(l, p)) return;
                       for (int c = 0; c < NC; ++c) ok = AND(ok, at(got, c, l, p) == x * at(a, c, l, p) + y * at(b, c, l, p));
                   });
        return ok;
    };
#if MODE == 1
    auto A = linhom<2>(1);
    auto Bs = linhom<2>(2);
#elif MODE == 2
    auto A = linhom<2>(1);
    auto Bs = linhom<4>(2);
#elif MODE == 3
    auto A = linhom<2>(1);
    auto Bs = linhet<2>(2);
#elif MODE == 4
    auto A = nonlin<2>(1, false);
    auto Bs = nonlin<2>(2, false);
#elif MODE == 5
    auto A = nonlin<4>(1, true);
    auto Bs = nonlin<4>(2, true);
#elif MODE == 6
    auto A = linhom<2>(1);
    auto Bs = nonlin<2>(2, true);
#elif MODE == 7
    auto A = linhom<2>(1);
    auto Bs = celllin<1>(2);
#elif MODE == 8
    auto A = cellnon<0>(1);
    auto Bs = nonlin<2>(2, false);
#elif MODE == 9
    auto A = celllin<1>(1);
    auto Bs = celllin<1>(2);
#elif MODE == 10
    auto A = celllin<0>(1);
    auto Bs = cellnon<0>(2);
#elif MODE == 11
    auto A = cellnon<1>(1);
    auto Bs = cellnon<1>(2);
#elif MODE == 12
    auto A = linhet<2>(1);
    auto Bs = linhet<2>(2);
#elif MODE == 13
    auto A = make_diffusion_order2<field_t>(2.);
    auto Bs = make_identity<field_t>();
#endif
    vp_select(1);
    auto a = A(u), b = Bs(u);
    auto sA = s * A;
    auto nA = -A;
    auto sB = s * Bs;
    auto nB = -Bs;
    auto sum = A + Bs;
    auto ra = sA(u), rn = nA(u), rb = sB(u), rm = nB(u), rs = sum(u);
    auto ssum = s * sum;
    auto rss  = ssum(u);
    vp_select(0);
    vp_assert(same(ra, s, a, 0, b), "algebra.scalar-left");
    vp_assert(same(rb, 0, a, s, b), "algebra.scalar-right");
    vp_assert(same(rn, -1, a, 0, b), "algebra.minus-left");
    vp_assert(same(rm, 0, a, -1, b), "algebra.minus-right");
    vp_assert(same(rs, 1, a, 1, b), "algebra.sum");
    vp_assert(same(rss, s, a, s, b), "algebra.scalar-sum");
    vp_select(1);
    auto rs2 = sum(u);
    auto rsw = (s * (A + Bs))(u);
    vp_select(0);
    vp_assert(same(rs2, 1, a, 1, b), "algebra.sum-unchanged");
    vp_assert(same(rsw, s, a, s, b), "algebra.scalar-of-temporary");
#if MODE == 7 || MODE == 8 || MODE == 9 || MODE == 10 || MODE == 11 || MODE == 13
    {
        vp_select(1);
        auto d  = A - Bs;
        auto rd = d(u);
        vp_select(0);
        vp_assert(same(rd, 1, a, -1, b), "algebra.difference");
    }
#endif
#if MODE == 7 || MODE == 13
    {
        // a sum of operators plus a further cell based operator, of a kind already in it or not
#if MODE == 13
        auto C2 = make_identity<field_t>();
#else
        auto C2 = celllin<1>(3);
#endif
        auto D = cellnon<0>(4);
        vp_select(1);
        auto c = C2(u), e = D(u);
        auto s3 = sum + C2;
        auto r3 = s3(u);
        auto r4 = sum(u);
        auto s5 = sum + D;
        auto r5 = s5(u);
        auto s6 = D + sum;
        auto r6 = s6(u);
        auto s7 = sum - D;
        auto r7 = s7(u);
        vp_select(0);
        vp_assert(same(r4, 1, a, 1, b), "algebra.operand-unchanged");
        auto ab = a;
        for (int l = MINL; l <= MAXL; ++l) T.each(l, [&](const P3& p) { if (T.leaf(l, p)) for (int k = 0; k < NC; ++k) at(ab, k, l, p) = at(a, k, l, p) + at(b, k, l, p); });
        vp_assert(same(r3, 1, ab, 1, c), "algebra.sum-of-three");
        vp_assert(same(r5, 1, ab, 1, e), "algebra.sum-of-three-kinds");
        vp_assert(same(r6, 1, ab, 1, e), "algebra.sum-of-three-kinds-left");
        vp_assert(same(r7, 1, ab, -1, e), "algebra.sum-minus");
    }
#endif
    {
        // the operands still are what they were
        vp_select(1);
        auto a2 = A(u), b2 = Bs(u);
        vp_select(0);
        vp_assert(AND(same(a2, 1, a, 0, b), same(b2, 0, a, 1, b)), "algebra.operands-unchanged");
    }
}
