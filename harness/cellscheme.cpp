// C25: on any graded partition, with arbitrary stored values, a cell based scheme gives every leaf the value of its stencil
// there (linear: coefficients at the cell's length; non linear: any function of the stencil), nothing more and nothing less.
#include "freemesh.hpp"
#include "tree.hpp"
#include "fvall.hpp"
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef NX
#define NX 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef NZ
#define NZ 1
#endif
#ifndef NC
#define NC 1
#endif
#ifndef NOUT
#define NOUT 1
#endif
#ifndef NBW
#define NBW 1
#endif
#ifndef MODE
#define MODE 1 // 1 linear star, 2 non linear star, 3 linear with a stencil of its own, 4 identity, 5 zero
#endif
constexpr std::size_t dim = DIM;
using Config  = MRConfig<dim, (NBW > 1 ? NBW : 1), 1, 1>;
using mesh_t  = MRMesh<Config>;
using field_t = Field<mesh_t, double, NC, false>;

static double gen(int a, int b, int c, int d) { return (double)(((a * 7 + b * 13 + c * 5 + d * 3 + a * b * 11 + c * d * 17 + a * c * 19) % 23) - 11) / 4; }
static double hcoef(int k, int i, int j, double h) { return gen(1, k, i, j) + gen(j + 1, 2, k, i + 2) * h; }

extern "C" void vp_main()
{
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MAXL;
    T.n[0] = NX;
    if (DIM > 1) T.n[1] = NY;
    if (DIM > 2) T.n[2] = NZ;
    const int BN = 1 << 16;
    for (int d = 0; d < DIM; ++d) T.o[d] = vp_int(-BN, BN, "o");
#ifdef BUDGET
    T.budget = BUDGET;
#endif
#ifdef HOLES
    T.choose_holes();
#endif
    T.choose();
    typename mesh_t::cl_type cl;
    T.fill(cl);
    vp_select(1);
    mesh_t mesh(cl, MINL, MAXL);
    field_t u("u", mesh);
    vp_select(0);
    for (std::size_t q = 0; q < mesh.nb_cells() * NC; ++q) u.array().data()[q] = vp_real(10, "v");
    auto at = [&](auto& f, int c, int l, const P3& p) -> double&
    {
        P3 g = T.glob(l, p);
#if DIM == 1
        return fval(f, c, l, g[0]);
#elif DIM == 2
        return fval(f, c, l, g[0], g[1]);
#else
        return fval(f, c, l, g[0], g[1], g[2]);
#endif
    };
    auto loc = [&](const auto& cell)
    {
        P3 p{0, 0, 0};
        for (int d = 0; d < DIM; ++d) p[d] = (int)vp_concretize(cell.indices[d] - (T.o[d] << cell.level));
        return p;
    };
    (void)loc;
    using val = std::array<double, NOUT>;
    bool cells_ok = true;
    int calls = 0, leaves = 0;
    (void)cells_ok; (void)calls;
    // the star: left .. center .. right along x, then the other directions from the outside of each side inwards
#if MODE == 3
    std::vector<P3> st = {{1, 0, 0}, {0, 0, 0}, {0, DIM > 1 ? -1 : 0, 0}};
    if (DIM == 1) st[2][0] = -1;
    using cfg = CellBasedSchemeConfig<SchemeType::LinearHomogeneous, NOUT, 1, 3, 1, 0, 1, field_t>;
#else
    std::vector<P3> st;
    for (int k = -NBW; k <= NBW; ++k) st.push_back(P3{k, 0, 0});
    for (int ax = 1; ax < DIM; ++ax)
        for (int k = -NBW; k <= NBW; ++k) if (k) { P3 q{0, 0, 0}; q[ax] = k; st.push_back(q); }
    using cfg = StarStencilSchemeConfig<MODE == 2 ? SchemeType::NonLinear : SchemeType::LinearHomogeneous, NOUT, NBW, field_t>;
#endif
    auto shift = [](P3 p, const P3& v) { for (int d = 0; d < 3; ++d) p[d] += v[d]; return p; };
    (void)shift;
    vp_select(1);
#if MODE == 4
    auto scheme = make_identity<field_t>();
#elif MODE == 5
    auto scheme = make_zero_operator<NOUT, field_t>();
#else
    auto scheme = make_cell_based_scheme<cfg>("s");
#endif
    vp_select(0);
#if MODE == 1 || MODE == 3
    scheme.coefficients_func() = [&](double h)
    {
        StencilCoeffs<cfg> c;
        for (std::size_t k = 0; k < cfg::stencil_size; ++k)
#if NC == 1 && NOUT == 1
            c[k] = hcoef((int)k, 0, 0, h);
#else
            for (int i = 0; i < NOUT; ++i) for (int j = 0; j < NC; ++j) c[k](i, j) = hcoef((int)k, i, j, h);
#endif
        return c;
    };
#if MODE == 3
    Stencil<3, dim> own;
    own.fill(0);
    for (int k = 0; k < 3; ++k) for (int d = 0; d < DIM; ++d) own(k, d) = st[k][d];
    scheme.set_stencil(own);
#endif
    auto value = [&](int l, const P3& p)
    {
        val r{};
        double h = 1. / (1 << l);
        for (std::size_t k = 0; k < st.size(); ++k)
            for (int i = 0; i < NOUT; ++i) for (int j = 0; j < NC; ++j) r[i] += hcoef((int)k, i, j, h) * at(u, j, l, shift(p, st[k]));
        return r;
    };
#elif MODE == 2
    std::map<std::array<int, 4>, val> table;
    auto value = [&](int l, const P3& p) -> const val&
    {
        std::array<int, 4> k{l, p[0], p[1], p[2]};
        auto it = table.find(k);
        if (it == table.end())
        {
            val v;
            for (auto& x : v) x = vp_real(10, "S");
            it = table.emplace(k, v).first;
        }
        return it->second;
    };
    scheme.scheme_function() = [&](auto& cells, const field_t& w)
    {
        vp_select(0);
        calls++;
        if (&w != &u) cells_ok = false;
#if NBW == 0
        auto& c0 = cells;
#else
        auto& c0 = cells[NBW];
#endif
        P3 p  = loc(c0);
        int l = (int)c0.level;
#if NBW > 0
        for (std::size_t k = 0; k < st.size(); ++k)
        {
            bool s = (int)cells[k].level == l && loc(cells[k]) == shift(p, st[k]);
            if (!s) cells_ok = false;
            else cells_ok = AND(cells_ok, w.mesh().get_index(l, cells[k].indices) == cells[k].index);
        }
#endif
        SchemeValue<cfg> r;
        auto& v = value(l, p);
#if NOUT == 1
        r = v[0];
#else
        for (int i = 0; i < NOUT; ++i) r(i) = v[i];
#endif
        vp_select(1);
        return r;
    };
#elif MODE == 4
    auto value = [&](int l, const P3& p) { val r; for (int i = 0; i < NOUT; ++i) r[i] = at(u, i, l, p); return r; };
#else
    auto value = [&](int, const P3&) { return val{}; };
#endif
    vp_select(1);
    auto out = scheme(u);
    vp_select(0);
    bool ok = true;
    for (int l = MINL; l <= MAXL; ++l)
        T.each(l, [&](const P3& p)
               {
                   if (!T.leaf(l, p)) return;
                   leaves++;
                   val want = value(l, p);
                   for (int i = 0; i < NOUT; ++i) ok = AND(ok, at(out, i, l, p) == want[i]);
               });
    vp_assert(ok, "cellscheme.stencil-at-each-leaf");
#if MODE == 2
    vp_assert(cells_ok, "cellscheme.stencil-cells");
    vp_assert(calls == leaves, "cellscheme.once-per-leaf");
#endif
}
