// C29: Gauss-Legendre quadrature over a cell and the L2 error of a field.
#include "freemesh.hpp"
#include "tree.hpp"
#include <samurai/mr/mesh.hpp>
#include <samurai/field.hpp>
#include <samurai/timers.hpp>
#include <samurai/numeric/gauss_legendre.hpp>
#include <samurai/numeric/error.hpp>
#include <cmath>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MODE
#define MODE 1 // 1 quadrature, 2 L2 error
#endif
#ifndef DEG0
#define DEG0 0
#endif
#ifndef DEG1
#define DEG1 3
#endif
#ifndef NC
#define NC 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef SOAL
#define SOAL false
#endif
constexpr std::size_t dim = DIM;
#if MODE == 1
using cell_t = Cell<dim, interval_t>;
static double ipow(double x, int k)
{
    double r = 1;
    for (int i = 0; i < k; ++i) r *= x;
    return r;
}
// integral of ((x - a)/h)^k over the cell, in one direction, divided by h (the polynomial is written around the cell's corner a)
template <std::size_t deg>
void one()
{
    static const double scales[] = {1., 2.5, 0.375};
    double s = scales[vp_concretize(vp_int(0, 2, "s"))];
    int l = (int)vp_concretize(vp_int(0, 2, "l"));
    typename cell_t::coords_t org;
    typename cell_t::indices_t ind;
    for (int d = 0; d < DIM; ++d) { org[d] = 0.25 - d; ind[d] = (int)vp_concretize(vp_int(-1, 1, "i")); }
    cell_t c(org, s, (std::size_t)l, ind, 0);
    const int D = (int)deg;
    // any polynomial of degree <= deg in each direction
    std::vector<std::array<int, 3>> mono;
    for (int k = 0; k <= (DIM > 2 ? D : 0); ++k) for (int j = 0; j <= (DIM > 1 ? D : 0); ++j) for (int i = 0; i <= D; ++i) mono.push_back({i, j, k});
    std::vector<std::array<double, NC>> co(mono.size());
    for (auto& q : co) for (auto& x : q) x = vp_real(8, "c") / 256;
    auto corner = c.corner();
    double h = c.length, vol = ipow(h, DIM);
    auto f = [&](const auto& x)
    {
        std::array<double, NC> r;
        r.fill(0.);
        for (std::size_t m = 0; m < mono.size(); ++m)
        {
            double p = 1;
            for (int d = 0; d < DIM; ++d) p *= ipow((x[d] - corner[d]) / h, mono[m][d]);
            for (std::size_t n = 0; n < NC; ++n) r[n] += co[m][n] * p;
        }
#if NC == 1
        return r[0];
#else
        xt::xtensor_fixed<double, xt::xshape<NC>> v;
        for (std::size_t n = 0; n < NC; ++n) v[n] = r[n];
        return v;
#endif
    };
    vp_select(1);
    GaussLegendre<deg> gl;
    auto got = gl.template quadrature<NC>(c, f);
    vp_select(0);
    for (std::size_t n = 0; n < NC; ++n)
    {
        double want = 0;
        for (std::size_t m = 0; m < mono.size(); ++m)
        {
            double w = vol;
            for (int d = 0; d < DIM; ++d) w /= mono[m][d] + 1;
            want += co[m][n] * w;
        }
#if NC == 1
        double g = got;
#else
        double g = got[n];
#endif
        vp_close(g, want, 1e-11, "quadrature.exact-on-polynomials");
    }
}
template <std::size_t... D>
void all(int which, std::index_sequence<D...>)
{
    ((which == (int)D ? one<DEG0 + D>() : void()), ...);
}
extern "C" void vp_main()
{
    int w = (int)vp_concretize(vp_int(0, DEG1 - DEG0, "deg"));
    all(w, std::make_index_sequence<DEG1 - DEG0 + 1>{});
}
#else
using mesh_t  = MRMesh<MRConfig<dim>>;
using field_t = Field<mesh_t, double, NC, SOAL>;
extern "C" void vp_main()
{
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MAXL;
    for (int d = 0; d < DIM; ++d) T.o[d] = (int)vp_concretize(vp_int(-1, 0, "o"));
    T.choose();
    typename Box<double, dim>::point_t org;
    for (int d = 0; d < DIM; ++d) org[d] = 0.25 + d;
    const double scale = 2.;
    typename mesh_t::cl_type cl(org, scale);
    T.fill(cl);
    vp_select(1);
    mesh_t mesh(cl, MINL, MAXL);
    field_t u("u", mesh);
    vp_select(0);
    // arbitrary values everywhere, ghosts included; the exact solution is an arbitrary affine function
    for (std::size_t q = 0; q < u.array().size(); ++q) u.array().data()[q] = vp_real(6, "u");
    double k[NC][DIM + 1];
    for (auto& r : k) for (auto& x : r) x = (double)vp_concretize(vp_int(-1, 1, "k"));
    auto ex = [&](std::size_t c, const auto& x)
    {
        double r = k[c][DIM];
        for (int d = 0; d < DIM; ++d) r += k[c][d] * (x[d] - org[d]) ;
        return r;
    };
    auto exact = [&](const auto& x)
    {
#if NC == 1
        return ex(0, x);
#else
        xt::xtensor_fixed<double, xt::xshape<NC>> v;
        for (std::size_t n = 0; n < NC; ++n) v[n] = ex(n, x);
        return v;
#endif
    };
    vp_select(1);
    double e = L2_error(u, exact);
    double er = L2_error<true>(u, exact);
    vp_select(0);
    double se = 0, ss = 0;
    for (int l = MINL; l <= MAXL; ++l)
        T.each(l, [&](const P3& p)
               {
                   if (!T.leaf(l, p)) return;
                   P3 g = T.glob(l, p);
                   double h = scale / (1 << l), v = 1;
                   std::array<double, DIM> x;
                   for (int d = 0; d < DIM; ++d) { x[d] = org[d] + h * g[d] + h / 2; v *= h; }
                   for (int c = 0; c < NC; ++c)
                   {
#if DIM == 1
                       double w = fval(u, c, l, g[0]);
#else
                       double w = fval(u, c, l, g[0], g[1]);
#endif
                       double t = ex(c, x) - w;
                       se += v * t * t;
                       ss += v * ex(c, x) * ex(c, x);
                   }
               });
    vp_assert(e == std::sqrt(se), "error.l2");
    vp_assume(ss > 0);
    vp_assert(er == std::sqrt(se) / std::sqrt(ss), "error.l2-relative");
}
#endif
