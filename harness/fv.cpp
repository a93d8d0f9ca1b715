// C24: on any graded partition, with arbitrary stored values (ghosts included), a flux based scheme gives every leaf the sum
// over its faces of the flux of that face, computed once per face from the cells of the finer level, weighted by face / cell
// measure, with opposite signs on the two sides.
#include "freemesh.hpp"
#include "tree.hpp"
#include <samurai/mr/mesh.hpp>
#include "fvall.hpp"
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef NX
#define NX 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef NZ
#define NZ 1
#endif
#ifndef NC
#define NC 1
#endif
#ifndef NOUT
#define NOUT 1
#endif
#ifndef SOAL
#define SOAL false
#endif
#ifndef SSZ
#define SSZ 2
#endif
#ifndef WIDTH
#define WIDTH (MODE >= 18 ? 3 : SSZ / 2)
#endif
#ifndef MODE
#define MODE 1 // 1 linear homogeneous, 2 linear heterogeneous, 3 non linear conservative, 4 non linear with a pair of fluxes, 10.. provided operators
#endif
constexpr std::size_t dim = DIM;
using Config  = MRConfig<dim, WIDTH, 1, 1>;
using mesh_t  = MRMesh<Config>;
using id_t_   = typename mesh_t::mesh_id_t;
using field_t = Field<mesh_t, double, NC, SOAL>;

// generic dyadic coefficients
static double gen(int a, int b, int c, int d) { return (double)(((a * 7 + b * 13 + c * 5 + d * 3 + a * b * 11 + c * d * 17 + a * c * 19) % 23) - 11) / 4; }
static double hcoef(int ax, int k, int i, int j, double h) { return gen(ax, k, i, j) + gen(j + 1, ax, k, i + 2) * h; }
static const int stshift[6] = {1, -1, 0, 2, 3, -2}; // a shuffled line stencil

extern "C" void vp_main()
{
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MAXL;
    T.n[0] = NX;
    if (DIM > 1) T.n[1] = NY;
    if (DIM > 2) T.n[2] = NZ;
    const int BN = 1 << 16;
    for (int d = 0; d < DIM; ++d) T.o[d] = vp_int(-BN, BN, "o");
#ifdef BUDGET
    T.budget = BUDGET;
#endif
#ifdef HOLES
    T.choose_holes();
#endif
    T.choose();
    typename mesh_t::cl_type cl;
    T.fill(cl);
    vp_select(1);
    mesh_t mesh(cl, MINL, MAXL);
    field_t u("u", mesh);
    vp_select(0);
    #if MODE == 18 || MODE == 19 || MODE == 20 // WENO5: the weights are rational functions of degree 16; the values are fixed, and of all magnitudes of variation
    for (std::size_t q = 0; q < mesh.nb_cells() * NC; ++q) u.array().data()[q] = (double)((int)((q * 7919 + 104729) % 1009) - 504) / 256 * (q % 3 == 0 ? 1. / 128 : 1.);
#else
    for (std::size_t q = 0; q < mesh.nb_cells() * NC; ++q) u.array().data()[q] = vp_real(10, "v");
#endif
    auto at = [&](auto& f, int c, int l, const P3& p) -> double&
    {
        P3 g = T.glob(l, p);
#if DIM == 1
        return fval(f, c, l, g[0]);
#elif DIM == 2
        return fval(f, c, l, g[0], g[1]);
#else
        return fval(f, c, l, g[0], g[1], g[2]);
#endif
    };
    auto loc = [&](const auto& cell)
    {
        P3 p{0, 0, 0};
        for (int d = 0; d < DIM; ++d) p[d] = (int)vp_concretize(cell.indices[d] - (T.o[d] << cell.level));
        return p;
    };
    (void)loc;
    auto shift = [](P3 p, int ax, int s) { p[ax] += s; return p; };
    using val = std::array<double, NOUT>;
    bool cells_ok = true;
    (void)cells_ok;

    // ---- the scheme, and what the two sides of a face receive: flux(ax, level, left cell) -> (left, right)
#if MODE == 1
    using cfg = FluxConfig<SchemeType::LinearHomogeneous, NOUT, SSZ, field_t>;
    FluxDefinition<cfg> def;
    auto setcoef = [](auto& c, int ax, int k, double h)
    {
        if constexpr (NOUT == 1 && NC == 1) c = hcoef(ax, k, 0, 0, h);
        else
            for (int i = 0; i < NOUT; ++i)
                for (int j = 0; j < NC; ++j) c(i, j) = hcoef(ax, k, i, j, h);
    };
    int st[SSZ];
    for (int k = 0; k < SSZ; ++k) st[k] = k - SSZ / 2 + 1;
#ifdef SHUFFLE
    for (int k = 0; k < SSZ; ++k) st[k] = stshift[k];
#endif
    for (std::size_t ax = 0; ax < dim; ++ax)
    {
#ifdef SHUFFLE
        def[ax].stencil.fill(0);
        for (int k = 0; k < SSZ; ++k) def[ax].stencil(k, ax) = st[k];
#endif
        def[ax].cons_flux_function = [=](double h)
        {
            FluxStencilCoeffs<cfg> c;
            for (int k = 0; k < SSZ; ++k) setcoef(c[k], (int)ax, k, h);
            return c;
        };
    }
    auto scheme = make_flux_based_scheme(def);
    auto flux   = [&](int ax, int l, const P3& left)
    {
        double h = 1. / (1 << l);
        std::array<val, 2> r;
        for (int i = 0; i < NOUT; ++i)
        {
            double s = 0;
            for (int k = 0; k < SSZ; ++k)
                for (int j = 0; j < NC; ++j) s += hcoef(ax, k, i, j, h) * at(u, j, l, shift(left, ax, st[k]));
            r[0][i] = s; r[1][i] = -s;
        }
        return r;
    };
#elif MODE == 2
    using cfg = FluxConfig<SchemeType::LinearHeterogeneous, NOUT, SSZ, field_t>;
    FluxDefinition<cfg> def;
    auto coef = [](int ax, int k, int i, int j, int l, const P3& left) { return gen(ax + l, k + left[0], i + left[1], j + 2 * left[2] + left[0]) + hcoef(ax, k, i, j, 1. / (1 << l)); };
    for (std::size_t ax = 0; ax < dim; ++ax)
        def[ax].cons_flux_function = [&, ax](auto& cells)
        {
            vp_select(0);
            FluxStencilCoeffs<cfg> c;
            const int o = SSZ / 2 - 1; // position of the left cell of the face
            P3 left = loc(cells[o]);
            int l = (int)cells[o].level;
            for (int k = 0; k < SSZ; ++k)
            {
                if ((int)cells[k].level != l || loc(cells[k]) != shift(left, (int)ax, k - o)) cells_ok = false;
#if NOUT == 1 && NC == 1
                c[k] = coef((int)ax, k, 0, 0, l, left);
#else
                for (int i = 0; i < NOUT; ++i)
                    for (int j = 0; j < NC; ++j) c[k](i, j) = coef((int)ax, k, i, j, l, left);
#endif
            }
            vp_select(1);
            return c;
        };
    auto scheme = make_flux_based_scheme(def);
    auto flux   = [&](int ax, int l, const P3& left)
    {
        std::array<val, 2> r;
        for (int i = 0; i < NOUT; ++i)
        {
            double s = 0;
            for (int k = 0; k < SSZ; ++k)
                for (int j = 0; j < NC; ++j) s += coef(ax, k, i, j, l, left) * at(u, j, l, shift(left, ax, k - SSZ / 2 + 1));
            r[0][i] = s; r[1][i] = -s;
        }
        return r;
    };
#elif MODE == 3 || MODE == 4
    // any flux function: an arbitrary value per face
    using cfg = FluxConfig<SchemeType::NonLinear, NOUT, SSZ, field_t>;
    FluxDefinition<cfg> def;
    std::map<std::array<int, 5>, std::array<val, 2>> table;
    auto face = [&](int ax, int l, const P3& left) -> const std::array<val, 2>&
    {
        std::array<int, 5> k{ax, l, left[0], left[1], left[2]};
        auto it = table.find(k);
        if (it == table.end())
        {
            std::array<val, 2> v;
            for (int i = 0; i < NOUT; ++i) v[0][i] = vp_real(10, "F");
            for (int i = 0; i < NOUT; ++i) v[1][i] = MODE == 3 ? -v[0][i] : vp_real(10, "G");
            it = table.emplace(k, v).first;
        }
        return it->second;
    };
    auto pack = [](const val& v)
    {
        FluxValue<cfg> r;
#if NOUT == 1
        r = v[0];
#else
        for (int i = 0; i < NOUT; ++i) r(i) = v[i];
#endif
        return r;
    };
    for (std::size_t ax = 0; ax < dim; ++ax)
    {
        auto f = [&, ax](auto& cells, const field_t& w)
        {
            vp_select(0);
            if (&w != &u) cells_ok = false;
            const int o = SSZ / 2 - 1;
            P3 left = loc(cells[o]);
            int l = (int)cells[o].level;
            for (int k = 0; k < SSZ; ++k)
                if ((int)cells[k].level != l || loc(cells[k]) != shift(left, (int)ax, k - o)) cells_ok = false;
                else cells_ok = AND(cells_ok, w.mesh().get_index(l, cells[k].indices) == cells[k].index);
            auto& t = face((int)ax, l, left);
            vp_select(1);
            return t;
        };
#if MODE == 3
        def[ax].cons_flux_function = [=](auto& cells, const field_t& w) { return pack(f(cells, w)[0]); };
#else
        def[ax].flux_function = [=](auto& cells, const field_t& w)
        {
            auto t = f(cells, w);
            FluxValuePair<cfg> r;
            r[0] = pack(t[0]); r[1] = pack(t[1]);
            return r;
        };
#endif
    }
    auto scheme = make_flux_based_scheme(def);
    auto flux   = [&](int ax, int l, const P3& left) { return face(ax, l, left); };
#elif MODE == 10 // diffusion, one coefficient per direction
    DiffCoeff<dim> K;
    for (std::size_t d = 0; d < dim; ++d) K(d) = d == 0 ? 0.5 : d == 1 ? 3. : 1.25;
#ifdef UNIT
    K.fill(1.);
    auto scheme = make_laplacian_order2<field_t>();
    double sign = 1;
#else
    auto scheme = make_diffusion_order2<field_t>(K);
    double sign = -1;
#endif
    auto flux   = [&](int ax, int l, const P3& left)
    {
        std::array<val, 2> r;
        for (int i = 0; i < NOUT; ++i)
        {
            r[0][i] = sign * K(ax) * (at(u, i, l, shift(left, ax, 1)) - at(u, i, l, left)) * (1 << l);
            r[1][i] = -r[0][i];
        }
        return r;
    };
#elif MODE == 11 // diffusion, one coefficient per component
    DiffCoeff<NC> K;
    for (int c = 0; c < NC; ++c) K(c) = c == 0 ? 0.5 : 3;
    auto scheme = make_multi_diffusion_order2<field_t>(K);
    auto flux   = [&](int ax, int l, const P3& left)
    {
        std::array<val, 2> r;
        for (int i = 0; i < NOUT; ++i)
        {
            r[0][i] = -K(i) * (at(u, i, l, shift(left, ax, 1)) - at(u, i, l, left)) * (1 << l);
            r[1][i] = -r[0][i];
        }
        return r;
    };
#elif MODE == 12 // gradient
    auto scheme = make_gradient_order2<field_t>();
    auto flux   = [&](int ax, int l, const P3& left)
    {
        std::array<val, 2> r;
        for (int i = 0; i < NOUT; ++i)
        {
            r[0][i] = i == ax ? (at(u, 0, l, shift(left, ax, 1)) + at(u, 0, l, left)) / 2 : 0;
            r[1][i] = -r[0][i];
        }
        return r;
    };
#elif MODE == 13 // divergence
    auto scheme = make_divergence_order2<field_t>();
    auto flux   = [&](int ax, int l, const P3& left)
    {
        std::array<val, 2> r;
        r[0][0] = (at(u, ax, l, shift(left, ax, 1)) + at(u, ax, l, left)) / 2;
        r[1][0] = -r[0][0];
        return r;
    };
#elif MODE == 14 // convection by a constant velocity of any sign
    VelocityVector<dim> a;
    for (std::size_t d = 0; d < dim; ++d) { static const double c[3] = {-2, 0, 0.5}; a(d) = c[vp_concretize(vp_int(0, 2, "vel"))]; }
    auto scheme = make_convection_upwind<field_t>(a);
    auto flux   = [&](int ax, int l, const P3& left)
    {
        std::array<val, 2> r;
        for (int i = 0; i < NOUT; ++i)
        {
            r[0][i] = a(ax) * at(u, i, l, a(ax) >= 0 ? left : shift(left, ax, 1));
            r[1][i] = -r[0][i];
        }
        return r;
    };
#elif MODE == 15 // convection by a velocity field, the velocity of a face is that of its left cell
    Field<mesh_t, double, DIM, false> a("a", mesh);
    auto vel = [](int ax, int l, const P3& p) { return (double)((p[0] * 3 + p[1] * 5 + p[2] * 7 + ax + 2 * l + 1000) % 5 - 2) / 2; };
    for (int l = 0; l <= MAXL + 1; ++l)
        if (l <= MAXL)
            for (auto& p : T.stored(l, mesh[id_t_::reference][l]))
                for (int ax = 0; ax < DIM; ++ax) at(a, ax, l, p) = vel(ax, l, p);
    auto scheme = make_convection_upwind<field_t>(a);
    auto flux   = [&](int ax, int l, const P3& left)
    {
        std::array<val, 2> r;
        for (int i = 0; i < NOUT; ++i)
        {
            double v = vel(ax, l, left);
            r[0][i] = v * at(u, i, l, v >= 0 ? left : shift(left, ax, 1));
            r[1][i] = -r[0][i];
        }
        return r;
    };
#elif MODE == 17 // convection of the field by itself: f(u) = u_ax u, upwinded by the left value
    auto scheme = make_convection_upwind<field_t>();
    auto flux   = [&](int ax, int l, const P3& left)
    {
        std::array<val, 2> r;
        const int c = NC == 1 ? 0 : ax;
        P3 from = at(u, c, l, left) >= 0 ? left : shift(left, ax, 1);
        for (int i = 0; i < NOUT; ++i)
        {
            r[0][i] = at(u, c, l, from) * at(u, i, l, from);
            r[1][i] = -r[0][i];
        }
        return r;
    };
#elif MODE == 16 // diffusion by a field of coefficients that happens to be constant
    DiffCoeff<dim> K;
    for (std::size_t d = 0; d < dim; ++d) K(d) = d == 0 ? 0.5 : d == 1 ? 3. : 1.25;
    auto KF = make_field<DiffCoeff<dim>, 1>("K", mesh);
    KF.fill(K);
    auto scheme = make_diffusion_order2<field_t>(KF);
    auto flux   = [&](int ax, int l, const P3& left)
    {
        std::array<val, 2> r;
        for (int i = 0; i < NOUT; ++i)
        {
            r[0][i] = -K(ax) * (at(u, i, l, shift(left, ax, 1)) - at(u, i, l, left)) * (1 << l);
            r[1][i] = -r[0][i];
        }
        return r;
    };
#elif MODE == 18 || MODE == 19 || MODE == 20 // WENO5: constant velocity, velocity field, the field itself
    auto jiang_shu = [](const double* f) // f[0..4], the flux at the interface between f[2] and f[3]
    {
        auto sq  = [](double x) { return x * x; };
        double p[3] = {(2 * f[0] - 7 * f[1] + 11 * f[2]) / 6, (-f[1] + 5 * f[2] + 2 * f[3]) / 6, (2 * f[2] + 5 * f[3] - f[4]) / 6};
        double b[3] = {13. / 12 * sq(f[0] - 2 * f[1] + f[2]) + sq(f[0] - 4 * f[1] + 3 * f[2]) / 4,
                       13. / 12 * sq(f[1] - 2 * f[2] + f[3]) + sq(f[1] - f[3]) / 4,
                       13. / 12 * sq(f[2] - 2 * f[3] + f[4]) + sq(3 * f[2] - 4 * f[3] + f[4]) / 4};
        double g[3] = {1, 6, 3}, n = 0, w = 0;
        for (int k = 0; k < 3; ++k)
        {
            double a = g[k] / sq(1e-6 + b[k]);
            n += a * p[k];
            w += a;
        }
        return n / w;
    };
#if MODE == 18
    VelocityVector<dim> a;
    for (std::size_t d = 0; d < dim; ++d) { static const double c[3] = {-2, 0, 0.5}; a(d) = c[vp_concretize(vp_int(0, 2, "vel"))]; }
    auto scheme = make_convection_weno5<field_t>(a);
    auto velo   = [&](int ax, int, const P3&) { return a(ax); };
#elif MODE == 19
    Field<mesh_t, double, DIM, false> a("a", mesh);
    auto velo = [](int ax, int l, const P3& p) { return (double)((p[0] * 3 + p[1] * 5 + p[2] * 7 + ax + 2 * l + 1000) % 5 - 2) / 2; };
    for (int l = 0; l <= MAXL; ++l)
        for (auto& p : T.stored(l, mesh[id_t_::reference][l]))
            for (int ax = 0; ax < DIM; ++ax) at(a, ax, l, p) = velo(ax, l, p);
    auto scheme = make_convection_weno5<field_t>(a);
#else
    auto scheme = make_convection_weno5<field_t>();
    auto velo   = [&](int ax, int l, const P3& p) { return at(u, NC == 1 ? 0 : ax, l, p); };
#endif
    auto flux = [&](int ax, int l, const P3& left)
    {
        std::array<val, 2> r;
        double v = velo(ax, l, left);
        for (int i = 0; i < NOUT; ++i)
        {
            double f[5];
            for (int k = 0; k < 5; ++k) // from the upwind side
            {
                P3 q = shift(left, ax, v >= 0 ? k - 2 : 3 - k);
                f[k] = (MODE == 20 ? velo(ax, l, q) : v) * at(u, i, l, q);
            }
            r[0][i] = jiang_shu(f);
            r[1][i] = -r[0][i];
        }
        return r;
    };
#endif
    bool bflux = true;
#ifdef NOBDRY
    bflux = false;
#endif
    int only = -1;
#ifdef BYDIR
    only = (int)vp_concretize(vp_int(0, DIM - 1, "dir"));
#endif
    vp_select(1);
    scheme.include_boundary_fluxes(bflux);
#ifdef BYDIR
    auto out = scheme(static_cast<std::size_t>(only), u);
#else
    auto out = scheme(u);
#endif
    vp_select(0);
    bool ok = true;
    for (int l = MINL; l <= MAXL; ++l)
        T.each(l, [&](const P3& p)
               {
                   if (!T.leaf(l, p)) return;
                   val want{};
                   auto add = [&](const val& v, double w) { for (int i = 0; i < NOUT; ++i) want[i] += w * v[i]; };
                   for (int ax = 0; ax < DIM; ++ax)
                   {
                       if (only >= 0 && only != ax) continue;
                       for (int s = 0; s < 2; ++s) // 0: face in the positive direction, 1: negative
                       {
                           P3 q = shift(p, ax, s ? -1 : 1);
                           if (!T.in_domain(l, q))
                           {
                               if (bflux) add(flux(ax, l, s ? q : p)[s], 1 << l);
                           }
                           else if (T.covered(l, q) && !T.leaf(l, q)) // finer neighbour: 2^(dim-1) faces of size h/2
                           {
                               for (int c = 0; c < (1 << (DIM - 1)); ++c)
                               {
                                   P3 f{0, 0, 0};
                                   int b = 0;
                                   for (int d = 0; d < DIM; ++d) f[d] = d == ax ? (s ? 2 * p[d] : 2 * p[d] + 2) - 1 : 2 * p[d] + ((c >> b++) & 1);
                                   add(flux(ax, l + 1, f)[s], (double)(1 << l) / (1 << (DIM - 1)));
                               }
                           }
                           else add(flux(ax, l, s ? q : p)[s], 1 << l);
                       }
                   }
                   #if MODE >= 18
                   for (int i = 0; i < NOUT; ++i) ok = AND(ok, std::abs(at(out, i, l, p) - want[i]) <= 1e-9 * (1 + std::abs(want[i])));
#else
                   for (int i = 0; i < NOUT; ++i) ok = AND(ok, at(out, i, l, p) == want[i]);
#endif
               });
    vp_assert(ok, "fv.sum-of-face-fluxes");
    vp_assert(cells_ok, "fv.stencil-cells");
}
