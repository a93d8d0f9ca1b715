// C19: boundary conditions fill the ghosts outside the domain: Dirichlet of order k puts k ghosts on the polynomial through
// the k last cells and the boundary value, Neumann gives the prescribed slope, uncovered layers and diagonals are extrapolated;
// each part of the boundary gets the condition attached to it, evaluated at the centre of the face.
#include "freemesh.hpp"
#include "tree.hpp"
#include <samurai/mr/mesh.hpp>
#include <samurai/amr/mesh.hpp>
#include <samurai/uniform_mesh.hpp>
#include <samurai/algorithm/update.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 0
#endif
#ifndef MAXL
#define MAXL 0
#endif
#ifndef NX
#define NX 3
#endif
#ifndef NY
#define NY 2
#endif
#ifndef NZ
#define NZ 2
#endif
#ifndef NC
#define NC 1
#endif
#ifndef SOAL
#define SOAL false
#endif
#ifndef ORDER
#define ORDER 1
#endif
#ifndef GW
#define GW ORDER
#endif
#ifndef KIND
#define KIND 0 // 0 no condition, 1 one Dirichlet everywhere, 2 Dirichlet per direction, 3 Dirichlet on an arbitrary set of faces and Neumann on the others, 4 as 2 with Neumann along x
#endif
constexpr std::size_t dim = DIM;
using Config  = MRConfig<dim, GW, 1, 1>;
using mesh_t  = MRMesh<Config>;
using id_t_   = typename mesh_t::mesh_id_t;
using field_t = Field<mesh_t, double, NC, SOAL>;
using dir_t   = xt::xtensor_fixed<int, xt::xshape<dim>>;
using co_t    = xt::xtensor_fixed<double, xt::xshape<dim>>;
using val_t   = std::conditional_t<NC == 1, double, xt::xtensor_fixed<double, xt::xshape<NC>>>;

static val_t pack(const double* v)
{
    val_t r;
#if NC == 1
    r = v[0];
#else
    for (int c = 0; c < NC; ++c) r(c) = v[c];
#endif
    return r;
}
// value at ghost k (1..m) of the polynomial through the m cells at distance 1/2, 3/2, ... inside and the boundary value
static double lagrange(int m, int k, const double* u, double b)
{
    double x = k - 0.5, r = 0;
    for (int i = 0; i <= m; ++i) // nodes: i < m cells at -(i+1/2), i == m the boundary at 0
    {
        double xi = i < m ? -(i + 0.5) : 0, w = 1;
        for (int j = 0; j <= m; ++j)
            if (j != i) { double xj = j < m ? -(j + 0.5) : 0; w *= (x - xj) / (xi - xj); }
        r += w * (i < m ? u[i] : b);
    }
    return r;
}

extern "C" void vp_main()
{
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MAXL;
    T.n[0] = (int)vp_concretize(vp_int(NX > 1 ? NX - 1 : 1, NX, "n"));
    if (DIM > 1) T.n[1] = NY;
    if (DIM > 2) T.n[2] = NZ;
    const int BN = 1 << 16;
    for (int d = 0; d < DIM; ++d) T.o[d] = vp_int(-BN, BN, "o");
    T.choose();
    typename mesh_t::cl_type cl;
    T.fill(cl);
    vp_select(1);
    mesh_t mesh(cl, MINL, MAXL);
    field_t f("f", mesh);
    vp_select(0);
    for (std::size_t q = 0; q < mesh.nb_cells() * NC; ++q) f.array().data()[q] = vp_real(10, "v");
    // directions in a fixed order: 2 * axis + (positive)
    double cst[2 * DIM][NC];
    for (auto& x : cst) for (auto& y : x) y = vp_real(10, "bc");
    std::map<std::array<int, 5>, std::array<double, NC>> faces; // level, local cell, direction -> value given
    std::map<std::array<int, 4>, bool> region;                  // local cell of the finest level, direction -> Dirichlet
    bool coords_ok = true, dir_ok = true;
    auto dirnum = [&](const auto& d)
    {
        int k = -1;
        for (int i = 0; i < DIM; ++i) if (d[i]) k = k == -1 ? 2 * i + (d[i] > 0) : -2;
        if (k < 0) dir_ok = false;
        return k;
    };
    auto func = [&](const dir_t& d, const auto& cell, const co_t& x)
    {
        std::array<int, 5> key{(int)cell.level, 0, 0, 0, dirnum(d)};
        for (int i = 0; i < DIM; ++i)
        {
            key[1 + i] = (int)vp_concretize(cell.indices[i] - (T.o[i] << cell.level));
            coords_ok = AND(coords_ok, 2 * x[i] * (1 << cell.level) == 2. * cell.indices[i] + 1 + d[i]);
        }
        auto it = faces.find(key);
        if (it == faces.end())
        {
            std::array<double, NC> v;
            for (auto& y : v) y = vp_real(10, "bf");
            it = faces.emplace(key, v).first;
        }
        return pack(it->second.data());
    };
    auto dvec = [&](int k) { dir_t d; d.fill(0); d[k / 2] = k % 2 ? 1 : -1; return d; };
    (void)func; (void)dvec;
    vp_select(1);
#if KIND == 1
#ifdef FUNC
    make_bc<Dirichlet<ORDER>>(f, func);
#elif NC == 1
    make_bc<Dirichlet<ORDER>>(f, cst[0][0]);
#elif NC == 2
    make_bc<Dirichlet<ORDER>>(f, cst[0][0], cst[0][1]);
#endif
#elif KIND == 2
    for (int k = 0; k < 2 * DIM; ++k)
#if NC == 1
        make_bc<Dirichlet<ORDER>>(f, cst[k][0])->on(dvec(k));
#else
        make_bc<Dirichlet<ORDER>>(f, cst[k][0], cst[k][1])->on(dvec(k));
#endif
#elif KIND == 4
    make_bc<Neumann<1>>(f, cst[0][0])->on(dvec(0), dvec(1));
    for (int k = 2; k < 2 * DIM; ++k) make_bc<Dirichlet<ORDER>>(f, cst[k][0])->on(dvec(k));
#elif KIND == 3
    auto which = [&](bool dirichlet)
    {
        return [&, dirichlet](const co_t& x)
        {
            vp_select(0);
            std::array<int, 4> key{0, 0, 0, -1}; // face centre -> twice the local coordinates on the finest level
            for (int i = 0; i < DIM; ++i) key[i] = (int)vp_concretize((int64_t)(2 * x[i] * (1 << MAXL)) - (int64_t)(2 * (T.o[i] << MAXL)));
            auto it = region.find(key);
            if (it == region.end()) it = region.emplace(key, (bool)vp_concretize(vp_bool("reg"))).first;
            vp_select(1);
            return it->second == dirichlet;
        };
    };
    std::function<bool(const co_t&)> wd = which(true), wn = which(false);
    make_bc<Dirichlet<ORDER>>(f, cst[0][0])->on(wd);
    make_bc<Neumann<1>>(f, func)->on(wn);
#endif
#if MINL == MAXL
    update_bc(f);
#else
    update_ghost_mr(f);
#endif
    vp_select(0);
    std::vector<std::set<P3>> st(MAXL + 1);
    for (int l = 0; l <= MAXL; ++l) st[l] = T.stored(l, mesh[id_t_::reference][l]);
    double worst = 0;
    for (int c = 0; c < NC; ++c)
    {
        auto at = [&](int l, const P3& p) -> double&
        {
            P3 q = T.glob(l, p);
#if DIM == 1
            return fval(f, c, l, q[0]);
#elif DIM == 2
            return fval(f, c, l, q[0], q[1]);
#else
            return fval(f, c, l, q[0], q[1], q[2]);
#endif
        };
        for (int l = MINL; l <= T.top(); ++l)
            for (auto& p : st[l])
            {
                if (!T.leaf(l, p)) continue;
                Tree<DIM>::around(P3{0, 0, 0}, 1, [&](const P3&, const P3& d)
                                  {
                                      int ones = 0;
                                      bool edge = true;
                                      for (int i = 0; i < DIM; ++i)
                                      {
                                          if (!d[i]) continue;
                                          ones++;
                                          if (!(d[i] < 0 ? p[i] == 0 : p[i] == (T.n[i] << l) - 1)) edge = false;
                                      }
                                      if (!ones || !edge) return;
                                      auto cell = [&](int k) { return P3{p[0] + k * d[0], p[1] + k * d[1], p[2] + k * d[2]}; };
                                      int k = ones == 1 ? dirnum(d) : -1;
                                      int managed = 0; // ghost layers the condition fills
                                      bool neumann = false;
                                      double b = 0;
                                      if (k >= 0)
                                      {
                                          if (KIND == 1) { managed = ORDER; b = cst[0][c]; }
#ifdef FUNC
                                          if (KIND == 1) b = faces.at({l, p[0], p[1], p[2], k})[c];
#endif
                                          if (KIND == 2) { managed = ORDER; b = cst[k][c]; }
                                          if (KIND == 4) { managed = k < 2 ? 1 : ORDER; neumann = k < 2; b = k < 2 ? cst[0][c] : cst[k][c]; }
                                          if (KIND == 3)
                                          {
                                              std::array<int, 4> key{0, 0, 0, -1};
                                              for (int i = 0; i < DIM; ++i) key[i] = 2 * p[i] + 1 + d[i];
                                              neumann = !region.at(key);
                                              managed = neumann ? 1 : ORDER;
                                              b = neumann ? faces.at({l, p[0], p[1], p[2], k})[c] : cst[0][c];
                                          }
                                      }
                                      bool have = true;
                                      for (int q = 0; q < managed; ++q) have = have && T.in_domain(l, cell(-q)) && st[l].count(cell(-q)) && st[l].count(cell(q + 1));
                                      vp_assert(have || !T.in_domain(l, cell(1 - managed)), "bc.ghosts-stored");
                                      if (!have) return;
                                      if (neumann)
                                      {
                                          vp_assert(at(l, cell(1)) * (1 << l) == b + at(l, cell(0)) * (1 << l), "bc.neumann");
                                          vp_cover("neumann");
                                      }
                                      else if (managed)
                                      {
                                          double u[4];
                                          for (int q = 0; q < managed; ++q) u[q] = at(l, cell(-q));
                                          for (int q = 1; q <= managed; ++q) vp_close(at(l, cell(q)), lagrange(managed, q, u, b), 1e-6, "bc.dirichlet");
                                          vp_cover("dirichlet");
                                      }
                                      // extrapolated layers (closest first)
                                      int maxm = KIND == 0 ? 0 : (KIND == 4 || KIND == 3) && ORDER == 1 ? 1 : ORDER;
                                      if (k >= 0 && managed < maxm) return; // a shorter condition leaves the other layers open
                                      for (int q = managed + 1; q <= GW && q <= 3; ++q)
                                      {
                                          bool all = true;
                                          for (int j = -q + 1; j <= q; ++j) all = all && st[l].count(cell(j));
                                          if (!all) break;
                                          double e = 0, w = 1; // sum over j of binom alternating: the polynomial of degree 2q-2 through the 2q-1 previous cells
                                          for (int j = 1; j <= 2 * q - 1; ++j)
                                          {
                                              w = w * (2 * q - j) / j;
                                              e += (j % 2 ? w : -w) * at(l, cell(q - j));
                                          }
                                          vp_assert(at(l, cell(q)) == e, "bc.extrapolated");
                                          vp_cover("extrapolated");
                                      }
                                  });
            }
        worst = at(T.top(), *st[T.top()].begin());
        vp_observe_f(worst);
    }
    vp_assert(coords_ok, "bc.value-at-face-centre");
    vp_assert(dir_ok, "bc.direction");
}
