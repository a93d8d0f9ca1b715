// C21: fields on any graded partition with arbitrary values: expressions act leaf by leaf, copies are equal and independent,
// comparison, accessors, iterators and constructors agree with the cells' values.
#include "freemesh.hpp"
#include "tree.hpp"
#include <samurai/mr/mesh.hpp>
#include <samurai/field.hpp>
#include <samurai/stencil_field.hpp>
#include <samurai/bc.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef NX
#define NX 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef NC
#define NC 1
#endif
#ifndef SOAL
#define SOAL false
#endif
#ifndef MODE
#define MODE 1
#endif
constexpr std::size_t dim = DIM;
using mesh_t  = MRMesh<MRConfig<dim, 1, 1, 1>>;
using id_t_   = typename mesh_t::mesh_id_t;
using field_t = Field<mesh_t, double, NC, SOAL>;

extern "C" void vp_main()
{
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MAXL;
    T.n[0] = NX;
    if (DIM > 1) T.n[1] = NY;
    const int BN = 1 << 16;
    for (int d = 0; d < DIM; ++d) T.o[d] = vp_int(-BN, BN, "o");
#ifdef BUDGET
    T.budget = BUDGET;
#endif
#ifdef HOLES
    T.choose_holes();
#endif
    T.choose();
    typename mesh_t::cl_type cl;
    T.fill(cl);
    vp_select(1);
    mesh_t mesh(cl, MINL, MAXL);
    auto u = make_field<double, NC, SOAL>("u", mesh);
    field_t v("v", mesh);
    field_t w("w", mesh);
    vp_select(0);
    const std::size_t n = mesh.nb_cells() * NC;
    vp_assert(AND(u.array().size() == n, v.array().size() == n), "field.size");
    auto arbitrary = [&](auto& f, const char* s) { for (std::size_t q = 0; q < f.array().size(); ++q) f.array().data()[q] = vp_real(8, s); };
    arbitrary(u, "u"); arbitrary(v, "v"); arbitrary(w, "w");
    auto at = [&](auto& f, int c, int l, const P3& p) -> double&
    {
        P3 g = T.glob(l, p);
#if DIM == 1
        return fval(f, c, l, g[0]);
#elif DIM == 2
        return fval(f, c, l, g[0], g[1]);
#else
        return fval(f, c, l, g[0], g[1], g[2]);
#endif
    };
    auto leaves = [&](auto f) { for (int l = MINL; l <= MAXL; ++l) T.each(l, [&](const P3& p) { if (T.leaf(l, p)) f(l, p); }); };
    // the flat positions of the leaves' values
    std::set<std::size_t> pos;
    leaves([&](int l, const P3& p) { for (int c = 0; c < NC; ++c) pos.insert((std::size_t)(&at(w, c, l, p) - w.array().data())); });
    auto others_kept = [&](const field_t& f, const std::vector<double>& before)
    {
        bool ok = true;
        for (std::size_t q = 0; q < n; ++q) if (!pos.count(q)) ok = AND(ok, f.array().data()[q] == before[q]);
        return ok;
    };
    auto raw = [&](const field_t& f) { return std::vector<double>(f.array().data(), f.array().data() + f.array().size()); };
#if MODE == 1
    {
        auto w0 = raw(w), u0 = raw(u), v0 = raw(v);
        vp_select(1);
        w = 2. * u - v / 4. + u * v + 3.;
        vp_select(0);
        bool ok = true;
        leaves([&](int l, const P3& p) { for (int c = 0; c < NC; ++c) { double a = at(u, c, l, p), b = at(v, c, l, p); ok = AND(ok, at(w, c, l, p) == 2. * a - b / 4. + a * b + 3.); } });
        vp_assert(ok, "field.expression");
        vp_assert(others_kept(w, w0), "field.expression-writes-leaves-only");
        vp_assert(AND(raw(u) == u0, raw(v) == v0), "field.operands-unchanged");
    }
    {
        auto u0 = raw(u);
        vp_select(1);
        field_t z = -u + 0.5 * (v - 1.);
        u = u + 2. * v; // the destination appears on the right
        vp_select(0);
        bool ok = true, ok2 = true;
        leaves([&](int l, const P3& p)
               {
                   for (int c = 0; c < NC; ++c)
                   {
                       double b = at(v, c, l, p), a = u0[(std::size_t)(&at(u, c, l, p) - u.array().data())];
                       ok  = AND(ok, at(z, c, l, p) == -a + 0.5 * (b - 1.));
                       ok2 = AND(ok2, at(u, c, l, p) == a + 2. * b);
                   }
               });
        vp_assert(AND(ok, &z.mesh() == &u.mesh()), "field.constructed-from-expression");
        vp_assert(ok2, "field.expression-with-itself");
        vp_assert(others_kept(u, u0), "field.expression-writes-leaves-only");
    }
#elif MODE == 2
    {
        make_bc<Dirichlet<1>>(u);
        auto u0 = raw(u);
        vp_select(1);
        field_t c(u);
        field_t d("d", mesh);
        d = u;
        vp_select(0);
        vp_assert(AND(raw(c) == u0, raw(d) == u0), "field.copy-equal");
        vp_assert(c.name() == "u" && d.name() == "u" && &c.mesh() == &mesh && &d.mesh() == &mesh, "field.copy-name-mesh");
        vp_assert(c.get_bc().size() == 1 && d.get_bc().size() == 1 && c.get_bc()[0].get() != u.get_bc()[0].get() && d.get_bc()[0].get() != u.get_bc()[0].get(), "field.copy-bc");
        vp_select(1);
        d = v; // assignment replaces what was there
        c.fill(7.);
        vp_select(0);
        vp_assert(d.get_bc().empty() && d.name() == "v", "field.assign-replaces");
        vp_assert(AND(raw(u) == u0, raw(d) == raw(v)), "field.copy-independent");
        bool f7 = true;
        for (double x : raw(c)) f7 = AND(f7, x == 7.);
        vp_assert(f7, "field.fill");
        vp_select(1);
        field_t m(std::move(d));
        field_t e("e", mesh);
        e = std::move(m);
        vp_select(0);
        vp_assert(AND(raw(e) == raw(v), e.name() == "v" && &e.mesh() == &mesh), "field.move");
    }
    {
        // equal when every leaf agrees, whatever the ghosts hold; different when one leaf differs by more than round-off
        bool same = true, far = false;
        leaves([&](int l, const P3& p)
               {
                   for (int c = 0; c < NC; ++c)
                   {
                       double a = at(u, c, l, p), b = at(v, c, l, p);
                       same = AND(same, a == b);
                       far  = OR(far, OR(a - b > 1. / 1024, b - a > 1. / 1024));
                   }
               });
        vp_select(1);
        bool eq = u == v, ne = u != v;
        field_t c(u);
        bool self = c == u;
        vp_select(0);
        vp_assert(AND(IMP(same, eq), IMP(far, !eq)), "field.equality");
        vp_assert(IFF(ne, !eq), "field.inequality");
        vp_assert(self, "field.equal-to-copy");
    }
    {
        double k = vp_real(8, "k");
        vp_select(1);
        auto a = make_field<double, NC, SOAL>("a", mesh, k);
        auto b = make_field<NC, SOAL>("b", mesh);
        vp_select(0);
        bool ok = true;
        for (double x : raw(a)) ok = AND(ok, x == k);
        vp_assert(ok && a.name() == "a" && a.array().size() == n, "field.make-constant");
        vp_assert(b.name() == "b" && b.array().size() == n, "field.make");
    }
    {
        // from a function of the centre: one call per leaf, any values
        std::map<std::array<int, 4>, std::array<double, NC>> table;
        bool inside = true;
        int calls = 0;
        vp_select(1);
        auto f = make_field<double, NC, SOAL>("f", mesh,
                                              [&](const auto& x)
                                              {
                                                  vp_select(0);
                                                  calls++;
                                                  // identify the leaf whose centre this is
                                                  std::array<int, 4> key{-1, 0, 0, 0};
                                                  leaves([&](int l, const P3& p)
                                                         {
                                                             bool hit = true;
                                                             P3 g = T.glob(l, p);
                                                             for (int d = 0; d < DIM; ++d) hit = AND(hit, x(d) == (g[d] + 0.5) / (1 << l));
                                                             if (vp_concretize(hit)) key = {l, p[0], p[1], p[2]};
                                                         });
                                                  if (key[0] < 0) inside = false;
                                                  auto& v = table[key];
                                                  for (auto& c : v) c = vp_real(8, "f");
                                                  vp_select(1);
#if NC == 1
                                                  return v[0];
#else
                                                  xt::xtensor_fixed<double, xt::xshape<NC>> r;
                                                  for (int c = 0; c < NC; ++c) r(c) = v[c];
                                                  return r;
#endif
                                              });
        vp_select(0);
        bool ok = inside;
        int cnt = 0;
        leaves([&](int l, const P3& p)
               {
                   cnt++;
                   auto it = table.find({l, p[0], p[1], p[2]});
                   if (it == table.end()) { ok = false; return; }
                   for (int c = 0; c < NC; ++c) ok = AND(ok, at(f, c, l, p) == it->second[c]);
               });
        vp_assert(AND(ok, calls == cnt), "field.make-from-function");
    }
#elif MODE == 3
    {
        // accessors by cell, number, interval and components
        bool ok = true;
        const field_t& cu = u;
        int nint = 0, seen = 0;
        for_each_interval(mesh[id_t_::reference], [&](auto, const auto&, const auto&) { nint++; });
        int pick = (int)vp_concretize(vp_int(0, nint - 1, "pick")); // any part of this interval, the others as a whole
        vp_select(1);
        for_each_interval(mesh[id_t_::reference],
                          [&](std::size_t l, const auto& i, const auto& yz)
                          {
                              vp_select(0);
                              int a = (int)vp_concretize(i.start - (T.o[0] << l)), b = (int)vp_concretize(i.end - (T.o[0] << l));
                              P3 p{0, 0, 0};
                              for (std::size_t d = 1; d < DIM; ++d) p[d] = (int)vp_concretize(yz[d - 1] - (T.o[d] << l));
                              int A = a, BB = b;
                              if (seen++ == pick) { A = (int)vp_concretize(vp_int(a, b - 1, "A")); BB = (int)vp_concretize(vp_int(A + 1, b, "B")); }
                              interval_t j{(T.o[0] << (int)l) + A, (T.o[0] << (int)l) + BB};
                              vp_select(1);
                              const bool ST = BB - A > 1;
                              auto j2 = j;
                              j2.step = 2;
#if DIM == 1
#define AT(...) (__VA_ARGS__)
#elif DIM == 2
#define AT(...) (__VA_ARGS__, yz[0])
#else
#define AT(...) (__VA_ARGS__, yz[0], yz[1])
#endif
                              auto x0 = u AT(l, j);
                              auto x1 = cu AT(l, j);
                              auto x2 = u(l, j, yz);
                              auto x3 = u AT(l, j2);
#if NC > 1
                              auto y0 = u AT((std::size_t)(NC - 1), l, j);
                              auto y1 = cu AT((std::size_t)(NC - 1), l, j);
                              auto y2 = u AT((std::size_t)1, (std::size_t)NC, l, j);
                              auto y3 = cu AT((std::size_t)1, (std::size_t)NC, l, j);
#endif
                              vp_select(0);
                              (void)ST;
                              for (int x = A; x < BB; ++x)
                              {
                                  p[0] = x;
                                  std::size_t q = (std::size_t)(x - A);
                                  P3 g = T.glob((int)l, p);
                                  typename field_t::cell_t::indices_t ind;
                                  for (int d = 0; d < DIM; ++d) ind[d] = g[d];
                                  typename field_t::cell_t cell({}, 1., l, ind, mesh.get_index(l, ind));
                                  for (std::size_t c = 0; c < NC; ++c)
                                  {
                                      double want = at(u, (int)c, (int)l, p);
#if NC == 1
                                      ok = AND(ok, AND(x0(q) == want, AND(x1(q) == want, x2(q) == want)));
                                      if (q % 2 == 0) ok = AND(ok, x3(q / 2) == want);
                                      ok = AND(ok, AND(u[cell] == want, AND(cu[cell] == want, AND(cu[cell.index] == want, u((std::size_t)cell.index) == want))));
#else
                                      auto el = [&](const auto& v_, std::size_t q_, std::size_t c_) { return SOAL ? v_(c_, q_) : v_(q_, c_); };
                                      ok = AND(ok, AND(el(x0, q, c) == want, AND(el(x1, q, c) == want, el(x2, q, c) == want)));
                                      if (q % 2 == 0) ok = AND(ok, el(x3, q / 2, c) == want);
                                      ok = AND(ok, AND(u[cell](c) == want, AND(cu[cell](c) == want, AND(cu[(std::size_t)cell.index](c) == want, u((std::size_t)cell.index)(c) == want))));
                                      if (c == NC - 1) ok = AND(ok, AND(y0(q) == want, y1(q) == want));
                                      if (c >= 1) ok = AND(ok, AND(el(y2, q, c - 1) == want, el(y3, q, c - 1) == want));
#endif
                                  }
                              }
                              vp_select(1);
                          });
        vp_select(0);
        vp_assert(ok, "field.accessors");
    }
    {
        // iterating over a field: the views of the leaves' intervals, in order, forwards and backwards
        std::vector<double*> seq, fwd, bwd;
        for_each_interval(mesh[id_t_::cells], [&](std::size_t l, const auto& i, const auto& yz)
                          {
                              int a = (int)vp_concretize(i.start - (T.o[0] << l)), b = (int)vp_concretize(i.end - (T.o[0] << l));
                              P3 p{0, 0, 0};
                              for (std::size_t d = 1; d < DIM; ++d) p[d] = (int)vp_concretize(yz[d - 1] - (T.o[d] << l));
                              seq.push_back(nullptr);
                              for (int x = a; x < b; ++x) { p[0] = x; for (int c = 0; c < NC; ++c) seq.push_back(&at(u, c, (int)l, p)); }
                          });
        auto add = [&](std::vector<double*>& s, auto&& view)
        {
            s.push_back(nullptr);
            std::size_t cells = NC == 1 ? view.size() : view.shape()[SOAL ? 1 : 0];
            for (std::size_t q = 0; q < cells; ++q)
                for (std::size_t c = 0; c < NC; ++c)
#if NC == 1
                    s.push_back(&view(q));
#else
                    s.push_back(SOAL ? &view(c, q) : &view(q, c));
#endif
        };
        vp_select(1);
        for (auto it = u.begin(); it != u.end(); ++it) add(fwd, *it);
        std::vector<std::vector<double*>> parts;
        for (auto it = u.end(); it != u.begin();) { --it; parts.emplace_back(); add(parts.back(), *it); }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) bwd.insert(bwd.end(), it->begin(), it->end());
        vp_select(0);
        vp_assert(fwd == seq, "field.iterator-forward");
        vp_assert(bwd == seq, "field.iterator-backward");
    }
#elif MODE == 4
    {
        // upwind finite volume operator on the leaves, velocity of any sign
        auto w0 = raw(w);
        double k[3] = {vp_real(4, "k"), vp_real(4, "k"), vp_real(4, "k")};
        double aa[3];
        for (int d = 0; d < DIM; ++d) aa[d] = k[d] < 0 ? -k[d] : k[d];
        auto fl = [&](int d, double l, double r) { return .5 * k[d] * (l + r) + .5 * aa[d] * (l - r); };
        vp_select(1);
#if DIM == 1
        w = upwind(k[0], u);
#elif DIM == 2
        w = upwind(std::array<double, 2>{k[0], k[1]}, u);
#else
        w = upwind(std::array<double, 3>{k[0], k[1], k[2]}, u);
#endif
        vp_select(0);
        bool ok = true;
        leaves([&](int l, const P3& p)
               {
                   for (int c = 0; c < NC; ++c)
                   {
                       double s = 0, m = at(u, c, l, p);
                       for (int d = 0; d < DIM; ++d)
                       {
                           P3 q = p, r = p;
                           q[d]--; r[d]++;
                           s += fl(d, m, at(u, c, l, r)) - fl(d, at(u, c, l, q), m);
                       }
                       ok = AND(ok, at(w, c, l, p) == s * (1 << l));
                   }
               });
        vp_assert(ok, "field.upwind");
        vp_assert(others_kept(w, w0), "field.expression-writes-leaves-only");
    }
#endif
}
