// C22: values on finer levels than the leaves: reconstruction of the whole domain, portions of a cell, transfer of a field to
// another mesh. The oracle applies the one-level tensor interpolation recursively to the (arbitrary) stored values.
#include "freemesh.hpp"
#include "tree.hpp"
#include "pred_oracle.hpp"
#include <samurai/mr/mesh.hpp>
#include <samurai/field.hpp>
#include <samurai/reconstruction.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef NX
#define NX 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef NC
#define NC 1
#endif
#ifndef SOAL
#define SOAL false
#endif
#ifndef MODE
#define MODE 1 // 1 reconstruction, 2 portion, 3 transfer
#endif
#ifndef SW
#define SW 2
#endif
#ifndef PO
#define PO 1
#endif
#ifndef DL
#define DL 2
#endif
constexpr std::size_t dim = DIM;

// value at a cell of level L of the interpolation of the values val(p) stored at level l
template <class V>
struct Rec
{
    V val;
    int l;
    std::map<std::array<int, 4>, double> memo;
    double operator()(int L, const P3& p)
    {
        if (L == l) return val(p);
        std::array<int, 4> key{L, p[0], p[1], p[2]};
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        P3 q = Tree<DIM>::par(p);
        double r = pred_child<DIM, PO>([&](int i, int j, int k) { return (*this)(L - 1, P3{q[0] + i, q[1] + j, q[2] + k}); }, p[0] & 1 ? -1 : 1, p[1] & 1 ? -1 : 1, p[2] & 1 ? -1 : 1, 1);
        return memo[key] = r;
    }
};
template <class V>
Rec<V> rec(int l, V v) { return Rec<V>{v, l, {}}; }

#if MODE == 2
using fmesh = FreeMesh<FreeConfig<dim, PO, 1>>;
using field_t = Field<fmesh, double, NC, SOAL>;
#else
using mesh_t  = MRMesh<MRConfig<dim, SW, 1, PO>>;
using id_t_   = typename mesh_t::mesh_id_t;
using field_t = Field<mesh_t, double, NC, SOAL>;
#endif
template <class F>
void arbitrary(F& f, const char* s) { for (std::size_t q = 0; q < f.array().size(); ++q) f.array().data()[q] = vp_real(8, s); }

extern "C" void vp_main()
{
    const int BN = 1 << 14;
#if MODE == 2
    // one row (box) of cells of a level with its surroundings, any place
    P3 o{0, 0, 0};
    for (int d = 0; d < DIM; ++d) o[d] = vp_int(-BN, BN, "o");
    int len = (int)vp_concretize(vp_int(1, 2, "len"));
    const int W = 2 * PO, L = 2;
    typename fmesh::cl_type cl;
    for (int k = DIM > 2 ? -W : 0; k <= (DIM > 2 ? W : 0); ++k)
        for (int j = DIM > 1 ? -W : 0; j <= (DIM > 1 ? W : 0); ++j)
        {
            yz_t<dim> yz;
            if (DIM > 1) yz[0] = o[1] + j;
            if (DIM > 2) yz[DIM > 2 ? 1 : 0] = DIM > 2 ? o[2] + k : yz[0];
            cl[L][yz].add_interval({o[0] - W, o[0] + len + W});
        }
    vp_select(1);
    fmesh mesh(cl, L, L);
    field_t u("u", mesh);
    vp_select(0);
    arbitrary(u, "u");
    auto uat = [&](int c, P3 p) -> double&
    {
#if DIM == 1
        return fval(u, c, L, o[0] + p[0]);
#elif DIM == 2
        return fval(u, c, L, o[0] + p[0], o[1] + p[1]);
#else
        return fval(u, c, L, o[0] + p[0], o[1] + p[1], o[2] + p[2]);
#endif
    };
    interval_t I{o[0], o[0] + len};
    const int n = 1 << DL;
    P3 f{0, 0, 0}, e{1, 1, 1};
    for (int d = 0; d < DIM; ++d) { f[d] = (int)vp_concretize(vp_int(0, n - 1, "f")); e[d] = f[d] + 1; }
    bool ok = true;
    auto el = [&](const auto& v, int c, int q) -> double
    {
#if NC == 1
        (void)c;
        return v(q);
#else
        return SOAL ? v(c, q) : v(q, c);
#endif
    };
    (void)el;
#if DIM == 1
#define PT I
#define FI f[0]
#define FI2 (f[0] >> 1)
#define IVF interval_t{f[0], e[0]}
#define IV2 interval_t{f[0] >> 1, (f[0] >> 1) + 1}
#elif DIM == 2
#define PT I, o[1]
#define FI f[0], f[1]
#define FI2 (f[0] >> 1), (f[1] >> 1)
#define IVF interval_t{f[0], e[0]}, interval_t{f[1], e[1]}
#define IV2 interval_t{f[0] >> 1, (f[0] >> 1) + 1}, interval_t{f[1] >> 1, (f[1] >> 1) + 1}
#else
#define PT I, o[1], o[2]
#define FI f[0], f[1], f[2]
#define FI2 (f[0] >> 1), (f[1] >> 1), (f[2] >> 1)
#define IVF interval_t{f[0], e[0]}, interval_t{f[1], e[1]}, interval_t{f[2], e[2]}
#define IV2 interval_t{f[0] >> 1, (f[0] >> 1) + 1}, interval_t{f[1] >> 1, (f[1] >> 1) + 1}, interval_t{f[2] >> 1, (f[2] >> 1) + 1}
#endif
#ifdef RANGE
    // an interval of fine cells: their sum
    for (int d = 0; d < DIM; ++d) e[d] = (int)vp_concretize(vp_int(f[d] + 1, n, "e"));
    vp_select(1);
    auto z = portion(u, (std::size_t)L, PT, (std::size_t)(DL - 1), IV2); // an earlier use with another depth
#if DIM > 1 && NC > 1
    auto x = portion(u, (std::size_t)(NC - 1), (std::size_t)L, PT, (std::size_t)DL, IVF);
    vp_select(0);
    for (int q = 0; q < len; ++q)
    {
        double s = 0;
        auto r = rec(L, [&](const P3& p) { return uat(NC - 1, p); });
        for (int k = f[2]; k < e[2]; ++k) for (int j = f[1]; j < e[1]; ++j) for (int i = f[0]; i < e[0]; ++i) s += r(L + DL, P3{(q << DL) + i, j, k});
        ok = AND(ok, x(q) == s);
    }
    vp_assert(ok, "portion.range-component");
    vp_select(1);
#endif
    auto y = portion(u, (std::size_t)L, PT, (std::size_t)DL, IVF);
    vp_select(0);
    for (int c = 0; c < NC; ++c)
        for (int q = 0; q < len; ++q)
        {
            double s = 0;
            auto r = rec(L, [&](const P3& p) { return uat(c, p); });
            for (int k = f[2]; k < e[2]; ++k) for (int j = f[1]; j < e[1]; ++j) for (int i = f[0]; i < e[0]; ++i) s += r(L + DL, P3{(q << DL) + i, j, k});
            ok = AND(ok, el(y, c, q) == s);
            ok = AND(ok, el(z, c, q) == r(L + DL - 1, P3{(q << (DL - 1)) + (f[0] >> 1), f[1] >> 1, f[2] >> 1}));
        }
    vp_assert(ok, "portion.range");
#else
    vp_select(1);
    auto y = portion(u, (std::size_t)L, PT, (std::size_t)DL, FI);
    auto y2 = portion<PO>(u, (std::size_t)L, PT, (std::size_t)DL, FI);
#if NC > 1
    auto x = portion(u, (std::size_t)(NC - 1), (std::size_t)L, PT, (std::size_t)DL, FI);
    auto x2 = portion<PO>(u, (std::size_t)(NC - 1), (std::size_t)L, PT, (std::size_t)DL, FI);
#endif
    vp_select(0);
    for (int c = 0; c < NC; ++c)
        for (int q = 0; q < len; ++q)
        {
            auto r = rec(L, [&](const P3& p) { return uat(c, p); });
            double s = r(L + DL, P3{(q << DL) + f[0], f[1], f[2]});
            ok = AND(ok, AND(el(y, c, q) == s, el(y2, c, q) == s));
#if NC > 1
            if (c == NC - 1) ok = AND(ok, AND(x(q) == s, x2(q) == s));
#endif
        }
    vp_assert(ok, "portion.value");
#endif
#else
    Tree<DIM> T, T2;
    for (auto* t : {&T, &T2})
    {
        t->minl = MINL; t->maxl = MAXL;
        t->n[0] = NX;
        if (DIM > 1) t->n[1] = NY;
#ifdef BUDGET
        t->budget = BUDGET;
#endif
    }
    for (int d = 0; d < DIM; ++d) T.o[d] = T2.o[d] = vp_int(-BN, BN, "o");
#ifdef HOLES
    T.choose_holes();
    T2.hole = T.hole;
#endif
    T.choose();
    typename mesh_t::cl_type cl;
    T.fill(cl);
    vp_select(1);
    mesh_t mesh(cl, MINL, MAXL);
    field_t u("u", mesh);
    vp_select(0);
    arbitrary(u, "u");
    auto at = [&](auto& f, int c, int l, const P3& p) -> double&
    {
        P3 g = T.glob(l, p);
#if DIM == 1
        return fval(f, c, l, g[0]);
#elif DIM == 2
        return fval(f, c, l, g[0], g[1]);
#else
        return fval(f, c, l, g[0], g[1], g[2]);
#endif
    };
    // value at any cell of level >= that of its leaf
    auto value = [&](int c, int L, const P3& p)
    {
        int l = L;
        P3 q = p;
        while (!T.leaf(l, q)) { q = Tree<DIM>::par(q); l--; }
        return rec(l, [&](const P3& x) { return at(u, c, l, x); })(L, p);
    };
    (void)value;
#if MODE == 1
#ifdef NEEDS
    // every cell the interpolation of a leaf reads is stored (2 * order cells around it when it spans two levels or more)
    for (int l = MINL; l <= MAXL; ++l)
    {
        auto have = T.stored(l, mesh[id_t_::reference][l]);
        T.each(l, [&](const P3& p)
               {
                   if (!T.leaf(l, p)) return;
                   int w = MAXL - l >= 2 ? 2 * PO : MAXL - l >= 1 ? PO : 0;
                   bool all = true;
                   T.around(p, w, [&](const P3& q, const P3&) { if (!have.count(q)) all = false; });
                   vp_assert(all, "reconstruction.reads-stored-cells");
                   if (!all) vp_end();
               });
    }
#endif
    vp_select(1);
    auto r = reconstruction(u);
    vp_select(0);
    bool ok = true, mean = true;
    int L = (int)mesh.domain().level(), cells = 0;
    T.each(L, [&](const P3& p)
           {
               if (!T.in_domain(L, p)) return;
               cells++;
               P3 g = T.glob(L, p);
               for (int c = 0; c < NC; ++c)
               {
#if DIM == 1
                   double x = fval(r, c, L, g[0]);
#elif DIM == 2
                   double x = fval(r, c, L, g[0], g[1]);
#else
                   double x = fval(r, c, L, g[0], g[1], g[2]);
#endif
                   ok = AND(ok, x == value(c, L, p));
               }
           });
    vp_assert(L == MAXL, "reconstruction.level");
    vp_assert(AND(r.array().size() == (std::size_t)cells * NC, r.mesh()[L].nb_cells() == (std::size_t)cells), "reconstruction.covers-domain");
    vp_assert(ok, "reconstruction.value");
    (void)mean;
#else
    T2.choose();
    typename mesh_t::cl_type cl2;
    T2.fill(cl2);
    vp_select(1);
    mesh_t mesh2(cl2, MINL, MAXL);
    field_t w("w", mesh2);
    vp_select(0);
    arbitrary(w, "w");
    std::vector<double> u0(u.array().data(), u.array().data() + u.array().size());
    vp_select(1);
    transfer(u, w);
    vp_select(0);
    bool ok = true;
    for (int l = MINL; l <= MAXL; ++l)
        T2.each(l, [&](const P3& p)
                {
                    if (!T2.leaf(l, p)) return;
                    for (int c = 0; c < NC; ++c)
                    {
                        // mean over the leaf of the source's values
                        std::function<double(int, const P3&)> mean = [&](int m, const P3& q) -> double
                        {
                            if (!T.is_ref(m, q)) return value(c, m, q);
                            double s = 0;
                            for (int k = 0; k < (DIM > 2 ? 2 : 1); ++k) for (int j = 0; j < (DIM > 1 ? 2 : 1); ++j) for (int i = 0; i < 2; ++i)
                                s += mean(m + 1, P3{2 * q[0] + i, DIM > 1 ? 2 * q[1] + j : 0, DIM > 2 ? 2 * q[2] + k : 0});
                            return s / (1 << DIM);
                        };
                        ok = AND(ok, at(w, c, l, p) == mean(l, p));
                    }
                });
    vp_assert(ok, "transfer.value");
    vp_assert(std::vector<double>(u.array().data(), u.array().data() + u.array().size()) == u0, "transfer.source-unchanged");
#endif
#endif
}
