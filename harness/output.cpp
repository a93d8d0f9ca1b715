#define FMT_USE_INT128 0
// C26: the saved file (HDF5 data and its XDMF description) describes exactly the cells of the mesh, with their geometry and
// their field values. HighFive, pugixml and std::filesystem are replaced by recorders (stubs/).
#define FMT_HEADER_ONLY
#include "freemesh.hpp"
#include "tree.hpp"
#include <samurai/amr/mesh.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/uniform_mesh.hpp>
#include <samurai/field.hpp>
#include <samurai/hdf5.hpp>
using namespace samurai;
#ifndef DIM
#define DIM 1
#endif
#ifndef MINL
#define MINL 1
#endif
#ifndef MAXL
#define MAXL 2
#endif
#ifndef NX
#define NX 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef SOAL
#define SOAL false
#endif
#ifndef MESH
#define MESH 1 // 1 multiresolution, 2 AMR, 3 uniform, 4 LevelCellArray, 5 CellArray (of a multiresolution mesh)
#endif
#ifndef BYL
#define BYL 0
#endif
#ifndef BYM
#define BYM 0
#endif
constexpr std::size_t dim = DIM;
#if MESH == 2
using mesh_t = amr::Mesh<amr::Config<dim>>;
#elif MESH == 3
using mesh_t = UniformMesh<UniformConfig<dim>>;
#else
using mesh_t = MRMesh<MRConfig<dim>>;
#endif
using id_t_ = typename mesh_t::mesh_id_t;

struct Found
{
    std::string parent, name;
    pugi::vp_node* n;
};
static void grids(pugi::vp_node* n, const std::string& parent, std::vector<Found>& out)
{
    for (auto& k : n->kids)
    {
        if (k->name == "Grid")
        {
            std::string nm;
            for (auto& a : k->attrs) if (a.first == "Name") nm = a.second;
            bool topo = false;
            for (auto& q : k->kids) if (q->name == "Topology") topo = true;
            if (topo) out.push_back({parent, nm, k.get()});
            else grids(k.get(), nm, out);
        }
        else grids(k.get(), parent, out);
    }
}
static std::string attr(pugi::vp_node* n, const char* a)
{
    for (auto& x : n->attrs) if (x.first == a) return x.second;
    return "";
}
// the dataset a DataItem refers to: written once, completely, and as large as announced
static VpDataset* dataset(pugi::vp_node* parent, std::size_t total)
{
    for (auto& k : parent->kids)
        if (k->name == "DataItem")
        {
            if (attr(k.get(), "Format") != "HDF" || attr(k.get(), "Dimensions") != std::to_string(total)) return nullptr;
            const std::string pre = "file.h5:";
            if (k->text.compare(0, pre.size(), pre) != 0) return nullptr;
            std::string path = k->text.substr(pre.size());
            VpDataset* r = nullptr;
            int n = 0;
            for (auto& s : vp_h5()) if (s.path == path) { r = &s; n++; }
            if (n != 1 || r->writes != 1) return nullptr;
            std::size_t size = 1;
            for (auto d : r->dims) size *= d;
            for (auto o : r->offset) if (o != 0) return nullptr;
            if (r->count != r->dims || size != total) return nullptr;
            return r;
        }
    return nullptr;
}

extern "C" void vp_main()
{
    const int BN = 1 << 14;
    Tree<DIM> T;
    T.minl = MINL; T.maxl = MESH == 3 ? MINL : MAXL;
    T.n[0] = NX;
    if (DIM > 1) T.n[1] = NY;
#ifdef BUDGET
    T.budget = BUDGET;
#endif
    for (int d = 0; d < DIM; ++d) T.o[d] = vp_int(-BN, BN, "o");
#ifdef HOLES
    T.choose_holes();
#endif
    T.choose();
    typename Box<double, dim>::point_t org;
    for (int d = 0; d < DIM; ++d) org[d] = 0.25 + d;
    const double scale = 2.5;
#if MESH == 3
    typename mesh_t::cl_type cl(MINL, org, scale);
    T.each(MINL, [&](const P3& p) { if (!T.leaf(MINL, p)) return; P3 g = T.glob(MINL, p); yz_t<dim> yz; for (int d = 1; d < DIM; ++d) yz[d - 1] = g[d]; cl[yz].add_interval({g[0], g[0] + 1}); });
    vp_select(1);
    mesh_t mesh(cl);
#else
    typename mesh_t::cl_type cl(org, scale);
    T.fill(cl);
    vp_select(1);
    mesh_t mesh(cl, MINL, MAXL);
#endif
    Field<mesh_t, double, 1> num("num", mesh), u("u", mesh);
    Field<mesh_t, double, 2, SOAL> v("v", mesh);
    vp_select(0);
    const std::size_t ncells = mesh.nb_cells();
    for (std::size_t q = 0; q < ncells; ++q) num.array().data()[q] = (double)q;
    for (std::size_t q = 0; q < ncells; ++q) u.array().data()[q] = vp_real(8, "u");
    for (std::size_t q = 0; q < 2 * ncells; ++q) v.array().data()[q] = vp_real(8, "v");
#if MESH == 3
    auto level_of = [&](id_t_ id, int) -> auto& { return mesh[id]; };
#else
    auto level_of = [&](id_t_ id, int l) -> auto& { return mesh[id][l]; };
#endif
    // which cells each grid has to hold
    struct Cell_ { int l; P3 p; };
    std::vector<Cell_> cells(ncells);
    const int L0 = MESH == 3 ? MINL : 0, L1 = T.maxl;
    std::map<std::string, std::set<std::size_t>> want;
    for (int id = (int)id_t_::count - 1; id >= 0; --id)
        for (int l = L0; l <= L1; ++l)
            for_each_interval(level_of((id_t_)id, l),
                              [&](auto, const auto& i, const auto& yz)
                              {
                                  int x0 = (int)vp_concretize(i.start - (T.o[0] << l)), x1 = (int)vp_concretize(i.end - (T.o[0] << l));
                                  int64_t n0 = vp_concretize((int64_t)i.index + i.start);
                                  P3 p{0, 0, 0};
                                  for (int d = 1; d < DIM; ++d) p[d] = (int)vp_concretize(yz[d - 1] - (T.o[d] << l));
                                  for (int x = x0; x < x1; ++x)
                                  {
                                      p[0] = x;
                                      std::size_t q = n0 + x - x0;
                                      std::string key;
                                      if (BYM) key = fmt::format("{}", (id_t_)id);
                                      else if (id != (int)id_t_::cells) continue;
                                      if (BYL) { if (l < MINL - 1) continue; key = fmt::format("{}|{}", l, key); }
                                      if (MESH == 4 && l != MAXL) continue;
                                      if (q >= ncells) continue; // (not in the reference mesh: nothing to store)
                                      cells[q] = {l, p};
                                      want[key].insert(q);
                                  }
                              });
    vp_select(1);
#if MESH == 4
    save("dir", "file", mesh[id_t_::cells][MAXL], num, u, v);
#elif MESH == 5
#if BYL
    save("dir", "file", Hdf5Options<typename mesh_t::ca_type>{true, false}, mesh[id_t_::cells], num, u, v);
#else
    save("dir", "file", mesh[id_t_::cells], num, u, v);
#endif
#elif MESH == 3
#if BYM
    save("dir", "file", Hdf5Options<mesh_t>{true}, mesh, num, u, v);
#else
    save("dir", "file", mesh, num, u, v);
#endif
#elif BYL || BYM
    save("dir", "file", {bool(BYL), bool(BYM)}, mesh, num, u, v);
#else
    save("dir", "file", mesh, num, u, v);
#endif
    vp_select(0);
    vp_assert(pugi::vp_last_doc() != nullptr, "output.described");
    if (!pugi::vp_last_doc()) vp_end();
    std::vector<Found> g;
    grids(pugi::vp_last_doc(), "", g);
    std::set<std::string> seen;
    bool geo = true, val = true;
    for (auto& f : g)
    {
        std::string key;
        if (BYL && BYM)
        {
            // "level_<l>_<mesh>"
            std::string a = f.name.substr(std::min<std::size_t>(6, f.name.size()));
            auto k = a.find('_');
            vp_assert(f.name.compare(0, 6, "level_") == 0 && k != std::string::npos && f.parent == "Level " + a.substr(0, k), "output.grid-name");
            key = a.substr(0, k) + "|" + a.substr(k + 1);
        }
        else if (BYL) { vp_assert(f.parent.compare(0, 6, "Level ") == 0, "output.grid-name"); key = f.parent.substr(6) + "|"; }
        else if (BYM) key = f.name;
        vp_assert(want.count(key) == 1 && seen.insert(key).second, "output.grids");
        if (want.count(key) != 1) vp_end();
        auto& W = want[key];
        const std::size_t n = W.size(), C = 1 << DIM;
        VpDataset *con = nullptr, *pts = nullptr;
        std::map<std::string, VpDataset*> fld;
        std::size_t npts = 0;
        // distinct corners, in units of the finest level
        std::set<P3> corner;
        for (auto q : W)
            for (int k = 0; k < (DIM > 2 ? 2 : 1); ++k) for (int j = 0; j < (DIM > 1 ? 2 : 1); ++j) for (int i = 0; i < 2; ++i)
                corner.insert(P3{(cells[q].p[0] + i) << (L1 - cells[q].l), (cells[q].p[1] + j) << (L1 - cells[q].l), (cells[q].p[2] + k) << (L1 - cells[q].l)});
        npts = corner.size();
        bool typ = false;
        for (auto& k : f.n->kids)
        {
            if (k->name == "Topology")
            {
                con = dataset(k.get(), n * C);
                typ = attr(k.get(), "TopologyType") == (DIM == 1 ? "Polyline" : DIM == 2 ? "Quadrilateral" : "Hexahedron") && attr(k.get(), "NumberOfElements") == std::to_string(n);
            }
            else if (k->name == "Geometry") { pts = dataset(k.get(), npts * 3); typ = typ && attr(k.get(), "GeometryType") == "XYZ"; }
            else if (k->name == "Attribute") { vp_assert(attr(k.get(), "Center") == "Cell" && fld.emplace(attr(k.get(), "Name"), dataset(k.get(), n)).second, "output.attribute"); }
        }
        vp_assert(con && pts && typ && con->u.size() == n * C && pts->d.size() == npts * 3, "output.topology");
        if (!con || !pts || con->u.size() != n * C || pts->d.size() != npts * 3) vp_end();
        bool all = fld.size() == 4;
        for (auto* s : {"num", "u", "v_0", "v_1"}) all = all && fld.count(s) && fld[s] && fld[s]->d.size() == n;
        vp_assert(all, "output.fields");
        if (!all) vp_end();
        // rows
        std::set<std::size_t> rows, used;
        for (std::size_t r = 0; r < n; ++r)
        {
            auto q = (std::size_t)vp_concretize((int64_t)fld["num"]->d[r]);
            vp_assert(W.count(q) == 1 && rows.insert(q).second, "output.cells-once");
            if (!W.count(q)) vp_end();
            int l = cells[q].l;
            double h = scale / (1 << l);
            for (std::size_t c = 0; c < C; ++c)
            {
                auto id = (std::size_t)vp_concretize((int64_t)con->u[r * C + c]);
                vp_assert(id < npts, "output.point-range");
                if (id >= npts) vp_end();
                used.insert(id);
                // corners in the order of the format: counter-clockwise in each z plane
                int e[3] = {(c & 3) == 1 || (c & 3) == 2, (c & 3) >= 2, c >= 4};
                for (int d = 0; d < 3; ++d)
                {
                    double x = d < DIM ? org[d < DIM ? d : 0] + h * ((T.o[d] << l) + cells[q].p[d] + e[d]) : 0.;
                    geo = AND(geo, pts->d[id * 3 + d] == x);
                }
            }
            val = AND(val, fld["u"]->d[r] == u.array().data()[q]);
            for (std::size_t c = 0; c < 2; ++c) val = AND(val, fld[c ? "v_1" : "v_0"]->d[r] == (SOAL ? v.array().data()[c * ncells + q] : v.array().data()[2 * q + c]));
        }
        vp_assert(used.size() == npts, "output.points-used");
    }
    vp_assert(geo, "output.geometry");
    vp_assert(val, "output.values");
    std::set<std::string> all;
    for (auto& w : want) all.insert(w.first);
    vp_assert(seen == all, "output.every-grid");
}
