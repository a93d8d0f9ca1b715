// A mesh whose storage is exactly the given cells (any levels, overlapping allowed): lets harnesses apply the real
// operators to arbitrary storage.
#pragma once
#include "hcommon.hpp"
#include <samurai/field.hpp>
#include <samurai/mesh.hpp>
#include <samurai/samurai_config.hpp>
enum class FreeId { cells = 0, reference = 1, count = 2 };
template <std::size_t dim_, int po_ = 1, int gw_ = 1>
struct FreeConfig
{
    static constexpr std::size_t dim                  = dim_;
    static constexpr std::size_t max_refinement_level = samurai::default_config::max_level;
    static constexpr int max_stencil_width            = gw_;
    static constexpr int prediction_order             = po_;
    static constexpr int ghost_width                  = gw_;
    static constexpr int graduation_width             = 1;
    using interval_t = samurai::default_config::interval_t;
    using mesh_id_t  = FreeId;
};
template <class Config>
class FreeMesh : public samurai::Mesh_base<FreeMesh<Config>, Config>
{
  public:

    using base_type = samurai::Mesh_base<FreeMesh<Config>, Config>;
    using mpi_subdomain_t = typename base_type::mpi_subdomain_t;
    using config          = typename base_type::config;
    static constexpr std::size_t dim = config::dim;
    using mesh_id_t = typename base_type::mesh_id_t;
    using cl_type   = typename base_type::cl_type;
    using lcl_type  = typename base_type::lcl_type;
    using ca_type   = typename base_type::ca_type;
    using lca_type  = typename base_type::lca_type;
    FreeMesh() = default;
    FreeMesh(const cl_type& cl, std::size_t mn, std::size_t mx)
        : base_type(cl, mn, mx)
    {
    }
    FreeMesh(const cl_type& cl, const FreeMesh& ref)
        : base_type(cl, ref)
    {
    }
    FreeMesh(const samurai::Box<double, dim>& b, std::size_t l, std::size_t mn, std::size_t mx)
        : base_type(b, l, mn, mx)
    {
    }
    void update_sub_mesh_impl()
    {
        this->cells()[mesh_id_t::reference] = this->cells()[mesh_id_t::cells];
    }
};
template <>
struct fmt::formatter<FreeId> : formatter<string_view>
{
    template <typename FormatContext>
    auto format(FreeId, FormatContext& ctx) const
    {
        return formatter<string_view>::format("free", ctx);
    }
};
// value of component c of field f at a cell
template <class F, class... Y>
inline double& fval(F& f, std::size_t c, std::size_t level, int x, Y... yz)
{
    auto id = static_cast<std::size_t>(f.mesh().get_index(level, x, yz...));
    if constexpr (F::size == 1) { return f.array()(id); }
    else if constexpr (F::is_soa) { return f.array()(c, id); }
    else { return f.array()(id, c); }
}
