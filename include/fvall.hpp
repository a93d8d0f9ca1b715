// the finite volume schemes without the program start-up header (command line, MPI, PETSc)
#pragma once
#include <samurai/mr/mesh.hpp>
#include <samurai/field.hpp>
#ifdef VP_SYMBOLIC
// names of composed schemes are built with string streams, which live in the C++ library: nothing is written to them
#include <iomanip>
#include <sstream>
namespace std
{
    struct vp_sstream
    {
        template <class T>
        vp_sstream& operator<<(const T&) { return *this; }
        vp_sstream& operator<<(ostream& (*)(ostream&)) { return *this; }
        string str() const { return "scheme"; }
    };
}
namespace std
{
    template <class T>
    string vp_to_string(const T&) { return "x"; }
}
#define to_string vp_to_string
#define ostringstream vp_sstream
#define stringstream vp_sstream
#endif
#include <samurai/schemes/fv/cell_based/cell_based_scheme__nonlin.hpp>
#include <samurai/schemes/fv/cell_based/explicit_cell_based_scheme.hpp>
#include <samurai/schemes/fv/explicit_operator_sum.hpp>
#include <samurai/schemes/fv/flux_based/explicit_flux_based_scheme__lin_het.hpp>
#include <samurai/schemes/fv/flux_based/explicit_flux_based_scheme__lin_hom.hpp>
#include <samurai/schemes/fv/flux_based/explicit_flux_based_scheme__nonlin.hpp>
#include <samurai/schemes/fv/scheme_operators.hpp>
#include <samurai/schemes/fv/operators/convection_lin.hpp>
#include <samurai/schemes/fv/operators/convection_nonlin.hpp>
#include <samurai/schemes/fv/operators/diffusion.hpp>
#include <samurai/schemes/fv/operators/divergence.hpp>
#include <samurai/schemes/fv/operators/flux_divergence.hpp>
#include <samurai/schemes/fv/operators/gradient.hpp>
#include <samurai/schemes/fv/operators/identity.hpp>
#include <samurai/schemes/fv/operators/zero_operator.hpp>
#ifdef VP_SYMBOLIC
#undef to_string
#undef ostringstream
#undef stringstream
#endif
