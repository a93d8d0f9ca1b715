#!/usr/bin/env python3
"""Texts of the properties; writes properties.jsonl and MANIFEST.json (python3 meta.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
I = "include/samurai/"
def P(id, title, statement, over, text, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[I + f for f in files], mechanism=[dict(name=n, where=I + w) for n, w in mech]), **kw)
PROPS = [
P("C01", "Interval arithmetic is exact on cell coordinates",
  "Shifting, scaling, translating, halving and parity-splitting an interval yields exactly the interval of the coordinates that the same operation applied to each contained coordinate produces (floor semantics for negative coordinates, coarsening covers every partially covered cell). Size, validity, comparison and membership agree with the set of coordinates.",
  ["inputs"], "all intervals and coordinates, negative ones included, and all shift amounts and factors",
  "Unit tests sample a dozen positive intervals; the rounding of negative, odd and partially covered bounds is where refinement and coarsening go wrong.",
  ["interval.hpp"], [("Interval shift/scale operators", "interval.hpp"), ("even_elements/odd_elements", "interval.hpp")]),
P("C02", "Adding intervals keeps a sorted disjoint list equal to the union",
  "After any sequence of interval insertions the list of a row holds exactly the union of what was inserted, as non-empty intervals in increasing order, none touching or overlapping its neighbour.",
  ["histories", "inputs"], "every prior canonical list of bounded length and every inserted interval (inductive step over histories)",
  "Tests insert a few fixed intervals; merging depends on how the new bounds relate to every stored bound.",
  ["list_of_intervals.hpp"], [("add_interval / add_point", "list_of_intervals.hpp")]),
P("C03", "Compressed cell storage holds exactly the inserted cells",
  "Building the compressed array of a level (or of all levels) from a list of cells, directly or by appending rows in order, stores exactly the inserted cells, once each, in sorted order, and converting back gives the same cells. The row structure in every dimension is consistent: offsets are increasing and cover every stored interval.",
  ["inputs"], "all cell sets within the row and segment bounds, 1D to 3D, at any coordinates",
  "Tests build a few hand-written meshes; the nested row structure depends on which rows are present, adjacent or missing.",
  ["level_cell_array.hpp", "level_cell_list.hpp", "cell_array.hpp", "cell_list.hpp"], [("LevelCellArray from LevelCellList", "level_cell_array.hpp"), ("add_interval_back", "level_cell_array.hpp"), ("CellArray from CellList", "cell_array.hpp")]),
P("C04", "Looking up a cell finds it exactly when it is stored",
  "Looking up coordinates in a level returns the interval that contains them when the cell is stored and reports absence otherwise; interval, index and cell accessors by coordinates return the data of that very cell.",
  ["inputs"], "all stored cell sets within bounds and all queried coordinates",
  "Tests query present cells of small meshes; absent coordinates in gaps, before, after and between rows are not covered.",
  ["algorithm.hpp", "level_cell_array.hpp", "cell_array.hpp"], [("find", "algorithm.hpp"), ("get_interval/get_index/get_cell", "level_cell_array.hpp")]),
P("C05", "Traversals visit every stored cell exactly once, in order",
  "Iterating over a mesh, a level or a subset by cell, by interval or by mesh-interval visits every stored cell exactly once in increasing order with its true coordinates, level and number, whatever levels or rows are empty; iterators reach the same elements forwards and backwards.",
  ["inputs", "configurations"], "all stored cell sets within bounds, empty levels and rows included",
  "Tests iterate over full meshes; empty levels and reverse iteration across row boundaries are not reached.",
  ["algorithm.hpp", "level_cell_array.hpp", "cell_array.hpp"], [("for_each_level/interval/cell/meshinterval", "algorithm.hpp"), ("LevelCellArray_iterator", "level_cell_array.hpp"), ("CellArray_iterator", "cell_array.hpp")]),
P("C06", "Cell numbering is a bijection onto 0..N-1 in traversal order",
  "After numbering, each stored cell has a distinct number, the numbers are exactly 0..N-1 where N is the number of cells, they increase along the traversal order, and every accessor (traversal, interval index, lookup by coordinates) reports the same number for a cell.",
  ["inputs"], "all stored cell sets within bounds, 1D to 3D, several levels, at any coordinates (negative included)",
  "Tests compare a few indices; an offset error shows only for particular row and level layouts.",
  ["cell_array.hpp", "level_cell_array.hpp", "mesh.hpp"], [("update_index", "cell_array.hpp"), ("get_index", "level_cell_array.hpp")]),
P("C07", "Physical boxes and cells have the geometry they are asked for",
  "The domain built from a physical box starts at the box's minimum corner, covers the box with whole units on every level, and exceeds it by no more than the tolerance (or by less than the given scaling factor); every sub mesh of a mesh built from a box carries that origin and scaling. A cell's length, corner, centre and face centres are those of its level, indices, origin and scaling factor.",
  ["inputs"], "all box positions and lengths within bounds, all levels, origins and indices within bounds, 1D to 3D",
  "Tests use the unit box; lengths that are not multiples of each other and boxes away from the origin are not covered.",
  ["box.hpp", "cell.hpp", "level_cell_array.hpp", "mesh.hpp"], [("approximate_box", "box.hpp"), ("LevelCellArray(level, Box)", "level_cell_array.hpp"), ("corner/center/face_center", "cell.hpp")]),
P("C08", "Set algebra on one level is the pointwise boolean algebra",
  "Intersection, union and difference of cell sets of the same level, nested arbitrarily, emit exactly the cells that belong to the boolean combination of the operands, each exactly once, as non-empty intervals in sorted order, and a set expression can be applied again with the same result.",
  ["inputs", "programs"], "all operand sets within the segment and row bounds, all listed expression shapes, 1D to 3D",
  "Tests apply a handful of literal intervals; the sweep advances on the relative order of all bounds, which the solver enumerates completely.",
  ["subset/subset_op.hpp", "subset/subset_op_base.hpp", "subset/node_op.hpp", "subset/subset_node.hpp"], [("sub_apply sweep", "subset/subset_op_base.hpp"), ("boolean operators", "subset/operators.hpp")]),
P("C09", "Set algebra across levels is the algebra of the projected sets",
  "A set expression over operands of different levels, evaluated on any level, emits exactly the cells given by the boolean combination of the operands each projected on the evaluation level (a coarse cell is in the projection of a finer set when it contains one of its cells, a fine cell when its ancestor is in the coarser set), each exactly once.",
  ["inputs", "configurations"], "all operand sets within bounds, all operand levels and result levels within bounds, negative and odd coordinates included",
  "Rounding of odd and negative bounds and the interplay of levels in the sweep are sampled by a few cases in the tests.",
  ["subset/subset_op.hpp", "subset/subset_op_base.hpp", "subset/subset_node.hpp"], [("on(level) / level shifts", "subset/subset_op.hpp"), ("subset_node start/end shifts", "subset/subset_node.hpp")]),
P("C10", "Translating a set moves exactly its cells",
  "A translated set used in any expression, on its own level or combined with sets of other levels, behaves as the set of its cells moved by the vector (in units of its own level).",
  ["inputs"], "all operand sets and all translation vectors within bounds, 1D to 3D, one or several levels",
  "Tests use two or three fixed translations; odd translations on fine levels seen from coarse ones are not covered.",
  ["subset/node_op.hpp", "subset/subset_node.hpp"], [("translate", "subset/node_op.hpp")]),
P("C12", "Any refine/coarsen tags yield a graded partition with carried-over values",
  "Whatever refine, keep and coarsen tags the leaves carry, the graduated mesh update yields leaves that partition the same domain within the allowed levels with level jumps of at most one between touching leaves (diagonals included); leaves tagged to refine are refined, leaves not tagged to coarsen are not merged, and the return value tells whether the mesh changed. Leaves that stay keep their values, merged leaves take the mean, refined ones the prediction.",
  ["inputs", "configurations"], "all graded partitions and tag assignments within the bounds, arbitrary values, any position of the domain, AMR and multiresolution meshes",
  "Tests adapt a few smooth fields; conflicting tags across level jumps arise only for particular partitions.",
  ["algorithm/graduation.hpp", "algorithm/update.hpp", "amr/mesh.hpp", "mr/mesh.hpp"], [("graduation", "algorithm/graduation.hpp"), ("update_field", "algorithm/update.hpp")]),
P("C14", "A multiresolution mesh stores its leaves and every ghost its schemes need",
  "For every partition of a domain into leaves, a multiresolution mesh stores exactly these leaves, derives the domain and the subdivided regions from them, stores every cell within the stencil width of a leaf, every ancestor needed by projection with its children, and the whole prediction stencil of every predicted ghost; all sub-meshes share one numbering.",
  ["inputs", "configurations"], "all leaf partitions within the depth, size and segment bounds",
  "Tests check a handful of meshes; a missing ghost needs a particular refinement pattern near a boundary or level jump.",
  ["mr/mesh.hpp", "mesh.hpp"], [("MRMesh::update_sub_mesh_impl", "mr/mesh.hpp"), ("Mesh_base construction", "mesh.hpp")]),
P("C15", "AMR and uniform meshes store their leaves and the ghosts their users read",
  "For every graded partition of a domain, with or without holes, an AMR or uniform mesh stores exactly the given leaves, every cell within the ghost width of them, the coarser cells that projection and prediction of its ghosts read, one numbering of all of them, and the domain, levels and periodicity it was given; swapping exchanges two meshes completely. On the AMR mesh a ghost update leaves the leaves unchanged and gives every ghost inside the domain the mean of its children or the prediction from the coarser level.",
  ["inputs", "configurations"], "all graded partitions within bounds, anywhere, arbitrary values, 1D to 3D, ghost widths 1 and 2",
  "Tests never build adapted AMR meshes with holes; a missing ghost needs a particular refinement pattern.",
  ["amr/mesh.hpp", "uniform_mesh.hpp", "mesh.hpp", "algorithm/update.hpp"], [("amr::Mesh::update_sub_mesh_impl", "amr/mesh.hpp"), ("UniformMesh", "uniform_mesh.hpp"), ("update_ghost", "algorithm/update.hpp"), ("Mesh_base::swap", "mesh.hpp")]),
P("C16", "Projection gives each coarse cell the mean of its children",
  "Projecting a field from a level to the next coarser one gives each coarse cell exactly the arithmetic mean of the values of its 2^dim children, component by component, in place or into another field, for one field or several at once, whatever the memory layout, and changes no other value.",
  ["inputs"], "all cell values, all positions and lengths of the projected interval, 1D to 3D, scalar and vector fields in both layouts",
  "Tests project smooth data on a few full meshes with one layout; an index slip shows only for some layout, dimension or position.",
  ["numeric/projection.hpp", "field.hpp", "operators_base.hpp"], [("projection_op_", "numeric/projection.hpp"), ("field(level, interval, ...) access", "field.hpp")]),
P("C17", "Prediction is the conservative interpolation of the coarse values",
  "Predicting a field on the next finer level gives each fine cell the polynomial interpolation of the coarse means of the requested order: the children of a coarse cell average to its value, in one dimension polynomials of degree up to twice the order are reproduced exactly, and in several dimensions each fine value is the prescribed combination of directional and mixed corrections. This holds for every position and parity of the predicted cells, every order and every field layout, and no other value changes.",
  ["inputs", "configurations"], "all cell values, all positions, parities and lengths of the predicted interval, orders 0 to 5 (1D), 0 to 3 (2D), 0 to 2 (3D)",
  "Tests run smooth demos at order 1; odd-start intervals, higher orders, dimension 3 and SOA layouts are sampled or absent.",
  ["numeric/prediction.hpp"], [("prediction_op", "numeric/prediction.hpp"), ("Qs_i, Qs_ij, Qs_ijk, interp_coeffs", "numeric/prediction.hpp")]),
P("C18", "Ghost update gives every ghost the value the leaves determine",
  "After a ghost update of one or several fields the leaves are unchanged, every subdivided cell holds the mean of its children, every other stored cell inside the domain holds the prediction from the level below, cells across a periodic boundary equal their image, and cells outside a non-periodic boundary follow the boundary condition or its extrapolation (corners included).",
  ["inputs", "configurations"], "all graded leaf partitions within the bounds, arbitrary leaf and stale ghost values, 1D to 3D, every mix of periodic and non-periodic directions listed",
  "Demos compare a few smooth runs; a stale ghost needs a particular partition next to a boundary, corner or level jump, and small errors pass unnoticed.",
  ["algorithm/update.hpp", "bc.hpp", "mr/mesh.hpp", "numeric/prediction.hpp", "numeric/projection.hpp"], [("update_ghost_mr", "algorithm/update.hpp"), ("update_ghost_periodic", "algorithm/update.hpp"), ("update_bc", "bc.hpp")]),
P("C19", "Boundary conditions fill the outside ghosts as prescribed",
  "A Dirichlet condition of order k gives the k ghosts of a boundary cell the values of the polynomial through its k innermost neighbours and the boundary value; a Neumann condition gives the prescribed slope; layers no condition fills, and diagonals, are extrapolated. Each part of the boundary gets the condition attached to it (everywhere, by direction, by a set of faces), and a boundary function is evaluated with the outward direction at the centre of the face.",
  ["inputs", "configurations"], "all cell and boundary values, orders 1 to 4, 1D to 3D, any domain position, any assignment of faces to two conditions, partitions within bounds",
  "Tests check one or two orders with fixed values; a wrong coefficient or face shows only for some order, direction or ghost layer.",
  ["bc.hpp", "stencil.hpp"], [("DirichletImpl, NeumannImpl, PolynomialExtrapolation", "bc.hpp"), ("apply_bc_impl, apply_extrapolation_bc_impl", "bc.hpp"), ("BcRegion", "bc.hpp"), ("convert_for_direction", "stencil.hpp")]),
P("C20", "Mesh adaptation conserves means, stays graded and obeys the threshold",
  "Adapting a mesh to one or several fields with any threshold yields leaves that partition the same domain within the level bounds with level jumps of at most one (across periodic boundaries too), and every cell covered before and after keeps its mean value in every field and component. A constant field coarsens to the minimum level, a leaf whose detail reaches the threshold of its level is not merged, and one whose detail exceeds the refinement threshold is refined.",
  ["inputs", "histories"], "all graded partitions within bounds, arbitrary values and thresholds, 1D to 3D, periodic or not",
  "Demos adapt smooth profiles with one threshold; tag conflicts and prediction/projection order matter only for rough data on particular partitions.",
  ["mr/adapt.hpp", "mr/operators.hpp", "mr/criteria.hpp", "algorithm/update.hpp"], [("Adapt::operator(), harten", "mr/adapt.hpp"), ("to_coarsen_mr, to_refine_mr, keep_around_refine", "mr/criteria.hpp"), ("update_field_mr", "algorithm/update.hpp")]),
P("C21", "Fields hold one value per cell and expressions act leaf by leaf",
  "On every graded mesh, assigning an arithmetic expression of fields gives each leaf the expression of its own values and changes nothing else (the destination may appear in the expression); the upwind operator expression gives each leaf the difference of its upwind face fluxes. Copies are equal, independent and carry name, mesh and boundary conditions; comparison tells whether the leaves agree; every accessor (cell, number, interval, strided interval, component range, iterator in either direction) reaches the same values, whatever the layout.",
  ["inputs", "configurations"], "all graded partitions within bounds, arbitrary values, any part of any stored interval, scalar and vector fields in both layouts, 1D to 3D",
  "Tests use scalar fields on uniform meshes; view arithmetic for sub-intervals, strides, layouts and missing levels is not covered.",
  ["field.hpp", "field_expression.hpp", "stencil_field.hpp", "operators_base.hpp"], [("Field::operator()", "field.hpp"), ("field_function::evaluate", "field_expression.hpp"), ("upwind_op", "stencil_field.hpp"), ("Field_iterator", "field.hpp")]),
P("C22", "Reconstruction, portions and transfer give the interpolated fine values",
  "Reconstructing a field gives every cell of the finest level of the domain the recursive interpolation of the leaf containing it (the leaf's own value when it is a finest cell), a portion gives the same interpolated value of any fine cell, or the sum over any box of fine cells, for any depth, and transferring a field to another mesh of the same domain gives each leaf the mean of the source leaves it contains, their value, or the interpolation of the source leaf containing it. Component by component, whatever the layout, order and earlier calls, and the source is unchanged.",
  ["inputs", "histories"], "all graded partitions (pairs of them for transfer) within bounds, arbitrary stored values, any fine cell or box, depths 1 to 3, orders 0 to 2, 1D to 3D",
  "One test reconstructs a smooth function; caches, vector fields and deep levels are not tested.",
  ["reconstruction.hpp"], [("reconstruction, reconstruction_op_", "reconstruction.hpp"), ("prediction", "reconstruction.hpp"), ("portion", "reconstruction.hpp"), ("transfer", "reconstruction.hpp")]),
P("C23", "Interface loops visit every face between leaves exactly once",
  "On every graded mesh, the loops over interior interfaces visit every face between two leaves (same level or one level apart) exactly once per direction with the two cells and the stencil on the finer level's side that documentation promises, and the loops over boundary interfaces visit every face between a leaf and the outside of the domain exactly once; nothing else is visited.",
  ["inputs", "configurations"], "all graded partitions within bounds of domains with or without holes, anywhere, stencils of 2 and 4 cells, 1D to 3D",
  "Scheme tests compare final errors on smooth data; a face visited twice or missed at one kind of level jump barely changes them.",
  ["interface.hpp", "stencil.hpp", "boundary.hpp"], [("for_each_interior_interface", "interface.hpp"), ("for_each_boundary_interface", "interface.hpp"), ("IteratorStencil", "stencil.hpp")]),
P("C24", "A flux-based scheme gives each cell the sum of its face fluxes",
  "Applying a flux-based scheme explicitly gives every leaf the sum over its faces of the face's flux times face measure over cell measure, each flux computed once from cells of the finer of the two levels and received with opposite signs by both sides (or as the pair the scheme returns), boundary faces included unless excluded. This holds for linear, heterogeneous and non-linear schemes, whatever the component counts and stencil order, and the provided operators (diffusion, gradient, divergence, upwind convection) have the fluxes they are defined by.",
  ["inputs", "configurations"], "all graded partitions within bounds, arbitrary values including ghosts, an arbitrary flux value per face for the non-linear schemes, 1D to 3D",
  "Convergence tests average over many cells of smooth data; a wrong factor at one kind of level jump or one component only shifts constants.",
  ["schemes/fv/flux_based/flux_based_scheme__lin_hom.hpp", "schemes/fv/flux_based/flux_based_scheme__lin_het.hpp", "schemes/fv/flux_based/flux_based_scheme__nonlin.hpp", "schemes/fv/operators/convection_lin.hpp", "schemes/fv/operators/diffusion.hpp", "interface.hpp"], [("FluxBasedScheme::for_each_interior_interface", "schemes/fv/flux_based/flux_based_scheme__nonlin.hpp"), ("Explicit<FluxBasedScheme>", "schemes/fv/flux_based/explicit_flux_based_scheme__nonlin.hpp"), ("make_convection_upwind", "schemes/fv/operators/convection_lin.hpp")]),
P("C25", "A cell-based scheme gives each cell its local formula and nothing else",
  "Applying a cell-based scheme explicitly gives every leaf exactly the value of its formula: the combination of the stencil values with the coefficients of its level for linear schemes, the scheme function of its stencil cells for non-linear ones; identity and zero operators return the field and zero.",
  ["inputs", "configurations"], "all graded partitions within bounds, arbitrary values, star stencils of width 0 to 2 and user stencils, 1D to 3D, scalar and vector fields",
  "No unit test applies cell-based schemes on adapted meshes with several components.",
  ["schemes/fv/cell_based/cell_based_scheme.hpp", "schemes/fv/cell_based/cell_based_scheme__lin_hom.hpp", "schemes/fv/cell_based/cell_based_scheme__nonlin.hpp"], [("CellBasedScheme", "schemes/fv/cell_based/cell_based_scheme__lin_hom.hpp"), ("Explicit<CellBasedScheme>", "schemes/fv/cell_based/explicit_cell_based_scheme.hpp")]),
P("C26", "Saved files describe exactly the mesh's cells, geometry and values",
  "Saving a mesh with fields writes, for each grid (whole mesh, level and/or sub mesh), every cell of that grid exactly once, with the corners of that cell as its points in the format's order, each distinct point once, and in every field's data set the value of that cell in that cell's row. The description file refers to these data sets with their true sizes.",
  ["inputs", "configurations"], "all graded partitions within bounds at any position, arbitrary values, all mesh kinds and all options (by level, by mesh), 1D to 3D",
  "The tests never look into a saved file; a row permutation or a wrong corner passes unnoticed.",
  ["hdf5.hpp"], [("extract_coords_and_connectivity", "hdf5.hpp"), ("extract_data", "hdf5.hpp"), ("save_on_mesh / save_field", "hdf5.hpp")]),
P("C27", "Sums and multiples of schemes act as the sum and multiple of their results",
  "For any two schemes A and B and scalar c, applying A+B, A-B, -A and c*A to a field gives the sum, difference, opposite and multiple of applying A and B separately, for every mix of flux-based, cell-based, linear, heterogeneous and non-linear schemes and sums of them, and building such an expression leaves its operands unchanged.",
  ["inputs", "configurations"], "all graded 1D (and 2D) partitions within bounds, arbitrary values and fluxes, every combination of scheme kinds listed",
  "Tests build at most one or two such combinations, and only compile-time dispatch decides which overload runs.",
  ["schemes/fv/scheme_operators.hpp", "schemes/fv/flux_based/algebraic_operators.hpp", "schemes/fv/cell_based/algebraic_operators.hpp", "schemes/fv/explicit_operator_sum.hpp"], [("operator+, operator-, operator*", "schemes/fv/scheme_operators.hpp"), ("operator+, operator*", "schemes/fv/flux_based/algebraic_operators.hpp"), ("operator+, operator*", "schemes/fv/cell_based/algebraic_operators.hpp")]),
P("C28", "The detail of a cell is its value minus the predicted value",
  "The details computed for adaptation equal, for each child of a parent cell, the stored value minus the value predicted from the parent level, for one field or a tuple of fields, component by component in the declared order, whatever the layouts.",
  ["inputs"], "all cell values, positions and interval lengths, orders 1 to 3, 1D to 3D, single fields and tuples mixing scalar and vector fields",
  "No unit test checks details; adaptation demos only compare final results of one scalar field.",
  ["mr/operators.hpp", "numeric/prediction.hpp"], [("compute_detail_op, compute_detail_on_tuple_op", "mr/operators.hpp")]),
P("C29", "Quadrature is exact on polynomials and the L2 error sums the leaves",
  "The Gauss-Legendre quadrature of degree d integrates every polynomial of degree at most d in each direction exactly over any cell, component by component (up to the digits of its tables). The L2 error of a field is the square root of the sum over the leaves, and only them, of the squared difference to the exact solution at the cell centre times the cell's volume (divided by the norm of the exact solution when relative).",
  ["inputs"], "all polynomial coefficients, all degrees within bounds, several cells; all leaf partitions within bounds and arbitrary field values",
  "No test evaluates the quadrature tables; one wrong digit of one rule is only seen by integrating at full degree.",
  ["numeric/gauss_legendre.hpp", "numeric/error.hpp"], [("GaussLegendre::quadrature", "numeric/gauss_legendre.hpp"), ("L2_error", "numeric/error.hpp")]),
P("C30", "Making a cell array graded gives its coarsest graded refinement",
  "For any set of cells, is_graduated answers whether no two cells facing each other (within the given neighbourhood) differ by more than one level, and make_graduation terminates with the coarsest refinement of the given cells that is graded: same region, no cell coarsened, no cell refined without need, cells numbered consecutively.",
  ["inputs"], "all partitions, graded or not, of the domains within bounds, anywhere; neighbourhood widths 1 and 2",
  "The test suite never calls make_graduation or is_graduated; only meshes whose levels jump by three or more expose the propagation.",
  ["graduation.hpp"], [("make_graduation, is_graduated", "graduation.hpp")]),
]
NA = [
("N01", "MPI-distributed meshes agree with the sequential result",
  "With MPI, subdomain meshes and ghost exchanges give every rank the values the sequential run has.",
  ["schedules", "configurations"], "any number of ranks and any partition of the domain", "The test suite runs on one process.",
  ["mesh.hpp", "algorithm/update.hpp"], [("MPI exchange", "algorithm/update.hpp")],
  "the build here has no MPI and Boost.MPI/serialization; the distributed code is compiled out (SAMURAI_WITH_MPI), so there is no IR of the real code to execute symbolically"),
("N02", "OpenMP execution gives the sequential result",
  "Parallel traversals and parallel flux application give the same result as the sequential ones for every thread schedule.",
  ["schedules"], "any thread count and interleaving", "The tests run the sequential build.",
  ["algorithm.hpp", "schemes/fv/flux_based/explicit_flux_based_scheme__lin_hom.hpp"], [("Run::Parallel", "algorithm.hpp")],
  "the OpenMP paths are compiled out in the build under test (SAMURAI_WITH_OPENMP off) and delegate to the OpenMP runtime, whose scheduling the engine does not model"),
("N03", "Meshes created from CGAL geometries cover the geometry",
  "A mesh initialised from a surface geometry refines exactly the cells that meet the surface.",
  ["inputs"], "any closed surface", "No test covers it.",
  ["io/from_geometry.hpp"], [("from_geometry", "io/from_geometry.hpp")],
  "CGAL is not installed in the sandbox, so the code cannot be compiled to IR"),
]
TECH = "bounded symbolic execution of the LLVM IR compiled from /repo's headers (engine/symir, z3 decides every branch and assertion), counterexamples replayed natively"
def main():
    from props import PROPS as RUNS
    assert [p["id"] for p in PROPS] == sorted(RUNS), (sorted(RUNS), [p["id"] for p in PROPS])
    lines, checks = [], []
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        note = p.pop("note", "")
        lines.append(p)
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"], technique=TECH, level="model_checking",
                           level_note="exhaustive within the bounds of each run: " + "; ".join("%s: %s" % (r["name"], r["bounds"]) for r in RUNS[p["id"]]["runs"] if "quick" in r.get("tiers", ("quick",)))[:1500] + ((". " + note) if note else "")))
    na = []
    for n in NA:
        lines.append(P(*n[:-1])); na.append(dict(property=n[0], reason=n[-1]))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for l in lines: f.write(json.dumps(l) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3 check.py --build-engine", checks=checks, not_applicable=na), f, indent=1); f.write("\n")
main()
