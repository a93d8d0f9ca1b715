# Property id -> symbolic runs. Each run is one harness instantiation with its bounds.
def R(name, src, bounds, *defs, **kw):
    return dict(name=name, src=src, bounds=bounds, defs=["-D" + d for d in defs], **kw)
Q, T = ("quick",), ("thorough",)
E20 = "endpoints anywhere in [-2^20,2^20]"
PROPS = {
 "C01": {"runs": [R("interval", "interval.cpp", "any interval with endpoints in [-2^24,2^24], any coordinate, shifts 0..24, factors 1..9")]},
 "C02": {"runs": [R("loi", "loi.cpp", "any canonical list of <=3 intervals, endpoints in [-2^29,2^29], one add_interval (inductive step)")]},
 "C03": {"runs": [R("st1", "storage.cpp", "1D, <=3 symbolic segments", "DIM=1", "SEGS=3"),
                  R("st2", "storage.cpp", "2D, 3 rows x <=1 symbolic segment, symbolic origin", "DIM=2", "SEGS=1", "ROWS=3"),
                  R("st2b", "storage.cpp", "2D, 2 rows x <=2 symbolic segments", "DIM=2", "SEGS=2", "ROWS=2"),
                  R("st3", "storage.cpp", "3D, 2x2 rows x <=1 symbolic segment, symbolic origin", "DIM=3", "SEGS=1", "ROWS=2"),
                  R("st2t", "storage.cpp", "2D, 4 rows x <=2 symbolic segments", "DIM=2", "SEGS=2", "ROWS=4", tiers=T)]},
 "C04": {"runs": [R("lk1", "lookup.cpp", "1D, <=3 symbolic segments, any query point", "DIM=1", "SEGS=3"),
                  R("lk2", "lookup.cpp", "2D, 2 rows x <=2 symbolic segments, any query point", "DIM=2", "SEGS=2", "ROWS=2"),
                  R("lk3", "lookup.cpp", "3D, 2x2 rows x <=1 symbolic segment, any query point", "DIM=3", "SEGS=1", "ROWS=2"),
                  R("lk1t", "lookup.cpp", "1D, <=6 symbolic segments", "DIM=1", "SEGS=6", tiers=T),
                  R("lk2t", "lookup.cpp", "2D, 4 rows x <=2 symbolic segments", "DIM=2", "SEGS=2", "ROWS=4", tiers=T)]},
 "C05": {"runs": [R("it1", "iterate.cpp", "1D, 3 levels, <=2 symbolic segments each", "DIM=1", "SEGS=2", "LEVELS=3"),
                  R("it2", "iterate.cpp", "2D, 3 levels, 2 rows x <=1 symbolic segment", "DIM=2", "SEGS=1", "ROWS=2", "LEVELS=3"),
                  R("it2b", "iterate.cpp", "2D, 1 level, 3 rows x <=2 symbolic segments", "DIM=2", "SEGS=2", "ROWS=3", "LEVELS=1"),
                  R("it3", "iterate.cpp", "3D, 1 level, 2x2 rows x <=1 symbolic segment", "DIM=3", "SEGS=1", "ROWS=2", "LEVELS=1"),
                  R("cells1", "iterate.cpp", "cells one by one: 1D, 3 levels, bounded lengths", "DIM=1", "SEGS=1", "LEVELS=3", "CELLS=1"),
                  R("cells2", "iterate.cpp", "cells one by one: 2D, 2 rows, bounded lengths", "DIM=2", "SEGS=1", "ROWS=2", "LEVELS=1", "CELLS=1"),
                  R("cells3", "iterate.cpp", "cells one by one: 3D, 2x2 rows, bounded lengths", "DIM=3", "SEGS=1", "ROWS=2", "LEVELS=1", "CELLS=1")]},
 "C06": {"runs": [R("nb1", "lookup.cpp", "1D, 2 levels, <=2 symbolic segments each", "DIM=1", "SEGS=2", "LEVELS=2", "NUMBERING"),
                  R("nb2", "lookup.cpp", "2D, 2 levels, 2 rows x <=1 symbolic segment", "DIM=2", "SEGS=1", "ROWS=2", "LEVELS=2", "NUMBERING"),
                  R("nb3", "lookup.cpp", "3D, 1 level, 2x2 rows x <=1 symbolic segment", "DIM=3", "SEGS=1", "ROWS=2", "NUMBERING")]},
 "C07": {"runs": [R("c1", "geometry.cpp", "cells 1D, levels 0..20, 5 scaling factors, any origin and index", "MODE=2"),
                  R("c2", "geometry.cpp", "cells 2D", "MODE=2", "DIM=2"),
                  R("c3", "geometry.cpp", "cells 3D", "MODE=2", "DIM=3"),
                  R("b1", "geometry.cpp", "box 1D, 4 lengths, 3 tolerances, levels 0..4, any corner", "TOLS=3", "NLEN=4", "LMAX=4"),
                  R("b1s", "geometry.cpp", "box 1D, given scaling factor", "SCALE", "NLEN=4", "LMAX=3"),
                  R("b2", "geometry.cpp", "box 2D, any length in x up to twice that in y (3 values), levels 0..1", "DIM=2", "SHORT=1", "LMAX=1", "RATIO=2"),
                  R("b2s", "geometry.cpp", "box 2D, given scaling factor, any length in y", "DIM=2", "SCALE", "LMAX=1", "RATIO=2", "NLEN=2"),
                  R("m1", "geometry.cpp", "multiresolution mesh of a 1D box", "MODE=3", "MESH=1"),
                  R("m1p", "geometry.cpp", "multiresolution mesh of a 1D box, periodic or not", "MODE=3", "MESH=1", "PERIODIC", "SCALE"),
                  R("m2", "geometry.cpp", "AMR mesh of a 1D box", "MODE=3", "MESH=2"),
                  R("m3", "geometry.cpp", "uniform mesh of a 1D box", "MODE=3", "MESH=3"),
                  R("b2t", "geometry.cpp", "box 2D, any length in x up to three times that in y", "DIM=2", "SHORT=1", "LMAX=2", "RATIO=3", "NLEN=4", tiers=T)]},
 "C08": {"runs": [R("a1", "setops.cpp", "1D, 2 sets x <=2 symbolic segments, 7 expressions, " + E20, "DIM=1", "SEGS=2"),
                  R("a1b", "setops.cpp", "1D, 3 sets x <=1 segment, 8 expressions, " + E20, "DIM=1", "SEGS=1", "LEAVES=3"),
                  R("a2", "setops.cpp", "2D, 2 sets x 2 rows x <=1 segment, symbolic origin, row offset -1..1", "DIM=2", "SEGS=1", "ROWS=2", "ORIGIN", "OFFSETS"),
                  R("a2b", "setops.cpp", "2D, 3 sets x 1 row x <=1 segment, row offset -1..1", "DIM=2", "SEGS=1", "ROWS=1", "LEAVES=3", "OFFSETS"),
                  R("a3", "setops.cpp", "3D, 2x2 rows and 1 row x <=1 segment, offsets -1..1", "DIM=3", "SEGS=1", "ROWS=2", "ROWS1=1", "OFFSETS"),
                  R("a1t", "setops.cpp", "1D, 2 sets x <=3 segments", "DIM=1", "SEGS=3", tiers=T),
                  R("a2t", "setops.cpp", "2D, 3 sets x 2 rows x <=1 segment", "DIM=2", "SEGS=1", "ROWS=2", "LEAVES=3", tiers=T),
                  R("a3t", "setops.cpp", "3D, 2 sets x 2x2 rows x <=1 segment", "DIM=3", "SEGS=1", "ROWS=2", tiers=T)]},
 "C09": {"runs": [R("m1", "setops.cpp", "1D, 2 sets x <=1 segment, levels 0..3, result level 0..4", "DIM=1", "SEGS=1", "LMAX=3"),
                  R("m1c", "setops.cpp", "1D, <=2 and <=1 segments, levels 0..1, result level 0..2", "DIM=1", "SEGS=2", "SEGS1=1", "LMAX=1"),
                  R("m1b", "setops.cpp", "1D, 3 sets x <=1 segment, 3 expressions, levels 0..1, result level 0..2", "DIM=1", "SEGS=1", "LEAVES=3", "LMAX=1", "OPLO=2", "OPHI=4"),
                  R("m2", "setops.cpp", "2D, 2 rows and 1 row x <=1 segment, levels 0..1, result level 0..2", "DIM=2", "SEGS=1", "ROWS=2", "ROWS1=1", "LMAX=1"),
                  R("m2l", "setops.cpp", "2D, 2 rows and 1 row x <=1 segment, 3 operations, levels 0..2, result level 0..3", "DIM=2", "SEGS=1", "ROWS=2", "ROWS1=1", "LMAX=2", "OPLO=0", "OPHI=2"),
                  R("m3", "setops.cpp", "3D, 1 row each x <=1 segment, 3 operations, levels 0..2, result level 0..3", "DIM=3", "SEGS=1", "ROWS=1", "ROWS1=1", "LMAX=2", "OPLO=0", "OPHI=2"),
                  R("m3y", "setops.cpp", "3D, 2x1 rows and 1 row x <=1 segment, 3 operations, levels 0..1, result level 0..2", "DIM=3", "SEGS=1", "ROWS=2", "ROWSZ=1", "ROWS1=1", "LMAX=1", "OPLO=0", "OPHI=2"),
                  R("m3z", "setops.cpp", "3D, 1x2 rows and 1 row x <=1 segment, 3 operations, levels 0..1, result level 0..2", "DIM=3", "SEGS=1", "ROWS=1", "ROWSZ=2", "ROWS1=1", "LMAX=1", "OPLO=0", "OPHI=2"),
                  R("m1bt", "setops.cpp", "1D, 3 sets, 8 expressions, levels 0..1", "DIM=1", "SEGS=1", "LEAVES=3", "LMAX=1", tiers=T),
                  R("m2t", "setops.cpp", "2D, 4 rows and 1 row, levels 0..2", "DIM=2", "SEGS=1", "ROWS=4", "ROWS1=1", "LMAX=2", tiers=T),
                  R("m3t", "setops.cpp", "3D, 2x2 rows and 1 row, levels 0..1", "DIM=3", "SEGS=1", "ROWS=2", "ROWS1=1", "LMAX=1", tiers=T)]},
 "C10": {"runs": [R("t1", "setops.cpp", "1D, 2 sets x <=2 segments, any translation in [-2^20,2^20]", "DIM=1", "SEGS=2", "TRANSLATE=1"),
                  R("t1m", "setops.cpp", "1D, <=1 segment, levels 0..2, any translation", "DIM=1", "SEGS=1", "TRANSLATE=1", "LMAX=2"),
                  R("t2", "setops.cpp", "2D, 2 rows x <=1 segment, row translation -2..2", "DIM=2", "SEGS=1", "ROWS=2", "TRANSLATE=2"),
                  R("t2m", "setops.cpp", "2D, 2 rows and 1 row, levels 0..1, row translation -1..1", "DIM=2", "SEGS=1", "ROWS=2", "ROWS1=1", "TRANSLATE=1", "LMAX=1"),
                  R("t3m", "setops.cpp", "3D, 1 row and 2 moved y-rows, 3 operations, levels 0..1, translations -1..1", "DIM=3", "SEGS=1", "ROWS=1", "ROWSZ=1", "ROWS1=2", "ROWSZ1=1", "LMAX=1", "TRANSLATE=1", "OPLO=0", "OPHI=2"),
                  R("t3n", "setops.cpp", "3D, 1 row and 2 moved z-rows, 3 operations, levels 0..1, translations -1..1", "DIM=3", "SEGS=1", "ROWS=1", "ROWSZ=1", "ROWS1=1", "ROWSZ1=2", "LMAX=1", "TRANSLATE=1", "OPLO=0", "OPHI=2"),
                  R("t2l", "setops.cpp", "2D, 1 row and 2 moved rows, 3 operations, levels 0..2, translations -1..1", "DIM=2", "SEGS=1", "ROWS=1", "ROWS1=2", "LMAX=2", "TRANSLATE=1", "OPLO=0", "OPHI=2"),
                  R("t3", "setops.cpp", "3D, 2x2 rows and 1 row, row translations -1..1", "DIM=3", "SEGS=1", "ROWS=2", "ROWS1=1", "TRANSLATE=1")]},
 "C12": {"runs": [R("g1m", "grad.cpp", "1D, levels 1..3, any graded partition of one root cell anywhere, a common tag and two leaves with their own, arbitrary values (multiresolution mesh)", "DIM=1", "NX=1", "MINL=1", "MAXL=3", "MR", "MRU", "KT=2", time=200),
                  R("g1mt", "grad.cpp", "the same with any tags", "DIM=1", "NX=1", "MINL=1", "MAXL=3", "MR", tiers=T),
                  R("g1a", "grad.cpp", "any tags on an AMR mesh, same partitions", "DIM=1", "NX=1", "MINL=1", "MAXL=3", time=200),
                  R("g2m", "grad.cpp", "2D, levels 1..2, any partition, a common tag and one leaf with its own, two fields", "DIM=2", "NX=1", "MINL=1", "MAXL=2", "KT=1", "MR", "MRU", "NF=2"),
                  R("g2a", "grad.cpp", "2D, levels 1..3, <=3 refined cells, a common tag and one leaf with its own (AMR mesh)", "DIM=2", "NX=1", "MINL=1", "MAXL=3", "KT=1", "BUDGET=3"),
                  R("g3m", "grad.cpp", "3D, levels 0..1, a common tag and one leaf with its own", "DIM=3", "NX=1", "MINL=0", "MAXL=1", "KT=1", "MR"),
                  R("g3l", "grad.cpp", "3D, levels 0..2, two root cells, <=1 refined cell, a common tag and one leaf with its own", "DIM=3", "NX=2", "MINL=0", "MAXL=2", "KT=1", "BUDGET=1", "MR"),
                  R("g2t", "grad.cpp", "2D, levels 1..2, two leaves with their own tag", "DIM=2", "NX=1", "MINL=1", "MAXL=2", "KT=2", "MR", tiers=T),
                  R("g3t", "grad.cpp", "3D, levels 1..2, one refined cell, one leaf with its own tag", "DIM=3", "NX=1", "MINL=1", "MAXL=2", "KT=1", "BUDGET=1", tiers=T),
                  R("g1t", "grad.cpp", "1D, levels 1..3, any graded partition of two root cells, any tags", "DIM=1", "NX=2", "MINL=1", "MAXL=3", "MR", tiers=T)]},
 "C14": {"runs": [R("mr1", "mrmesh.cpp", "1D, 2 levels, any refined segment of any domain segment, endpoints in [-2^16,2^16]", "DIM=1", "DEPTH=1", "SEL=1"),
                  R("mr1b", "mrmesh.cpp", "1D, 3 levels, domain length <=4 anywhere, any nested refined segments", "DIM=1", "DEPTH=2", "SEL=1", "LEN=4"),
                  R("mr2", "mrmesh.cpp", "2D, 2 levels, domain 1..3 x 1 anywhere in x, any refined segment", "DIM=2", "DEPTH=1", "ROWS=1", "SEL=1", "LEN=3"),
                  R("w1", "meshes.cpp", "1D, levels 1..3, any graded partition of 1..2 root cells anywhere, every ghost, swap", "DIM=1", "NX=2", "MAXL=3", "MESH=1"),
                  R("w1z", "meshes.cpp", "1D, levels 0..3, one root cell", "DIM=1", "MINL=0", "MAXL=3", "MESH=1"),
                  R("w1h", "meshes.cpp", "1D, levels 0..2, domain with holes", "DIM=1", "NX=3", "HOLES", "MINL=0", "MAXL=2", "MESH=1"),
                  R("w1p", "meshes.cpp", "1D periodic, levels 1..2", "DIM=1", "PERX=1", "MESH=1"),
                  R("w2", "meshes.cpp", "2D, levels 1..2, stencil width 2, prediction order 2", "DIM=2", "SW=2", "PO=2", "MESH=1"),
                  R("w2l", "meshes.cpp", "2D, levels 1..3, <=3 refined cells", "DIM=2", "MAXL=3", "BUDGET=3", "MESH=1"),
                  R("w2h", "meshes.cpp", "2D, levels 0..1, 2 x 2 root cells with holes", "DIM=2", "MINL=0", "MAXL=1", "NX=2", "NY=2", "HOLES", "MESH=1"),
                  R("w2p", "meshes.cpp", "2D periodic in both directions, levels 1..2", "DIM=2", "PERX=1", "PERY=1", "MESH=1"),
                  R("w3", "meshes.cpp", "3D, levels 0..1", "DIM=3", "MINL=0", "MAXL=1", "MESH=1"),
                  R("w3l", "meshes.cpp", "3D, levels 1..2, <=2 refined cells", "DIM=3", "MINL=1", "MAXL=2", "BUDGET=2", "MESH=1"),
                  R("w2t", "meshes.cpp", "2D, levels 1..3, <=6 refined cells", "DIM=2", "MAXL=3", "BUDGET=6", "MESH=1", tiers=T),
                  R("mr1t", "mrmesh.cpp", "1D, 3 levels, any nested refined segments of any domain segment", "DIM=1", "DEPTH=2", "SEL=1", tiers=T),
                  R("mr2t", "mrmesh.cpp", "2D, 2 levels, domain 1..3 x 2, any refined segment per row", "DIM=2", "DEPTH=1", "ROWS=2", "SEL=1", "LEN=3", tiers=T)]},
 "C15": {"runs": [R("x1", "meshes.cpp", "AMR 1D, levels 0..2, any graded partition anywhere, arbitrary values", "DIM=1", "MINL=0", "MAXL=2", "MESH=2"),
                  R("x1n", "meshes.cpp", "AMR 1D, levels 1..3, 1..2 root cells", "DIM=1", "NX=2", "MAXL=3", "MESH=2"),
                  R("x1s", "meshes.cpp", "AMR 1D, levels 1..3, 1..2 root cells, stencil width 2", "DIM=1", "NX=2", "SW=2", "MAXL=3", "MESH=2"),
                  R("x2", "meshes.cpp", "AMR 2D, levels 1..2, any partition of one root cell", "DIM=2", "MESH=2"),
                  R("x2l", "meshes.cpp", "AMR 2D, levels 1..3, <=3 refined cells", "DIM=2", "MAXL=3", "BUDGET=3", "MESH=2"),
                  R("x2h", "meshes.cpp", "AMR 2D, levels 0..1, 2 x 2 root cells with holes", "DIM=2", "MINL=0", "MAXL=1", "NX=2", "NY=2", "HOLES", "MESH=2"),
                  R("x3", "meshes.cpp", "AMR 3D, levels 0..1", "DIM=3", "MINL=0", "MAXL=1", "MESH=2"),
                  R("y1", "meshes.cpp", "uniform 1D mesh", "DIM=1", "MESH=3"),
                  R("y2", "meshes.cpp", "uniform 2D mesh, 3 x 2 cells with holes, ghost width 2", "DIM=2", "NX=3", "NY=2", "SW=2", "HOLES", "MINL=0", "MESH=3"),
                  R("y3", "meshes.cpp", "uniform 3D mesh, ghost width 2", "DIM=3", "SW=2", "NX=2", "MESH=3"),
                  R("x3t", "meshes.cpp", "AMR 3D, levels 1..2, <=2 refined cells", "DIM=3", "MINL=1", "MAXL=2", "BUDGET=2", "MESH=2", tiers=T)]},
 "C16": {"runs": [R("p1", "projection.cpp", "1D, 1..4 coarse cells anywhere, arbitrary values, in place", "DIM=1", "NMAX=4"),
                  R("p1s", "projection.cpp", "1D, 3 components SOA, other destination", "DIM=1", "NC=3", "SOAL=true", "VARIANT=1"),
                  R("p2", "projection.cpp", "2D, 1..3 coarse cells anywhere, arbitrary values, in place", "DIM=2"),
                  R("p2v", "projection.cpp", "2D, 2 components AOS, several fields at once", "DIM=2", "NC=2", "VARIANT=2"),
                  R("p2s", "projection.cpp", "2D, 2 components SOA, other destination", "DIM=2", "NC=2", "SOAL=true", "VARIANT=1"),
                  R("p3", "projection.cpp", "3D, 1..3 coarse cells anywhere, arbitrary values, several fields", "DIM=3", "VARIANT=2"),
                  R("p3s", "projection.cpp", "3D, 2 components SOA, in place", "DIM=3", "NC=2", "SOAL=true", "NMAX=2")]},
 "C17": {"runs": [R("q1p%d" % o, "prediction.cpp", "1D, order %d, polynomials of degree <= %d with any coefficients, 1..4 fine cells anywhere, any parity" % (o, 2 * o), "DIM=1", "ORDER=%d" % o, "POLY") for o in range(6)]
              + [R("q1d", "prediction.cpp", "1D, order 2, arbitrary values, children of 1..3 cells", "DIM=1", "ORDER=2", "DESTL=true", "NMAX=3"),
                  R("q1s", "prediction.cpp", "1D, order 1, 2 components SOA, arbitrary values", "DIM=1", "ORDER=1", "NC=2", "SOAL=true"),
                  R("q1z", "prediction.cpp", "1D, order 0, 2 components AOS, arbitrary values", "DIM=1", "ORDER=0", "NC=2"),
                  R("q2", "prediction.cpp", "2D, order 1, arbitrary values, 1..4 fine columns anywhere, any parity", "DIM=2", "ORDER=1", "NMAX=4"),
                  R("q2z", "prediction.cpp", "2D, order 0, arbitrary values", "DIM=2", "ORDER=0", "NMAX=3"),
                  R("q2b", "prediction.cpp", "2D, order 2, arbitrary values", "DIM=2", "ORDER=2", "NMAX=3"),
                  R("q2d", "prediction.cpp", "2D, order 3, arbitrary values, children of 1..2 cells", "DIM=2", "ORDER=3", "DESTL=true", "NMAX=2"),
                  R("q2s", "prediction.cpp", "2D, order 1, 2 components SOA", "DIM=2", "ORDER=1", "NC=2", "SOAL=true", "NMAX=2"),
                  R("q2a", "prediction.cpp", "2D, order 1, 2 components AOS, children", "DIM=2", "ORDER=1", "NC=2", "DESTL=true", "NMAX=2"),
                  R("q3", "prediction.cpp", "3D, order 1, arbitrary values, 1..2 fine columns anywhere, any parity", "DIM=3", "ORDER=1", "NMAX=2"),
                  R("q3z", "prediction.cpp", "3D, order 0, arbitrary values", "DIM=3", "ORDER=0", "NMAX=2"),
                  R("q3d", "prediction.cpp", "3D, order 1, arbitrary values, children of 1..2 cells", "DIM=3", "ORDER=1", "DESTL=true", "NMAX=2"),
                  R("q3b", "prediction.cpp", "3D, order 2, arbitrary values, one fine column", "DIM=3", "ORDER=2", "NMAX=1"),
                  R("q3s", "prediction.cpp", "3D, order 1, 2 components SOA", "DIM=3", "ORDER=1", "NC=2", "SOAL=true", "NMAX=2"),
                  R("x2", "prediction.cpp", "2D, order 1: exact on products of polynomials", "DIM=2", "ORDER=1", "DESTL=true", "NMAX=1", "CROSS"),
                  R("q2t", "prediction.cpp", "2D, order 4, arbitrary values", "DIM=2", "ORDER=4", "NMAX=4", tiers=T),
                  R("q3t", "prediction.cpp", "3D, order 3, arbitrary values", "DIM=3", "ORDER=3", "NMAX=2", tiers=T)]},
 "C18": {"runs": [
                  R("h1", "ghosts.cpp", "1D, levels 1..3, any graded partition of 1..2 root cells anywhere, arbitrary values, Dirichlet", "DIM=1", "NX=2", "MAXL=3"),
                  R("h1t", "ghosts.cpp", "1D, levels 1..3, any graded partition of 1..3 root cells anywhere", "DIM=1", "NX=3", "MAXL=3", tiers=T),
                  R("h1z", "ghosts.cpp", "1D, levels 0..2, 1..3 root cells", "DIM=1", "NX=3", "MINL=0", "MAXL=2"),
                  R("h1p", "ghosts.cpp", "1D periodic, levels 1..3, 1..2 root cells", "DIM=1", "NX=2", "MAXL=3", "PERX=1"),
                  R("h1n", "ghosts.cpp", "1D, levels 2..4, Neumann", "DIM=1", "NX=1", "MINL=2", "MAXL=4", "BCK=2"),
                  R("h1v", "ghosts.cpp", "1D, levels 1..2, 2 components AOS", "DIM=1", "NX=2", "MAXL=2", "NC=2"),
                  R("h1f", "ghosts.cpp", "1D, levels 1..2, two fields at once", "DIM=1", "NX=2", "MAXL=2", "NF=2"),
                  R("h2", "ghosts.cpp", "2D, levels 1..2, any partition of 1..2 x 1 root cells", "DIM=2", "NX=2", "NY=1", "MAXL=2"),
                  R("h2l", "ghosts.cpp", "2D, levels 1..3, <=3 refined cells", "DIM=2", "NX=1", "MAXL=3", "BUDGET=3"),
                  R("h2z", "ghosts.cpp", "2D, levels 0..1, 1..2 x 2 root cells", "DIM=2", "NX=2", "NY=2", "MINL=0", "MAXL=1"),
                  R("h2p", "ghosts.cpp", "2D periodic in x, levels 1..2", "DIM=2", "NX=2", "NY=1", "MAXL=2", "PERX=1"),
                  R("h2q", "ghosts.cpp", "2D periodic in x and y, levels 1..2", "DIM=2", "NX=2", "NY=1", "MAXL=2", "PERX=1", "PERY=1"),
                  R("h2y", "ghosts.cpp", "2D periodic in y, levels 0..2, no boundary condition", "DIM=2", "NX=1", "NY=1", "MINL=0", "MAXL=2", "PERY=1", "BCK=0"),
                  R("h2n", "ghosts.cpp", "2D periodic in x, Neumann", "DIM=2", "NX=1", "MAXL=2", "PERX=1", "BCK=2"),
                  R("h2s", "ghosts.cpp", "2D, 2 components SOA", "DIM=2", "NX=1", "MAXL=2", "NC=2", "SOAL=true"),
                  R("h3", "ghosts.cpp", "3D, levels 0..1", "DIM=3", "NX=1", "MAXL=1", "MINL=0"),
                  R("h3l", "ghosts.cpp", "3D, levels 1..2, <=2 refined cells", "DIM=3", "NX=1", "MINL=1", "MAXL=2", "BUDGET=2"),
                  R("h3p", "ghosts.cpp", "3D periodic in y, Neumann, levels 0..1", "DIM=3", "NX=1", "MAXL=1", "MINL=0", "PERY=1", "BCK=2"),
                  R("h3x", "ghosts.cpp", "3D periodic in x, levels 1..2, <=1 refined cell", "DIM=3", "NX=1", "MINL=1", "MAXL=2", "BUDGET=1", "PERX=1"),
                  R("h1h", "ghosts.cpp", "1D, levels 1..2, domain with holes", "DIM=1", "NX=3", "HOLES", "MAXL=2"),
                  R("h2h", "ghosts.cpp", "2D, levels 0..1, 2 x 2 root cells with holes", "DIM=2", "MINL=0", "MAXL=1", "NX=2", "NY=2", "HOLES"),
                  R("h3h", "ghosts.cpp", "3D, 2 x 2 root cells with holes, <=1 refined", "DIM=3", "NX=2", "NY=2", "HOLES", "MINL=0", "MAXL=1", "BUDGET=1"),
                  R("h2t", "ghosts.cpp", "2D, levels 1..3, <=6 refined cells", "DIM=2", "NX=1", "MAXL=3", "BUDGET=6", tiers=T),
                  R("h3t", "ghosts.cpp", "3D, levels 1..2, any partition of one root cell", "DIM=3", "NX=1", "MINL=1", "MAXL=2", tiers=T)]},
 "C19": {"runs": [
                  R("b0", "bc.cpp", "1D, 2..3 cells, no condition", "DIM=1", "KIND=0", "GW=1"),
                  R("b0w", "bc.cpp", "1D, 3 ghost layers, no condition", "DIM=1", "KIND=0", "GW=3", "NX=5"),
                  R("b1", "bc.cpp", "1D, Dirichlet order 1, constant", "DIM=1", "KIND=1", "ORDER=1"),
                  R("b2", "bc.cpp", "1D, Dirichlet order 2, function, 2 components SOA", "DIM=1", "NC=2", "SOAL=true", "KIND=1", "FUNC", "ORDER=2"),
                  R("b3", "bc.cpp", "1D, Dirichlet order 3 per direction", "DIM=1", "KIND=2", "ORDER=3", "NX=4"),
                  R("b4", "bc.cpp", "1D, Dirichlet order 4 per direction", "DIM=1", "KIND=2", "ORDER=4", "NX=5"),
                  R("bm", "bc.cpp", "1D, levels 1..2, any partition, Dirichlet order 2 per direction", "DIM=1", "MINL=1", "MAXL=2", "NX=2", "KIND=2", "ORDER=2"),
                  R("c0", "bc.cpp", "2D, 2 ghost layers, no condition", "DIM=2", "KIND=0", "GW=2"),
                  R("c1", "bc.cpp", "2D, Dirichlet order 1 by a function", "DIM=2", "KIND=1", "ORDER=1", "FUNC"),
                  R("c2", "bc.cpp", "2D, Dirichlet order 2 per direction, 2 components AOS", "DIM=2", "KIND=2", "ORDER=2", "NC=2"),
                  R("c3", "bc.cpp", "2D, any set of faces Dirichlet, the others Neumann by a function", "DIM=2", "KIND=3", "ORDER=1", "NX=2", "NY=2"),
                  R("c4", "bc.cpp", "2D, Neumann along x, Dirichlet along y", "DIM=2", "KIND=4", "ORDER=1"),
                  R("cm", "bc.cpp", "2D, levels 1..2, any partition, Dirichlet order 2 per direction", "DIM=2", "MINL=1", "MAXL=2", "NX=1", "NY=1", "KIND=2", "ORDER=2"),
                  R("e0", "bc.cpp", "3D, 2 ghost layers, no condition", "DIM=3", "KIND=0", "GW=2", "NX=2"),
                  R("e2", "bc.cpp", "3D, Dirichlet per direction", "DIM=3", "KIND=2", "ORDER=1", "NX=2"),
                  R("e1", "bc.cpp", "3D, Dirichlet by a function", "DIM=3", "KIND=1", "ORDER=1", "NX=2", "FUNC"),
                  R("cmt", "bc.cpp", "2D, levels 1..2, any set of faces, uniform 3 x 2", "DIM=2", "KIND=3", "ORDER=1", "NX=3", "NY=2", tiers=T)]},
 "C20": {"runs": [
                  R("r1", "adapt.cpp", "1D, levels 1..3, any graded partition of one root cell, arbitrary values and threshold", "DIM=1", "NX=1", "MINL=1", "MAXL=3"),
                  R("r1p", "adapt.cpp", "the same, periodic", "DIM=1", "NX=1", "MINL=1", "MAXL=3", "PERX=1"),
                  R("r1f", "adapt.cpp", "1D, levels 1..3, two fields adapted together", "DIM=1", "NX=1", "MINL=1", "MAXL=3", "NF=3"),
                  R("r1g", "adapt.cpp", "1D, levels 1..2, a second field carried along", "DIM=1", "NX=1", "MINL=1", "MAXL=2", "NF=2"),
                  R("r1v", "adapt.cpp", "1D, levels 1..2, 2 components, thresholds on details, regularity 1", "DIM=1", "NX=1", "MINL=1", "MAXL=2", "NC=2", "DETAILS", "REG=1"),
                  R("r1fd", "adapt.cpp", "1D, levels 1..2, two fields adapted together, thresholds on details", "DIM=1", "NX=1", "MINL=1", "MAXL=2", "NF=3", "DETAILS"),
                  R("r2v", "adapt.cpp", "2D, levels 1..2, <=1 refined cell, 2 components, thresholds on details", "DIM=2", "NX=1", "MINL=1", "MAXL=2", "NC=2", "BUDGET=1", "DETAILS"),
                  R("r3v", "adapt.cpp", "3D, levels 0..1, 2 components, thresholds on details", "DIM=3", "NX=1", "MINL=0", "MAXL=1", "NC=2", "DETAILS"),
                  R("r1d", "adapt.cpp", "1D, levels 1..2, 2 root cells, thresholds on details", "DIM=1", "NX=2", "MINL=1", "MAXL=2", "DETAILS"),
                  R("r1c", "adapt.cpp", "1D, levels 1..3, 2 root cells, constant field", "DIM=1", "NX=2", "MINL=1", "MAXL=3", "CONSTANT"),
                  R("r2", "adapt.cpp", "2D, levels 1..2, any partition of one root cell", "DIM=2", "NX=1", "MINL=1", "MAXL=2"),
                  R("r2d", "adapt.cpp", "the same, thresholds on details", "DIM=2", "NX=1", "MINL=1", "MAXL=2", "DETAILS"),
                  R("r2p", "adapt.cpp", "the same, periodic", "DIM=2", "NX=1", "MINL=1", "MAXL=2", "PERX=1", "PERY=1"),
                  R("r2c", "adapt.cpp", "2D, levels 0..2, constant field", "DIM=2", "NX=1", "MINL=0", "MAXL=2", "CONSTANT"),
                  R("r2l", "adapt.cpp", "2D, levels 1..3, <=1 refined cell, constant field", "DIM=2", "NX=1", "MINL=1", "MAXL=3", "BUDGET=1", "CONSTANT"),
                  R("r3", "adapt.cpp", "3D, levels 0..1", "DIM=3", "NX=1", "MINL=0", "MAXL=1"),
                  R("r1t", "adapt.cpp", "1D, levels 1..3, 2 root cells", "DIM=1", "NX=2", "MINL=1", "MAXL=3", tiers=T),
                  R("r3t", "adapt.cpp", "3D, levels 1..2, <=2 refined cells, constant field", "DIM=3", "NX=1", "MINL=1", "MAXL=2", "BUDGET=2", "CONSTANT", tiers=T)]},
 "C21": {"runs": [R("e1", "fields.cpp", "expressions, 1D, levels 1..2, any graded partition anywhere, arbitrary values", "MODE=1"),
                  R("e1v", "fields.cpp", "expressions, 1D, 2 components", "MODE=1", "NC=2"),
                  R("e2s", "fields.cpp", "expressions, 2D, 3 components SOA", "MODE=1", "NC=3", "SOAL=true", "DIM=2"),
                  R("e3", "fields.cpp", "expressions, 3D, levels 0..1", "MODE=1", "DIM=3", "MINL=0", "MAXL=1"),
                  R("k1", "fields.cpp", "copies, comparison, constructors, 1D, levels 1..3", "MODE=2", "MAXL=3"),
                  R("k1v", "fields.cpp", "copies, comparison, constructors, 1D, 2 components", "MODE=2", "NC=2"),
                  R("k1s", "fields.cpp", "copies, comparison, constructors, 1D, 2 components SOA", "MODE=2", "NC=2", "SOAL=true"),
                  R("k2", "fields.cpp", "copies, comparison, constructors, 2D, levels 0..1", "MODE=2", "DIM=2", "MINL=0", "MAXL=1"),
                  R("a1v", "fields.cpp", "accessors and iterators, 1D, levels 1..3, 2 components, any part of any stored interval", "MODE=3", "NC=2", "MAXL=3"),
                  R("a2", "fields.cpp", "accessors and iterators, 2D, levels 1..2", "MODE=3", "DIM=2"),
                  R("a2s", "fields.cpp", "accessors and iterators, 2D, levels 1..2, 2 components SOA", "MODE=3", "DIM=2", "NC=2", "SOAL=true"),
                  R("a3", "fields.cpp", "accessors and iterators, 3D, levels 0..1", "MODE=3", "DIM=3", "MINL=0", "MAXL=1"),
                  R("u1", "fields.cpp", "upwind operator, 1D, 2 components, velocity of any sign", "MODE=4", "NC=2"),
                  R("u1s", "fields.cpp", "upwind operator, 1D, 2 components SOA", "MODE=4", "NC=2", "SOAL=true"),
                  R("u2", "fields.cpp", "upwind operator, 2D", "MODE=4", "DIM=2"),
                  R("u3", "fields.cpp", "upwind operator, 3D, levels 0..1", "MODE=4", "DIM=3", "MINL=0", "MAXL=1")]},
 "C22": {"runs": [R("r1", "recon.cpp", "reconstruction 1D, levels 1..3, any graded partition anywhere, arbitrary values, ghost width 2", "MODE=1", "MAXL=3"),
                  R("r1h", "recon.cpp", "reconstruction 1D, levels 0..2, 2 components, domain with holes", "MODE=1", "NC=2", "HOLES", "NX=2", "MINL=0"),
                  R("r1o", "recon.cpp", "reconstruction 1D, order 2, levels 1..3", "MODE=1", "PO=2", "SW=4", "MAXL=3"),
                  R("r1n", "recon.cpp", "reconstruction 1D, levels 1..3, ghost width 1: cells it reads are stored", "MODE=1", "MAXL=3", "SW=1", "NEEDS"),
                  R("r2", "recon.cpp", "reconstruction 2D, levels 1..3, <=3 refined cells, 2 components SOA", "MODE=1", "NC=2", "SOAL=true", "DIM=2", "MAXL=3", "BUDGET=3"),
                  R("r2n", "recon.cpp", "reconstruction 2D, levels 1..2, ghost width 1", "MODE=1", "DIM=2", "SW=1", "NEEDS"),
                  R("r2o", "recon.cpp", "reconstruction 2D, order 2", "MODE=1", "PO=2", "SW=4", "DIM=2"),
                  R("r3", "recon.cpp", "reconstruction 3D, levels 0..2, <=1 refined cell", "MODE=1", "DIM=3", "MINL=0", "MAXL=2", "BUDGET=1"),
                  R("p1", "recon.cpp", "portion 1D, order 2, 3 levels deep, any fine cell, 1..2 cells anywhere", "MODE=2", "DL=3", "PO=2"),
                  R("p1c", "recon.cpp", "portion 1D, order 3, 2 levels deep", "MODE=2", "PO=3", "DL=2"),
                  R("p1d", "recon.cpp", "portion 1D, order 4", "MODE=2", "PO=4", "DL=1"),
                  R("p1e", "recon.cpp", "portion 1D, order 5", "MODE=2", "PO=5", "DL=1"),
                  R("p1r", "recon.cpp", "portion 1D over any interval of fine cells, after another depth", "MODE=2", "RANGE"),
                  R("p2v", "recon.cpp", "portion 2D, 2 components", "MODE=2", "DIM=2", "NC=2"),
                  R("p2z", "recon.cpp", "portion 2D, order 0", "MODE=2", "DIM=2", "PO=0"),
                  R("p2r", "recon.cpp", "portion 2D over any box of fine cells, 2 components SOA", "MODE=2", "DIM=2", "NC=2", "SOAL=true", "RANGE"),
                  R("p3", "recon.cpp", "portion 3D, 2 levels deep", "MODE=2", "DIM=3"),
                  R("p3r", "recon.cpp", "portion 3D over any box of fine cells, 2 components", "MODE=2", "DIM=3", "DL=1", "NC=2", "RANGE"),
                  R("t1", "recon.cpp", "transfer 1D, levels 1..3, between any two partitions, 2 components SOA", "MODE=3", "NC=2", "SOAL=true", "MAXL=3"),
                  R("t1v", "recon.cpp", "transfer 1D, levels 1..2, 2 components AOS", "MODE=3", "NC=2"),
                  R("t2", "recon.cpp", "transfer 2D, levels 1..3, <=3 refined cells each", "MODE=3", "DIM=2", "BUDGET=3", "MAXL=3"),
                  R("t2h", "recon.cpp", "transfer 2D, levels 0..1, 2 x 2 root cells with holes, 2 components", "MODE=3", "DIM=2", "NC=2", "MINL=0", "HOLES", "NX=2", "NY=2", "MAXL=1"),
                  R("t3", "recon.cpp", "transfer 3D, levels 0..1", "MODE=3", "DIM=3", "MINL=0", "MAXL=1"),
                  R("r1t", "recon.cpp", "reconstruction 1D, levels 0..3, 3 root cells with holes, 2 components", "MODE=1", "NC=2", "MAXL=3", "HOLES", "NX=3", "MINL=0", tiers=T),
                  R("p3rt", "recon.cpp", "portion 3D over any box of fine cells 2 levels deep", "MODE=2", "DIM=3", "DL=2", "NC=2", "RANGE", tiers=T)]},
 "C23": {"runs": [
                  R("i1", "iface.cpp", "1D, levels 1..2, any graded partition of 1..3 root cells anywhere", "DIM=1", "NX=3"),
                  R("i1w", "iface.cpp", "1D, levels 1..3, 1..2 root cells, stencil width 2", "DIM=1", "NX=2", "MAXL=3", "WIDTH=2"),
                  R("i1h", "iface.cpp", "1D, domain with holes", "DIM=1", "NX=3", "HOLES"),
                  R("i2", "iface.cpp", "2D, levels 1..2, 1..2 x 1 root cells", "DIM=2", "NX=2", "NY=1", "MAXL=2"),
                  R("i2h", "iface.cpp", "2D, levels 0..1, 2 x 2 root cells with holes", "DIM=2", "NX=2", "NY=2", "MINL=0", "MAXL=1", "HOLES"),
                  R("i2l", "iface.cpp", "2D, levels 1..3, <=3 refined cells", "DIM=2", "MAXL=3", "BUDGET=3"),
                  R("i2w", "iface.cpp", "2D, levels 1..2, stencil width 2", "DIM=2", "WIDTH=2", "MAXL=2"),
                  R("i3", "iface.cpp", "3D, levels 0..1, 2 root cells", "DIM=3", "NX=2", "MINL=0", "MAXL=1"),
                  R("i3l", "iface.cpp", "3D, levels 1..2, <=2 refined cells", "DIM=3", "MINL=1", "MAXL=2", "BUDGET=2"),
                  R("i3h", "iface.cpp", "3D, 2 x 2 root cells with holes, <=1 refined", "DIM=3", "NX=2", "NY=2", "MINL=0", "MAXL=1", "HOLES", "BUDGET=1"),
                  R("i3t", "iface.cpp", "3D, levels 1..2, <=4 refined cells", "DIM=3", "MINL=1", "MAXL=2", "BUDGET=4", tiers=T),
                  R("i2t", "iface.cpp", "2D, levels 1..3, <=6 refined cells", "DIM=2", "MAXL=3", "BUDGET=6", tiers=T)]},
 "C24": {"runs": [
                  R("f1", "fv.cpp", "1D, levels 1..3, any graded partition, linear scheme on 4 cells", "DIM=1", "MODE=1", "SSZ=4", "MAXL=3"),
                  R("f1s", "fv.cpp", "1D, stencil listed in any order, 2 components to 1, domain with holes", "DIM=1", "MODE=1", "SSZ=4", "SHUFFLE", "NC=2", "HOLES", "NX=3"),
                  R("f1n", "fv.cpp", "1D, levels 1..3, 2 root cells, any non-linear conservative flux", "DIM=1", "MODE=3", "MAXL=3", "NX=2"),
                  R("f1p", "fv.cpp", "1D, any pair of fluxes, stencil of 4", "DIM=1", "MODE=4", "SSZ=4"),
                  R("f1u", "fv.cpp", "1D, convection of the field by itself, levels 0..1", "DIM=1", "MODE=17", "MINL=0"),
                  R("f2", "fv.cpp", "2D, levels 1..2, linear scheme, 2 components to 2", "DIM=2", "MODE=1", "NC=2", "NOUT=2"),
                  R("f2h", "fv.cpp", "2D, heterogeneous linear scheme", "DIM=2", "MODE=2"),
                  R("f2n", "fv.cpp", "2D, levels 1..3, <=3 refined cells, any non-linear conservative flux", "DIM=2", "MODE=3", "MAXL=3", "BUDGET=3"),
                  R("f2p", "fv.cpp", "2D, levels 0..1, 2 x 2 root cells with holes, any pair of vector fluxes", "DIM=2", "MODE=4", "NOUT=2", "MINL=0", "MAXL=1", "NX=2", "NY=2", "HOLES"),
                  R("f2b", "fv.cpp", "2D, any flux, without the boundary fluxes", "DIM=2", "MODE=3", "NOBDRY"),
                  R("f3n", "fv.cpp", "3D, levels 1..2, <=1 refined cell, any pair of fluxes", "DIM=3", "MODE=4", "MINL=1", "MAXL=2", "BUDGET=1"),
                  R("f3", "fv.cpp", "3D, levels 0..1, linear scheme", "DIM=3", "MODE=1", "MINL=0", "MAXL=1"),
                  R("d2", "fv.cpp", "2D diffusion, one coefficient per direction", "DIM=2", "MODE=10"),
                  R("d3", "fv.cpp", "3D Laplacian", "DIM=3", "MODE=10", "UNIT", "MINL=0", "MAXL=1"),
                  R("d2m", "fv.cpp", "2D diffusion, one coefficient per component, no boundary flux", "DIM=2", "MODE=11", "NC=2", "NOUT=2", "NOBDRY"),
                  R("d2f", "fv.cpp", "2D diffusion, constant field of coefficients", "DIM=2", "MODE=16"),
                  R("g2", "fv.cpp", "2D gradient", "DIM=2", "MODE=12", "NOUT=2"),
                  R("v2", "fv.cpp", "2D divergence, direction by direction", "DIM=2", "MODE=13", "NC=2", "BYDIR"),
                  R("v3", "fv.cpp", "3D divergence", "DIM=3", "MODE=13", "NC=3", "MINL=0", "MAXL=1"),
                  R("u2", "fv.cpp", "2D upwind convection, velocity of any sign", "DIM=2", "MODE=14"),
                  R("u3v", "fv.cpp", "3D upwind convection of 2 components, velocity of any sign", "DIM=3", "MODE=14", "NC=2", "NOUT=2", "MINL=0", "MAXL=1"),
                  R("u2f", "fv.cpp", "2D upwind convection of 2 components by a velocity field", "DIM=2", "MODE=15", "NC=2", "NOUT=2"),
                  R("n2", "fv.cpp", "2D convection of a vector field by itself", "DIM=2", "MODE=17", "NC=2", "NOUT=2", "MINL=0", "MAXL=0"),
                  R("n3", "fv.cpp", "3D convection of a vector field by itself", "DIM=3", "MODE=17", "NC=3", "NOUT=3", "MINL=0", "MAXL=0"),
                  R("u2s", "fv.cpp", "2D upwind convection of a scalar by a velocity field", "DIM=2", "MODE=15"),
                  R("d2v", "fv.cpp", "2D diffusion of 2 components, constant field of coefficients", "DIM=2", "MODE=16", "NC=2", "NOUT=2"),
                  R("d2s", "fv.cpp", "2D diffusion of a scalar, one coefficient per component", "DIM=2", "MODE=11"),
                  R("w2", "fv.cpp", "2D WENO5 convection, velocity of any sign, levels 1..2, any partition, fixed values", "DIM=2", "MODE=18"),
                  R("w2f", "fv.cpp", "2D WENO5 convection by a velocity field, fixed values", "DIM=2", "MODE=19"),
                  R("w1u", "fv.cpp", "1D WENO5 convection of the field by itself, levels 1..3, fixed values", "DIM=1", "MODE=20", "MAXL=3"),
                  R("w2v", "fv.cpp", "2D WENO5 convection of a vector field by itself, fixed values", "DIM=2", "MODE=20", "NC=2", "NOUT=2"),
                  R("f3t", "fv.cpp", "3D, levels 1..2, <=3 refined cells, any flux", "DIM=3", "MODE=3", "MINL=1", "MAXL=2", "BUDGET=3", tiers=T),
                  R("f2t", "fv.cpp", "2D, levels 1..3, <=6 refined cells, any pair of fluxes", "DIM=2", "MODE=4", "MAXL=3", "BUDGET=6", tiers=T)]},
 "C25": {"runs": [
                  R("s1", "cellscheme.cpp", "1D, star stencil of width 2, levels 1..2", "DIM=1", "MODE=1", "NBW=2"),
                  R("s1v", "cellscheme.cpp", "1D, own stencil", "DIM=1", "MODE=3"),
                  R("s2", "cellscheme.cpp", "2D, star stencil of width 1", "DIM=2", "MODE=1", "NBW=1"),
                  R("s2n", "cellscheme.cpp", "2D, any non-linear function of the cell", "DIM=2", "MODE=2"),
                  R("s2o", "cellscheme.cpp", "2D, own stencil", "DIM=2", "MODE=3"),
                  R("s2i", "cellscheme.cpp", "2D, identity", "DIM=2", "MODE=4"),
                  R("s2z", "cellscheme.cpp", "2D, zero operator", "DIM=2", "MODE=5"),
                  R("s3", "cellscheme.cpp", "3D, star stencil of width 1", "DIM=3", "MODE=1", "NBW=1", "MINL=0", "MAXL=1"),
                  R("s3n", "cellscheme.cpp", "3D, any non-linear function", "DIM=3", "MODE=2", "MINL=0", "MAXL=1")]},
 "C26": {"runs": [R("o1", "output.cpp", "1D, levels 1..3, any graded partition of 1..2 root cells anywhere, arbitrary values", "MAXL=3", "NX=2"),
                  R("o1l", "output.cpp", "1D, by level", "BYL=1"),
                  R("o1m", "output.cpp", "1D, by mesh", "BYM=1", "MINL=0"),
                  R("o1b", "output.cpp", "1D, by level and mesh, levels 1..3", "BYL=1", "BYM=1", "MAXL=3"),
                  R("o1a", "output.cpp", "1D level array", "MESH=4"),
                  R("o1c", "output.cpp", "1D cell array, by level", "MESH=5", "BYL=1"),
                  R("o1u", "output.cpp", "1D uniform mesh", "MESH=3", "BYM=1"),
                  R("o2", "output.cpp", "2D, levels 1..2, SOA", "DIM=2", "SOAL=true"),
                  R("o2l", "output.cpp", "2D, levels 1..3, <=3 refined cells", "DIM=2", "MAXL=3", "BUDGET=3"),
                  R("o2h", "output.cpp", "2D, levels 0..1, 2 x 2 root cells with holes, by level", "DIM=2", "MINL=0", "MAXL=1", "NX=2", "NY=2", "HOLES", "BYL=1"),
                  R("o2a", "output.cpp", "2D AMR mesh, by level and mesh", "DIM=2", "MESH=2", "BYL=1", "BYM=1"),
                  R("o2u", "output.cpp", "2D uniform mesh, 3 x 2 cells with holes", "DIM=2", "MESH=3", "MINL=0", "NX=3", "NY=2", "HOLES"),
                  R("o3", "output.cpp", "3D, levels 0..1", "DIM=3", "MINL=0", "MAXL=1"),
                  R("o3l", "output.cpp", "3D, levels 0..2, <=2 refined cells", "DIM=3", "MINL=0", "MAXL=2", "BUDGET=2")]},
 "C27": {"runs": [R("a%d%s" % (m, x.replace("DIM=2", "y").replace("NC=2", "v")), "algebra.cpp", b, "MODE=%d" % m, *([x] if x else [])) for m, x, b in (
                  (1, "", "scalar multiple of a linear flux scheme"), (2, "DIM=2", "sum of linear flux schemes, 2D"), (3, "", "heterogeneous schemes"),
                  (4, "", "sum of non-linear conservative flux schemes"), (5, "", "sum of non-linear flux pairs"), (6, "", "sum of different flux schemes"),
                  (7, "", "sum of operators plus a cell scheme of the same kind"), (8, "", "flux and cell schemes"), (9, "NC=2", "linear cell schemes, 2 components"),
                  (10, "", "non-linear multiples"), (11, "", "sum and difference of non-linear cell schemes"), (12, "", "linear plus non-linear cell schemes"), (13, "", "cell scheme plus a sum of operators"))]},
 "C28": {"runs": [R("d1", "detail.cpp", "1D, order 1, 1..3 cells anywhere, arbitrary values", "DIM=1"),
                  R("d1o", "detail.cpp", "1D, order 3, 1..3 cells anywhere, arbitrary values", "DIM=1", "ORDER=3"),
                  R("d1l", "detail.cpp", "1D, coarsest level 0", "DIM=1", "LEV=0"),
                  R("d1t", "detail.cpp", "1D, tuple of a vector and a scalar field", "DIM=1", "NC=2", "NC2=1"),
                  R("d1s", "detail.cpp", "1D, tuple of scalar and SOA vector fields", "DIM=1", "NC=1", "NC2=2", "SOAL=true"),
                  R("d2", "detail.cpp", "2D, order 1, 1..2 cells anywhere, any parity, arbitrary values", "DIM=2", "NMAX=2"),
                  R("d2o", "detail.cpp", "2D, order 2, 1 cell", "DIM=2", "ORDER=2", "NMAX=1"),
                  R("d2t", "detail.cpp", "2D, tuple of scalar and SOA vector fields", "DIM=2", "NMAX=2", "NC=1", "NC2=2", "SOAL=true"),
                  R("d3", "detail.cpp", "3D, order 1, 1..2 cells, 2 components", "DIM=3", "NMAX=2", "NC=2"),
                  R("d3t", "detail.cpp", "3D, tuple of SOA vector and scalar fields, 1 cell", "DIM=3", "NMAX=1", "NC=2", "NC2=1", "SOAL=true")]},
 "C29": {"runs": [R("q1a", "quad.cpp", "1D, degrees 0..13, any coefficients", "DEG1=13"),
                  R("q1b", "quad.cpp", "1D, degrees 14..27", "DEG0=14", "DEG1=27"),
                  R("q1c", "quad.cpp", "1D, degrees 28..39", "DEG0=28", "DEG1=39"),
                  R("q2", "quad.cpp", "2D, degrees 0..5, 2 components", "DIM=2", "DEG1=5", "NC=2"),
                  R("q3", "quad.cpp", "3D, degrees 0..3", "DIM=3", "DEG1=3"),
                  R("l1", "quad.cpp", "L2 error 1D, levels 1..2, any partition, arbitrary values", "MODE=2"),
                  R("l1v", "quad.cpp", "L2 error 1D, 2 components SOA", "MODE=2", "NC=2", "SOAL=true"),
                  R("l2", "quad.cpp", "L2 error 2D, levels 0..1", "MODE=2", "DIM=2", "MINL=0", "MAXL=1")]},
 "C30": {"runs": [R("m1", "cagrad.cpp", "1D, levels 0..3, any partition (graded or not) of 1..2 root cells anywhere", "DIM=1", "NX=2", "MINL=0", "MAXL=3"),
                  R("m1l", "cagrad.cpp", "1D, levels 1..4, <=5 refined cells of 1..2 root cells", "DIM=1", "NX=2", "MINL=1", "MAXL=4", "BUDGET=5"),
                  R("m1w", "cagrad.cpp", "1D, levels 0..3, neighbourhood width 2", "DIM=1", "NX=2", "MINL=0", "MAXL=3", "WID=2"),
                  R("m2", "cagrad.cpp", "2D, levels 1..3, <=2 refined cells", "DIM=2", "MINL=1", "MAXL=3", "BUDGET=2"),
                  R("m2h", "cagrad.cpp", "2D, levels 0..2, 2 x 2 root cells with holes, <=3 refined cells", "DIM=2", "NX=2", "NY=2", "MINL=0", "MAXL=2", "BUDGET=3", "HOLES"),
                  R("m3", "cagrad.cpp", "3D, levels 1..3, <=2 refined cells", "DIM=3", "MINL=1", "MAXL=3", "BUDGET=2"),
                  R("m2t", "cagrad.cpp", "2D, levels 1..3, <=5 refined cells, neighbourhood width 2", "DIM=2", "MINL=1", "MAXL=3", "BUDGET=5", "WID=2", tiers=T),
                  R("m1t", "cagrad.cpp", "1D, levels 0..4, <=8 refined cells of 1..3 root cells", "DIM=1", "NX=3", "MINL=0", "MAXL=4", "BUDGET=8", tiers=T)]},
}
