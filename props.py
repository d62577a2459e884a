# Per-property build and reporting configuration.
PROPS = {}


def P(pid, sources, rule, **kw):
    PROPS[pid] = dict(sources=sources, rule=rule, **kw)


P("P01", ["p01_spatial.cpp"],
  "Random point clouds (uniform, clustered, planar, collinear, lattice with duplicates, coincident, anisotropic, two-scale) and box histories "
  "(insert/remove/query/reset) are fed to the four indices; every query is compared with a linear scan. A case is non-trivial when some but not "
  "all stored objects match a query; distinct = distinct signature of kind, size and coordinates.")

P("P02", ["p02_clip.cpp"],
  "Random convex polygons (3-9 vertices) and convex polyhedra (tetrahedra, prisms, parallelepipeds, n-prisms, pyramids, bipyramids, frustums; affinely "
  "distorted, rotated, scaled, shifted; one to three successive cuts) are cut by generic, axis-aligned, vertex, edge and missing planes; both halves are "
  "measured by independent formulas. Non-trivial when both halves are non-empty.")

P("P03", ["p03_measures.cpp"],
  "Random lines, polylines, triangles, quadrilaterals, convex and star-shaped polygons, tetrahedra, prisms, hexahedra (parallelepipeds and frustums), "
  "convex polyhedra, spheres and circles in random position, orientation, scale and vertex order, measured fresh and after re-use of the same object; "
  "oracles are independent formulas and rigid-motion covariance. Non-trivial: all monitors of the case evaluated.")

P("P04", ["p04_predicates.cpp"],
  "Random pairs of primitives in general and in named special position (crossing, apart, skew, parallel, shared vertex or edge, coincident, collinear "
  "overlap, T-junction, coplanar) at least a margin away from the tolerance threshold, rotated, shifted, swapped and relabelled; answers are compared with "
  "independent formulas. Non-trivial when the primitives do meet.")


P("P05", ["p05_vectors.cpp"],
  "Random vectors over sixteen orders of magnitude and small integer vectors, matrices (orthonormal and general), planar point sets (uniform, lattice with "
  "duplicates, on a circle, nearly collinear) in random planes, shuffled and inverted closed loops of lines, and histories of vertex list edits; checked with "
  "algebraic identities, an independent hull and a std::vector model. Non-trivial: all monitors of the case evaluated.")


P("P07", ["p07_mesh.cpp"],
  "Random histories of 10-70 container operations (add, replace, remove, scale, spacing, invert, renumber, remove dangling or invalid, reset) with dense, "
  "negative and huge sparse identifiers, mirrored in a std::map model that is compared in full after every operation; copies and assignments edited "
  "independently; meshes added to each other; derived centroids, boxes and qualities. Non-trivial when the mesh ends with nodes and elements.")


P("P08", ["p08_topology.cpp"],
  "Beam, triangle, quadrilateral, tetrahedron, prism and hexahedron grids of 1-4 divisions, distorted, moved and scaled, with sparse shuffled node and element "
  "numbering; exploded into separate nodes (with jitter below the tolerance) and merged again; compared with brute-force face pairing, closure and enclosed "
  "volume of the boundary, and brute-force sharing queries. Non-trivial: the mesh was fully checked (queries: more than one element shares the nodes).")


P("P09", ["p09_structured.cpp"],
  "Lines, parallelograms, convex quadrilaterals, parallelepipeds, frustums (random size, shear, position, orientation, scale, either handedness) and boxes "
  "with a cell size, meshed with random division counts, with and without simplices, also twice with one mesher; nodes are matched one to one with the lattice, "
  "elements checked for orientation, conformity, total measure and outer measure. Non-trivial when the mesh has elements.")


P("P12", ["p12_extrude.cpp"],
  "Planar and gently curved surface meshes of triangles, quadrilaterals and both (distorted, moved, scaled, any numbering and starting vertex) extruded by one to "
  "four layers of equal or different thickness; after each layer every solid is matched with its surface element, at the end the merged layers must conform. "
  "Non-trivial: all layers were checked.")


P("P10", ["p10_surface.cpp"],
  "Rectangles, regular, L-shaped and star-shaped polygons with zero to two holes and inner points, uniform or jittered boundary edges, dense or sparse shuffled "
  "numbering, rotated and scaled, meshed with triangles or quadrilaterals, one mesher used several times; grids and generated meshes refined, flipped, relaxed and collapsed "
  "in random sequences; grids of quadrilaterals mixed with triangles relaxed and flipped, with fixed nodes and edges; boundaries split to a size. Non-trivial when meshing succeeded (or the operation was applied) and the partition monitor ran.")


P("P13", ["p13_quadrature.cpp"],
  "All 22 quadrature rules of the library against every monomial of their degree (deterministic), random polynomials with rules from reused objects, and the "
  "integration points of boundary elements on random triangles against exact moments. Non-trivial: the rule delivered its points and all monitors ran.")


P("P14", ["p14_fem.cpp"],
  "Random beams, triangles, quadrilaterals, tetrahedra, prisms and hexahedra (affine and distorted, any frame, scale, rotation and vertex start) with random time "
  "steps and thicknesses: element matrices against constant and linear fields, independent references, symmetry and sign; sources, convection, flow and elasticity "
  "terms. Non-trivial: all monitors of the case evaluated.")


P("P16", ["p16_sle.cpp"],
  "Random diagonally dominant sparse symmetric, sparse general and well conditioned dense systems of 1-150 unknowns (any scale, either sign of definiteness), "
  "laplacian systems, and random expressions of 1-8 operations over three systems mirrored with dense matrices; results, operands and the announced matrix kind are "
  "checked, what is solvable is solved and compared with a pivoted LU. Non-trivial: a system was solved.")


P("P15", ["p15_fem.cpp", "p15_fem2.cpp", "p15_fvm.cpp"],
  "Grids of beams, triangles, quadrilaterals, tetrahedra, prisms and hexahedra (distorted, moved, scaled, any numbering) with random fields: assembled finite element, "
  "difference and volume operators against constants, linear and quadratic fields, conservation and symmetry; steady solves by penalty and elimination against the linear "
  "field and against the renumbered mesh; elastic patch tests; implicit time steps with conservation and bounds. Non-trivial: the operators were evaluated (solves: inner unknowns exist).",
  exprtk=True)


P("P17", ["p17_bem.cpp"],
  "Random pairs of triangles at 0.7-30 sizes distance and self influences (any position, rotation, scale, orientation, vertex start) against exact solid angles and "
  "potentials; closed boxes and ellipsoids of 20-200 triangles with any numbering and either orientation assembled and compared entry by entry, with the solid angle "
  "identity, equilibrium and Green's identity. Non-trivial: all monitors of the case evaluated.", exprtk=True)

P("P18", ["p18_fvm.cpp"],
  "Meshes of tetrahedra, prisms, hexahedra and mixed columns (distorted, sheared, moved, scaled, any numbering) turned into finite volume meshes, fresh, reused or copied: "
  "faces, owners, neighbours, areas, volumes, centroids and closure against the elements; random control volumes clipped and unclipped in sequences by random directions and "
  "fractions with properties read before and after; face histories against a model; boundary searches against a scan. Non-trivial: inner faces exist, a fraction was reached, "
  "faces remain, or faces were found.")

P("P19", ["p19_scalar.cpp"],
  "Cavities, channels and still boxes of hexahedra, prisms or tetrahedra (graded, moved, any numbering) marched 1-8 steps: temperatures of every step against a dense solution of "
  "the discrete heat equation, bounds, uniform states, heat balance, residual and gradient; steady profiles; every solution of the fraction equation, captured through its virtual "
  "call, against a dense solution, weights and fractions in [0,1], mixture properties, uniform and still states; images of both; a fixed slab in a channel for the total amount. "
  "Non-trivial: steps were compared.")

P("P20", ["p20_piso.cpp"],
  "Boxes of hexahedra, prisms or tetrahedra (graded, moved, any numbering) with sliding walls or with inlets and outlets marched 1-12 steps: after every step mass balance of "
  "every cell, imposed boundary values, residuals and gradients, and velocity, pressure and fluxes against a dense solution of the discrete equations; rest, hydrostatics, "
  "moved/mirrored/renumbered/rescaled images of a problem, momentum balance of steady states. Non-trivial: steps were compared, or a steady state reached.")

P("P21", ["p21_cbs.cpp"],
  "Boxes of triangles or tetrahedra (distorted, any size and numbering) with random walls, slip sides, pressures, body forces, materials and starting fields marched 1-6 steps of "
  "equal or varying size: velocities and pressure of every step against a dense reference of the split scheme built from the node positions, imposed values exactly, rest (also "
  "of a solver nothing was set in), hydrostatic pressure, and reordered, moved, mirrored, axis-swapped, rescaled and repeated problems. Non-trivial: steps were compared.", exprtk=True)

P("P22", ["p22_lbm.cpp"],
  "Grids of 2-30 nodes a side (not only square) with lids, closed boxes, obstacles, stirred velocities and densities and any relaxation time, 5-640 steps: every reported velocity "
  "against an independent model whose collisions and walls conserve mass and momentum; rest and restarts, decay, mirrored, turned and repeated runs, the steady cavity at Re 100. "
  "Non-trivial: steps were compared.")

P("P23", ["p23_sph.cpp"],
  "Every kernel in 1-3 dimensions and any smoothing length: normalisation by quadrature, published shape, support, monotonicity, symmetry, gradient against differences, exchange "
  "factor; lattice sums of constants and linear fields; clouds of 2-90 particles (fixed values, velocities, cyclic boxes, any identifiers) stepped 1-5 times against full sums, "
  "with bounds and conservation. Non-trivial: values were compared.", exprtk=True)

P("P24", ["p24_analytical.cpp"],
  "Random expressions (text and meaning generated together) in functions driven through random define/redefine/undefine/set/copy/evaluate histories against a model; roots of "
  "parametrised functions by three methods in random brackets; transient series against error function images and product solutions, steady series against superposition, "
  "Laplace's equation and sides, fins against closed forms, radiating beams and Burgers' flow against their equations; material property histories. Non-trivial: a value was compared.", exprtk=True)

P("P25", ["p25_csg.cpp"],
  "Boxes, spheres and cylinders in any position and turned boxes, in pairs, chains and nested expressions, with tolerances from 0 to 1e-6: winding number of results at points "
  "spread over and next to the operands against set logic, inclusion-exclusion of volumes and areas, closed and oriented surfaces, unchanged operands, cell counts for boxes that "
  "share planes, empty/equal/apart/nested/touching operands, the way through facets. Non-trivial: the operands overlap or the result was compared cell by cell.",
  flags=["-ftrivial-auto-var-init=zero"])

P("P26", ["p26_stl.cpp"],
  "Closed and open surfaces (boxes, balls, sheets, cones with up to 140 facets around a vertex, several or crossing parts) with any identifiers, order and turn of facets: files written "
  "and read back in both formats and read by an independent parser, files in the spelling of other programs, container histories, neighbours, outlines and meshes against a search "
  "over all facets, orientation, removal of planted duplicates and invalid facets, and histories of splits, flips, collapses and relaxation that must keep the surface. "
  "Non-trivial: facets were compared or changed.")

P("P27", ["p27_files.cpp"],
  "Meshes of one or several blocks of beams, triangles, quadrilaterals, tetrahedra, prisms, hexahedra and points with any numbering and scale, with up to three values per node or "
  "element over the whole range of magnitudes: Gmsh, VTK, gnuplot and QuickMesh files read by independent strict parsers and compared entry by entry, Gmsh and QuickMesh files read "
  "back, Gmsh files as others write them (gaps in numbers, tags, unknown sections and elements), places that cannot be written. Non-trivial: the whole file was compared.", exprtk=True)

P("P28", ["p28_hostile.cpp"],
  "ASCII and binary STL, Gmsh and QuickMesh files with up to three kinds of damage (cuts, flipped bits, gaps, repeated and foreign parts, exchanged lines, counts, numbers and words replaced "
  "by extremes), files of another kind, noise, directories, empty files and very long lines: read under AddressSanitizer and UBSan with a time limit; of what was read every reference "
  "is followed, it is used, saved and read again, and refused files leave an object that reads the next one. Non-trivial: the reader returned and its result was walked.", exprtk=True)

P("P11", ["p11_tetra.cpp"],
  "Closed surfaces (boxes, bars, corners, rings, U shapes, heaps of cubes, balls; cut finely or coarsely with any diagonals, moved vertices, sheared, turned, any numbering) with and without "
  "inner points, at sizes and tolerances over decades, and twice with the same mesher: on success a full check of the partition (positive, conforming, opposite sides, outer faces equal to "
  "the given ones, sum of volumes, inner points, pairs of faces), and again after each of a history of relaxations and flips, also on distorted grids. "
  "Non-trivial: a mesh was made or taken and checked.")
