LN = "Held on the executions produced by the seeded workload; says nothing about inputs outside the generated families."
RM = "runtime monitoring: ASan+UBSan build, "

prop("P01", "Spatial indices answer queries exactly like a linear scan",
     "For every set of stored points or boxes, and every history of insertions, removals, rebuilds and resets, each spatial index (hash grid, octree, R-tree, alternating digital tree) returns for a query exactly the identifiers of the stored objects within the given tolerance of the query point, or whose box overlaps the query box enlarged by the tolerance: none missing, none extra, none twice. Box predicates (hull, overlap, containment, grow, shrink) agree with interval arithmetic.",
     ["inputs", "histories"], "all point clouds and box sets (including degenerate, coincident, far-away and very large ones), all queries and tolerances, all insert/remove/reset histories",
     "Tests query one fixed cloud once per index; losing objects needs particular cell boundaries, subdivision, tolerances or a removal history.",
     ["geometry/GeoHashGrid_Imp.hpp", "geometry/GeoOctree_Imp.hpp", "geometry/GeoRtree_Imp.hpp", "geometry/GeoAdtree_Imp.hpp", "geometry/GeoBoundingBox_Imp.hpp"],
     [("hash grid build and find", "geometry/GeoHashGrid_Imp.hpp"), ("octree subdivision and find", "geometry/GeoOctree_Imp.hpp"), ("box trees", "geometry/GeoAdtree_Imp.hpp")],
     "find() results compared with a linear scan over the live objects", LN, RM + "linear-scan reference model over index histories")

prop("P02", "Clipping by a plane conserves area and volume",
     "Cutting a planar polygon or a closed polyhedron with any plane yields a piece that lies on the kept side, is closed, and whose area or volume together with the piece kept by the opposite plane equals the original, all within rounding. Clipping to a requested fraction along a direction finds a plane whose kept piece has that fraction of the measure.",
     ["inputs"], "all convex polygons and convex polyhedra, all plane orientations and positions including through vertices, edges and faces",
     "Tests cut unit shapes with a couple of axis-aligned planes; loss of closure or measure shows only for particular plane positions.",
     ["geometry/GeoPolygon_Imp.hpp", "geometry/GeoPolyline_Imp.hpp", "geometry/GeoPolyhedron_Imp.hpp"],
     [("polygon clip", "geometry/GeoPolygon_Imp.hpp"), ("polyhedron clip, close, volume fraction clip", "geometry/GeoPolyhedron_Imp.hpp")],
     "measures and vertices of the clipped pieces", LN, RM + "conservation monitor on both halves of every cut")

prop("P03", "Lengths, areas, volumes, normals and centroids are exact and frame independent",
     "For lines, polylines, triangles, quadrilaterals, planar polygons, tetrahedra, prisms, hexahedra, convex polyhedra, spheres and circles, computed lengths, areas, volumes and unit normals equal the mathematical values, centroids are the mean of the vertices (of the face centroids for polyhedra), and bounding boxes are the tight box of the shape. All of them transform correctly under rotation, translation, scaling and relabelling of vertices, and are those of the current shape after an object is reset and reused. Splitting a polygon, quadrilateral or hexahedron into triangles or tetrahedra preserves area, volume and orientation.",
     ["inputs"], "all non-degenerate shapes in any position, orientation and scale",
     "Tests evaluate a handful of axis-aligned unit shapes, where wrong components, missing factors and orientation mistakes cancel.",
     ["geometry/GeoTriangle_Imp.hpp", "geometry/GeoQuadrilateral_Imp.hpp", "geometry/GeoPolygon_Imp.hpp", "geometry/GeoPolyhedron_Imp.hpp", "geometry/GeoTetrahedron_Imp.hpp", "geometry/GeoTriangularPrism_Imp.hpp", "geometry/GeoHexahedron_Imp.hpp", "geometry/GeoPolyline_Imp.hpp"],
     [("measures of the shapes", "geometry/GeoPolygon_Imp.hpp"), ("decompositions", "geometry/GeoTriangularPrism_Imp.hpp")],
     "calculated measures of generated shapes", LN, RM + "independent formulas and metamorphic (rigid motion) oracles")

prop("P04", "Intersection, containment and distance queries agree with exact geometry",
     "For lines, planes, triangles and tetrahedra in general position, the reported intersection type and point, containment answer and distance agree with an independent computation, the reported intersection points lie on both objects, and the answers do not change when the operands are moved rigidly together or swapped.",
     ["inputs"], "all pairs of primitives whose configuration is away from the tolerance threshold",
     "Tests check a few hand-picked planar configurations per predicate.",
     ["geometry/GeoLine_Imp.hpp", "geometry/GeoTriangle_Imp.hpp", "geometry/GeoTetrahedron_Imp.hpp", "geometry/GeoPlane_Imp.hpp", "geometry/GeoSphere_Imp.hpp", "geometry/GeoLineList_Imp.hpp"],
     [("line-line, line-plane intersection", "geometry/GeoLine_Imp.hpp"), ("triangle-line and triangle-triangle intersection", "geometry/GeoTriangle_Imp.hpp")],
     "return values of intersects/contains/distance", LN, RM + "independent geometric reference with don't-care band at the tolerance")

prop("P05", "Vector algebra, coordinate transforms, hulls and line chains obey their laws",
     "Dot, cross, norm, angle and in-plane rotation of vectors obey the usual algebraic identities for all vectors longer than the zero guard; a coordinate transform applies its matrix and composes. The convex hull of planar points, in any plane, with coincident or collinear ones, consists of given points, encloses all of them and has the hull's area. Sorting the lines of a closed loop chains them end to start without losing any, and vertex lists hold exactly what was added, inserted, replaced and not removed.",
     ["inputs", "histories"], "all vectors, angles, matrices, planar point sets, closed loops of lines and edit histories",
     "Tests check one rotation, one angle and one hull in the xy plane.",
     ["geometry/GeoVector_Imp.hpp", "geometry/GeoCoordinate_Imp.hpp", "geometry/GeoConvexHull_Imp.hpp", "geometry/GeoLineList_Imp.hpp", "geometry/GeoVertexList_Imp.hpp"],
     [("vector operations", "geometry/GeoVector_Imp.hpp"), ("hull", "geometry/GeoConvexHull_Imp.hpp"), ("chaining", "geometry/GeoLineList_Imp.hpp")],
     "results of vector, transform, hull and list operations", LN, RM + "algebraic identities and reference models")

prop("P07", "A mesh container is a faithful map from identifiers to nodes, faces, elements",
     "After any sequence of additions, removals, transformations, copies and resets, a mesh reports exactly the nodes, faces and elements that were added and not removed, each identifier reaches the object stored under it, indices and identifiers are inverse to each other, copies are equal and independent, and transforms move every node as the requested map.",
     ["histories", "inputs"], "all sequences of container operations, dense and sparse identifiers in any order",
     "Tests add a handful of entities with dense ascending identifiers.",
     ["mesh/MshMesh_Imp.hpp", "mesh/MshElement_Imp.hpp", "mesh/MshFace_Imp.hpp"],
     [("add/remove/get by id and index", "mesh/MshMesh_Imp.hpp")],
     "getters of CMshMesh against a std::map model", LN, RM + "reference-model (map) monitor over operation histories")

prop("P08", "Mesh topology operations keep the mesh the same physical body",
     "Generating faces pairs exactly the element faces that share the same nodes and leaves exactly the boundary faces unpaired; extracting the boundary gives a closed surface; merging coincident nodes collapses nodes closer than the tolerance, keeps every element's geometry and leaves no dangling or duplicate reference; sharing and search queries return exactly the elements that contain the given nodes, or the entities at the given place.",
     ["inputs", "histories"], "all conforming meshes with any numbering of nodes and elements, all merge tolerances below the mesh size",
     "Tests count faces of one or two small structured meshes numbered from zero.",
     ["mesh/MshMesh_Imp.hpp", "mesh/MshMeshQuery_Imp.hpp", "fvm/FvmMeshSearch_Imp.hpp"],
     [("face generation and merging", "mesh/MshMesh_Imp.hpp"), ("queries", "mesh/MshMeshQuery_Imp.hpp")],
     "faces, boundary meshes and query results", LN, RM + "brute-force topology reference")

prop("P09", "Structured meshes fill the block exactly",
     "Structured meshing of a line, convex quadrilateral or convex hexahedron with any numbers of divisions, or of a box by cell size, yields exactly the lattice nodes and documented number of elements. The elements have the block's orientation, conform to each other, and their measures and outer boundary add up to the block's, with or without decomposition into triangles or tetrahedra and whatever was generated before.",
     ["inputs"], "all convex blocks and all division counts, with and without simplicial decomposition",
     "Tests count the elements of one or two grids.",
     ["mesh/MshBasicMesher_Imp.hpp"], [("structured generation", "mesh/MshBasicMesher_Imp.hpp")],
     "generated meshes", LN, RM + "partition and conformity monitors on generated meshes")

prop("P10", "Triangle and quadrilateral meshers partition the region they are given",
     "Whenever surface meshing reports success, the mesh consists of positively oriented, non-overlapping elements that conform to each other, have the given boundary edges as their boundary (possibly refined where the operation says so), and whose areas sum to the area of the region, including holes and interior points; remeshing, relaxing, flipping and collapsing preserve the region and its boundary. Rectangles with an even boundary are never refused, nor are regular polygons as triangles.",
     ["inputs"], "all polygonal regions with and without holes and interior points, all boundary discretisations and size functions",
     "Tests mesh a few shapes and compare element counts, which does not detect overlaps, gaps or inverted elements.",
     ["mesh/MshTriangleMesher_Imp.hpp", "mesh/MshQuadrilateralMesher_Imp.hpp"],
     [("advancing front", "mesh/MshTriangleMesher_Imp.hpp"), ("quadrilateral mesher", "mesh/MshQuadrilateralMesher_Imp.hpp")],
     "meshes returned by successful generation", LN, RM + "partition monitors on meshes of generated regions")

prop("P11", "The tetrahedral mesher partitions the volume it is given",
     "Whenever tetrahedral meshing of a closed surface reports success, the tetrahedra are positively oriented and conforming, their outer surface is the given surface mesh, requested interior points are nodes, no node is unused and the volumes add up to the enclosed volume, also when the mesher is used again. Relaxing nodes and flipping faces and edges, in any sequence, keep all of this. Boxes of twelve triangles are never refused.",
     ["inputs"], "all closed surface meshes the mesher accepts, with and without interior points",
     "Tests mesh three fixed boxes and compare the counts and the sum of volumes.",
     ["mesh/MshTetrahedronMesher_Imp.hpp"], [("advancing front", "mesh/MshTetrahedronMesher_Imp.hpp")],
     "meshes returned by successful generation", LN, RM + "partition monitors on meshes of generated bodies")

prop("P12", "Extrusion builds a conforming solid over the surface mesh",
     "Extruding a surface mesh of triangles and quadrilaterals moves every node by the requested thickness against the mean normal of its elements, builds exactly one prism or hexahedron of positive volume over every surface element per layer, and leaves the surface mesh on top of the new layer. Merged layers conform to each other and, for planar surfaces, their volumes add up to area times height.",
     ["inputs"], "all planar and gently curved surface meshes, numbers of layers and thicknesses, any node and element numbering",
     "Tests extrude one fixed mesh and compare the element count.",
     ["mesh/MshExtrudedMesher_Imp.hpp"], [("extrusion", "mesh/MshExtrudedMesher_Imp.hpp")],
     "extruded meshes", LN, RM + "partition monitors on extruded meshes")

prop("P13", "Quadrature rules integrate polynomials exactly to their order",
     "Every Gauss rule the library offers for beams, triangles, quadrilaterals, tetrahedra, prisms and hexahedra has points inside its reference cell and weights that sum to what the rule's convention states, and integrates every polynomial up to the degree of the rule exactly, also when the object is reused for another order. Element and boundary integrals built on the rules see the correct moments of the element.",
     ["inputs"], "all rules used by the elements and all polynomials of the rule's degree",
     "Tests integrate one function per rule.",
     ["integration/IntBeam_Imp.hpp", "integration/IntTriangle_Imp.hpp", "integration/IntQuadrilateral_Imp.hpp", "integration/IntTetrahedron_Imp.hpp", "integration/IntTriangularPrism_Imp.hpp", "integration/IntHexahedron_Imp.hpp"],
     [("points and weights", "integration/IntHexahedron_Imp.hpp")],
     "points and weights of each rule", LN, RM + "monomial exactness monitor")

prop("P14", "Finite element matrices have the structure of the operators they discretise",
     "For every non-degenerate element in any position and orientation, diffusion matrices are symmetric, annihilate constants, reproduce the gradient energy of every linear field and do not change under rigid motion; capacity matrices are symmetric, positive and sum to the measure (times thickness or section) over the time step. Source vectors and edge or face loads sum to the applied total and are distributed consistently, convection and flow terms differentiate linear fields exactly, and elastic stiffness is blind to rigid motion and exact for constant strain.",
     ["inputs"], "all non-degenerate beams, triangles, quadrilaterals, tetrahedra, prisms and hexahedra, all material coefficients and node numberings",
     "Tests compare a few matrix entries of one element each.",
     ["fem/FemBeam_Imp.hpp", "fem/FemTriangle_Imp.hpp", "fem/FemTetrahedron_Imp.hpp", "fem/FemQuadrilateral_Imp.hpp", "fem/thermal/FemThermalElement_Imp.hpp"],
     [("element matrices", "fem/FemTriangle_Imp.hpp")],
     "laplacian, ddt and source of each element", LN, RM + "operator identity monitors over generated elements")

prop("P15", "Discrete differential operators are exact where their order promises it",
     "On any supported mesh in any position and numbering, assembled finite difference, volume and element operators annihilate constants, differentiate linear (differences: quadratic) fields exactly where the scheme is consistent, and keep the symmetry and conservation of what they discretise; heat exchange on element edges vanishes at ambient temperature. Steady solves by penalty or elimination reproduce linear fields (elasticity: the patch test) and do not depend on the numbering; implicit time steps conserve heat and create no new extremes in difference and volume schemes.",
     ["inputs", "configurations"], "all supported meshes (structured and unstructured, 1D to 3D), numberings, coefficients and boundary conditions",
     "Tests solve one problem on one grid numbered from zero.",
     ["pde/fdm/generic/FdmGenericOperators_Imp.hpp", "pde/fvm/generic/FvmGenericOperators_Imp.hpp", "pde/fem/generic/FemGenericOperators_Imp.hpp", "pde/PdeEquation_Imp.hpp", "pde/PdeField_Imp.hpp"],
     [("generic operators", "pde/PdeEquation_Imp.hpp")],
     "assembled systems and their solutions", LN, RM + "manufactured-solution and metamorphic monitors")

prop("P16", "Linear systems solve to the stated tolerance and compose as algebra",
     "Solving any well conditioned system, sparse symmetric, sparse general or dense, returns a finite vector that satisfies it to solver tolerance and leaves the system as it was. Adding, subtracting, scaling and relating systems yields exactly the system of the combined equations, announced with a kind that holds for it, and leaves the operands unchanged.",
     ["inputs"], "all nonsingular well conditioned systems of any size and pattern and all expressions over them",
     "Tests solve one small system per kind.",
     ["sle/SleSystem_Imp.hpp"], [("solve and operators", "sle/SleSystem_Imp.hpp")],
     "solutions and combined systems", LN, RM + "residual monitor and dense reference algebra")

prop("P17", "Boundary element coefficients satisfy the potential identities",
     "For every closed triangulated surface with outward normals and every numbering, boundary element coefficients equal the exact solid angles and single-layer potentials of the triangles to quadrature accuracy, so rows of the double-layer matrix sum to -1/2 on the boundary. Coefficients do not change under rigid motion and scale with size, the assembled matrices follow the numbering, and harmonic fields satisfy the discrete boundary equation.",
     ["inputs"], "all closed triangulated surfaces of reasonable element quality",
     "Tests solve one cube problem.",
     ["bem/BemTriangle_Imp.hpp", "pde/bem/BemOperators_Imp.hpp"], [("triangle coefficients", "bem/BemTriangle_Imp.hpp")],
     "laplacian coefficients of CBemTriangle", LN, RM + "potential identity monitors")

prop("P18", "Finite volume geometry is closed, paired and conservative",
     "In the finite volume mesh built from any conforming mesh of tetrahedra, prisms or hexahedra, every control volume is closed with outward faces, each internal face belongs to exactly its two volumes, and volumes, areas and centroids are the elements' and add up to the body. Clipping a control volume to a fraction keeps it closed with that fraction, whatever was read before, and can be undone; face identifiers, indices and boundary searches stay exact through any history.",
     ["inputs", "histories"], "all conforming meshes of tetrahedra, prisms, hexahedra, triangles and quadrilaterals, any numbering, all clip directions and fractions",
     "Tests compare counts and one volume on small structured grids.",
     ["fvm/FvmMesh_Imp.hpp", "fvm/FvmControlVolume_Imp.hpp", "fvm/FvmFace_Imp.hpp", "fvm/FvmCell_Imp.hpp"],
     [("mesh construction", "fvm/FvmMesh_Imp.hpp"), ("control volume clip", "fvm/FvmControlVolume_Imp.hpp")],
     "faces and control volumes of CFvmMesh", LN, RM + "closure and conservation monitors")

prop("P19", "Temperature and volume-of-fluid solvers conserve and stay bounded",
     "At every time step the temperatures satisfy the discrete heat equation: heat gained by the cells is what boundaries and openings supply, no new extremes appear for uniform properties, and a uniform state matching its boundary stays. The volume-of-fluid solver keeps every fraction in [0,1], leaves uniform fractions and still fluid unchanged, mixes properties by fraction and carries a slab with the flow at the same amount. Moved, mirrored, renumbered or rescaled images of a problem have the image as solution.",
     ["inputs", "histories"], "all meshes, initial fields, boundary values and stable time steps",
     "Tests march one configuration and compare single values.",
     ["solvers/FvmTemperatureSolver_Imp.hpp", "solvers/FvmVofSolver_Imp.hpp"], [("temperature step", "solvers/FvmTemperatureSolver_Imp.hpp"), ("volume-of-fluid step", "solvers/FvmVofSolver_Imp.hpp")],
     "solver fields after every step", LN, RM + "conservation and boundedness monitors over time steps")

prop("P20", "The PISO flow solver conserves mass and respects symmetry",
     "After every stable time step, in closed cavities and in channels with flow or pressure inlets and outlets, the mass of every cell balances to solver tolerance, imposed velocities, flows and pressures hold, and velocity, pressure and face fluxes satisfy the discrete momentum and pressure equations. Fluid at rest without forcing stays at rest, and moved, mirrored, renumbered or rescaled images of a problem have the image as solution.",
     ["inputs", "histories"], "all cavity meshes, wall velocities, viscosities and stable time steps",
     "Tests run one cavity and compare a few velocities.",
     ["solvers/FvmPisoSolver_Imp.hpp"], [("PISO iteration", "solvers/FvmPisoSolver_Imp.hpp")],
     "velocities, pressures and face fluxes after every step", LN, RM + "mass balance and symmetry monitors over time steps")

prop("P21", "The finite element CBS flow solver keeps rest, bounds and symmetry",
     "For any triangle or tetrahedron mesh, materials, body force, walls and step, each CBS step gives the velocities and pressure of the split finite element equations of that mesh, with all velocity components treated alike and fixed values imposed exactly. Fluid without forcing stays exactly at rest, a still fluid under gravity carries its weight as pressure on any mesh, and results are deterministic and follow when the problem is moved, mirrored, renumbered or expressed in other units.",
     ["inputs", "histories"], "all cavity meshes, wall velocities, viscosities and stable time steps",
     "Tests run one cavity and compare a few velocities.",
     ["solvers/FemCbsSolver_Imp.hpp", "fem/flow/FemFlowTriangle_Imp.hpp"], [("CBS iteration", "solvers/FemCbsSolver_Imp.hpp")],
     "velocities and pressures after every step", LN, RM + "invariant monitors over time steps")

prop("P22", "The lattice Boltzmann cavity conserves mass and momentum locally",
     "For any grid, walls, obstacles, lid velocity, starting state and relaxation time, the velocities after every step are those of a collision that conserves mass and momentum in each cell, streaming to the neighbours, full reflection at nodes marked as walls and the imposed lid. Fluid at rest stays at rest, a closed box keeps its mass and comes to rest, and results are deterministic, mirror and turn with the problem, and do not depend on what was run before init().",
     ["inputs", "histories"], "all grid sizes and stable lattice parameters, any number of steps",
     "Tests run one cavity and compare one profile.",
     ["solvers/LbmLidDrivenSolver_Imp.hpp"], [("collision and streaming", "solvers/LbmLidDrivenSolver_Imp.hpp")],
     "macroscopic fields after every step", LN, RM + "reference-model monitor over time steps")

prop("P23", "SPH kernels are partitions of unity with consistent gradients",
     "Every smoothing kernel is non-negative, decreasing, radial, zero outside its support and integrates to one in one, two and three dimensions at any smoothing length; its gradient is the derivative of its value and its exchange factor (laplacianW) follows from both. Particle steps move every particle by its velocity (keeping spacing across cyclic borders), sum density over all particles in reach, and exchange values independently of particle order, keeping uniform values, bounds, fixed values and the total carried.",
     ["inputs"], "all kernels, dimensions, smoothing lengths and distances",
     "Tests evaluate each kernel at a couple of distances.",
     ["sph/SphCubicSpline_Imp.hpp", "sph/SphGaussian_Imp.hpp", "sph/SphQuintic_Imp.hpp", "sph/SphSpiky_Imp.hpp", "sph/SphConvex_Imp.hpp", "solvers/SphParticles_Imp.hpp"],
     [("kernels", "sph/SphKernel_Imp.hpp")],
     "W, gradW and laplacianW of each kernel", LN, RM + "numerical integration and differentiation monitors")

prop("P24", "Expressions, root finders and analytical solutions are correct",
     "Expressions evaluate as written for any values of their variables and any history of definitions, copies and evaluations; root searches on a bracket where the function changes sign return a point inside it within the stated tolerance of a root. Analytical temperature and flow solutions satisfy their differential equation, boundary and initial conditions, and materials return what was assigned.",
     ["inputs", "histories"], "all expressions over the supported syntax, brackets, tolerances, times and positions",
     "Tests evaluate a few fixed expressions and points.",
     ["analytical/AnaFunction_Imp.hpp", "analytical/AnaTemperature_Imp.hpp", "analytical/AnaFlow_Imp.hpp", "material/MatMaterial_Imp.hpp"],
     [("expression evaluation and roots", "analytical/AnaFunction_Imp.hpp")],
     "values returned by evaluation and solution functions", LN, RM + "reference evaluation and PDE residual monitors")

prop("P25", "Boolean solids are the set union, intersection and difference",
     "For closed solids made of polygons, whatever their position and with any tolerance small against their size, a point belongs to the union, intersection or difference exactly when set logic on the operands says so, also in nested expressions and for operands that share faces, are equal or are empty. Results are closed and consistently oriented, their volumes and areas obey inclusion-exclusion, the ready-made box, sphere and cylinder have the shape asked for, and operands are not modified.",
     ["inputs", "histories"], "all boxes, spheres and cylinders in any position and nested boolean expressions over them",
     "Tests compare polygon counts or one volume.",
     ["csg/CsgBoolean_Imp.hpp", "csg/CsgBspNode_Imp.hpp", "csg/CsgCube_Imp.hpp", "csg/CsgSphere_Imp.hpp", "csg/CsgCylinder_Imp.hpp"],
     [("boolean operations", "csg/CsgBoolean_Imp.hpp"), ("BSP split", "csg/CsgBspNode_Imp.hpp")],
     "polyhedra of boolean results", LN, RM + "membership and inclusion-exclusion monitors")

prop("P26", "STL files round trip and facet repair preserves the surface",
     "Writing a surface as ASCII or binary STL and reading it back gives the same facets, normals and statistics within the precision of the format, and ASCII files in the spelling of other programs are read too. Connectivity pairs exactly the facets sharing an edge and the mesh of a surface has one node per vertex. Splitting, flipping, collapsing, relaxing, orienting and removing duplicate or invalid facets keep the surface they promise to keep, with consistent orientation and normals, once neighbours are found again.",
     ["inputs", "histories"], "all triangulated surfaces and all sequences of repair operations",
     "Tests load one file and compare counts.",
     ["stl/StlFile_Imp.hpp", "stl/StlUtils_Imp.hpp"], [("file reading and writing", "stl/StlFile_Imp.hpp"), ("facet operations", "stl/StlUtils_Imp.hpp")],
     "facets and neighbours after load and after each operation", LN, RM + "round-trip and reference-topology monitors")

prop("P27", "Mesh and result files say what the field holds",
     "Saving a mesh or field to Gmsh, VTK, gnuplot or QuickMesh files writes every node, element and value once, in the format's syntax, in order and to 16 digits, for any numbering, and reports when it could not be written. Reading Gmsh and QuickMesh files restores nodes, elements and connectivity as written, including Gmsh files with gaps in the numbers, tags and sections or elements the library does not know.",
     ["inputs"], "all meshes of supported elements with any numbering, all field values",
     "Tests save and reload one small mesh and compare counts.",
     ["post/PosGmsh_Imp.hpp", "post/PosVtk_Imp.hpp", "post/PosGnuplot_Imp.hpp", "post/PosQuickMesh_Imp.hpp"],
     [("Gmsh load and save", "post/PosGmsh_Imp.hpp")],
     "file contents and reloaded fields", LN, RM + "independent parser and round-trip monitors")

prop("P28", "Readers survive damaged files without memory errors or hangs",
     "For any bytes on disk, reading an STL, Gmsh or QuickMesh file terminates promptly and never reads or writes outside its buffers. It either reports failure or yields a structure whose references are all valid and which can be used, saved and read again, and the reader reads the next file as if nothing had happened.",
     ["inputs", "faults"], "all byte strings, in particular truncated, bit-flipped and re-ordered files",
     "Tests read well-formed files only.",
     ["stl/StlFile_Imp.hpp", "post/PosGmsh_Imp.hpp"], [("readers", "stl/StlFile_Imp.hpp")],
     "return values, resulting structures, sanitizer reports", LN, RM + "mutational file workload under sanitizers")
