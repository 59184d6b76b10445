#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the texts stay reviewable)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

F2 = "conmech/dynamics/factory/_dynamics_factory_2d.py"
F3 = "conmech/dynamics/factory/_dynamics_factory_3d.py"
FM = "conmech/dynamics/factory/dynamics_factory_method.py"
FA = "conmech/dynamics/factory/_abstract_dynamics_factory.py"
SMX = "conmech/struct/stiffness_matrix.py"
DYN = "conmech/dynamics/dynamics.py"
ST = "conmech/dynamics/statement.py"
BF = "conmech/mesh/boundaries_factory.py"
BS = "conmech/mesh/boundaries.py"
ME = "conmech/mesh/mesh.py"
SO = "conmech/solvers/solver.py"
SM = "conmech/solvers/solver_methods.py"
SC = "conmech/solvers/optimization/schur_complement.py"
GO = "conmech/solvers/optimization/global_optimization.py"
OP = "conmech/solvers/optimization/optimization.py"
DI = "conmech/solvers/direct.py"
RG = "conmech/solvers/_solvers.py"
PS = "conmech/simulations/problem_solver.py"
PR = "conmech/scenarios/problems.py"
STA = "conmech/state/state.py"
BFO = "conmech/scene/body_forces.py"

add("C01", "Element volume and shape-function gradients are exact on every simplex",
    "For every non-degenerate triangle or tetrahedron, in any position, orientation and vertex order, the element's volume is its exact geometric volume (positive), and the gradient computed for each of its vertices is the gradient of the linear function that is one at that vertex and zero at the others. In particular the gradients of an element sum to zero and reproduce every linear field exactly.",
    ["inputs"], "all vertex coordinates of non-degenerate simplices in 2D and 3D, every vertex",
    "The unit tests pin a handful of triangles and cubes; exactness is a polynomial identity in 6 or 12 real coordinates with a sign (orientation) case, and a wrong term can vanish on axis-aligned or regular samples.",
    [F2, F3], [("per-vertex integrals", "get_integral_parts_numba"), ("signed volume", "denominator_numba")],
    ["return value of the per-element integral routine", "element_initial_volume"])

add("C02", "Assembled operators are exactly the sum of element integrals",
    "For every mesh, the assembled mass, first-derivative, gradient-gradient and nodal-volume matrices are exactly the sum over elements of the exact P1 element integrals placed at the element's global node numbers, and nothing is written anywhere else. Hence the mass matrix is symmetric and its entries sum to the body's volume, exchanging the two derivative directions transposes the gradient-gradient matrix, constant fields are in its kernel, the nodal volumes sum to the body's volume, and the list of element volumes is that of the geometry.",
    ["inputs"], "all node coordinates and all element lists (any number of nodes and elements, any numbering, shared nodes) in 2D and 3D",
    "Tests compare a few assembled matrices of fixed small meshes with stored numbers; the property quantifies over all meshes and numberings, including meshes in which a node belongs to any number of elements.",
    [F2, F3, FM], [("element loop", "get_edges_features_matrix_numba"), ("splitting into matrices", "get_basic_matrices")],
    ["values returned by get_basic_matrices"])

add("C03", "Material operators are the exact constitutive bilinear forms",
    "For every set of material coefficients, the elasticity and viscosity operators are the isotropic Hooke/Kelvin-Voigt forms of the strain (2 mu eps:eps + lambda div div): symmetric, and with zero force for every translation and linearised rotation. The inertia operator is the density times the mass matrix in every component without coupling, the thermal, conductivity, permittivity, piezoelectric and relaxation operators are the coefficient-weighted sums of the corresponding derivative matrices (a relaxation tensor of isotropic form gives the elasticity operator), the membrane operator is the squared propagation speed times the Laplacian, and each operator exists exactly for bodies that have the property and uses that body's own coefficients.",
    ["inputs", "configurations"], "all material coefficients, all derivative matrices of any size (2D and 3D), all body property classes",
    "Existing tests use one or two coefficient sets (often with mu equal to lambda) on fixed meshes, for which swapped coefficients or indices are invisible.",
    [F2, F3, FA, FM, SMX, DYN],
    [("constitutive matrices", "calculate_constitutive_matrices"), ("relaxation / thermal / piezo tensors", "get_relaxation_tensor, calculate_thermal_*, get_piezoelectric_tensor, get_permittivity_tensor"), ("routing by body properties", "get_dynamics"), ("operator algebra", "StiffnessMatrix")],
    ["operators held by the dynamics object"])

add("C04", "Element density scales exactly its own element's stiffness",
    "When a density is given per element, the stiffness operators equal the sum over elements of that element's density times its own stiffness contribution: linear in the densities, unaffected by any other element's density, and equal to the unweighted operators when every density is one. The volume, mass and load operators do not depend on the densities.",
    ["inputs", "histories"], "all 2D meshes, all density vectors, and any sequence of density updates on one body",
    "The only test of the non-homogeneous solver checks one mesh and one density pattern against stored values.",
    [DYN, F2, PS], [("density-weighted assembly", "asembly_w_matrix_with_density"), ("re-initialisation", "reinitialize_matrices"), ("update_density", "NonHomogenousSolver.update_density")],
    ["elasticity operator after a density update"])

add("C05", "Each time-discrete system is the discretised balance law of its problem",
    "For every state, time step and material, the left- and right-hand sides built for a problem are those of its discretised balance law: static elasticity, quasistatic viscoelasticity (unknown velocity), dynamics with inertia/dt, quasistatic relaxation with the absement history, the wave and Poisson equations, heat conduction with inertia/dt, and the electric potential equation. The coupling terms between mechanics and temperature, and between mechanics and electric potential, appear in both equations through the same operator and its transpose. Building a system never changes the body's operators, the given state vectors or the stored loads.",
    ["inputs", "histories"], "all operators, state vectors, time steps, times, and any sequence of rebuilds",
    "Regression tests run each problem type once on one mesh with fixed numbers; sign, transposition or dt mistakes that cancel for zero initial data, dt=1 or uncoupled runs are not seen, and no test checks that operators stay unmodified.",
    [ST, SMX, PR], [("statements", "Statement subclasses update_left_hand_side / update_right_hand_side"), ("problem to statement", "Problem.statement / second_statement")],
    ["left_hand_side and right_hand_side after an update"])

add("C06", "Dirichlet values are imposed exactly and only there",
    "For every system matrix, load and set of prescribed nodes (one contiguous block or any sorted set, one or several numbered conditions), the modified system has an identity row and the prescribed value for every prescribed unknown in every component, no other equation refers to a prescribed unknown, and every remaining equation equals the original one with the prescribed values substituted. The solution returned by any solver carries the prescribed values exactly and keeps the solver's values at all other unknowns.",
    ["inputs", "configurations"], "all matrices, right-hand sides, prescribed node sets, prescribed values, dimensions",
    "Tests use homogeneous clamping on a contiguous block; inhomogeneous values, scattered node sets, symmetric elimination and multiple conditions need all index patterns.",
    [ST, BS, SO, BF], [("elimination", "Statement.apply_dirichlet_condition"), ("condition lookup", "Statement.find_dirichlet_conditions"), ("index enumeration", "Boundaries.get_all_boundary_indices"), ("final overwrite", "Solver.solve")],
    ["left_hand_side/right_hand_side after update", "vector returned by solve"])

add("C07", "The Schur-reduced problem is equivalent to the full problem",
    "For every system with invertible free block, eliminating the non-contact unknowns and then completing the solution yields a vector whose full-system residual is zero on every non-contact unknown and equals the reduced residual on every contact unknown. Truncating an initial guess and merging contact and free parts are inverse to one another and put every node's value back in its place, in one, two or three dimensions. The reduced matrix and load always belong to the current system.",
    ["inputs"], "all system matrices with invertible free block, loads, contact counts, dimensions 1, 2 and 3",
    "Tests compare the Schur and global solvers on a few small problems to a loose tolerance; block bookkeeping holds or fails for all sizes and orderings.",
    [SC, "conmech/helpers/nph.py"], [("matrix reduction", "calculate_schur_complement_matrices"), ("load reduction", "calculate_schur_complement_vector"), ("completion", "SchurComplementOptimization.complement_free_nodes / merge / truncate_free_nodes")],
    ["lhs/rhs of the Schur solver", "vector returned by the Schur solver"])

add("C08", "Contact laws: response is the derivative of the potential and only pushes",
    "For every contact law shipped with the library and all its parameters (non-negative stiffness), the response and the potential are zero while the body does not penetrate the foundation, and elsewhere the response is the derivative of the potential with respect to the unknown. The response is never negative and never decreases with the unknown, and the potential is not negative when the unknown and the penetration are non-negative. Laws never modify their arguments and default bounds leave the response unscaled.",
    ["inputs"], "all law parameters, normal values, static displacements and time steps",
    "Tests evaluate laws only indirectly inside whole simulations with one parameter set, and never compare potential and response.",
    ["conmech/dynamics/contact/contact_law.py", "conmech/dynamics/contact/relu_slope_contact_law.py", "conmech/dynamics/contact/constant_constact_law.py", "conmech/dynamics/contact/damped_normal_compliance.py"],
    [("laws", "make_slope_contact_law, make_const_contact_law, make_damped_norm_compl, ContactLaw defaults")],
    ["values returned by the law's functions"])

add("C09", "Energy, subgradient and equilibrium residual describe one contact problem",
    "For every system, contact surface, normal field and contact law, the minimised energy is one half of the quadratic form minus the load term plus the law's potential integrated over the contact surface with weights that add up to each facet's measure, each sample seeing the normal and tangential part of the trial value (old values for nodes outside the reduced system). The subgradient and the equilibrium residual are the system residual plus contact forces that act along the facet normal only at nodes of the contact surface inside the reduced system, and whose total over each facet is the law's response integrated with the same weights as the energy. Evaluating any of them never changes its arguments.",
    ["inputs", "configurations"], "all matrices, loads, trial vectors, meshes, contact facets, unit normals, laws with or without bounds and friction, 1-component and multi-component variables",
    "No test evaluates the energy, residual or subgradient directly; simulations only see the minimiser for a few laws on a few meshes.",
    [SM, "conmech/helpers/nph.py", OP, DI], [("energy", "make_cost_functional"), ("subgradient", "make_subgradient"), ("residual", "make_equation"), ("sampling", "get_nodes / interpolate_node_between"), ("wiring", "Optimization.__init__, Direct.__init__")],
    ["values of the generated functions"])

add("C10", "Boundary detection and renumbering preserve the mesh and classify every node",
    "For every mesh and every pair of contact/Dirichlet indicators, renumbering is a permutation that keeps every element's geometry, and the nodes come out ordered contact, other boundary, interior, Dirichlet, where a node satisfying both indicators is Dirichlet. The reported counts and index ranges match the classification, are disjoint and together cover the boundary, and the boundary facets are exactly the facets belonging to one element, each paired with that element's remaining node.",
    ["inputs", "configurations"], "all meshes (any numbering) in 2D and 3D and all indicator functions",
    "Tests check a few fixed meshes; overlapping indicators, empty boundaries and arbitrary numberings are combinations the samples do not reach.",
    [BF, BS, ME, "conmech/mesh/boundaries_description.py"], [("facet enumeration", "identify_surfaces_numba / get_boundary_surfaces"), ("renumbering", "reorder_numba / reorder_boundary_nodes"), ("classification", "BoundariesFactory.identify_boundaries_and_reorder_nodes")],
    ["Mesh.nodes, Mesh.elements, Mesh.boundaries, index properties of Mesh"])

add("C11", "Boundary normals are unit, perpendicular and point outwards",
    "For every boundary facet of every mesh, the normal attached to it has unit length, is perpendicular to the facet, and points away from the element the facet belongs to; the normals handed to the contact solvers are those of the contact facets, in the same order.",
    ["inputs", "configurations"], "all non-degenerate meshes in 2D and 3D, all classifications of the boundary",
    "Tests contain no check of normals for boundaries made of several classes; orientation depends on pairing each facet with its opposing node after reordering.",
    [BS, BF], [("normals", "get_boundary_surfaces_normals, get_unoriented_normals_2d/3d"), ("slice for contact", "Boundaries.contact_normals")],
    ["Boundaries.surface_normals, contact_normals"])

add("C12", "Loads are integrated conservatively from the current source at the current time",
    "For every mesh, source and time, the load vector is the nodal volume matrix applied to the volume source plus, for each Neumann facet, an equal share of the facet's exact measure times the surface source at each of its nodes: a constant source therefore yields total force volume times density plus Neumann area times traction, component by component, and nothing for nodes on no Neumann facet. The result depends only on the mesh, the present sources and the requested time, never on which times or vectors were requested before, and a problem that leaves its loads out is unloaded.",
    ["inputs", "histories"], "all meshes, source functions, times, and query histories",
    "Tests compare load vectors of single queries on fixed meshes; caching faults need particular query sequences.",
    [BFO, "conmech/helpers/nph.py"], [("facet shares", "get_surface_per_boundary_node_numba / element_volume_part_numba"), ("cache", "FieldSource.node_source"), ("integration", "BodyForces.integrate")],
    ["vector returned by integrate"])

add("C13", "A state is kinematically consistent, and snapshots are independent",
    "After every update of displacement or velocity, displaced positions equal reference nodes plus displacement, the state's time is the given time, and the integrated quantity (displacement, absement) has grown by exactly the elapsed time times the new rate, in node-by-component layout. A copy has the same values, type, time and recorded products and shares no mutable data with the original; stress always reflects the present fields. Saving leaves the live state and its body unchanged whether or not it succeeds, and loading returns what was saved.",
    ["histories", "inputs", "crash_points"], "all update sequences, vectors, times, copies at any moment, failures during saving",
    "Tests look at final displacements only; aliasing, stale caches and failure paths need specific sequences.",
    [STA, "conmech/state/products/product.py"], [("updates", "State.set_displacement / set_velocity"), ("copies", "State.__copy__ and subclasses, Product.copy"), ("persistence", "State.save / load"), ("stress", "State.stress")],
    ["State attributes"])

add("C14", "A simulation advances one step at a time and reports exactly the requested steps",
    "For every number of steps and requested output steps, a run returns one snapshot per requested step, in order, whose time is that step count times the time step, and every step is solved with the system rebuilt from the values, time and history the previous step ended with, for every problem type and solution method. Calling solve again on the same object gives the same result as on a fresh one, and resuming from a returned state continues as if never interrupted. Initial values a problem leaves out are zero, and the options given to solve reach the solution of every step.",
    ["histories", "configurations"], "all step counts, output step lists, problem types, solving methods, repeated and resumed calls",
    "Tests run each simulation once with fixed steps and only compare final numbers; repeated solves, intermediate outputs and resumption are not exercised.",
    [PS, GO, SC, DI, SO], [("time loop", "ProblemSolver.run"), ("drivers", "solve of each ProblemSolver subclass"), ("per-step refresh", "iterate of each solver")],
    ["list of returned states", "vectors held by the step solver"])

add("C15", "The coupled step alternates both equations to mutual consistency and always ends",
    "Each coupled thermo- or electro-mechanical step performs at least five and at most ten alternations whatever the solvers return, stopping early only when successive iterates differ by at most the tolerance. Every alternation builds the mechanical system from the step's old state and the latest coupled field and the second system from the displacement implied by the latest velocity. Afterwards both solvers hold the returned velocity, the displacement old plus time step times velocity, and the returned temperature/potential, and the returned pair is what the last alternation computed.",
    ["histories", "inputs"], "all solver return sequences (convergent, oscillating, divergent), initial fields and time steps",
    "Tests run coupled problems once each; the number of alternations and the bookkeeping for slow or non-convergent sequences are not observed.",
    [PS], [("alternation", "ProblemSolver.find_solution_uzawa")], ["solver vectors and returned pair"])

add("C16", "The named solution method is the one that runs, for every problem class",
    "For every problem class and every registered method name, in any letter case, the solver constructed is the one registered for that kind of problem (static, quasistatic, quasistatic relaxation, dynamic), relaxation problems never get the plain quasistatic solver, unknown names or problem kinds are rejected with an error, and a name can be registered only once per kind. The method's printed name selects the same method again, so refreshing the solvers keeps the method.",
    ["configurations"], "all problem classes (including user subclasses) x method names x letter cases x registration sequences",
    "Tests use a fixed set of names for each problem and never try names in other cases, clashes, refresh, or unsupported problems.",
    [RG, PS, DI, GO, SC, "conmech/solvers/__init__.py", "conmech/solvers/optimization/__init__.py"], [("registry", "SolversRegistry.register / get_by_name"), ("selection", "ProblemSolver.solving_method / refresh_solvers")],
    ["class of the step solver"])

add("C17", "Mesh construction keeps exactly the connected geometry",
    "For every raw mesh, building it translates all nodes by one common vector so that the minimum corner is at the requested position (or leaves them alone when none is requested), drops exactly the nodes that belong to no element, keeps every element's vertex coordinates, and lists every edge of the mesh exactly once with ascending node numbers. The generated cross and cube meshes tile exactly the requested box without overlap.",
    ["inputs"], "all raw meshes, initial positions, mesh sizes",
    "Tests build a few meshes and compare counts or stored arrays; unconnected nodes in arbitrary positions are not generated.",
    [ME, "conmech/mesh/mesh_builders.py", "conmech/mesh/zoo/cross_for_tests.py", "conmech/mesh/zoo/cube.py", "conmech/properties/mesh_description.py"], [("cleaning", "remove_unconnected_nodes_numba"), ("edges", "get_edges_matrix / get_edges_list_numba"), ("translation", "translate_nodes"), ("generators", "CrossMesh, Cube")],
    ["Mesh.nodes, Mesh.elements, Mesh.edges"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
