#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source: the table below)."""
import json, os
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why, "anchors": a})

Q = "cafes/fem/quadrature.hpp"
prop("C01", "Q1 shape functions and gradients are the exact finite-element basis",
 "In 2D and 3D, the shape functions of a cell of size h are the tensor-product linear functions: each is 1 at its own vertex and 0 at the others, they are non-negative in the cell, they sum to 1 and reproduce every affine function. "
 "The gradients returned with them are the cell volume (h0*h1, or h0*h1*h2) times the true partial derivatives of those shape functions, so they sum to zero.",
 "every point x (inside the cell for non-negativity) and every positive cell size h, isotropic or not",
 "The tests use them only through 2D Stokes solves with one or two mesh sizes; the identities are over all real x and h and the 3D versions are never compiled.",
 [Q], [("P1_integration / P1_integration_grad", Q)])
prop("C02", "Cell-to-node numbering is consistent, injective and stays inside the local array",
 "For a cell, the listed nodes are its vertices in the order of the shape functions (x fastest, then y, then z), and for a pressure cell the listed velocity nodes are its 3x3 (3x3x3) fine nodes in the same order. "
 "The local degree-of-freedom indices computed for assembly are dof*(linear index in the ghosted box)+component of exactly these nodes, they are pairwise distinct, and lie inside the ghosted local array whenever the cell does.",
 "every cell index, every ghosted box (offsets and extents) and number of components",
 "Tests run on a few meshes; they cannot cover all ghosted boxes, offsets and cells, and never compile the 3D numbering.",
 [Q], [("get_element, get_element_4Q1, get_indices, get_indices_tensor, get_indices_4Q1, DMDALocalIndex2D", Q)])
M = "cafes/fem/matElem.hpp"
prop("C03", "Elementary matrices equal the exact integrals of the bilinear forms",
 "For every cell size, the elementary Laplacian, mass, strain-tensor (2*int D(u):D(v)) and pressure (int p div u on the velocity sub-mesh) matrices in 2D and 3D equal the exact integrals of the shape functions, hence are symmetric where the form is, vanish on constants where it does, and give the cell volume as total mass. "
 "The flattened matrices used for assembly are the same matrices (transposed and sign-changed only where the assembled operator needs it), so assembled and matrix-free operators are the same bilinear forms.",
 "every mesh spacing h (all components positive), every pair of basis functions and components",
 "Solutions with full Dirichlet data or one test mesh hide wrong off-diagonal, anisotropic or 3D entries; the statement is over all h and all entries.",
 [M], [("getMatElemLaplacian[A], getMatElemMass[A], getMatElemStrainTensor[A], getMatElemPressure[A|AT]", M)])
I = "cafes/algorithm/iterate.hpp"
prop("C04", "Iterating over a box visits every index exactly once",
 "Iterating over a box calls the function exactly once for every integer position p with bottom_left <= p < upper_right in every direction, for no other position, and leaves the box unchanged; an empty box gives no call.",
 "every box of integer bounds in 2D and 3D, including empty and negative ones, and every callback",
 "Tests only iterate over the boxes of a few meshes and observe the sum of the effects.",
 [I], [("iterate, iterate_impl", I)])
B = "cafes/particle/geometry/box.hpp"
prop("C05", "Box operations implement interval-set semantics",
 "A point is inside a box exactly when bottom_left <= p < upper_right in every direction; two boxes intersect exactly when the closed boxes share a point; overlap_box/box_inside give exactly the common part, union_box the smallest box holding both, length the side lengths and their product, get_box_points the corners in x-fastest order. "
 "check_box_inside tells whether a part of the second box is inside the first.",
 "every pair of boxes with ordered corners and every point, integer or real, 2D and 3D",
 "Particle tests use one or two boxes in generic position; containment, touching and one-direction overlap are never exercised.",
 [B], [("point_inside, intersect, overlap_box, box_inside, union_box, check_box_inside, length, get_box_points", B)])
G = "cafes/particle/geometry/"
prop("C06", "Position, vector, velocity and force arithmetic is componentwise linear algebra",
 "Sums, differences, products, scalings and quotients of positions, vectors, velocities and forces, and their in-place forms, are the componentwise operations with the operands in the written order, in 2D and 3D; in-place forms modify only their left operand. "
 "ceil and floor of a position give the smallest integers not below and the largest not above each component.",
 "all operand values (divisors non-zero), 2D and 3D",
 "tests/force.cpp and tests/velocity.cpp check a few values of two types; mixed-type operators are not tested at all.",
 [G+"position.hpp", G+"vector.hpp", "cafes/particle/physics/force.hpp", "cafes/particle/physics/velocity.hpp"],
 [("operator+,-,*,/ and compound forms", G+"position.hpp, vector.hpp, physics/*.hpp"), ("ceil, floor", G+"position.hpp")])
X = G+"cross_product.hpp"
prop("C07", "Cross products are the cross products of rigid-body mechanics",
 "In 3D the cross product is the usual one (orthogonal to both factors, antisymmetric, right-handed, norm given by the Lagrange identity); in 2D, a scalar spin w times a vector is the in-plane vector w e_z x v and the cross product of two plane vectors is the scalar out-of-plane component. Neither operand is modified.",
 "all vector and spin values, 2D and 3D, every overload",
 "No test evaluates a cross product directly.",
 [X], [("cross_product overloads", X)])
Z = G+"quaternion.hpp"
prop("C08", "Quaternion rotations are rigid and invertible",
 "Building a quaternion from an angle (and axis) and normalising it gives a unit quaternion; rotating a vector by a unit quaternion preserves lengths and dot products and orientation, is linear, turns by the given angle about the given axis, and rotating by the conjugate undoes it. In the plane, a quaternion of axis z is the plane rotation by its angle.",
 "all angles and unit axes, all vectors and all non-zero quaternions",
 "Tests rotate no particle or only by one fixed angle.",
 [Z], [("quaternion(angle), quaternion(angle,axis), normalize, conj, rotate, is_rotate", Z)])
prop("C09", "A shape contains exactly its interior and its bounding box contains the shape",
 "contains(p) is true exactly for the points strictly inside the circle, sphere or (rotated) super-ellipsoid with the given centre, radii and exponents. "
 "The real bounding box contains every point of the shape (and is the tightest one when the shape is not turned), and the integer bounding box for spacing h contains every grid node inside the real box.",
 "every centre, positive radius or semi-axis, rotation, every grid spacing and every point",
 "Tests use circles at a few places on a few grids.",
 [G+"circle.hpp", G+"sphere.hpp", G+"super_ellipsoid.hpp"],
 [("contains, bounding_box", "circle.hpp, sphere.hpp, super_ellipsoid.hpp")])
prop("C10", "Generated surface points lie on the shape",
 "Every point returned as a surface point of a circle, sphere or super-ellipsoid (turned or not) lies on its boundary, turned and centred like the shape: mirror images, quarter by quarter, of points whose angles increase by the step that moves a point by the requested spacing (for the circle: 8N-4 points at the multiples of the spacing, N of them below an eighth of a turn). "
 "The points at given angles are those of the parametric equation. The constants of circle and sphere (area, volume, Cd_R, Ci_R) are those of the exact body.",
 "every centre, radius or semi-axes, exponents, rotation and surface spacing; 3D surfaces: one pair of slices at an arbitrary latitude",
 "Tests look at one or two shapes and at the count of points.",
 [G+"circle.hpp", G+"sphere.hpp", G+"super_ellipsoid.hpp", G+"uniform_sampling.hpp"],
 [("surface(), at, radial, surface_area, volume, Cd_R, Ci_R", "geometry/*.hpp"), ("uniform_sampling, theta", G+"uniform_sampling.hpp")])
S = "cafes/fem/mesh.hpp"
prop("C11", "Velocity and pressure meshes are nested and partitioned consistently",
 "A mesh of n pressure points per direction gets 2n-1 velocity points (2n-2, with n-1 pressure points, where periodic); each process owns, per direction, exactly the velocity nodes 2s..2e-1 of its pressure nodes s..e-1 (one fewer on the last process of a non-periodic direction), so all velocity nodes are owned exactly once. "
 "The cell boxes of the processes partition the cells of the mesh, and the reported local and total sizes are the sums over the component meshes of dof times the number of points.",
 "every number of points and processes, every ownership split, periodic or not per direction, every number of component meshes",
 "Tests run with 1, 2 or 4 processes on fixed meshes.",
 [S], [("createMesh, createDMDA, set_lxu, get_DM_bounds, get_DM_sizes", S)], over=("inputs", "configurations"))
O = "cafes/fem/operator.hpp"; F = "cafes/fem/matrixFree.hpp"
prop("C12", "Matrix-free operators add exactly the elementary contributions",
 "For each cell, the matrix-free kernels add to each node of the cell the product of the elementary matrix with the nodal input values, for every component, add nothing elsewhere and never change the input; the diagonal kernel adds exactly the diagonal entries. "
 "The pressure/velocity coupling adds B u to the pressure and -B^T p to the velocity, so the off-diagonal blocks are exactly opposite transposes; the operators loop over exactly the cells of the local box.",
 "every cell, every input field, every elementary matrix and number of components, 2D and 3D",
 "Tests solve 2D problems whose error tolerances hide missing or doubled contributions, and never run the diagonal or 3D kernels.",
 [O, F], [("kernel_diag_block, kernel_tensor_block, kernel_diag_diag_block, kernel_off_diag_block, *_mult", O)])
A = "cafes/fem/assembling.hpp"
prop("C13", "Assembled matrices hold the same entries as the matrix-free operators",
 "For every cell, assembly inserts, by addition, exactly the elementary matrix entries at the rows and columns of the cell's degrees of freedom: for the Laplacian, the strain tensor, the mass and the coupling blocks B and B^T (placed at their block offsets), over exactly the cells of the local box, and nothing else. "
 "Entries of block (2,2) come only from the mass matrix, and success is reported.",
 "every cell, spacing, ghosted box and ownership",
 "Tests compare one small assembled matrix only through solves.",
 [A], [("laplacian_assembling, strain_tensor_assembling, B_and_BT_assembling, mass_assembling, *_kernel", A)])
C = "cafes/fem/bc.hpp"
prop("C14", "Dirichlet conditions set exactly the boundary nodes they are given for",
 "Applying Dirichlet conditions to a vector sets, for every owned node on a non-periodic face and every component with a condition on that face, the value of the condition at the node's coordinates (index times spacing), zero, or the value of the given vector, according to the variant; faces are ordered left, right, bottom, top, (back, front). "
 "Every other entry of the vector - interior nodes, components without condition, periodic faces - is unchanged.",
 "every mesh size, ownership box, boundary type per direction, set of conditions and vector content, 2D and 3D",
 "Tests use closed cavities with conditions on all faces and few meshes.",
 [C], [("set_dirichlet_impl, kernel_vec_on_bc, kernel_const_on_bc, kernel_func_on_bc, SetDirichletOnVec/RHS, SetNullDirichletOnRHS", C)])
prop("C15", "Dirichlet rows of an assembled matrix are exactly those of the boundary nodes",
 "Imposing Dirichlet conditions on an assembled 2D matrix replaces by identity rows exactly the velocity rows of the nodes on the non-periodic faces of the domain, each addressed by its index in the local ghosted numbering, and touches no other row.",
 "every mesh, ownership box, number of processes and combination of periodic and non-periodic directions",
 "No test combines assembled matrices with a periodic direction.",
 [C], [("set_dirichlet_on_mat_impl, SetDirichletOnMat", C)], over=("inputs", "configurations"))
R = "cafes/fem/rhs.hpp"
prop("C16", "The right-hand side is the source evaluated at every owned node",
 "Setting a right-hand side evaluates, at each owned node and for each component with a source function, that function at the node's coordinates (index times spacing), and writes nothing for components without one. The right-hand side of the problem gets the product of the mass matrix with that source added to its velocity part (nothing to the pressure part), and only then its Dirichlet values.",
 "every ownership box, spacing, set of source functions",
 "Tests use one source on one mesh with a solver tolerance.",
 [R, "cafes/problem/stokes.hpp"], [("kernel_func_on_rhs, set_rhs_impl, set_rhs, has_condition", R), ("setup_RHS", "cafes/problem/stokes.hpp")])
K = "cafes/particle/particle.hpp"
prop("C17", "Particle rasterisation finds exactly its grid nodes and surface points",
 "The list of fluid nodes inside a particle is, without repetition, exactly the nodes of the given index box whose coordinates are strictly inside the shape. "
 "Surface points are attributed to the process whose box contains them, with the containing cell and the offset in that cell satisfying cell*h + offset = point and 0 <= offset < h, and the radial vectors are point minus centre. "
 "The numbers by which densities and fields are averaged are the totals over all processes of the surface points of a particle and of the sub-cell points inside it, for each particle on its own.",
 "every particle, index box with non-negative corner, and grid spacing",
 "Tests check a handful of particles through global results.",
 [K], [("find_fluid_points_insides, find_surf_points_insides, find_radial_surf_points_insides, set_materials, kernel_num_count", K)])
T = "cafes/particle/forces_torques.hpp"
prop("C18", "Forces and torques are the sums of the surface densities and their moments",
 "The force on a particle is its volume divided by its number of integration points, times the sum over the fluid nodes strictly inside the particle (in every process' box) of that particle's own control values, and the torque is the same weight times the sum of (node - centre) x control, summed over the processes. "
 "Each particle's result depends only on its own nodes and is stored at its own place; when singular forces are asked for, each is added to the force of the particle it acts on.",
 "every number of particles, every control, geometry, grid spacing, process box and contribution of the other processes, 2D and 3D",
 "Tests have one or two particles and do not check the values.",
 [T], [("forces_torques_with_control", T)])
W = "cafes/problem/particle_operator.hpp"
prop("C19", "Rigid-body motion is removed and imposed exactly",
 "The layer operator subtracts from the surface density of each particle exactly its mean and the rotation carried by its moment (moment over the second moments of the shape), so that, for centred points whose second moments are those of the shape, the result carries no net force or torque. "
 "Imposing the motion on the surface adds v + w x r for each point of each particle, and the mean velocity and mean moment of a projected field are the averages over all integration points of the particle, over all processes.",
 "every number of particles and points, every density, velocity, spin, geometry and contribution of other processes, 2D and 3D",
 "Tests use a single symmetric particle with zero velocity or tolerances.",
 [W], [("simple_layer, interp_rigid_motion_, projection_impl, projection", W)])
prop("C20", "Interpolation to the surface and spreading from it use the same cell weights",
 "Interpolation of a grid field at a surface point is the sum, over the nodes of its cell, of the Q1 shape-function value at the point times the nodal value (so affine fields are exact), less the rigid velocity v + w x r of the point's particle when rigid motion is asked for. "
 "Spreading a surface density gives each node the sum, over the points of every particle, of density times the same shape-function value times the surface area per point of that particle, then imposes null Dirichlet values; no other node is touched, so the two are adjoint up to the quadrature weights.",
 "every grid field, density, cell and offset inside the cell, number of particles and points, 2D and 3D",
 "Tests observe only the converged solution.",
 [W], [("interp_fluid_to_surf, SL_to_Rhs", W)])
N = "cafes/particle/singularity/"
prop("C21", "The frame of a singularity is orthonormal and aligned with the contact",
 "For two particles at distinct positions the local frame attached to their contact is orthonormal, its normal direction joins the two centres, and the coordinates map between the global and the local frame is an isometry inverse to its transpose; the relative velocity it stores is split into normal and tangential parts consistently with the frame. The box of cells of the contact contains every point between the two particles, in neither, within the cut-off distance of the axis.",
 "every pair of distinct centres, radii and velocities, 2D and 3D",
 "Tests use particles aligned with the axes.",
 [N+"singularity.hpp"], [("construct_base, get_pos_in_part_ref, get_pos_from_part_ref, get_box", N+"singularity.hpp")])
prop("C22", "The truncation function is a cut-off and its derivatives are derivatives",
 "The truncation is 1 in the core, 0 outside, between 0 and 1 in the transition, and depends on distance monotonically; the functions named as its first to fourth derivatives are its exact derivatives with respect to the squared distance on each piece (0 in the core and outside).",
 "every position on either side, every core size and transition width",
 "No test evaluates the cut-off.",
 [N+"truncation.hpp"], [("chiTrunc, dchiTrunc..d4chiTrunc, alphaTrunc, dalphaTrunc..d4alphaTrunc", N+"truncation.hpp")])
prop("C23", "Singular velocity fields are divergence-free and their gradients exact",
 "The analytic velocity fields used near contact satisfy div u = 0 away from the bodies and the gradient functions supplied with them are their exact partial derivatives, on the axis of the contact as well.",
 "every point of the gap region, every curvature, gap width and approach velocity",
 "No test evaluates these fields.",
 [N+"UandPNormal.hpp", N+"UandPTang.hpp"], [("ux_sing_normalMvt2D, dxux_sing_normalMvt2D, ...", N+"UandPNormal.hpp")])
L = "cafes/posttraitement/interpolation.hpp"
prop("C24", "Refinement interpolation is the Q1 interpolant at every fine node",
 "Interpolating a coarse field to a grid refined by possibly different integer factors per direction gives at each fine node of each local cell the bilinear interpolant of the coarse nodal values, for each component of the field, keeps coarse nodal values unchanged and writes nothing outside the components of the fine field.",
 "every coarse field, refinement factors, number of components and ownership box",
 "tests/test_interp.cpp uses equal factors and a smooth function with a tolerance.",
 [L], [("linear_interpolation", L)])
prop("C25", "Grid spacings used by the operators match the meshes",
 "Applying the mass matrix to a velocity-pressure vector uses the velocity spacing on the velocity mesh and twice that spacing on the pressure mesh, and a Stokes problem on a domain of lengths L with n pressure points uses spacing L/(n-1) for pressure and half of it for velocity. On each level of the multigrid preconditioner the same operator with the same boundary conditions acts on the mesh of the level, with the spacing for which the cells of that mesh fill the domain.",
 "every domain length and number of points",
 "Tests never check the scale of the mass matrix and use unit boxes.",
 [F, "cafes/problem/stokes.hpp"], [("apply_mass_matrix", F), ("stokes constructor, createLevelMatrices", "cafes/problem/stokes.hpp")])
prop("C26", "Forces of the analytic singular field on the particles of a contact",
 "The force the analytic singular field exerts on a particle of a contact is the quadrature sum, over every sampled point of the cap of that particle which the cut-off distance delimits (its own curvature, points and outward normals), of the Newtonian stress 2 mu D(u) - p Id at the point times normal times weight, taken in the local frame of the contact and returned in the global frame. "
 "Over a list of particles, each particle receives exactly minus the sum of these forces over its singular contacts, as first or as second particle of a pair, and nothing when there is no contact or no particle.",
 "every singularity (frame, curvatures, gap, cut-off), every field, every number of quadrature points and of particles, 2D and 3D",
 "No test calls the quadrature with several particles or compares its values.",
 [N+"add_singularity.hpp", N+"singularity.hpp"], [("compute_singular_forces, compute_singular_forces_on_part1, compute_singular_forces_on_part2", N+"add_singularity.hpp"), ("get_grad_u_sing_ref, get_p_sing_ref", N+"singularity.hpp")])
prop("C30", "Singular source terms are quadratures of the singular field over fluid cells",
 "The singular velocity, its gradient and pressure at a point are those of the local frame at the local coordinates of the point, rotated to the global frame. "
 "The source term of a contact adds to each node of the velocity right-hand side, over the sub-points of the cells of the box that lie in neither particle (and, in 2D, within the cut-off distance), the weight times the pressure times the derivative of the node's shape function minus the gradient contracted with it; the velocity added to the last solution is likewise the weighted sum of shape function times velocity. No other node changes. "
 "Over a list of particles every singular contact is taken once, over the cells of this process that its box meets, and what it puts at nodes shared with other processes is added, so the result does not depend on their number.",
 "every frame, field, set of points in the particles, box, number of sub-points and of particles, partition, 2D and 3D",
 "Tests compare one or two configurations to stored norms, if at all.",
 [N+"add_singularity.hpp", N+"singularity.hpp"], [("computesingularST, addsingularity, add_singularity_in_fluid, add_singularity_to_last_sol", N+"add_singularity.hpp"), ("get_u_sing, get_grad_u_sing, get_p_sing", N+"singularity.hpp")])
prop("C31", "Control operators compose the fluid subproblems exactly, linear when solved",
 "Applying the DtoN or SEM operator to a control gives exactly: the fluid solution for that control (with the source, boundary values, singular source and rigid motion that the current flags switch on, and nothing left over from an earlier application), its values on the surfaces (SEM: less their rigid part), the fluid solution of their simple layer, and its values in the particles (SEM: less their rigid part). "
 "The right-hand side of the control problem is minus this operator with all the data; the Krylov solver is given the operator without any data, hence a linear one; the final fluid solution is that of the returned control with all the data, from a cleared right-hand side, plus the singular field when it is in use. "
 "After a SEM solve the velocities of the particles are the surface means, and the forces those of the control.",
 "every control, previous content of the vectors, flags, fluid solver, surface, spreading and projection maps",
 "Tests run the whole problem and look at the converged result of a few configurations; stale data that changes only the last solve goes unseen.",
 ["cafes/problem/dton.hpp", "cafes/problem/sem.hpp", W], [("DtoN_matrix, DtoN::setup_RHS, solve, solve_last_problem", "cafes/problem/dton.hpp"), ("sem_matrix, SEM::setup_RHS, solve, get_new_velocities", "cafes/problem/sem.hpp"), ("init_problem, set_rhs_problem", W)], over=("inputs", "histories"))
prop("C27", "The iterative solves converge to the discrete solution",
 "The Stokes and particle problems' linear solves terminate with a residual below the requested tolerance, and the result does not depend on the number of processes beyond rounding.",
 "every problem, option set and number of processes",
 "Tests run a few fixed problems and process counts.",
 ["cafes/problem/stokes.hpp", "cafes/problem/dton.hpp", "cafes/problem/sem.hpp"], [("solve, KSP set-up", "cafes/problem/*.hpp")], over=("inputs", "configurations", "schedules"))
prop("C28", "Saved files describe the computed fields",
 "The HDF5/XDMF files written for a solution declare exactly the dimensions, origin and spacing of the meshes and contain the nodal values in the declared order.",
 "every mesh, dimension and number of processes",
 "Tests write files without reading them.",
 ["cafes/io/hdf5.hpp"], [("save_hdf5", "cafes/io/hdf5.hpp")], over=("inputs", "configurations"))
prop("C29", "Control values correspond to the fluid nodes of each particle in one fixed order",
 "Adding the control of the particles to a right-hand side writes, at each fluid node of a particle owned by the process, that particle's own control value (plus, when asked for, density times force), and leaves every other entry unchanged. "
 "Reading a field back into control-shaped vectors takes the field's value at those same nodes in the same order, less, in the rigid version, the particle's mean velocity and the rotation carried by its mean moment about the centre.",
 "every number of particles, every list of nodes, process box, control, field, density and force, 2D and 3D",
 "Tests observe only the converged control of one or two particles.",
 [W], [("set_rhs_problem_impl, compute_y", W)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
