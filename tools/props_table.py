COMMON = ("Generated-input search with a fixed seed: it shows nothing beyond the cases it generated. Trusts g++, the installed "
          "MFEM 4.5.2, the oracle in the harness and the engine in harness/pbt.hpp.")

prop("P01", "Logged data reads back exactly",
     "A field saved through the ASCII or the binary data logger and read back with the same name, step and rank is the field that was saved, bit for bit in binary and to full double precision in ASCII, whatever was saved before under the same or other names. Saving never alters the state being logged, and reading one field never returns another field's, step's or rank's data. A ParaView log holds, after any history of registering fields (also again under a used name, of any order) and saving, exactly the collection of the states logged at their cycles and times, refined to the highest order registered; saving under a name that is not registered writes nothing.",
     ["inputs", "histories"], "all vectors (including empty ones, NaN, infinities, denormals), names, steps, ranks and orders of save and load, with overwriting",
     "test_data_logging saves and loads one vector per logger once; names, special values, and histories in which files are overwritten are not sampled.",
     ["src/common/data_logging.hpp"], [("ASCIILogger / BinaryLogger saveState/loadState", "src/common/data_logging.hpp"), ("file-name construction", "src/common/data_logging.hpp"), ("ParaViewLogger", "src/common/data_logging.hpp")],
     "model-based property testing: random save/load histories in a scratch directory against an in-memory map; ParaView logs byte for byte against a collection fed with the logged states", COMMON)

prop("P02", "Line search returns only acceptable steps",
     "A backtracking line search returns either zero, saying that it failed, or a step between zero and its upper bound that satisfies the sufficient-decrease condition it was given. It returns the full step exactly when the full step satisfies that condition, each backtracking step shrinks the trial step by a factor between the configured bounds, and it never returns a step whose merit value is infinite or not a number. The merit function it is given equals the objective along the search direction, and its slope equals the directional derivative of the objective.",
     ["inputs", "configurations"], "all merit functions (polynomial, oscillating, singular, infinite or NaN beyond a point), slopes, bounds, shrink factors and iteration limits",
     "test_linesearch runs one scalar function and one small system; degenerate interpolants, non-finite trial values and give-up paths are not reached.",
     ["src/common/linesearch.cpp", "src/common/linesearch.hpp"], [("BacktrackingLineSearch::search, interp_quad, interp_cubic", "src/common/linesearch.cpp"), ("Phi", "src/common/linesearch.cpp")],
     "property testing of the search contract on generated merit functions, every evaluation recorded", COMMON)

prop("P03", "Nearest-neighbour search agrees with exhaustive search",
     "For every point set and query point the kd-tree returns a stored point at the minimum Euclidean distance, reports that distance, and returns the label stored with that point. Building or querying the tree does not depend on the order of the points and never reads outside them; an empty tree is rejected with an exception.",
     ["inputs", "histories"], "all point sets (ties, duplicates, collinear, clustered) in one to three dimensions and all query points",
     "No stable test builds a kd-tree; the repository's own unit test samples one random cloud.",
     ["src/utils/kdtree.hpp"], [("kdtree::make_tree and nearest", "src/utils/kdtree.hpp")],
     "property testing against exhaustive search, under AddressSanitizer", COMMON)

prop("P04", "Orthogonal polynomials, Lobatto rules and bases are exact",
     "Jacobi polynomials of every degree and weight are orthonormal with respect to their weight and match the closed form. The Legendre-Gauss-Lobatto rule with n+1 points integrates every polynomial of degree 2n-1 exactly, with symmetric nodes that contain the end points and positive weights. Polynomial (Proriol/Vandermonde) bases on segments, triangles and tetrahedra are orthonormal and complete, also at the collapsed vertices.",
     ["inputs"], "all degrees, weight exponents and evaluation points",
     "No stable test evaluates these polynomials; a handful of degrees with alpha=beta are all a unit test can sample.",
     ["src/common/orthopoly.cpp", "src/common/orthopoly.hpp"], [("jacobiPoly, getLobattoQuadrature, getVandermonde...", "src/common/orthopoly.cpp")],
     "property testing against a closed-form long-double reference and exact integration of generated polynomials", COMMON)

prop("P05", "Summation-by-parts operators are exact and mimic integration by parts",
     "On every segment, triangle and tetrahedron element of every available degree the nodal norm is positive and integrates exactly, the derivative operators differentiate polynomials up to the degree exactly and satisfy Q + Q^T = E with E the exact boundary integral operator, and applying an operator to a state is the same as multiplying by its matrix. Projections, interpolation from and to nodes and shape functions reproduce polynomials of the degree, and on a mesh continuous spaces share exactly the coincident nodes while discontinuous ones share none.",
     ["inputs", "configurations"], "all element types, degrees, polynomials, element maps, states and meshes",
     "The operator tables are data: a test samples a polynomial or two; none of the stable tests touches them.",
     ["src/common/sbp_fe.cpp", "src/common/sbp_fe.hpp", "src/common/data/sbp_operators.hpp"], [("operator tables", "src/common/data/sbp_operators.hpp"), ("multWeakOperator, multStrongOperator, multNormMatrix, multProjOperator, getQEntry", "src/common/sbp_fe.cpp"), ("SBPCollection/DSBPCollection dof orders", "src/common/sbp_fe.cpp")],
     "property testing of exactness, SBP identities and metamorphic relations on generated polynomials, elements and meshes", COMMON)

prop("P06", "Euler fluxes are consistent, symmetric and entropy conservative",
     "The conservative and entropy variables are inverse to each other and the Jacobians of the maps are their derivatives. The flux in a direction is homogeneous in the direction and the two-point fluxes are consistent with it, symmetric, and satisfy the entropy-conservation identity of Tadmor. Upwind and dissipative interface fluxes are consistent, conservative and entropy stable. Wall and far-field fluxes reduce to the pressure flux or the free-stream flux for matching states, all fluxes are invariant under rotation of the frame, and the analytic solutions (free stream, vortex, manufactured solution) satisfy the equations with their stated source.",
     ["inputs"], "all admissible states, directions and normals in one to three dimensions, subsonic to supersonic, far apart and nearly equal",
     "No stable test evaluates a flux; the repository's own unit tests sample one state per function.",
     ["src/physics/fluidflow/euler_fluxes.hpp", "src/utils/utils.cpp"], [("calcFlux, calcRoeFaceFlux, calcIsmailRoeFlux, calcEntropyVars, calcBoundaryFlux, calcFarFieldFlux, calcSlipWallFlux, calcInviscidMMS", "src/physics/fluidflow/euler_fluxes.hpp"), ("quadratic/log averages", "src/physics/fluidflow/euler_fluxes.hpp")],
     "property testing of algebraic identities (round trip, symmetry, consistency, Tadmor, rotation) against long-double references and numerical derivatives", COMMON)

prop("P07", "Viscous fluxes are symmetric, dissipative and vanish for uniform flow",
     "The viscous flux computed from entropy-variable gradients equals the Newtonian stress and Fourier heat flux of the same state, is linear in the gradients with symmetric positive semi-definite coefficient matrices, and vanishes for a uniform state and for rigid-body motion at constant temperature. Wall fluxes impose no mass flux and an adiabatic or stated temperature condition, viscosity follows Sutherland's law, and the viscous manufactured solutions satisfy the Navier-Stokes equations with their stated source.",
     ["inputs"], "all admissible states, gradients, normals, Reynolds and Prandtl numbers in one to three dimensions",
     "No stable test evaluates a viscous flux; the repository's own tests sample one state.",
     ["src/physics/fluidflow/navier_stokes_fluxes.hpp"], [("applyCijMatrix, applyViscousScaling, calcNoSlip*, calcAdiabaticWallFlux, calcSutherlandViscosity, viscousMMS", "src/physics/fluidflow/navier_stokes_fluxes.hpp")],
     "property testing against an independent long-double stress/heat-flux reference, and numerical differentiation of the manufactured solutions", COMMON)

prop("P08", "Newton solvers accept only decreasing steps and report convergence truthfully",
     "The relaxed and the inexact Newton solver move along the Newton direction only, with the full step whenever it decreases the residual norm sufficiently and otherwise with the backtracked step their line search accepts. The result is never worse than the starting point nor non-finite, the final norm they report is the residual norm at the returned point, and they report convergence exactly when that norm is below the larger of the absolute tolerance and the relative tolerance times the initial norm, within the iteration limit. The nonlinear-solver factory builds the solver that its options name, with those tolerances, limits and line-search options, and rejects unknown types.",
     ["inputs", "configurations"], "all residuals (linear to strongly nonlinear, undefined in part of space), starting points, right-hand sides, tolerances, limits and line-search options",
     "Only the line search has a stable test; no test runs a nonlinear solve that has to backtrack, fails, or meets an undefined residual.",
     ["src/common/relaxed_newton.cpp", "src/common/inexact_newton.cpp", "src/common/mfem_extensions.cpp"], [("RelaxedNewton::ComputeScalingFactor", "src/common/relaxed_newton.cpp"), ("InexactNewton::Mult", "src/common/inexact_newton.cpp"), ("constructNonlinearSolver", "src/common/mfem_extensions.cpp")],
     "property testing: generated nonlinear systems record every evaluation, from which the iterations are rebuilt and judged against the globalization rules", COMMON)

prop("P09", "Composite, matrix-free and block operators apply exactly their definition",
     "A sum of operators applies a*A + b*B for every pair of scalars, zero included, whatever the output vector held before and whatever was applied before. The Jacobian-free operator applies the scaled Jacobian of the residual at the last state it was given, plus its explicit part, up to forward-difference error, and its diagonal blocks are the scaled Jacobian blocks plus the explicit blocks. The block-Jacobi preconditioner hands every block solver its diagonal block, applies each block (or its transpose) to its own range and the identity to unset blocks, and rejects operators without blocks. The linear-solver factory returns exactly the solver that the options name, configured with those options, and rejects unknown names.",
     ["inputs", "histories", "configurations"], "all matrices, scalars, directions, block structures, option sets and sequences of calls on one operator",
     "No stable test builds any of these operators; stale work vectors and special-cased scalars show only in particular histories and scalars.",
     ["src/common/matrix_operators.cpp", "src/common/mfem_extensions.cpp"], [("SumOfOperators::Mult, JacobianFree::Mult/getDiagonalBlock", "src/common/matrix_operators.cpp"), ("BlockJacobiPreconditioner, constructLinearSolver", "src/common/mfem_extensions.cpp")],
     "property testing of operation sequences against dense long-double reference products, and differential testing of the factory against hand-configured solvers", COMMON)

prop("P10", "Time integration applies its scheme, balances entropy and ends on time",
     "A step of a first-order system M du/dt + R(u,t) = 0 with the named time stepper is one step of that scheme, with every stage evaluated at its own time, for every supported kind of mass operator and whichever nonlinear solver is used; the residual and Jacobian given to the nonlinear solver are M k + R(u + dt k, t) and its derivative at the solver's current iterate. The relaxation schemes move along the direction of their baseline scheme by a factor that satisfies the entropy balance, so entropy is conserved for conservative systems, and they scale the time step by the same factor. The time loop runs the initial, per-step and final hooks once each in order with the state at that time, clips the last step to end exactly at the final time, stops at the iteration limit, and logs the states that were asked for. Unknown schemes are rejected.",
     ["inputs", "histories", "configurations"], "all systems (linear, nonlinear, time-dependent), mass operators, schemes, step sizes, start and final times, iteration limits and logging options",
     "No stable test takes a time step; the repository's own tests run two scalar problems with one step size each.",
     ["src/common/ode.cpp", "src/common/ode.hpp", "src/common/mfem_extensions.cpp", "src/common/abstract_solver.cpp"], [("TimeDependentResidual, FirstOrderODE", "src/common/ode.cpp"), ("RRKImplicitMidpointSolver, ExplicitRRKSolver, PseudoTransientSolver, SteadyODESolver", "src/common/mfem_extensions.cpp"), ("AbstractSolver2::solveForState and hooks", "src/common/abstract_solver.cpp")],
     "differential property testing against long-double reference integrators, with an entropy-balance invariant and a model of the time loop", COMMON)

prop("P11", "Solvers solve what their options and inputs say and outputs match the state",
     "A solver wrapping any residual merges the user's options over the defaults, rejects options it cannot honour, and forwards every input (scalar, vector by alias or by copy) to the residual, so that the last value set is the one that is used. The wrapped residual gives the same values, Jacobians and Jacobian products as the residual itself, whatever it was copied or moved from. Solving leaves the state at a root to the configured tolerance; outputs are created once, reject unknown names, have the size of their values and are evaluated at the given inputs; initial conditions of every kind (value, function, vector, coefficient) set the state they describe, and fields passed as inputs share or copy storage as requested.",
     ["inputs", "histories", "configurations"], "all residuals and outputs (with any subset of the optional interfaces), option sets, input sets and orders of calls",
     "No stable test solves anything; type erasure, aliasing and option merging show their faults only in particular histories of calls.",
     ["src/common/abstract_solver.cpp", "src/common/abstract_solver.hpp", "src/common/miso_residual.hpp", "src/common/miso_output.hpp", "src/physics/miso_input.cpp", "src/physics/miso_input.hpp"], [("AbstractSolver2", "src/common/abstract_solver.cpp"), ("MISOResidual", "src/common/miso_residual.hpp"), ("MISOOutput", "src/common/miso_output.hpp"), ("setValueFromInputs, setVectorFromInputs", "src/physics/miso_input.cpp")],
     "model-based property testing: generated residuals record every call, and histories of inputs, evaluations and solves are compared with a reference model", COMMON)

prop("P12", "Root finders, interpolation and mesh utilities return what they promise",
     "Bisection returns a root or sign change within the bracket, evaluates only inside it, and throws when there is no bracket or the iteration limit is too small. The secant method takes secant steps and returns only a converged finite root, or throws. Quadratic interpolation returns the vertex of the parabola, element-wise vector operations and the radial basis function match their formulas, interpolation operators from cell centres reproduce all polynomials of their degree with the minimum-norm weights, boundary attribute lists select exactly the named attributes and reject the others, and the quarter-annulus mesh has the geometry, size and boundary attributes asked for.",
     ["inputs"], "all functions, brackets, tolerances and iteration limits, point sets, polynomial degrees, attribute lists and mesh parameters",
     "No stable test calls these utilities.",
     ["src/utils/utils.cpp", "src/utils/utils.hpp"], [("bisection, secant, quadInterp, attrVecToArray, getMFEMBoundaryArray, buildInterpolation, buildLSInterpolation, buildQuarterAnnulusMesh", "src/utils/utils.cpp"), ("useAny, make_function, MaybeOwningPointer, multiplyElementwise...", "src/utils/utils.hpp")],
     "property testing of contracts with every function evaluation recorded, and long-double reference solutions, under AddressSanitizer", COMMON)

prop("P13", "Fields, their duals, norms and errors describe the same functions",
     "A finite-element state or dual built from options, a collection or an existing space has exactly the collection, degree, number of states and mesh asked for, starts at zero, and keeps its values and identity when moved; unknown basis types are rejected. Distributing true degrees of freedom and extracting them again is the identity, and state and dual extraction are adjoint to each other. Projecting a function sets the field to that function wherever the space can represent it and to its nodal values otherwise. Norms and errors of a field, of one component or all, in any Lp norm, are the integral of the stated magnitude over the mesh. The PDE solver builds its fields, materials and mesh from its options whichever constructor is used, its mesh follows the mesh-coordinate field, setting a state sets the field and its boundary values, and inverted meshes are rejected before solving.",
     ["inputs", "configurations"], "all basis types, degrees, numbers of states, orderings, meshes (curved, non-conforming), functions, norms and option sets",
     "No stable test builds a field or a PDE solver.",
     ["src/physics/finite_element_vector.cpp", "src/physics/finite_element_state.cpp", "src/physics/finite_element_dual.hpp", "src/physics/pde_solver.cpp"], [("FiniteElementVector constructors", "src/physics/finite_element_vector.cpp"), ("calcLpError, calcL2Error, calcLpNorm, project", "src/physics/finite_element_state.cpp"), ("distributeSharedDofs, setTrueVec", "src/physics/finite_element_dual.hpp"), ("PDESolver", "src/physics/pde_solver.cpp")],
     "property testing: exactness on generated polynomials, round-trip and adjointness identities, independent quadrature of the same norms, under AddressSanitizer", COMMON)
prop("P14", "Euler element, interface and boundary terms assemble the stated residual",
     "For every state, mesh (straight or curved) and degree, in conservative or entropy variables: the Euler, Ismail-Roe, LPS-dissipation and nonlinear-mass element terms, the interface term and every boundary term (slip wall, far field, vortex, entropy-conserving, control) assemble the SBP sums of the corresponding pointwise fluxes, scaled by alpha. Volume and interface terms conserve mass, momentum and energy. Element and face energies equal the entropy variables dotted with the residual; Ismail-Roe terms and undissipated interfaces produce exactly the boundary entropy potential, LPS and interface dissipation never produce the wrong sign, a closed box is entropy conservative or stable, and a uniform flow has zero residual. Jacobians with respect to the state and to the face normal, and sensitivities with respect to the mesh nodes, are the derivatives of the residual for every alpha. Pressure force, boundary entropy, supply rate and total entropy equal their integrals and gradients.",
     ["inputs"], "all nodal states with positive density and pressure, meshes, element degrees, scalings, boundary data and directions",
     "No stable test evaluates an integrator.",
     ["src/physics/fluidflow/inviscid_integ_def.hpp", "src/physics/fluidflow/euler_integ_def.hpp", "src/physics/fluidflow/euler_sens_integ_def.hpp"],
     [("InviscidIntegrator, DyadicFluxIntegrator, LPSIntegrator, InviscidBoundaryIntegrator, InviscidFaceIntegrator, NonlinearMassIntegrator", "src/physics/fluidflow/inviscid_integ_def.hpp"), ("boundary conditions and functionals", "src/physics/fluidflow/euler_integ_def.hpp"), ("mesh sensitivities", "src/physics/fluidflow/euler_sens_integ_def.hpp")],
     "property testing: independent assembly from the SBP operators, conservation/entropy/free-stream identities over whole meshes, Richardson finite differences with kink detection for every Jacobian and sensitivity", COMMON)
prop("P15", "Viscous element terms, walls and boundaries assemble the stated residual",
     "For every state, mesh (straight or curved) and degree, with constant or Sutherland viscosity: the entropy-variable viscous term applies the physical stress, work and heat flux of the SBP gradient, tested by the SBP gradient, scaled by alpha; it conserves mass, momentum and energy, is zero for a uniform flow and dissipates entropy at exactly the physical rate. Viscous boundaries assemble at every face node their convective flux, dual-consistent penalty and viscous traction (heat-insulated at walls), scaled by alpha: no-slip wall, slip wall, inflow, outflow, far field, exact solution, and control. Face energy is the entropy variables dotted with the residual. Surface force is the momentum flux through the no-slip wall along its direction. Jacobians and gradients are the derivatives of these for every alpha. Manufactured sources are the flux divergence of the manufactured solution, integrated by the SBP norm, with zero Jacobian.",
     ["inputs"], "all nodal states with positive density and pressure, meshes, degrees, viscosities, Reynolds and Prandtl numbers, scalings, boundary data and directions",
     "No stable test evaluates an integrator.",
     ["src/physics/fluidflow/viscous_integ_def.hpp", "src/physics/fluidflow/navier_stokes_integ_def.hpp", "src/physics/fluidflow/navier_stokes_fluxes.hpp", "src/physics/fluidflow/euler_integ_mms.hpp"],
     [("SymmetricViscousIntegrator, ViscousBoundaryIntegrator", "src/physics/fluidflow/viscous_integ_def.hpp"), ("ESViscousIntegrator, boundary conditions, SurfaceForce", "src/physics/fluidflow/navier_stokes_integ_def.hpp"), ("manufactured sources", "src/physics/fluidflow/euler_integ_mms.hpp")],
     "property testing: independent assembly from the SBP operators and the physical stress tensor, conservation and dissipation identities, Richardson finite differences for every Jacobian and gradient", COMMON)

prop("P16", "Material laws and sources give their value, region and derivatives",
     "For every attribute map, material library, component list (single attribute, list, by name or with a model) and state: attribute-dependent coefficients evaluate exactly the coefficient of the element's attribute, else the default, else zero, for value and every state and mesh derivative; material properties come from the component's options, else from the library, else from the default. Weighted, product, continuation and element-wise function coefficients (also in time) apply their formulas; the wires of the built-in material library lie between their metal and insulation and have the exact sensitivities to the fill factor. Linear, log-nu and B-H spline reluctivity, temperature-dependent conductivity, remanent and demagnetization flux, demagnetization constraint and CAL2 core-loss coefficients equal their laws everywhere, also at zero field and beyond the data. Current sources (also 2D) equal group density times their unit direction, follow inputs, and cache, zero and reset group densities; magnets equal remanence times direction. Every first, second and mixed state derivative, and every mesh-node derivative of sources, is the derivative of the value.",
     ["inputs", "histories"], "all attribute maps, material options, temperatures, frequencies, flux densities, positions, elements (straight or curved) and input sequences",
     "No stable test evaluates a coefficient.",
     ["src/common/coefficient.hpp", "src/common/coefficient.cpp", "src/physics/electromagnetics/reluctivity_coefficient.cpp", "src/physics/electromagnetics/conductivity_coefficient.cpp", "src/physics/electromagnetics/demag_flux_coefficient.cpp", "src/physics/electromagnetics/remnant_flux_coefficient.cpp", "src/physics/electromagnetics/cal2_ke_coefficient.cpp", "src/physics/electromagnetics/cal2_kh_coefficient.cpp", "src/physics/electromagnetics/pm_demag_constraint_coeff.cpp", "src/physics/electromagnetics/current_source_functions.cpp", "src/physics/electromagnetics/magnetic_source_functions.cpp"],
     [("MeshDependent*Coefficient, constructMaterialCoefficient, weighted and continuation coefficients", "src/common/coefficient.cpp"), ("spline reluctivities", "src/physics/electromagnetics/reluctivity_coefficient.cpp"), ("current density groups", "src/physics/electromagnetics/current_source_functions.cpp")],
     "property testing: reference attribute map and material resolution, independent spline and law evaluation, Richardson finite differences for state and node derivatives, input histories", COMMON)
prop("P17", "Magnetostatic integrators and field energies match their weak forms",
     "For every mesh (triangles, quadrilaterals, tetrahedra, hexahedra, straight or curved), element order, field and material law, the integrators of the magnetostatic residual assemble their weak form: nonlinear diffusion (m(|grad u|) grad u, grad v), curl-curl (m(|curl A|) curl A, curl v), the interior-penalty terms on boundary and interior faces, and the 2D magnetization source, each times its scaling; the magnetic energy is the integral of the B-H energy density, whose derivatives are H and dH/dB, and its gradient is the residual; flux norms are what they say. With their own quadrature they are exact for constant laws on affine elements. Element and face Jacobians, forward and reverse state products, temperature sensitivity and every mesh sensitivity are the exact derivatives of what is assembled, and remain finite and right where the flux is zero.",
     ["inputs"], "all meshes with first- or second-order geometry, spaces H1, L2 and ND, fields (including zero on part of the domain), smooth material laws, penalties, boundary values and scalings",
     "No stable test assembles these integrators; the unit tests of the repository use a few fixed meshes and fields and need libraries that are absent here.",
     ["src/physics/electromagnetics/electromag_integ.hpp", "src/physics/electromagnetics/electromag_integ.cpp"],
     [("NonlinearDiffusionIntegrator, NonlinearDGDiffusionIntegrator, DGInteriorFaceDiffusionIntegrator", "src/physics/electromagnetics/electromag_integ.cpp"), ("CurlCurlNLFIntegrator, MagnetizationSource2DIntegrator", "src/physics/electromagnetics/electromag_integ.cpp"), ("MagneticEnergyIntegrator, calcMagneticEnergy, flux norm integrators", "src/physics/electromagnetics/electromag_integ.cpp")],
     "property testing: random meshes, spaces, fields and laws against independent quadrature, Richardson finite differences of the assembled forms in state, temperature and node coordinates, and energy/residual agreement", COMMON)
prop("P18", "Electromagnetic losses, heat sources and virtual-work forces are exact",
     "For every mesh, temperature and peak-flux field and material law: the copper-loss functionals integrate 1/sigma(T) and sigma(T) B^2; the direct- and alternating-current heat sources, the Steinmetz and CAL2 core losses and heat sources and the demagnetization functional integrate their documented formula against the test functions, with the latest value of every named input (inputs not given keep their value; a named Steinmetz component listens only to its own peak flux). With their own quadrature they are exact for constant data on affine elements. Virtual-work force and torque are minus the rate of change of the magnetic energy, outside the excluded regions, as the nodes move along the virtual displacement, so rigid motions of the whole domain give none. All sensitivities (state, peak flux, temperature, node coordinates, and every scalar: frequency, strand radius, wire length, strands in hand, rms current, stack length, turns, slots, winding volume, peak flux) are the exact derivatives, finite also where the flux is zero.",
     ["inputs"], "meshes with first- or second-order geometry, temperature in H1, flux in L2 or H1 (zero included), smooth laws, positive scalar inputs set over several calls, excluded regions and virtual displacements",
     "No stable test assembles these integrators; the unit tests of the repository compare a few derivatives on one mesh and need libraries that are absent here.",
     ["src/physics/electromagnetics/electromag_integ.hpp", "src/physics/electromagnetics/electromag_integ.cpp"],
     [("DCLoss*/ACLoss* functional and distribution integrators and their sensitivities", "src/physics/electromagnetics/electromag_integ.cpp"), ("SteinmetzLoss*, CAL2CoreLoss*, PMDemagIntegrator", "src/physics/electromagnetics/electromag_integ.cpp"), ("ForceIntegrator3, ForceIntegratorMeshSens3", "src/physics/electromagnetics/electromag_integ.cpp")],
     "property testing: random meshes, fields, laws and histories of input settings against independent quadrature of the documented formulas, Richardson finite differences in every input, and the energy of displaced meshes for forces", COMMON)
prop("P19", "Integrals, averages, smooth maxima, boundary flux are exact",
     "For every mesh, field and coefficient: volume and mass integrate one or the density read at evaluation time (an empty density slot means one) and do not depend on the state; the state integral and the curl-magnitude integral are the integrals of u and |curl u|; the induced-exponential numerators and denominators (of a field, of |curl u|, of the distance of a magnet to its demagnetization knee) integrate g exp(rho(g - max)) and exp(rho(g - max)) with the latest rho and max, so their ratio lies within the range of the field, equals a constant field and grows with rho towards the maximum; the boundary flux is minus the integral of kappa du/dn over the marked faces and balances for a uniform flux. Source, curl-source and vector forms and their factors assemble what they say. State gradients and every mesh sensitivity (of these and of the diffusion, weak-divergence, vector-mass, source, vector-source and curl-source forms, and of an adjoint-weighted source, mass, diffusion or boundary-flux residual with the rule given or the own one) are exact derivatives of the quantity actually assembled, finite where the curl is zero.",
     ["inputs"], "meshes with first- or second-order geometry, spaces H1, L2 and ND, fields (without curl included), coefficients varying in space, rules, rho, factors, option and input histories",
     "No stable test assembles these integrators; the unit tests of the repository compare a few derivatives on one mesh and need libraries that are absent here.",
     ["src/physics/mfem_common_integ.hpp", "src/physics/mfem_common_integ.cpp"],
     [("VolumeIntegrator, StateIntegrator, MagnitudeCurlStateIntegrator and their sensitivities", "src/physics/mfem_common_integ.cpp"), ("IEAggregate*, IECurlMagnitudeAggregate*, IEAggregateDemag* numerators and denominators", "src/physics/mfem_common_integ.cpp"), ("BoundaryNormalIntegrator", "src/physics/mfem_common_integ.cpp"), ("DiffusionIntegratorMeshSens, VectorFE*MeshSens, DomainLFIntegrator and its sensitivity; DomainRes-, MassRes-, DiffusionRes-, BoundaryNormalResIntegrator", "src/physics/mfem_common_integ.cpp")],
     "property testing: random meshes, fields, coefficients and option histories against independent quadrature, range and monotonicity of the smooth maxima, balance of uniform fluxes, and Richardson finite differences in state and node coordinates", COMMON)

prop("P20", "Volume, mass, average and maximum outputs and their derivatives are right",
     "As outputs, for every history of inputs and options (fields or nodes moved, attributes or rho changed, unrelated options): the volume and mass equal the integral of one and of the density of each component (material library, options or a fill-factor-weighted mixture) over the elements with the selected attributes; the average of the state, or of another named field, equals its integral divided by the volume and the curl average the integral of |curl u| divided by the volume; the smooth maximum, of the state or of another named field, and that of |curl u| are exactly the exponential averages with the field's maximum as shift, so they lie in the range of the field, follow a shift of the field and equal a constant one. A functional put together from terms on regions and boundaries is their sum over the attributes selected last, and its partial derivative at new inputs is the reverse derivative there. The value does not depend on who set the inputs before or on inputs the caller has since changed or destroyed. Forward and reverse derivatives with respect to the state, the other field, the mesh nodes and the fill factor are the derivative of exactly this value, agree with each other and accumulate into what the caller passes.",
     ["inputs", "histories"], "meshes with first- or second-order geometry, H1, L2 and ND fields, attribute selections, material options, rho, and sequences of setting inputs, options, evaluating and differentiating",
     "No stable test evaluates an output; the faults show only when fields, options or the caller's inputs change between calls.",
     ["src/physics/common_outputs.hpp", "src/physics/common_outputs.cpp", "src/common/functional_output.hpp", "src/common/functional_output.cpp"],
     [("VolumeFunctional, MassFunctional, StateAverageFunctional, AverageMagnitudeCurlState", "src/physics/common_outputs.cpp"), ("IEAggregateFunctional, IECurlMagnitudeAggregateFunctional", "src/physics/common_outputs.cpp"), ("FunctionalOutput", "src/common/functional_output.cpp"), ("jacobianVectorProduct, vectorJacobianProduct", "src/common/miso_output.hpp")],
     "stateful property testing: histories of inputs, options and evaluations against independent quadrature, Richardson finite differences and forward/reverse agreement for every derivative, under AddressSanitizer", COMMON)
prop("P21", "Electromagnetic outputs and their derivatives are right over histories",
     "As outputs, for every history of inputs and options: the magnetic energy is the integral of the B-H energy density; force and torque are minus the rate of change of that energy when the marked parts translate along the axis or turn about the axis through the given point; direct- and alternating-current loss, core loss (Steinmetz or CAL2) and demagnetization equal the integrals of their documented densities with the latest wire length, current, strand radius, strands in hand, frequency, stack length, turns, slots, temperature and peak flux, over the elements with the latest selected attributes; heat-source outputs are the matching loads, and the total source is the sum of its parts. Evaluating never alters a field, and the value does not depend on inputs the caller has since changed or destroyed. Forward and reverse derivatives with respect to every such scalar, to the state, temperature, peak flux and mesh nodes (where offered) are the derivative of exactly this value, agree with each other and accumulate into what the caller passes.",
     ["inputs", "histories"], "meshes with first- or second-order geometry, H1, L2 and ND fields, materials and components, attribute selections, positive scalars, axes, and sequences of setting inputs, options, evaluating and differentiating",
     "No stable test evaluates an output; the faults show only when fields, options or the caller's inputs change between calls.",
     ["src/physics/electromagnetics/electromag_outputs.hpp", "src/physics/electromagnetics/electromag_outputs.cpp", "src/common/functional_output.cpp", "src/common/miso_linearform.cpp"],
     [("ForceFunctional, TorqueFunctional", "src/physics/electromagnetics/electromag_outputs.cpp"), ("DCLossFunctional, ACLossFunctional, CoreLossFunctional, PMDemagOutput", "src/physics/electromagnetics/electromag_outputs.cpp"), ("DCLossDistribution, ACLossDistribution, CoreLossDistribution, EMHeatSourceOutput", "src/physics/electromagnetics/electromag_outputs.cpp")],
     "stateful property testing: histories of inputs, options and evaluations against independent quadrature, energy of displaced meshes for forces, Richardson finite differences and forward/reverse agreement for every derivative, under AddressSanitizer", COMMON)
prop("P22", "Thermal integrators match their weak forms, with exact derivatives",
     "For every mesh, order, temperature field and quadrature rule: the projection term assembles (u - target, v); convection walls h (u - fluid temperature), outflux walls their flux, the test wall its flux, each over the marked boundary; contact resistance h (u1 - u2) between the two sides of marked interior faces; internal convection h (u - fluid temperature) from both sides. Each is multiplied by its scaling, exact for constant data on affine elements with its own rule, and integrated with exactly the rule given otherwise. Inputs given keep their value until given again; an integrator named after a component listens only to the inputs of that name, an unnamed one only to the plain ones. State Jacobians, sensitivities with respect to h and fluid temperature, and mesh sensitivities (2D and 3D, straight and curved) are exact derivatives of what is assembled.",
     ["inputs"], "meshes with first- or second-order geometry in 2D and 3D, H1 and L2 spaces, temperature fields, rules, scalings and sequences of setting inputs",
     "No stable test assembles these integrators; the unit tests of the repository compare a few derivatives on one 2D mesh and need libraries that are absent here.",
     ["src/physics/thermal/thermal_integ.hpp", "src/physics/thermal/thermal_integ.cpp"],
     [("L2ProjectionIntegrator", "src/physics/thermal/thermal_integ.cpp"), ("ConvectionBCIntegrator, OutfluxBCIntegrator", "src/physics/thermal/thermal_integ.cpp"), ("ThermalContactResistanceIntegrator, InternalConvectionInterfaceIntegrator and their sensitivities", "src/physics/thermal/thermal_integ.cpp")],
     "property testing: random meshes, fields, rules and input histories against independent quadrature, and Richardson finite differences in state, scalar inputs and node coordinates", COMMON)
prop("P23", "Thermal and magnetostatic residuals assemble the stated problem over histories",
     "For every history of setting inputs, evaluating at trial states, linearizing and asking for derivatives, the thermal residual (H1 or DG, diffusion, convection, outflux, weak and strong temperature conditions, contact resistance and internal convection on interfaces, thermal load), the magnetostatic residual (2D and 3D, currents, magnets, strong conditions) and a nonlinear form of any such terms equal the sum of the selected terms at the latest inputs, each over exactly its components or boundaries; rows of strong conditions are u minus the prescribed value and nothing else. Getting the Jacobian, linearizing, or differentiating never changes the value, and inputs handed in are left as they were. The Jacobian is the derivative of that residual (identity rows at strong conditions), its transpose is its transpose, forward and reverse products with respect to state, mesh nodes, scalars, load, current density and temperature are exact and accumulate, and the adjoint system set up and finalized by a residual solves J^T psi = dJdu, rows of strong conditions included.",
     ["inputs", "histories"], "2D and 3D meshes with components and interfaces, option sets, laws and materials, states, inputs, and sequences of setInputs, evaluate, linearize, Jacobians, products and adjoint set-ups",
     "No stable test assembles a residual; the faults show only with particular boundary selections, orders of calls or inputs handed over at the wrong moment.",
     ["src/physics/thermal/thermal_residual.cpp", "src/physics/electromagnetics/magnetostatic_residual.cpp", "src/physics/electromagnetics/magnetostatic_residual.hpp", "src/physics/electromagnetics/magnetostatic_load.hpp", "src/physics/electromagnetics/magnetic_load.cpp", "src/physics/miso_nonlinearform.hpp", "src/physics/miso_nonlinearform.cpp", "src/common/matrix_operators.cpp"],
     [("ThermalResidual", "src/physics/thermal/thermal_residual.cpp"), ("MagnetostaticResidual", "src/physics/electromagnetics/magnetostatic_residual.cpp"), ("MISONonlinearForm", "src/physics/miso_nonlinearform.cpp"), ("MagneticLoad, MagnetostaticLoad", "src/physics/electromagnetics/magnetic_load.hpp")],
     "stateful property testing: histories of inputs, evaluations and derivatives against a reference assembled term by term from the integrators P14-P22 decide, Richardson finite differences, J against J^T, and dense adjoint solves, under AddressSanitizer", COMMON)
prop("P24", "The mesh warper moves the volume with the surface, with exact derivatives",
     "The warper reports the mesh's node coordinates, the indices of all boundary nodes among them (each once) and their coordinates, whatever was done before. Solving for volume coordinates whose surface entries are those of a displaced surface leaves these entries as they are and moves the inner nodes to the static equilibrium of the linear elastic body relative to the initial mesh, whatever surfaces were solved for before and wherever the inner nodes start; an affine motion of the surface moves the volume by the same motion. The residual is the elastic force inside and volume minus surface coordinates on the surface (zero if no surface is given). Forward and reverse products with respect to volume and surface coordinates are exact and accumulate, and the adjoint, multiplied with the residual's surface derivative, gives minus the derivative of any linear functional of the volume coordinates with respect to the surface. Arrays handed in are left as they were. The element term is the elastic force of the difference to the mesh's nodes for any Lame parameters, none for rigid motions, with its exact Jacobian.",
     ["inputs", "histories"], "2D and 3D meshes (simplices, quadrilaterals, hexahedra, first and second order), surface displacements, linear solvers, and sequences of solves, residuals, linearizations, products and adjoints",
     "No stable test builds a warper; the repository's own unit test translates one mesh, and its test of the total derivative is commented out.",
     ["src/utils/mesh_warper/mesh_warper.cpp", "src/utils/mesh_warper/mesh_warper.hpp", "src/utils/mesh_warper/mesh_move_integ.cpp", "src/utils/mesh_warper/mesh_move_integ.hpp", "src/common/abstract_solver.cpp"],
     [("MeshWarper, MeshWarperResidual", "src/utils/mesh_warper/mesh_warper.cpp"), ("ElasticityPositionIntegrator", "src/utils/mesh_warper/mesh_move_integ.cpp"), ("AbstractSolver2::solveForState, solveForAdjoint", "src/common/abstract_solver.cpp")],
     "stateful property testing: histories of solves, residuals, products and adjoints against a densely assembled and solved elastic body, affine motions as a metamorphic relation, under AddressSanitizer", COMMON)
prop("P25", "The flow residual is the sum of its configured terms, conserves, and marches",
     "For any flow options (1D to 3D, continuous or discontinuous SBP, conservative or entropy variables, Euler or Ismail-Roe flux, stabilization, viscous terms, boundary conditions with their attributes), a flow residual evaluates to the sum of exactly the configured element, interface and boundary terms with their parameters, using the latest inputs (control, actuator position, time) whatever was computed in between; its Jacobian is its exact derivative. Entropy, entropy change, mass matrix, CFL time step, L2 errors of conservative variables, drag, lift, boundary entropy and supply rate are those of the given state. The free stream is preserved, periodic domains conserve every component, and the entropy change equals w.residual: zero for the entropy-conservative scheme, never a growth with dissipation. A whole simulation with the flow solver equals the explicit Runge-Kutta scheme carried out on the reference residual with fixed or constant-CFL steps, conserves, keeps the entropy with relaxation methods, logs the entropy of each step, and pseudo-transient continuation ends converged or after its last step.",
     ["inputs", "histories"], "meshes, flow options, boundary conditions, states, sequences of inputs and requests; whole simulations with six time discretizations",
     "No stable test builds a flow residual; the repository's own tests of it use one mesh and a handful of options each.",
     ["src/physics/fluidflow/flow_residual.cpp", "src/physics/fluidflow/flow_residual.hpp", "src/physics/fluidflow/flow_solver.cpp", "src/physics/fluidflow/flow_solver.hpp", "src/common/ode.cpp", "src/common/abstract_solver.cpp"],
     [("FlowResidual", "src/physics/fluidflow/flow_residual.cpp"), ("FlowSolver::calcStepSize and hooks", "src/physics/fluidflow/flow_solver.cpp"), ("addJacobians", "src/common/ode.cpp")],
     "stateful property testing: histories against a residual assembled from separately built terms, finite differences, conservation and entropy invariants, and simulations replayed by an independent integrator, under AddressSanitizer", COMMON)
prop("P26", "The flow controller is the documented PID; controlled flows couple it exactly",
     "The controller's state equations, evaluated with whatever parameters (gains, times, target, loop open or closed, P-matrix) were given last in whatever order, are those of the PID controller Kp beta (1+Ti s)(1+Td s)/((1+beta Ti s)(1+eta Td s)) from the entropy error to the velocity; the open loop ignores the error; Jacobian, mass matrix, entropy x.P.x/2 and entropy change are exact; an asymmetric P-matrix is refused. The controlled flow's residual is the controller's residual at the flow's boundary entropy on top of the flow residual driven by the controller's velocity, with entropy, entropy change, supply rate and mass matrix the sums of the parts; states handed in are not changed. A whole simulation with the control solver equals the explicit scheme carried out on the reference residual, with fixed or constant-CFL steps, or satisfies the implicit midpoint rule; outputs are logged at each step; the state can be set from functions of both parts.",
     ["inputs", "histories"], "controller parameters and histories of inputs, controlled flows over meshes, boundaries and options, whole simulations",
     "No stable test builds these; the repository's own unit test checks one mesh and one parameter set.",
     ["src/physics/fluidflow/flow_control_residual.cpp", "src/physics/fluidflow/flow_control_residual.hpp", "src/physics/fluidflow/flow_control_solver.cpp", "src/physics/fluidflow/flow_control_solver.hpp"],
     [("ControlResidual, FlowControlResidual", "src/physics/fluidflow/flow_control_residual.cpp"), ("FlowControlSolver", "src/physics/fluidflow/flow_control_solver.cpp")],
     "stateful property testing: histories of parameters and requests against a model and the controller's transfer function, coupled residuals and simulations against an independent assembly and integrator, under AddressSanitizer", COMMON)
prop("P27", "Fields split into gradients and divergence-free parts; currents load the latter",
     "For any edge-element field on any mesh (2D or 3D, straight or curved, first or second order), the irrotational projection is the gradient of the potential, zero on the boundary, that is closest to the field in the integrals under the given quadrature order; it has no curl, projecting twice changes nothing, and the divergence-free projection is the remainder, orthogonal to all such gradients. The argument is not changed. After the mesh moves and the projector is told so, this holds on the new mesh. The transpose is exact, the sensitivity to the mesh nodes is that of exactly this projection, and both accumulate. The current load takes from the residual the dual of the divergence-free part of the current density configured for each group and attribute, at the latest current of each group and the latest mesh, zero at essential degrees of freedom; it adds to what is there and so does the magnets' load; its forward and reverse derivatives with respect to each group's current density are exact whatever was asked before (asking for one leaves the load as it is), as is the one with respect to the mesh nodes.",
     ["inputs", "histories"], "meshes, edge-element fields, quadrature orders, current groups, attributes and directions, essential boundaries, and sequences of mesh motions, inputs, loads and derivatives",
     "No stable test builds a projector or a load; the repository's own unit tests use one straight mesh, on which quadrature does not matter, and never ask twice.",
     ["src/utils/irrotational_projector.cpp", "src/utils/irrotational_projector.hpp", "src/utils/div_free_projector.cpp", "src/utils/div_free_projector.hpp", "src/physics/electromagnetics/current_load.cpp", "src/physics/electromagnetics/current_load.hpp", "src/physics/electromagnetics/magnetostatic_load.hpp"],
     [("IrrotationalProjector", "src/utils/irrotational_projector.cpp"), ("DivergenceFreeProjector", "src/utils/div_free_projector.cpp"), ("CurrentLoad", "src/physics/electromagnetics/current_load.cpp"), ("MagnetostaticLoad", "src/physics/electromagnetics/magnetostatic_load.hpp")],
     "stateful property testing: histories of mesh motions, inputs and requests against a dense projection and load, invariants (curl, orthogonality, idempotence), Richardson finite differences in the node coordinates, under AddressSanitizer", COMMON)
prop("P28", "L2 transfer operators carry fields and curls to discontinuous spaces",
     "For any state field (scalar, or edge-element field) on any mesh in 2D or 3D, straight or curved, of any order, and any discontinuous output field: applying the scalar identity, field identity, curl or curl-magnitude operator gives, at every node of every output element, the value of the state, of the vector field, of its curl (in 2D the rotated gradient with the sign of curl(A e_z)), or the length of the curl, at the latest state and mesh, whatever was set and asked before; the output field holds what was returned, and the operator behaves the same through the generic output interface. State and mesh handed in are left as they were. Reverse derivatives with respect to the output field, the state and the mesh coordinates are exact and accumulate.",
     ["inputs", "histories"], "meshes, state and output spaces of different orders, states, node motions, and sequences of inputs, evaluations and derivatives",
     "No stable test builds a transfer operator; the repository's own unit test covers 3D edge elements on one straight mesh only.",
     ["src/utils/l2_transfer_operator.cpp", "src/utils/l2_transfer_operator.hpp"],
     [("L2TransferOperator", "src/utils/l2_transfer_operator.cpp"), ("ScalarL2IdentityProjection, L2IdentityProjection, L2CurlProjection, L2CurlMagnitudeProjection", "src/utils/l2_transfer_operator.hpp")],
     "stateful property testing: histories of inputs, evaluations and derivatives against point values of the state computed by the finite element library, Richardson finite differences in the state and node coordinates, under AddressSanitizer", COMMON)
prop("P29", "Thermal and magnetostatic solvers solve, report and differentiate their problem",
     "For any configuration (2D or 3D meshes, H1 or DG, components and library or given materials, linear or saturating reluctivity, currents, magnets, strong or weak boundary conditions, convection, outflux, contact resistance, loads) and any history of inputs, solving for the state from any start gives a state whose residual vanishes, that meets the strong conditions, and that equals the one of a fresh solver given the same inputs; inputs not given again keep their value. Every output, created under any name with any options, has the value it has in a fresh solver and when built directly from the same fields and options; unknown outputs are refused. Energy, force, torque, losses, fluxes, averages and maxima are of the state given. Residual and residual norm are those of the state given. Total derivatives of any output with respect to any input (scalars, mesh coordinates, temperature, loads, current densities), from explicit reverse derivatives or partials and the adjoint, are the derivative of the value at the re-solved state, and adjoints leave right-hand side and state as they were. A solution linear in space is reproduced exactly.",
     ["inputs", "histories"], "meshes, components, materials, boundary conditions, discretizations, outputs with options and names, and histories of inputs, solves, outputs and total derivatives",
     "No stable test builds a solver; the repository's regression tests solve a few problems, each once, and need libraries that are absent here.",
     ["src/physics/thermal/thermal.cpp", "src/physics/thermal/thermal.hpp", "src/physics/electromagnetics/magnetostatic.cpp", "src/physics/electromagnetics/magnetostatic.hpp", "src/physics/pde_solver.cpp", "src/common/abstract_solver.cpp", "src/common/abstract_solver.hpp"],
     [("ThermalSolver", "src/physics/thermal/thermal.cpp"), ("MagnetostaticSolver", "src/physics/electromagnetics/magnetostatic.cpp"), ("PDESolver", "src/physics/pde_solver.cpp"), ("AbstractSolver2::solveForState, solveForAdjoint, calcOutput, outputVectorJacobianProduct", "src/common/abstract_solver.cpp")],
     "stateful property testing: histories of inputs, solves, outputs and total derivatives against a fresh solver, directly built outputs, Richardson finite differences of re-solved states, and exact linear solutions, under AddressSanitizer", COMMON)
prop("P30", "OpenMDAO components evaluate, converge and differentiate the wrapped solver",
     "For any solver or mesh warper behind the Python interface and any history of calls, the OpenMDAO components declare exactly the inputs and outputs they depend on, with sizes and tags; residuals, solved states, volume coordinates and output values are the solver's at the inputs given now (contiguous in memory or not), whatever was asked before. After linearizing, forward and reverse products with respect to the state and every input accumulate the exact derivative for any subset of variables, and solve_linear in reverse mode gives the adjoint for any right-hand side, zero included, whatever the vector held; forward solves are refused. Products a solver does not implement raise NotImplementedError, or, when only partials are checked, are left out without keeping any other product from being evaluated. Nothing given is changed. The MPhys builder keeps copies of what it is given and connects mesh, warper, state and outputs by their promoted names with their options, so that values and reverse total derivatives of the whole model are right; the package imports whichever optional dependency is missing.",
     ["inputs", "histories"], "solvers with random fields, scalars, outputs and unimplemented products; dependencies, options, and sequences of requests, products and adjoints; whole models from the builder",
     "No stable test runs the Python layer; the repository's own Python tests check a few partial derivatives and need OpenMDAO and the compiled module.",
     ["miso/miso_state.py", "miso/miso_output.py", "miso/mesh_warper.py", "miso/mphys/miso_builder.py", "miso/__init__.py", "miso/omMISO.py"],
     [("MISOState, MISOMesh", "miso/miso_state.py"), ("MISOFunctional", "miso/miso_output.py"), ("MISOMeshWarper", "miso/mesh_warper.py"), ("MISOBuilder and its groups", "miso/mphys/miso_builder.py")],
     "stateful property testing: histories of component calls on a stand-in for OpenMDAO against dense mathematics of a model solver, and totals of builder models against the chain rule", COMMON)
prop("P31", "Distributing the mesh over several MPI ranks changes no result",
     "On two or more ranks, with any distribution of the elements (ranks that own no degree of freedom, a single one, none on a strong boundary, or no element of some attribute included), every computation ends on all ranks and shows what it shows on one rank alone: fields projected, distributed, measured and compared with functions; divergence-free and irrotational projections; flow residuals with their Jacobian, mass matrix, entropy, entropy change, time step, error, drag, lift, boundary entropy and supply rate; the controlled flow, whose two controller unknowns live on the first rank; whole simulations with explicit, implicit and relaxed steps; slopes, gradients and entropies of evolving systems; volumes that follow a moved surface, with their derivatives; thermal and magnetostatic problems: residual and its norm, solved state, error, every output with its explicit derivatives, adjoints and adjoint products with respect to scalars, fields and mesh coordinates. Values agree to rounding or solver tolerance; derivatives documented as partial on each rank add up to those of one rank.",
     ["inputs", "schedules"], "numbers of ranks and distributions of elements, meshes, options, boundary conditions, components, outputs, states and derivatives; message timing varies freely between runs",
     "No stable test runs on more than one rank, and faults need a rank with an unusual share of the mesh.",
     ["src/common/abstract_solver.cpp", "src/physics/pde_solver.cpp", "src/physics/finite_element_state.cpp", "src/physics/miso_nonlinearform.cpp", "src/common/functional_output.cpp", "src/physics/common_outputs.cpp", "src/physics/electromagnetics/electromag_outputs.cpp", "src/utils/l2_transfer_operator.hpp", "src/utils/irrotational_projector.cpp", "src/utils/div_free_projector.cpp", "src/physics/fluidflow/flow_residual.cpp", "src/physics/fluidflow/flow_control_residual.cpp", "src/physics/fluidflow/flow_control_solver.cpp", "src/common/ode.cpp", "src/common/evolver.cpp", "src/utils/mesh_warper/mesh_warper.cpp"],
     [("AbstractSolver2::calcOutput and products", "src/common/abstract_solver.cpp"), ("setUpAdjointSystem, finalizeAdjointSystem", "src/physics/miso_nonlinearform.cpp"), ("setOptions(ForceFunctional), setOptions(TorqueFunctional)", "src/physics/electromagnetics/electromag_outputs.cpp"), ("FlowControlResidual", "src/physics/fluidflow/flow_control_residual.cpp")],
     "property testing: the same generated problem computed by two to four MPI processes together and by each of them alone (differential), every hang or crash of a rank being a failure; cases are replayed and shrunk across the processes", COMMON)
prop("P32", "The distance to a surface is the distance to its nearest point",
     "For every curve in the plane made of straight or quadratic elements (open or closed, any numbering and orientation of the elements, elements of any and very different sizes, anywhere in the plane), given as a mesh or as the marked part of the boundary of a two-dimensional mesh, and for every point (beside, on, or far from the curve, nearest to the inside of an element or to a vertex), the distance computed is that to the nearest point of the whole marked curve and of nothing else; asked of a single element it is the distance to that element. The search ends without failing, does not depend on what was asked before, and does not change the mesh. Where an element bends around the point, so that it has several local nearest points, only the class's documented warning holds.",
     ["inputs"], "curves, volume meshes, boundary markers, node positions and query points",
     "The repository's own unit test (not among the stable ones) asks a few points of one element and of a circle; faults need a point nearer to an element than to any of its nodes, a partly marked curved boundary, or unusual scales.",
     ["src/common/surface.hpp", "src/common/surface_def.hpp", "src/utils/kdtree.hpp"],
     [("Surface::calcDistance, Surface::solveDistance", "src/common/surface_def.hpp"), ("Surface(vol_mesh, bdr_attr_marker), buildKDTree", "src/common/surface_def.hpp")],
     "property testing: generated curves and boundary parts with query points against the minimum over every stationary point and end of every element, under AddressSanitizer", COMMON)
prop("P33", "Slopes of the semi-discrete system solve the equation of all its operators",
     "For any combination of a linear or nonlinear mass (or none), a nonlinear residual, a stiffness (assembled or partially assembled) and a load, with any essential boundary, the evolver's explicit slope k at a state x satisfies M k + R(x) + K x + l = 0, and its implicit slope over a step h satisfies [N(x + h k) - N(x)]/h + M k + R(x + h k) + K (x + h k) + l = 0 with the parts that are given, on every free degree of freedom, while k vanishes on essential ones. The Jacobian offered to Newton's method is the derivative of that equation with respect to k. Results do not depend on earlier calls or on what the output vector held, loads are taken as they are now, and the state is not changed. Entropy and entropy change are the energies of the entropy form at x and of the residual at x + h k; asking for them without an entropy form, giving a linear and a nonlinear mass together, and explicit slopes with a nonlinear mass are refused. The system built from a residual that takes the state and its rate (ODESystemOperator) is that residual at state x + h k and rate k, for the x and h last set, and its gradient is the residual's Jacobian with respect to the rate there, the step being passed on.",
     ["inputs", "histories"], "meshes, spaces, operators, boundary conditions, states, steps and sequences of slopes",
     "No test builds an evolver.",
     ["src/common/evolver.cpp", "src/common/evolver.hpp"],
     [("MISOEvolver::Mult, ImplicitSolve, GetGradient, Entropy, EntropyChange", "src/common/evolver.cpp"), ("MISOEvolver::SystemOperator", "src/common/evolver.cpp"), ("ODESystemOperator", "src/common/evolver.cpp")],
     "property testing: slopes substituted into the equation assembled separately, Richardson finite differences of it for the Jacobian, on histories of calls, under AddressSanitizer", COMMON)
