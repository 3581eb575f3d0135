#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = lambda *n: ["source/%s.cc" % x for x in n]
F2 = lambda *n: ["source/fortran/%dd/%s.m4" % (d, x) for x in n for d in (2, 3)]

T = "The tests call only the phase interpolation functions and the three-phase weights at a handful of points"
NOKERNEL = ("No test that builds here calls these kernels; the regression tests of full AMPE runs need SAMRAI and compare "
            "a few printed numbers of single runs, so no claim over all fields, patch shapes, ghost widths and parameters is ever exercised")


def P(id, title, statement, text, why, files, mech, over=("inputs",), note=""):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech]),
                note=note)


PROPS = [
 P("C01", "Phase interpolation functions interpolate, and their derivatives match",
   "Every interpolation function selectable in the input goes monotonically from 0 (pure first phase) to 1 (pure second phase), stays constant where it is documented to saturate, and the first and second derivatives AMPE uses are the derivatives of that same function everywhere away from the end points. Ratios of two interpolation functions, and of their complements, are consistent with the functions themselves.",
   "all phase values inside, at the end of and beyond [0,1]; all nine interpolation types, short and long names",
   T + " (values only, never derivatives, saturation or ratios).",
   ["source/fortran/functions.f"], [("interp_func, deriv_interp_func, second_deriv_interp_func, interp_ratio_func", "source/fortran/functions.f")]),
 P("C02", "Double, single and triple well potentials and their derivatives",
   "The well potentials are non-negative, vanish exactly at the pure phases, have the documented barrier height and symmetry, and the derivatives used by the evolution equations are their derivatives for all phase values. The three-phase well derivative is the one projected on fractions that sum to one: it is symmetric in the other two phases and sums to zero over the phases.",
   "all phase values in and around [0,1], both well types, all triples of phase values", "No test evaluates a well function.",
   ["source/fortran/functions.f"], [("well_func, deriv_well_func, second_deriv_well_func, deriv_triple_well_func", "source/fortran/functions.f")]),
 P("C03", "Face averages are means, and their derivative matches",
   "The arithmetic and harmonic averages used to move cell values to cell faces are symmetric means lying between their arguments, homogeneous, and the harmonic mean never exceeds the arithmetic one and vanishes when an argument does. The derivative with respect to one argument is that of the same average, and the limited inverse is the inverse except for arguments of negligible size.",
   "all pairs of non-negative values including zero and values around the zero threshold; both average types", "No test calls an average function.",
   ["source/fortran/functions.f"], [("average_func, deriv_average_func, limitedinverse", "source/fortran/functions.f")]),
 P("C04", "Three-phase tilting functions and pair weights partition unity",
   "On the simplex of three phase fractions the tilting functions of both models sum to one, equal one on their own pure phase and zero when it is absent, and the derivatives are those along the simplex. The three pair weights are finite, lie in [0,1], sum to one, follow any relabelling of the phases, and give the whole weight to a pair when the third phase is absent.",
   "all points of the simplex (interior, edges, corners, and slightly outside for the clamps)",
   "test3PhasesInterpolation and testWeights3Pairs evaluate a few fixed points.",
   ["source/TiltingFolchPlapp2005.cc", "source/TiltingMoelans2011.cc", "source/computeWeights3Pairs.cc", "source/ArrayOperation.cc"],
   [("TiltingFolchPlapp2005, TiltingMoelans2011", "source/"), ("computeWeights3Pairs", "source/computeWeights3Pairs.cc")]),
 P("C05", "Orientation algebra: quaternions, rotation matrices, derivatives",
   "Quaternion and complex-number operations obey the algebra of rotations (associativity, multiplicative norm, conjugate as inverse, normalisation, chord and misorientation angle), rotation matrices are the homomorphic image of that algebra, and the derivative of the rotation matrix is its derivative for every component. The regularised inverse gradient norm is positive, never exceeds its cap, decreases with the gradient and tends to the exact inverse for all three flooring types.",
   "all quaternions, complex numbers and angles, unit or not; all floor types and values", "No test touches the orientation code.",
   ["source/fortran/quat.f", "source/fortran/functions.f"], [("quat* subroutines", "source/fortran/quat.f")]),
 P("C06", "Crystal symmetry: equivalents are a group and the nearest one is found",
   "The symmetry operations applied to an orientation (4-component, 2-component or angle) are exactly the cubic rotation group (planar four-fold group), each operation is undone by its opposite index, and the search returns, for any pair of orientations and any starting hint, an equivalent of the second orientation that is as near as possible to the first, together with the index that reproduces it.",
   "all pairs of orientations, unit or not, equivalent or not; all hints including invalid ones", "No test touches the orientation code.",
   ["source/fortran/quat.f"], [("quatfindsymm, quatsymmrotate, setqr", "source/fortran/quat.f")]),
 P("C07", "Rotation-index fields and the fundamental zone follow the symmetry",
   "On every cell face of a patch and of its first ghost layer the stored rotation index names an operation bringing the lower neighbour as near as possible to the upper one. Reducing orientations to the fundamental zone replaces each by the equivalent nearest to the reference orientation and changes nothing when repeated.",
   "all orientation fields, patch boxes, ghost widths, previous index values; depths 1, 2, 4", NOKERNEL,
   F2("quatrotation"), [("quat_symm_rotation, quat_fundamental", "source/fortran/*d/quatrotation.m4")]),
 P("C08", "Scalar differences, gradients and Laplacian are exact where they must be",
   "Face differences, cell and face gradients (compact and isotropic), the Laplacian, face-to-cell averages and interface velocity equal their defining finite-difference formulas in each direction with that direction's own grid spacing; in particular gradients of affine fields and Laplacians of quadratic fields are exact on any anisotropic grid.",
   "all fields, patch boxes, ghost widths and anisotropic spacings in 2D and 3D", NOKERNEL,
   F2("quatdiffs", "grad", "laplacian", "side2cell", "settozero"), [("diffs, grad_cell, grad_side, grad_side_isotropic, laplacian, side2cell, velocity", "source/fortran/*d/")]),
 P("C09", "Orientation differences and gradients respect crystal symmetry",
   "Differences, cell and face gradients and gradient norms of an orientation field equal their finite-difference definitions, and the symmetry-aware versions use, for every neighbour, the equivalent named by the rotation index, expressed in the frame of the local cell. Consequently replacing the orientation of cells by symmetric equivalents (with the matching rotation indices) does not change gradient norms.",
   "all orientation fields, rotation indices, boxes, spacings and depths 1, 2, 4", NOKERNEL,
   F2("quatdiffs", "quatgrad"), [("quatdiffs*, quatgrad_*", "source/fortran/*d/")]),
 P("C10", "Phase-field interface fluxes, isotropic and anisotropic",
   "The phase-field face flux is epsilon squared times the face gradient, computed with each direction's spacing and the documented stencil weights. The anisotropic flux is the derivative, with respect to the gradient, of the anisotropic interfacial energy the code itself reports for the same field; it is homogeneous of degree one, reduces to the isotropic flux without anisotropy, and follows rotations and symmetric equivalents of the crystal.",
   "all phase and orientation fields, anisotropy strengths and folds, boxes, ghost widths and spacings", NOKERNEL,
   F2("quatrhs"), [("gradient_flux, anisotropic_gradient_flux, compute_flux_isotropic", "source/fortran/*d/")]),
 P("C11", "Two-phase phase-field and eta equations have the right driving forces",
   "The right-hand sides of the phase and eta equations equal the divergence of the flux minus the derivative of the configured local energy: well, coupling of phi and eta, orientation terms, bulk free-energy difference, undercooling, biased wells and moving-frame advection. Accumulating kernels add their term exactly once on the interior and overwrite nothing else.",
   "all fields, energy parameters, interpolation and well types, switches, boxes and ghost widths", NOKERNEL,
   F2("quatrhs", "temperature"), [("computerhspbg, computerhseta, phaserhs_fenergy, computerhsbiaswell, computerhsdeltatemperature, addvdphidx", "source/fortran/*d/")]),
 P("C12", "Three-phase and multi-order-parameter right-hand sides",
   "For three phases the right-hand side is projected so that the changes of the fractions sum to zero in every cell. For any number of order parameters the right-hand side is the divergence of each flux minus the derivative of the multi-well (or Wang sintering) energy and of the interpolated bulk energy with respect to that order parameter; relabelling the order parameters only relabels the result. The projection correction restores the sum of the fractions to one.",
   "all fields, numbers of order parameters, energy parameters, boxes and ghost widths", NOKERNEL,
   F2("quatrhs", "multiorder", "sintering", "phase"), [("computerhsthreephases, computerhsmultiorder, computerhs_wang_sintering, phaserhs_fenergy_multiorderp, projectphi", "source/fortran/*d/")]),
 P("C13", "Temperature equation, heat capacity and temperature profiles",
   "The temperature right-hand side is thermal diffusion plus latent heat released by the phase change over the heat capacity, and heat sources are composition weighted. The heat capacity is the composition-weighted sum of the species' polynomials. Prescribed Gaussian, linear-gradient and melting-line profiles give at every cell, ghost cells included where they are set, the value of the profile at the cell centre, using the nearest periodic image.",
   "all fields, coefficients, powers, profile parameters, periodicities, boxes, ghost widths and spacings", NOKERNEL,
   F2("temperature", "quatrhs"), [("computerhstemp, source_temperature, heat_capacity_nkr, initgaussian, initgradient, linearmeltingline", "source/fortran/*d/")]),
 P("C14", "Composition fluxes and conservation of the composition equation",
   "The composition flux across a face is the diffusion, phase-coupling, thermal, spinodal and chemical-potential contribution of its two cells, computed with each direction's spacing. The right-hand side is the mobility times the divergence of the flux, so on any patch the total change equals the net flux through the boundary. Cahn-Hilliard and sintering fluxes are the mobility times the gradient of the variational derivative of their documented energies.",
   "all composition, phase, temperature and coefficient fields, parameters, boxes, ghost widths and spacings", NOKERNEL,
   F2("concentrationrhs"), [("concentrationflux, computerhsconcentration, addconcentrationfluxfromgradt, add_cahnhilliarddoublewell_flux, add_wang_sintering_flux, concentrationflux_spinodal", "source/fortran/*d/concentrationrhs.m4")]),
 P("C15", "Antitrapping current follows the interface normal",
   "The antitrapping current added to the composition flux at a face is the coefficient times the normal of the interface there (full gradient, compact across the face and averaged along it) times the face averages of the composition jump and of the phase rate, and zero where there is no interface. With several solid phases or grains each contributes as documented, and one grain reproduces the two-phase current.",
   "all phase, rate and composition fields (flat regions included), coefficients, numbers of order parameters, boxes, ghost widths and spacings", NOKERNEL,
   F2("concentrationrhs"), [("addconcentrationfluxfromantitrapping, ...3phases, ...multiorderp", "source/fortran/*d/concentrationrhs.m4")]),
 P("C16", "Phase- and temperature-dependent diffusion coefficients at faces",
   "The diffusion coefficient at a face is the mixture of the phases' coefficients, each an Arrhenius function of the face temperature, weighted by the interpolated face averages of the phase fractions, in every direction alike. Interface and grain-boundary diffusion add to each face half the enhancement of each of its two cells, whichever patches own them.",
   "all phase and temperature fields, numbers of order parameters, prefactors, activation energies, interpolation and average types, boxes and ghost widths", NOKERNEL,
   F2("concentrationdiffusion"), [("concentration_pfmdiffusion*, concentrationdiffusion_beckermann, concentration_diffcoeff_of_temperature, ab_diffusion_of_temperature, add_ab_diffusion*", "source/fortran/*d/concentrationdiffusion.m4")]),
 P("C17", "Multicomponent diffusion fluxes and mixture composition",
   "For any number of components the flux added at a face is the diffusion matrix at that face applied to the component differences over the spacing, in the plain, isotropic and fourth-order variants with their documented stencils, the fourth-order one reverting to first order only at faces on physical boundaries. The mixture composition is the interpolation of the phase compositions.",
   "all fields, numbers of components, diffusion matrices, boundary flags, boxes, ghost widths and spacings", NOKERNEL,
   F2("flux", "concentrations"), [("add_flux, add_flux_iso, add_flux_4th", "source/fortran/*d/flux.m4"), ("compute_concentration_from_phase_concentrations", "source/fortran/*d/concentrations.m4")]),
 P("C18", "Orientation mobility and its derivative",
   "The orientation mobility of a cell is the configured function of the phase fraction (polynomial, exponential or capped inverse law), positive, finite and bounded by its maximum, and the derivative used by the linearised solver is the derivative of exactly that mobility wherever it is smooth.",
   "all phase fields in and around [0,1], mobility types, scale factors including extreme ones, boxes and ghost widths", NOKERNEL,
   F2("mobility"), [("quatmobility, quatmobilityderiv", "source/fortran/*d/mobility.m4")]),
 P("C19", "Reported energies are the integrals whose gradients drive the evolution",
   "Total, phase, well, interfacial, orientational and free energies are the volume-weighted sums, over every patch, of the documented densities, and the densities stored per cell are the same numbers. Contributions of several patches add up. The phase-field right-hand side is minus the derivative of the reported energy.",
   "all fields, energy parameters, interpolation, well and flooring types, weights, boxes, ghost widths and spacings; one or several patches", NOKERNEL,
   F2("quatenergy"), [("quatenergy, bulkenergy, interface_anisotropic_energy, phi_interface_energy, temperature_energy, phiphi_interfacialenergy", "source/fortran/*d/")]),
 P("C20", "Inter-grain forces and rigid-body advection",
   "The force of one grain on another is the volume-weighted sum over cells of the documented pair density (gamma m/2 phi_i^2 grad phi_j^2; or the density excess times a smooth cutoff of phi_i phi_j times grad phi_i - grad phi_j, which is antisymmetric in the two grains), is stored in that ordered pair's own slot, leaves other slots alone and adds up over patches. The rigid-body motion term subtracts velocity times the centred gradient of the order parameter with each direction's spacing, so a constant field or a zero velocity changes nothing.",
   "all order-parameter fields, numbers of grains, velocities, boxes, ghost widths and spacings; one or several patches", NOKERNEL,
   F2("forces", "rbmotion"), [("phiphi_forces, wang_forces, addrbmotion", "source/fortran/*d/")]),
 P("C21", "Refining and coarsening orientations between AMR levels",
   "Coarse orientations are the normalised average of the fine cells they cover, refined ones the linear interpolation of the coarse cells around, each neighbour being first replaced by its equivalent nearest to the reference cell when symmetry is on. Uniform orientation fields, and with symmetry fields of equivalents of one orientation, are therefore preserved, and results are unit quaternions.",
   "all orientation fields, refinement ratios, boxes (negative indices included), ghost widths; depths 1, 2, 4; symmetry on and off", NOKERNEL,
   F2("quatcoarsen", "quatlinrefine"), [("quatcoarsen, quatlinrefine", "source/fortran/*d/")]),
 P("C22", "Refinement tagging flags exactly the cells above threshold",
   "A cell is tagged for refinement if and only if the norm of its phase, composition or orientation gradient, each component times that direction's grid spacing, reaches the tolerance; tags already set are never removed, and no cell outside the patch is touched.",
   "all gradient fields, tolerances, previous tags, boxes and ghost widths", NOKERNEL,
   F2("quattag"), [("tagfromgrads, tagfromquatgrads", "source/fortran/*d/")]),
 P("C23", "Cell-centred elliptic operator, its relaxation and coarse-fine fluxes",
   "The discrete elliptic fluxes and residual equal their conservative finite-volume definition with each direction's own spacing, and a red-black relaxation sweep visits every cell of the patch once, each visited cell then satisfying its own equation. Coarse-fine flux corrections use the interpolation that is exact for the fields it is designed for, in every direction and on both sides.",
   "all coefficient, solution and right-hand-side fields, scalar or variable coefficients, boxes (negative indices included), ghost widths, refinement ratios and spacings", NOKERNEL,
   F2("ellipticfacops", "hyprepoisson"), [("efo_compflux*, efo_compres*, efo_rbgswithfluxmax*, efo_ewingfixflux*, setc", "source/fortran/*d/")]),
 P("C24", "Orientation operator on the grid hierarchy and its unit-length constraint",
   "The face coefficients, fluxes, residual and time-derivative operator of the orientation equation equal their finite-volume definitions, with each direction's own spacing, symmetric neighbours expressed in the cell's own frame, and the documented coarse-fine flux correction. The constrained operator moves the orientation tangentially to the unit sphere, and the projection puts it exactly on it.",
   "all phase, temperature, orientation, coefficient and flux fields, rotation indices, parameters, boxes, ghost widths and spacings; depths 1, 2, 4", NOKERNEL,
   F2("quatfacops"), [("compute_face_coef, compute_flux*, compute_sym_flux, compute_q_residual*, add_quat_op, add_quat_proj_op*, compute_lambda_flux*, fixflux, project", "source/fortran/*d/quatfacops.m4")]),
 P("C25", "Level-solver matrix is the orientation operator with its boundary conditions",
   "The matrix entries and right-hand side handed to the linear solver, applied to any orientation field whose ghost values satisfy the Robin boundary condition, give the implicit orientation operator of the composite grid; every entry is stored in the place of the cell and neighbour it belongs to and boundary couplings are eliminated exactly once.",
   "all coefficient and mobility fields (evenly extended at boundaries), Robin coefficients from pure value to pure slope, partial boundary boxes, boxes and spacings", NOKERNEL,
   F2("quatlevelsolver"), [("set_j_ij, set_stencil, set_symmetric_stencil, adjust_bdry, adjust_qrhs", "source/fortran/*d/quatlevelsolver.m4")]),
 P("C26", "Linearised orientation diffusion, symmetry correction and smoothing",
   "The derivative of the orientation diffusion with respect to the phase is the derivative of the face coefficient the operator uses. The symmetry correction replaces plain by symmetry-aware differences, tangentially to the unit sphere, and smoothing changes orientations only where the phase is below the threshold.",
   "all fields, rotation indices, average, interpolation and flooring types, boxes, ghost widths and spacings; depths 1, 2, 4", NOKERNEL,
   F2("quatdiffusion", "correctrhsquatforsymmetry", "smoothquat") + ["source/fortran/functions.f"], [("quatdiffusionderiv, correctrhsquatforsymmetry, smoothquat", "source/fortran/*d/")]),
 P("C27", "Kernels stay inside their arrays, outputs and stencils",
   "For every patch box and every combination of ghost widths a kernel reads and writes only inside the arrays it is given, modifies only its outputs on their output region, and never lets a ghost value outside its stencil reach a result.",
   "all kernels, patch boxes (single cells and negative indices included) and combinations of ghost widths", NOKERNEL,
   ["source/fortran/2d", "source/fortran/3d"], [("all patch kernels, compiled with run-time bounds checks", "source/fortran/*d/*.m4")]),
 P("C28", "Results do not depend on how the domain is cut into patches",
   "Computing a patch in two pieces, each piece translated to another place of the index space and stored with the same ghost widths, gives the same cell and face values, and sums over patches add up to the sum over the whole.",
   "all kernels whose result is local, cuts in every direction, translations", NOKERNEL,
   ["source/fortran/2d", "source/fortran/3d"], [("all patch kernels", "source/fortran/*d/*.m4")]),
 P("C29", "Quaternion and symmetry library of the pre/post-processing scripts",
   "The Python orientation library used to prepare and analyse AMPE data obeys the same algebra as the solver: products, conjugates, norms, normalisation and chord-to-angle conversions are those of quaternions (or unit complex numbers), operations never change their operands, the symmetry tables list each of the 48 (4, 9) operations once with its inverse, and the symmetry search returns an equivalent of the second orientation that is as near as possible to the first (within the documented acceptance distance) for any starting hint.",
   "all quaternions, unit complex numbers and angles, equivalent or not; every pair of symmetry operations; all hints, valid or not",
   "No test runs the Python utilities on their own.",
   ["utils/quat.py"], [("multiplyQuat, conjugateQuat, quatSymm, quatSymm1, quatMakeFundamental, symmetry tables", "utils/quat.py")]),
 P("C30", "Initial-condition generators write the configuration they were asked for",
   "Every generator of initial conditions writes complete, finite fields of the requested size: the phase has its inside value in every requested grain, layer or sphere and its outside value elsewhere, with the requested tanh profile when a width is given; orientations are the requested ones, one per grain and of unit length; there is one concentration field per species, the composition is the phase-weighted mixture of the inside and outside compositions, and when a nominal composition is given its mean over the domain is that nominal value for every species; temperatures are the requested ones.",
   "all domain sizes in 2D and 3D, radii, centres, numbers of grains, widths, orientation lengths and ways of giving the composition",
   "The regression tests run one fixed command line per generator and need a full AMPE run to notice anything.",
   ["utils/make_nuclei.py", "utils/make_multi_spheres.py", "utils/make_bilayer.py", "utils/make_sphere.py", "utils/make_initial_grains_on_boundary.py", "utils/make4corners.py"],
   [("field filling loops", "utils/make_*.py")]),
 P("C31", "Input editing and log extraction keep the rest of the text intact",
   "Substituting a parameter in an input file changes the value of every line that sets exactly that parameter and no other line; the volume fraction series extracted from a log pairs each printed volume fraction with the time of the cycle it was printed in, without loss.",
   "all input files and logs built from parameter lines, look-alike names, comments, blank lines, repeated parameters; any number of cycles and of printed fractions per cycle",
   "No test runs these scripts.",
   ["utils/substituteInputParameter.py", "utils/volfracvstime.py"], [("substitution loop, search of the time line", "utils/")]),
]

SIMF = ["source/QuatModel.cc", "source/QuatIntegrator.cc", "source/PFModel.cc", "source/QuatModelParameters.cc"]
RUNS = "No test that builds here runs AMPE; the regression runs need SAMRAI and compare a few printed numbers of a handful of inputs"
MODELS = ("generated models: single and multiple order parameters, three phases, with and without orientations, heat equation, "
          "quadratic, dilute, Cahn-Hilliard and sintering composition models, moving frame, every option of wells, interpolations, "
          "averages, stencils; generated grids, periodic or with boundary conditions, fields")
PROPS += [
 P("C32", "Bulk free energies, driving forces and energy densities of every model",
   "In every cell of every patch, the free energies of the phases are the thermodynamic functions per molar volume, the chemical driving force added to the right-hand side of each order parameter is minus the derivative of the interpolated energy (or grand potential) with respect to it, and second derivatives are those of the phase energies; nothing outside is touched, and models without composition have the documented latent heat, undercooling or fixed-energy form.",
   "all phase, composition and temperature fields, all interpolation types, two-phase, third-phase, three-phase and multi-order models; hierarchies of one or two levels cut into any patches",
   "No test constructs a free energy strategy.",
   S(*"FreeEnergyStrategy ConcFreeEnergyStrategy QuadraticFreeEnergyStrategy QuadraticFreeEnergyStrategyMultiOrder QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase CALPHADFreeEnergyStrategyBinary CALPHADFreeEnergyStrategyBinaryThreePhase CALPHADFreeEnergyStrategyMultiOrder CALPHADFreeEnergyStrategyTernary KKSdiluteBinary BiasDoubleWellFreeEnergyStrategy BiasDoubleWellBeckermannFreeEnergyStrategy BiasDoubleWellUTRCFreeEnergyStrategy DeltaTemperatureFreeEnergyStrategy PhaseFreeEnergyStrategy TemperatureFreeEnergyStrategy".split()),
   [("computeFreeEnergy*, addDrivingForce*, computeSecondDerivative*", "source/*FreeEnergy*.cc")]),
 P("C33", "A simulation does not depend on how the domain is cut into patches",
   "A whole run gives the same states, rates and final fields whatever patches the domain is divided into; this covers initial data, boundary conditions and fluxes between patches.",
   MODELS + "; any two divisions into patches", RUNS + ", always with the same division.",
   SIMF, [("evaluateRHSFunction, fillScratch, setCoefficients", "source/QuatIntegrator.cc")]),
 P("C34", "A restarted simulation continues as if it had not been interrupted",
   "A run stopped at any step, or written out while it continues, and restarted from that file gives the states, rates and final fields of the uninterrupted run.",
   MODELS + "; every step to restart from; periodic or final restart files", RUNS + ".",
   SIMF, [("putToRestart, getFromRestart, InitializeFromRestart", "source/QuatModel.cc, source/PFModel.cc")], over=("inputs", "crash_points")),
 P("C35", "Whole runs conserve composition and keep phase fractions summing to one",
   "With periodic boundaries or without flux through them, the rate of the total of every species is zero at every state of a run and the total is unchanged by the run; the fractions of a three-phase model sum to one at all times.",
   MODELS + "; any division into patches", RUNS + "; none checks conservation.",
   SIMF + S("CompositionRHSStrategy", "CahnHilliardDoubleWell", "WangSinteringCompositionRHSStrategy", "EBSCompositionRHSStrategy"), [("evaluateConcentrationRHS, setZeroFluxAtBoundaryOnPatch", "source/")]),
 P("C36", "Simulations follow shifts, reflections and axis permutations of their data",
   "Moving the initial fields, the grid and the boundary conditions by a periodic shift, a reflection or a permutation of the axes moves every state, rate and final field of the run in the same way, for every model without a preferred direction.",
   MODELS + "; all axis permutations, reflections and periodic shifts", RUNS + ".",
   SIMF, [("the right-hand sides of all fields", "source/QuatIntegrator.cc, source/fortran/")]),
 P("C39", "Reported diagnostics are those of the simulated state",
   "The extreme and average temperatures, volume fractions, mobilities, integrals and maxima of compositions, thermal energy and relative density of a subdomain that a run reports at a cycle are those of its fields at that cycle.",
   MODELS + "; any division into patches, boundary values and diagnostics subdomain", RUNS + "; the tests compare a few reported values of reference runs to loose thresholds.",
   S("QuatModel", "PFModel") + ["source/TemperatureStrategy.h", "source/ConstantTemperatureStrategy.h"],
   [("printScalarDiagnostics, evaluateVolumeSolid, evaluatePhaseFraction, evaluateIntegralConcentration, computeThermalEnergy, computeDensityDiagnostics", "source/QuatModel.cc"), ("getCurrentMinTemperature, getCurrentMaxTemperature, getCurrentAverageTemperature", "source/*TemperatureStrategy*")]),
 P("C40", "Orientations stay unit quaternions",
   "Initial orientations are normalized, their rate of change is tangent to the unit sphere at every state of a run, and the final orientations are unit quaternions.",
   "generated orientation models of depth 2 and 4, plain and symmetry-aware, any grid, fields and division into patches", RUNS + ".",
   SIMF, [("correctRhsForSymmetry, project, normalizeQuat", "source/QuatIntegrator.cc, source/QuatModel.cc")]),
 P("C41", "Output, restart files and diagnostics appear exactly when asked for",
   "Restart files, plots, reported steps and diagnostics are produced at exactly the cycles their intervals name: every n-th cycle, or the first cycle in each new interval of time, plus the first and last ones as requested, never twice for the same cycle, also when a run is restarted; reported cycle numbers, times and steps are those of the run.",
   "all interval types and lengths, with and without first and last step, runs of any length, restarted from any file", RUNS + "; EventInterval has no test.",
   S("EventInterval", "PFModel"), [("EventInterval::hasIntervalPassed, includeInitial, includeFinal; PFModel::Run", "source/")], over=("inputs", "histories")),
P("C42", "Evolution follows the documented equations",
  "At every state of a run the time derivatives handed to the integrator are those of the documented phase-field equations for the configured model, with every option of the input, boundary values, moving or prescribed temperature, orientation symmetry and rescaling taken into account.",
  MODELS + "; value and slope boundary conditions, all interpolation, averaging and mobility options", RUNS + "; the tests compare a few reference runs to loose thresholds.",
  SIMF + S("PhaseFluxStrategySimple", "PhaseFluxStrategyIsotropic"), [("evaluateRHSFunction and the strategies it selects from the input", "source/QuatIntegrator.cc, source/*Factory.h, source/*Strategy.cc")]),
P("C43", "Refining the grid changes the resolution, not the solution",
  "A run whose whole domain is refined gives the states, rates, final fields and reported diagnostics of the run on a grid of twice the resolution; where only a part is refined, also when that part moves during the run, the rates in the refined part, away from its edges, are those of the finer grid, and in the rest those of the coarse one.",
  MODELS + "; two levels, refined everywhere or in generated regions that move; any division into patches", RUNS + "; none compares a refined run with an unrefined one.",
  SIMF + S("ConstantHeatCapacityStrategy", "NKRHeatCapacityStrategy", "GaussianTemperatureStrategy", "ScalarTemperatureStrategy"),
  [("initializeLevelData, resetHierarchyConfiguration, initializeLevelFromData, fillScratch", "source/QuatModel.cc, source/QuatIntegrator.cc")], over=("inputs", "histories")),
P("C44", "Regridding refines where fields are steep and carries the fields over",
  "Cells are tagged exactly where a configured field is steeper than its threshold, and with their buffer they are what the next finer level covers; when levels change, cells that stay refined keep their values, newly refined ones are interpolated linearly from the coarse level, coarse cells hold the average of the fine ones, and the state a step ends with is the one the next step starts from.",
  MODELS + "; every tagging criterion and threshold, fields that change at every step, two levels, any division into patches", RUNS + "; none looks at the levels made.",
  SIMF + S("PFModel"), [("applyGradientDetector, tagGradientDetectorCells, Regrid, initializeLevelData", "source/QuatModel.cc, source/PFModel.cc"), ("setSolutionVector, Advance", "source/QuatIntegrator.cc")], over=("inputs", "histories")),
]


TECH = "property-based testing: Hypothesis-generated patches and parameters, explicit oracle"
NOTE = ("Sampled, not exhaustive: no violation among the generated cases listed in the evidence. The real kernels are compiled "
        "from /repo's working tree and called as AMPE's C++ calls them; trusts gfortran/g++ and the independently written "
        "numpy oracle.")


# parts of properties decided through AMPE's C++ classes as well:
# id -> (addition to the statement, addition to the quantifier, files, mechanism)
RUNQ = "whole runs of generated models, any grid, division into patches, boundary values and options"
EXT = {
 "C09": ("In whole runs the rates of phase and orientation contain these gradients, with the equivalent orientations of neighbours when symmetry is on.",
         RUNQ, S("SimpleQuatGradStrategy", "QuatGradModulusStrategy", "PhaseRHSStrategyWithQ", "computeQDiffs"),
         [("computeDiffs, computeGradCell, computeGradSide, computeGradModulus", "source/*Strategy.cc, source/computeQDiffs.cc")]),
 "C10": ("In whole runs the rate of the phase contains the divergence of this flux on every patch, whatever its boundary conditions.",
         RUNQ, S("PhaseFluxStrategySimple", "PhaseFluxStrategyIsotropic", "PhaseFluxStrategyAnisotropy"),
         [("computeFluxes", "source/PhaseFluxStrategy*.cc")]),
 "C11": ("In whole runs the rate of the phase is the mobility times these terms.",
         RUNQ, S("PhaseRHSStrategyWithQ", "MovingFrameRHS"), [("evaluateRHS", "source/PhaseRHSStrategyWithQ.cc")]),
 "C12": ("In whole runs the rates of the order parameters are the mobility times these terms.",
         RUNQ, S("MultiOrderRHSStrategy", "ThreePhasesRHSStrategy", "SinteringUWangRHSStrategy"),
         [("evaluateRHS", "source/*RHSStrategy.cc")]),
 "C13": ("In whole runs the temperature follows this equation, or the prescribed profile and rate at every time.",
         RUNQ, S("SimpleTemperatureRHSStrategy", "ScalarTemperatureStrategy", "GaussianTemperatureStrategy", "GradientTemperatureStrategy", "NKRHeatCapacityStrategy", "TemperatureStrategyFactory"),
         [("evaluateRHS, setCurrentTemperature", "source/*Temperature*Strategy.cc")]),
 "C18": ("In whole runs the rate of the orientation is this mobility times the variational derivative.",
         RUNQ, S("SimpleQuatMobilityStrategy"), [("computePhaseMobility, computeQuatMobility", "source/SimpleQuatMobilityStrategy.cc")]),
 "C19": ("The total energy and the interface, orientation, well and free energies a run reports at a cycle are these energies, integrated over the domain, of its fields at that cycle.",
         RUNQ, S("TwoPhasesEnergyEvaluationStrategy", "DeltaTemperatureFreeEnergyStrategy"),
         [("evaluateEnergy, evaluate", "source/QuatModel.cc, source/TwoPhasesEnergyEvaluationStrategy.cc")]),
 "C20": ("In whole runs every grain, whichever solid it is, moves with the sum of its pair forces and the external force, times mobility over volume, and the composition moves with the grains.",
         RUNQ, S("RigidBodyForces", "PhaseRigidBodyForces", "WangRigidBodyForces", "RigidBodyMotionRHS", "RigidBodyMotionConcRHS"),
         [("evaluatePairForces, addRHS", "source/*RigidBody*.cc")]),
 "C14": ("On whole patch hierarchies the composition models (KKS, Beckermann, Cahn-Hilliard, Wang sintering) compute from the phase, composition and partition fields the diffusion and phase-coupling coefficients and the flux of their documented equations on every face of every patch, zero the flux on exactly the faces at physical boundaries, and rigid-body motion advects each grain with its own velocity, force times mobility over volume.",
         "hierarchies of one or two levels cut into any patches, periodic or not",
         S("KKSCompositionRHSStrategy", "BeckermannCompositionRHSStrategy", "CahnHilliardDoubleWell", "WangSinteringCompositionRHSStrategy", "WangSinteringCompositionDiffusionStrategy", "CompositionRHSStrategy", "RigidBodyMotionRHS", "RigidBodyMotionConcRHS"),
         [("setDiffusionCoeff, computeFluxOnPatch, setZeroFluxAtBoundaryOnPatch", "source/*CompositionRHSStrategy.cc")]),
 "C15": ("The composition strategy selects the variant by the number of order parameters and phases and applies it to the phase compositions of the patch.",
         "hierarchies of one or two levels cut into any patches", S("EBSCompositionRHSStrategy"),
         [("addFluxFromAntitrappingonPatch", "source/EBSCompositionRHSStrategy.cc")]),
 "C16": ("Temperature-based, scalar and mobility-based diffusion strategies fill every face of every patch; the atomic mobilities of CALPHAD databases combine into the symmetric positive semi-definite Darken mobility matrix, and the diffusion matrix is that mobility times the second derivatives of the free energy.",
         "any mobility database, composition and temperature; hierarchies of one or two levels cut into any patches",
         S("TbasedCompositionDiffusionStrategy", "ScalarCompositionDiffusionStrategy", "MobilityCompositionDiffusionStrategy", "CALPHADMobility", "CompositionStrategyMobilities"),
         [("setDiffusion, computeDiffusionMobility*", "source/*CompositionDiffusionStrategy.cc")]),
 "C23": ("On composite grids of one or two levels the operator, its coefficients for each equation, the smoother, the transfers between levels, the coarsest-level solve and the multigrid solution are those of the composite finite-volume discretisation: a solve that reports success satisfies the equation it was given.",
         "composite grids of one or two levels cut into any patches, periodic or not, Robin conditions", S("EllipticFACOps", "EllipticFACSolver", "PhaseFACOps", "PhaseFACSolver", "ConcFACOps", "ConcFACSolver", "TemperatureFACOps", "TemperatureFACSolver", "samrai/FACPreconditioner", "samrai/CellPoissonHypreSolver"),
         [("computeCompositeResidualOnLevel, smoothError, prolongErrorAndCorrect, restrictResidual, solveCoarsestLevel, solveSystem, setOperatorCoefficients", "source/*FAC*.cc, source/samrai")]),
 "C24": ("On composite grids of one or two levels the right-hand side, the residual of the implicit equation, the projection of corrections and the transfers between levels are those of this operator.",
         "composite grids of one or two levels cut into any patches, periodic or not", S("QuatFaceCoeff", "QuatSysSolver", "QuatFACOps"),
         [("computeFaceCoefs, evaluateRHS, computeCompositeResidualOnLevel, applyProjection", "source/QuatSysSolver.cc, source/QuatFACOps.cc")]),
 "C25": ("The level solver and the multigrid solver therefore return, whenever they report success, a field satisfying the orientation equation they were given.",
         "composite grids of one or two levels cut into any patches, periodic or not", S("QuatLevelSolver", "QuatSysSolver", "QuatFACOps", "samrai/FACPreconditioner"),
         [("setMatrixCoefficients, solveSystem", "source/QuatLevelSolver.cc, source/QuatSysSolver.cc")]),
 "C26": ("The block of the preconditioner that couples orientation to phase is, on composite grids, the derivative of the orientation operator in the direction of the phase correction.",
         "composite grids of one or two levels cut into any patches, periodic or not", S("DerivDiffusionCoeffForQuat", "QuatFACOps", "QuatSysSolver"),
         [("setDerivDiffusion, multiplyDQuatDPhiBlock", "source/DerivDiffusionCoeffForQuat.cc, source/QuatFACOps.cc")]),
 "C17": ("The energy-based composition strategy sums these fluxes over the phases present, each with its own diffusion matrix, and hands the diagonal to the preconditioner.",
         "hierarchies of one or two levels cut into any patches, periodic or not", S("EBSCompositionRHSStrategy"),
         [("computeFluxOnPatch, setDiffusionCoeffForPreconditioner", "source/EBSCompositionRHSStrategy.cc")]),
}


def extend(p):
    if p["id"] in EXT:
        st, qu, files, mech = EXT[p["id"]]
        p["statement"] += " " + st
        if qu:
            p["quantifier"]["text"] += "; " + qu
        p["anchors"]["files"] += files
        p["anchors"]["mechanism"] += [dict(name=m, where=w) for m, w in mech]


for p in PROPS:
    extend(p)
drv = lambda p: int(p["id"][1:]) >= 32 or p["id"] in EXT
TECHD = "property-based testing: Hypothesis-generated patch hierarchies and parameters through AMPE's C++ classes, explicit oracle"
NOTED = ("AMPE's C++ classes are compiled from /repo's working tree against stand-ins for SAMRAI, CVODE and Thermo4PFM that do not "
         "exist in this sandbox; the stand-ins implement the documented behaviour of those libraries. ")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            q = {k: v for k, v in p.items() if k != "note"}
            fh.write(json.dumps(q) + "\n")
    checks = []
    for p in PROPS:
        if p["note"] == "NA":
            continue
        cmd = "python3-vt run.py " + p["id"]
        checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=cmd + " --tier thorough",
                           technique=TECHD if drv(p) else TECH, level="exploration",
                           level_note=(p["note"] + " " if p["note"] else "") + (NOTED if drv(p) else "") + NOTE))
    m = dict(version=1, setup_cmd="python3-vt run.py --selftest", checks=checks,
             not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


NOT_APPLICABLE = []

if __name__ == "__main__":
    main()
