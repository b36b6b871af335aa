"""Writes properties.jsonl (run once after editing the texts below)."""
import json
import os

P = []


def prop(id, title, statement, text, why, files, mech, observe, over=("inputs", "configurations")):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": m, "where": w} for m, w in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "Reciprocal lattice, cell areas and Brillouin-zone paths",
     "For any two linearly independent primitive vectors, and for the named square and hexagonal lattices, a Lattice has reciprocal vectors with a_i.b_j = 2 pi delta_ij, cell area |a1 x a2| and Brillouin-zone area 4 pi^2 / |a1 x a2|. bz_path() returns, for any points (named, list or array) and any number of steps per segment, the k points that divide every segment evenly and end at the last point, the index and the normalised arc length of every vertex, one label per point and the direction angle of every k (the direction of symm_g at Gamma); xy_grid() spans the cell times the requested periods. Unknown lattice names, points that the lattice does not define, fewer than two points, or a list of step counts of the wrong length raise ValueError.",
     "every pair of primitive vectors (either handedness, any obliqueness, length and orientation), every sequence of path points, every ns",
     "Tests only use square and hexagonal lattices; none calls bz_path with lists of steps or checks the reciprocal vectors of an oblique cell.",
     ["legume/phc/lattice.py"],
     [("Lattice.__init__", "legume/phc/lattice.py"), ("Lattice.bz_path", "legume/phc/lattice.py"),
      ("Lattice.xy_grid", "legume/phc/lattice.py")],
     ["legume.Lattice attributes a1, a2, b1, b2, ec_area, bz_area", "Lattice.bz_path()", "Lattice.xy_grid()"])

prop("C02", "Shapes: Fourier transform, indicator and area describe one region",
     "For every Circle, Ellipse (any axes and rotation), Poly, Square, Hexagon and FourierShape, before and after rotate(), compute_ft(g) is the integral of exp(-i g.r) over the region that the constructor's documented parameters describe, is_inside() is the indicator of that same region, and area is its area (compute_ft at g = 0). rotate() turns a polygon counter-clockwise about its centre of mass. Clockwise polygons, Fourier coefficients with a negative radius, and g arrays that are not 2 x N (or N x 2) are rejected with ValueError or, for a g that is neither list nor array, TypeError.",
     "every shape parameter set and every g, including g = 0, g along an axis and g parallel or normal to an edge",
     "test_shapes samples a few shapes at a few g of generic position; the Fourier transform is a formula with special cases (g_x = 0, vertical and horizontal edges) that must agree for every polygon.",
     ["legume/phc/shapes.py"],
     [("compute_ft of each shape", "legume/phc/shapes.py"), ("is_inside of each shape", "legume/phc/shapes.py"),
      ("Poly.rotate", "legume/phc/shapes.py")],
     ["Shape.compute_ft", "Shape.is_inside", "Shape.area", "Poly.rotate"])

prop("C03", "Permittivity of layers and crystals in real and reciprocal space",
     "For a crystal built by any sequence of add_layer, add_shape and add_qw calls, layers stack upwards from z = 0 without gaps, get_eps at a point returns the permittivity of the shape of the layer (or cladding) at that z which covers the point or one of its lattice translates, otherwise that layer's background. A layer's compute_ft(g) gives the Fourier coefficients of that same function on reciprocal lattice vectors, with the cell average (eps_avg) at g = 0, and get_eps_bounds() is the smallest and largest permittivity present. Shapes go to the layer or cladding asked for (the last layer by default), quantum wells are accepted strictly between the claddings only, and arguments that name no layer or cladding, or are no shapes, are rejected with an exception.",
     "every lattice, stack, arrangement of non-overlapping shapes (also outside the home cell), and point in space",
     "No test evaluates get_eps or the Fourier coefficients of a multi-shape layer on an oblique lattice; tests use one shape per layer.",
     ["legume/phc/phc.py", "legume/phc/layer.py"],
     [("PhotCryst.add_layer / add_shape / add_qw", "legume/phc/phc.py"), ("ShapesLayer.add_shape, compute_ft, get_eps", "legume/phc/layer.py")],
     ["PhotCryst.get_eps", "PhotCryst.get_eps_bounds", "ShapesLayer.compute_ft", "ShapesLayer.eps_avg"])

prop("C04", "Plane-wave expansion: bands and fields of the 2D crystal",
     "PlaneWaveExp.run() returns, for every k point and polarisation, the lowest numeig frequencies (omega a / 2 pi c) of the Hermitian eigenproblem of the 2D crystal in the plane-wave basis of all n1 b1 + n2 b2 with |n_i b_i| <= 2 pi gmax, using the inverse of the truncated permittivity matrix of eps(G - G') (with eps_eff in place of the background when it is given). The fields it returns for a mode satisfy D = curl H / (i omega) and E = D/eps in that basis for the mode's own k and frequency, are normalised so that the squared Fourier coefficients of H add up to one, and their real-space values are the Fourier sums of the coefficients. The frequencies do not depend on where in space the origin is, on the order of the shapes, or on swapping or reversing the primitive vectors, and an empty layer has the frequencies |k + G| / (2 pi sqrt(eps)).",
     "every lattice, layer pattern, gmax, k point, polarisation and mode index",
     "The test suite has no test of PlaneWaveExp at all.",
     ["legume/pwe/pwe.py"],
     [("PlaneWaveExp._construct_mat / run", "legume/pwe/pwe.py"), ("PlaneWaveExp.ft_field_xy / get_field_xy", "legume/pwe/pwe.py")],
     ["PlaneWaveExp.freqs", "PlaneWaveExp.eigvecs", "ft_field_xy", "get_field_xy", "get_eps_xy"])

prop("C05", "Guided modes of the effective multilayer slab",
     "For any stack of uniform layers and any in-plane wave vectors (in any order), guided_modes() returns in increasing order the frequencies of the first n_modes guided TE or TM modes, i.e. those between the light lines of the layers and of the claddings at which the fields obey the interface conditions and decay on both sides, with none missing, duplicated or spurious as long as modes are further apart than the search step. The coefficients it returns give fields that are continuous as Maxwell's equations require at every interface, decay in both claddings, and are normalised so that the integral of |H|^2 over z is one. A guided-mode expansion of a crystal without shapes has exactly these frequencies, at |k + G|, as its bands.",
     "every stack of 1..6 layers, permittivities (symmetric or asymmetric claddings, buried low- or high-index layers), wave vector, polarisation and number of modes",
     "test_guided_modes compares three structures with stored values and solves D22 = 0 with the code's own D22.",
     ["legume/gme/slab_modes.py", "legume/gme/gme.py"],
     [("guided_modes / guided_mode_given_g", "legume/gme/slab_modes.py"), ("AB_matrices, normalization_coeff", "legume/gme/slab_modes.py")],
     ["legume.guided_modes", "GuidedModeExp.freqs of uniform stacks"])

prop("C06", "Guided-mode expansion returns the bands of its documented eigenproblem",
     "GuidedModeExp.run() returns, for every k point, the numeig frequencies (omega a / 2 pi c) that are lowest (or nearest to eig_sigma) among the eigenvalues of the operator curl (1/eps) curl expressed in the normalised guided modes, of the indexes asked for (even TE, odd TM), of the effective slab at all k + G, with the inverse of the truncated permittivity matrix of eps(G - G') of every layer and cladding. This holds for both truncations of the reciprocal lattice ('abs': all |G| <= 2 pi gmax; 'tbt': the parallelogram |n_i b_i| <= 2 pi gmax), for any number of layers, patterned claddings, each choice of the effective permittivity ('average', 'background', 'custom') and k points of low or high symmetry. Frequencies are sorted, real and non-negative, and the eigenvectors returned are orthonormal.",
     "every crystal, gmax, truncation, k point, set of guided-mode indexes and effective permittivity",
     "Tests compare a handful of fixed structures with stored numbers (all with circular holes and inversion symmetry, where eps(G-G') and eps(G'-G) cannot be told apart).",
     ["legume/gme/gme.py", "legume/gme/matrix_elements.py", "legume/gme/slab_modes.py"],
     [("GuidedModeExp._construct_mat / run", "legume/gme/gme.py"), ("mat_te_te, mat_tm_tm, mat_te_tm, mat_tm_te", "legume/gme/matrix_elements.py"),
      ("_init_reciprocal_tbt / _init_reciprocal_abs, compute_eps_inv", "legume/gme/gme.py")],
     ["GuidedModeExp.freqs", "GuidedModeExp.eigvecs", "GuidedModeExp.gvec"])

prop("C07", "Guided-mode expansion obeys the symmetries of Maxwell's equations",
     "Two descriptions of the same structure give the same band frequencies and radiative losses: translated in the plane, rotated or mirrored together with the k points, turned upside down, shapes added in another order, a layer split in two of the same composition, or the lattice given by other primitive vectors (equal plane-wave sets). Scaling every permittivity by s divides the frequencies by sqrt(s); scaling all lengths by s divides frequencies, and gmax, by s; k and -k have the same frequencies.",
     "every crystal, truncation, k point and transformation (translation vector, angle, mirror line, scale, split position)",
     "Metamorphic relations between runs; no test compares two runs of transformed structures.",
     ["legume/gme/gme.py", "legume/phc/phc.py", "legume/phc/shapes.py"],
     [("GuidedModeExp.run", "legume/gme/gme.py"), ("compute_rad_sp", "legume/gme/gme.py")],
     ["GuidedModeExp.freqs", "GuidedModeExp.freqs_im"])

prop("C08", "Numerical options of the guided-mode expansion do not change the physics",
     "Options that choose how a result is computed give the same result: eig_solver 'eigh' or 'eigsh', gradients 'exact' or 'approx', gmode_compute 'interp' against 'exact' up to the interpolation error, truncations 'abs' and 'tbt' when they keep the same plane waves, use_sparse on or off, verbose on or off, one run over many k points or one run per k point, and the order of gmode_inds. numeig and eig_sigma only select which of the same set of modes is returned (the numeig nearest to eig_sigma, sorted), and only_gmodes gives the folded guided modes with the average permittivity of each layer. Options that are unknown or contradictory, and losses, fields or components of modes that were not computed or do not exist, are rejected with an exception.",
     "every crystal, k list and combination of options",
     "Tests exercise one option set per structure.",
     ["legume/gme/gme.py"],
     [("set_run_options / run", "legume/gme/gme.py"), ("compute_eps_inv", "legume/gme/gme.py")],
     ["GuidedModeExp.freqs", "GuidedModeExp.freqs_im", "GuidedModeExp.eigvecs"])

prop("C09", "Separation of modes by parity about the vertical plane",
     "For a crystal and lattice with a vertical mirror plane through the origin that contains k, a run with kz_symmetry 'both' returns the same frequencies, losses and fields as a run without, each labelled +1 or -1 by the parity of its fields under that reflection, and runs with 'even' or 'odd' return the modes of that parity only, the lowest numeig of them. Coupling to radiation respects the label: even modes radiate in TM waves only and odd modes in TE waves only along the plane of incidence. Structures or k directions without the mirror plane, or a missing angle, are rejected with an exception.",
     "every mirror-symmetric pattern on square, rectangular and hexagonal lattices, k along every mirror direction, every set of guided-mode indexes, both truncations, sparse or dense",
     "test_even_odd_separation checks one structure per lattice against stored values.",
     ["legume/gme/gme.py"],
     [("_separate_hamiltonian_dense / _sparse", "legume/gme/gme.py"), ("_calculate_refl_mat", "legume/gme/gme.py")],
     ["GuidedModeExp.freqs", "GuidedModeExp.kz_symms", "GuidedModeExp.freqs_im", "GuidedModeExp.unbalance_sp"])

prop("C10", "Radiative losses follow from the coupling to outgoing waves",
     "For every mode above a light line, the imaginary frequency is that of sqrt(omega^2 + i sum |c|^2) / 2 pi, summed over every reciprocal vector G with |k + G|^2 <= eps omega^2 in the lower and in the upper cladding and both polarisations, where each coupling c is the overlap of the mode with the scattering state that leaves the structure in that channel times the square root of its density of states. Modes without an open channel have no losses and uniform structures lose nothing; losses are never negative. compute_rad, compute_rad_sp and run_im agree with each other, the couplings returned are listed per cladding and polarisation with the reciprocal vectors they belong to, and unbalance_sp is the fraction of the losses that is TE. rad_modes() returns the scattering states of a stack: continuous as Maxwell's equations require, with the one outgoing wave, normalised, in the cladding asked for, and conserving flux.",
     "every crystal (symmetric or not, patterned claddings, several layers), k point, set of modes and truncation",
     "Losses are compared with stored values for a few inversion-symmetric structures.",
     ["legume/gme/gme.py", "legume/gme/matrix_elements.py", "legume/gme/slab_modes.py"],
     [("compute_rad_sp / compute_rad / run_im", "legume/gme/gme.py"), ("rad_modes", "legume/gme/slab_modes.py")],
     ["GuidedModeExp.freqs_im", "GuidedModeExp.rad_coup", "GuidedModeExp.rad_gvec", "GuidedModeExp.unbalance_sp", "compute_rad"])

prop("C11", "Fields of guided-mode expansion modes obey Maxwell's relations",
     "The fields returned for any mode of a run satisfy, at every height z and in the plane-wave basis, div H = 0, div D = 0, D = curl H / (i omega) with the mode's k up to the expansion, and E = D times the inverse permittivity matrix of the layer at z; H is continuous across interfaces and the integral of |H|^2 over the unit cell and all z is one (modes of one k being mutually orthogonal). get_field_xy, get_field_xz and get_field_yz return the values at the points asked for of the Fourier sum of those coefficients, agree with each other where their planes intersect and return only the components asked for.",
     "every crystal, k point, mode, height and plane, both truncations",
     "No test looks at a field.",
     ["legume/gme/gme.py"],
     [("ft_field_xy", "legume/gme/gme.py"), ("get_field_xy / get_field_xz / get_field_yz / get_eps_xy", "legume/gme/gme.py")],
     ["GuidedModeExp.ft_field_xy", "GuidedModeExp.get_field_xy", "get_field_xz", "get_field_yz", "get_eps_xy"])

prop("C12", "Results depend on the inputs of the last run only, which stay unmodified",
     "Whatever sequence of run(), run_im(), compute_rad(), field evaluations and plots preceded it on the same GuidedModeExp, PlaneWaveExp, ExcitonSchroedEq or HopfieldPol object, or on other objects that share the same crystal, a run returns exactly what a fresh object returns for the same arguments, and the attributes afterwards describe that run alone. No call modifies the arrays, lists, dictionaries, shapes, layers or crystals passed to it, and options and arguments that are left out take their documented default, not the value of an earlier run. A shape added to a layer or crystal counts from the next run of a PlaneWaveExp of that layer, and for everything made of the crystal afterwards, exactly as if it had been there from the start.",
     "every history of up to a dozen operations on shared objects with varying options, backends and k points",
     "Every test builds a fresh object and runs it once.",
     ["legume/gme/gme.py", "legume/pwe/pwe.py", "legume/exc/exc.py", "legume/pol/pol.py", "legume/backend.py"],
     [("GuidedModeExp.run resets", "legume/gme/gme.py"), ("compute_eps_inv cache", "legume/gme/gme.py"), ("HopfieldPol.run options", "legume/pol/pol.py")],
     ["attributes of the expansion objects after every operation"], over=("histories", "inputs"))

prop("C13", "The numpy and autograd backends compute the same numbers",
     "For every input, shapes, layers, guided modes, guided-mode and plane-wave expansions, radiative losses and fields have the same values with the autograd backend as with the numpy backend, also inside a differentiated function. The differentiable primitives (Hermitian eigensolvers, inverse, square root, interpolation, root finding, Toeplitz-block matrix, index extension, sparse product) return what their numpy counterparts return.",
     "every crystal, k point, option set and every argument of the primitives",
     "test_primitives checks gradients on a few random matrices; no test compares the two backends.",
     ["legume/backend.py", "legume/primitives.py", "legume/utils.py"],
     [("set_backend", "legume/backend.py"), ("*_ag primitives", "legume/primitives.py")],
     ["legume.set_backend", "legume.backend", "every simulation result"])

prop("C14", "Gradients equal the derivative of the computed quantity",
     "With the autograd backend and gradients='exact', reverse-mode gradients of any smooth function of frequencies, imaginary frequencies or plane-wave frequencies with respect to shape parameters, permittivities, layer thicknesses (and, for plane waves, k points) equal the derivative of that same function obtained by finite differences, wherever the bands involved are not degenerate. With gradients='approx' the value is unchanged and the gradient is the exact one when the average permittivity and thicknesses do not depend on the parameters. The differentiable primitives have the derivative of the function they compute, for every argument they are differentiable in.",
     "every crystal, parameter, truncation, number of layers, objective and eigensolver; every argument of the primitives",
     "test_gme_grad checks six gradients of fixed structures with loose tolerance.",
     ["legume/primitives.py", "legume/gme/gme.py", "legume/phc/shapes.py"],
     [("defvjp of the primitives", "legume/primitives.py"), ("GuidedModeExp with autograd", "legume/gme/gme.py")],
     ["autograd.grad of functions of legume results"])

prop("C15", "Excitons in a patterned quantum well: Schroedinger equation",
     "ExcitonSchroedEq.run() returns, for every k, the lowest numeig_ex energies E0 + E (real part) and the loss given for the well (imaginary part), where E are the eigenvalues of the centre-of-mass Schroedinger equation with kinetic term hbar^2 |k + G|^2 / (2 M) (G in units of 1/a) and the potential V_shapes inside the shapes of the layer that contains the well and 0 outside (the shapes are at 0 and the background at |V| when V_shapes < 0), over the same reciprocal vectors as the truncation defines. The wave functions are orthonormal eigenvectors, their real-space values are their Fourier sums with unit norm per cell, and get_pot_xy() returns the Fourier sum of the potential. Without a potential, or in a layer without shapes, the energies are those of free excitons. A well in a cladding and malformed oscillator strengths or truncations are rejected (ValueError, TypeError).",
     "every lattice, pattern (any number of shapes), potential of either sign, mass, lattice constant, k and truncation",
     "test_polariton compares two structures with stored values; the potential of more than one shape and 'tbt' potentials are untested.",
     ["legume/exc/exc.py", "legume/phc/layer.py"],
     [("ExcitonSchroedEq._construct_ham / run", "legume/exc/exc.py"), ("ShapesLayer.compute_exc_ft", "legume/phc/layer.py")],
     ["ExcitonSchroedEq.eners", "eigvecs", "get_wavef_xy", "get_pot_xy"])

prop("C16", "Polaritons: eigenvalues of the photon-exciton Hopfield matrix",
     "HopfieldPol.run() returns for every k the positive eigenvalues but the highest (the lowest N_ph + N_ex - 1 ones, sorted by real part) of the generalised Hopfield matrix built from the photon modes (complex energies; losses ignored with compute_im False) and the exciton modes of every well of the crystal, with light-matter couplings from the overlap of the mode's electric field at the well with the exciton wave function and the oscillator strength, and the diamagnetic term of the same couplings summed over all wells. Exciton and photon fractions of every polariton lie in [0, 1] and add up to one. With zero oscillator strength the polaritons are exactly the bare photons and excitons, and the result does not depend on the order of the wells or on translating the structure. A crystal without wells, wells of different lattice constants and wells in a cladding are rejected with ValueError.",
     "every crystal, set of quantum wells, oscillator strengths (vectors), k list and option set",
     "test_polariton has two structures with one well configuration and stored values.",
     ["legume/pol/pol.py", "legume/exc/exc.py", "legume/gme/gme.py"],
     [("HopfieldPol._calculate_C_D, _construct_Hopfield", "legume/pol/pol.py"), ("HopfieldPol.run", "legume/pol/pol.py")],
     ["HopfieldPol.eners", "eners_im", "fractions_ex", "fractions_ph", "eigvecs"])

prop("C17", "Optimisers minimise the objective they are given",
     "Minimize.adam and Minimize.lbfgs, started within the bounds, never evaluate the objective outside of them, return the parameters and the history of the objective values (one per epoch; the last one is the value at the returned parameters), leave the array of the start unmodified, can be used repeatedly, and pass exactly the documented arguments to the objective (the optimiser itself when pass_self is set, from the first evaluation on) and to the callback. adam follows, with the true gradient of the objective, the Adam update (bias correction, step size, betas, snapping to the bounds) for exactly the requested number of epochs; lbfgs makes at most Nepochs iterations, never increases the objective, and reaches the (bounded) minimum of a smooth convex objective. Malformed bounds raise ValueError.",
     "every dimension, start, bounds, objective of a family of smooth functions, and option set",
     "No test calls Minimize.",
     ["legume/minimize.py"],
     [("Minimize.adam, _step_adam", "legume/minimize.py"), ("Minimize.lbfgs", "legume/minimize.py")],
     ["Minimize.adam", "Minimize.lbfgs", "objective calls"])

prop("C18", "GDS export contains the geometry of the crystal",
     "generate_gds writes a file whose top cell holds, on the requested layer of each crystal layer, exactly the shapes of the crystal (circles and polygons of the right centre, size and orientation, in the requested units), and generate_gds_raster writes polygons that cover, up to the raster resolution, exactly the region of the raster selected by its levels. The number of structures, their bounding boxes and areas agree with the crystal, and the crystal itself is not changed.",
     "every crystal of circles and polygons, raster, unit, tolerance and level set",
     "No test calls the GDS export.",
     ["legume/gds.py"],
     [("generate_gds", "legume/gds.py"), ("generate_gds_raster", "legume/gds.py")],
     ["the GDS file, read back with gdspy"])

prop("C19", "Plots show the computed data",
     "The figures of legume.viz draw the data they are named after: bands() and pol_bands() the energies of every k at the abscissa asked for (index, or path length with k_units) in reduced units or eV, coloured by quality factor (clipped at Q_clip), parity (odd blue, even red) or excitonic fraction, with the light cone of the cladding of the highest index; eps(), eps_xy(), eps_xz(), eps_yz() and structure() the permittivity on the grid of the plane asked for (structure() also the wells); shapes() the outlines of all shapes of a layer and of their neighbours; eps_ft() and pot_ft() the Fourier sums of every layer; field() the components, value (real, imaginary, absolute), mode and plane asked for, with the Bloch phase when periodic=False and the outline of the permittivity; wavef() the exciton wave function; reciprocal() the reciprocal vectors. Extents, colour limits and labels belong to the data, a given axis is used, contradictory arguments raise ValueError, and plotting changes neither the simulation nor the crystal (apart from losses computed on demand).",
     "every crystal, run, plane, component and documented option of each plotting function",
     "No test draws anything.",
     ["legume/viz.py"],
     [("bands, field, structure, eps_*, pol_bands, reciprocal", "legume/viz.py")],
     ["matplotlib artists of the returned axes"])

prop("C20", "Utilities: transforms, conversions, layer lookup, scattering products",
     "The helpers that the simulations rest on compute what they are documented to compute for every input: ftinv is the Fourier sum over the distinct reciprocal vectors, grad_num and vjp_maker_num are finite-difference derivatives, toeplitz_block builds the Hermitian Toeplitz-block-Toeplitz matrix of given first rows and columns, find_nearest returns the indexes of the N nearest values, extend scatters values into zeros, fsolve returns the bracketed root, z_to_lind the layer (claddings included) at a height (the lower one at an interface), RedhefferStar the associative product of scattering matrices with the identity as neutral element, and from_freq_to_e the factor h c / (e a). Invalid input (a non-positive lattice constant) raises ValueError, unusual lattice constants warn.",
     "every argument in the documented domain",
     "Most helpers have no test of their own.",
     ["legume/utils.py", "legume/constants.py", "legume/backend.py"],
     [("functions of legume.utils", "legume/utils.py")],
     ["legume.utils", "legume.constants"])

prop("C21", "Reciprocal vectors of an expansion form the documented, complete set",
     "GuidedModeExp and ExcitonSchroedEq use, for 'abs' truncation, every reciprocal lattice vector with |G| <= 2 pi gmax exactly once and no other, and, for 'tbt' truncation, every n1 b1 + n2 b2 with |n_i b_i| <= 2 pi gmax, as does PlaneWaveExp. The permittivity that an expansion reports (get_eps_xy with any grid, at any height) is the Fourier sum, over all differences of those vectors each taken once, of the coefficients of the pattern of the layer at that height. An unknown truncation is rejected with ValueError.",
     "every lattice, obliqueness and gmax",
     "Tests use square and hexagonal lattices only, with a few gmax.",
     ["legume/gme/gme.py", "legume/pwe/pwe.py", "legume/exc/exc.py"],
     [("_init_reciprocal_tbt / _init_reciprocal_abs", "legume/gme/gme.py"), ("_init_reciprocal", "legume/pwe/pwe.py")],
     ["gvec", "get_eps_xy"])

prop("C22", "Reports and representations describe the run and never change it",
     "verbose and the print backend ('rich' or 'base') change nothing but the text printed: results are the same, a silent run prints nothing, and a reporting run announces every k point once, in order, and summarises the run it belongs to (solver, number of plane waves, guided modes, k points, eigenmodes, excitons, wells). An unknown print backend is rejected with ValueError and leaves the current one. repr() of every lattice, shape, layer, well, crystal and simulation works at any time and shows the parameters the object was given, with their units, and the options of its last run. Before the first run the results of a simulation are empty.",
     "every crystal, option set, print backend and solver",
     "No test prints anything or calls repr().",
     ["legume/print_backend.py", "legume/print_utils.py", "legume/gme/gme.py", "legume/exc/exc.py", "legume/pol/pol.py", "legume/phc/shapes.py", "legume/phc/layer.py", "legume/phc/phc.py"],
     [("GME_report, GME_im_report, ESE_report, HP_report, update_prog", "legume/print_utils.py"), ("__repr__ of every class", "legume")],
     ["standard output", "repr()", "result attributes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
