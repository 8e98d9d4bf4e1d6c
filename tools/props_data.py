RTM = "runtime monitoring: seeded workloads on the real code, online monitors against independent oracles"
RTMT = "runtime monitoring under schedule perturbation and fault injection, with independent oracles and thread/resource monitors"

prop("C01", "Linear operators are linear, have matching adjoints, and reconstruct perfectly",
     "Every transform (gradient, Laplacian, Fourier, diagonal scaling, convolution, stationary and decimated wavelets, SVD, user functions) is a linear map whose transpose is its true adjoint (for boundary conditions that admit one), and reproduces its mathematical definition. All the views of an operator - call, matrix-vector and transposed products, the transpose of the transpose, the entry-wise absolute value, the explicit matrix - describe that same map, and using one view never changes another, the operator, or its input. Wavelet, Fourier and SVD transforms reconstruct the signal they decomposed.",
     ["inputs", "configurations"],
     "every array shape (1-4 dims, even/odd/size-1 axes), axes subset, kernel, padding mode, wavelet, level and float precision",
     "The tests sample one random 10x10-ish array, one axis set, and one padding per operator; adjointness and view consistency must hold for every shape, parity, axes subset and padding.",
     ["operators.py"], [("linear operator views", "operators.py: BaseTransform"), ("transforms", "operators.py: Transform*"), ("transpose", "operators.py: BaseTransform._transpose")],
     RTM, "Sampled shapes/parameters; oracles are explicit matrices, scipy.ndimage, numpy.fft, pywt and dense SVD. Adjointness under 'edge/reflect' paddings is only demanded away from the border, where it holds by definition.")

prop("C02", "Projectors: views, angles and per-angle calls all agree with the ray transform",
     "Forward and back-projection of a parallel-beam projector equal the rotate-and-sum ray transform and its back-projection for each requested angle in the requested order, including repeated and unsorted angles, per-projection intensities and detector point-spread functions. The per-angle calls, whole-sinogram calls, transposed and matrix views agree with each other, are linear, do not depend on whether values are stored as integers or floating-point numbers, and never modify their inputs. A matrix-based projector is exactly the given (dense or sparse) matrix: forward, adjoint and absolute value.",
     ["inputs", "configurations"],
     "every square volume size, angle set (any order, repeated), intensity vector, PSF, precision, and dense or sparse matrix",
     "The projector tests need ASTRA and are skipped here; no test compares the scikit-image path with an oracle, nor the per-angle and full paths with each other.",
     ["projectors.py", "_projector_backends.py"], [("projector", "projectors.py: ProjectorUncorrected"), ("matrix projector", "projectors.py: ProjectorMatrix"), ("scikit-image backend", "_projector_backends.py: ProjectorBackendSKimage")],
     RTM, "Oracle: an independent rotate-and-sum implementation on scikit-image interpolation; ASTRA/GPU backends are not installed and not exercised.")

prop("C03", "XRF projector: attenuated projections are exact, whatever the threads do",
     "Forward projection is, for each angle, the weighted sum over detectors of the ray transform of the volume multiplied by that angle's and detector's attenuation map, and back-projection the matching transpose, with intensities, detector weights, and PSF applied to the right angle and detector. Results do not depend on the number of worker threads, their scheduling, or on other projectors or concurrent callers; worker threads are released when the projector is closed, and a failure in a worker reaches the caller. Collapsing the detectors does not change the projections.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "every volume, attenuation map set, detector count and weights, angle order, thread count and thread schedule, and worker failure",
     "Existing tests skip this projector without ASTRA; none varies the thread count, injects delays or faults, or compares with a per-angle oracle.",
     ["projectors.py"], [("XRF projector", "projectors.py: ProjectorAttenuationXRF"), ("worker threads", "projectors.py: ProjectorAttenuationXRF.fp/bp"), ("detector collapse", "projectors.py: collapse_detectors")],
     RTMT, "Thread schedules are sampled through injected delays at call boundaries and a microsecond switch interval, not enumerated.")

prop("C04", "Self-attenuation maps follow Beer-Lambert for any angle, detector, thread count",
     "The incident and emission attenuation maps equal, at each voxel, the exponential of minus the local attenuation integrated along the ray from the source (or towards the detector), for the right rotation angle and detector direction, always within (0, 1]. Each map stays associated with its angle and detector under selection, binning and projector-argument assembly, for detectors given in any supported form. Maps are the same for any number of worker threads and schedule, inputs are unchanged, and worker failures reach the caller.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "every 2D/3D attenuation volume, rotation angle set, detector direction/extent, map selection, thread count and schedule",
     "No existing test computes an attenuation map; correctness depends on angles, association across a thread pool, and selection histories.",
     ["physics/attenuation.py", "physics/xrf.py"], [("attenuation volume", "physics/attenuation.py: AttenuationVolume"), ("maps", "physics/attenuation.py: AttenuationVolume.compute_maps"), ("detectors", "physics/xrf.py: DetectorXRF")],
     RTMT, "Exact oracle at quarter turns; interpolation-tolerant ray marching elsewhere. Thread schedules are sampled.")

prop("C05", "Reconstructions honour their limits, masks and finiteness, for every solver",
     "Whatever solver, data term, regularizer, precondition, relaxation and (positive or signed, well- or ill-posed) problem, the returned volume is finite, has the shape of the model's volume, is zero outside the solution mask, and lies within the requested scalar or per-voxel lower and upper limits inside it, also when stopping early after at least one update. MLEM solutions are non-negative from non-negative starts. Filtered back-projection obeys the same limits and mask and leaves values that were within the limits unchanged; stacked slices reconstructed together equal the slices reconstructed one at a time.",
     ["inputs", "configurations"],
     "every linear model (dense, sparse, ray-transform, blur, with unseen voxels and empty rows), data, solver configuration, limits, masks, start and iteration count",
     "Constraints must hold at every stopping point for every configuration; the tests run each solver on a few friendly problems and look at the residuals.",
     ["solvers.py", "filters.py"], [("iterative solvers", "solvers.py: SART, MLEM, SIRT, PDHG, FISTA"), ("FBP", "solvers.py: FBP"), ("masks", "solvers.py: Solver._initialize_b_masks")],
     RTM, "Limits and masks are checked exactly; configurations are sampled.")

prop("C06", "Excluded data never influence a reconstruction; held-out data only score it",
     "For the iterative solvers, data entries excluded by a mask (or with zero weight) have no influence on the solution nor on the recorded residuals, and excluding data or voxels gives the same reconstruction as a model that never had them. Data held out for cross-validation influence neither the solution nor the data residuals and give the same solution as masking them, while the test residuals are computed on the held-out, non-masked, entries only. The masks themselves are never modified, and their numeric type does not matter.",
     ["inputs", "configurations"],
     "every problem, mask, held-out set, data term (including array backgrounds and weights), solver and arbitrary finite values at the excluded entries",
     "Tests use no masks with corrupted content; the guarantee is a non-interference relation between two runs, not a value on one run.",
     ["solvers.py", "data_terms.py"], [("masks", "solvers.py: Solver._initialize_b_masks"), ("solvers", "solvers.py: SART, MLEM, SIRT, PDHG, FISTA"), ("residuals", "data_terms.py: compute_residual")],
     RTM, "Differential oracle: twin runs with perturbed excluded data, and runs on the explicitly reduced matrix. FBP (which has no data mask) is excluded.")

prop("C07", "Solvers are pure: inputs untouched, no memory between calls, threads or objects",
     "Running a solver modifies none of its inputs (data, masks, limits, start, operators, user data terms, norms and regularizers remain usable elsewhere), returns a volume that shares memory with none of them, and repeats identically. The result of a call depends only on its arguments and the solver's configuration - not on earlier calls on other problems, on sharing data terms or norms between solvers and regularizers, on copying, or on solvers running concurrently in other threads. For methods without internal state (SIRT, MLEM, SART with fixed ordering), k then m more iterations equal k + m iterations, and integer data give the result of the same floating-point data.",
     ["inputs", "histories", "schedules"],
     "every history of calls on a solver object, every sharing of components, every thread schedule, and every data type",
     "State leaks need a history of at least two different calls on shared objects (or concurrent callers) to show; tests call each solver once.",
     ["solvers.py", "data_terms.py", "regularizers.py"], [("solver call", "solvers.py: Solver.__call__"), ("data-term assignment", "data_terms.py: assign_data"), ("regularizer state", "regularizers.py: initialize_sigma_tau")],
     RTMT, "Histories and schedules are sampled; concurrency is stressed through injected delays and a microsecond switch interval.")

prop("C08", "Recorded residuals are the misfits of the iterates; tolerance stops on them",
     "Each recorded residual is the data-term's misfit of the iterate it belongs to (the one entering the iteration for SIRT and MLEM, the one leaving it for SART, PDHG and FISTA), with masks, weights and backgrounds applied, the initial residual is that of the starting solution, and relative residuals are their ratio; the same holds on the held-out data, with the test data term when given. Following the residuals changes nothing in the solution. The iterations end at the first residual below the tolerance, returning the solution of that moment, all are performed otherwise, and zero iterations return the starting solution.",
     ["inputs", "configurations", "histories"],
     "every problem, solver, data term, mask, test mask and tolerance, at every iteration",
     "The tests only check that residuals decrease on one problem; off-by-one bookkeeping, wrong norms on 2D data, or mask mixing pass them.",
     ["solvers.py", "data_terms.py"], [("residual recording", "solvers.py: SolutionInfo, Solver.__call__"), ("residual norms", "data_terms.py: compute_residual, compute_residual_norm")],
     RTM, "The iterate trace is reconstructed by re-running with fewer iterations; the misfit formulas are independent of the package.")

prop("C09", "Solvers converge to the optimum of their problem, at the guaranteed rates",
     "PDHG reaches the minimum of the data term plus regularizers over the requested limits and masks, with and without preconditioning, and FISTA, SIRT and MLEM reach or approach the minimum of theirs monotonically or at their theoretical rates (O(1/k^2), O(1/k), non-increasing weighted least squares, increasing likelihood with the counts preserved). SART visits each projection exactly once per sweep with the documented row-action update, and converges on consistent tomography problems. An exact non-negative solution is a fixed point of every solver, and scaling the data scales the solution.",
     ["inputs", "configurations"],
     "every matrix-based linear problem (dense, sparse, signed, blur, ray transform), data term, regularizer, weight, limits, mask, relaxation and iteration number",
     "Optimality and rates are inequalities over all iterates of all problems; the tests run a few iterations on one phantom and only look at the residual decreasing.",
     ["solvers.py", "regularizers.py", "data_terms.py", "operators.py"], [("PDHG", "solvers.py: PDHG"), ("FISTA", "solvers.py: FISTA"), ("SIRT, MLEM, SART", "solvers.py: SIRT, MLEM, SART"), ("power iteration", "solvers.py: PDHG.power_method")],
     RTM, "Oracle: an independent ADMM solver on explicit matrices, plus convergence theory. Only matrix-based operators (exact adjoints). Multi-dimensional Laplacian regularizers have a recorded known finding.")

prop("C10", "Data-fidelity terms: misfit, proximals, gaps all describe the same function",
     "For every data term, the residual and its norm are the documented (weighted, background-corrected, masked) misfit, the dual update and dual proximal are the proximal step of its convex conjugate, and the primal proximal is related to it by Moreau's identity and minimises the misfit plus the quadratic distance. Primal-dual gaps satisfy Fenchel's inequality and vanish at optimal pairs; grouped, Huber and nuclear norms act on the right axes. Slicing a data term (by angle or pixel) is the data term of the sliced data, and inputs and the original are unchanged.",
     ["inputs", "configurations"],
     "every data term, data of any shape and type, background, weights, step sizes (scalar or per-entry), masks and slices",
     "Tests evaluate a few terms at one random vector with unit steps; scalings by array steps, backgrounds, weights, grouping and slices are never combined.",
     ["data_terms.py"], [("data terms", "data_terms.py: DataFidelityBase and subclasses"), ("proximals", "data_terms.py: apply_proximal_dual, apply_proximal_primal"), ("slicing", "data_terms.py: slice")],
     RTM, "Oracles: closed-form and numerically minimised proximals. Gaps of l2b and Huber and the grouped l12 wavelet variants are not claimed.")

prop("C11", "Regularizers and constraints apply their stated proximal with valid step sizes",
     "For each regularizer, a dual step followed by the dual proximal is the proximal step of the conjugate of weight times the norm of its transform (minus the reference volume), with scalar, array or locally zero weights and update masks, the primal update is the transform's transpose, and the reported step sizes are within the stability bound. The primal proximal used by FISTA is the one of the same function, or is refused. Limit constraints do nothing inside the limits and push back outside; regularizer instances are independent and re-initialise for each new volume.",
     ["inputs", "configurations", "histories"],
     "every regularizer, volume shape and type, weight (scalar, array, zeros), update mask, reference volume, wavelet, level, axes and padding",
     "Tests check one dual step on one random volume for six regularizers without weights, masks or references.",
     ["regularizers.py"], [("regularizers", "regularizers.py: Regularizer_*"), ("constraints", "regularizers.py: Constraint_*"), ("step sizes", "regularizers.py: initialize_sigma_tau")],
     RTM, "The known finding (steps of multi-dimensional Laplacians) is recorded because the tests pin the values; unnormalised swl objectives and non-haar dwl boundaries are not claimed.")

prop("C12", "Hyper-parameter searches evaluate each value exactly once and keep association",
     "Computing losses over hyper-parameter values initialises and reconstructs each value exactly once (once per value and fold in cross-validation), and reports each loss, reconstruction and timing at the position of its value, whichever the execution mode (serial, threads, processes, external executor) and completion order. All modes give the same results, inputs and task functions are unchanged, external executors remain open, and own worker threads terminate. A failure in any task reaches the caller and cancels the evaluations not yet started, no invented results are returned, and the tool stays usable; concurrent searches do not affect each other.",
     ["schedules", "fault_sequences", "inputs", "histories"],
     "every list of values, execution mode, number of workers, completion order, failing task and number of concurrent searches",
     "Association under out-of-order completion and failure needs controlled delays and faults; the tests run one search without asserting on individual values.",
     ["param_tuning.py"], [("task execution", "param_tuning.py: BaseParameterTuning.compute_*"), ("cross-validation", "param_tuning.py: CrossValidation"), ("L-curve", "param_tuning.py: LCurve")],
     RTMT, "Completion orders are sampled with per-task random delays; process pools with a few configurations.")

prop("C13", "Cross-validation statistics: test masks, value grids, losses and fitted minima",
     "Random and uniform test masks hold out the requested fraction, k-folds partition the data in balanced folds reproducibly, and hyper-parameter ranges cover the requested interval with the requested logarithmic density. Losses are averages over folds of the held-out misfit, for early-stopped reconstructions too, and errors and L-curve quantities follow their definitions. The fitted minimum is the vertex of the local parabola (in linear or logarithmic scale), stays within the sampled interval, and does not depend on the order or scaling of the values.",
     ["inputs", "configurations", "histories"],
     "every data shape, fraction, fold number, seed, interval, density, loss table (with constant, decreasing, unsorted and boundary minima)",
     "Tests run the pipeline end to end on one phantom without asserting the numbers; the partition and fit properties quantify over all shapes and tables.",
     ["param_tuning.py"], [("test masks", "param_tuning.py: create_random_test_mask, create_k_fold_test_masks"), ("ranges", "param_tuning.py: get_lambda_range"), ("minimum fit", "param_tuning.py: fit_loss_min"), ("losses", "param_tuning.py: CrossValidation, LCurve")],
     RTM, "Closed-form oracles; plots are only checked not to fail nor modify data.")

prop("C14", "Acquisition geometries: rigid motions, slicing, projected displacements, volumes",
     "Geometry constructors place source, detector and axes as documented, and rotating, shifting or tilting them is the corresponding rigid motion of every affected vector (and of no other), composes as such, leaves the original untouched, and commutes with selecting projections. Projecting displacements, pre-weights, scaling, and the 2D-to-3D extension follow the geometry's own vectors. Volume geometries round-trip between voxel and physical coordinates, and combining sets of shifts stacks them per projection.",
     ["inputs", "histories", "configurations"],
     "every geometry type (parallel, cone, fan), angles, tilts, shifts (scalar, vector, per-projection), scalings, volume shapes and sequences of operations",
     "The geometry tests only build default geometries and compare a few attributes, since backends that use them are not installed.",
     ["models.py"], [("projection geometry", "models.py: ProjectionGeometry"), ("volume geometry", "models.py: VolumeGeometry"), ("pre-weights", "models.py: get_prj_weights")],
     RTM, "Independent Rodrigues rotations and perspective projections; non-unit rotation axis directions are not claimed.")

prop("C15", "FBP filters are the documented linear convolutions, for any size and padding",
     "Filtering projections equals the direct linear convolution of each row with the band-limited ramp kernel times the named window (normalised by the number of angles), for any row length, padding, FFT type, and data type, without wrap-around, and independent of earlier data. Custom filters (one or many, in real or Fourier space) act as the given convolution and read back as they were set; filter bases partition or span what they document. The data-driven filter minimises the data misfit over its basis, and filtered back-projection is the back-projection of the filtered data, quantitatively recovering densities.",
     ["inputs", "configurations", "histories"],
     "every data shape (odd, even, tiny, 2-4 dims), filter, padding, FFT type, basis type and projector matrix",
     "Tests only reconstruct one phantom and check a loose error; wrap-around, odd sizes and multi-filter stacks are not covered.",
     ["filters.py", "solvers.py"], [("filters", "filters.py: Filter, FilterFBP, FilterCustom, FilterMR"), ("bases", "filters.py: create_basis, create_basis_wavelet"), ("FBP", "solvers.py: FBP")],
     RTM, "Oracle: explicit Toeplitz/circulant matrices and least squares. The hann and hamming windows are the (slightly asymmetric) ones of scikit-image.")

prop("C16", "Illumination masks and collections: sizes, generators, shifts, decompositions",
     "Mask collections keep, look up, bin and describe their masks as given (1D or 2D, any stack of them, with or without decoding masks), and refuse inconsistent ones. Generators deliver the requested number, size and transmittance of masks: every mask is the field of view of its pattern at its own shift, random shifts are within the requested interval and sequential ones scan it, and MURA patterns are exact inverses of their decoding masks for every size. QR decomposition and reordering of masks and buckets preserve the span, the association of each bucket with its mask, and the reconstructions, for buckets of single and multiple images.",
     ["inputs", "configurations", "histories"],
     "every mask stack, field of view, resolution, shift type, fraction, MURA size, bucket stack and permutation",
     "The only tests check a handful of generated shapes; algebraic identities of masks quantify over sizes and orders.",
     ["struct_illum.py"], [("collections", "struct_illum.py: MaskCollection"), ("generators", "struct_illum.py: MaskGenerator*"), ("decomposition", "struct_illum.py: decompose_qr_masks, reorder_masks")],
     RTM, "MURA: prime sizes only (as documented); QR only where the masks have two stack dimensions or more pixels than masks.")

prop("C17", "Ghost imaging and ghost tomography projectors are the matrices of their masks",
     "Ghost imaging projection computes the overlap of the image with each mask, and its back-projection the sum of the masks weighted by their buckets: exact transposes for single images and stacks, one- and two-dimensional masks, signed and encoding/decoding masks, without side effects. The quick inversions (correlation, pseudo-inverse, least squares) are what they say, and iterative solvers recover the image when the masks determine it. Ghost tomography composes the masks with the tomographic projector, for every shape of the sinogram and the buckets, and its filtered inversion is the filtered back-projection of the inverted projections.",
     ["inputs", "configurations", "histories"],
     "every mask collection, image, stack of images, projector and sequence of calls",
     "Tests only reconstruct one image from random masks up to a loose error.",
     ["struct_illum.py"], [("ghost imaging", "struct_illum.py: ProjectorGhostImaging"), ("ghost tomography", "struct_illum.py: ProjectorGhostTomography")],
     RTM, "Oracle: explicit mask matrices in double precision.")

prop("C18", "Pre-processing: flat fields, rotation, shifts, binning, backgrounds, stripes",
     "Pre-processing follows its definitions for every size (odd, even, tiny), data type and stack: flat-field correction with darks and flats (single or stacks) and linearisation, padding, cropping and (fractional) binning which preserve averages, rotations and sub-pixel shifts of each projection by its own amount (integer ones exactly). Background subtraction (margins, polynomial, SNIP) removes what it models and is invariant to what it should be, and destriping removes pure stripes and only the stripe components of the wavelet decomposition. Eigen-flats span the flats they were computed from, inputs are never modified, and invalid parameters are refused.",
     ["inputs", "configurations", "histories"],
     "every image/sinogram stack, shape, data type, axis, angle, shift, binning, margin, polynomial degree and wavelet",
     "No test of the repository covers the pre-processing module.",
     ["processing/pre.py"], [("flat-field", "pre.py: apply_flat_field, compute_eigen_flats"), ("geometry of images", "pre.py: rotate_proj_stack, shift_proj_stack, bin_imgs, pad_sinogram"), ("background", "pre.py: background_from_margin, snip"), ("stripes", "pre.py: destripe_wlf_vwu")],
     RTM, "Integer data is not claimed for polynomial margins and SNIP, nor binning without cropping of non-multiple sizes.")

prop("C19", "Masks, profiles, correlations, resolution and quality measures are as defined",
     "Circular and ball masks cover the pixels within their radius (with the documented tapers and super-sampling) for every shape, axes and offset. Azimuthal profiles, power spectra, normalised cross-correlations, template matching, centres of mass, line crossings, and Fourier ring correlations (with their thresholds and resolution) equal their definitions, for single images and stacks, and have their symmetries and invariances (peak at the true displacement, independence of scale, self-correlation of one). Error measures decompose into bias and variance, and scale/bias fits are exact and optimal; inputs are unchanged and invalid parameters refused.",
     ["inputs", "configurations"],
     "every shape (1-3 dims, odd/even/tiny), stack, offset, taper, super-sampling, displacement, curve, threshold and noise realisation",
     "No test of the repository covers these modules.",
     ["processing/misc.py", "processing/post.py"], [("masks", "misc.py: circular_mask, ball, azimuthal_integration"), ("correlations", "misc.py: norm_cross_corr, inspect_fourier_img"), ("resolution", "post.py: compute_frc, estimate_resolution"), ("quality", "post.py: com, fit_scale_bias, compute bias/variance")],
     RTM, "Oracle: loop definitions; normalised cross-correlations of stacks (normalised globally) are not claimed.")

prop("C20", "Noise statistics, simulated acquisitions and denoising",
     "Variances of Poisson counts, of their ratio to a reference and of transmission images follow the propagation of uncertainties (as confirmed by simulations), and variance weights are finite, decreasing with the variance, normalised and null outside of the mask, for every mask, percentile and option. Simulated sinograms are the projections (with point-spread function and attenuation) scaled by flux, time and efficiency, with noise of the requested statistics. Denoising solves the documented regularised problem with the given point-spread function, weights and bounds, and with multiple weights it selects the minimum of the cross-validation loss.",
     ["inputs", "configurations", "histories"],
     "every intensity, reference, variance, mask, percentile, image, point-spread function, regularizer, weight and noise model",
     "No test of the repository covers noise statistics; denoisers are only run on one image.",
     ["processing/noise.py", "denoisers.py", "testing.py"], [("variances", "noise.py: compute_variance_*"), ("simulations", "testing.py: add_noise, create_sino"), ("denoising", "denoisers.py: denoise_image")],
     RTM, "Statistical monitors use 7-sigma bounds with fixed seeds.")

prop("C21", "Physics: units, compounds, lines, materials, beam profiles, propagation filters",
     "Units and photon energies convert consistently and invertibly. Attenuation, phase shift, fluorescence and Compton production of material volumes are the linear superposition over voxels and compounds of the elemental cross sections times density and voxel size (and detector coverage), with line selections and average energies as requested, and without modifying volumes nor compounds. Beam profiles are normalised, symmetric integrals of the beam over the pixels, and propagation filters have the documented Fourier response for every shape, which phase retrieval inverts on images and stacks.",
     ["inputs", "configurations", "histories"],
     "every compound, density, element, line, energy, volume, detector, beam shape, image shape (odd/even), stack and filter",
     "No test of the repository covers the physics modules.",
     ["physics/__init__.py", "physics/units.py", "physics/xraylib_helper.py", "physics/xrf.py", "physics/materials.py", "physics/attenuation.py", "physics/phase.py", "testing.py"],
     [("units", "units.py"), ("materials", "materials.py: VolumeMaterial"), ("lines", "xrf.py: LinesSiegbahn, get_energy"), ("attenuation coefficients", "attenuation.py: get_linear_attenuation_coefficient"), ("propagation", "phase.py: get_propagation_filter, apply_propagation_filter"), ("beam", "physics/__init__.py: pencil_beam_profile")],
     RTM, "xraylib is the reference for elemental data. The default density of compounds is the documented approximation; solid angles are fractions of the full sphere (as coded).")

prop("C22", "Alignment fits recover displacements, extrema, rotations, sinusoids and ellipses",
     "Shift fits (absolute differences and cross-correlation of lines, images and volumes, for every size, stacking axis, padding, normalisation and FFT type) return exactly the integer displacements, and the sub-pixel ones within the accuracy of the peak interpolation, each image independently. Sub-pixel refinements and parabola fits return the vertex of the sampled parabola, at the requested precision, refusing or falling back to the measured minimum when it is not inside of the range. Rotation, scale, camera tilt, sinusoid and ellipse fits recover the parameters of data that follows the model, l1 fits never have a larger l1 error than the l2 ones, and inputs are unchanged.",
     ["inputs", "configurations"],
     "every image/volume stack (odd/even/tiny sizes), displacement, axis, padding, parabola, angle set and conic",
     "Tests check single images and a few hand-written curves; sizes, axes and orders of the data are not covered.",
     ["alignment/fitting.py"], [("shifts", "fitting.py: fit_shifts_u_sad, fit_shifts_vu_xc, fit_shifts_zyx_xc"), ("refinement", "fitting.py: refine_max_position_1d/2d, fit_parabola_min"), ("images", "fitting.py: fit_image_rotation_and_scale, fit_camera_tilt_angle"), ("curves", "fitting.py: fit_sinusoid, fit_ellipse*")],
     RTM, "Rotation and scale are judged on the median over several images: the phase correlation locks on the pixel grid for some.")

prop("C23", "Detector shifts, rotation axis, centering, cone-beam calibration and markers",
     "Detector shifts (pre-alignment and cross-correlation) compensate the displacements of the projections, minus the best sinusoid whose bias is the centre of rotation, for 2D/3D data, several detectors, any order of the angles, borders, masks, backgrounds and maximum shifts. Volume centering adds the projected displacement of the volume to the shifts. Cone-beam geometries describe the requested acquisition, convert to JSON and back, are recovered from the projected ellipses of a calibration object, and tuned parameter by parameter to the minimum residual; fiducial markers are located at their pixel positions.",
     ["inputs", "configurations", "histories"],
     "every stack of projections, angle order, object, volume, cone-beam geometry, marker and stacking axis",
     "Tests cover single default data sets; angle orders, sizes, and 2D/3D variants are not covered, and the calibration is only compared with stored values.",
     ["alignment/shifts.py", "alignment/centering.py", "alignment/cone_beam.py", "alignment/markers.py"], [("shifts", "shifts.py: DetectorShiftsPRE, DetectorShiftsXC"), ("centering", "centering.py: RecenterVolume"), ("cone-beam", "cone_beam.py: ConeBeamGeometry, FitConeBeamGeometry, tune_acquisition_geometry"), ("markers", "markers.py")],
     RTM, "Calibration is exact without detector tilts and approximate with them (rounded centres); tuning is observed with stand-ins of the (absent) 3D projector and solver.")
prop("C24", "Calls mean the same however written: defaults, layouts, types, repetition",
     "For every public function, operator, projector, solver, data term and regularizer: leaving an option out is the same as passing its documented default; equivalent specifications (a data term by name or object, a regularizer alone or in a list) are interchangeable; results depend on the values of array arguments only, not on their memory layout (C or Fortran order, views with steps or reversed axes) nor on whether they are writeable; integer-valued data give the same results whether stored as integers (where the type is accepted) or as floating-point numbers; arguments are not modified; and the same call made twice returns the same result.",
     ["inputs", "configurations"],
     "every public entry point, every argument value, and every memory layout of its arrays",
     "Tests call each function with one layout (fresh C-contiguous arrays) and mostly with explicit options.",
     ["processing/", "alignment/", "physics/", "operators.py", "solvers.py", "regularizers.py", "data_terms.py", "projectors.py", "filters.py", "models.py", "param_tuning.py", "struct_illum.py", "testing.py", "denoisers.py"], [("defaults", "signatures and documentation of the public functions"), ("layouts", "numpy.reshape/ravel/in-place operations on arguments")],
     RTM, "Options whose documentation disagrees with the signature (listed in DESIGN.md) are left out; scikit-image's compiled routines refuse read-only volumes, which is counted and not judged.")

prop("C25", "Objects have no hidden memory: history, copies, callers' arrays, threads",
     "For every stateful public object (operators, projectors, filters, data terms, regularizers, solvers, parameter tuning, geometries, attenuation volumes, materials, mask generators and collections, ghost imaging, alignment): the result of a method is a function of the values given at construction and of the arguments of the call. Earlier calls of any method (with data of other values or sizes), other objects of the same kind, and overwriting results that were returned or the arrays passed as arguments have no effect; neither has overwriting the arrays given to the constructor, where the object takes its own copy, and results do not share memory with the arguments. Copies and pickles answer as the original does and do not affect it, and operators, projectors, filters, geometries, materials and alignment objects shared by several threads (filters: with data of one size) give each caller the result of a call on its own.",
     ["histories", "interleavings of callers", "configurations"],
     "every sequence and interleaving of method calls on shared objects",
     "Tests build a new object for every call, and never look at results, arguments or the object afterwards.",
     ["operators.py", "projectors.py", "filters.py", "data_terms.py", "regularizers.py", "solvers.py", "param_tuning.py", "models.py", "alignment/", "physics/", "struct_illum.py"], [("caches", "filters.Filter.fbp_filter, operators.TransformSVD.U/Vt, regularizers.*.initialize_sigma_tau, data_terms.*.assign_data"), ("copies", "constructors: numpy.array(...) of the arguments; models.ProjectionGeometry.copy/rotate/get_3d/__getitem__")],
     RTM, "References kept by design are left out of the constructor part (the matrix of ProjectorMatrix, the maps of ProjectorAttenuationXRF, volumes of an attenuation before computing the maps, masks of a collection, update masks and limits of regularizers).")

