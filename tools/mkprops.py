"""Regenerates /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json, os
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=state
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

RM="RMutils/util_RM.py"; MI="RMutils/util_misc.py"
add("C01","RM synthesis is the weighted Fourier transform of the complex spectrum",
"For every set of Stokes Q/U spectra (1, 2 or 3 dimensional, channels first), channel wavelengths in any order, non-negative weights and any list of Faraday depths (symmetric or not, regular or not), the Faraday dispersion function returned at each requested depth phi equals (sum of w*(Q+iU)*exp(-2i*phi*(lambda^2-lambda0^2))) / (sum of w) for each pixel. The reference lambda0^2 is the caller's value if given and otherwise the weighted mean of lambda^2 over usable channels; spatial shape is preserved up to dropped length-1 axes, and all-zero or empty spectra give NaN. The same holds for the prototype routines that take a weight for every voxel, with a reference lambda0^2 per pixel. Consequently it is linear in the data and unchanged when all weights are multiplied by a constant.",
["inputs","configurations"],"all data arrays, channel layouts, weights, Faraday-depth lists, reference wavelengths, precisions",
"tests/nufft_test.py compares one regular, symmetric grid with one simulated source; QA_test checks a few scalars of one source. Arbitrary depth lists, channel order, weights, dimensionality are never varied.",
[RM,"RMtools_3D/do_RMsynth_3D.py","RMtools_1D/do_RMsynth_1D.py"],[("do_rmsynth_planes NUFFT",RM)],["return value of the RM-synthesis routine"])
add("C02","Flagged (NaN) channels and voxels behave as if they were not there",
"A channel whose Stokes Q or U (or weight) is NaN, in either or both, contributes nothing: the FDF, RMSF, reference wavelength, theoretical noise, channel count and frequency extent are those obtained by deleting that channel from the input, on the same Faraday-depth grid. A voxel flagged in only some pixels of a cube changes only those pixels, each of which is normalised by its own remaining weights; a fully flagged pixel is NaN.",
["inputs","configurations"],"all flag patterns (whole channels, single voxels, Q only, U only, NaN weights, zero weights), in 1D pipelines and cubes",
"Existing tests contain no NaN at all.",
[RM,"RMtools_1D/do_RMsynth_1D.py","RMtools_3D/do_RMsynth_3D.py"],[("NaN mask and per-pixel K normalisation",RM),("RMSF mask argument",RM),("noise and N_channels bookkeeping","RMtools_1D/do_RMsynth_1D.py")],["FDF/RMSF arrays","1D result dictionary"])
add("C03","The RMSF is the response of RM synthesis to a unit point source",
"For any channel layout, weights, mask and depth grid, the RM spread function equals the normalised weighted sum of exp(-2i*phi*(lambda^2-lambda0^2)) on a depth grid of the same spacing extended on both sides to about double length (or the original grid when no extension is requested); it is 1 at phi=0, its modulus never exceeds 1, and it is conjugate-symmetric. The FDF of a unit Faraday-thin source at depth phi0 equals the RMSF shifted to phi0 up to the source's phase. The reported width is 3.8/(lambda^2 range), or, when a fit is requested and succeeds, the FWHM of a Gaussian fitted to the main lobe. The same holds per pixel for the prototype routine that takes a weight for every voxel (whose unfitted width is the older 2*sqrt(3)/(lambda^2 range)).",
["inputs","configurations"],"all layouts, weights, 1/2/3D masks (uniform or per-voxel), grids, fit options",
"One test compares the RMSF with an older implementation for one case; per-voxel masks, irregular layouts and width fits are not exercised.",
[RM,"RMtools_1D/calculate_RMSF.py"],[("get_rmsf_planes (direct and NUFFT branches)",RM),("fit_rmsf / detect_peak",RM)],["RMSF arrays, width and status"])
add("C04","RM-CLEAN conserves the spectrum: dirty = residual + components * RMSF",
"For every dirty FDF (1-3D), RMSF, cutoff, gain, iteration limit and pixel mask, the dirty spectrum equals the residual plus the sum over clean components of each component times the RMSF shifted to its depth, and the restored spectrum equals the residual plus each component convolved with a unit-peak Gaussian of the RMSF width. Components are non-zero only in pixels whose spectrum exceeds the cutoff, and untouched pixels come back with residual equal to the input.",
["inputs","configurations"],"all spectra, RMSFs, widths (scalar or per pixel), cutoffs, gains, iteration limits, dimensionalities, window settings",
"QA tests compare a couple of scalars of the cleaned output of one source; the conservation identity is never checked.",
[RM,"RMtools_1D/do_RMclean_1D.py","RMtools_3D/do_RMclean_3D.py"],[("do_rmclean_hogbom / RMcleaner loop",RM)],["clean FDF, components, iteration counts and residual returned by RM-CLEAN"])
add("C05","RM-CLEAN stops where it should and does not depend on how work is split",
"A cleaned pixel stops either with no residual sample above the cutoff (within the searched region) or after exactly the allowed number of iterations; each iteration subtracts gain times the current strongest sample, and with gain in (0,1] on a valid RMSF the residual peak of an isolated source falls geometrically. Results for a pixel (spectra, components, iteration counts) are the same whether it is cleaned alone, in a cube, serially, with any chunk size, or with a multiprocessing pool, and whatever its neighbours contain, including NaN spectra.",
["inputs","schedules","configurations"],"all spectra, cutoffs, gains, iteration limits, windows, pool kinds and chunk sizes",
"Tests run one cube serially with one cutoff.",
[RM,"RMtools_3D/do_RMclean_3D.py"],[("RMcleaner.cleanloop",RM),("pool.map dispatch",RM)],["residual, component and iteration-count arrays"])
add("C06","Cube tools treat every pixel independently and agree with the 1D tools",
"Running cube RM-synthesis (and cube RM-CLEAN) gives at each pixel the same FDF, RMSF, peak and clean results as running the 1D routines on that pixel's spectrum with the same grid and weights. Permuting, cropping or tiling the sky axes permutes, crops or tiles the output; changing one pixel changes no other pixel. Dividing by a supplied Stokes I model and rescaling at the reference frequency is the same per-pixel operation.",
["inputs","configurations"],"all cube shapes (including single row, column, pixel), contents, flags, Stokes I model cubes, weights/noise vectors",
"Tests run one cube with one source; degenerate shapes, flags and Stokes I model cubes are never used.",
["RMtools_3D/do_RMsynth_3D.py","RMtools_3D/do_RMclean_3D.py",RM],[("3D run_rmsynth","RMtools_3D/do_RMsynth_3D.py"),("3D run_rmclean","RMtools_3D/do_RMclean_3D.py")],["arrays returned by the cube tools"])
add("C07","The 1D pipeline recovers the parameters of a Faraday-thin source",
"For any noise-free Faraday-thin source whose depth lies inside the sampled range, 1D RM-synthesis reports its Faraday depth, derotated intrinsic angle (mod 180 degrees), polarised intensity at the reference frequency and fractional polarisation, within the interpolation error of the depth grid; with noise, within a few of its own quoted uncertainties. Rotating Q/U rotates only the angles; adding a Faraday screen shifts only depth; scaling all intensities scales only intensity-valued outputs; conjugating U negates depth and angle.",
["inputs","configurations"],"all depths, angles, fractional polarisations, spectral indices, channel layouts, weights, noise levels, with and without Stokes I",
"QA tests check one source.",
["RMtools_1D/do_RMsynth_1D.py",RM,MI],[("run_rmsynth 1D","RMtools_1D/do_RMsynth_1D.py"),("measure_FDF_parms",RM)],["1D result dictionary and arrays"])
add("C08","Peak measurements follow their published formulas",
"For any FDF with an interior peak, the reported peak depth and amplitude are the vertex of the parabola through the highest sample and its neighbours; S/N is amplitude over noise; the bias-corrected amplitude is sqrt(A^2-2.3 sigma^2) when S/N is at least the threshold and A otherwise. The angle is half the argument at the peak in [0,180), the derotated angle is the angle minus depth times lambda0^2 mod 180, and the quoted errors on amplitude, depth, angle and derotated angle obey the published error formulas; the observed errors of RM-CLEAN are the theoretical ones times measured over theoretical noise. A peak on the edge or a NaN spectrum yields NaN or channel values rather than a fabricated fit.",
["inputs"],"all FDFs, grids, noise levels, reference wavelengths, wavelength sets",
"Only compared for one source.",
[RM,MI],[("measure_FDF_parms",RM),("calc_parabola_vertex",MI)],["measurement dictionary"])
add("C09","The Stokes I fit returns the least-squares polynomial of the right order",
"For data generated from a polynomial (linear, or in log10 of frequency) of order at most five, the fit reproduces the spectrum and the reported errors are those of weighted least squares; its chi-square, reduced chi-square, degrees of freedom and AIC match the returned parameters and the valid channels only. Automatic order selection returns the first order beyond which AIC does not improve significantly and never exceeds the requested maximum. Channels that are NaN are ignored, and models that go negative or below the noise are flagged.",
["inputs","configurations"],"all spectra, errors, orders 0-5 (and negative = automatic), both fitting functions, NaN patterns, frequency layouts",
"Existing test fits a handful of fixed spectra for crash detection only.",
[MI],[("fit_StokesI_model",MI),("fit_spec_poly5 / mpfit",MI)],["fit result record, model spectrum"])
add("C10","Re-referencing a Stokes I model changes its description, not the model",
"Converting a fitted Stokes I model to another reference frequency leaves the modelled flux unchanged at every frequency, for both fitting functions, and going to a third frequency directly or via a second one, or there and back, gives the same coefficients. The coefficient errors and covariance are those obtained by linear propagation of the original covariance through the change of variables.",
["inputs"],"all coefficient sets, covariance matrices, reference frequencies, both fitting functions",
"No test calls it on general coefficients or inspects errors.",
[MI,"RMtools_3D/rescale_I_model_3D.py"],[("renormalize_StokesI_model",MI),("calculate_StokesI_model",MI)],["fit result record"])
add("C11","Fractional spectra divide Q and U by the Stokes I model consistently",
"Fractional Q and U and their errors equal the inputs divided by the Stokes I model, with non-finite results flagged NaN; multiplying I, Q, U and their errors by a constant leaves the fractional spectra unchanged, and a supplied model is used exactly as given. If the fit fails with an error the model falls back to unity and is marked as failed; without a single valid Stokes I channel the result is blank rather than a number. The fit status says when the model is negative (+128) or below the channel error (+64) somewhere.",
["inputs","configurations"],"all spectra, orders, functions, supplied models, zero and negative intensities",
"Only exercised on one clean spectrum.",
[MI],[("create_frac_spectra",MI)],["returned arrays and fit status"])
add("C12","Splitting a cube into chunks and reassembling it is lossless",
"For every image or cube (2 to 4 axes) and any chunk size, the chunk files cover every pixel exactly once and in order, and assembling them (from chunk files of the same or of a derived product with a different number of planes) reproduces each pixel's spectrum at its original position with the original sky header and the spectral axis of the product. This includes chunk sizes equal to or greater than the number of pixels and sizes that do not divide it.",
["inputs","configurations"],"all shapes, chunk sizes, header layouts, file prefixes",
"One test splits one cube with one chunk size and only checks that it runs.",
["RMtools_3D/create_chunks.py","RMtools_3D/assemble_chunks.py"],[("create_chunks main","RMtools_3D/create_chunks.py"),("assemble_chunks main","RMtools_3D/assemble_chunks.py")],["files written"])
add("C13","Region extraction returns the requested pixels with correct coordinates",
"Extracting a box from an image or cube returns exactly the pixels of the box, inclusive of both ends in the one-based convention, with -1 meaning the axis limit, for any header dimensionality and optional plane range, and every extracted pixel keeps the sky and spectral coordinate it had in the original. A box reaching over the edge is cut at the edge; boxes that are empty or entirely outside the image are refused.",
["inputs","configurations"],"all image/cube shapes, boxes, plane ranges and headers",
"One test extracts one region and only checks that it runs.",
["RMtools_3D/extract_region.py"],[("extract_region main","RMtools_3D/extract_region.py")],["output FITS file"])
add("C14","Frequency and Faraday-depth axes are reconstructed exactly from headers",
"The channel frequencies (or Faraday depths) computed from a FITS header equal reference value + (pixel - reference pixel) * increment for every channel, one value per plane, for any axis position, negative increments, fractional reference pixels and any header with or without degenerate axes; a saved frequency file holds the same values. The spectral axis is found by its type wherever it is, and its absence is reported.",
["inputs","configurations"],"all headers: axis order, sign and size of increments, number of channels",
"One header is used.",
["RMtools_3D/make_freq_file.py",RM,"RMtools_3D/do_RMsynth_3D.py","RMtools_3D/do_RMclean_3D.py"],[("get_freq_array","RMtools_3D/make_freq_file.py"),("fits_make_lin_axis",RM),("find_freq_axis","RMtools_3D/do_RMsynth_3D.py")],["returned arrays, frequency file"])
add("C15","Cube products written to FITS read back as the same data",
"FDF, RMSF, clean, residual and component cubes and maps written by the cube tools, in one file or separate files and for 2-4 axis inputs with the frequency axis anywhere, read back with the same values at the same sky position, a Faraday-depth axis that reproduces the sampled depths, and Stokes/units labels; the follow-on tool reading them recovers the same arrays. The sky coordinates of every pixel are those of the input cube, and file or directory names do not affect the result.",
["inputs","configurations"],"all cube shapes, axis orders, headers, prefixes, output modes",
"Tests run one header layout and compare a few values.",
["RMtools_3D/do_RMsynth_3D.py","RMtools_3D/do_RMclean_3D.py"],[("writefits","RMtools_3D/do_RMsynth_3D.py"),("writefits","RMtools_3D/do_RMclean_3D.py"),("read_FDF_cubes","RMtools_3D/do_RMclean_3D.py"),("readFitsCube","RMtools_3D/do_RMsynth_3D.py")],["FITS files"])
add("C16","1D products saved to disk read back as the same data",
"Spectra, FDF, RMSF, weights and result dictionaries saved by the 1D tools read back equal to what was in memory (to the precision written), and 1D RM-CLEAN run from the saved files gives the same results as run on the in-memory results. Input spectra with 5 or 7 columns are read in the documented column order.",
["inputs","configurations"],"all result arrays and dictionaries, precisions, column layouts, file prefixes",
"Tests only check that the pipeline runs once end to end.",
["RMtools_1D/do_RMsynth_1D.py","RMtools_1D/do_RMclean_1D.py"],[("saveOutput/readFile","RMtools_1D/do_RMsynth_1D.py"),("saveOutput/readFiles","RMtools_1D/do_RMclean_1D.py")],["ASCII and JSON files"])
add("C17","Each QU-fitting model computes the polarisation it documents",
"Every supplied QU-fitting model returns, for any parameters within its priors and any wavelengths, the complex polarisation given by its cited physical formula: thin screens, Burn external dispersion, Burn slabs, internal dispersion with optional foreground, and sums of two or three of them. They are periodic in angle with period 180 degrees, reduce to the simple screen as their dispersion or width parameters vanish, never exceed the (summed) intrinsic fraction, and their prior constraints admit exactly ordered depths and summed fractions of at most one.",
["inputs"],"all parameter vectors within priors and all wavelength vectors, all models",
"The QU-fitting test cannot fit anything in this environment and so never evaluates a model.",
["RMtools_1D/models_ns"],[("model()","RMtools_1D/models_ns/m1.py"),("model()","RMtools_1D/models_ns/m7.py")],["model return value, prior evaluation"])
add("C18","QU-fitting likelihood, statistics and recovery are self-consistent",
"The log-likelihood differs between two parameter sets by minus half the difference of their chi-square over unflagged channels, and the reported chi-square, degrees of freedom, AIC, AICc and BIC follow their definitions from the best likelihood, number of free parameters and number of data. Fitting a spectrum generated from a model recovers its parameters within the quoted uncertainties with angles reported in [0,180), and the saved result files agree with each other.",
["inputs","configurations"],"all spectra, models, parameters, NaN patterns, samplers available offline",
"The existing QU-fit test exercises no fit.",
["RMtools_1D/do_QUfit_1D_mnest.py"],[("lnlike_call","RMtools_1D/do_QUfit_1D_mnest.py"),("run_qufit statistics","RMtools_1D/do_QUfit_1D_mnest.py")],["likelihood object, result JSON/.dat"])
add("C19","Bandwidth-depolarisation tools model the channel-averaged polarisation",
"The channel-averaged rotation factor equals the numerical average of exp(2i*phi*lambda^2) over the channel's frequency width for any channel and Faraday depth of either sign, tends to the monochromatic value for narrow channels, and never exceeds 1 in modulus. The theoretical sensitivity and noise curves are the weighted averages of its square, and the corrected 1D RM synthesis returns depth, amplitude (sensitivity-corrected), angle and fractional polarisation of a simulated channel-averaged source for all supported input column layouts, with and without Stokes I.",
["inputs","configurations"],"all channel layouts, widths, depths, weights, column layouts",
"Tests only run the command-line tool once on 7 columns and check that it ends.",
["RMtools_1D/rmtools_bwdepol.py","RMtools_1D/rmtools_bwpredict.py"],[("rotation_operator","RMtools_1D/rmtools_bwdepol.py"),("do_adjoint_rmsynth_planes","RMtools_1D/rmtools_bwdepol.py"),("run_adjoint_rmsynth","RMtools_1D/rmtools_bwdepol.py")],["returned arrays and dictionary"])
add("C20","Synthetic data generators produce the catalogue sources they describe",
"With noise off, the generated 1D spectra and cubes equal the analytic model of each catalogue entry: power-law Stokes I about the reference frequency, thin or Burn-depolarised components (depolarisation exp(-2 sigma^2 lambda^4)), or differential-rotation layers, at the catalogue position with the stated beam. Adding entries adds their spectra, and flagged frequency ranges are NaN.",
["inputs","configurations"],"all catalogues, frequency layouts, beams, positions",
"Tests run the generators once on a fixed catalogue without inspecting values.",
[MI,"RMtools_1D/mk_test_ascii_data.py","RMtools_3D/mk_test_cube_data.py"],[("create_pqu_spectra_burn / diff",MI),("create_IQU_ascii_data","RMtools_1D/mk_test_ascii_data.py"),("create_IQU_cube_data","RMtools_3D/mk_test_cube_data.py")],["written spectra and cubes"])
add("C21","Complexity metrics measure excess scatter about the best thin model",
"The residual spectra used for complexity are the observed fractional spectra minus the thin-source model at the measured depth and angle; the additional-scatter estimate is the median of its normalised posterior on its grid, with the 16 and 84 per cent points as errors, close to zero for pure noise of the stated size, close to the injected scatter otherwise, invariant under changing sign and scaling with the data. The second-moment complexity of clean components equals the amplitude-weighted standard deviation of their depths, and the probability arrays are normalised.",
["inputs"],"all residual sets, errors, NaN patterns, component sets",
"Only one value is compared for one source.",
[RM,MI],[("calc_sigma_add / measure_qu_complexity",RM),("measure_fdf_complexity / calc_mom2_FDF",RM)],["metric dictionaries"])
add("C22","Cube peak-fitting products equal the 1D measurement of each pixel",
"Maps produced by fitting peaks of an FDF cube hold, for every pixel, exactly what the 1D peak measurement gives on that pixel's spectrum, noise and width, with NaN spectra giving NaN; maximum-amplitude maps give the maximum modulus and its depth at every pixel. The maps written to FITS carry the sky coordinates of the cube and the value of the named quantity.",
["inputs","configurations"],"all FDF cubes, shapes, flags, Stokes I model cubes and product lists",
"One test runs the tool and checks that it ends.",
["RMtools_3D/RMpeakfit_3D.py","RMtools_3D/do_RMsynth_3D.py"],[("pixelwise_peak_fitting","RMtools_3D/RMpeakfit_3D.py"),("create_peak_maps","RMtools_3D/do_RMsynth_3D.py"),("save_maps","RMtools_3D/RMpeakfit_3D.py")],["map arrays and FITS files"])
add("C23","Cube Stokes I fitting and re-referencing equal the 1D operations per pixel",
"Fitting a Stokes I cube gives at every pixel above threshold the coefficients, errors, model spectrum, reference frequency and covariance that the 1D fit gives for that spectrum, with other pixels blank, and the written maps and model cube hold those values at those pixels with the input sky coordinates. Re-referencing the coefficient maps to a (per-pixel) frequency gives at every pixel the 1D re-referenced coefficients, errors and the same model flux.",
["inputs","configurations"],"all cubes, shapes, thresholds, orders, functions, reference maps, flag patterns",
"Tests run each tool once on one cube without inspecting values.",
["RMtools_3D/do_fitIcube.py","RMtools_3D/rescale_I_model_3D.py"],[("make_model_I","RMtools_3D/do_fitIcube.py"),("rescale_I_model_3D","RMtools_3D/rescale_I_model_3D.py")],["coefficient maps, model cube"])
add("C24","The tools neither modify their inputs nor depend on hidden state",
"Calling any of the array-level routines leaves every array, list and dictionary passed in unchanged (values and types), and calling it again with the same input, in any order relative to other calls, gives the same result. Verbose, logging and plotting-off options do not change numerical results.",
["inputs","histories","configurations"],"all sequences of calls with shared inputs",
"Tests call each routine once with fresh inputs.",
[RM,MI,"RMtools_1D/do_RMsynth_1D.py","RMtools_1D/do_RMclean_1D.py","RMtools_3D/do_RMsynth_3D.py"],[("copies of data and weights",RM)],["inputs after call, outputs of repeated calls"])
add("C25","Super-resolution mode is RM synthesis referenced to zero wavelength",
"With super-resolution the reference wavelength is exactly zero, the FDF and RMSF are the same transforms referenced to it (so differ from the standard ones only by the phase exp(2i*phi*lambda0^2)), the width is fitted to the real part of the RMSF, angles need no derotation, and clean results obey the same conservation laws. It works with fitted, absent or supplied Stokes I models, and the reported flux scale refers to the stated reference frequency.",
["inputs","configurations"],"all spectra, layouts, Stokes I options, 1D and cube",
"No test uses the option.",
["RMtools_1D/do_RMsynth_1D.py","RMtools_3D/do_RMsynth_3D.py",RM],[("super_resolution branches","RMtools_1D/do_RMsynth_1D.py"),("fitRMSFreal",RM)],["result dictionary and arrays"])
add("C26","Clean components predict the Stokes Q and U they were derived from",
"The Q/U spectrum predicted from clean components is the sum over components of their complex amplitude times exp(2i*phi*(lambda^2-lambda0^2)) times the Stokes I model divided by its value at the reference frequency (the components being in flux units there), so feeding it back to RM synthesis reproduces the component-convolved FDF. Model files hold frequency, I, Q and U in that order, and reading them back from the saved 1D products uses the same reference wavelength and Stokes I model.",
["inputs"],"all component sets, frequency lists, reference wavelengths, Stokes I models",
"No test runs this tool.",
["RMtools_1D/clean_model.py"],[("calculate_QU_model","RMtools_1D/clean_model.py")],["returned arrays, model file"])
add("C27","The RMSF report prints the true properties of the RMSF",
"For any channel list (from a file with or without weights, a separate weight file, or start/stop/step) the reported theoretical and fitted widths, largest scale pi/lambda_min^2, maximum depth sqrt(3)/median channel spacing in lambda^2 and first-sidelobe position and level are those of the RMSF for exactly those channels and weights. Weight files of the wrong length are refused.",
["inputs","configurations"],"all channel lists, weights and options",
"One test runs the tool and checks that it ends.",
["RMtools_1D/calculate_RMSF.py"],[("determine_RMSF_parameters","RMtools_1D/calculate_RMSF.py")],["standard output"])
add("C28","Robust statistics and interpolation helpers follow their definitions",
"Median-absolute-deviation, NaN-aware mean/median/standard deviation, summary statistics, parabola vertex, linear extrapolation, image interpolation, percentile of a cumulative distribution, polynomial and log-polynomial evaluation, second moments and the extent of a symmetric peak equal their textbook definitions for every input, ignore NaN and Inf entries where they say so, are invariant to element order, and scale/shift with the data. Text helpers (catalogue rows, configuration files, repeated blocks, sexagesimal angles, natural sort) parse back what was written.",
["inputs"],"all arrays and strings accepted",
"None of these helpers has a test.",
[MI,RM],[("MAD, calc_stats, nanmean, extrap, calc_parabola_vertex, interp_images",MI),("cdf_percentile",RM)],["return values"])
add("C29","FITS helpers keep the right axes, pixels and coordinates",
"Stripping degenerate axes, cutting sub-images, describing a header's coordinate system and creating simple image headers keep exactly the data planes and world coordinates they document: stripped data and header agree in shape, a sub-image has the same sky coordinates and pixel values as the parent inside its box, and a created image has the requested centre, scale, beam and frequency axis. One-dimensional spectra extracted from cubes at a pixel or sky position are those of that pixel.",
["inputs","configurations"],"all header layouts, shapes, positions and radii",
"No test inspects them.",
["RMutils/util_FITS.py","RMtools_1D/do_RMsynth_1D_fromFITS.py"],[("strip_fits_dims, get_subfits, create_simple_fits_hdu","RMutils/util_FITS.py"),("pixel extraction","RMtools_1D/do_RMsynth_1D_fromFITS.py")],["returned data and headers"])
add("C30","Quoted noise levels and errors are the propagated scatter of the data",
"The theoretical noise of a 1D FDF, and the errors quoted for the amplitude, Faraday depth and both polarization angles of a bright peak, are what the declared errors of the unflagged channels propagate to through the tool itself: for both weightings, every error spectrum, flags, any Stokes I spectrum (steep, supplied, negative) and in super-resolution, for ordinary and for bandwidth-depolarization-corrected synthesis. Depth and angle errors, which the tools define by the analytic formulas for evenly spread channels, agree with the propagated ones to their accuracy.",
["inputs","configurations"],"all channel layouts, error spectra, Stokes I models, weightings and flags",
"Tests compare a few numbers with stored values of the same code for one spectrum with flat Stokes I.",
["RMtools_1D/do_RMsynth_1D.py","RMtools_1D/rmtools_bwdepol.py","RMutils/util_RM.py"],[("dFDFth","RMtools_1D/do_RMsynth_1D.py"),("adjoint_noise","RMtools_1D/rmtools_bwdepol.py"),("peak errors","RMutils/util_RM.py")],["dFDFth and d* entries of the result dictionary"])
add("C31","The cube and QU-fitting command lines do what their options say",
"For every combination of options, rmsynth3d, rmclean3d and qufit give the results of the library routine called with the arguments those options document (defaults included): depth range and step, weighting, Stokes I model and noise file, super-resolution, cutoff, window, gain, iterations, processes and chunks, model, order and form of the Stokes I fit, sampler settings. Their products are written beside the input under the given prefix (or the name of the input) and nowhere else, and a missing input stops the tool before anything is written.",
["inputs","configurations"],"all option sets of the three tools, axis orders, flags, file and folder names",
"Tests run each tool with one or two option sets; most options, and nearly all of their combinations, are never run.",
["RMtools_3D/do_RMsynth_3D.py","RMtools_3D/do_RMclean_3D.py","RMtools_1D/do_QUfit_1D_mnest.py"],[("rmsynth3d options","RMtools_3D/do_RMsynth_3D.py"),("rmclean3d options","RMtools_3D/do_RMclean_3D.py"),("qufit options","RMtools_1D/do_QUfit_1D_mnest.py")],["products of the command lines","arguments given to the sampler"])
add("C32","Inputs that are missing or do not fit together are refused",
"Routines and tools given arrays, cubes or files that do not belong together (another number of channels, another image, another depth axis, axes in another order, too many dimensions, wrong columns, a missing or additional chunk), that are missing, a box or pixel outside of the image, options that exclude each other, or an output that already exists where overwriting must be asked for, give no result: they stop before anything is written, changed or removed. An array of length 1 is not stretched to fit. The same call with matching inputs works.",
["inputs","configurations"],"all shapes of arrays and cubes and every kind of mismatch, all tools that read files",
"Tests never give unsuitable inputs, so a lost or weakened check goes unseen and wrong products appear silently.",
["RMutils/util_RM.py","RMtools_1D/rmtools_bwdepol.py","RMtools_3D/do_RMsynth_3D.py","RMtools_3D/do_RMclean_3D.py","RMtools_3D/extract_region.py","RMtools_3D/assemble_chunks.py","RMtools_3D/rescale_I_model_3D.py","RMtools_3D/RMpeakfit_3D.py","RMtools_3D/do_fitIcube.py"],[("size checks","RMutils/util_RM.py"),("box checks","RMtools_3D/extract_region.py"),("cube dimensions","RMtools_3D/do_RMsynth_3D.py")],["results or refusals of the calls","files before and after"])
add("C33","Products depend only on inputs and options",
"The products of a command line (their names, their place and their content) are determined by its input files and options: they are the same whichever folder it is started in, whether paths are absolute, plain names, or relative with ./, folder/ or ../folder/, whatever the folders are called, and whether the target is empty or holds the products of an earlier run on other data or unrelated files under the same names (where the tool overwrites). A tool does not change its inputs and writes nothing outside of its target. This includes QU fitting: results of an earlier fit of other data under the same name are not taken over.",
["inputs","histories","configurations"],"all command line tools, options, path styles, folder names and earlier contents of the folder",
"Tests run each tool once, in one folder, with one style of paths; leftovers and odd paths are never there.",
["RMtools_1D/do_RMsynth_1D.py","RMtools_1D/do_RMclean_1D.py","RMtools_1D/do_QUfit_1D_mnest.py","RMtools_3D/do_RMsynth_3D.py","RMtools_3D/do_RMclean_3D.py","RMtools_3D/RMpeakfit_3D.py","RMtools_3D/do_fitIcube.py","RMtools_3D/assemble_chunks.py","RMutils/util_misc.py"],[("output folder and names","RMtools_3D/do_RMsynth_3D.py"),("FWHM map beside the spectrum","RMtools_3D/RMpeakfit_3D.py"),("sampler folder","RMtools_1D/do_QUfit_1D_mnest.py")],["files and their content after a run"])
add("C34","The results follow the symmetries of the data",
"Nothing depends on conventions that carry no information. If the fluxes and their errors are given in another unit (Jy, mJy, uJy, or much larger or smaller), every spectrum, cube, amplitude, noise and cutoff is multiplied by the same factor and everything else (depths, angles, errors of depth and angle, signal-to-noise, fractional polarization, spectral indices, complexity measures, fit orders, flags) stays. Turning the zero of the polarization angle turns the spectra and angles; mirroring the sense of rotation mirrors the depths; reordering the channels of a 1D spectrum changes nothing; a Faraday screen in front of everything shifts the depths. This holds for 1D synthesis and CLEAN, bandwidth-depolarization-corrected synthesis, the cube tools, peak fitting, and Stokes I fits and their rescaling, in single and double precision.",
["inputs","configurations"],"all spectra and cubes, units of the fluxes, angles, channel orders and options",
"Tests use data of order one in one orientation; an absolute threshold, a rounding to fixed digits, or a sign or order assumption gives the stored values there and goes wrong on faint or otherwise oriented data.",
["RMtools_1D/do_RMsynth_1D.py","RMtools_1D/do_RMclean_1D.py","RMtools_1D/rmtools_bwdepol.py","RMtools_3D/do_RMsynth_3D.py","RMtools_3D/do_RMclean_3D.py","RMtools_3D/RMpeakfit_3D.py","RMtools_3D/do_fitIcube.py","RMtools_3D/rescale_I_model_3D.py","RMutils/util_RM.py","RMutils/util_misc.py"],[("synthesis","RMutils/util_RM.py"),("Stokes I fit","RMutils/util_misc.py"),("1D chain","RMtools_1D/do_RMsynth_1D.py"),("cube chain","RMtools_3D/do_RMsynth_3D.py")],["spectra, measured quantities, images of all products"])
add("C35","The results do not depend on the form in which the same data are stored",
"Inputs that hold the same numbers give the same products. Images may be stored in single or double precision or as scaled integers, with further header cards, unit coordinate matrices, histories, or further extensions behind the image; tables of spectra, frequencies, weights, noises and catalogues may use any number format that reads as the same number, spaces or tabs, indentation, comments, blank lines, line ends of any system and no line end at the end. (Cutouts and chunks, which map files into memory, may refuse scaled integers.) This holds for every command line tool that reads the file, through the whole chain of products.",
["inputs","configurations"],"all command line tools, their options, and equivalent forms of their input files",
"Tests read files that the tests themselves or numpy wrote, in one form; data from other telescopes and programs come in others.",
["RMtools_1D/do_RMsynth_1D.py","RMtools_1D/do_RMsynth_1D_fromFITS.py","RMtools_1D/rmtools_bwdepol.py","RMtools_1D/calculate_RMSF.py","RMtools_1D/mk_test_ascii_data.py","RMtools_3D/do_RMsynth_3D.py","RMtools_3D/do_fitIcube.py","RMtools_3D/RMpeakfit_3D.py","RMtools_3D/extract_region.py","RMtools_3D/create_chunks.py","RMtools_3D/make_freq_file.py","RMutils/util_FITS.py","RMutils/util_misc.py"],[("readFitsCube","RMtools_3D/do_RMsynth_3D.py"),("open_datacube","RMtools_3D/do_fitIcube.py"),("readFile","RMtools_1D/do_RMsynth_1D.py"),("csv_read_to_list","RMutils/util_misc.py")],["products of the command lines"])
add("C36","The figures show the data, the models and the results they are labelled with",
"Whenever a 1D tool shows or saves figures, each figure carries what its labels say: Stokes I over frequency with its error bars and the fitted (or given) model over the band; fractional q, u and p over wavelength squared, polarisation angles, and u over q, each with propagated error bars and none cut off by the axes; real, imaginary and absolute RMSF with its Gaussian, the same for the FDF with the fitted peak marked, wherever it lies; dirty, clean and residual spectra, clean components, cutoff and window threshold after RM-CLEAN; the sensitivity of each Faraday depth for bandwidth depolarisation; the model and the 68 % range of the samples of QU-fitting; residuals, chi-squared and likelihood of Q and of U over their own added scatter in the complexity figure. Units in the labels are those of the data. Saved files have the documented names and hold the figure of that name.",
["inputs","configurations"],"all spectra, flags, units, options, and peak positions",
"Tests never look at a figure; the curves come from other code than the returned tables and can disagree with them.",
["RMutils/util_plotTk.py","RMtools_1D/do_RMsynth_1D.py","RMtools_1D/do_RMclean_1D.py","RMtools_1D/rmtools_bwdepol.py"],[("figures","RMutils/util_plotTk.py"),("plot_clean_spec","RMtools_1D/do_RMclean_1D.py"),("plot_adjoint_info","RMtools_1D/rmtools_bwdepol.py")],["curves, points, error bars, labels and limits of the figures"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
