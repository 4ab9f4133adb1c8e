"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, observe=None, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe or [], state=state or [], level_note=level_note, na=na))


prop("C01", "Background expansion and distances obey the CPL cosmology",
     "For every cosmological parameter set, E(z)^2 equals the CPL (w0, wa) matter + dark energy + curvature sum with the curvature density closing the budget, and H(z), the dimensionless and physical comoving distances and c/(H0) units follow from it by the defining integrals, so distances start at zero and grow with redshift. "
     "The filtered variance sigma_R and the growth factor equal their defining integrals (growth from the growth rate, or from the ratio of linear spectra), and rescaling to a growth factor multiplies linear and nonlinear spectra by the squared ratio. "
     "Current parameter values are used, quantities evaluated on the grid agree with their functions, and invalid cosmologies (w0 >= 1, |wa| >= 2, curvature in a flat universe) are refused.",
     ["inputs"], "all parameter sets (flat and curved, phantom and thawing dark energy, any redshift grid) and all positive linear power spectra",
     "Unit tests compare one fiducial cosmology with stored numbers; they never vary curvature, w0/wa or the grids.",
     ["seyfert/cosmology/cosmology.py", "seyfert/cosmology/power_spectrum.py"],
     [("E(z), H(z), comoving distance, sigmaR, growth", "seyfert/cosmology/cosmology.py")],
     "Random search against closed-form/independent quadrature references; bounded parameter ranges and small grids.")

prop("C02", "Stencil displacements of parameters, one at a time, and full reset",
     "After loading stencil displacements the steps -n..-1, 1..n number the positive displacements and their opposites in increasing order, and each parameter's stencil lists fiducial + eps * stem_factor * (fiducial, or 1 when the fiducial is 0) with the exact fiducial in the middle. "
     "Selecting a (parameter, step) gives that parameter its displaced value (and, in a flat universe, the complementary density so that OmegaM + OmegaDE stays 1) and leaves every other parameter and all fiducials untouched; displacing a fixed parameter is refused. "
     "Selecting the central point or resetting restores every parameter to its fiducial, whatever was selected before.",
     ["inputs", "histories"], "all collections, displacement lists and sequences of step selections/resets",
     "Tests exercise one collection and a couple of steps; state leaking from one selected step to the next needs sequences.",
     ["seyfert/cosmology/parameter.py"],
     [("computeSteMValues / updatePhysicalParametersForDvarStep / resetPhysicalParametersToFiducial", "seyfert/cosmology/parameter.py")],
     "Model-based random operation sequences against a reference model of parameters.")

prop("C03", "Parameter collections select and persist faithfully",
     "Writing a parameter collection to JSON and reading it back gives an equal collection with the same parameters, kinds, probes, fiducials, current values, free flags and stencil factors, in the same order. "
     "The free, cosmological, nuisance and per-probe selections return exactly the parameters having those attributes, in order, nothing lost, duplicated or invented, and the collection otherwise behaves as an ordered mapping whose equality notices every change of name, fiducial or current value.",
     ["inputs"], "all parameter collections (names, kinds, fiducials incl. negative and zero, any subset free)",
     "Tests round-trip the shipped parameter file only.",
     ["seyfert/cosmology/parameter.py", "seyfert/file_io/json_io.py"],
     [("writeJSON/readJSON/fromJSON, getFree*, is_universe_flat", "seyfert/cosmology/parameter.py")],
     "Round-trip and reference-selection checks over generated collections.")

prop("C04", "Observed redshift densities are normalised, binned and shot-noise consistent",
     "Every observed bin density is the catalogue distribution convolved with the photometric instrument response (or restricted to the bin for spectroscopic catalogues), normalised to unit area, non-negative, and zero-extended outside its range. "
     "Bin surface densities add up to the catalogue total (or follow the catalogue fractions), and the shot noise between two bins is 1/n_i on the diagonal, zero between different photometric bins, and proportional to the shared objects across catalogues.",
     ["inputs"], "all catalogues, bin edges, instrument responses, surface densities and redshift grids",
     "Tests use the shipped catalogues only and compare with stored tables.",
     ["seyfert/cosmology/redshift_density.py"],
     [("setUp / computeNormalizedDensity / computeInstrumentResponse / shot noise", "seyfert/cosmology/redshift_density.py")],
     "Random catalogues against an independent reference convolution and quadrature.")

prop("C05", "Bias models return the right bin's value at every redshift",
     "Piecewise bias equals at each redshift the parameter of the bin containing it (edges and out-of-range included, for any number of bins), constant bias gives bin i its own parameter everywhere, and the fiducial/growth models follow their formulae. "
     "Changing one nuisance parameter changes the bias exactly where that parameter applies and nowhere else; parameter order or storage never matters.",
     ["inputs", "configurations"], "all numbers of bins, edges, parameter values and storage orders",
     "Tests use the shipped number of bins; ordering bugs only show above nine bins or after reloading.",
     ["seyfert/cosmology/bias.py"],
     [("Bias subclasses computeBias / evaluators / HDF5 I/O", "seyfert/cosmology/bias.py")],
     "Random bin layouts against naive per-redshift lookup.")

prop("C06", "Weight functions equal their defining integrals",
     "The lensing weight of each bin is 3/2 OmegaM (H0/c)^2 (1+z) r(z) times the integral over the sources behind z of n_i(z') (1 - r(z)/r(z')), minus the intrinsic alignment term scaled by its nuisance parameters (none when alignment is not included), and the galaxy and void weights are bias * n_i(z) * H(z)/c. "
     "Weights are linear in the source distribution, vanish where no source/galaxy contributes, and every integration method agrees with the reference integral to its accuracy.",
     ["inputs"], "all densities, cosmologies, IA parameters, biases and redshift grids",
     "Tests compare a single stored fiducial curve.",
     ["seyfert/cosmology/weight_functions.py"],
     [("LensingWeightFunction / GalaxyWeightFunction evaluate*", "seyfert/cosmology/weight_functions.py")],
     "Random setups compared with independent evaluation of the same formulae.")

prop("C07", "Limber kernels and angular power spectra equal the Limber integral",
     "For each pair of probes and bins the kernel is W_i(z) W_j(z) c / (H(z) r(z)^2), and C_ij(l) is the integral over redshift of that kernel times the power spectrum at k = (l + 1/2)/r(z) (its value at the end of the table where k lies outside), for every supported quadrature rule within its accuracy. "
     "Spectroscopic-spectroscopic spectra have off-diagonal bins only when asked for, and the spectra involving voids apply the k cut of the voids, whichever probe of the pair they are.",
     ["inputs", "configurations"], "all weights, distances, power spectra, multipoles, probe pairs and integration settings",
     "Tests compare stored Cl of one configuration.",
     ["seyfert/cosmology/kernel_functions.py", "seyfert/cosmology/c_ells.py"],
     [("KernelFunction.evaluate, AngularCoefficient.evaluateAngularCorrelation", "seyfert/cosmology/c_ells.py")],
     "Random small synthetic universes against a direct loop implementation.")

prop("C08", "Angular power spectra are symmetric, bilinear and probe-order independent",
     "Auto-spectra are symmetric under exchange of bins, swapping the two probes transposes the bin matrix, scaling a weight or the power spectrum scales the spectra by the same factor, and the result for a set of multipoles, bins or probe pairs does not depend on which others are computed with it. "
     "Looking up a spectrum or kernel by either probe order gives the same object or its transpose.",
     ["inputs", "configurations"], "all weights, spectra, probe orders and multipole subsets",
     "Tests fix the probe order and one multipole list.",
     ["seyfert/cosmology/c_ells.py", "seyfert/cosmology/kernel_functions.py"],
     [("AngularCoefficient / AngularCoefficientsCollector", "seyfert/cosmology/c_ells.py")],
     "Metamorphic relations over generated setups.")

prop("C09", "Numerical building blocks are exact on their exactness class",
     "Composite Newton-Cotes rules integrate polynomials up to their degree exactly on the nodes they choose, are linear and additive, the five-point stencil differentiates polynomials up to degree four exactly, and smoothstep, top-hat, percentage difference, array union/intersection and multipole-grid helpers satisfy their defining formulae for every input. "
     "Unit converters and matter-density converters invert each other.",
     ["inputs"], "all polynomials, intervals, rule orders, arrays and grids",
     "Tests check one or two integrands.",
     ["seyfert/numeric/general.py", "seyfert/numeric/integration.py", "seyfert/utils/array_utils.py", "seyfert/utils/converters.py"],
     [("CompositeNewtonCotesIntegrator, smoothstep, ...", "seyfert/numeric")],
     "Algebraic laws and naive references over generated inputs.")

prop("C10", "Stencil (SteM) derivatives are exact on lines and consistent",
     "The SteM derivative of any nonzero quantity that depends linearly on a parameter is its exact slope, whatever the sign of the values, the offset or the set of displacements; for noisy data it is the least-squares slope over the symmetric sub-stencil selected by the linearity criterion. "
     "The vectorised version over many multipoles and bins gives, for each entry, the same answer as the scalar version on that entry alone, independently of its neighbours, and derivatives computed from stored spectra use the spectra of each parameter's own steps in the order of its values, and are zero for the nuisance parameters of probes which are not involved.",
     ["inputs"], "all stencils, linear and non-linear responses, signs and array shapes",
     "Tests use smooth positive responses on one stencil.",
     ["seyfert/derivatives/differentiator.py"],
     [("SteM_derivative / vectorizedSteM / SteMClDifferentiator", "seyfert/derivatives/differentiator.py")],
     "Differential test scalar vs vectorised vs naive reference over generated data.")

prop("C11", "Analytic bias derivatives of the spectra match the spectra themselves",
     "The analytic derivative of every angular power spectrum with respect to a galaxy bias parameter equals the derivative of the spectrum computed by displacing that parameter (spectra are polynomial in the bias; a piecewise bias parameter applies in its bin, the first and last also below and above the edges), for auto and cross spectra, either probe order, piecewise or constant bias and any number of bins. "
     "Spectra which do not involve the parameter's probe or bin have exactly zero derivative, and spectra symmetric in the bins have symmetric derivatives; parameters are matched to bins by their number.",
     ["inputs", "configurations"], "all probe pairs, bins, bias models, values",
     "Tests compare one parameter of the shipped 10-bin setup.",
     ["seyfert/derivatives/differentiator.py", "seyfert/derivatives/cl_derivative.py"],
     [("AnalyticClDifferentiator", "seyfert/derivatives/differentiator.py")],
     "Differential check: analytic vs finite difference of the recomputed spectra.")

prop("C12", "Noisy spectra carry exactly the survey's noise",
     "The noisy spectrum of a probe pair is the signal plus its shot noise (shape noise sigma_eps^2/n_i for lensing, 1/n_i for galaxy clustering, shared objects between galaxy catalogues, none between independent probes; the matrices of a noise file instead of these when one is given) on the bins where it applies, times the sky-fraction and bin-width normalisation 1/sqrt(fsky * delta_l). "
     "Joint blocks of several probes keep every pair's spectrum at its own rows and columns (transposed for the swapped order) and nothing else, at exactly the multipoles requested.",
     ["inputs", "configurations"], "all spectra, densities, sky fractions, multipole binnings, probe combinations",
     "Tests look at the shipped survey only.",
     ["seyfert/fisher/delta_cl.py"],
     [("DeltaCl / DeltaClCollection / XC blocks", "seyfert/fisher/delta_cl.py")],
     "Random synthetic spectra against direct formulae.")

prop("C13", "Covariance of the spectra is the Gaussian four-point formula",
     "The covariance between any two spectra C_AB(ij) and C_CD(kl) at multipole l is (D_AC(ik) D_BD(jl) + D_AD(il) D_BC(jk)) / (2l+1) of the noisy spectra, laid out consistently with the data vector ordering, with duplicate entries removed for auto-spectra. "
     "The full covariance of a data vector is symmetric and positive definite whenever the noisy joint spectra are.",
     ["inputs", "configurations"], "all data vectors, bin counts, noisy spectra and multipoles",
     "Tests compare traces for one configuration; layout bugs cancel there.",
     ["seyfert/fisher/fisher_evaluator.py", "seyfert/fisher/datavector.py"],
     [("ClCovarianceMatrix", "seyfert/fisher/fisher_evaluator.py")],
     "Naive elementwise reference over generated blocks.")

prop("C14", "Fisher evaluation is the Gaussian-likelihood Fisher matrix",
     "The evaluated Fisher matrix equals the sum over multipoles of (dC/da)^T Cov^-1 (dC/db) for the data vector, so it is symmetric, positive semi-definite, quadratic in the derivatives and additive over disjoint multipole sets, and does not depend on the order in which spectra enter the data vector. "
     "It has exactly the free parameters involved, parameters with zero derivative give zero rows, and multipoles which only one auto-correlated probe of the data vector has contribute through that probe alone.",
     ["inputs", "configurations"], "all data vectors, parameter sets, derivatives, covariances and multipole ranges",
     "Tests compare one stored matrix.",
     ["seyfert/fisher/fisher_evaluator.py"],
     [("FisherEvaluator", "seyfert/fisher/fisher_evaluator.py")],
     "Independent naive evaluation and metamorphic relations over generated inputs.")

prop("C15", "Fisher matrix algebra keeps parameters aligned",
     "Adding, subtracting, fixing, adding priors, selecting subsets and reordering Fisher matrices act entrywise by parameter name: entries of parameters present in one operand only are added to zero, fixing deletes exactly those rows and columns, a prior adds to one diagonal element. "
     "Operands are never modified, labels always match the data, and the result does not depend on parameter order or on the history of operations that produced the operands.",
     ["inputs", "histories"], "all matrices, parameter sets and operation sequences",
     "Tests perform single operations on one matrix.",
     ["seyfert/fisher/fisher_matrix.py", "seyfert/fisher/fisher_utils.py"],
     [("FisherMatrix", "seyfert/fisher/fisher_matrix.py")],
     "Model-based sequences against a dictionary-of-pairs reference.")

prop("C16", "Errors, correlations, FoM and marginalisation come from the inverse Fisher",
     "Marginalised errors are the square roots of the diagonal of the inverse Fisher matrix, correlations have unit diagonal and lie in [-1, 1], the figure of merit is the square root of the 2x2 marginalised determinant, and marginalising over parameters equals inverting, dropping rows and inverting back. "
     "These quantities always refer to the current matrix: marginalised errors never fall below unmarginalised ones, adding information never increases errors, and marginalising in steps or at once agree.",
     ["inputs", "histories"], "all positive definite matrices, parameter subsets and operation sequences",
     "Tests check one matrix right after loading; stale caches need operation sequences.",
     ["seyfert/fisher/fisher_matrix.py", "seyfert/fisher/fisher_analysis.py"],
     [("evaluateInverse / marginalizeParameters / evaluateFigureOfMerit / evaluateCorrelationMatrix", "seyfert/fisher/fisher_matrix.py")],
     "Random positive definite matrices and sequences against direct linear algebra.")

prop("C17", "Fisher matrices survive every storage format",
     "Saving a Fisher matrix to any supported format (HDF5, CSV/text) and loading it back gives an equal matrix: same numbers, same parameter names in the same order, same cosmological/nuisance classification and same name. "
     "Writing never clobbers an existing file unless overwriting is asked for.",
     ["inputs", "histories"], "all matrices, names, parameter sets and write/overwrite sequences",
     "The existing HDF5 round-trip tests fail in this environment and cover one matrix.",
     ["seyfert/fisher/fisher_matrix.py", "seyfert/fisher/fisher_utils.py"],
     [("saveToDisk / loadFromFile / writeToFile", "seyfert/fisher/fisher_matrix.py")],
     "Round-trips over generated matrices in a scratch directory.")

prop("C18", "Forecast results combine and tabulate Fisher matrices consistently",
     "A combination such as 'A + B - C' yields the matrix obtained by parsing the expression and adding and subtracting the named matrices in the chosen nuisance treatment (marginalised before, after, or fixed), and result tables list for every observable and parameter exactly the error or figure of merit of that matrix. "
     "Relative errors, error ratios, gains and contour ellipses follow from the same covariance.",
     ["inputs", "histories"], "all result sets, expressions and treatments",
     "Tests load one results folder.",
     ["seyfert/fisher/final_results_core.py", "seyfert/fisher/fisher_analysis.py", "seyfert/fisher/results_collector.py"],
     [("FisherAnalysis, final results", "seyfert/fisher/final_results_core.py")],
     "Random matrices and expressions against direct evaluation.")

prop("C19", "Half-vectorisation algebra used to lay out spectra is exact",
     "Vectorisation by columns and half-vectorisation (upper triangle by columns) are inverted exactly by their inverses, and the duplication, elimination, transition and commutation matrices map vectors to half-vectors, back, and to the transpose for every size. "
     "Enumeration maps are the bijections implied by the same order, and non-square input is refused where a square matrix is required.",
     ["inputs"], "all sizes and all matrices",
     "Tests use a few fixed small matrices.",
     ["seyfert/fisher/linalg_tools.py"],
     [("vec/vecp/unvec/unvecp/*_matrix", "seyfert/fisher/linalg_tools.py")],
     "Random matrices against elementwise definitions; index maps enumerated for all sizes up to 10.")

prop("C20", "Probe, spectrum and data-vector names convert consistently",
     "Long, short and alias names of probes and of probe pairs convert into one another without loss, a pair and the swapped pair denote the same spectrum and its transpose in any notation, and containers keyed by them find the same entry for every spelling (transposed for the swapped order where the container holds spectra). "
     "Data-vector names parse to the set of spectra they denote and print back to an equivalent name, and strings which are not valid names are refused rather than misread.",
     ["inputs"], "all probes, pairs, notations, combinations and malformed strings",
     "Tests enumerate a handful of spellings.",
     ["seyfert/utils/shortcuts.py", "seyfert/utils/general_utils.py", "seyfert/fisher/datavector.py", "seyfert/base_structs"],
     [("ClKey / ProbeName / SmartKeyDict / ClDataVector", "seyfert/utils/shortcuts.py")],
     "Random names and dictionary operation sequences against a plain model.")

prop("C21", "Computed physics objects survive HDF5 storage",
     "Saving and reloading power spectra, cosmologies, densities, biases, weights, kernels, angular spectra, noisy spectra and spectrum derivatives reproduces every stored array bit for bit and every attribute, bin by bin and probe pair by probe pair. "
     "A reloaded object evaluates to the same values as the saved one.",
     ["inputs"], "all objects reachable by the pipeline",
     "Tests round-trip the fiducial objects only.",
     ["seyfert/file_io/hdf5_io.py", "seyfert/cosmology", "seyfert/derivatives/cl_derivative.py", "seyfert/fisher/delta_cl.py"],
     [("H5* I/O classes", "seyfert/file_io/hdf5_io.py")],
     "Round-trip over generated objects.")

prop("C22", "Structured storage never loses or overwrites data silently",
     "Writing groups and datasets through the HDF5 and JSON layers into a new file stores exactly the given tree, opening an existing file for writing is refused, and saving several objects into one file under different roots keeps all of them readable. "
     "Loading a missing file or entry raises instead of returning stale or partial content, and a refused or failed save leaves the earlier content of the file (for JSON files also of a file being replaced) and the objects in memory intact.",
     ["histories", "inputs"], "all write/save/load sequences over files and roots",
     "Tests write each file once.",
     ["seyfert/file_io/hdf5_io.py", "seyfert/file_io/json_io.py"],
     [("AbstractH5FileIO.openFile/save/load", "seyfert/file_io/hdf5_io.py")],
     "Stateful file-operation sequences against a dictionary model.")

prop("C23", "Multipole bins and survey ranges are partitioned exactly",
     "Every probe's multipole bins tile [l_min, l_max] without gaps or overlaps with centres inside and widths equal to the edges' differences, and the multipoles of a probe combination are those common to the probes' ranges with their own widths, independent of probe order. "
     "Editing a forecast configuration changes exactly the requested survey options and nothing else, in the object as in the file it writes, and configurations compare equal exactly when they say the same.",
     ["inputs", "configurations"], "all ranges, bin counts, spacing kinds, combinations and edits",
     "Tests use shipped configs.",
     ["seyfert/config/forecast_config.py", "seyfert/config/probe_config.py", "seyfert/utils/array_utils.py"],
     [("ProbeConfig / ForecastConfig / ForecastConfigEditor", "seyfert/config")],
     "Random configs against direct formulae.")

prop("C24", "Configuration files and command-line options mean what they say",
     "Loading a main or forecast configuration reproduces every value in the file with documented defaults and conversions, saving and reloading gives an equal configuration, and command-line and ini-file overrides affect exactly the named option with the right type, lists of paths (also read from text files with blank lines) keep every entry in order. "
     "Unknown options, missing files and ill-typed values are refused.",
     ["inputs", "configurations"], "all configs and override lists",
     "Tests parse the shipped files.",
     ["seyfert/config/main_config.py", "seyfert/config/forecast_config.py", "seyfert/config/cmd_line.py", "seyfert/file_io/json_io.py"],
     [("JSON config classes and argument casting", "seyfert/config")],
     "Random configurations and argument vectors against the generating values.")

prop("C25", "Workspace and job directories map to parameters and steps one-to-one",
     "The directory of every (parameter, step) job is unique and its name decodes back to that parameter and step, for any number of steps, and run folders round-trip to identifiers. "
     "The workspace returns exactly the files of each job, links and copies point at the intended sources, searching run folders selects exactly those that match the requested settings, and creating input folders never drops, overwrites or leaks files outside the workspace.",
     ["inputs", "histories"], "all parameter names, steps, config sets and creation sequences",
     "Tests use single digit steps and one workspace.",
     ["seyfert/utils/filesystem_utils.py", "seyfert/utils/workspace.py", "seyfert/utils/general_utils.py"],
     [("job directory names, WorkSpace", "seyfert/utils/workspace.py")],
     "Random trees in scratch directories against a set model.")

prop("C26", "Boltzmann solver inputs encode the cosmology they were given",
     "Converting the parameter collection to the solver's basis preserves the physical densities (omega = Omega h^2 with baryons, neutrinos and dark matter adding up to the matter density, curvature closing the budget) and every other parameter, and the written input files read back to the same settings. "
     "Redshift requests are split in groups that cover the grid exactly once in order, and amplitude rescaling hits the requested sigma8.",
     ["inputs", "configurations"], "all cosmologies, settings and redshift grids",
     "Tests run a single fiducial cosmology.",
     ["seyfert/cosmology/boltzmann_solver.py"],
     [("CAMBBoltzmannSolver / CLASSBoltzmannSolver basis conversion and ini I/O", "seyfert/cosmology/boltzmann_solver.py")],
     "Random cosmologies against closed-form conversions; the solver itself stubbed or called sparingly.")

prop("C27", "External tables are imported without shuffling or losing data",
     "Importing externally produced power spectra, angular spectra or Fisher matrices yields at each redshift, scale, multipole, bin pair or parameter exactly the number in the file, independent of row order and formatting, and exporting then importing is the identity. Files of older versions of the program and comparisons of two runs give each quantity of the right parameter, and reparametrising a Fisher matrix applies the Jacobian of the parameters by name. "
     "Incomplete or inconsistent files are refused.",
     ["inputs"], "all well-formed external files (any sizes, formats and orders accepted, redshifts in decreasing order where the format requires it)",
     "Tests read one file per format.",
     ["seyfert/file_io/ext_input.py", "seyfert/file_io/retro_comp.py"],
     [("ISTInputReader and format adapters", "seyfert/file_io/ext_input.py")],
     "Generated files against the tables they were generated from.")

prop("C28", "Textual helpers, tables and scheduler reports are decoded correctly",
     "Formatting durations, sizes, TeX names and tables preserves the values they represent (decoding the text recovers them within the printed precision), name-to-TeX translation is injective on the parameters and probes it supports, and scheduler submissions and reports are parsed to the job ids, states and resources they contain, so that run reports and resource tables list every job of every stage once with its own figures. Table selections, differences and TeX or spreadsheet output keep every value at its row and column. "
     "Input in any other format is refused or left alone, never misattributed.",
     ["inputs"], "all durations, names, tables and scheduler outputs in the documented format",
     "Tests use a few literal strings.",
     ["seyfert/utils/formatters.py", "seyfert/utils/tex_utils.py", "seyfert/main/bsub_utils.py", "seyfert/utils/table_utils.py"],
     [("time formatting, TeX translation, bsub/bjobs parsing", "seyfert/main/bsub_utils.py")],
     "Generated text against the values it was generated from.")

prop("C29", "The jobs that run are exactly the jobs asked for",
     "Every stage of a forecast runs one job per cosmology, step and parameter it needs, each once, in its own folder with its own configuration, whatever the names of the folders; a failing job (error output or error status) is detected and no later stage runs. "
     "Batch submissions carry the requested queue, memory and cores and are waited for until all are done or one fails. Orchestrating several forecasts runs each combination of configurations once, with the options, external directories and identifiers it was given, and only the run folders concerned are collected.",
     ["inputs", "configurations", "fault_sequences"], "all parameter sets, tasks, folder names, options, job outcomes and batch states",
     "Tests mock the runners and never execute a job.",
     ["seyfert/main/task_runners.py", "seyfert/main/orchestration.py", "seyfert/main/seyfert_core.py", "seyfert/main/bsub_utils.py"],
     [("task runners", "seyfert/main/task_runners.py"), ("orchestration", "seyfert/main/orchestration.py")],
     "Generated forecasts and orchestrations run with stub programs that record their folder and arguments, against the list of jobs asked for; failures injected at every job.")

prop("C30", "A forecast is determined by its inputs, however it is run",
     "From the input data, configuration and power spectra a whole forecast derives the spectra at every step of every free parameter, their derivatives, the noisy spectra, the Fisher matrix of every selected data vector (and the external one of the scenario) and the sums and errors of the final results for each cosmology and nuisance treatment, each equal to what the definitions of its inputs give. "
     "Running it in one process or as a sequence of jobs, all at once or in several invocations on the same run folder, with the spectra or derivatives of another run (which are only read), or with the noise file given to the Fisher stage, gives the same results; and a run that is interrupted or killed at any write and started again in the same folder ends with the results of an uninterrupted one.",
     ["inputs", "configurations", "histories", "crash_points"], "all surveys with the three main probes (bins, ranges, biases, alignment, noise, voids), free parameters and steps, ways of running and points of interruption",
     "Tests run single stages on stored inputs, never a whole forecast or a resumed one.",
     ["seyfert/main/seyfert_core.py", "seyfert/main/cl_core.py", "seyfert/main/cl_derivative_core.py", "seyfert/main/fisher_core.py", "seyfert/fisher/final_results_core.py", "seyfert/main/task_runners.py"],
     [("do_forecast", "seyfert/main/seyfert_core.py"), ("ForecastRunner", "seyfert/main/task_runners.py"), ("create_final_results", "seyfert/fisher/final_results_core.py")],
     "Generated surveys run end to end against a computation from the definitions; differential runs (jobs, external folders) and faults injected at every write.",
     state=[{"name": "run folder", "meaning": "densities, spectra, derivatives, noisy spectra, Fisher matrices and results written so far", "where": "seyfert/utils/workspace.py"}])

prop("C31", "The configuration window writes what was entered in it",
     "The file saved by the configuration window holds exactly what its fields show when it is saved: the survey's sky fraction and flatness, every parameter of the table with its value, freedom, units, step factor and derivative method, the displacements of the derivatives, and for each probe its presence, multipoles (those of the external file only where that is selected), density and bias files, bias treatment, specific settings and intrinsic alignment parameters, which belong to that probe. "
     "It is named as the user asked, with version and date unless they were declined, in the form in which a run takes its name from the file. A forecast accepts the file, and gives the results of the same configuration written by hand.",
     ["inputs", "configurations"], "all values of the fields within the ranges of their widgets, for every set of present probes",
     "No test opens the window.",
     ["seyfert/gui/interface_window.py", "seyfert/gui/gui_core.py", "seyfert/config/forecast_config.py", "seyfert/config/probe_config.py"],
     [("GUIFileInterface, ConfigGUIWindow", "seyfert/gui/interface_window.py"), ("ForecastConfig", "seyfert/config/forecast_config.py")],
     "Generated entries typed into the real window (without a display); the saved file is loaded back by the forecast's loader and compared with the entries, and run against a hand-written twin.")

prop("C32", "Plots and collected tables show the results they are made from",
     "The plot of an analysis has for each pair of parameters the contours of the covariance of the two parameters at the configured levels, on the diagonal the distribution of each, and ranges, ticks, labels, colours and legend which belong to the parameters and matrices they stand for; settings and ranges given are used, and the ranges written can be read back. "
     "Maps of correlations and differences, bars of errors, gains, grids of spectra and weight functions show each number at its row, column, bin or curve. Collecting the results of a set of matrices writes the tables, matrices, correlations and plots of each requested cosmology, which loaded again are those of the analysis.",
     ["inputs", "configurations"], "all analyses of positive definite matrices, plot settings, ranges and orders, grids and tables",
     "Tests make no plots.",
     ["seyfert/fisher/fisher_plot.py", "seyfert/fisher/fisher_results.py", "seyfert/plot_utils/cl_plot.py", "seyfert/plot_utils/misc.py", "seyfert/notebook_helpers/barplots.py", "seyfert/utils/comparison_utils.py"],
     [("FisherPlotter", "seyfert/fisher/fisher_plot.py"), ("FisherResultsCollector", "seyfert/fisher/fisher_results.py")],
     "Generated results plotted on an off-screen canvas; the drawn objects are compared with the results, and files with what was collected.")

prop("C33", "Results collected from many runs are each run's own, with its options",
     "Collecting the results of the runs in a folder finds exactly the runs asked for, and gives for every run and Fisher matrix the errors, relative errors and matrices that run stored for the requested cosmology and nuisance treatment, beside the options of that run's own configuration; written to files and read back they are the same. "
     "Selecting analyses by options or matrices returns exactly those, in the order asked for, and leaves the others and the originals as they were. Replacing the matrices which contain the external spectroscopic one by those of the four-bin run takes them, with all their errors, from the run with the same other options.",
     ["inputs", "configurations"], "all folders of runs (names, options in any order, free parameters, matrices, cosmologies and treatments) and selections",
     "No test collects the results of more than one run.",
     ["seyfert/fisher/results_collector.py", "seyfert/fisher/fisher_analysis.py", "seyfert/notebook_helpers/load_helpers.py", "seyfert/notebook_helpers/misc.py", "seyfert/utils/dir_explorer.py"],
     [("ResultsCollector", "seyfert/fisher/results_collector.py"), ("FisherAnalysis.fromRundir, getSubsetAnalysis", "seyfert/fisher/fisher_analysis.py")],
     "Generated folders of runs, collected, against the errors of the matrices each run was given.")
prop("C34", "Computed objects compare equal exactly when they hold the same numbers",
     "Two spectra, collections of spectra, noisy spectra, power spectra, cosmologies, parameters, densities, biases, weight functions, kernels or Fisher matrices compare equal exactly when they hold the same numbers under the same names: copies and objects built again (in any order of their parameters or spectra) are equal; a single value an ulp away, another number of multipoles, bins, redshifts, parameters or spectra (one of which may be the other's beginning or a constant), or something present in one only makes them different. "
     "The comparison gives the same answer in both directions and never fails.",
     ["inputs"], "all pairs of objects that differ in one array, value, name or member",
     "Tests compare only copies, never objects that differ.",
     ["seyfert/cosmology/c_ells.py", "seyfert/cosmology/power_spectrum.py", "seyfert/cosmology/cosmology.py", "seyfert/cosmology/parameter.py", "seyfert/cosmology/weight_functions.py", "seyfert/cosmology/kernel_functions.py", "seyfert/cosmology/redshift_density.py", "seyfert/cosmology/bias.py", "seyfert/fisher/delta_cl.py", "seyfert/fisher/fisher_matrix.py", "seyfert/utils/general_utils.py"],
     [("compare_objects", "seyfert/utils/general_utils.py"), ("AngularCoefficientsCollector.__eq__", "seyfert/cosmology/c_ells.py"), ("PowerSpectrum.__eq__", "seyfert/cosmology/power_spectrum.py")],
     "Generated objects against copies and systematic variants of every array and member.")
