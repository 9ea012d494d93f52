#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to rewrite the file)."""
import json, os
L = "RedshiftLibrary/src/lib/"
H = "RedshiftLibrary/RedshiftLibrary/"
P = "pylibamazed/python/pylibamazed/"
props = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "No memory error or undefined behaviour on any accepted or rejected input",
     "For any samples (including none, one, NaN, infinite or extreme fluxes and errors), strictly increasing grids of any size, ranges (empty, reversed, outside or exactly on the edges), "
     "catalogues, masks, calibration tables and parameter values, and for any order of the operations, "
     "the library never reads or writes outside the objects it owns, never uses freed or uninitialised values and never executes "
     "undefined arithmetic or conversions: it either returns a result or raises its own documented error. "
     "In particular index lookups, sub-range selections and re-samplings at the edges of an axis stay inside the arrays, and an object that raised an error stays safe to use. "
     "(Indices given by the caller are those returned by the library's own queries; wavelengths, redshifts and widths that select a position in a table are finite.)",
     ["inputs", "histories", "configurations"],
     "every numeric input (sizes 0, 1, 2, ..., edges exactly on samples, NaN/inf, empty overlap) to every public operation exercised by the workloads of the other properties, from C++ and from the Python process flow",
     "The unit tests run without instrumentation on a handful of well-formed inputs; an out-of-range or uninitialised read is silent there.",
     [L, H], [("bounds logic of sub-range and index queries", L + "spectrum/spectralaxis.cpp; " + H + "common/range.h"),
              ("bounds of the fits", L + "operator/templatefitting.cpp; " + L + "operator/templatefittinglog.cpp; " + L + "linemodel/")],
     ["sanitizer, library-assertion and memcheck reports while the workloads of C02..C26 and the workload of extreme inputs run"])

prop("C02", "The redshift posterior is the normalised Bayes combination of merits and priors",
     "For every redshift grid, every set of fit merits and every set of log-priors, the log-posterior returned on the grid equals the "
     "Bayes combination of the chi-square likelihoods and priors (marginalised over the models, or taking the best model at each redshift, as "
     "requested), it integrates to one over the grid, and it does not change when a constant is added to all the merits. "
     "Non-uniform grids, log-posterior spreads up to about 1e5 and several models are all handled without overflow, underflow to NaN or loss of normalisation, "
     "and the reported log-evidence is the logarithm of the integral that was divided out.",
     ["inputs"], "all grids (uniform, logarithmic, irregular), numbers of models, merit ranges (including ~1e5 spreads), priors and combination modes",
     "Tests use fixed small vectors with hand-computed values; the formula has to hold for every vector.",
     [L + "operator/pdfz.cpp", L + "operator/logZPdfResult.cpp", L + "statistics/zprior.cpp"],
     [("marginalisation, best-probability and best-chi2 combinations", L + "operator/pdfz.cpp"),
      ("log-sum-exp with per-sample integration weights", L + "operator/pdfz.cpp"),
      ("prior normalisation and combination", L + "statistics/zprior.cpp")],
     ["COperatorPdfz::CombinePDF", "COperatorPdfz::logSumExpTrick", "CZPrior"])

prop("C03", "Redshift candidates are the ranked posterior maxima with their probabilities",
     "The candidates extracted from a posterior are distinct local maxima of it, at most the requested number of them, include its highest peak, have "
     "identifiers unique within the set, and are returned in decreasing order of integrated probability. "
     "The probability attached to a candidate equals the posterior's integral over that candidate's integration window (direct-integration mode) or of its fitted gaussian, "
     "every window contains its candidate and lies inside the grid, windows of neighbouring candidates share at most one grid cell in direct-integration mode, and a candidate that duplicates a higher neighbour gets no probability.",
     ["inputs", "configurations"], "all posteriors (any number, height, width and spacing of peaks, peaks on the borders, plateaus), all requested counts, separations and integration methods",
     "Tests check one or two hand-made PDFs; ordering, disjointness and completeness are claims about every PDF.",
     [L + "operator/pdfz.cpp", L + "statistics/pdfcandidatesz.cpp", L + "statistics/deltaz.cpp", L + "extremum/extremum.cpp"],
     [("peak search", L + "extremum/extremum.cpp"), ("window separation and integration", L + "statistics/pdfcandidatesz.cpp"),
      ("peak width estimate", L + "statistics/deltaz.cpp"), ("candidate selection and ranking", L + "operator/pdfz.cpp")],
     ["COperatorPdfz::Compute", "CPdfCandidatesZ::Compute", "CDeltaz"])

prop("C04", "Redshift grids cover the requested range and store/restore exactly",
     "A redshift grid built from a range and a step is strictly increasing, starts at the lower bound (to rounding), stays within the range, and has the requested constant step (in z, or in log(1+z)), "
     "leaving less than one step uncovered at the top; refined windows inserted for a second pass replace exactly the coarse samples they overlap and keep the result sorted without duplicates. "
     "A posterior stored as a list of grid descriptions is restored on exactly the same redshifts, and regularising or interpolating it on another grid keeps its values at shared redshifts and is linear in between.",
     ["inputs", "histories"], "all ranges, steps, samplings, centres and half-sizes of refined windows, in every order of insertion",
     "Tests use a few literal ranges; off-by-one and rounding faults show only for particular range/step ratios.",
     [L + "common/zgridparam.cpp", L + "operator/logZPdfResult.cpp", H + "common/zgridparam.h", P + "PdfHandler.py"],
     [("grid generation", L + "common/zgridparam.cpp"), ("grid insertion", L + "common/zgridparam.cpp"), ("regularisation, interpolation", L + "operator/logZPdfResult.cpp")],
     ["CZGridParam::getZGrid", "CZGridListParams", "CLogZPdfResult"])

prop("C05", "Template fitting returns the masked weighted least-squares optimum",
     "At each redshift the reported chi-square, amplitude, amplitude error and cross products are those of the weighted least-squares fit of the redshifted, rebinned "
     "template (with the reported dust and intergalactic attenuation applied) to the observed flux over the unmasked samples of the fit range, and no other attenuation on the offered grid gives a lower chi-square. "
     "Masked or out-of-range samples never influence the fit, a positivity constraint and a prior on the amplitude are honoured, several observations of a spectrum are fitted jointly, a template that does not cover the required fraction of the range is refused, and the result for one redshift does not depend on the order or the set of the other redshifts.",
     ["inputs", "configurations", "histories"], "all spectra, templates, redshifts, masks, fit ranges, attenuation options and overlap thresholds",
     "Tests fit one or two fixed spectra and compare stored numbers.",
     [L + "operator/templatefitting.cpp", L + "operator/templatefittingBase.cpp", L + "operator/templatefittingwithphot.cpp", L + "spectrum/template/template.cpp"],
     [("cross products with partial sums for dust and IGM", L + "operator/templatefitting.cpp"), ("range/mask restriction", L + "operator/templatefittingBase.cpp"),
      ("attenuation bookkeeping in the template", L + "spectrum/template/template.cpp")],
     ["COperatorTemplateFitting::Compute", "CTemplateFittingResult"])

prop("C06", "The FFT template fit agrees with the direct fit on the same grid",
     "For a log-sampled spectrum and template and a matching logarithmic redshift grid, the FFT-based template fitting returns, at every redshift, the same chi-square, amplitude, error and chosen attenuation as "
     "fitting the rebinned template directly at that redshift, to numerical accuracy, for every way the redshift grid is split into sub-ranges. "
     "Every redshift of the grid receives exactly one fit result. The grid starts at the requested redshift and extends to the requested end rounded up to a whole step of the current spectrum, whatever spectra were processed before.",
     ["inputs", "configurations"], "all log-sampled spectra, sampling ratios, redshift grids, attenuation options and wavelength ranges",
     "Tests run the FFT path on one configuration and compare stored numbers, never against the direct path.",
     [L + "operator/templatefittinglog.cpp", L + "operator/templatefitting.cpp", L + "spectrum/logrebinning.cpp"],
     [("FFT correlation products", L + "operator/templatefittinglog.cpp"), ("z-range splitting", L + "operator/templatefittinglog.cpp")],
     ["COperatorTemplateFittingLog::Compute", "COperatorTemplateFitting::Compute"])

prop("C07", "The template-combination fit is the joint weighted least-squares optimum",
     "At each redshift the reported chi-square, template amplitudes and covariance of a template-combination fit are those of the joint weighted linear least-squares fit of all the redshifted templates "
     "(with the reported attenuation) to the unmasked samples, and no other offered attenuation gives a lower chi-square. "
     "The result does not depend on the order in which the templates are given, and the model spectrum recomputed from the reported amplitudes reproduces the reported chi-square.",
     ["inputs", "configurations"], "all spectra, sets of templates, redshifts, ranges and attenuation options",
     "Tests run one fixed case and compare a single stored number.",
     [L + "operator/tplcombination.cpp"], [("SVD fit", L + "operator/tplcombination.cpp"), ("model spectrum", L + "operator/tplcombination.cpp")],
     ["COperatorTplcombination::Compute", "COperatorTplcombination::ComputeSpectrumModel"])

prop("C08", "The line-model chi-square and amplitudes describe the model spectrum it returns",
     "For every spectrum, line catalogue, redshift, width model, continuum and fitting method (individual, svd, hybrid; with wavelength offsets or polynomial offsets; with rules or catalogues of line ratios), the merit reported by the line model equals "
     "the noise-weighted squared difference between the observed flux and the model spectrum built from the continuum and the reported lines over the fitted samples, and the model spectrum saved with a redshift candidate is that model. "
     "Fitted amplitudes are never negative, respect the absorption limit and are the least-squares optimum of the method: each element alone for the individual method, the non-negative joint optimum of overlapping elements for the joint ones, the best of the scanned wavelength offsets when they are fitted, "
     "the best catalogue of ratios with its proportions kept. Reported positions, widths, velocities, fluxes and residuals agree with the amplitudes and the profile, the continuum under a line, the directly integrated flux with its uncertainty, the fluxes and signal to noise of the Halpha and OII complexes and the cumulated signal to noise of the emission lines are those of the data, the model and the reported lines, and re-evaluating a redshift after visiting others gives the same merit and lines.",
     ["inputs", "configurations", "histories"], "all spectra, catalogues, redshift sequences, line widths and fitting methods",
     "Tests run one fixed spectrum per method and compare the best redshift.",
     [L + "linemodel/", L + "operator/linemodel.cpp"],
     [("per-element fit", L + "linemodel/abstractfitter.cpp; element.cpp"), ("fast merit", L + "linemodel/lineratiomanager.cpp"), ("model spectrum", L + "linemodel/spectrummodel.cpp")],
     ["CLineModelFitting::fit", "CLineModelFitting::getLeastSquareMerit", "CSpectrumModel"])

prop("C09", "Dust and intergalactic attenuation are applied once, rest-frame, reversibly",
     "Attenuating a template multiplies each rest-frame sample by exactly the tabulated dust factor for the chosen reddening and the tabulated intergalactic transmission for the chosen redshift bin and strength, and leaves samples outside the dust table or above the Lyman-alpha limit of the intergalactic table unattenuated by it. "
     "Whatever sequence of attenuation, range restriction, scaling and reset calls is made, the template's flux is always the unattenuated flux times the product of the currently selected factors, and resetting restores the original flux exactly. "
     "Transmissions lie in [0,1], and curves convolved for one spectrograph resolution do not leak into a later convolution.",
     ["inputs", "histories"], "all templates, all indices of the attenuation tables, all sequences of apply/restrict/scale/reset operations, all resolutions",
     "Tests apply one index on a five-sample template; histories of calls are not explored.",
     [L + "spectrum/template/template.cpp", L + "spectrum/fluxcorrectioncalzetti.cpp", L + "spectrum/fluxcorrectionmeiksin.cpp"],
     [("attenuation state", L + "spectrum/template/template.cpp"), ("IGM table lookup and convolution", L + "spectrum/fluxcorrectionmeiksin.cpp"), ("dust table", L + "spectrum/fluxcorrectioncalzetti.cpp")],
     ["CTemplate::GetFluxAxis", "CSpectrumFluxCorrectionMeiksin::getCorrection", "CSpectrumFluxCorrectionCalzetti::GetDustCoeff"])

prop("C10", "Resampling a spectrum preserves flux values, errors and coverage",
     "Rebinning a spectrum onto another wavelength axis returns, for every target sample covered by the source range, the value of the documented interpolation (linear, spline, nearest, fine grid) of the source samples, leaves uncovered samples masked out with zero flux, "
     "and propagates the errors of the covered samples consistently with the interpolation. Rebinning onto the source's own axis is the identity, and logarithmic rebinning produces a regular log-lambda grid "
     "inside the source range whose step matches the redshift step, with templates on the same grid covering every redshift in the range.",
     ["inputs", "configurations"], "all source and target axes, ranges, interpolation methods, error options and log-rebinning steps",
     "Tests rebin literal arrays of a few samples.",
     [L + "spectrum/rebin", L + "spectrum/logrebinning.cpp", L + "spectrum/spectrum.cpp"],
     [("rebin methods", L + "spectrum/rebin"), ("log-rebinning", L + "spectrum/logrebinning.cpp")],
     ["CSpectrum::Rebin", "CSpectrumLogRebinning"])

prop("C11", "Axis, range, index and mask queries agree with their brute-force definition",
     "Range-to-index, nearest-index, lower/upper-index, mask, sub-axis and interval queries on an axis return exactly the samples their definition selects, for every axis and every interval, and signal an error when none qualifies. "
     "Conversions (linear/log, observed/rest frame, air/vacuum) are monotonic, keep the number of samples, and invert each other; detection of logarithmic sampling accepts exactly the axes sampled at one constant log step; "
     "flux, noise and spectral axes of a spectrum always keep the same length.",
     ["inputs", "histories"], "all sorted axes (0, 1, 2, ... samples, duplicated edges), intervals (inside, outside, touching, empty), log/linear, shifted",
     "Tests query a few literal intervals; edge equality and rounding need exhaustive or random probing.",
     [L + "spectrum/spectralaxis.cpp", L + "spectrum/axis.cpp", L + "spectrum/spectrum.cpp", L + "spectrum/fluxaxis.cpp", L + "common/mask.cpp", H + "common/indexing.h", H + "common/range.h", L + "spectrum/maskBuilder.cpp"],
     [("index queries", L + "spectrum/spectralaxis.cpp"), ("range", H + "common/range.h"), ("masks", L + "common/mask.cpp; " + L + "spectrum/maskBuilder.cpp")],
     ["CSpectrumSpectralAxis", "CIndexing", "CRange", "CMask"])

prop("C12", "Continuum separation splits the flux without losing any of it",
     "Whatever the continuum method and its parameters, the continuum estimate plus the flux without continuum equals the raw flux sample by sample, switching a spectrum between raw, continuum and continuum-free views always "
     "returns that same decomposition, and the noise is unaffected. The irregular-sampling median continuum follows its definition (median over a wavelength window with the chosen reflection at the borders), is invariant to a constant "
     "flux offset, scales with the flux, reproduces a constant spectrum, and is defined for every kernel wider than half the sampling step.",
     ["inputs", "histories"], "all spectra (regular, irregular, tiny), kernel widths, reflections and sequences of view changes",
     "Tests run one stored spectrum.",
     [L + "continuum/irregularsamplingmedian.cpp", L + "spectrum/spectrum.cpp"],
     [("median filter", L + "continuum/irregularsamplingmedian.cpp"), ("view switching", L + "spectrum/spectrum.cpp")],
     ["CSpectrum::SetType", "CSpectrum::GetContinuumFluxAxis", "CContinuumIrregularSamplingMedian"])

prop("C13", "Air-vacuum conversions follow the published relations and invert each other",
     "Every supported air/vacuum relation converts vacuum wavelengths to air wavelengths by its published refraction formula, and converting to air and back returns the original wavelength to the precision of the iterative inversion (far better than the published formulas), "
     "for every wavelength in its domain and any number of samples, sorted or not, each sample independently of the others. Wavelengths outside the domain are refused with an error and not silently mis-converted.",
     ["inputs"], "all wavelengths of each relation's domain, all vector lengths and orders",
     "Tests convert a few wavelengths with a loose tolerance.",
     [L + "line/airvacuum.cpp", L + "spectrum/spectralaxis.cpp"],
     [("relations", L + "line/airvacuum.cpp"), ("iterative inversion", L + "line/airvacuum.cpp")], ["CAirVacuumConverter::Get"])

prop("C14", "Line profiles and line-spread functions agree with their derivatives and flux",
     "For every line profile (gaussian, lorentzian, asymmetric, with or without intergalactic absorption) and every line-spread function, the reported analytic flux equals the numerical integral of the profile, "
     "the reported derivatives with respect to position and width (where the profile provides them; it refuses otherwise) equal the numerical derivatives of the profile, and the profile is centred as its centring mode says: symmetric profiles peak at their centre, "
     "mean-centred asymmetric ones have their mean there and mode-centred ones their mode (to the precision of the mode approximation), apart from the requested shift. "
     "A line-spread function's width at a wavelength follows its documented resolution law (never below its documented minimum), its profile vector is normalised to unit sum, and invalid widths or resolutions are refused.",
     ["inputs", "configurations"], "all wavelengths, widths, asymmetry parameters, centring modes, IGM indices and LSF types",
     "Tests compare single points with stored values.",
     [L + "line/lineprofileSYM.cpp", L + "line/lineprofileLOR.cpp", L + "line/lineprofileASYM.cpp", L + "line/lineprofileSYMIGM.cpp", L + "spectrum/LSF.cpp"],
     [("profiles", L + "line/"), ("LSF widths", L + "spectrum/LSF*.cpp")], ["CLineProfile::GetLineProfileVal", "CLineProfile::GetLineFlux", "CLSF::GetWidth"])

prop("C15", "Integrated photometry follows the band definition",
     "For every photometric band, the integrated flux is the transmission-weighted (photon-counting) mean flux density per Hz of the band's definition: it is linear in the flux, exact for a constant flux density, and independent of the order of the band's samples. "
     "In a joint fit, the chi-square, amplitude and likelihood constant are those of the weighted least squares over spectrum samples and photometric bands together, with the same attenuation applied to both, the model photometry reported is that of the fitted model, and the fit is refused when the template does not cover a band.",
     ["inputs"], "all bands, transmissions, spectra, redshifts and photometric errors",
     "Tests check one band.",
     [L + "photometry/", L + "operator/templatefittingwithphot.cpp"], [("band integration", L + "photometry/photometricband.cpp"), ("joint fit", L + "operator/templatefittingwithphot.cpp")],
     ["CPhotometricBand::IntegrateFlux", "COperatorTemplateFittingPhot::Compute"])

prop("C16", "Amplitude rules enforce their physical ordering and touch nothing else",
     "Each enabled amplitude rule, applied to any set of fitted line elements, leaves its constraint satisfied: a Balmer line alone in its element does not exceed its allowed fraction of the stronger one, "
     "the two lines of a ratio rule are brought into their allowed ratio by the error-weighted mean of the two measurements, and no weak line exceeds the lowest strong line of its type plus that line's error. "
     "Limiting a line rescales the lines of its element so that they keep their nominal ratios, an inequality rule never increases a positive amplitude and never changes an error, lines outside the wavelength range and elements outside a rule's scope keep amplitude and error exactly, "
     "and applying a rule a second time changes nothing. Disabled rules have no effect and every correction is logged when logs are enabled.",
     ["inputs", "configurations"], "all catalogues, amplitudes, errors, and subsets of rules",
     "Tests apply each rule to a pair of amplitudes.",
     [L + "line/rule2singlelinesamplitude.cpp", L + "line/ruleOIIRatioRange.cpp", L + "line/ruleStrongHigherThanWeak.cpp", L + "line/ruleSuperStrongHighest.cpp", L + "line/regulament.cpp"],
     [("rules", L + "line/rule*.cpp"), ("dispatch", L + "line/regulament.cpp")], ["CRegulament::Apply"])

prop("C17", "Results and parameters are retrieved exactly under the scope that wrote them",
     "A result or parameter stored under an object, stage, method and name is returned, unchanged, by every later lookup with the same key (explicit or through the current scope) and by no lookup with another key; storing a result never overwrites another one, "
     "missing or mistyped entries raise an error, typed parameter access in the current scope resolves exactly the scoped path (lists fall back to the unscoped name), a parameter set saved and read again is the same, and the processing switches derived from the parameters follow the configured method. "
     "The data set of each candidate is returned under its rank and name. Scopes can only be entered in their order (object, stage, method), and leaving one always restores the previous scope, also when an error is thrown.",
     ["histories", "inputs"], "all sequences of store, lookup, delete, reset and scope push/pop",
     "Tests make a handful of calls each.",
     [L + "processflow/resultstore.cpp", L + "processflow/parameterstore.cpp", L + "processflow/scopestore.cpp", L + "processflow/scopestack.cpp", L + "processflow/autoscope.cpp"],
     [("scoped keys", L + "processflow/scopestore.cpp"), ("stores", L + "processflow/resultstore.cpp; parameterstore.cpp"), ("scope guard", L + "processflow/autoscope.cpp")],
     ["COperatorResultStore", "CParameterStore", "CAutoScope"])

prop("C18", "Processing one spectrum is deterministic and isolated from the others",
     "Processing a spectrum gives the same stored results whatever other spectra were processed before it by the same process, and whenever it is repeated. "
     "An error in one stage or object is reported under that stage and object, does not erase the results of the others, and leaves the process able to handle the next spectrum correctly; "
     "warnings raised for one spectrum are not attributed to another.",
     ["histories", "fault_sequences", "inputs"], "all orders of spectra, repetitions, and stage failures injected at every stage",
     "Tests process one spectrum per process.",
     [P + "ProcessFlow.py", P + "Context.py", P + "AbstractOutput.py", P + "ResultStoreOutput.py", L + "processflow/context.cpp", L + "processflow/inputcontext.cpp", L + "common/flag.cpp"],
     [("context reset", P + "Context.py; " + L + "processflow/context.cpp"), ("error capture", P + "Context.py"), ("warning flags", L + "common/flag.cpp")],
     ["ProcessFlow.run", "Context.run", "ResultStoreOutput"])

prop("C19", "Parameter files are fully checked, converted and completed before use",
     "A version 1 or 2 parameter tree is accepted exactly when every mandatory entry is present, no unexpected entry is present in a closed section, every value has its documented type, enumerated value or size, and the documented relations hold (the entries, sections, continuum removal, line-spread function, dust, photometry, templates and line measurement settings that the chosen methods and options need are there; listed models and enabled stages have their sections; filters name existing columns; fft and photometry exclude each other; the first pass keeps at least as many extrema); "
     "anything else, an unknown version included, is reported as an invalid parameter file. Entries that the configuration does not use are reported as unused, and only then. The parameters in use hold exactly the given values under their current names; conversion from version 1 is deterministic, renames the entries and enumerated values only (never the names and paths chosen by the user) and gives the same parameters as the equivalent version 2 tree; completion only adds the documented defaults or replaces entries reported as unused. "
     "The given tree is never modified, two sets of parameters never share anything, and every accessor and the parameter store of the library return the values of the tree.",
     ["inputs", "configurations"], "all parameter trees derived from the valid ones by removal, replacement, addition and version migration",
     "Tests alter one key at a time from a few hand-written trees.",
     [P + "ParametersChecker.py", P + "ParametersConverter.py", P + "ParametersExtender.py", P + "ParametersAccessor.py", P + "Parameters.py",
      "pylibamazed/auxdir/pylibamazed/jsonschema-v1/", "pylibamazed/auxdir/pylibamazed/jsonschema-v2/", "pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv"],
     [("checks", P + "ParametersChecker.py"), ("conversion", P + "ParametersConverter.py"), ("extension", P + "ParametersExtender.py")],
     ["Parameters", "Parameters.to_json", "CProcessFlowContext.LoadParameterStore"])

prop("C20", "The spectrum reader loads, filters and merges exactly the requested samples",
     "For every combination of observations, additional columns, filters, containers (arrays or table columns) and reader settings, the spectra handed to the library hold exactly the samples that pass all the filters, each with its own flux and error: kept by observation in their order when observations are separate or single, "
     "merged in strictly increasing wavelength order (repeated wavelengths told apart by a negligible shift) when merging is configured, with the air to vacuum conversion applied when the spectrum is in air and otherwise ignored with a warning. The other columns are filtered with the same samples, each spectrum gets the line-spread function that the parameters or its own data ask for, "
     "and a later spectrum never changes an earlier one. Every filter instruction that the parameter schema documents is accepted and keeps exactly the rows it describes. Invalid inputs (differing lengths, missing or renamed observation, every sample filtered out, unknown filter column or instruction, named single observation, missing line-spread function, access before loading) raise the documented error rather than dropping or mixing samples.",
     ["inputs", "configurations"], "all spectra, observation sets, filters and reader configurations",
     "Tests use fixed three-sample spectra.",
     [P + "AbstractSpectrumReader.py", P + "Filter.py", P + "FilterLoader.py", P + "Container.py"],
     [("load and check", P + "AbstractSpectrumReader.py"), ("filters", P + "Filter.py")], ["AbstractSpectrumReader.init", "AbstractSpectrumReader.get_spectrum", "ASCIISpectrumReader.load_all", "FilterList.apply"])

prop("C21", "Results written to the output file are the results that were computed",
     "Every attribute and dataset that the configuration asks for and the processing produced appears in the output file with exactly the value held by the result store, under the right object, stage, observation and candidate rank, and is found under its short name; the error of a failed stage is written with its code, message and origin, nothing is written for stages that did not run or failed before producing results, "
     "and writing several spectra, in any order and with any choice of excluded datasets, never mixes their results. The compressed posterior in the file restores to the computed one.",
     ["inputs", "histories", "fault_sequences"], "all spectra, configurations and stage failures", "Tests only check that a few keys exist.",
     [P + "ResultStoreOutput.py", P + "AbstractOutput.py", P + "H5Writer.py", P + "PdfHandler.py"],
     [("extraction", P + "ResultStoreOutput.py"), ("writing", P + "H5Writer.py")], ["H5Writer.write_hdf5"])

prop("C22", "Object classification follows the evidences",
     "The probabilities of the object classes are the normalised exponentials of the per-object log-evidences, sum to one, do not change when all the evidences shift by a constant, and do not overflow for any evidence values. "
     "The reported class is the one with the highest evidence among the objects that were solved; objects without result, or without redshift solver, get no probability mass and do not prevent the classification of the others; when nothing is solved or the evidences are undefined, the classification is refused.",
     ["inputs", "configurations"], "all sets of evidences (including spreads of 1e5) and all subsets of available objects", "Tests run one fixed set.",
     [L + "method/classificationsolve.cpp", L + "method/classificationresult.cpp"], [("normalisation", L + "method/classificationsolve.cpp")], ["CClassificationSolve"])

prop("C23", "Every accepted configuration is processed, and processed as configured",
     "Any combination of options that the parameter checks accept (redshift method, sampling, FFT, fitting methods, continuum and line ratio models, rules, filters, line widths, Lyman alpha profiles, one or several observations, photometry, LSF) can be loaded and processes every valid spectrum: each enabled stage gives its results or one of the documented refusals of the data, never another failure. "
     "The results respect the configuration: the posterior is normalised, covers the requested redshift range (up to one first-pass step) with at most the requested step and is refined around the candidates, at most the requested number of candidates is reported, inside the range, on the posterior's grid, ranked by probabilities that are the integrals of that posterior over disjoint windows, with the density of the posterior; templates, extinction coefficients, IGM curves, "
     "line ratios, velocities and the fitted or measured lines come from the configured catalogues, grids, ranges and filters, disabled corrections are not applied, lines are measured at the found redshift within the configured window, and every observation contributes to the posterior.",
     ["inputs", "configurations"], "all configurations accepted by the parameter checks, all valid spectra", "Tests process a handful of fixed configurations on fixed spectra and compare a few values.",
     [P + "ProcessFlow.py", L + "method/solve.cpp", L + "method/linemodelsolve.cpp", L + "method/templatefittingsolve.cpp", L + "method/tplcombinationsolve.cpp", L + "method/linemeassolve.cpp", L + "operator/linemodel.cpp", L + "processflow/inputcontext.cpp", L + "linemodel/linemodelfitting.cpp"],
     [("option wiring", L + "method/linemodelsolve.cpp"), ("redshift grids", L + "method/objectSolve.cpp"), ("line filters and elements", L + "linemodel/linemodelfitting.cpp"), ("stages", P + "ProcessFlow.py")], ["ProcessFlow.run"])

prop("C24", "Extremum search returns the true maxima of the curve",
     "The extremum search returns only true local maxima (or minima when asked) of the sampled curve inside the search range, ranked by decreasing value, never more than requested, never two closer than the exclusion separation, and never misses the highest one; "
     "a plateau counts once and border samples follow one definition. With a merit threshold, every peak it drops is below the threshold.",
     ["inputs", "configurations"], "all curves including plateaus, border peaks, monotonic curves, one or two samples, NaN-free; all counts, separations and thresholds",
     "Tests search a few literal curves.", [L + "extremum/extremum.cpp"], [("plank tracking, ranking and filtering", L + "extremum/extremum.cpp")], ["CExtremum::Find"])

prop("C25", "Statistical helpers compute what they estimate",
     "Median, weighted mean, standard deviation, peak-width estimation and gaussian fitting return the value of their mathematical definition for every input: the median of any multiset, the exact width of a parabolic log-peak (the distance at which it drops by one unit) whatever its position, scale and noise-free sampling, "
     "the parameters of an exactly gaussian line. Prior helpers return normalised log-priors that follow their definition.",
     ["inputs"], "all vectors (odd/even sizes, ties, large sizes), peak positions, widths and samplings",
     "Tests use literal vectors.", [H + "common/median.h", H + "common/mean.h", L + "statistics/deltaz.cpp", L + "gaussianfit/gaussianfit.cpp", L + "statistics/zprior.cpp"],
     [("selection algorithms", H + "common/median.h"), ("parabola fit", L + "statistics/deltaz.cpp"), ("LM fit", L + "gaussianfit/gaussianfit.cpp")], ["CMedian", "CDeltaz", "CGaussianFit"])

prop("C26", "Concurrent logging loses, tears and duplicates nothing",
     "When several threads log at the same time, each handler receives every message at or above its level exactly once, whole and in per-thread order, and no message below its level; there is no data race. Handlers installed, removed or re-levelled between messages take effect from the next message, and a handler that raises does not block the log for the others.",
     ["schedules", "histories"], "all interleavings of logging threads and handler changes", "No test logs from two threads.",
     [L + "log/log.cpp", L + "log/filehandler.cpp", L + "log/handler.cpp", L + "common/mutex.cpp"], [("message lock", L + "log/log.cpp")], ["CLog", "CLogFileHandler"])

prop("C27", "The calibration used is exactly what the calibration files hold",
     "Every template (wavelengths and fluxes), line (position in the spectrum's frame, type, force, profile, group, velocity group, offset, nominal amplitude), ratio catalogue (amplitudes, velocities, asymmetry, prior, copies per extinction, sub type), photometric band, dust table and grid, IGM curve and redshift bin and LSF width the library works with is exactly that of the files configured for the object and the method, "
     "whatever the order of rows, columns, files and objects and whatever other files lie beside them; loading again accumulates nothing and mixes nothing of the previous load; a missing, malformed or inconsistent file is refused with an error of the library and the next valid configuration loads correctly.",
     ["inputs", "configurations", "histories", "fault_sequences"], "all sets of valid calibration files and configurations using them, sequences of loads, and damaged files", "Tests load a few files of fixed content and check that the loading does not fail, or mock the loading.",
     [P + "CalibrationLibrary.py", P + "lsf.py", P + "SubType.py", L + "line/catalog.cpp", L + "line/lineRatioCatalog.cpp", L + "spectrum/template/catalog.cpp", L + "spectrum/fluxcorrectionmeiksin.cpp", L + "spectrum/fluxcorrectioncalzetti.cpp", L + "photometry/photometricband.cpp", L + "processflow/inputcontext.cpp"],
     [("file parsers", P + "CalibrationLibrary.py"), ("line and ratio catalogues", L + "line/catalog.cpp"), ("template catalogue", L + "spectrum/template/catalog.cpp")], ["CalibrationLibrary.load_all", "ProcessFlow"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, (len(p["title"]), p["title"])
            f.write(json.dumps(p) + "\n")
    print(len(props))
