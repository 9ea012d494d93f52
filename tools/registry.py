"""What each check runs. job = (kind, flavour, harness, timeouts (quick, thorough))"""


def cpp(h, quick=200, thorough=3000, **kw):
    return dict(kind="cpp", flavour="plain", harness=h, timeout=(quick, thorough), **kw)


def san(h, scale=(0.15, 1.0), quick=400, thorough=3000, **kw):
    return dict(kind="cpp", flavour="san", harness=h, timeout=(quick, thorough), scale=scale, **{"memory_only": True, **kw})


def vg(h, scale=(0.02, 0.2), quick=300, thorough=3000, **kw):
    return dict(kind="cpp", flavour="vg", harness=h, timeout=(quick, thorough), scale=scale, **{"memory_only": True, **kw})


def pysan(h, scale=(0.15, 1.0), quick=400, thorough=3000, **kw):
    return dict(kind="py", flavour="san", harness=h, timeout=(quick, thorough), scale=scale, **{"memory_only": True, **kw})


def tsan(h, scale=(0.6, 0.5), quick=300, thorough=3000, **kw):
    return dict(kind="cpp", flavour="tsan", harness=h, timeout=(quick, thorough), scale=scale, **kw)


def py(h, quick=300, thorough=3000, **kw):
    return dict(kind="py", flavour="plain", harness=h, timeout=(quick, thorough), **kw)


CPP = "airvac attenuation axis candidates classif continuum extremum linemodel logging pdf photometry profile rebin rules stats stores tplcomb tplfft tplfit zgrid".split()
SLOW = "linemodel photometry profile tplcomb tplfft tplfit".split()
VG = [h for h in CPP if h != "logging"]  # its threads starve under memcheck; the thread sanitizer watches them in C26
PYTHON = "calib configs isolation output params reader".split()

CHECKS = {
    "C01": dict(
        jobs=[san("hostile", scale=(0.4, 6), memory_only=False)] + [san(h, scale=(0.1, 1.5) if h in SLOW else (0.4, 3)) for h in CPP]
        + [vg("hostile", scale=(0.03, 0.3))] + [vg(h, scale=(0.02, 0.1) if h in SLOW else (0.04, 0.3)) for h in VG]
        + [pysan(h, scale=(0.1 if h == "isolation" else 0.15, 2)) for h in PYTHON], level="exploration",
        technique="runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, library assertions and valgrind memcheck over the workloads of all properties and over small, empty and extreme inputs",
        note="No instrumented run of the real code reported an out-of-bounds, use-after-free, uninitialised or undefined operation, and every refusal was the library's own error; covers the executed inputs only.",
        rule="the randomized workloads of C02..C27 (C++ and the Python process flow with the instrumented library) and a workload of small, empty, boundary, extreme and non-finite inputs; "
             "each case is a fresh set of inputs; non-trivial as declared by each workload; distinct by input content",
        require={"san/monitor/returned": 8000, "san/monitor/refused": 1000}
        | {f"san-cpp-cases/{h}": 30 for h in CPP} | {f"vg-cpp-cases/{h}": 8 for h in VG} | {f"san-py-cases/{h}": 3 for h in PYTHON}),
    "C11": dict(
        jobs=[cpp("axis", scale=(20, 2))], level="exploration",
        technique="runtime monitoring: randomized call histories against brute-force reference oracles",
        note="Each observed query of the real axis, range, index, mask and spectrum classes equals a linear scan of its definition; covers the generated inputs only.",
        rule="random axes, intervals, masks and call histories (queries on, between, next to and outside the samples); every result is compared with a "
             "linear scan of the definition; non-trivial = at least two samples (and a non-empty interval for ranges), distinct by input content",
        require={"monitor/closed-interval-first": 500, "monitor/log-sampled-after-history": 300}),
    "C02": dict(
        jobs=[cpp("pdf", scale=(10, 2))], level="exploration",
        technique="runtime monitoring: online reference oracle (long-double log-sum-exp and priors) over randomized merits, grids and priors",
        note="Every posterior value, evidence and prior the real code returned is compared with an independent long-double evaluation of Bayes' rule.",
        rule="random grids (regular, log, irregular, multi-window), 1..n models, merit spreads up to 1e5, priors and combination modes; each posterior is compared "
             "with the formula; non-trivial = at least two redshifts with distinct merits",
        require={"monitor/bayes-combination": 5000, "monitor/normalised": 300, "monitor/prior-strong-line": 5000, "monitor/combined-evidence": 200}),
    "C03": dict(
        jobs=[cpp("candidates", scale=(20, 2))], level="exploration",
        technique="runtime monitoring: trace monitor of candidate sets (ranking, disjointness, integrals) on randomized posteriors",
        note="Each candidate set returned by the real first and second pass search is checked against the posterior it was extracted from.",
        rule="random posteriors (peaks of any height, width and spacing, border peaks, plateaus), counts, separations and integration methods; non-trivial = at least one candidate",
        require={"monitor/ranking": 2000, "monitor/integrated-probability": 1000, "monitor/duplicate-zero": 100, "monitor/gaussian-integral": 300}),
    "C04": dict(
        jobs=[cpp("zgrid", scale=(20, 2))], level="exploration",
        technique="runtime monitoring: reference oracle over randomized grids, windows and insertion histories",
        note="Grids, insertions and regularised posteriors produced by the real code are compared with a sample-by-sample definition.",
        rule="random ranges, steps, samplings, window centres and widths inserted in every order; non-trivial = more than one sample",
        require={"monitor/grid-samples": 500, "monitor/insertion": 1000, "monitor/regular-values": 500}),
    "C24": dict(
        jobs=[cpp("extremum", scale=(30, 2))], level="exploration",
        technique="runtime monitoring: exhaustive small and random curves against a brute-force peak definition",
        note="Each extrema list is compared with the brute-force set of maximal plateaus, greedy separation and threshold rules.",
        rule="all small integer curves of length up to the bound and random curves with plateaus and border peaks; non-trivial = at least one peak",
        require={"monitor/exact-peak-set": 1000, "monitor/separation": 2000, "monitor/merit-cut": 2000}),
    "C25": dict(
        jobs=[cpp("stats", scale=(10, 2))], level="exploration",
        technique="runtime monitoring: reference oracles of the statistical definitions over random vectors",
        note="Each statistic, fit and prior the real code returned is compared with its definition; covers the generated inputs only.",
        rule="random vectors of every size, parity and tie structure, peaks and lines of random position, width and sampling; non-trivial = at least two distinct values",
        require={"monitor/median": 500, "monitor/parabola-width": 100, "monitor/line-width": 100, "monitor/prior-template": 5000}),
    "C09": dict(
        jobs=[cpp("attenuation", scale=(2, 2))], level="exploration",
        technique="runtime monitoring: state model of the template's attenuation checked after every call of random operation histories",
        note="After every operation the template's flux is compared with the model raw flux times the selected table factors.",
        rule="random dust and IGM tables, resolutions and histories of attenuation, range, scaling, copy and reset calls; non-trivial = at least one attenuated sample",
        require={"monitor/igm-convolution": 1000, "monitor/reported-coefficients": 5000, "monitor/dust-coefficient": 5000}),
    "C10": dict(
        jobs=[cpp("rebin", scale=(5, 2))], level="exploration",
        technique='runtime monitoring: reference interpolations and grid definition checked on every resampling of random histories',
        note='Every resampled sample, error and mask the real code returned is compared with an independent interpolation; log grids and templates are checked against their definition.',
        rule='random source and target axes, ranges, interpolation methods, error options and histories of changes between resamplings; whole input contexts with linear or log-sampled spectra; non-trivial = at least one covered sample',
        require={'monitor/linear-value': 10000, 'monitor/spline-value': 3000, 'monitor/finegrid-value': 3000, 'monitor/log-flux': 3000, 'monitor/template-flux': 10000, 'monitor/template-aligned': 300}),
    "C05": dict(
        jobs=[cpp("tplfit")], level="exploration",
        technique='runtime monitoring: brute-force weighted least-squares reference on every redshift and attenuation of randomized fits',
        note='Every number the real template fit returned is compared with a direct long-double evaluation of the masked weighted least squares; covers the generated inputs only.',
        rule='random spectra (1 to 3 observations), templates, redshifts, ranges, masks, attenuation tables and options, priors and constraints; every intermediate chi-square and every reported number is compared with the direct sums, the model spectrum with the chi-square, and refits with other redshift sets or corrupted unused samples; non-trivial = the fit was accepted',
        require={'monitor/chi2': 5000, 'monitor/intermediate-chi2': 15000, 'monitor/model-chi2': 1500, 'monitor/history-independent': 3000, 'monitor/unused-samples': 5000, 'monitor/overlap-refused': 200}),
    "C15": dict(
        jobs=[cpp("photometry")], level="exploration",
        technique='runtime monitoring: band definition and joint least-squares reference on randomized bands and fits',
        note='Each band flux and each number of the joint fit is compared with a direct evaluation; covers the generated inputs only.',
        rule='random bands (sampling, zero transmissions, both orientations), fluxes, catalogues and joint fits (dust, IGM, masks, priors, weights, bands on both sides of Lyman alpha); non-trivial = the band has flux or the fit was accepted',
        require={'monitor/band-definition': 4000, 'monitor/chi2': 3000, 'monitor/model-photometry': 3000, 'monitor/photometric-chi2': 3000, 'monitor/overlap-refused': 200}),
    "C07": dict(
        jobs=[cpp("tplcomb")], level="exploration",
        technique='runtime monitoring: joint weighted least-squares reference on every redshift and attenuation of randomized combinations',
        note='Every number the real template-combination fit returned is compared with a long-double solution of the joint weighted least squares; covers well-conditioned generated inputs.',
        rule='random spectra, sets of 1 to 4 templates (on one axis or several), redshifts, ranges, masks and attenuation options; every intermediate chi-square and reported number is compared with the direct solution, the rebuilt model with the chi-square, and refits with permuted templates and redshifts; non-trivial = the fit was accepted',
        require={'monitor/chi2': 4000, 'monitor/amplitude': 10000, 'monitor/covariance': 30000, 'monitor/model-chi2': 2000, 'monitor/template-order': 10000, 'monitor/overlap-refused': 200}),
    "C06": dict(
        jobs=[cpp("tplfft")], level="exploration",
        technique='runtime monitoring: direct sums at every redshift as a reference for the FFT fit, on randomized spectra, grids and sub-ranges',
        note='Every number of the FFT fit is compared with direct long-double sums over the log-sampled spectrum and template; covers the generated inputs only.',
        rule='random log-sampled or rebinned spectra, steps, sampling ratios, redshift ranges, IGM redshift bins (several per step or none), attenuation options, sub-ranges on the same operator, and spectra in sequence with different steps; non-trivial = a fit was done',
        require={'monitor/chi2': 20000, 'monitor/intermediate-chi2': 50000, 'monitor/redshift-range': 500, 'monitor/reported-attenuation': 20000}),
    "C13": dict(
        jobs=[cpp("airvac", scale=(10, 2))], level="exploration",
        technique='runtime monitoring: published refraction formulas in long double against randomized wavelength vectors',
        note='Each wavelength the real converters returned is compared with an independent evaluation of the published relation and with the round trip.',
        rule="random wavelength vectors over each relation's domain (edges, duplicates, unsorted, single samples, out-of-domain samples); non-trivial = in-domain vector; distinct by wavelengths and relation",
        require={'monitor/air-to-vacuum': 20000, 'monitor/round-trip': 20000, 'monitor/out-of-domain': 500, 'monitor/independent-samples': 2000}),
    "C14": dict(
        jobs=[cpp("profile")], level="exploration",
        technique='runtime monitoring: numerical integration and differentiation of the profiles observed',
        note='Fluxes and derivatives the real profiles reported are compared with numerical quadrature and differentiation of the values they returned; widths with the documented laws.',
        rule='random profiles (type, asymmetry, centring, shift, IGM curve), positions and widths, and random LSFs of every type including refused ones; non-trivial = width above zero; distinct by parameters',
        require={'monitor/flux': 3000, 'monitor/derivative-x0': 5000, 'monitor/derivative-sigma': 5000, 'monitor/igm-derivative-x0': 1000, 'monitor/width-law': 10000, 'monitor/kernel-sum': 5000, 'monitor/mode-centre': 200, 'monitor/invalid-lsf': 100}),
    "C16": dict(
        jobs=[cpp("rules", scale=(8, 2))], level="exploration",
        technique='runtime monitoring: amplitudes before and after the real rules against invariants and a plain model of each rule',
        note="Every amplitude and error left by the real regulament is compared with a plain model of the enabled rules and with each rule's invariants.",
        rule='random element sets (single and grouped lines, emission and absorption, weak and strong, out-of-range lines, negative, null and undefined amplitudes, null errors) and every subset of rules; non-trivial = a rule changed an amplitude; distinct by amplitudes before and after',
        require={'monitor/balmer-ordering': 1500, 'monitor/ratio-in-range': 800, 'monitor/weak-below-strong': 8000, 'monitor/out-of-scope-unchanged': 50000, 'monitor/idempotent-strongweak': 10000, 'changed': 4000}),
    "C17": dict(
        jobs=[cpp("stores", scale=(4, 2))], level="exploration",
        technique='runtime monitoring: random histories of scopes, stores and lookups against plain maps',
        note='Every lookup of the real stores is compared with a map of what was stored; every scope state with a plain list.',
        rule='random histories of scope push, pop and exceptions, stores, duplicate stores, lookups by path and scope (present, missing, mistyped), resets, parameter trees of every type and JSON round trips, candidate sets of every result type; non-trivial = more than two entries stored; distinct by history',
        require={'monitor/no-overwrite': 10000, 'monitor/missing-refused': 1500, 'monitor/scope-name': 50000, 'scopes-left-by-exception': 1500, 'monitor/parameter-value': 20000, 'monitor/other-scope': 20000, 'monitor/candidate-dataset': 6000}),
    "C12": dict(
        jobs=[cpp("continuum", scale=(6, 2))], level="exploration",
        technique='runtime monitoring: independent implementation of the separation observed over call histories',
        note='Each view of the real spectra (flux and noise) is compared with an independent implementation of the decomposition and of the median filter.',
        rule='random spectra (regular, log, irregular, with null borders), kernel widths, reflections, methods and call histories (views, amplitudes, copies, extracts, masks); non-trivial = a decomposition was compared; distinct by method, reflection and size',
        require={'monitor/median-continuum-definition': 400, 'monitor/continuum-of-the-method': 400, 'monitor/noise-kept': 2000, 'monitor/offset-moves-the-continuum-by-itself': 200, 'monitor/current-view': 800}),
    "C22": dict(
        jobs=[cpp("classif", scale=(20, 2))], level="exploration",
        technique='runtime monitoring: long-double softmax oracle over randomized result stores and histories',
        note='Each probability, evidence and label the real classification returned is compared with the definition.',
        rule='random object sets, solver methods, evidences (ties, spreads up to 1e306, infinite, undefined), unsolved objects and successive spectra; non-trivial = at least two solved objects; distinct by regime and size',
        require={'monitor/probability-is-the-normalised-evidence': 1000, 'monitor/label-is-the-highest-evidence': 500, 'monitor/no-mass-without-result': 300, 'monitor/shift-invariant': 500, 'monitor/nothing-to-classify-refused': 40}),
    "C26": dict(
        jobs=[cpp("logging"), tsan("logging")], level="exploration",
        technique='runtime monitoring: recording handlers and thread sanitizer over stressed thread schedules',
        note='Messages received by recording and file handlers under stressed schedules are checked for loss, tearing, order and level, with ThreadSanitizer on the same workloads.',
        rule="2-8 threads, 1-8 recording or file handlers with random levels and delays, reconfiguration under the logger's own lock, failing handlers; non-trivial = the threads really interleaved; distinct by number of thread switches",
        require={'monitor/whole-message': 50000, 'monitor/once-and-in-the-order-of-the-thread': 50000, 'thread-switches': 500, 'tsan/thread-switches': 200, 'handler-epochs-with-messages': 60, 'monitor/log-usable-after-a-failing-handler': 20}),
    "C08": dict(
        jobs=[cpp("linemodel", scale=(2, 2))], level="exploration",
        technique='runtime monitoring: independent evaluation of the line model (windows, profiles, merit, least-squares solutions) observed beside the real fits, and beside the models saved by the whole method',
        note='Every merit, amplitude, offset, polynomial, residual and saved model reported by the real line model is compared with an independent evaluation in extended precision.',
        rule='random spectra (1-2 observations), catalogues (single and grouped lines, overlapping windows, windows on the edges or outside, symmetric and Lorentzian profiles, offsets), width models, continua, fitting methods, rules and ratio catalogues, redshift sequences with returns, and runs of the whole two-pass method; non-trivial = an amplitude was compared; distinct by configuration and pattern of overlaps',
        require={'monitor/merit-is-the-squared-difference-with-the-model-of-the-reported-lines': 5000, 'monitor/joint-least-squares-amplitudes': 4500, 'joint/negative': 900, 'joint/positive': 600, 'monitor/fitted-offset-is-the-best-of-the-grid': 300, 'monitor/merit-of-a-catalogue-of-ratios': 1500, 'monitor/least-squares-amplitude-of-an-element': 4000, 'monitor/same-merit-when-the-redshift-is-visited-again': 1200, 'monitor/saved-model-is-the-continuum-plus-the-reported-lines': 20000, 'monitor/joint-least-squares-offset': 800, 'monitor/direct-flux-is-the-integral-of-the-data-over-the-continuum': 10000, 'monitor/reported-continuum-is-the-mean-under-the-line': 16000, 'monitor/flux-of-an-absorption-line': 4000, 'monitor/flux-of-a-complex-is-the-sum-of-its-lines': 120, 'monitor/signal-to-noise-of-the-emission-lines': 100}),
    "C20": dict(
        jobs=[py("reader")], level="exploration",
        technique='runtime monitoring: reference oracle (row by row filters, sorted merge) over randomized readers and observation sets',
        note='The arrays of every spectrum built by the real reader are compared with a row-by-row reference; covers the generated inputs only.',
        rule='random observation sets (1-4 names, shared wavelengths, arrays or indexed table columns, unsorted merges), extra columns, 0-4 filters of every instruction, air or vacuum frames, line-spread functions, one defect injected per refusal case; non-trivial = at least two samples kept or a refusal observed; distinct by configuration, filters and number of samples',
        require={'monitor/number-of-samples': 1500, 'monitor/flux-and-error-of-each-sample': 1500, 'monitor/air-wavelengths-converted': 150, 'monitor/rows-kept-by-filters': 1200, 'monitor/filtered-other-values': 800, 'monitor/all-samples-filtered-out-refused': 150, 'monitor/error-code:flux-length': 50, 'monitor/lsf-from-spectrum': 80}),
    "C19": dict(
        jobs=[py("params")], level="exploration",
        technique='runtime monitoring: the real parameter pipeline (schema check, conversion, relation check, completion, accessors, C++ parameter store) run on generated and mutated trees against an independent description of the format',
        note='independent description of both versions of the format, of the relations and of the defaults; random valid trees (also converted from version 1), single mutations of every kind; acceptance, error code, unused warning, kept and completed entries, isolation, accessors and C++ store compared',
        rule='violation = a valid tree refused, an invalid one accepted or refused with another error, a given value changed or lost, a wrong default, a shared or modified tree, a wrong accessor or stored value',
        require={'monitor/valid-accepted': 1500, 'monitor/entry-kept': 100000, 'monitor/v1-accepted': 1000, 'monitor/same-as-version-2': 700, 'monitor/v1-entry-kept': 60000, 'monitor/remove-refused': 1000, 'monitor/value-refused': 1000, 'monitor/add-refused': 500, 'monitor/relation-lsf-width': 20, 'monitor/relation-median-reflection': 10, 'monitor/relation-method-section': 60, 'monitor/v1-linemeas-section-refused': 10, 'monitor/store-value': 100000, 'monitor/access-stage_enabled': 5000, 'monitor/unused-reported': 1500, 'monitor/entry-completed': 5000}),
    "C18": dict(
        jobs=[py("isolation")], level="exploration",
        technique="end-to-end differential monitoring of the Python processing: each spectrum's complete stored results and errors compared with those of the same spectrum processed alone in a fresh process, under random orders, interleaved processing flows and injected faults (Python stages and, through an LD-interposed throwing shim, inside the C++ library)",
        note='Random calibration sets and configurations (one to three objects, all redshift methods, line measurement, reliability, sub-classification, several observations, photometry), random orders of good and faulty spectra, several flows in the same process; errors raised before or after each Python stage and at the n-th call of about 130 functions of the library. Results are compared bit for bit (undefined values equal). Faults inside destructors are not injected.',
        rule='after any history the full result of a spectrum equals its result when processed first; a fault in a stage is reported under that stage with its code and message, its dependent stages are reported as not run, the other objects and stages are unchanged, the class is the best solved object, and the next spectra are unchanged',
        require={'monitor/same-results-whatever-came-before': 300, 'monitor/same-results-whatever-other-flow-ran': 60, 'monitor/same-results-in-another-process': 30, 'monitor/fault/next-spectrum-unchanged': 120, 'monitor/inner-fault/next-spectrum-unchanged': 300, 'monitor/inner-fault/other-object-results-unchanged': 80, 'monitor/fault/other-object-results-unchanged': 20, 'inner faults/reported': 120, 'spectra in sequence': 700}),
    "C21": dict(
        jobs=[py("output")], level="exploration",
        technique='end-to-end monitoring of the output: every attribute of the object, of its short names and of the HDF5 file compared with the C++ result store read directly through the bindings',
        note="Frozen table of attributes (pychecks/output_table.tsv) independent of the repository's specification file; random configurations, spectra good and faulty, several spectra per file, delayed writes in any order, excluded datasets, stages failing before their work, reliability models, posteriors restored from the object and from the file. Not covered: AmazedSpectrumWriter; line mask of line measurement (never produced); get_lines_ids with the same line name in two catalogues.",
        rule='violation = a value of the object or file differing from the result store, a produced attribute missing, something written for a failed stage, an unknown group, a wrong error, a posterior not restored',
        require={'monitor/file/value': 12000, 'monitor/output/value': 12000, 'monitor/file/errors': 80, 'monitor/file/error-value': 500, 'monitor/pdf/values-restored': 200, 'monitor/nothing-of-a-failed-stage': 400, 'monitor/short-name/object': 100, 'failed stages': 25}),
    "C23": dict(
        jobs=[py("configs")], level="exploration",
        technique='end-to-end monitoring of random accepted configurations: oracle of conformity of the results with the configuration and of the reported probabilities with the reported posterior',
        note='Random calibration sets and parameter trees over every documented option value (usual values, every option, FFT, several observations, redshifts with Lyman alpha in the range), valid spectra; refusals of the data accepted: no peak, flat posterior, inconsistent line catalogue for the fit, no sample, MULTIOBS_WITH_PHOTOMETRY. tplCorr, FFT and combination with several observations are known findings.',
        rule='violation = an accepted configuration that does not load or fails with another error than the documented refusals, or a result that contradicts the configuration or the reported posterior',
        require={'monitor/accepted-configuration-loads': 300, 'monitor/posterior-normalised': 550, 'monitor/candidate-inside-range': 900, 'monitor/probability-is-the-integral': 850, 'monitor/lines-are-the-filtered-catalogue': 500, 'monitor/velocity-in-range': 120, 'monitor/extinction-on-grid': 200, 'monitor/refined-step': 400, 'monitor/measured-at-the-redshift': 90, 'monitor/observation-unused': 8, 'solved/lineModelSolve': 220, 'solved/templateFittingSolve': 130, 'solved/tplCombinationSolve': 130}),
    "C27": dict(
        jobs=[py("calib")], level="exploration",
        technique='runtime monitoring: probe of the calibration held by the live C++ context, compared with an independent record of the files; fault injection on the files',
        note='Random valid calibration directories (orders, spellings of numbers, names, shared directories, additional files) and directories with one damaged file, loaded by the real process flow; every value held by the library is compared with the one written. Numbers are compared up to the conversion of their decimals.',
        rule='valid: random sets of files, loaded one to three times with other configurations in between; damaged: one file removed, truncated, emptied or made inconsistent, then restored; distinct by content',
        require={'monitor/templates-of-the-object': 200, 'monitor/template-flux': 500, 'monitor/band-samples': 25, 'monitor/igm-curves': 450, 'monitor/dust-table': 110, 'monitor/ratio-prior': 300, 'monitor/loads-after-a-refusal': 60, 'monitor/lsf-width': 30, 'monitor/valid-files-load': 55, 'monitor/valid-files-load-after-others': 90}),
}

NOT_APPLICABLE = {}
