"""C23: every accepted configuration is processed, and processed as configured."""
import json, math, os, re
import numpy as np
import vh
from vh import case
import flow
from flow import describe, flat, inproc, report

# what a spectrum covering the range may be refused for: (code, message)
REFUSALS = [("MULTIOBS_WITH_PHOTOMETRY_NOTIMPLEMENTED", ""), ("PDF_PEAK_NOT_FOUND", ""), ("FLAT_ZPDF", ""), ("BAD_LINECATALOG", ""), ("STDESTIMATION_FAILED", ""),
            ("INTERNAL_ERROR", "less than 3 contiguous non nan values"), ("INTERNAL_ERROR", "empty leastsquare sum"), ("EMPTY_LIST", "Input elements list is empty"),
            ("STAGE_NOT_RUN_BECAUSE_OF_PREVIOUS_FAILURE", ""), ("NO_CLASSIFICATION", ""), ("INVALID_PARAMETER", "measured|IGM|lbfgsb")]


def refused(e): return any(e["code"] == c and re.search(m, e["message"]) for c, m in REFUSALS)


def grid(w, m):
    """requested range, step, sampling, largest step of the explored grid, and end of that grid (grids of FFT solvers end after the range)"""
    s = w.tree["spectrumModel_" + m]
    (lo, hi), step, log = s["redshiftRange"], s["redshiftStep"], s["redshiftSampling"] == "log"
    x = s["redshiftSolver"][w.methods[m]]
    ratio = x["lineModel"]["firstPass"]["largeGridStepRatio"] if "lineModel" in x else 1
    fft = x.get("fftProcessing") or x.get("lineModel", {}).get("continuumFit", {}).get("fftProcessing") or False
    return (lo, hi), step, log, step * ratio, (1 + hi) * math.exp(step * ratio) - 1 if fft else hi, fft


def posterior(q, w, m, got, where):
    import pylibamazed.redshift as red
    p, par = got[(m, "pdf", None)]["LogZPdfNative"], got[(m, "pdf_params", None)]
    (lo, hi), step, log, coarse, end, fft = grid(w, m)
    x = red.CLogZPdfResult(red.CZGridListParams([red.CZGridParam(red.TFloat64Range(a, b), s, z) for a, b, s, z in zip(par["zmin"], par["zmax"], par["zstep"], par["zcenter"])]), log, red.TFloat64List([float(y) for y in p]))
    z = np.array([y for y in x.redshifts])
    st = np.log1p(z) if log else z
    d = np.diff(z)
    q.check(z[0] >= lo - 1e-9 and z[-1] <= end + 1e-9, "posterior-inside-range", f"{where}: {z[0]}..{z[-1]} range {lo}..{hi}")
    u = (math.log1p if log else float)
    q.check(abs(z[0] - lo) < 1e-9 and (z[-1] >= hi - 1e-9 or (not fft and u(hi) - u(z[-1]) < coarse * (1 + 1e-6))), "posterior-covers-range", f"{where}: {z[0]}..{z[-1]} range {lo}..{hi} step {coarse}")
    q.check(np.all(d > 0), "posterior-grid-increasing", where)
    q.check(np.all(np.diff(st) <= coarse * (1 + 1e-6)), "posterior-step", f"{where}: largest step {np.diff(st).max()} configured {coarse}")
    # windows refined by the second pass
    for a, b, s_, c in zip(par["zmin"], par["zmax"], par["zstep"], par["zcenter"]):
        if np.isnan(c): continue
        k = (z >= a - 1e-9) & (z <= b + 1e-9)
        q.check(np.all(np.diff(st[k]) <= step * (1 + 1e-6)), "refined-step", f"{where}: {np.diff(st[k]).max()} in the window of {c}, step {step}")
    t = np.exp(p)
    q.check(abs(np.sum((t[1:] + t[:-1]) / 2 * d) - 1) < 1e-6, "posterior-normalised", f"{where}: {np.sum((t[1:] + t[:-1]) / 2 * d)}")
    return z, p


def windows(q, w, m, got, n, z, p, where):
    """the reported probabilities are the integrals of the reported posterior over disjoint windows"""
    t, d = np.exp(p), np.diff(z)
    cell = (t[1:] + t[:-1]) / 2 * d
    ws = []
    for rank in range(n):
        c = got[(m, "model_parameters", rank)]
        k = int(np.argmin(abs(z - c["Redshift"])))
        q.check(abs(z[k] - c["Redshift"]) < 1e-7, "candidate-on-the-grid", f"{where} rank {rank}: {c['Redshift']} nearest {z[k]}")
        q.check(abs(p[k] - c["RedshiftLogProbaDensity"]) < 1e-6 * max(1, abs(p[k])), "reported-density", f"{where} rank {rank}: {c['RedshiftLogProbaDensity']} posterior {p[k]}")
        if c["RedshiftProba"] == 0 and np.isnan(c["RedshiftProbaZmin"]): continue
        a, b = int(np.argmin(abs(z - c["RedshiftProbaZmin"]))), int(np.argmin(abs(z - c["RedshiftProbaZmax"])))
        x = float(np.sum(cell[a:b]))
        q.check(abs(x - c["RedshiftProba"]) <= 1e-6 * max(x, 1e-6), "probability-is-the-integral", f"{where} rank {rank}: {c['RedshiftProba']} integral {x} over {z[a]}..{z[b]}")
        q.check(a <= k <= b, "window-contains-candidate", f"{where} rank {rank}")
        ws.append((a, b))
    ws.sort()
    for x, y in zip(ws, ws[1:]): q.check(x[1] - y[0] <= 1, "windows-disjoint", f"{where}: {[(z[a], z[b]) for a, b in ws]}")


def candidates(q, w, m, got, z, p, where):
    method = w.methods[m]
    s = w.tree["spectrumModel_" + m]["redshiftSolver"][method]
    o = s.get("lineModel", s)
    (lo, hi), step, log, coarse, end, fft = grid(w, m)
    n = len([k for k in got if k[0] == m and k[1] == "model_parameters"])
    q.check(1 <= n <= o["extremaCount"], "number-of-candidates", f"{where}: {n}, extremaCount {o['extremaCount']}")
    prob = []
    ism = [w.tree["ebmv"]["start"] + k * w.tree["ebmv"]["step"] for k in range(w.tree["ebmv"]["count"])]
    for rank in range(n):
        c = got[(m, "model_parameters", rank)]
        q.check(c["Rank"] == rank, "rank", f"{where}: {c['Rank']} {rank}")
        q.check(lo - 1e-9 <= c["Redshift"] <= end + 1e-9, "candidate-inside-range", f"{where}: {c['Redshift']} {lo}..{hi}")
        prob.append(c["RedshiftProba"])
        yield_ = o.get("continuumFit", o)
        comp = o["spectrum"]["component"] if "spectrum" in o else None
        cont = o.get("continuumComponent", "")
        if cont == "tplFit" or method == "templateFittingSolve" or (cont == "tplFitAuto" and c["ContinuumName"] not in ("", "undefined", "noContinuum", "fromSpectrum")):
            if c["ContinuumName"] != "noContinuum" or method != "lineModelSolve":
                q.check(os.path.basename(c["ContinuumName"]) in w.tplnames[m], "continuum-is-a-template", f"{where}: {c['ContinuumName']} {w.tplnames[m]}")
            e, i = c["ContinuumIsmCoeff"], c["ContinuumIgmIndex"]
            if yield_["ismFit"]: q.check(any(abs(e - x) < 1e-9 for x in ism) or (comp in ("noContinuum", "all") and e == -1), "extinction-on-grid", f"{where}: {e} {ism}")
            else: q.check(not (e > 0), "no-extinction-when-disabled", f"{where}: {e}")
            if not yield_["igmFit"]: q.check(i == -1 or (isinstance(i, float) and np.isnan(i)), "no-igm-when-disabled", f"{where}: {i}")
            else: q.check(-1 <= i < w.nigm, "igm-curve-exists", f"{where}: {i} of {w.nigm}")
        if method == "lineModelSolve":
            for a, name, lbl in (("VelocityEmission", "em", "velocityEmission"), ("VelocityAbsorption", "abs", "velocityAbsorption")):
                v = c[a]
                if o["lineWidthType"] == "instrumentDriven": continue
                ratio = o["lineRatioType"] != "rules"
                if not o["velocityFit"] or o["skipSecondPass"]:
                    if not ratio: q.check(np.isnan(v) or abs(v - o[lbl]) < 1e-9, "velocity-as-configured", f"{where}: {a} {v} {o[lbl]}")
                else:
                    a_, b_ = o[name + "VelocityFitMin"], o[name + "VelocityFitMax"]
                    q.check(np.isnan(v) or a_ - 1e-9 <= v <= b_ + 1e-9 or abs(v - o[lbl]) < 1e-9 or ratio, "velocity-in-range", f"{where}: {a} {v} {a_}..{b_}")
            if o["lineRatioType"] == "tplRatio": q.check(c["LinesRatioName"] + ".tsv" in w.rationames[m], "ratio-exists", f"{where}: {c['LinesRatioName']} {w.rationames[m]}")
        x = got.get((m, "model" + (w.obs[0] if w.multi == "full" else ""), rank))
        if q.check(x is not None, "model-present", f"{where} rank {rank}"):
            l = x["ModelLambda"]
            a, b = w.lo + 10, w.hi - 10
            q.check(len(l) == len(x["ModelFlux"]) and len(l) > 0, "model-lengths", f"{where}: {len(l)} {len(x['ModelFlux'])}")
        f = got.get((m, "fitted_lines", rank))
        if f is not None: lines(q, w, o, f, "Fitted", c["Redshift"], where)
    q.check(all(a >= b - 1e-12 for a, b in zip(prob, prob[1:])), "candidates-ranked-by-probability", f"{where}: {prob}")
    q.check(min(prob) >= 0 and max(prob) <= 1 + 1e-6, "probabilities", f"{where}: {prob}")
    windows(q, w, m, got, n, z, p, where)


def lines(q, w, o, f, prefix, z, where):
    want = [i for i, l in enumerate(w.nlines) if o["lineTypeFilter"] in ("no", l[2]) and o["lineForceFilter"] in ("no", l[3])]
    ids = [int(x) for x in f[prefix + "LineID"]]
    q.check(sorted(ids) == sorted(want), "lines-are-the-filtered-catalogue", f"{where}: {sorted(ids)} want {want} ({o['lineTypeFilter']}, {o['lineForceFilter']})")


def measures(q, w, m, got, z, where):
    s = w.tree["spectrumModel_" + m]
    o = s["lineMeasSolver"]["lineMeasSolve"]["lineModel"]
    p = got.get((m, "linemeas_parameters", None))
    if not q.check(p is not None and (m, "linemeas", None) in got, "measures-present", where): return
    lines(q, w, o, got[(m, "linemeas", None)], "LinemeasLine"[:-4], p["LinemeasRedshift"], where)
    if z is not None:
        q.check(abs(p["LinemeasRedshift"] - z) <= math.expm1(s["lineMeasDzHalf"]) * (1 + z) + 1e-9, "measured-at-the-redshift", f"{where}: {p['LinemeasRedshift']} for {z} half window {s['lineMeasDzHalf']}")


def accepted(c, **force):
    r = c.r
    w = flow.World(r, **force)
    if any(w.tree["spectrumModel_" + m].get("redshiftSolver", {}).get("lineModelSolve", {}).get("lineModel", {}).get("lineRatioType") == "tplCorr" for m in w.models): c.skip()  # known finding
    sids = ["s0", "s1"][:r.i(1, 2)]
    for s in sids: w.spectrum(s, "good")
    w.tplnames = {m: os.listdir(os.path.join(w.cal, f"templates/{m}/{m}")) for m in w.models}
    w.rationames = {m: [x for x in os.listdir(os.path.join(w.cal, f"ratios_{m}")) if x.endswith(".tsv")] if os.path.isdir(os.path.join(w.cal, f"ratios_{m}")) else [] for m in w.models}
    with open(os.path.join(w.cal, "igm", "IGM_variation_curves_meiksin_v3.1", "Meiksin_Var_curves_2.0.txt")) as f: w.nigm = len(f.readline().split()) - 1
    describe(c, w)

    def go(q):
        try:
            pf = flow.process_flow(w)
        except Exception as e:
            import traceback
            q.check(False, "accepted-configuration-loads", f"{e!r} {e} {traceback.format_exc()[-600:]}")
            return
        q.check(True, "accepted-configuration-loads")
        for s in sids:
            rso = pf.run(flow.make_reader(w, pf, s))
            errs = rso.errors
            for k, e in errs.items():
                q.count(f"refused/{e['code']}")
                q.check(refused(e), "no-failure-on-accepted-configuration", f"{s} {k}: {e}")
            q.count("spectra")
            if "init" in errs: continue
            got = flat(rso, w.models)
            for m in w.models:
                where = f"{s} {m} ({w.methods[m]})"
                z = None
                if w.methods[m] and f"redshiftSolver_{m}" not in errs:
                    if not q.check((m, "pdf", None) in got and (m, "model_parameters", 0) in got, "results-present", f"{where}: {[k for k in got if k[0] == m]}"): continue
                    zp, p = posterior(q, w, m, got, where)
                    candidates(q, w, m, got, zp, p, where)
                    z = got[(m, "model_parameters", 0)]["Redshift"]
                    q.count("solved/" + w.methods[m])
                    q.check(not w.rel[m] or f"reliabilitySolver_{m}" in errs or (m, "reliability", None) in got, "reliability-present", where)
                if w.meas[m] and f"lineMeasSolver_{m}" not in errs and f"linemeas_catalog_load_{m}" not in errs: measures(q, w, m, got, z, where); q.count("solved/lineMeasSolve")
            if any(w.methods.values()) and "classification" not in errs:
                q.check(got.get((None, "classification", None), {}).get("Type") in w.models, "class-present", f"{s}: {got.get((None, 'classification', None))}")
    report(c, *inproc(go))
    w.close()


@case(120, 1500)
def usual(c): accepted(c, wide=False)


@case(160, 2500)
def every_option(c): accepted(c, wide=True)


@case(60, 800)
def fft(c): accepted(c, fft=True, phot=False)


@case(60, 800)
def observations(c): accepted(c, multi=c.r.pick(["full", "merge"]), phot=False)


@case(60, 800)
def hiz(c): accepted(c, hiz=True)


@case(24, 400)
def every_observation_counts(c):
    """with the full multi-observation method, changing any observation changes the posterior"""
    r = c.r
    w = flow.World(r, multi="full", phot=False, fft=r.b(0.5), wide=False, catalog=False, meas=False)
    if len(w.obs) < 2: c.skip()
    w.spectrum("s0", "good")
    w.spectra["s1"] = dict(w.spectra["s0"], tabs={o: t.copy() for o, t in w.spectra["s0"]["tabs"].items()})
    k = w.obs[r.i(1, len(w.obs) - 1) if r.b(0.8) else 0]
    t = w.spectra["s1"]["tabs"][k]
    sc = float(np.abs(t["flux"]).mean())
    x = t["wave"].to_numpy()
    t["flux"] = t["flux"] * 0.5 + sc * np.sin(x / r.d(20, 60)) + 3 * sc * np.exp(-0.5 * ((x - r.d(x[0] + 200, x[-1] - 200)) / 9) ** 2)
    describe(c, w)

    def go(q):
        pf = flow.process_flow(w)
        res, errs = [], []
        for s in ("s0", "s1"):
            rso = pf.run(flow.make_reader(w, pf, s))
            res.append(flat(rso, w.models)); errs.append(rso.errors)
        for m in w.models:
            if any("init" in e or f"redshiftSolver_{m}" in e for e in errs): continue
            a, b = (x[(m, "pdf", None)]["LogZPdfNative"] for x in res)
            x = w.tree["spectrumModel_" + m]["redshiftSolver"][w.methods[m]]
            fft = w.methods[m] == "templateFittingSolve" and x["fftProcessing"]
            key = "observation-unused"
            if k != w.obs[0] and w.methods[m] == "tplCombinationSolve": key = "template-combination:only-first-observation-used"
            if k != w.obs[0] and fft: key = "fft-template-fitting:only-first-observation-used"
            q.count(f"compared/{w.methods[m]}{'-fft' if fft else ''}")
            q.check(len(a) != len(b) or not np.allclose(a, b, rtol=1e-6, atol=1e-6), key, f"{m} ({w.methods[m]}): observation {k} of {w.obs} changed, posterior unchanged")
    report(c, *inproc(go))
    w.close()


@case(1, 1)
def tpl_corr(c):
    """line ratio type tplCorr, accepted by the parameter checks, with the class of the ratio"""
    w = flow.World(vh.Rng(4242), models=["galaxy"], multi="", phot=False, method="lineModelSolve", ratio="tplRatio", wide=False, fft=False, rel=False, meas=False, catalog=False, hiz=False)
    w.tree["spectrumModel_galaxy"]["redshiftSolver"]["lineModelSolve"]["lineModel"]["lineRatioType"] = "tplCorr"
    w.spectrum("s0", "good")
    describe(c, w)

    def go(q):
        errs = flow.process_flow(w)
        errs = errs.run(flow.make_reader(w, errs, "s0")).errors
        e = errs.pop("subClassifSolver_galaxy", None)
        q.check(e is None or "Could not find undefined in tpl ratio catalog" not in e["message"], "tplcorr-subclassif:no-ratio-name", str(e))
        q.check(not errs, "no-failure-on-accepted-configuration", str(errs))
    report(c, *inproc(go))
    w.close()


if __name__ == "__main__":
    vh.main()
