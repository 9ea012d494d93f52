"""End-to-end worlds for C18, C21 and C23: calibration directory, parameters, spectra; runs in forked processes."""
import json, math, os, pickle, shutil, signal, sys, tempfile, types
import numpy as np
import pandas as pd
import vh

BASE = tempfile.mkdtemp(prefix="vh-flow-")
LINES = [  # wavelength, name, type, force, profile, amplitude group, group value, velocity group, offset
    (4861.3, "Hbeta", "E", "S", "SYM", "-1", 1, "Em1", 0.0), (4958.9, "[OIII](doublet-1/3)", "E", "W", "SYM", "E1", 1, "Em1", 0.0),
    (5006.8, "[OIII](doublet-1)", "E", "S", "SYM", "E1", 3, "Em1", 0.0), (4340.5, "Hgamma", "E", "W", "SYM", "-1", 1, "Em1", 0.0),
    (3729.88, "[OII]3729", "E", "S", "SYM", "-1", 1, "Em1", 0.0), (3727.09, "[OII]3726", "E", "S", "SYM", "-1", 1, "Em1", 0.0),
    (4861.3, "HbetaA", "A", "W", "SYM", "A1", 1, "Abs1", 0.0), (4304.4, "GBand", "A", "S", "SYM", "-1", 1, "Abs1", 0.0),
    (4101.7, "Hdelta", "E", "W", "SYM", "-1", 1, "Em1", 0.0), (5175.3, "MgI5175", "A", "S", "SYM", "-1", 1, "Abs1", 0.0)]
HIZ = [  # the same around Lyman alpha
    (1215.67, "LyAE", "E", "S", "ASYMFIT", "-1", 1, "Em1", 0.0), (1549.5, "CIV", "E", "S", "SYM", "-1", 1, "Em1", 0.0), (1240.8, "NV", "E", "W", "SYM", "-1", 1, "Em1", 0.0),
    (1397.0, "SiIV", "E", "W", "SYM", "E1", 1, "Em1", 0.0), (1402.8, "SiIVb", "E", "W", "SYM", "E1", 2, "Em1", 0.0), (1190.0, "SiII1190", "E", "W", "SYM", "-1", 1, "Em1", 0.0),
    (1260.4, "SiII1260", "A", "S", "SYM", "-1", 1, "Abs1", 0.0), (1334.5, "CII", "A", "S", "SYM", "-1", 1, "Abs1", 0.0), (1526.7, "SiII1526", "A", "W", "SYM", "A1", 1, "Abs1", 0.0),
    (1549.5, "CIVA", "A", "S", "SYM", "A1", 2, "Abs1", 0.0)]
HEAD = "WaveLength\tName\tType\tForce\tProfile\tAmplitudeGroupName\tAmplitudeGroupValue\tDispersionVelocityGroupName\tWaveLengthOffset\tEnableFitWaveLengthOffset"
LYA = {"profile": "asym", "asymProfile": {
    "switchFixedToFit": False, "switchFitToFixed": False, "asymFitMin": 0, "asymFitMax": 4, "asymFitStep": 1, "widthFitMin": 1,
    "widthFitMax": 4, "widthFitStep": 1, "deltaFitMin": 0, "deltaFitMax": 0, "deltaStepMax": 1}}
def lya(r, hiz):
    if not hiz: return LYA
    if r.b(): return {"profile": "igm"}
    return {"profile": "asym", "asymProfile": {
        "switchFixedToFit": r.b(0.3), "switchFitToFixed": r.b(0.3), "asymFitMin": 0, "asymFitMax": r.i(1, 4), "asymFitStep": r.pick([1, 2]), "widthFitMin": 1,
        "widthFitMax": r.i(2, 4), "widthFitStep": 1, "deltaFitMin": 0, "deltaFitMax": r.pick([0, 1]), "deltaStepMax": 1}}


PRIORS = {"betaA": 1, "betaTE": 1, "betaZ": 1, "catalogDirPath": ""}


def shape(kind, w):
    x = (w - 4000.0) / 1000.0
    if kind == 0: return 1 + 0.25 * x - 0.5 / (1 + np.exp((w - 4000) / 30)) + 0.1 * np.sin(w / 90)
    if kind == 1: return 1.2 - 0.15 * x + 0.2 * np.exp(-0.5 * ((w - 4300) / 120) ** 2) - 0.25 * np.exp(-0.5 * ((w - 3933) / 12) ** 2)
    if kind == 2: return 0.8 + 0.05 * x ** 2 + 0.15 * np.sin(w / 140 + 1) - 0.3 * np.exp(-0.5 * ((w - 5175) / 20) ** 2)
    return 1 + 0.1 * x + 0.3 * np.cos(w / 200)


class World:
    def __init__(self, r, **force):
        self.r = r
        self.force = force
        self.dir = tempfile.mkdtemp(dir=BASE)
        self.cal = os.path.join(self.dir, "calibration")
        self.hiz = self.opt("hiz", r.b(0.25))  # redshifts at which the range contains Lyman alpha
        self.zoom = 3.2 if self.hiz else 1.0
        self.nlines = r.sample(HIZ if self.hiz else LINES, r.i(4, len(LINES)))
        self.extended = self.opt("extended", r.b(0.6))
        self.multi = self.opt("multi", r.pick(["", "", "", "full", "merge"]))
        self.obs = [""] if self.multi == "" else r.pick([["1", "2"], ["blue", "red"], ["a"], ["o1", "o2", "o3"]])
        self.lo, self.hi = 4000.0 + r.i(0, 200), 5800.0 + r.i(0, 400)
        self.phot = self.opt("phot", r.b(0.25))
        self.models = self.opt("models", None) or r.sample(["galaxy", "star", "qso", "z-high"], r.pick([1, 1, 2, 2, 3]))
        self.wide = self.opt("wide", r.b(0.4))  # every documented option value, not only the usual ones
        self.fft = self.opt("fft", r.b(0.2))
        # objects whose lines are measured at the redshifts of a catalogue
        self.catmodels = [m for m in self.models if r.b(0.6)] if self.opt("catalog", r.b(0.15)) else []
        self.spectra = {}
        self.write_common()
        self.tree = self.params()
        self.config = {"calibration_dir": self.cal, "extended_results": self.extended}
        if self.catmodels or r.b():
            self.config["linemeascatalog"] = {m: os.path.join(self.dir, f"cat_{m}.tsv") for m in self.catmodels}
            self.config["linemeas_catalog_columns"] = {m: dict(Redshift="z", VelocityAbsorption="va", VelocityEmission="ve") for m in self.catmodels}
            for m in self.catmodels:
                with open(self.config["linemeascatalog"][m], "w") as f: f.write("ProcessingID\tz\tva\tve\n")

    def opt(self, k, v):
        return self.force.get(k, v)

    def path(self, *a):
        p = os.path.join(self.cal, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write_common(self):
        r = self.r
        w = np.arange(1000, 9000, 1.0)
        with open(self.path("ism", "SB_calzetti.dl1.txt"), "w") as f:
            f.write("# lambda\tflux\n")
            for x in w: f.write(f" {x:.1f} {2.659 * (-2.156 + 1.509e4 / x - 0.198e8 / x ** 2 + 0.011e12 / x ** 3) + 4.05:.8f}\n")
        n = r.i(1, 3)
        for z in ("2.0", "2.5")[:r.i(1, 2)]:
            with open(self.path("igm", "IGM_variation_curves_meiksin_v3.1", f"Meiksin_Var_curves_{z}.txt"), "w") as f:
                for k in range(800):
                    x = 1180 + 0.05 * k
                    f.write(f"{x:.2f}\t" + "\t".join(f"{0.9 - 0.1 * j - 0.0001 * k:.6f}" for j in range(n)) + "\n")
        if self.phot:
            self.bands = r.sample(["u", "g", "riz", "H"], r.i(1, 3))
            for b in ["u", "g", "riz", "H"]:
                c = r.d(4300, 5800)
                with open(self.path("phot", f"{b}.pb"), "w") as f:
                    f.write(f"lambda,{b}\n")
                    for x in np.arange(c - 300, c + 300, 30): f.write(f"{x:.2f},{math.exp(-0.5 * ((x - c) / 120) ** 2):.6f}\n")

    def templates(self, model):
        r, d = self.r, f"templates/{model}"
        self.ntpl = r.i(1, 3)
        w = np.arange(3000, 6800, r.pick([4.0, 7.0])) / self.zoom
        for k in r.sample(range(4), self.ntpl):
            with open(self.path(d, model, f"tpl{k}.dat"), "w") as f:
                f.write("# lambda\tflux\n")
                for x, y in zip(w, shape(k, w * self.zoom)): f.write(f"{x:.3f} {y:.8e}\n")
        return d

    def lines(self, name):
        with open(self.path("lines", name), "w") as f:
            f.write(HEAD + "\n")
            for l in self.nlines: f.write("\t".join(str(x) for x in l) + "\tFALSE\n")
        return "lines/" + name

    def ratios(self, model):
        r, d = self.r, f"ratios_{model}"
        for k in range(r.i(1, 3)):
            with open(self.path(d, f"ratio{k}.tsv"), "w") as f:
                f.write("WaveLength\tName\tType\tNominalAmplitude\n")
                for l in self.nlines:
                    f.write(f"{l[0]}\t{l[1]}\t{l[2]}\t{r.d(0.05, 1) if l[2] == 'A' else r.d(0.5, 3):.4f}\n")
            with open(self.path(d, f"ratio{k}.json"), "w") as f:
                json.dump({"velocities": {"em_vel": r.d(80, 300), "abs_vel": r.d(100, 300)}, "sub_type": f"{r.pick('ABC')}{k}" + "x" * r.i(0, 3),
                           "asym_params": {"profile": r.pick(["ASYMFIXED", "ASYMFIT"]) if self.hiz else "ASYMFIXED", "sigma": 2.0, "alpha": 1.5, "delta": 0.0}}, f)
        return d

    def params(self):
        r = self.r
        rng = [self.lo + 10, self.hi - 10]
        t = {"version": 2, "multiObsMethod": self.multi, "lambdaRange": {o: rng for o in self.obs} if self.multi == "full" else rng,
             "extremaRedshiftSeparation": r.pick([0.01, 0.003]), "smoothWidth": r.pick([0, 0, 3.0]) if self.wide else 0, "autoCorrectInput": self.opt("correct", r.b(0.3)),
             "spectrumModels": self.models,
             "airVacuumMethod": r.pick(["default", "", "morton2000", "edlen1953", "edlen1966", "peckreeder1972", "ciddor1996"]) if self.wide else "default",
             "continuumRemoval": {"method": r.pick(["irregularSamplingMedian", "irregularSamplingMedian", "zero", "raw"]) if self.wide else "irregularSamplingMedian",
                                  "medianKernelWidth": 150, "medianEvenReflection": r.b() if self.wide else True},
             "templateCatalog": {"continuumRemoval": {"method": r.pick(["zero", "irregularSamplingMedian"]), "medianKernelWidth": 150,
                                                      "medianEvenReflection": True}},
             "ebmv": {"start": 0, "step": 0.1, "count": r.i(1, 3)}}
        self.lsf = self.opt("lsf", None) or r.pick(["gaussianConstantResolution", "gaussianConstantWidth", "gaussianVariableWidth", "fromSpectrumData",
                                                    "gaussianNISPSIM2016"])
        t["lsf"] = {"lsfType": self.lsf}
        if self.lsf == "gaussianConstantResolution": t["lsf"]["resolution"] = r.pick([300, 600])
        if self.lsf == "gaussianConstantWidth": t["lsf"]["width"] = r.d(4, 9)
        if self.lsf == "gaussianNISPSIM2016": self.lsf = t["lsf"]["lsfType"] = "gaussianConstantWidth"; t["lsf"]["width"] = 6.5
        if self.lsf == "gaussianVariableWidth":
            from astropy.io import fits
            w = np.arange(3500, 7000, 100.0)
            c = [fits.Column(name="wave", format="D", array=w), fits.Column(name="width", format="D", array=5 + w / 4000)]
            fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns(c)]).writeto(self.path("lsf", "lsf.fits"))
            t["lsf"]["gaussianVariableWidthFileName"] = "lsf/lsf.fits"
        if self.phot:
            t["photometryTransmissionDir"], t["photometryBand"] = "phot", self.bands
        self.methods, self.meas, self.zrange, self.rel = {}, {}, {}, {}
        for m in self.models: t["spectrumModel_" + m] = self.model(m)
        if self.phot and not any(self.photo_used(t["spectrumModel_" + m]) for m in self.models):
            del t["photometryTransmissionDir"], t["photometryBand"]
            self.phot = False
        return t

    @staticmethod
    def photo_used(s):
        x = s.get("redshiftSolver", {})
        return bool(x.get("templateFittingSolve", {}).get("enablePhotometry") or x.get("lineModelSolve", {}).get("lineModel", {}).get("enablePhotometry"))

    def model(self, m):
        r = self.r
        z0 = r.d(0.05, 0.15)
        samp = "log" if self.fft else r.pick(["lin", "log"])
        if self.hiz: z0 = r.d(2.45, 2.6)
        zr = [round(z0, 4), round(z0 + r.d(0.08, 0.14), 4)]
        s = {"stages": [], "redshiftRange": zr, "redshiftStep": r.pick([0.002, 0.001]), "redshiftSampling": samp,
             "templateDir": self.templates(m)}
        self.zrange[m] = zr
        method = self.opt("method", None) or r.pick(["lineModelSolve", "lineModelSolve", "templateFittingSolve", "tplCombinationSolve"])
        if isinstance(method, dict): method = method[m]
        if m in self.catmodels: method = ""
        self.methods[m] = method
        meas = self.opt("meas", None)
        meas = r.b(0.5) if meas is None else meas
        if method in ("templateFittingSolve", "tplCombinationSolve") and not self.opt("measanyway", False): meas = False
        if self.catmodels: meas = m in self.catmodels  # both kinds of line measurement exclude each other
        self.meas[m] = meas
        self.rel[m] = bool(method) and samp == "log" and not self.fft and self.opt("rel", r.b(0.25))
        if self.rel[m]:
            s["stages"].append("reliabilitySolver")
            s["reliabilitySolver"] = {"method": "deepLearningSolver", "deepLearningSolver": {"reliabilityModel": f"rel/{m}.h5"}}
            self.reliability(m, zr, s["redshiftStep"])
        if method:
            s["stages"].append("redshiftSolver")
            s["redshiftSolver"] = {"method": method, method: getattr(self, method)(m)}
        if meas:
            s["stages"].append("lineMeasSolver")
            s["lineMeasDzHalf"], s["lineMeasRedshiftStep"] = r.pick([0.001, 0.0]), 0.0005
            lm = {"ampOffsetFit": False, "lbdaOffsetFit": False, "continuumComponent": r.pick(["noContinuum", "fromSpectrum"]), "lineCatalog": self.lines(f"meas_{m}.tsv"),
                  "lineTypeFilter": r.pick(["E", "no"]), "lineForceFilter": "no", "nSigmaSupport": 8, "lineWidthType": "combined",
                  "fittingMethod": r.pick(["hybrid", "individual", "svd"]), "polynomialDegree": 2, "velocityFit": False, "lineRatioType": "rules",
                  "rules": r.pick(["no", "all"]), "improveBalmerFit": False, "lya": lya(r, self.hiz)}
            if self.wide:
                lm["lineWidthType"] = r.pick(["combined", "instrumentDriven", "velocityDriven"])
                lm["lineForceFilter"], lm["rules"] = r.pick(["no", "no", "W", "S"]), r.pick(["no", "all", "strongWeak", "balmerSingle", "ratioRange"])
                lm["improveBalmerFit"], lm["ampOffsetFit"], lm["lbdaOffsetFit"] = r.b(0.3), r.b(0.3), r.b(0.3)
                lm["lineTypeFilter"], lm["lya"] = r.pick(["E", "A", "no"]), r.pick([lya(r, self.hiz), {"profile": "igm"}])
            s["lineMeasSolver"] = {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": lm}}
        return s

    def reliability(self, m, zr, step):
        import h5py
        with h5py.File(self.path("rel", f"{m}.h5"), "w") as f:
            f.attrs["keras_version"] = "2.4.0"
            f.attrs["zrange_min"], f.attrs["zrange_max"], f.attrs["zrange_step"] = zr[0], zr[1], step
            f.attrs["zgrid_end"] = zr[1]
            if self.r.b(): f.attrs["classes"] = json.dumps(["failure", "success"])

    def lineModelSolve(self, m):
        r = self.r
        ratio = self.opt("ratio", None) or r.pick(["tplRatio", "rules", "tplRatio"])
        cont = r.pick(["tplFit", "fromSpectrum", "noContinuum", "tplFitAuto", "tplFit"])
        x = {"lineCatalog": self.lines(f"lines_{m}.tsv"), "lineTypeFilter": r.pick(["E", "no", "no"]), "lineForceFilter": "no",
             "fittingMethod": r.pick(["individual", "svd", "hybrid"]), "lineWidthType": "combined", "velocityEmission": r.pick([100, 200]),
             "velocityAbsorption": 150, "velocityFit": r.b(0.4), "ampOffsetFit": False, "lbdaOffsetFit": False,
             "pdfCombination": r.pick(["marg", "bestChi2"]), "emVelocityFitMin": 100, "emVelocityFitMax": 300, "emVelocityFitStep": 100,
             "absVelocityFitMin": 100, "absVelocityFitMax": 300, "absVelocityFitStep": 100, "lya": lya(r, self.hiz), "extremaCountB": r.pick([0, 0, 2]), "hAlphaPrior": -1,
             "lineRatioType": ratio, "improveBalmerFit": False, "continuumComponent": cont, "skipSecondPass": self.opt("skip2", r.b(0.15)),
             "extremaCount": r.i(1, 5), "extremaCutProbaThreshold": r.pick([-1, -1, 30]), "pdf": {"margAmpCorr": False},
             "firstPass": {"fittingMethod": "individual", "largeGridStepRatio": r.pick([1, 5, 10]), "multipleContinuumFitDisable": r.b(), "extremaCount": 5},
             "secondPass": {"halfWindowSize": r.pick([0.002, 0.005, 0.01]), "continuumFit": r.pick(["fromFirstPass", "retryAll", "reFitFirstPass"])},
             "secondPassLcFittingMethod": "-1", "strongLinesPrior": r.pick([-1, 0.001]), "nOfZPriorStrength": -1, "tplRatio": {"priors": PRIORS},
             "nSigmaSupport": 8, "enablePhotometry": False, "useLogLambdaSampling": False}
        if ratio == "rules": x["rules"] = r.pick(["all", "no", "balmerSingle"])
        else:
            x["tplRatioCatalog"] = self.ratios(m)
            x["tplRatioIsmFit"] = r.b()
            x["firstPass"]["tplRatioIsmFit"] = x["tplRatioIsmFit"] and r.b()
        if self.wide:
            x["lineWidthType"], x["lineForceFilter"] = r.pick(["combined", "instrumentDriven", "velocityDriven"]), r.pick(["no", "no", "W", "S"])
            x["lineTypeFilter"], x["improveBalmerFit"] = r.pick(["E", "A", "no"]), r.b(0.3)
            x["ampOffsetFit"], x["lbdaOffsetFit"] = r.b(0.2), r.b(0.2)
            if "rules" in x: x["rules"] = r.pick(["no", "all", "strongWeak", "balmerSingle", "ratioRange"])
            x["secondPassLcFittingMethod"] = r.pick(["-1", "-1", "svdlc", "svdlcp2"])
            x["lya"], x["nSigmaSupport"] = r.pick([lya(r, self.hiz), {"profile": "igm"}]), r.pick([5, 8, 14])
            x["firstPass"]["fittingMethod"] = r.pick(["individual", "hybrid", "svd"])
            x["nOfZPriorStrength"], x["hAlphaPrior"] = r.pick([-1, 1.0]), r.pick([-1, 0.5])
            x["pdf"] = {"margAmpCorr": r.b(0.3)}
            if ratio != "rules": x["lineRatioType"] = r.pick(["tplRatio", "tplCorr"])
        if cont == "fromSpectrum": x["continuumReestimation"] = r.pick(["no", "no", "onlyextrema"] + (["always"] if self.wide else []))
        if cont.startswith("tplFit"):
            x["continuumFit"] = {"negativeThreshold": -5.0, "nullThreshold": r.pick([3, 3, -1]), "fftProcessing": False, "ismFit": r.b(), "igmFit": r.b(0.7 if self.hiz else 0.3),
                                 "count": r.i(1, min(2, self.ntpl)), "ignoreLineSupport": r.b(0.3), "priors": PRIORS}
            if self.phot: x["enablePhotometry"], x["photometry"] = True, {"weight": r.d(0.3, 2)}
            if self.fft and not self.phot and r.b(0.7): x["continuumFit"]["fftProcessing"], x["useLogLambdaSampling"] = True, r.b(0.3)
        return {"lineModel": x}

    def templateFittingSolve(self, m):
        r = self.r
        x = {"fftProcessing": False, "overlapThreshold": self.opt("overlap", 0.9), "spectrum": {"component": r.pick(["raw", "noContinuum", "all", "continuum"] if self.wide else ["raw", "noContinuum"])},
             "interpolation": r.pick(["lin", "preComputedFineGrid"]), "extremaCount": r.i(1, 5), "igmFit": r.b(0.7 if self.hiz else 0.3), "ismFit": r.b(),
             "pdfCombination": r.pick(["marg", "bestChi2"]), "enablePhotometry": False}
        if self.phot and x["spectrum"]["component"] == "raw": x["enablePhotometry"], x["photometry"] = True, {"weight": r.d(0.3, 2)}
        elif self.fft and r.b(0.7): x["fftProcessing"] = True
        return x

    def tplCombinationSolve(self, m):
        r = self.r
        return {"overlapThreshold": self.opt("overlap", 0.9), "spectrum": {"component": r.pick(["raw", "noContinuum"])}, "interpolation": "lin",
                "extremaCount": r.i(1, 5), "igmFit": self.hiz and r.b(), "ismFit": r.b(), "pdfCombination": r.pick(["marg", "bestChi2"])}

    def spectrum(self, sid, kind="good"):
        """adds a spectrum: list of (obs, table) with photometry"""
        r = self.r
        m = r.pick(self.models)
        z = r.d(*self.zrange[m]) if kind != "far" else 0.5 + self.hiz * 2.6
        tabs = {}
        amp = r.logd(0.3, 30)
        t = r.i(0, 3)
        ls = [(l[0], r.d(0.5, 6) * (1 if l[2] == "E" else -0.3)) for l in self.nlines] if r.b(0.8) else []
        for o in self.obs:
            step = r.pick([5.0, 6.0, 8.0])
            if self.multi == "merge" and len(self.obs) > 1:
                n = len(self.obs); k = self.obs.index(o); a = self.lo + (self.hi - self.lo) / n * k - 5; b = self.lo + (self.hi - self.lo) / n * (k + 1)
            else: a, b = self.lo, self.hi
            w = np.arange(a, b, step) + (np.array([r.d(0, 1.5) for _ in np.arange(a, b, step)]) if r.b(0.4) else 0)
            f = shape(t, w / (1 + z) * self.zoom)
            for l, x in ls: f = f + x * np.exp(-0.5 * ((w / (1 + z) - l) / 6 * self.zoom) ** 2)
            e = np.full(len(w), r.d(0.02, 0.2)) * (1 + 0.2 * np.sin(w / 50))
            f = f + np.array([r.gauss(0, 1) for _ in w]) * e
            f, e = f * amp * 1e-18, e * amp * 1e-18
            if kind == "nan": f[r.i(20, len(f) - 20)] = float("nan")
            if kind == "zero": f[:] = 0.0
            if kind == "badnoise": e[r.i(20, len(e) - 20)] = r.pick([0.0, -1.0, float("nan"), float("inf")])
            if kind == "short": w, f, e = w[:2], f[:2], e[:2]
            if kind == "outside": w = w + 5000
            tabs[o] = pd.DataFrame({"wave": w, "flux": f, "err": e})
        ph = None
        if self.phot:
            ph = pd.DataFrame([[b, amp * 1e-29 * r.d(0.8, 1.2), amp * 1e-30 * r.d(0.8, 1.2)] for b in self.bands], columns=["Name", "Flux", "Error"])
        for m in self.catmodels:
            if kind == "uncatalogued": continue
            with open(self.config["linemeascatalog"][m], "a") as f: f.write(f"{sid}\t{r.d(*self.zrange[m])!r}\t{r.d(80, 300)!r}\t{r.d(80, 300)!r}\n")
        self.spectra[sid] = dict(tabs=tabs, phot=ph, kind=kind, lsf=r.d(4, 9), z=z)

    def close(self):
        shutil.rmtree(self.dir)


def reader_class():
    from pylibamazed.AbstractSpectrumReader import AbstractSpectrumReader

    class Reader(AbstractSpectrumReader):
        def load_wave(self, a, obs_id=""): self.waves.append(a, obs_id)
        def load_flux(self, a, obs_id=""): self.fluxes.append(a, obs_id)
        def load_error(self, a, obs_id=""): self.errors.append(a, obs_id)
        def load_others(self, *a, **k): pass
        def load_photometry(self, p, obs_id=""): self.photometric_data.append(p)

        def load_lsf(self, v, obs_id=""):
            self.lsf_type = "gaussianConstantWidth"
            a = np.zeros(1, dtype=[("width", "<f8")])
            a["width"][0] = v
            self.lsf_data.append(a, obs_id)
    return Reader


def make_reader(w, pf, sid):
    s = w.spectra[sid]
    rd = reader_class()(observation_id=sid, parameters=pf.parameters, calibration_library=pf.calibration_library, source_id=sid)
    for o, t in s["tabs"].items():
        rd.load_wave(t["wave"].to_numpy(), o)
        rd.load_flux(t["flux"].to_numpy(), o)
        rd.load_error(t["err"].to_numpy(), o)
        if w.lsf == "fromSpectrumData" and o == w.obs[0]: rd.load_lsf(s["lsf"], o)
    if s["phot"] is not None: rd.load_photometry(s["phot"])
    return rd


class AnyShape:
    def __eq__(self, o): return True
    def __ne__(self, o): return False


class FakeModel:
    """stands for the neural network (tensorflow is not installed): a fixed function of the posterior"""
    def __init__(self, path): self.path, self.input_shape, self.calls = path, (None, AnyShape(), 1), []

    def predict(self, x):
        self.calls.append(np.array(x))
        y = float(np.sum(x[0, :, 0] * np.linspace(0.1, 0.9, x.shape[1])) / np.sum(x[0, :, 0]))
        return np.array([[1 - y, y]])


def fake_keras():
    k, t, tk = types.ModuleType("keras"), types.ModuleType("tensorflow"), types.ModuleType("tensorflow.keras")
    k.__version__ = "2.4.3"
    tk.models = types.SimpleNamespace(load_model=FakeModel)
    t.keras = tk
    sys.modules.update({"keras": k, "tensorflow": t, "tensorflow.keras": tk})


def process_flow(w):
    fake_keras()
    from pylibamazed.Parameters import Parameters
    from pylibamazed.ProcessFlow import ProcessFlow
    return ProcessFlow(dict(w.config), Parameters(json.loads(json.dumps(w.tree))))


def forked(fn, timeout=120):
    """fn() in a child process: ("ok", value) or ("error", text)"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            out = ("ok", fn())
        except BaseException as e:
            import traceback
            out = ("error", traceback.format_exc())
        try:
            with os.fdopen(wfd, "wb") as f: pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f: data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        how = f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else f"exit {os.WEXITSTATUS(st)}"
        vh.died.append(how)
        return ("died", how)
    return pickle.loads(data)


def plain(x):
    """results as picklable, comparable values"""
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    if isinstance(x, np.ndarray): return np.array(x)
    if isinstance(x, (np.generic, float, int, str, bool, type(None))): return x
    return f"<{type(x).__name__}>"


def diff(a, b, path=""):
    """first difference between two results"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b: return f"{path}/{k} only in {'the fresh run' if k in b else 'this run'}"
            d = diff(a[k], b[k], f"{path}/{k}")
            if d: return d
        return ""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return f"{path} length {len(a)}, fresh {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d: return d
        return ""
    return "" if vh.same(a, b) else f"{path} is {vh.short(a)}, fresh {vh.short(b)}"


def state(rso):
    return plain({"root": rso.root_results, "objects": rso.object_results, "errors": rso.errors})


def run(w, pf, sid):
    return state(pf.run(make_reader(w, pf, sid)))


class Run:
    """what happens in the forked process: violations and counters sent back to the case"""
    def __init__(self): self.viol, self.cnt = [], {}
    def count(self, k, n=1): self.cnt[k] = self.cnt.get(k, 0) + n

    def check(self, ok, key, msg=""):
        self.count("monitor/" + key)
        if not ok: self.viol.append((key, msg))
        return ok

    def same(self, got, want, key, msg):
        d = diff(got, want)
        return self.check(not d, key, f"{msg}: {d}")

    def fresh(self, w, pf, sids):
        """each spectrum alone in a process of its own"""
        refs = {}
        for s in sids:
            st, v = forked(lambda: run(w, pf, s))
            if st != "ok":
                self.viol.append(("processing-alone-fails", f"{s}: {v}"))
                raise RuntimeError("no reference")
            refs[s] = v
            self.count("spectra alone")
        return refs


def report(c, st, v):
    if st != "ok":
        c.fail("process-died" if st == "died" else "processing-raised", v[-1200:])
        return
    for k, n in v.cnt.items(): c.count(k, n)
    for k, m in v.viol: c.fail(k, m)


def inproc(fn):
    def go():
        q = Run()
        try:
            fn(q)
        except RuntimeError as e:
            if not q.viol: raise
        return q
    return forked(go, 600)


def describe(c, *ws):
    for w in ws:
        c.sig(w.methods, w.meas, w.rel, w.multi, w.phot, w.lsf, w.fft, w.wide, [s["kind"] for s in w.spectra.values()])
        c.count("objects/" + str(len(w.models)))
        for m in w.models: c.count("method/" + (w.methods[m] or "lineMeasSolve alone"))
        for s in w.spectra.values(): c.count("spectra/" + s["kind"])
    c.nontrivial = True


class Fault:
    """raises at one call of a stage, before or after its work"""
    def __init__(self, owner, name, exc, late, only_model=None):
        self.owner, self.name, self.exc, self.late, self.only, self.fired = owner, name, exc, late, only_model, False
        self.orig = owner.__dict__.get(name) or getattr(owner, name)

    def __enter__(self):
        from pylibamazed.ScopeManager import get_scope_spectrum_model

        def f(s, *a, **k):
            go = self.only is None or get_scope_spectrum_model() == self.only
            if not go: return self.orig(s, *a, **k)
            if self.late: self.orig(s, *a, **k)
            self.fired = True
            raise self.exc
        setattr(self.owner, self.name, f)
        return self

    def __exit__(self, *a): setattr(self.owner, self.name, self.orig)


def flat(rso, models):
    """the results held by the output object in the shape of expect()"""
    got = {}
    for ds, v in rso.root_results.items():
        if v: got[(None, ds, None)] = dict(v)
    for m in models:
        for ds, v in rso.object_results[m].items():
            if isinstance(v, list):
                for rank, x in enumerate(v):
                    if x: got[(m, ds, rank)] = dict(x)
            elif v: got[(m, ds, None)] = dict(v)
    return got
