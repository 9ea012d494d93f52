"""C19: parameter trees are checked, converted from the older version, completed and handed over unchanged."""
import copy, json, os, random, tempfile
import vh
from pylibamazed.redshift import AmzException, CFlagWarning, CLog, CProcessFlowContext, ErrorCode, WarningCode
from pylibamazed.Parameters import Parameters
from pylibamazed.ParametersConverter import ParametersConverterSelector

CLog.GetInstance()  # no handler: quiet
ctx = CProcessFlowContext.GetInstance()
flag = CFlagWarning.GetInstance()
INVALID = ErrorCode.INVALID_PARAMETER_FILE.value

# ---------------------------------------------------------------- the documented format (version 2)
# N number, I integer, B boolean, S free string, L list of free strings, P pair of numbers, (..) one of these values,
# dict = section: name -> description; a leading "!" marks a mandatory entry; "+": True = other entries are allowed
N, I, B, S, L, P = "N", "I", "B", "S", "L", "P"
PRIORS = {"!betaA": N, "!betaTE": N, "!betaZ": N, "!catalogDirPath": S}
ASYM = {f"!{x}": N for x in ("asymFitMin", "asymFitMax", "asymFitStep", "widthFitMin", "widthFitMax", "widthFitStep",
                             "deltaFitMin", "deltaFitMax", "deltaStepMax")}
ASYM.update({"!switchFixedToFit": B, "!switchFitToFixed": B})
LYA = {"!profile": ("asym", "igm"), "asymProfile": ASYM}
PHOT = {"!weight": N, "+": True}
COMPONENT = {"!component": ("raw", "noContinuum", "continuum", "all"), "+": True}
CONTREM = {"!method": ("zero", "irregularSamplingMedian", "raw"), "medianKernelWidth": N, "medianEvenReflection": B}
WIDTHTYPE = ("combined", "instrumentDriven", "velocityDriven")
FITTING = ("individual", "svd", "hybrid", "lbfgsb")
RATIO = ("tplRatio", "rules", "tplCorr")
RULES = ("all", "no", "strongWeak", "balmerSingle", "ratioRange")
CONTCOMP = ("fromSpectrum", "tplFit", "tplFitAuto", "noContinuum")
LINEMODEL = {
    "useLogLambdaSampling": B, "!improveBalmerFit": B, "!lineCatalog": S, "!lineTypeFilter": ("E", "A", "no"),
    "!lineForceFilter": ("W", "S", "no"), "!fittingMethod": FITTING, "!lineWidthType": WIDTHTYPE,
    "!velocityEmission": N, "!velocityAbsorption": N, "!velocityFit": B, "emVelocityFitMin": N, "emVelocityFitMax": N,
    "emVelocityFitStep": N, "absVelocityFitMin": N, "absVelocityFitMax": N, "absVelocityFitStep": N,
    "!lbdaOffsetFit": B, "!ampOffsetFit": B, "!skipSecondPass": B, "!extremaCount": I, "!extremaCutProbaThreshold": N,
    "!lineRatioType": RATIO, "rules": RULES, "tplRatioCatalog": S, "tplRatioIsmFit": B, "!continuumComponent": CONTCOMP,
    "continuumReestimation": ("no", "onlyextrema", "always"), "!strongLinesPrior": N, "!nOfZPriorStrength": N,
    "!pdfCombination": ("bestChi2", "marg"), "!nSigmaSupport": N, "!hAlphaPrior": N, "!extremaCountB": I,
    "!enablePhotometry": B, "photometry": PHOT, "!lya": LYA,
    "continuumFit": {"!fftProcessing": B, "!ismFit": B, "!igmFit": B, "!count": N, "!ignoreLineSupport": B,
                     "!negativeThreshold": N, "!nullThreshold": N, "!priors": PRIORS},
    "!firstPass": {"!fittingMethod": ("hybrid", "individual", "svd"), "!largeGridStepRatio": I, "tplRatioIsmFit": B,
                   "!multipleContinuumFitDisable": B, "!extremaCount": I},
    "!secondPassLcFittingMethod": ("-1", "svdlc", "svdlcp2"),
    "!secondPass": {"!continuumFit": ("fromFirstPass", "retryAll", "reFitFirstPass"), "!halfWindowSize": N},
    "!pdf": {"margAmpCorr": B, "+": True}, "!tplRatio": {"priors": PRIORS, "+": True}}
LINEMEAS = {
    "!continuumComponent": CONTCOMP, "!improveBalmerFit": B, "!lineTypeFilter": ("E", "A", "no"),
    "!lineForceFilter": ("W", "S", "no"), "!polynomialDegree": I, "!lya": LYA, "!lineCatalog": S, "!nSigmaSupport": N,
    "!lineWidthType": WIDTHTYPE, "!fittingMethod": FITTING, "!velocityFit": B, "emVelocityFitMin": N,
    "emVelocityFitMax": N, "absVelocityFitMin": N, "absVelocityFitMax": N, "!lbdaOffsetFit": B, "!ampOffsetFit": B,
    "!lineRatioType": RATIO, "rules": RULES}
TPLFIT = {"!fftProcessing": B, "!overlapThreshold": N, "!spectrum": COMPONENT,
          "!interpolation": ("lin", "preComputedFineGrid"), "!extremaCount": I, "!igmFit": B, "!ismFit": B,
          "!pdfCombination": ("marg", "bestChi2"), "!enablePhotometry": B, "photometry": PHOT}
TPLCOMB = {"!overlapThreshold": N, "!spectrum": COMPONENT, "!interpolation": ("lin", "preComputedFineGrid"),
           "!extremaCount": I, "!igmFit": B, "!ismFit": B, "!pdfCombination": ("marg", "bestChi2")}
METHODS = ("lineModelSolve", "templateFittingSolve", "tplCombinationSolve")
MODEL = {
    "!stages": "STAGES", "!redshiftRange": P, "!redshiftStep": N, "!redshiftSampling": ("lin", "log"), "templateDir": S,
    "lineMeasDzHalf": N, "lineMeasRedshiftStep": N,
    "redshiftSolver": {"method": ("", None) + METHODS, "lineModelSolve": {"!lineModel": LINEMODEL},
                       "templateFittingSolve": TPLFIT, "tplCombinationSolve": TPLCOMB},
    "lineMeasSolver": {"!method": ("lineMeasSolve",), "!lineMeasSolve": {"!lineModel": LINEMEAS}},
    "reliabilitySolver": {"!method": ("deepLearningSolver",), "!deepLearningSolver": {"!reliabilityModel": S}}}
GENERAL = {
    "!version": "VERSION", "calibrationDir": "ANY", "!multiObsMethod": ("", "full", "merge"), "!lambdaRange": "RANGES",
    "airVacuumMethod": ("", "default", "morton2000", "edlen1953", "edlen1966", "peckreeder1972", "ciddor1996"),
    "!extremaRedshiftSeparation": N, "!smoothWidth": N, "!autoCorrectInput": B, "!spectrumModels": L,
    "photometryTransmissionDir": S, "photometryBand": L, "filters": "FILTERS", "additionalCols": L,
    "lsf": {"!lsfType": ("gaussianConstantWidth", "gaussianConstantResolution", "gaussianNISPSIM2016",
                         "gaussianNISPVSSPSF201707", "fromSpectrumData", "gaussianVariableWidth"),
            "width": N, "resolution": N, "sourceSize": N, "gaussianVariableWidthFileName": S},
    "ebmv": {"!start": "EBMVSTART", "!step": N, "!count": I},
    "templateCatalog": {"!continuumRemoval": CONTREM}, "continuumRemoval": CONTREM}
INSTR = ["<", ">", "<=", ">=", "=", "in", "~in", "!=", "&", "~&", "0&", "^", "~^"]
LSF_NEEDS = {"gaussianConstantWidth": "width", "gaussianConstantResolution": "resolution",
             "gaussianNISPVSSPSF201707": "sourceSize", "gaussianVariableWidth": "gaussianVariableWidthFileName"}
BOUNDS = ("emVelocityFitMin", "emVelocityFitMax", "absVelocityFitMin", "absVelocityFitMax")

# ---------------------------------------------------------------- version 1: old names (documented migration table)
OLD_KEY = {
    "additionalCols": "additional_cols", "airVacuumMethod": "airvacuum_method", "autoCorrectInput": "autocorrectinput",
    "extremaRedshiftSeparation": "extremaredshiftseparation", "multiObsMethod": "multiobsmethod",
    "lambdaRange": "lambdarange", "lsf": "LSF", "spectrumModels": "objects", "lsfType": "LSFType",
    "sourceSize": "sourcesize", "gaussianVariableWidthFileName": "GaussianVariablewidthFileName",
    "redshiftRange": "redshiftrange", "redshiftStep": "redshiftstep", "redshiftSampling": "redshiftsampling",
    "templateDir": "template_dir", "lineMeasDzHalf": "linemeas_dzhalf", "lineMeasRedshiftStep": "linemeas_redshiftstep",
    "fftProcessing": "fftprocessing", "enablePhotometry": "enablephotometry", "extremaCount": "extremacount",
    "igmFit": "igmfit", "ismFit": "ismfit", "pdfCombination": "pdfcombination", "absVelocityFitMax": "absvelocityfitmax",
    "absVelocityFitMin": "absvelocityfitmin", "absVelocityFitStep": "absvelocityfitstep", "ampOffsetFit": "ampoffsetfit",
    "continuumComponent": "continuumcomponent", "continuumFit": "continuumfit",
    "continuumReestimation": "continuumreestimation", "emVelocityFitMax": "emvelocityfitmax",
    "emVelocityFitMin": "emvelocityfitmin", "emVelocityFitStep": "emvelocityfitstep",
    "nOfZPriorStrength": "euclidnhaemittersStrength", "extremaCountB": "extremacountB",
    "extremaCutProbaThreshold": "extremacutprobathreshold", "fittingMethod": "fittingmethod", "hAlphaPrior": "haprior",
    "lbdaOffsetFit": "lbdaoffsetfit", "lineCatalog": "linecatalog", "lineForceFilter": "lineforcefilter",
    "lineTypeFilter": "linetypefilter", "lineWidthType": "linewidthtype", "nSigmaSupport": "nsigmasupport",
    "secondPassLcFittingMethod": "secondpasslcfittingmethod", "skipSecondPass": "skipsecondpass",
    "secondPass": "secondpass", "firstPass": "firstpass", "strongLinesPrior": "stronglinesprior",
    "tplRatioIsmFit": "tplratio_ismfit", "tplRatio": "tplratio", "tplRatioCatalog": "tplratio_catalog",
    "useLogLambdaSampling": "useloglambdasampling", "velocityAbsorption": "velocityabsorption",
    "velocityEmission": "velocityemission", "velocityFit": "velocityfit", "ignoreLineSupport": "ignorelinesupport",
    "negativeThreshold": "negativethreshold", "nullThreshold": "nullthreshold", "catalogDirPath": "catalog_dirpath",
    "largeGridStepRatio": "largegridstepratio", "multipleContinuumFitDisable": "multiplecontinuumfit_disable",
    "asymFitMax": "asymfitmax", "asymFitMin": "asymfitmin", "asymFitStep": "asymfitstep", "deltaFitMax": "deltafitmax",
    "deltaFitMin": "deltafitmin", "widthFitMax": "widthfitmax",
    "widthFitMin": "widthfitmin", "widthFitStep": "widthfitstep", "margAmpCorr": "margampcorr",
    "halfWindowSize": "halfwindowsize", "polynomialDegree": "polynomialdegree", "lineModel": "linemodel",
    "reliabilityModel": "reliability_model", "lineModelSolve": "LineModelSolve", "lineMeasSolve": "LineMeasSolve",
    "templateFittingSolve": "TemplateFittingSolve", "tplCombinationSolve": "TplcombinationSolve"}
OLD_VALUE = {
    "fromFirstPass": "fromfirstpass", "retryAll": "retryall", "reFitFirstPass": "refitfirstpass",
    "irregularSamplingMedian": "IrregularSamplingMedian", "morton2000": "Morton2000", "edlen1953": "Edlen1953",
    "edlen1966": "Edlen1966", "peckreeder1972": "Peckreeder1972", "ciddor1996": "Ciddor1996",
    "instrumentDriven": "instrumentdriven", "velocityDriven": "velocitydriven", "tplRatio": "tplratio",
    "tplCorr": "tplcorr", "strongWeak": "strongweak", "ratioRange": "ratiorange", "balmerSingle": "balmersingle",
    "tplFitAuto": "tplfitauto", "tplFit": "tplfit", "noContinuum": "nocontinuum", "bestChi2": "bestchi2",
    "gaussianConstantWidth": "GaussianConstantWidth", "gaussianConstantResolution": "GaussianConstantResolution",
    "gaussianNISPSIM2016": "GaussianNISPSIM2016", "gaussianNISPVSSPSF201707": "GaussianNISPVSSPSF201707",
    "fromSpectrumData": "FROMSPECTRUMDATA", "fromSpectrum": "fromspectrum", "gaussianVariableWidth": "GaussianVariableWidth",
    "preComputedFineGrid": "precomputedfinegrid", "lineModelSolve": "LineModelSolve", "lineMeasSolve": "LineMeasSolve",
    "templateFittingSolve": "TemplateFittingSolve", "tplCombinationSolve": "TplcombinationSolve"}
FREE = {"calibrationDir", "lineCatalog", "tplRatioCatalog", "catalogDirPath", "templateDir", "reliabilityModel",
        "gaussianVariableWidthFileName", "photometryTransmissionDir", "photometryBand", "additionalCols", "filters"}
NAMES = ["galaxy", "star", "qso", "sn"]
# free strings equal to the name of an entry must stay what they are
TRICKY = ["tplratio", "LSF", "objects", "linemodel", "secondpass", "LineModelSolve", "redshiftstep", "extremacount"]


def free(r):
    return r.pick(TRICKY) if r.b(0.15) else f"{r.pick(['a', 'cat', 'Dir'])}{r.i(0, 99)}{r.pick(['', '.txt', '/b c'])}"


def value(r, d):
    if isinstance(d, tuple): return r.pick(d)
    if d == N: return r.pick([0, 1, -1, r.i(-500, 500), round(r.d(-10, 10), 6), r.logd(1e-12, 1e12)])
    if d == I: return r.i(-3, 60)
    if d == B: return r.b()
    if d == S: return free(r)
    if d == L: return [free(r) for _ in range(r.i(1, 3))]
    if d == P: return [round(r.d(0, 2), 4), round(r.d(2, 6), 4)]
    if d == "EBMVSTART": return r.pick([0, 0.0, 0.5, round(r.d(0, 0.99), 3)])
    raise ValueError(d)


def section(r, d, popt=0.5):
    out = {}
    for k, sub in d.items():
        if k == "+": continue
        need = k.startswith("!")
        if not need and not r.b(popt): continue
        out[k.lstrip("!")] = section(r, sub, popt) if isinstance(sub, dict) else value(r, sub)
    return out


def put(r, sec, key, needed, make, unused, p=0.1):
    """keep an entry when it is needed; otherwise leave it out, or keep it sometimes as an unused one"""
    if needed:
        if sec.get(key) is None: sec[key] = make()
    elif r.b(p) and unused is not None:
        if key not in sec: sec[key] = make()
        unused.append(key)
    else:
        sec.pop(key, None)


class World:
    """a valid version 2 tree, with what the library has to report about it"""

    def __init__(self, c, v1=False, warn=None):
        r = self.r = c.r
        self.unused = [] if (r.b(0.4) if warn is None else warn) else None
        self.v1 = v1
        t = self.tree = {"version": 2}
        u = self.unused
        t["multiObsMethod"] = r.pick(["", "full", "merge"])
        pair = lambda: [round(r.d(3000, 5000), 2), round(r.d(6000, 12000), 2)]
        t["lambdaRange"] = {f"o{k}": pair() for k in range(r.i(1, 3))} if t["multiObsMethod"] == "full" else pair()
        if r.b(): t["airVacuumMethod"] = value(r, GENERAL["airVacuumMethod"])
        t["extremaRedshiftSeparation"], t["smoothWidth"] = value(r, N), value(r, N)
        t["autoCorrectInput"] = r.b()
        if r.b(0.3): t["calibrationDir"] = free(r)
        names = NAMES if v1 else NAMES + ["blue_x", "z-high", "M 31", "spectrum"]
        t["spectrumModels"] = r.sample(names, r.i(1, 3))
        for m in t["spectrumModels"]:
            t[self.key(m)] = self.model(m)
        sec = [t[self.key(m)] for m in t["spectrumModels"]]
        self.sec = sec
        ms = [s.get("redshiftSolver", {}) for s in sec]
        lm = [x["lineModelSolve"]["lineModel"] for x in ms if "lineModelSolve" in x]
        me = [s["lineMeasSolver"]["lineMeasSolve"]["lineModel"] for s in sec if "lineMeasSolver" in s["stages"]]
        tf = [x["templateFittingSolve"] for x in ms if "templateFittingSolve" in x]
        tc = [x["tplCombinationSolve"] for x in ms if "tplCombinationSolve" in x]
        phot = any(x.get("method") == "lineModelSolve" and x["lineModelSolve"]["lineModel"]["enablePhotometry"]
                   or x.get("method") == "templateFittingSolve" and x["templateFittingSolve"]["enablePhotometry"] for x in ms)
        put(r, t, "photometryTransmissionDir", phot, lambda: free(r), u)
        put(r, t, "photometryBand", phot, lambda: value(r, L), u)
        self.lsf_needed = any(x.get("method") == "lineModelSolve" for x in ms) or bool(me)
        if v1 and not self.lsf_needed and u is None: u = self.unused = []
        put(r, t, "lsf", self.lsf_needed or v1, self.lsf, u)
        if v1 and not self.lsf_needed: u.append("lsf")
        ism = any(x["ismFit"] for x in tf + tc) or any(x["continuumFit"]["ismFit"] for x in lm if "continuumFit" in x)
        put(r, t, "ebmv", ism, lambda: section(r, GENERAL["ebmv"]), None if r.b() else [])
        if not ism and r.b(0.2): t["ebmv"] = section(r, GENERAL["ebmv"])  # never reported
        notraw = any(x["spectrum"]["component"] != "raw" for x in tf + tc)
        self.contrem = notraw or any(x["continuumComponent"] in ("fromSpectrum", "tplFitAuto")
                                     or x.get("continuumReestimation", "no") != "no" for x in lm) \
            or any(x["continuumComponent"] in ("fromSpectrum", "tplFitAuto") for x in me)
        self.tplcontrem = notraw
        put(r, t, "continuumRemoval", self.contrem, self.continuum, u)
        put(r, t, "templateCatalog", notraw, lambda: {"continuumRemoval": self.continuum()}, u)
        if r.b(0.4):
            t["additionalCols"] = value(r, L)
        if r.b(0.4):
            cols = ["Wave", "Flux", "Err"] + t.get("additionalCols", [])
            t["filters"] = [{"key": r.pick(cols), "instruction": r.pick(INSTR), "value": r.pick([1, 2.5, [1, 2], "8"])}
                            for _ in range(r.i(0, 3))]
        if r.b(0.3):
            items = list(t.items()); r.shuffle(items); self.tree = dict(items)
        c.count("models", len(sec))
        for x in ms: c.count(f"method/{x.get('method')}")

    @staticmethod
    def key(m):
        return "spectrumModel_" + m

    def lsf(self):
        r = self.r
        ty = r.pick(GENERAL["lsf"]["!lsfType"])
        s = {"lsfType": ty}
        for k, need in LSF_NEEDS.items():
            put(r, s, need, ty == k, lambda: value(r, GENERAL["lsf"][need]), self.unused)
        return s

    def continuum(self):
        r = self.r
        s = {"method": r.pick(CONTREM["!method"])}
        med = s["method"] == "irregularSamplingMedian"
        put(r, s, "medianKernelWidth", med, lambda: value(r, N), self.unused)
        put(r, s, "medianEvenReflection", med, lambda: r.b(), self.unused)
        return s

    def lya(self, s, reported):
        r = self.r
        asym = s["lya"]["profile"] == "asym"
        put(r, s["lya"], "asymProfile", asym, lambda: section(r, ASYM), self.unused if reported else None)

    def model(self, name):
        r, u = self.r, self.unused
        s = {"stages": []}
        for k in ("redshiftRange", "redshiftStep", "redshiftSampling"): s[k] = value(r, MODEL["!" + k])
        method = r.pick(METHODS * 3 + ("", None, "absent"))
        if method != "absent":
            s["redshiftSolver"] = x = {"method": method}
            if method: s["stages"].append("redshiftSolver")
        for k in METHODS:
            if method == k:
                x[k] = getattr(self, k)()
            elif method != "absent" and u is not None and r.b(0.08):
                x[k] = getattr(self, k)()
                u.append(k)
        lm = s.get("redshiftSolver", {}).get("lineModelSolve", {}).get("lineModel")
        tpl = method in METHODS[1:] or method == "lineModelSolve" and lm["continuumComponent"] in ("tplFit", "tplFitAuto")
        put(r, s, "templateDir", tpl, lambda: free(r), u)
        meas = r.b(0.4)
        if meas:
            s["stages"].append("lineMeasSolver")
            s["lineMeasSolver"] = {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": self.linemeas()}}
        elif u is not None and not self.v1 and r.b(0.1):
            s["lineMeasSolver"] = {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": self.linemeas()}}
            u.append("lineMeasSolver")
        put(r, s, "lineMeasDzHalf", meas, lambda: value(r, N), u)
        put(r, s, "lineMeasRedshiftStep", meas, lambda: value(r, N), u)
        if r.b(0.3):
            s["stages"].append("reliabilitySolver")
            s["reliabilitySolver"] = section(r, MODEL["reliabilitySolver"])
        elif u is not None and not self.v1 and r.b(0.1):
            s["reliabilitySolver"] = section(r, MODEL["reliabilitySolver"])
            u.append("reliabilitySolver")
        if not self.v1 and r.b(0.2): s["stages"].append("subClassifSolver")
        return s

    def lineModelSolve(self):
        r, u = self.r, self.unused
        s = section(r, LINEMODEL)
        ratio = s["lineRatioType"] in ("tplRatio", "tplCorr")
        put(r, s, "rules", not ratio, lambda: value(r, RULES), u)
        if s["improveBalmerFit"] and ratio:
            if u is None: s["improveBalmerFit"] = False
            else: u.append("improveBalmerFit")
        put(r, s, "tplRatioCatalog", ratio, lambda: free(r), u)
        put(r, s, "tplRatioIsmFit", ratio, lambda: r.b(), u)
        put(r, s["firstPass"], "tplRatioIsmFit", ratio, lambda: r.b(), u)
        put(r, s, "continuumReestimation", s["continuumComponent"] == "fromSpectrum",
            lambda: value(r, LINEMODEL["continuumReestimation"]), u)
        tpl = s["continuumComponent"] in ("tplFit", "tplFitAuto")
        if tpl or r.b(0.2):  # an unneeded continuumFit is not reported
            s.setdefault("continuumFit", section(r, LINEMODEL["continuumFit"]))
            if s["continuumFit"]["fftProcessing"] and s["enablePhotometry"]: s["continuumFit"]["fftProcessing"] = False
        else:
            s.pop("continuumFit", None)
        put(r, s, "useLogLambdaSampling", tpl and s["continuumFit"]["fftProcessing"], lambda: r.b(), u)
        put(r, s, "photometry", s["enablePhotometry"], lambda: section(r, PHOT), u)
        if s["skipSecondPass"]:  # mandatory in any case, reported as unused
            if u is None: s["skipSecondPass"] = False
            else: u.append("secondPass")
        if s["extremaCount"] and s["firstPass"]["extremaCount"] < s["extremaCount"]:
            s["firstPass"]["extremaCount"] = s["extremaCount"] + r.i(0, 2)
        self.lya(s, True)
        return {"lineModel": s}

    def linemeas(self):
        r, u = self.r, self.unused
        s = section(r, LINEMEAS)
        put(r, s, "rules", s["lineRatioType"] == "rules", lambda: value(r, RULES), u)
        if s["fittingMethod"] != "lbfgsb":  # velocityFit is mandatory in any case
            if u is None: s["fittingMethod"] = "lbfgsb"
            else: u.append("velocityFit")
        for k in BOUNDS:
            put(r, s, k, s["velocityFit"], lambda: value(r, N), u)
        self.lya(s, True)
        return s

    def templateFittingSolve(self):
        r = self.r
        s = section(r, TPLFIT)
        if s["fftProcessing"] and s["enablePhotometry"]: s[r.pick(["fftProcessing", "enablePhotometry"])] = False
        put(r, s, "photometry", s["enablePhotometry"], lambda: section(r, PHOT), self.unused)
        return s

    def tplCombinationSolve(self):
        return section(self.r, TPLCOMB)

    # the tree as the library uses it: sections under their names
    def converted(self):
        t = copy.deepcopy(self.tree)
        for m in t["spectrumModels"]: t[m] = t.pop(self.key(m))
        return t


def to_v1(w, r):
    t = w.converted()
    if r.b(): t["version"] = 1
    else: t.pop("version")
    for m in t["spectrumModels"]:
        s = t[m]
        stages = s.pop("stages")
        rs = s.pop("redshiftSolver", {})
        s["method"] = rs.pop("method", None) or r.pick(["", None])
        for k in METHODS:
            if k in rs: s[k] = rs[k]
        me = s.pop("lineMeasSolver", None)
        s["linemeas_method"] = me["method"] if me else r.pick(["", None])
        if me: s["lineMeasSolve"] = me["lineMeasSolve"]
        re = s.pop("reliabilitySolver", None)
        s["enable_reliability"] = "reliabilitySolver" in stages
        if re: s["reliabilityModel"] = re["deepLearningSolver"]["reliabilityModel"]
        elif r.b(0.2): s["reliabilityModel"] = free(r)
    def old(x, key=None):
        if isinstance(x, dict):
            return {("deltafitstep" if k == "deltaStepMax" else OLD_KEY.get(k, k)): (copy.deepcopy(v) if k in FREE else old(v)) for k, v in x.items()}
        if isinstance(x, list): return [old(v) for v in x]
        if isinstance(x, str): return OLD_VALUE.get(x, x)
        return x
    return old(t)


def leaves(x, p=()):
    if isinstance(x, dict) and x:
        for k, v in x.items(): yield from leaves(v, p + (k,))
    else:
        yield p, x


def get(t, path):
    for k in path:
        if not isinstance(t, dict) or k not in t: return None
        t = t[k]
    return t


def make(tree):
    """(Parameters, error code, unused reported)"""
    flag.resetFlag()
    try:
        p, err = Parameters(tree), None
    except AmzException as e:
        p, err = None, e
    unused = WarningCode.UNUSED_PARAMETER in flag.getBitMask()
    flag.resetFlag()
    return p, err, unused


def code(e):
    x = e.getErrorCode()
    return getattr(x, "value", x)


def text(e):
    return None if e is None else f"{code(e)} {e.getMessage()}"


# ---------------------------------------------------------------- what completing the tree may do
def expected(w):
    """the entries the user gave that completing replaces, and those it adds: path -> value"""
    t = w.converted()
    out = {}
    default = {"method": "default", "medianKernelWidth": -1, "medianEvenReflection": True}
    for needed, path in ((w.contrem, ("continuumRemoval",)), (w.tplcontrem, ("templateCatalog", "continuumRemoval"))):
        if not needed:
            for k, v in default.items(): out[path + (k,)] = v
        elif get(t, path)["method"] != "irregularSamplingMedian":
            for k in ("medianKernelWidth", "medianEvenReflection"): out[path + (k,)] = default[k]
    for m in t["spectrumModels"]:
        lm = get(t, (m, "redshiftSolver", "lineModelSolve", "lineModel"))
        q = (m, "redshiftSolver", "lineModelSolve", "lineModel")
        if lm is None: continue
        if lm["continuumComponent"] != "fromSpectrum":
            out[q + ("continuumReestimation",)] = "no"
        if not (lm["continuumComponent"] in ("tplFit", "tplFitAuto") and lm["continuumFit"]["fftProcessing"]):
            out[q + ("useLogLambdaSampling",)] = False
    return t, out


def compare(c, p, w, key):
    t, over = expected(w)
    have = dict(leaves(p.parameters))
    for path, v in leaves(t):
        if path == ("version",): continue
        if path[-1] == "continuumReestimation" and path in over and get(t, path[:-1])["fittingMethod"] == "hybrid":
            c.check(have.get(path) in (v, "no"), f"{key}-unneeded", f"{path}")  # reported as unused, kept or not
            over.pop(path)
            continue
        if path in over: continue
        if v == {}:
            c.check(isinstance(get(p.parameters, path), dict), f"{key}-kept", f"{path}")
            continue
        c.check(path in have and have[path] == v and type(have[path]) is type(v), f"{key}-kept",
                f"{path}: given {v!r}, used {have.get(path)!r}")
    for path, v in over.items():
        c.check(path in have and have[path] == v, f"{key}-completed", f"{path}: want {v!r}, used {have.get(path)!r}")
    given = {x for x, _ in leaves(t)}
    for path in have:
        if path in given or path in over: continue
        tail = path[-2:]
        ok = path[1:] in [("redshiftSolver", "lineModelSolve", "lineModel", k) for k in ("continuumReestimation", "useLogLambdaSampling")] or path == ("version",)
        c.check(ok, f"{key}-nothing-added", f"{path} = {have[path]!r}")


# ---------------------------------------------------------------- suites
@vh.case(2000, 40000)
def accept(c):
    w = World(c)
    tree = copy.deepcopy(w.tree)
    p, err, unused = make(tree)
    c.sig(json.dumps(w.tree, sort_keys=True))
    if not c.check(err is None, "valid-accepted", text(err) + " " + json.dumps(w.tree)[:600] if err else ""):
        return
    c.nontrivial = True
    c.check(unused == bool(w.unused), "unused-reported", f"reported={unused} expected={w.unused}")
    c.check(tree == w.tree and list(tree) == list(w.tree), "input-unchanged", "the given tree was modified")
    compare(c, p, w, "entry")
    q, _, _ = make(copy.deepcopy(w.tree))
    c.eq(q.to_json(), p.to_json(), "deterministic")
    before = p.to_json()
    scramble(q.parameters)
    c.check(p.to_json() == before, "instances-independent", "changing one set of parameters changed another one")
    q, _, _ = make(copy.deepcopy(w.tree))
    c.check(q is not None and q.to_json() == before, "later-instances-independent", "changing one set of parameters changed a later one")
    c.check(json.loads(before) == p.parameters, "json", "to_json differs from the parameters")
    store = ctx.LoadParameterStore(before)
    for path, v in leaves(p.parameters):
        if isinstance(v, (list, dict)) or v is None or any("." in k for k in path): continue
        want = v if isinstance(v, str) else json.dumps(v)
        try: got = store.Get_string(".".join(path))
        except AmzException as e: got = e
        c.check(got == want, "store-value", f"{path}: {got!r} instead of {want!r}")


def scramble(x):
    if isinstance(x, dict):
        for k in list(x):
            scramble(x[k])
            if not isinstance(x[k], (dict, list)): x[k] = "changed"
        x["added"] = 1
    elif isinstance(x, list):
        for y in x: scramble(y)
        x.append("added")


@vh.case(1500, 30000)
def migrate(c):
    w = World(c, v1=True)
    v1 = to_v1(w, c.r)
    tree = copy.deepcopy(v1)
    p, err, unused = make(tree)
    c.sig(json.dumps(v1, sort_keys=True))
    if not c.check(err is None, "v1-accepted", text(err) + " " + json.dumps(v1)[:600] if err else ""):
        return
    c.nontrivial = True
    c.check(tree == v1, "v1-input-unchanged", "the given tree was modified")
    c.check(unused == bool(w.unused), "v1-unused-reported", f"reported={unused} expected={w.unused}")
    for m in w.tree["spectrumModels"]:  # the same as the version 2 tree
        s = w.tree[w.key(m)]
        if not s["stages"]: s.pop("stages")
        if set(s.get("redshiftSolver", {})) <= {"method"} and not s.get("redshiftSolver", {}).get("method"): s.pop("redshiftSolver", None)
        elif not s["redshiftSolver"]["method"]: s["redshiftSolver"].pop("method")
    compare(c, p, w, "v1-entry")
    q, _, _ = make(copy.deepcopy(v1))
    c.eq(q.to_json(), p.to_json(), "v1-deterministic")
    conv = ParametersConverterSelector().get_converter(1)().convert(copy.deepcopy(v1))
    again = ParametersConverterSelector().get_converter(2)().convert(copy.deepcopy(conv))
    c.eq(again, conv, "conversion-idempotent")
    p2, err2, _ = make(copy.deepcopy(w.tree)) if all("stages" in w.tree[w.key(m)] for m in w.tree["spectrumModels"]) else (None, None, None)
    if p2 is not None:
        a, b = dict(leaves(p.parameters)), dict(leaves(p2.parameters))
        a.pop(("version",), None); b.pop(("version",), None)
        c.check(a == b, "same-as-version-2", f"{[(k, a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)][:3]}")


# ------------------------------------------------ mutations
def walk(d, x, path=()):
    """(section description, section, path) of every section present"""
    yield d, x, path
    for k, sub in d.items():
        k = k.lstrip("!")
        if isinstance(sub, dict) and isinstance(x.get(k), dict): yield from walk(sub, x[k], path + (k,))


def sections(w, t):
    out = list(walk(GENERAL, t))
    for m in t["spectrumModels"]: out += list(walk(MODEL, t[w.key(m)], (w.key(m),)))
    return out


WRONG = {N: ["1.5", True, None, [1], {}], I: [1.5, "2", False, None, []], B: [0, 1, "true", None, []],
         S: [1, True, None, ["a"], {}], L: ["a", [1], {"a": 1}, None, 3], P: [[1], [1, 2, 3], ["a", 2], 1, None, "1,2", []],
         "VERSION": ["2", 2.5, None, [2], 3, 0, -1, True], "STAGES": ["redshiftSolver", ["redshiftSolve"], [1], None, ["lineMeasSolve"]],
         "FILTERS": ["a", {"key": "Flux", "instruction": "<", "value": 1}, [1], None],
         "EBMVSTART": [-0.1, 1, 1.5, "0", None, True], "RANGES": [1, "a", None, [1], [1, 2, 3]]}


@vh.case(6000, 100000)
def reject(c):
    w = World(c)
    r, t = c.r, copy.deepcopy(w.tree)
    kinds = ["remove", "remove", "add", "value", "value", "relation", "relation"]
    kind = r.pick(kinds)
    secs = sections(w, t)
    what = None
    if kind == "remove":
        opts = [(x, k[1:], q) for d, x, q in secs for k in d if k.startswith("!") and k != "!version"]
        x, k, q = r.pick(opts)
        del x[k]
        what = q + (k,)
    elif kind == "add":
        d, x, q = r.pick([s for s in secs if not s[0].get("+")])
        k = r.pick(["foo", "Method", "x", "version2", "galaxy", "lineModel_", "linemodel", "extremacount", "spectrumModel"])
        x[k] = r.pick([1, "a", {}, None])
        what = q + (k,)
    elif kind == "value":
        opts = [(x, k.lstrip("!"), sub, q) for d, x, q in secs for k, sub in d.items()
                if k not in ("+",) and not isinstance(sub, dict) and sub != "ANY" and k.lstrip("!") in x]
        if r.b(0.2):
            opts = [(x, k.lstrip("!"), sub, q) for d, x, q in secs for k, sub in d.items() if isinstance(sub, dict) and k.lstrip("!") in x] or opts
        x, k, sub, q = r.pick(opts)
        if isinstance(sub, dict): bad = r.pick([1, "a", None, [], True])
        elif isinstance(sub, tuple):
            bad = r.pick(["foo", "Raw", sub[0].upper() + "_", 3, True, [sub[0]], {}, " " + str(sub[0])] + ([None] if None not in sub else []))
        else: bad = r.pick(WRONG[sub])
        x[k] = bad
        what = q + (k, bad)
    else:
        what = relation(c, w, t)
        if what is None: c.skip()
    c.sig(json.dumps(t, sort_keys=True, default=str))
    c.nontrivial = True
    c.count(f"mutation/{kind}")
    p, err, _ = make(copy.deepcopy(t))
    c.check(err is not None and code(err) == INVALID, f"{kind}-refused" if kind != "relation" else f"relation-{what[0]}",
            f"{what}: {'accepted' if err is None else text(err)}")


def relation(c, w, t):
    """break one of the documented relations between entries"""
    r = c.r
    opts = []
    for m in t["spectrumModels"]:
        s = t[w.key(m)]
        rs = s.get("redshiftSolver", {})
        def drop(x, k, name):
            if k in x: opts.append((name, lambda: x.pop(k)))
        opts.append(("listed-model-without-section", lambda m=m: t.pop(w.key(m))))
        lm = get(rs, ("lineModelSolve", "lineModel")) if rs.get("method") == "lineModelSolve" else None
        if rs.get("method"): drop(rs, rs["method"], "method-section")
        if lm:
            drop(t, "lsf", "lsf")
            if lm["lineRatioType"] == "rules": drop(lm, "rules", "rules")
            else:
                drop(lm, "tplRatioCatalog", "tplratio-catalog"); drop(lm, "tplRatioIsmFit", "tplratio-ism")
                drop(lm["firstPass"], "tplRatioIsmFit", "firstpass-tplratio-ism")
            if lm["continuumComponent"] == "fromSpectrum": drop(lm, "continuumReestimation", "reestimation")
            if lm["continuumComponent"] in ("fromSpectrum", "tplFitAuto"): drop(t, "continuumRemoval", "continuum-removal")
            if lm["continuumComponent"] in ("tplFit", "tplFitAuto"):
                drop(lm, "continuumFit", "continuum-fit"); drop(s, "templateDir", "template-dir")
                if lm["continuumFit"]["fftProcessing"]: drop(lm, "useLogLambdaSampling", "log-sampling")
                if lm["continuumFit"]["ismFit"]: drop(t, "ebmv", "ebmv")
                if lm["continuumFit"]["fftProcessing"] and lm.get("photometry") is None:
                    def both(lm=lm):
                        lm["enablePhotometry"] = True; lm["photometry"] = {"weight": 1}
                        t["photometryBand"], t["photometryTransmissionDir"] = ["a"], "b"
                    opts.append(("fft-and-photometry", both))
            if lm["enablePhotometry"]:
                drop(lm, "photometry", "photometry-weight"); drop(t, "photometryBand", "photometry-band")
                drop(t, "photometryTransmissionDir", "photometry-dir")
            if lm["lya"]["profile"] == "asym": drop(lm["lya"], "asymProfile", "lya-asym")
            if lm["extremaCount"] > 1:
                def low(lm=lm): lm["firstPass"]["extremaCount"] = r.i(1, lm["extremaCount"] - 1)
                opts.append(("firstpass-count", low))
        tf = rs.get("templateFittingSolve") if rs.get("method") == "templateFittingSolve" else None
        if tf:
            drop(s, "templateDir", "template-dir")
            if tf["ismFit"]: drop(t, "ebmv", "ebmv")
            if tf["spectrum"]["component"] != "raw":
                drop(t, "continuumRemoval", "continuum-removal"); drop(t, "templateCatalog", "template-continuum-removal")
            if tf["enablePhotometry"]:
                drop(tf, "photometry", "photometry-weight"); drop(t, "photometryBand", "photometry-band")
                drop(t, "photometryTransmissionDir", "photometry-dir")
            def both2(tf=tf):
                tf["fftProcessing"] = tf["enablePhotometry"] = True; tf["photometry"] = {"weight": 1}
                t["photometryBand"], t["photometryTransmissionDir"] = ["a"], "b"
            opts.append(("fft-and-photometry", both2))
        tc = rs.get("tplCombinationSolve") if rs.get("method") == "tplCombinationSolve" else None
        if tc:
            drop(s, "templateDir", "template-dir")
            if tc["ismFit"]: drop(t, "ebmv", "ebmv")
            if tc["spectrum"]["component"] != "raw":
                drop(t, "continuumRemoval", "continuum-removal"); drop(t, "templateCatalog", "template-continuum-removal")
        if "lineMeasSolver" in s["stages"]:
            me = s["lineMeasSolver"]["lineMeasSolve"]["lineModel"]
            drop(t, "lsf", "lsf"); drop(s, "lineMeasSolver", "linemeas-section")
            drop(s, "lineMeasDzHalf", "linemeas-range"); drop(s, "lineMeasRedshiftStep", "linemeas-step")
            if me["lineRatioType"] == "rules": drop(me, "rules", "rules")
            if me["velocityFit"]:
                for k in BOUNDS: drop(me, k, "velocity-bounds")
            if me["lya"]["profile"] == "asym": drop(me["lya"], "asymProfile", "lya-asym")
            if me["continuumComponent"] in ("fromSpectrum", "tplFitAuto"): drop(t, "continuumRemoval", "continuum-removal")
        if "reliabilitySolver" in s["stages"]: drop(s, "reliabilitySolver", "reliability-section")
    for cr, needed in ((t.get("continuumRemoval"), True), (get(t, ("templateCatalog", "continuumRemoval")), True)):
        if cr and cr["method"] == "irregularSamplingMedian":
            drop(cr, "medianKernelWidth", "median-kernel"); drop(cr, "medianEvenReflection", "median-reflection")
    if t.get("lsf") and t["lsf"]["lsfType"] in LSF_NEEDS: drop(t["lsf"], LSF_NEEDS[t["lsf"]["lsfType"]], "lsf-width")
    if t.get("filters"):
        fs = t["filters"]
        opts.append(("filter-column", lambda: r.pick(fs).update(key=r.pick(["nope", "wave", "Error"]))))
        opts.append(("filter-instruction", lambda: r.pick(fs).update(instruction=r.pick(["<>", "!in", "~", "0^"]))))
        opts.append(("filter-key", lambda: r.pick(fs).pop(r.pick(["key", "instruction", "value"]))))
        opts.append(("filter-key", lambda: r.pick(fs).update(foo=1)))
    opts.append(("multiobs", lambda: t.update(multiObsMethod="all")))
    name, act = r.pick(opts)
    act()
    return (name,)


@vh.case(1200, 20000)
def reject_v1(c):
    w = World(c, v1=True)
    r, t = c.r, to_v1(w, c.r)
    m = r.pick(t["objects"])
    s = t[m]
    opts = [("missing", lambda k=k: t.pop(k)) for k in ("LSF", "objects", "lambdarange", "multiobsmethod", "smoothWidth",
                                                    "autocorrectinput", "extremaredshiftseparation")]
    opts += [("model-missing", lambda: t.pop(m))]
    opts += [("missing", lambda k=k: s.pop(k)) for k in ("method", "linemeas_method", "enable_reliability", "redshiftrange", "redshiftstep", "redshiftsampling")]
    opts += [("unexpected", lambda: t.update(foo=1)), ("unexpected", lambda: s.update(foo=1)),
             ("value", lambda: s.update(method="lineModel")), ("value", lambda: s.update(redshiftstep="1")),
             ("value", lambda: s.update(redshiftrange=[1])), ("value", lambda: t.update(lambdarange="a")),
             ("value", lambda: t.update(autocorrectinput=1)), ("new-name", lambda: s.update(redshiftSampling=s.pop("redshiftsampling"))),
             ("version", lambda: t.update(version=r.pick([3, 0, -1, "1", 1.5, [1]])))]
    if s["linemeas_method"]: opts += [("linemeas-section", lambda: s.pop("LineMeasSolve"))] * 3
    if s["enable_reliability"]: opts += [("reliability-model", lambda: s.pop("reliability_model"))] * 3
    if s["method"]:
        opts += [("method-section", lambda: s.pop(s["method"]))] * 3
        x = s[s["method"]]
        if s["method"] == "LineModelSolve":
            x = x["linemodel"]
            for k in ("improveBalmerFit", "linecatalog", "lya", "firstpass", "secondpass", "velocityfit", "nsigmasupport", "haprior", "continuumcomponent"):
                opts.append(("method-entry", lambda k=k: x.pop(k)))
            opts.append(("method-value", lambda: x.update(lineRatioType="tplRatio")))
        else:
            for k in ("overlapThreshold", "spectrum", "interpolation", "extremacount", "igmfit", "ismfit", "pdfcombination"):
                opts.append(("method-entry", lambda k=k: x.pop(k)))
            opts.append(("method-value", lambda: x.update(interpolation="preComputedFineGrid")))
        opts.append(("method-unexpected", lambda: x.update(foo=1)))
    name, f = r.pick(opts)
    f()
    c.sig(json.dumps(t, sort_keys=True))
    c.nontrivial = True
    p, err, _ = make(copy.deepcopy(t))
    c.check(err is not None and code(err) == INVALID, f"v1-{name}-refused", f"{'accepted' if err is None else text(err)} {json.dumps(t)[:300]}")


@vh.case(1500, 25000)
def access(c):
    w = World(c)
    p, err, _ = make(copy.deepcopy(w.tree))
    if err is not None: c.skip()  # judged by accept
    c.sig(json.dumps(w.tree, sort_keys=True))
    c.nontrivial = True
    t = p.parameters
    r = c.r
    def eq(name, want, *a):
        c.eq(getattr(p, name)(*a), want, f"access-{name}", str(a))
    mo, lr = w.tree["multiObsMethod"], w.tree["lambdaRange"]
    ids = list(lr) if mo == "full" else [""]
    eq("get_observation_ids", ids)
    for o in ids: eq("get_lambda_range", lr[o] if mo == "full" else lr, o)
    rng = [lr[o] for o in ids] if mo == "full" else [lr]
    eq("get_lambda_range_min", min(x[0] for x in rng)); eq("get_lambda_range_max", max(x[1] for x in rng))
    eq("get_airvacuum_method", w.tree.get("airVacuumMethod", ""))
    eq("get_photometry_transmission_dir", w.tree.get("photometryTransmissionDir"))
    eq("get_photometry_bands", w.tree.get("photometryBand", []))
    eq("get_multiobs_method", mo); eq("get_spectrum_models", w.tree["spectrumModels"])
    eq("get_additional_cols", w.tree.get("additionalCols")); eq("get_filters", w.tree.get("filters"))
    for n, k in (("type", "lsfType"), ("width", "width"), ("resolution", "resolution"), ("sourcesize", "sourceSize"),
                 ("width_file_name", "gaussianVariableWidthFileName")):
        eq(f"get_lsf_{n}", get(w.tree, ("lsf", k)))
    for k in ("count", "step", "start"): eq(f"get_ebmv_{k}", get(w.tree, ("ebmv", k)))
    phot, usedz, zm, mm = False, False, {}, {}
    for m in w.tree["spectrumModels"]:
        s = w.tree[w.key(m)]
        rs = s.get("redshiftSolver", {})
        method = rs.get("method") or None
        meas = "lineMeasSolve" if "lineMeasSolver" in s["stages"] else None
        lm = get(rs, ("lineModelSolve", "lineModel"))
        me = get(s, ("lineMeasSolver", "lineMeasSolve", "lineModel"))
        tf, tc = rs.get("templateFittingSolve"), rs.get("tplCombinationSolve")
        usedz |= method is not None
        if method: zm[m] = method
        if meas: mm[m] = meas
        phot |= method == "lineModelSolve" and lm["enablePhotometry"] or method == "templateFittingSolve" and tf["enablePhotometry"]
        eq("get_redshift_solver_method", method, m); eq("get_linemeas_method", meas, m)
        eq("get_stages", s["stages"], m)
        eq("get_redshiftrange", s["redshiftRange"], m); eq("get_redshiftstep", s["redshiftStep"], m)
        eq("get_redshift_sampling", s["redshiftSampling"], m); eq("get_template_dir", s.get("templateDir"), m)
        eq("get_linemeas_dzhalf", s.get("lineMeasDzHalf"), m); eq("get_linemeas_redshiftstep", s.get("lineMeasRedshiftStep"), m)
        eq("get_reliability_enabled", "reliabilitySolver" in s["stages"], m)
        eq("get_reliability_model", get(s, ("reliabilitySolver", "deepLearningSolver", "reliabilityModel")), m)
        eq("get_reliability_method", get(s, ("reliabilitySolver", "method")), m)
        eq("get_solve_methods", [x for x in (method, meas) if x], m)
        want = ([meas] if meas else []) + ([method] if method == "lineModelSolve" else [])
        c.eq(sorted(p.get_linemodel_methods(m)), sorted(want), "access-get_linemodel_methods")
        ratio = method == "lineModelSolve" and lm["lineRatioType"] in ("tplRatio", "tplCorr")
        eq("is_tplratio_catalog_needed", ratio, m)
        eq("stage_enabled", method is not None, m, "redshiftSolver"); eq("stage_enabled", meas is not None, m, "lineMeasSolver")
        eq("stage_enabled", meas is not None and method is None, m, "linemeas_catalog_load")
        eq("stage_enabled", "reliabilitySolver" in s["stages"], m, "reliabilitySolver"); eq("stage_enabled", ratio, m, "subClassifSolver")
        g = lambda x, *k: get(x, k) if x is not None else None
        for n, x, k in (("template_fitting_fft", tf, ("fftProcessing",)), ("template_fitting_ism", tf, ("ismFit",)),
                        ("template_fitting_igmfit", tf, ("igmFit",)), ("template_fitting_photometry_enabled", tf, ("enablePhotometry",)),
                        ("template_fitting_photometry_weight", tf, ("photometry", "weight")),
                        ("template_fitting_spectrum_component", tf, ("spectrum", "component")),
                        ("template_combination_ism", tc, ("ismFit",)), ("template_combination_igmfit", tc, ("igmFit",)),
                        ("template_combination_spectrum_component", tc, ("spectrum", "component")),
                        ("line_model_photometry", lm, ("enablePhotometry",)), ("linemodel_lya_profile", lm, ("lya", "profile")),
                        ("linemodel_line_ratio_type", lm, ("lineRatioType",)), ("linemodel_rules", lm, ("rules",)),
                        ("linemodel_tplratio_catalog", lm, ("tplRatioCatalog",)), ("linemodel_tplratio_ismfit", lm, ("tplRatioIsmFit",)),
                        ("linemodel_continuum_component", lm, ("continuumComponent",)), ("linemodel_continuumfit_fft", lm, ("continuumFit", "fftProcessing")),
                        ("linemodel_continuumfit_ismfit", lm, ("continuumFit", "ismFit")), ("linemodel_secondpass_continuumfit", lm, ("secondPass", "continuumFit")),
                        ("linemodel_firstpass_tplratio_ismfit", lm, ("firstPass", "tplRatioIsmFit")), ("linemodel_firstpass_extremacount", lm, ("firstPass", "extremaCount")),
                        ("linemodel_fitting_method", lm, ("fittingMethod",)), ("linemodel_skipsecondpass", lm, ("skipSecondPass",)),
                        ("linemodel_nsigmasupport", lm, ("nSigmaSupport",)), ("linemodel_improve_balmer_fit", lm, ("improveBalmerFit",)),
                        ("linemodel_extremacount", lm, ("extremaCount",)), ("linemodel_linecatalog", lm, ("lineCatalog",)),
                        ("linemeas_lya_profile", me, ("lya", "profile")), ("linemeas_line_ratio_type", me, ("lineRatioType",)),
                        ("linemeas_rules", me, ("rules",)), ("linemeas_fitting_method", me, ("fittingMethod",)),
                        ("linemeas_velocity_fit", me, ("velocityFit",)), ("linemeas_nsigmasupport", me, ("nSigmaSupport",)),
                        ("linemeas_linecatalog", me, ("lineCatalog",))):
            eq(f"get_{n}", g(x, *k), m)
        for k in BOUNDS: eq("get_linemeas_velocity_fit_param", g(me, k), m, k)
        igm = {"lineModelSolve": g(lm, "lya", "profile") == "igm", "templateFittingSolve": g(tf, "igmFit"),
               "tplCombinationSolve": g(tc, "igmFit"), "lineMeasSolve": g(me, "lya", "profile") == "igm"}
        for k, v in igm.items(): eq("get_solve_method_igm_fit", v, m, k)
        for k, x in (("lineModelSolve", lm), ("lineMeasSolve", me)):
            eq("get_nsigmasupport", g(x, "nSigmaSupport"), m, k); eq("get_linecatalog", g(x, "lineCatalog"), m, k)
    eq("photometry_is_enabled", bool(phot)); eq("is_a_redshift_solver_used", usedz)
    eq("get_objects_solve_methods", zm); eq("get_objects_linemeas_methods", mm)
    for k in METHODS: eq("get_stage_from_method", "redshiftSolver", k)
    eq("get_stage_from_method", "lineMeasSolver", "lineMeasSolve")
    both = any(zm.get(m) == "lineModelSolve" and m in mm for m in w.tree["spectrumModels"])
    try: p.check_linemeas_validity(); bad = False
    except AmzException as e: bad = code(e) == ErrorCode.INCOHERENT_CONFIG_OPTIONS.value
    c.check(bad == both, "access-linemeas-validity", f"{bad} {both}")
    # line measurement inputs read from a catalogue
    if mm:
        m = r.pick(sorted(mm))
        ids = [f"{r.i(0, 10**6):07d}" for _ in range(4)]
        ids = list(dict.fromkeys(ids))
        rows = {i: (round(r.d(0, 6), 6), round(r.d(50, 900), 3), round(r.d(50, 900), 3)) for i in ids}
        with tempfile.TemporaryDirectory(prefix="vh-params-") as d:
            f = os.path.join(d, "cat.tsv")
            with open(f, "w") as o:
                o.write("ProcessingID\tother\tZ\tVA\tVE\n")
                for i, (z, a, e) in rows.items(): o.write(f"{i}\t0\t{z}\t{a}\t{e}\n")
            cfg = {"linemeascatalog": {m: f}, "linemeas_catalog_columns": {m: {"Redshift": "Z", "VelocityAbsorption": "VA", "VelocityEmission": "VE"}}}
            before = copy.deepcopy(p.parameters)
            i = r.pick(ids)
            p.load_linemeas_parameters_from_catalog(i, cfg)
            q = before[m]
            q["redshiftref"] = rows[i][0]
            q["lineMeasSolver"]["lineMeasSolve"]["lineModel"].update(velocityAbsorption=rows[i][1], velocityEmission=rows[i][2])
            c.eq(p.parameters, before, "linemeas-catalogue")
            try: p.load_linemeas_parameters_from_catalog("absent", cfg); bad = False
            except AmzException: bad = True
            c.check(bad, "linemeas-catalogue-missing-source")


vh.main()
