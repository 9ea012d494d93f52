#!/usr/bin/env python3
"""Incremental offline build of the C++ library of /repo in instrumented flavours, of the
harnesses of /verif/harness against it, and of the SWIG extension of pylibamazed.

Everything is written under /verif/build (git-ignored); /repo is only read.

usage: build.py TARGET...      TARGET = <flavour>:<harness> | <flavour>:lib | pyext | pysan | all
flavours: plain (-O1, libstdc++ assertions), san (ASan + UBSan + vector annotations), tsan
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", f"{VERIF}/build")
# the C++ sources are mirrored by content, so that a fresh checkout's mtimes do not rebuild everything
SRC = f"{B}/src/RedshiftLibrary/src/lib"
INC = f"{B}/src/RedshiftLibrary"
CXX = "/usr/bin/g++"
VENV_PY = "/opt/vp/venv/bin/python"

COMMON = ("-std=c++17 -fPIC -w -pipe -DAMZ_VERIF "
          f"-I{B}/gen -I{INC} -I/usr/include/eigen3")
FLAVOURS = {
    "plain": dict(c="-O1 -g1 -D_GLIBCXX_ASSERTIONS", l="-fuse-ld=lld"),
    "san": dict(
        c="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow "
          "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR",
        l="-fsanitize=address,undefined,float-cast-overflow"),
    "tsan": dict(c="-O1 -g1 -fsanitize=thread -D_GLIBCXX_ASSERTIONS", l="-fsanitize=thread"),
}
LIBS = ("-lboost_filesystem -lboost_system -lboost_thread -lboost_timer -lboost_chrono "
        "-lboost_program_options -lcfitsio -lfftw3 -lopenblas -lgsl -lpthread")


def esc(p):
    return p.replace("$", "$$").replace(":", "$:").replace(" ", "$ ")


def mirror():
    keep = set()
    for sub in ("RedshiftLibrary/src/lib", "RedshiftLibrary/RedshiftLibrary", "RedshiftLibrary/tests/src"):
        for d, ds, fs in os.walk(f"{REPO}/{sub}"):
            for f in fs:
                if not f.endswith((".cpp", ".h", ".hpp", ".i", ".py", ".in", ".hxx", ".inl", ".txx")) \
                        or f.startswith("redshift_wrap") or f in ("version.h", "test-config.h"):
                    continue
                a = os.path.join(d, f)
                b = f"{B}/src/" + os.path.relpath(a, REPO)
                keep.add(b)
                data = open(a, "rb").read()
                try:
                    with open(b, "rb") as h:
                        if h.read() == data:
                            continue
                except OSError:
                    os.makedirs(os.path.dirname(b), exist_ok=True)
                with open(b, "wb") as h:
                    h.write(data)
    for d, ds, fs in os.walk(f"{B}/src"):
        for f in fs:
            if os.path.join(d, f) not in keep:
                os.remove(os.path.join(d, f))


def lib_sources():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            # lbfgspp is not installed here, /opt/vp's build leaves this file out as well
            if f.endswith(".cpp") and f != "lbfgsbfitter.cpp":
                out.append(os.path.join(d, f))
    return sorted(out)


def harness_sources():
    return sorted(f[:-4] for f in os.listdir(f"{VERIF}/harness") if f.endswith(".cpp"))


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def generate(flavours):
    # version.h is generated by cmake inside the source tree; ours is found first
    write_if_changed(f"{B}/gen/RedshiftLibrary/version.h",
                     '#define CPF_REDSHIFT_REVISION "verif"\nnamespace NSEpic {\nconst char *get_version();\n}\n')
    cc = shutil.which("ccache")
    launcher = "ccache " if cc else ""
    n = [f"builddir = {esc(B)}", ""]
    for fl in flavours:
        o = FLAVOURS[fl]
        n += [f"rule cxx_{fl}",
              f"  command = {launcher}{CXX} {COMMON} {o['c']} -MMD -MF $out.d $extra -c $in -o $out",
              "  depfile = $out.d", "  deps = gcc", "  description = CXX[%s] $in" % fl, "",
              f"rule so_{fl}",
              f"  command = {CXX} -shared {o['l']} -o $out @$out.rsp {LIBS}",
              "  rspfile = $out.rsp", "  rspfile_content = $in", "  description = SO[%s] $out" % fl, "",
              f"rule exe_{fl}",
              f"  command = {CXX} {o['l']} -o $out $in -L{B}/{fl} -lamz -Wl,-rpath,'$$ORIGIN' {LIBS}",
              "  description = EXE[%s] $out" % fl, ""]
        objs = []
        for s in lib_sources():
            ob = f"{B}/{fl}/obj/{os.path.relpath(s, SRC)}.o"
            objs.append(ob)
            n.append(f"build {esc(ob)}: cxx_{fl} {esc(s)}")
        so = f"{B}/{fl}/libamz.so"
        n.append(f"build {esc(so)}: so_{fl} " + " ".join(map(esc, objs)))
        n.append(f"build {fl}-lib: phony {esc(so)}")
        for h in harness_sources():
            ob = f"{B}/{fl}/h/{h}.o"
            n.append(f"build {esc(ob)}: cxx_{fl} {esc(f'{VERIF}/harness/{h}.cpp')}")
            n.append(f"  extra = -I{VERIF}/harness -I{B}/src/RedshiftLibrary/tests/src -fno-access-control")
            n.append(f"build {esc(f'{B}/{fl}/{h}')}: exe_{fl} {esc(ob)} | {esc(so)}")
            n.append(f"build {fl}-{h}: phony {esc(f'{B}/{fl}/{h}')}")
        n.append("")
    path = f"{B}/build.ninja"
    write_if_changed(path, "\n".join(n) + "\n")
    return path


def env():
    e = dict(os.environ)
    e.pop("LD_LIBRARY_PATH", None)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CCACHE_DIR"] = f"{B}/ccache"
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_SLOPPINESS"] = "time_macros"
    e["LC_ALL"] = "C.UTF-8"
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(f"build failed: {' '.join(cmd)[:200]}")
    return r.stdout


def ninja(targets, flavours):
    path = generate(flavours)
    run(["ninja", "-f", path, "-j", str(os.cpu_count() or 8)] + targets)


# ---------------------------------------------------------------- python extension
def pyext(fl="plain"):
    """swig + compile + link _redshift against the library of that flavour, plus a package directory that
    links to the Python sources of the working tree."""
    ninja([f"{fl}-lib"], list(FLAVOURS))
    base = {"plain": "py", "san": "pysan"}[fl]
    pkg = f"{B}/{base}/pylibamazed"
    gen = f"{B}/{base}/gen"
    # the wrapper itself is compiled with AddressSanitizer only: it is generated code, its size is prohibitive otherwise
    wflags = ["-O0", "-g0"] if fl == "plain" else ["-O0", "-g1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]
    lflags = ["-fuse-ld=lld"] if fl == "plain" else ["-fsanitize=address"]
    os.makedirs(pkg, exist_ok=True)
    os.makedirs(gen, exist_ok=True)
    h = hashlib.sha256(COMMON.encode())
    for d, ds, fs in os.walk(f"{INC}/RedshiftLibrary"):
        ds.sort()
        for f in sorted(fs):
            if f == "version.h" or f.startswith("redshift_wrap"):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, INC).encode() + b"\0" + open(p, "rb").read() + b"\0")
    stamp = h.hexdigest()
    so = f"{pkg}/_redshift.so"
    old = open(f"{gen}/stamp").read() if os.path.exists(f"{gen}/stamp") else ""
    if old != stamp or not os.path.exists(so) or not os.path.exists(f"{gen}/redshift.py"):
        if os.path.exists(f"{gen}/stamp"):
            os.remove(f"{gen}/stamp")
        run(["swig", "-python", "-c++", f"-I{INC}/RedshiftLibrary", f"-I{INC}", "-outdir", gen,
             "-o", f"{gen}/redshift_wrap.cpp", f"{INC}/RedshiftLibrary/redshift.i"])
        inc = subprocess.check_output(
            [VENV_PY, "-c", "import sysconfig,numpy;print(sysconfig.get_path('include'));print(numpy.get_include())"],
            text=True).split()
        cc = ["ccache"] if shutil.which("ccache") else []
        run(cc + [CXX] + COMMON.split() + wflags + [f"-I{i}" for i in inc] + [f"-I{INC}/RedshiftLibrary"] +
            ["-c", f"{gen}/redshift_wrap.cpp", "-o", f"{gen}/redshift_wrap.o"])
        run([CXX, "-shared"] + lflags + [f"{gen}/redshift_wrap.o", "-o", so, f"-L{B}/{fl}", "-lamz",
             f"-Wl,-rpath,{B}/{fl}"] + LIBS.split())
        with open(f"{gen}/stamp", "w") as f:
            f.write(stamp)
    faultshim(pkg, gen, fl)
    calprobe(pkg, fl)
    # package = symlinks to the working tree sources + generated module + resources
    want = {}
    psrc = f"{REPO}/pylibamazed/python/pylibamazed"
    for f in os.listdir(psrc):
        if f.endswith(".py") and f != "redshift.py":
            want[f] = f"{psrc}/{f}"
    want["redshift.py"] = f"{gen}/redshift.py"
    want["resources"] = f"{REPO}/pylibamazed/auxdir/pylibamazed"
    for f in os.listdir(pkg):
        p = f"{pkg}/{f}"
        if f in ("_redshift.so",):
            continue
        if os.path.islink(p) and want.get(f) == os.readlink(p):
            continue
        if os.path.islink(p) or os.path.isfile(p):
            os.remove(p)
        elif f == "__pycache__":
            shutil.rmtree(p)
    for f, t in want.items():
        if not os.path.islink(f"{pkg}/{f}"):
            os.symlink(t, f"{pkg}/{f}")


# functions that may throw in the middle of a stage: made to throw on demand by shim/faultshim.cpp
FAULTS = """CAbstractFitter::makeFitter CClassificationSolve::compute CContinuumManager::LoadFitContinuum CDeltaz::Compute CDeltaz::GetDeltaz
CExtremum::Find CInputContext::OrthogonalizeTemplates CInputContext::RebinInputs CLSF::getNormalizedProfileVector CLine::GetAsymParams CLine::SetAsymParams
CLineModelElement::GetLineWidth CLineModelElement::addToSpectrumModel CLineModelElement::getModelAtLambda CLineModelElement::getObservedPositionAndLineWidth
CLineModelElement::prepareSupport CLineModelFitting::GetModelSolution CLineModelFitting::getOutsideLinesSTD CLineModelFitting::initMembers CLineModelFitting::fit
CLineModelResult::Init CLineModelSolve::BuildChisquareArray CLineModelSolve::Solve CLineModelSolve::compute CLineMeasSolve::compute CLineProfileASYM::GetLineProfileVal
CLineRatioManager::getLeastSquareMerit CLineRatioManager::makeLineRatioManager CObjectSolve::GetRedshiftSampling COperatorLineModel::ComputeFirstPass
COperatorLineModel::Combine_firstpass_candidates COperatorLineModel::ComputeSecondPass COperatorLineModel::PrecomputeContinuumFit
COperatorLineModel::RecomputeAroundCandidates COperatorLineModel::buildExtremaResults COperatorLineModel::computeForLineMeas
COperatorLineModel::evaluateContinuumAmplitude COperatorLineModel::fitContinuumTemplates COperatorLineModel::fitVelocity COperatorPdfz::BestProba
COperatorPdfz::CombinePDF COperatorPdfz::Compute COperatorPdfz::ComputeAllPdfs COperatorPdfz::ComputePdf COperatorPdfz::Marginalize
COperatorPdfz::createPdfResult COperatorPdfz::logSumExpTrick COperatorPdfz::searchMaxPDFcandidates COperatorPdfz::validateChisquareArray
COperatorTemplateFitting::BasicFit COperatorTemplateFitting::Compute COperatorTemplateFitting::ComputeCrossProducts
COperatorTemplateFittingBase::ComputeSpectrumModel COperatorTemplateFittingBase::RebinTemplate COperatorTemplateFittingLog::CheckRedshifts
COperatorTemplateFittingLog::Compute COperatorTemplateFittingLog::EstimateXtY COperatorTemplateFittingLog::FitAllz COperatorTemplateFittingLog::FitRangez
COperatorTemplateFittingLog::InitFFT COperatorTemplateFittingPhot::ComputePhotCrossProducts COperatorTemplateFittingPhot::RebinTemplateOnPhotBand
COperatorTplcombination::BasicFit COperatorTplcombination::Compute COperatorTplcombination::RebinTemplate CPdfCandidatesZ::SetIntegrationRanges
CPdfCandidatesZ::Compute CPdfCandidatesZ::getCandidateSumTrapez CPhotometricBand::IntegrateFlux CRebin::compute CRebin::convert CRebin::create CRebinFineGrid::rebin
CRebinFineGrid::rebinFineGrid CSpectrum::EstimateContinuum CSpectrum::InitSpectrumContinuum CSpectrum::Rebin CSpectrum::SetContinuumEstimationMethod
CSpectrum::SetFluxAxis CSpectrum::SetSpectralAndFluxAxes CSpectrum::SetSpectralAxis CSpectrum::ValidateSpectrum CSpectrum::correctSpectrum
CSpectrumFluxAxis::Subtract CSpectrumFluxAxis::setError CSpectrumFluxCorrectionCalzetti::GetDustCoeff CSpectrumFluxCorrectionMeiksin::ConvolveByLSFOneCurve
CSpectrumFluxCorrectionMeiksin::convolveByLSF CSpectrumFluxCorrectionMeiksin::getCorrection CSpectrumLogRebinning::computeTargetLogSpectralAxis
CSpectrumLogRebinning::inferTemplateRebinningSetup CSpectrumLogRebinning::loglambdaRebinSpectrum CSpectrumLogRebinning::loglambdaRebinTemplate
CSpectrumLogRebinning::setupRebinning CSpectrumModel::ApplyContinuumOnGrid CSpectrumModel::getFluxDirectIntegration CSpectrumSpectralAxis::ClampLambdaRange
CSvdFitter::fitAmplitudesLinSolve CHybridFitter::doFit CTemplate::ApplyDustCoeff CTemplate::ApplyMeiksinCoeff CTemplate::InitIsmIgmConfig CTemplateCatalog::Add
CTemplateCatalog::GetTemplateByName CTemplateFittingSolve::BuildChisquareArray CTemplateFittingSolve::Solve CTemplateFittingSolve::buildExtremaResults
CTemplateFittingSolve::compute CTemplatesFitStore::Add CTemplatesOrthogonalization::Orthogonalize CTemplatesOrthogonalization::OrthogonalizeTemplate
CTplCombinationSolve::BuildChisquareArray CTplCombinationSolve::Solve CTplCombinationSolve::buildExtremaResults CTplCombinationSolve::checkTemplates
CTplCombinationSolve::compute CTplratioManager::SetNominalAmplitudes CTplratioManager::prepareFit CTplratioManager::computeMerit CRulesManager::computeMerit
CZPrior::CombineLogZPrior CZPrior::GetStrongLinePresenceLogZPrior TLineModelElementParam::setVelocity TLineModelResult::updateFromModel
CSpectrumModel::refreshModel CSpectrumModel::reinitModel CLineModelFitting::LoadFitContinuum CParameterStore::Get""".split()


def faultshim(pkg, gen, fl):
    """asm trampolines for the functions of FAULTS that the library exports, linked with shim/faultshim.cpp"""
    out = subprocess.check_output(["nm", "-D", "--defined-only", f"{B}/{fl}/libamz.so"], text=True)
    syms = [l.split()[2] for l in out.splitlines() if len(l.split()) == 3 and l.split()[1] in "TW"]
    dem = subprocess.run(["c++filt"], input="\n".join(syms), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    want = set(FAULTS)
    use = []
    for s, d in zip(syms, dem):
        if "<" in d.split("(")[0]:
            continue
        if d.split("(")[0].replace("NSEpic::", "") in want and "[" not in d.split(")")[-1]:
            use.append((s, d.split("(")[0]))
    a = [".text"]
    for i, (s, _) in enumerate(use):
        a += [f".globl {s}", f".type {s},@function", f"{s}:"]
        regs = ["rdi", "rsi", "rdx", "rcx", "r8", "r9", "rax"]
        a += [f" push %{r}" for r in regs] + [" sub $128,%rsp"]
        a += [f" movups %xmm{k},{16 * k}(%rsp)" for k in range(8)]
        a += [f" mov ${i},%edi", " call vh_hook@PLT", " mov %rax,%r11"]
        a += [f" movups {16 * k}(%rsp),%xmm{k}" for k in range(8)] + [" add $128,%rsp"]
        a += [f" pop %{r}" for r in reversed(regs)] + [" jmp *%r11", f".size {s},.-{s}"]
    a += [".section .data.rel,\"aw\"", ".globl vh_names", ".p2align 3", "vh_names:"] + [f" .quad vh_s{i}" for i in range(len(use))] + [" .quad 0"]
    a += [".section .rodata", ".globl vh_n", ".p2align 2", "vh_n:", f" .long {len(use)}"]
    a += [x for i, (s, _) in enumerate(use) for x in (f"vh_s{i}:", f" .asciz \"{s}\"")] + [".section .note.GNU-stack,\"\",@progbits"]
    asm = "\n".join(a) + "\n"
    # the same annotations as the library, whose inline functions are instantiated here too
    cf = ["-O1"] if fl == "plain" else FLAVOURS[fl]["c"].split()
    key = hashlib.sha256((asm + " ".join(cf) + open(f"{VERIF}/shim/faultshim.cpp").read()).encode()).hexdigest()
    so = f"{pkg}/../faultshim.so"
    if os.path.exists(so) and os.path.exists(so + ".key") and open(so + ".key").read() == key:
        return
    with open(f"{gen}/faultshim.s", "w") as f:
        f.write(asm)
    run([CXX] + COMMON.split() + cf + ["-shared", f"{VERIF}/shim/faultshim.cpp", f"{gen}/faultshim.s", "-o", so,
         f"-L{B}/{fl}", "-lamz", f"-Wl,-rpath,{B}/{fl}", "-ldl"])
    with open(so + ".key", "w") as f:
        f.write(key)


def calprobe(pkg, fl):
    """the reader of the calibration held by the library's context (C27)"""
    cf = ["-O1"] if fl == "plain" else FLAVOURS[fl]["c"].split()
    so, src = f"{pkg}/../calprobe.so", f"{VERIF}/shim/calprobe.cpp"
    key = open(f"{pkg}/../gen/stamp").read() + hashlib.sha256((" ".join(cf) + open(src).read()).encode()).hexdigest()
    if os.path.exists(so) and os.path.exists(so + ".key") and open(so + ".key").read() == key:
        return
    run([CXX] + COMMON.split() + cf + ["-fno-access-control", "-shared", src, "-o", so, f"-L{B}/{fl}", "-lamz", f"-Wl,-rpath,{B}/{fl}"])
    with open(so + ".key", "w") as f:
        f.write(key)


def build(targets):
    os.makedirs(B, exist_ok=True)
    with open(f"{B}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror()
        fls = list(FLAVOURS)
        nt, py = [], []
        for t in targets:
            if t in ("pyext", "pysan"):
                py.append("san" if t == "pysan" else "plain")
            elif t == "all":
                py = ["plain", "san"]
                nt += ["plain-lib", "san-lib"] + [f"{f}-{h}" for h in harness_sources() for f in ("plain", "san")] + ["tsan-logging"]
            else:
                f, h = t.split(":")
                nt.append(f"{f}-{h}")
        if nt:
            ninja(nt, fls)
        for f in py:
            pyext(f)


if __name__ == "__main__":
    build(sys.argv[1:] or ["all"])
