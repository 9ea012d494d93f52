"""C21: what is read from the results and written to the file is what the result store holds."""
import io, json, math, os, tempfile
import numpy as np
import h5py
import vh
from vh import case
import flow
from flow import Fault, flat, describe, inproc, report

TABLE = [l.rstrip("\n").split("\t") for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "output_table.tsv")) if not l.startswith("#")]
TABLE = [dict(name=t[0], ds=t[1], ext=t[2] == "True", level=t[3], path=t[4], key=t[5]) for t in TABLE]
ARRAYS = ("TFloat64List", "TInt32List", "TBoolList", "TStringList")
KINDS = ["good"] * 14 + ["nan", "zero", "short", "outside", "far"]


def value(res, path, obs="", band="", model=""):
    """the attribute of a result of the library, or KeyError"""
    if "[" in path:
        name, sub = path[:path.index("[")], {"obs_id": obs, "band_name": band, "object_type": model}[path[path.index("[") + 1:-1]]
        m = getattr(res, name)
        if sub not in m: raise KeyError(sub)
        v = m[sub]
        return np.array([x for x in v]) if type(v).__name__ != "float" else v
    v = res
    for p in path.split("."):
        if not hasattr(v, p): raise KeyError(p)
        v = getattr(v, p)
    t = type(v).__name__
    if t in ARRAYS: return np.array([x for x in v])
    if t == "CMask": return np.array([x for x in v.getMaskList()])
    if isinstance(v, (tuple, list)): return np.array(v)
    return v


def wanted(row, w, method=None):
    if row["ext"] and not w.extended: return False
    if method is not None and "Firstpass" in row["name"]:
        if method != "lineModelSolve": return False
        if w.tree["spectrumModel_" + w.current]["redshiftSolver"]["lineModelSolve"]["lineModel"]["skipSecondPass"]: return False
    return True


def getter(rs, kind): return getattr(rs, "Get" + kind[1:])


def expect(w, rs, failed_init):
    """{(object or None, dataset, rank or None): {attribute: value}} read directly from the result store"""
    out = {}
    obs_ids = w.obs if w.multi == "full" else [""]

    def put(k, a, v): out.setdefault(k, {})[a] = v
    for ds in ("context_warningFlag", "init_warningFlag"):
        if rs.HasDataset("", "", "", ds):
            put((None, ds, None), "ContextWarningFlags" if "context" in ds else "InitWarningFlags", rs.GetFlagLogResult("", "", "", ds).flagValue)
    if rs.HasDataset("classification", "classification", "classification", "solveResult"):
        k = (None, "classification", None)
        x = rs.GetClassificationResult("classification", "classification", "classification", "solveResult")
        put(k, "Type", x.m_TypeLabel)
        for m in w.models:
            if m in x.m_evidences: put(k, m + "LogEvidence", x.m_evidences[m])
            if m in x.m_proba: put(k, m + "Proba", x.m_proba[m])
        if rs.HasDataset("classification", "classification", "classification", "warningFlag"):
            put(k, "WarningFlags", rs.GetFlagLogResult("classification", "classification", "classification", "warningFlag").flagValue)
    if failed_init: return out
    for m in w.models:
        w.current = m
        stages = ([("redshiftSolver", w.methods[m])] if w.methods[m] else []) + ([("lineMeasSolver", "lineMeasSolve")] if w.meas[m] else [])
        for stage, method in stages:
            if rs.HasDataset(m, stage, method, "warningFlag"):
                put((m, "warningFlag", None), method + "WarningFlags", rs.GetFlagLogResult(m, stage, method, "warningFlag").flagValue)
            for row in TABLE:
                if row["level"] != "object" or row["ds"] == "reliability" or not wanted(row, w): continue
                if not (rs.HasDataset(m, stage, method, row["key"]) and rs.HasDataset(m, stage, method, row["ds"].replace("<ObsID>", ""))): continue
                res = getter(rs, rs.GetGlobalResultType(m, stage, method, row["key"]))(m, stage, method, row["key"])
                for o in obs_ids if "<ObsID>" in row["ds"] else [""]:
                    try: put((m, row["ds"].replace("<ObsID>", o), None), row["name"], value(res, row["path"], obs=o))
                    except KeyError: pass
            if stage != "redshiftSolver" or not rs.HasDataset(m, stage, method, "extrema_results"): continue
            n = rs.getNbRedshiftCandidates(m, stage, method)
            for rank in range(n):
                for row in TABLE:
                    if row["level"] != "candidate" or not wanted(row, w, method): continue
                    ds = row["ds"].replace("<ObsID>", "")
                    if not rs.HasCandidateDataset(m, stage, method, row["key"], ds): continue
                    kind = rs.GetCandidateResultType(m, stage, method, row["key"], ds)
                    if kind == "TLineModelResult": res = rs.GetLineModelResult(m, stage, method, row["key"], ds, rank, row["name"].startswith("Firstpass"))
                    else: res = getter(rs, kind)(m, stage, method, row["key"], ds, rank)
                    if res is None: continue
                    if "<BandName>" in row["name"]:
                        for b in w.bands if w.phot else []:
                            try: put((m, ds, rank), b, value(res, row["path"], band=b))
                            except KeyError: pass
                        continue
                    for o in obs_ids if "<ObsID>" in row["ds"] else [""]:
                        try: put((m, row["ds"].replace("<ObsID>", o), rank), row["name"], value(res, row["path"], obs=o))
                        except KeyError: pass
    return out


def native(v):
    if isinstance(v, bytes): return v.decode()
    if isinstance(v, np.ndarray) and v.dtype.kind == "S": return np.array([x.decode() for x in v])
    if isinstance(v, np.ndarray) and v.dtype.kind == "O": return np.array([x.decode() if isinstance(x, bytes) else x for x in v])
    return v


def equal(a, b):
    a, b = native(a), native(b)
    if isinstance(a, (str, np.str_)) or isinstance(b, (str, np.str_)): return str(a) == str(b)
    a, b = np.atleast_1d(np.asarray(a)), np.atleast_1d(np.asarray(b))
    if a.shape != b.shape: return False
    if a.dtype.kind in "USO" or b.dtype.kind in "USO": return [str(x) for x in a] == [str(x) for x in b]
    return bool(np.all((a == b) | ((a != a) & (b != b))))


def read_node(node):
    if isinstance(node, h5py.Dataset): return {k: native(node[k]) for k in node.dtype.names}
    return {k: native(v) for k, v in node.attrs.items()}


def read_file(node, models):
    """the same shape as expect() plus {(object or None, stage): error}"""
    got, err, other = {}, {}, []

    def take(k, n):
        v = read_node(n)
        if v: got[k] = v
    for name, x in node.items():
        if name in models:
            for ds, y in x.items():
                if ds == "candidates":
                    for cand, z in y.items():
                        if not (cand.startswith("candidate") and len(cand) == 10): other.append(f"{name}/{ds}/{cand}"); continue
                        for d, u in z.items(): take((name, d, ord(cand[-1]) - ord("A")), u)
                elif ds.endswith("_error"): err[(name, ds[:-6])] = read_node(y)
                else: take((name, ds, None), y)
        elif name.endswith("_error"): err[(None, name[:-6])] = read_node(x)
        else: take((None, name, None), x)
    return got, err, other


KNOWN = {}
for _t in TABLE: KNOWN.setdefault(_t["ds"], set()).add(_t["name"])


def compare(q, got, want, key, where, models):
    for k in want:
        q.check(k in got, key + "nothing-missing", f"{where}: {k} is missing, {list(got)}")
    for k in got:
        if k in want: continue
        q.check(False, key + "nothing-else", f"{where}: {k} {list(got[k])}")
    for k in set(got) & set(want):
        for a in want[k]:
            if not q.check(a in got[k], key + "no-attribute-missing", f"{where}: {k} {a}"): continue
            q.check(equal(got[k][a], want[k][a]), key + "value", f"{where}: {k} {a} is {vh.short(got[k][a])}, the store has {vh.short(want[k][a])}")
        for a in got[k]:
            if a not in want[k]:
                fixed = any(a in KNOWN[d] for d in KNOWN if d.replace("<ObsID>", "") in k[1]) or any(a.endswith(s) for s in ("WarningFlags", "LogEvidence", "Proba"))
                q.check(not fixed, key + "no-attribute-more", f"{where}: {k} {a}")


def sub_types(w, m, want):
    """sub type of the ratio chosen for each candidate, read from the calibration files"""
    lm = w.tree["spectrumModel_" + m]["redshiftSolver"]["lineModelSolve"]["lineModel"]
    out = []
    rank = 0
    while (m, "model_parameters", rank) in want:
        name = want[(m, "model_parameters", rank)]["LinesRatioName"]
        stem = name[:-4] if name.endswith(".tsv") else name
        with open(os.path.join(w.cal, lm["tplRatioCatalog"], stem + ".json")) as f: out.append(json.load(f)["sub_type"])
        rank += 1
    return out


def reliability(w, m, rs):
    """the fixed function of the posterior that stands for the network"""
    import pylibamazed.redshift as red
    p = rs.GetLogZPdfResult(m, "redshiftSolver", w.methods[m], "pdf")
    v = [red.CZGridParam(red.TFloat64Range(a, b), s, z) for a, b, s, z in zip(p.zmin, p.zmax, p.zstep, p.zcenter)]
    x = red.CLogZPdfResult(red.CZGridListParams(v), True, red.TFloat64List([y for y in p.valProbaLog]))
    x.convertToRegular(True)
    if x.zmax[0] < w.zrange[m][1]: x.extrapolate_on_right_border(w.zrange[m][1])
    x = np.exp(np.array([y for y in x.valProbaLog]))
    return float(np.sum(x * np.linspace(0.1, 0.9, len(x))) / np.sum(x))


def one(w, q, pf, sid, fault, stage, model):
    """processes one spectrum; returns the output object and what the file has to hold"""
    import pylibamazed.redshift as red
    rd = flow.make_reader(w, pf, sid)
    with fault or _nothing():
        rso = pf.run(rd)
    rs = red.CProcessFlowContext.GetInstance().GetResultStore()
    rso.spectrum_id = sid
    errs = {k: dict(v) for k, v in rso.errors.items()}
    want = expect(w, rs, "init" in errs)
    if "load_result_store" in errs: q.check(False, "results-can-be-loaded", f"{sid}: {errs['load_result_store']}"); return None
    if "init" not in errs:
        for m in w.models:
            if w.rel[m] and not any(k in errs for k in (f"redshiftSolver_{m}", f"reliabilitySolver_{m}")):
                want[(m, "reliability", None)] = {"Reliability": reliability(w, m, rs)}
            if w.methods[m] == "lineModelSolve" and not any(k in errs for k in (f"redshiftSolver_{m}", f"subClassifSolver_{m}")):
                if w.tree["spectrumModel_" + m]["redshiftSolver"]["lineModelSolve"]["lineModel"]["lineRatioType"] != "rules":
                    for rank, t in enumerate(sub_types(w, m, want)): want[(m, "model_parameters", rank)]["SubType"] = t
    got = flat(rso, w.models)
    for k in [k for k in got if k[1] == "reliability" and k in want]:
        q.check(abs(got[k]["Reliability"] - want[k]["Reliability"]) <= 1e-9, "output/reliability", f"{sid}: {got[k]} {want[k]}")
        want[k]["Reliability"] = got[k]["Reliability"]
    where = f"{sid} ({w.spectra[sid]['kind']}{', ' + stage + ' of ' + str(model) + ' failed' if fault and fault.fired else ''})"
    compare(q, got, want, "output/", where, w.models)
    # a stage that fails before its work leaves its error only
    if fault and fault.fired:
        for k in want:
            gone = {"redshiftSolver": k[0] == model and k[1] != "warningFlag", "lineMeasSolver": k[0] == model and k[1].startswith("linemeas"),
                    "reliabilitySolver": k[:2] == (model, "reliability"), "classification": k[1] == "classification"}[stage]
            q.check(not gone, "nothing-of-a-failed-stage", f"{where}: {k}")
    q.count("datasets", len(want)); q.count("attributes", sum(len(v) for v in want.values()))
    return rso, want, errs, where


class _nothing:
    fired = False
    def __enter__(self): return self
    def __exit__(self, *a): pass


def pdf(q, w, pf, m, rso_like, want, where):
    """the posterior restored from what was written"""
    from pylibamazed.PdfHandler import BuilderPdfHandler
    log = w.tree["spectrumModel_" + m]["redshiftSampling"] == "log"
    h = BuilderPdfHandler().add_params(rso_like, m, log).build()
    z, p = want["z"], want["p"]
    q.check(len(h.redshifts) == len(z) and np.allclose(h.redshifts, z, rtol=1e-9, atol=0), "pdf/redshifts-restored", f"{where} {m}: {vh.short(h.redshifts)} {vh.short(z)}")
    q.check(equal(h.valProbaLog, p), "pdf/values-restored", f"{where} {m}: {vh.short(h.valProbaLog)} {vh.short(p)}")
    if "fz" in want:
        h = BuilderPdfHandler().add_params(rso_like, m, log, True).build()
        q.check(len(h.redshifts) == len(want["fz"]) and np.allclose(h.redshifts, want["fz"], rtol=1e-9, atol=0), "pdf/first-pass-redshifts-restored", f"{where} {m}: {vh.short(h.redshifts)} {vh.short(want['fz'])}")
        q.check(equal(h.valProbaLog, want["fp"]), "pdf/first-pass-values-restored", f"{where} {m}")


class FromFile:
    """what a reader of the file gives to the pdf builder"""
    def __init__(self, node): self.node = node
    def get_dataset(self, m, ds): return {k: np.atleast_1d(v) for k, v in read_node(self.node[m][ds]).items()}
    def has(self, m): return all(ds in self.node.get(m, {}) for ds in ("pdf", "pdf_params"))


def posteriors(w, rs, errs):
    out = {}
    for m in w.models:
        if w.methods[m] and rs.HasDataset(m, "redshiftSolver", w.methods[m], "pdf"):
            p = rs.GetLogZPdfResult(m, "redshiftSolver", w.methods[m], "pdf")
            out[m] = {"z": np.array([x for x in p.redshifts]), "p": np.array([x for x in p.valProbaLog])}
            if w.extended and rs.HasDataset(m, "redshiftSolver", w.methods[m], "firstpass_pdf"):
                p = rs.GetLogZPdfResult(m, "redshiftSolver", w.methods[m], "firstpass_pdf")
                out[m].update({"fz": np.array([x for x in p.redshifts]), "fp": np.array([x for x in p.valProbaLog])})
    return out


def short_names(q, w, pf, rso, want, errs, where, r):
    """attributes by their dotted names"""
    lines = None
    for k, v in r.sample(list(want.items()), min(len(want), 6)):
        m, ds, rank = k
        a = r.pick(list(v))
        if ds.startswith(("model", "continuum", "linemeas_model")) and ds not in ("model_parameters", "modeltplCombination_parameters"): continue
        if ds in ("PhotometricModel", "line_mask", "linemeas_line_mask", "pdf", "firstpass_pdf", "pdf_params", "continuum_polynom") and rank is None: continue
        if ds in ("PhotometricModel", "linemeas_line_mask", "warningFlag"): continue
        if m is None:
            name = f"classification.{a}" if ds == "classification" else a
            g = rso.get_attributes([name], None).get(name)
            q.check(equal(g, v[a]), "short-name/root", f"{where}: {name} is {vh.short(g)}, {vh.short(v[a])}")
            continue
        if ds in ("linemeas", "fitted_lines"):
            ids = "LinemeasLineID" if ds == "linemeas" else "FittedLineID"
            if len(set(v[ids])) != len(v[ids]) or a == ids: continue
            i = r.i(0, len(v[ids]) - 1)
            line = w.nlines[int(v[ids][i])][1]
            if "." in line: continue
            name = f"{m}.{line}.{a}" + ("" if rank is None else f".{rank}")
            g = rso.get_attributes([name], pf.calibration_library.get_lines_ids([name])).get(name)
            q.check(equal(g, np.atleast_1d(v[a])[i]), "short-name/line", f"{where}: {name} is {vh.short(g)}, {vh.short(v[a])}[{i}]")
            continue
        name = f"{m}.{a}" + ("" if rank is None else f".{rank}")
        if rank == 0 and ds == "model_parameters" and r.b(): name = f"{m}.{a}"
        g = rso.get_attributes([name], None).get(name)
        q.check(g is not None and equal(g, v[a]), "short-name/object", f"{where}: {name} is {vh.short(g)}, {vh.short(v[a])}")
    for k, e in errs.items():
        stage, _, m = k.partition("_")
        if k == "load_result_store": continue
        a = r.pick(list(e))
        if k.startswith("linemeas_catalog_load_"): stage, m = "linemeas_catalog_load", k[len("linemeas_catalog_load_"):]
        name = f"error.{m}.{stage}.{a}" if m else f"error.{k}.{a}"
        g = rso.get_attributes([name], None).get(name)
        q.check(equal(g, e[a]), "short-name/error", f"{where}: {name} is {g}, {e[a]}")


@case(70, 600)
def file(c):
    """several spectra in one file, some with failing stages, written in any order"""
    r = c.r
    w = flow.World(r)
    sids = [f"s{k}" for k in range(r.i(2, 4))]
    for s in sids: w.spectrum(s, r.pick(KINDS + ["uncatalogued"] * (3 if w.catmodels else 0)))
    plan = []
    for s in sids:
        plan.append(r.pick([None, None, None, "redshiftSolver", "lineMeasSolver", "reliabilitySolver", "classification"]))
    who = [r.pick(w.models) for _ in sids]
    late = r.b()
    order = r.sample(sids, len(sids))
    excl = {m: r.sample(["pdf", "pdf_params", "model_parameters", "fitted_lines", "linemeas", "warningFlag", "model", "continuum"], r.i(1, 3)) for m in w.models} if r.b(0.3) else {}
    describe(c, w)

    def go(q):
        import pylibamazed.redshift as red
        from pylibamazed.Exception import APIException
        from pylibamazed.H5Writer import H5Writer
        from pylibamazed.ProcessFlow import ReliabilitySolve
        pf = flow.process_flow(w)
        done = {}
        path = os.path.join(w.dir, "out.h5")

        def write(sid):
            rso, want, errs, where, posts = done[sid]
            with h5py.File(path, "a") as f:
                h = H5Writer(rso)
                h.excluded_datasets = {m: list(v) for m, v in excl.items()}
                try: h.write_hdf5(f, sid)
                except Exception as e: q.check(False, "file/can-be-written", f"{where}: {e!r} {e.__cause__!r}")
            q.count("spectra written")
        for n, s in enumerate(sids):
            stage, m = plan[n], who[n]
            exc = APIException(red.ErrorCode.INTERNAL_ERROR, f"injected {n}")
            meth = {"lineModelSolve": red.CLineModelSolve, "templateFittingSolve": red.CTemplateFittingSolve, "tplCombinationSolve": red.CTplCombinationSolve}
            fault = None
            if stage == "redshiftSolver" and w.methods[m]: fault = Fault(meth[w.methods[m]], "Compute", exc, False, m)
            elif stage == "lineMeasSolver": fault = Fault(red.CLineMeasSolve, "Compute", exc, False, m)
            elif stage == "reliabilitySolver": fault = Fault(ReliabilitySolve, "Compute", exc, False, m)
            elif stage == "classification": fault = Fault(red.CClassificationSolve, "Compute", exc, False)
            x = one(w, q, pf, s, fault, stage, m)
            if x is None: continue
            q.count("failed stages", bool(fault and fault.fired))
            for e in x[2].values(): q.count("error/" + e["code"])
            rs = red.CProcessFlowContext.GetInstance().GetResultStore()
            done[s] = x + (posteriors(w, rs, x[2]),)
            short_names(q, w, pf, x[0], x[1], x[2], x[3], r)
            if not late: write(s)
        if late:
            for s in order:
                if s in done: write(s)
        with h5py.File(path, "r") as f:
            q.check(sorted(f.keys()) == sorted(done), "file/one-group-per-spectrum", f"{list(f.keys())}")
            for s in done:
                rso, want, errs, where, posts = done[s]
                got, err, other = read_file(f[s], w.models)
                want = {k: v for k, v in want.items() if not (all(np.size(x) == 0 for x in v.values()) or k[0] in excl and k[1] in excl[k[0]])}
                compare(q, got, want, "file/", where, w.models)
                q.check(not other, "file/no-unknown-group", f"{where}: {other}")
                name = {(None if m is None else m, st): e for (m, st), e in err.items()}
                full = {(f"{st}_{m}" if m else st): e for (m, st), e in err.items()}
                if "init" in errs: q.check(set(full) == {"init"}, "file/failed-initialisation", f"{where}: {list(full)}")
                else: q.check(set(full) == set(errs), "file/errors", f"{where}: {sorted(full)} {sorted(errs)}")
                for k, e in full.items():
                    for a in ("code", "message", "line", "filename", "method"):
                        q.check(k in errs and a in e and equal(e[a], errs[k][a]), "file/error-value", f"{where}: {k} {a} {e.get(a)!r} {errs.get(k)}")
                for m, p in posts.items():
                    if "init" in errs: continue
                    pdf(q, w, pf, m, rso, p, where)
                    if not (m in excl and {"pdf", "pdf_params"} & set(excl[m])) and q.check(FromFile(f[s]).has(m), "file/posterior-present", f"{where}: {m} {list(f[s])}"): pdf(q, w, pf, m, FromFile(f[s]), p, where + " (file)")
    report(c, *inproc(go))
    w.close()


if __name__ == "__main__":
    vh.main()
