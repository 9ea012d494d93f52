"""C18: results of a spectrum do not depend on what the process did before; errors stay with their stage and object."""
import ctypes, os
import numpy as np
import vh
from vh import case

SHIM = None
_so = os.path.join(os.path.dirname(os.path.abspath(__import__("pylibamazed").__file__)), "..", "faultshim.so")
if os.path.exists(_so):  # before the extension is loaded
    SHIM = ctypes.CDLL(_so, mode=ctypes.RTLD_GLOBAL)
    SHIM.vh_fired_where.restype = SHIM.vh_name.restype = ctypes.c_char_p
    SHIM.vh_arm.argtypes = [ctypes.c_int, ctypes.c_long]
    SHIM.vh_calls.restype = ctypes.c_long
import flow  # noqa E402
from flow import Fault, describe, inproc, report, run, state  # noqa E402
from pylibamazed.redshift import CLog  # noqa E402
CLog.GetInstance()

DEPEND = {"redshiftSolver": ["lineMeasSolver", "reliabilitySolver", "subClassifSolver"], "linemeas_catalog_load": ["lineMeasSolver"]}
KINDS = ["good"] * 9 + ["nan", "zero", "badnoise", "short", "outside", "far"]


def errors_seen(q, ref):
    for k in ref["errors"].values(): q.count("error/" + k["code"])
    if not ref["errors"]: q.count("error/none")


@case(80, 700)
def sequence(c):
    """random orders and repetitions in one process"""
    r = c.r
    w = flow.World(r)
    sids = [f"s{k}" for k in range(r.i(2, 4))]
    for s in sids: w.spectrum(s, r.pick(KINDS + ["uncatalogued"] * (3 if w.catmodels else 0)))
    order = [r.pick(sids) for _ in range(r.i(4, 8))]
    describe(c, w)

    def go(q):
        pf = flow.process_flow(w)
        refs = q.fresh(w, pf, sids)
        for s in sids: errors_seen(q, refs[s])
        st, v = flow.forked(lambda: run(w, flow.process_flow(w), sids[0]))
        q.check(st == "ok", "processing-alone-fails", str(v)[-300:])
        if st == "ok": q.same(v, refs[sids[0]], "same-results-in-another-process", sids[0])
        for k, s in enumerate(order):
            q.same(run(w, pf, s), refs[s], "same-results-whatever-came-before", f"{s} ({w.spectra[s]['kind']}) after {[w.spectra[x]['kind'] for x in order[:k]]} = {order[:k]}")
            q.count("spectra in sequence")
    report(c, *inproc(go))
    w.close()


@case(30, 250)
def flows(c):
    """two process flows of different configurations alternate in one process; a flow is rebuilt"""
    r = c.r
    ws = [flow.World(r), flow.World(r)]
    for w in ws:
        for k in range(2): w.spectrum(f"s{k}", r.pick(KINDS))
    order = [(r.i(0, 1), r.i(0, 1), r.b(0.15)) for _ in range(r.i(4, 7))]
    describe(c, *ws)

    def go(q):
        refs = []
        for w in ws:
            st, v = flow.forked(lambda: q.fresh(w, flow.process_flow(w), ["s0", "s1"]))
            if not q.check(st == "ok", "processing-alone-fails", str(v)[-500:]): return
            refs.append(v)
        pfs = [None, None]
        for i, s, again in order:
            if pfs[i] is None or again: pfs[i] = flow.process_flow(ws[i])
            q.same(run(ws[i], pfs[i], f"s{s}"), refs[i][f"s{s}"], "same-results-whatever-other-flow-ran", f"world {i} s{s} in {order}")
            q.count("spectra in sequence")
    report(c, *inproc(go))
    for w in ws: w.close()


# ------------------------------------------------------------------------------------------------- faults
def object_errors(errs, m):
    return {k: v for k, v in errs.items() if k.endswith("_" + m)}


def isolation(q, w, got, ref, model, stage, key, where):
    """a fault in `stage` of `model` (None: at the root) changed nothing but what depends on it"""
    for m in w.models:
        if m == model or (model is None and stage != "init"):
            continue
        if stage == "init": continue
        q.same(got["objects"][m], ref["objects"][m], key + "other-object-results-unchanged", f"{m}: {where}")
        q.same(object_errors(got["errors"], m), object_errors(ref["errors"], m), key + "other-object-errors-unchanged", f"{m}: {where}")
    if model is None: return
    mine = {f"{s}_{model}" for s in [stage] + DEPEND.get(stage, [])}
    other = {k: v for k, v in object_errors(got["errors"], model).items() if k not in mine}
    q.same(other, {k: v for k, v in object_errors(ref["errors"], model).items() if k not in mine}, key + "other-stage-errors-unchanged", f"{model}: {where}")
    # what the stage does not feed keeps its results
    if stage in ("lineMeasSolver", "linemeas_catalog_load", "reliabilitySolver", "subClassifSolver"):
        drop = {"lineMeasSolver": ("linemeas",), "linemeas_catalog_load": ("linemeas",), "reliabilitySolver": ("reliability",), "subClassifSolver": ("SubType",)}[stage]
        def rest(o):
            out = {}
            for ds, v in o.items():
                if any(ds.startswith(d) for d in drop): continue
                if isinstance(v, list): v = [{k: x for k, x in e.items() if k not in drop} for e in v]
                if ds == "warningFlag": v = {k: x for k, x in v.items() if not ("linemeas" in drop and k.lower().startswith("linemeas"))}
                out[ds] = v
            return out
        q.same(rest(got["objects"][model]), rest(ref["objects"][model]), key + "other-stage-results-unchanged", f"{model}: {where}")


def classification(q, w, got, key, where):
    """the class is the best of the objects that were solved"""
    solved = {m: got["root"].get("classification", {}).get(f"{m}LogEvidence") for m in w.models}
    if "classification" not in got["root"]: return
    best = {m: e for m, e in solved.items() if e is not None and not np.isnan(e)}
    failed = [m for m in w.models if f"redshiftSolver_{m}" in got["errors"]]
    for m in failed:
        q.check(got["root"]["classification"].get(f"{m}Proba") in (None, 0.0) or np.isnan(got["root"]["classification"][f"{m}Proba"]),
                key + "failed-object-gets-no-probability", f"{m} {got['root']['classification']} {where}")
    best = {m: e for m, e in best.items() if m not in failed}
    t = got["root"]["classification"].get("Type")
    if best and t is not None:
        q.check(best.get(t) == max(best.values()), key + "class-is-best-solved-object", f"{t} {best} {where}")


STAGES = {"CLineModelSolve": "redshiftSolver", "CTemplateFittingSolve": "redshiftSolver", "CTplCombinationSolve": "redshiftSolver", "CLineMeasSolve": "lineMeasSolver"}


@case(60, 500)
def faults(c):
    """an error raised by a stage: reported under it, nothing else changes, next spectra unaffected"""
    r = c.r
    w = flow.World(r)
    sids = ["s0", "s1"]
    for s in sids: w.spectrum(s, r.pick(["good"] * 6 + ["zero", "outside"]))
    describe(c, w)
    plan = []
    for _ in range(r.i(4, 7)):
        plan.append((r.pick(["solver", "solver", "meas", "rel", "sub", "lmload", "classif", "reader", "load"]), r.pick(w.models), r.pick(["amz", "value", "key", "index"]), r.b(), r.pick(sids)))

    def go(q):
        import pylibamazed.redshift as red
        from pylibamazed.Exception import APIException
        from pylibamazed.ProcessFlow import ReliabilitySolve, SubType, ResultStoreOutput
        from pylibamazed.Parameters import Parameters
        pf = flow.process_flow(w)
        refs = q.fresh(w, pf, sids)
        for n, (what, m, kind, late, s) in enumerate(plan):
            msg = f"injected {n}"
            exc = {"amz": lambda: APIException(red.ErrorCode.GSL_ERROR if hasattr(red.ErrorCode, "GSL_ERROR") else red.ErrorCode.INTERNAL_ERROR, msg), "value": lambda: ValueError(msg),
                   "key": lambda: KeyError(msg), "index": lambda: IndexError(msg)}[kind]()
            meth = {"lineModelSolve": red.CLineModelSolve, "templateFittingSolve": red.CTemplateFittingSolve, "tplCombinationSolve": red.CTplCombinationSolve}
            rd = flow.make_reader(w, pf, s)
            if what == "solver":
                if not w.methods[m]: continue
                f = Fault(meth[w.methods[m]], "Compute", exc, late, m); stage, model = "redshiftSolver", m
            elif what == "meas": f = Fault(red.CLineMeasSolve, "Compute", exc, late, m); stage, model = "lineMeasSolver", m
            elif what == "rel": f = Fault(ReliabilitySolve, "Compute", exc, late, m); stage, model = "reliabilitySolver", m
            elif what == "sub": f = Fault(SubType, "Compute", exc, late, m); stage, model = "subClassifSolver", m
            elif what == "lmload": f = Fault(Parameters, "load_linemeas_parameters_from_result_store", exc, late, m); stage, model = "linemeas_catalog_load", m
            elif what == "classif": f = Fault(red.CClassificationSolve, "Compute", exc, late); stage, model = "classification", None
            elif what == "reader": f = Fault(type(rd), "init", exc, late); stage, model = "init", None
            else: f = Fault(ResultStoreOutput, "load_all", exc, late); stage, model = "load_result_store", None
            ref = refs[s]
            where = f"{what} of {m} of {s} raises {kind} {'after' if late else 'before'} its work"
            with f:
                try:
                    got = state(pf.run(rd))
                except Exception as e:
                    q.check(False, f"fault/{what}-stays-inside", f"{where}: run raised {e!r}")
                    continue
            q.count(f"faults/{what}/{'fired' if f.fired else 'not reached'}")
            if not f.fired: q.same(got, ref, "same-results-whatever-came-before", "no fault " + where); continue
            name = f"{stage}_{model}" if model else stage
            e = got["errors"].get(name)
            if q.check(e is not None, f"fault/{what}-reported-under-its-stage", f"{where}: {list(got['errors'])}"):
                q.check(msg in e["message"], f"fault/{what}-reported-with-its-message", f"{where}: {e}")
                if kind == "amz": q.check(e["code"] == red.ErrorCode(exc.getErrorCode()).name, f"fault/{what}-reported-with-its-code", f"{where}: {e}")
            # consequences
            extra = set(got["errors"]) - set(ref["errors"]) - {name}
            uses = {"redshiftSolver": lambda x: bool(w.methods[x]), "lineMeasSolver": lambda x: w.meas[x], "reliabilitySolver": lambda x: w.rel[x],
                    "subClassifSolver": lambda x: w.methods[x] == "lineModelSolve" and w.tree["spectrumModel_" + x]["redshiftSolver"]["lineModelSolve"]["lineModel"]["lineRatioType"] in ("tplRatio", "tplCorr"),
                    "linemeas_catalog_load": lambda x: w.meas[x] and not w.methods[x]}
            if stage == "init": want = {f"{t}_{x}" for x in w.models for t in uses if uses[t](x)}
            elif model: want = {f"{t}_{model}" for t in DEPEND.get(stage, []) if uses[t](model)}
            else: want = set()
            for k in want:
                q.check(k in got["errors"] and got["errors"][k]["code"] == "STAGE_NOT_RUN_BECAUSE_OF_PREVIOUS_FAILURE", "fault/dependent-stages-reported-as-not-run", f"{where}: {k} {got['errors'].get(k)}")
            allfail = all(f"redshiftSolver_{x}" in got["errors"] for x in w.models)
            ok = want | ({"classification"} if stage == "redshiftSolver" else set())
            q.check(extra <= ok, "fault/no-other-error", f"{where}: {extra - ok}")
            if stage == "redshiftSolver" and allfail:
                q.check(got["errors"].get("classification", {}).get("code") == "NO_CLASSIFICATION", "fault/no-classification-reported", f"{where}: {got['errors'].get('classification')}")
            if stage == "init":
                q.check(not any(got["objects"][x] for x in w.models), "fault/no-result-after-failed-initialisation", f"{where}")
            elif stage != "load_result_store":
                isolation(q, w, got, ref, model, stage, "fault/", where)
                if not (late and stage == "redshiftSolver"): classification(q, w, got, "fault/", where)  # a late fault leaves a stored result
            for s2 in sids:
                q.same(run(w, pf, s2), refs[s2], "fault/next-spectrum-unchanged", f"{s2} after {where}")
                q.count("spectra in sequence")
    report(c, *inproc(go))
    w.close()


@case(60, 700)
def faults_inside(c):
    """an error thrown in the middle of the library: nothing of the interrupted stage stays in the next spectra"""
    if SHIM is None: c.skip()
    r = c.r
    w = flow.World(r)
    sids = ["s0", "s1"]
    for s in sids: w.spectrum(s, "good")
    describe(c, w)
    n = r.i(4, 7)

    def go(q):
        pf = flow.process_flow(w)
        refs = q.fresh(w, pf, sids)
        SHIM.vh_arm(-1, 0)
        run(w, pf, "s0")
        calls = [(i, SHIM.vh_calls(i)) for i in range(SHIM.vh_size()) if SHIM.vh_calls(i)]
        q.count("functions reached", len(calls))
        for _ in range(n):
            i, k = r.pick(calls)
            nth = min(k, int(r.logd(1, k + 1)) if r.b() else r.i(1, k))
            SHIM.vh_arm(i, nth)
            try:
                got = run(w, pf, "s0")
            except Exception as e:
                where = SHIM.vh_name(i).decode()
                SHIM.vh_arm(-1, 0)
                q.check(False, "inner-fault/stays-inside", f"{where} call {nth}: run raised {e!r}")
                continue
            fired, at = SHIM.vh_has_fired(), SHIM.vh_fired_where().decode()
            SHIM.vh_arm(-1, 0)
            if not fired: q.same(got, refs["s0"], "same-results-whatever-came-before", "no fault"); continue
            model, stage = at.split("/")
            where = f"fault in call {nth} of {SHIM.vh_name(i).decode()} during {at}"
            q.count(f"inner faults/{stage or 'init'}")
            if "init" in got["errors"]: model = stage = ""  # the initialisation enters the scope of the solvers too (template orthogonalisation)
            if model == "classification": model = None
            if model not in w.models: model = None
            stage = stage or "init"
            name = f"{stage}_{model}" if model else stage
            e = got["errors"].get(name)
            q.count("inner faults/" + ("reported" if e else "absorbed"))
            if stage not in ("init", "load_result_store"):
                isolation(q, w, got, refs["s0"], model, stage, "inner-fault/", where)
                classification(q, w, got, "inner-fault/", where)
            elif stage == "init" and e:
                q.check(not any(got["objects"][x] for x in w.models), "inner-fault/no-result-after-failed-initialisation", where)
            for s2 in r.sample(sids, 2):
                if not q.same(run(w, pf, s2), refs[s2], "inner-fault/next-spectrum-unchanged", f"{s2} after {where}"):
                    q.viol[-1] = (q.viol[-1][0], q.viol[-1][1])
                    return
                q.count("spectra in sequence")
    report(c, *inproc(go))
    w.close()


if __name__ == "__main__":
    vh.main()
