"""C20: the spectrum reader loads, filters and merges exactly the requested samples."""
import json, math, tempfile
import numpy as np
import pandas as pd
import vh
from pylibamazed.redshift import CFlagWarning, CLog, CProcessFlowContext, ErrorCode, AmzException, WarningCode
from pylibamazed.AbstractSpectrumReader import AbstractSpectrumReader
from pylibamazed.ASCIISpectrumReader import ASCIISpectrumReader
from pylibamazed.CalibrationLibrary import CalibrationLibrary
from pylibamazed.Container import Container
from pylibamazed.Exception import APIException
from pylibamazed.Filter import FilterItem, FilterList, SpectrumFilterItem
from pylibamazed.Parameters import Parameters

CLog.GetInstance()  # no handler: quiet
ctx = CProcessFlowContext.GetInstance()
flag = CFlagWarning.GetInstance()
tmp = tempfile.mkdtemp(prefix="vh-reader-")
EXTRA = ["quality", "mask", "snr"]
INSTR = ["<", ">", "<=", ">=", "=", "in", "~in", "!=", "&", "~&", "0&", "^", "~^"]


class Reader(AbstractSpectrumReader):
    def load_wave(self, a, obs_id=""):
        self.waves.append(a, obs_id)

    def load_flux(self, a, obs_id=""):
        self.fluxes.append(a, obs_id)

    def load_error(self, a, obs_id=""):
        self.errors.append(a, obs_id)

    def load_others(self, name, a, obs_id=""):
        self.others.setdefault(name, Container()).append(a, obs_id)

    def load_lsf(self, v, obs_id=""):
        if isinstance(v, tuple):
            self.lsf_type = "gaussianVariableWidth"
            lsf = np.zeros(len(v[0]), dtype=[("wave", "<f8"), ("width", "<f8")])
            lsf["wave"], lsf["width"] = v
        else:
            self.lsf_type = "gaussianConstantWidth"
            lsf = np.zeros(1, dtype=[("width", "<f8")])
            lsf["width"][0] = v
        self.lsf_data.append(lsf, obs_id)

    def load_photometry(self, p, obs_id=""):
        self.photometric_data.append(p)


# ---------------------------------------------------------------- reference
def passes(instr, v, a):
    """one value against one filter, from the schema's description of the instructions"""
    if instr == "<": return a < v
    if instr == ">": return a > v
    if instr == "<=": return a <= v
    if instr == ">=": return a >= v
    if instr == "=": return a == v
    if instr == "!=": return a != v
    if instr == "in": return any(a == x for x in v)
    if instr == "~in": return not any(a == x for x in v)
    a = int(a)
    if instr == "&": return (a & v) != 0
    if instr == "~&": return (a & v) == 0
    if instr == "0&": return a == 0 or (a & v) != 0
    if instr == "^": return (a ^ v) != 0
    if instr == "~^": return (a ^ v) == 0
    raise ValueError(instr)


DOC = {"Wave": "waves", "Flux": "fluxes", "Err": "errors"}


def want_rows(obs, filters):
    """rows (wave, flux, err, extras...) of one observation kept by all the filters, in the input order"""
    out = []
    for k in range(len(obs["waves"])):
        if all(passes(f["instruction"], f["value"], obs[DOC.get(f["key"], f["key"])][k]) for f in filters):
            out.append(k)
    return out


def air_to_vac_residual(vac, air):
    s = (1e4 / vac) ** 2
    n = 1 + 8.34254e-5 + 2.406147e-2 / (130 - s) + 1.5998e-4 / (38.9 - s)
    return np.abs(vac / n - air) / air


# ---------------------------------------------------------------- generation
def gen_obs(r, n, base=None, near_duplicates=False):
    if base is not None and r.b(0.5):
        # shares wavelengths with another observation
        m = min(len(base), n)
        w = sorted(set(r.sample(list(base), m) if m else []) | {r.d(3001, 9000) for _ in range(n - m // 2)})[:n]
        while len(w) < n:
            w.append(w[-1] + r.d(0.5, 3) if w else 3001.0)
        w = np.array(sorted(w))
    elif r.b(0.3):
        w = 3001.0 + r.i(0, 50) + np.arange(n, dtype=float)
    else:
        w = np.array(sorted({round(r.d(3001, 9100), r.i(0, 6)) for _ in range(n)}))
    n = len(w)
    o = dict(waves=w, fluxes=np.array([r.gauss(0, 1) * 10 ** r.i(-18, 2) for _ in range(n)]),
             errors=np.array([r.logd(1e-3, 10) for _ in range(n)]))
    return o, n


def gen_extra(r, name, n):
    if name == "snr":
        return np.array([r.d(-5, 50) if r.b(0.7) else float(r.i(0, 5)) for _ in range(n)])
    dt = r.pick([np.int64, np.int32, np.uint8, np.int16])
    return np.array([r.pick([0, 0, 1, 2, 3, 4, 8, r.i(0, 127)]) for _ in range(n)], dtype=dt)


def gen_filter(r, extras, obs):
    key = r.pick(["waves", "fluxes", "errors", "Wave", "Flux", "Err"] + extras * 3)
    ints = key in ("quality", "mask")
    instr = r.pick(INSTR if ints else INSTR[:8])
    pool = [x for o in obs.values() for x in o[DOC.get(key, key)].tolist()] or [0]

    def val():
        x = r.pick(pool)
        if ints:
            return int(x) if r.b(0.7) else r.i(0, 127)
        return float(x) if r.b(0.6) else float(x) * r.d(0.5, 1.5)
    if instr in ("in", "~in"):
        v = [val() for _ in range(r.i(0, 5))]
    elif instr in INSTR[8:]:
        v = r.pick([1, 2, 3, 4, 8, 12, r.i(0, 127), val()])
    else:
        v = val()
    return dict(key=key, instruction=instr, value=v)


def params(method, obs, filters, r, lsf, air):
    d = dict(lsf=dict(lsfType=lsf[0]), airVacuumMethod=air, spectrumModels=[], multiObsMethod=method)
    d["lambdaRange"] = {k: [3100, 8900] for k in obs} if method == "full" else [3100, 8900]
    if filters or r.b(0.2):
        d["filters"] = filters
    if lsf[0] == "gaussianConstantWidth":
        d["lsf"]["width"] = lsf[1]
    return d


def arr(s):
    return np.asarray(s.to_numpy() if hasattr(s, "to_numpy") else s, dtype=float)


def verify(c, rd, obs, filters, method, in_air, what):
    """compare the spectra of an initialised reader with the reference"""
    expect = {}
    if method == "merge":
        rows = []
        for o in obs.values():
            for k in want_rows(o, filters):
                rows.append((o["waves"][k], o["fluxes"][k], o["errors"][k]))
        rows.sort(key=lambda t: t[0])
        expect[""] = rows
    else:
        for name, o in obs.items():
            expect[name if method == "full" else ""] = [(o["waves"][k], o["fluxes"][k], o["errors"][k]) for k in want_rows(o, filters)]
    c.eq(sorted(rd._spectra.keys()), sorted(expect.keys()), "observations-of-the-reader", what)
    for name, rows in expect.items():
        if name not in rd._spectra:
            continue
        w, f, e = arr(rd.get_wave(name)), arr(rd.get_flux(name)), arr(rd.get_error(name))
        if not c.check(len(w) == len(f) == len(e) == len(rows), "number-of-samples", f"{what} obs '{name}': {len(w)},{len(f)},{len(e)} samples, {len(rows)} expected"):
            continue
        ww = np.array([t[0] for t in rows])
        if in_air:
            c.check(bool(np.all(air_to_vac_residual(w, ww) < 1e-8)), "air-wavelengths-converted", f"{what} obs '{name}' {w[:3]} from {ww[:3]}")
        else:
            # duplicated wavelengths of a merge are told apart by less than 1e-8 Angstrom
            dup = np.concatenate([[False], np.diff(ww) == 0]) if len(ww) else np.zeros(0, bool)
            tol = np.zeros(len(ww))
            run = 0
            for k in range(len(ww)):
                run = run + 1 if dup[k] else 0
                tol[k] = 2e-10 * run * 1.01 + (2e-12 * 1e4 if run else 0) * 1e-4
            c.check(bool(np.all(np.abs(w - ww) <= tol)), "wavelengths-kept", f"{what} obs '{name}' max {np.max(np.abs(w - ww)) if len(w) else 0}")
        c.check(bool(np.all(np.diff(w) > 0)) if method == "merge" else True, "merged-increasing", f"{what}")
        # values: per group of equal input wavelengths, the same (flux, error) pairs
        k = 0
        ok = True
        while k < len(rows):
            j = k
            while j + 1 < len(rows) and method == "merge" and ww[j + 1] == ww[k]:
                j += 1
            if sorted((t[1], t[2]) for t in rows[k:j + 1]) != sorted(zip(f[k:j + 1].tolist(), e[k:j + 1].tolist())):
                ok = False
                break
            k = j + 1
        c.check(ok, "flux-and-error-of-each-sample", f"{what} obs '{name}' at sample {k}: {f[k:k+3] if len(f) else f} want {rows[k:k+3]}")
        sp = rd.get_spectrum(name)
        c.eq(sp.GetName(), rd.source_id, "spectrum-name", what)
    if rd.others:
        for name, o in obs.items():
            if name not in rd.editable_spectra.keys():
                continue
            df = rd.get_filtered_others(name)
            keep = want_rows(o, filters)
            c.eq(sorted(df.columns), sorted(rd.others.keys()), "filtered-other-columns", what)
            for col in rd.others:
                if col in df:
                    c.check(vh.same(df[col].to_numpy(), np.asarray(o[col])[keep]), "filtered-other-values", f"{what} obs '{name}' {col}: {df[col].to_numpy()[:5]} want {np.asarray(o[col])[keep][:5]}")
    return expect


def gen_world(c, allow_series=True):
    r = c.r
    method = r.pick(["", "", "merge", "merge", "full", "full"])
    names = [""] if method == "" else (r.sample(["", "a", "B", "arm 1", "nir", "x.y", "9"], r.i(1, 4)))
    obs = {}
    extras = r.sample(EXTRA, r.i(0, 3))
    base = None
    for n in names:
        o, k = gen_obs(r, r.pick([1, 2, 3, r.i(4, 60), r.i(4, 60), r.i(60, 300)]), base)
        if base is None or r.b():
            base = o["waves"]
        for x in extras:
            o[x] = gen_extra(r, x, k)
        if method == "merge" and r.b(0.3):
            p = list(range(k))
            r.shuffle(p)
            o = {q: v[p] for q, v in o.items()}
        obs[n] = o
    filters = [gen_filter(r, extras, obs) for _ in range(r.pick([0, 1, 1, 2, 3]))]
    return method, obs, extras, filters


def fill(rd, obs, extras, r, lsf=None, skip=()):
    order = list(obs)
    series = r.b(0.25)
    for n in order:
        o = obs[n]
        idx = None
        if series:
            idx = list(range(len(o["waves"])))
            if r.b():
                r.shuffle(idx)
            else:
                idx = [q * 3 + 7 for q in idx]

        def put(a):
            return pd.Series(a, index=idx) if series else np.array(a)
        rd.load_wave(put(o["waves"]), n)
        rd.load_flux(put(o["fluxes"]), n)
        rd.load_error(put(o["errors"]), n)
        for x in extras:
            rd.load_others(x, put(o[x]), n)
        if lsf is not None:
            rd.load_lsf(lsf, n)


def build(c, P, source):
    cl = CalibrationLibrary(P, tmp)
    return Reader(source, P, cl, source)


@vh.case(700, 20000)
def load(c):
    r = c.r
    ctx.reset()
    flag.resetFlag()
    method, obs, extras, filters = gen_world(c)
    w_air = r.b(0.3)
    air = r.pick(["", "default", "morton2000"])
    lsf = r.pick([("fromSpectrumData", r.d(0.5, 8)), ("gaussianConstantWidth", r.d(0.5, 8)), ("gaussianNISPSIM2016", None), ("fromSpectrumData", None)])
    d = params(method, obs, filters, r, lsf, air)
    before = json.loads(json.dumps(d))
    P = Parameters(d, make_checks=False)
    c.check(d == before, "caller-parameters-untouched", "")
    done = []
    for k in range(r.i(1, 3)):
        # several spectra of the same run share the parameters
        if k:
            for n in obs:
                m = len(obs[n]["waves"])
                obs = {**obs, n: {**obs[n], "fluxes": np.array([r.gauss(0, 1) for _ in range(m)]), "errors": np.array([r.logd(1e-3, 10) for _ in range(m)])}}
        rd = build(c, P, f"s{k}")
        if w_air:
            rd.set_air()
        v = None
        if lsf[0] == "fromSpectrumData":
            v = r.d(0.5, 8) if lsf[1] is not None else (np.array([3000., 5000., 9000.]), np.array([r.d(1, 5) for _ in range(3)]))
        fill(rd, obs, extras, r, v)
        keep = {n: want_rows(o, filters) for n, o in obs.items()}
        empty = [n for n in keep if not keep[n]]
        what = f"{method or 'single'} filters={filters} air={w_air}/{air}"
        flag.resetFlag()
        try:
            rd.init()
            raised = None
        except AmzException as e:
            raised = e
        except TypeError as e:
            if lsf[0] == "gaussianNISPSIM2016" and "new_TLSFArguments" in str(e):
                c.check(False, "nispsim2016-lsf:arguments-not-constructible", f"{e}"[:200])
                return
            raise
        if empty and (method != "merge" or len(empty) == len(keep)):
            c.check(raised is not None and "Filtered spectrum is empty" in str(raised), "all-samples-filtered-out-refused", f"{what}: {raised}")
            c.count("empty")
            return
        if empty:
            c.skip()  # a merge of which one observation is wholly filtered out: not stated
        mm = sorted(x for n, o in obs.items() for x in o["waves"][keep[n]].tolist())
        if method == "merge" and any(0 < b - a < 1e-8 for a, b in zip(mm, mm[1:])):
            c.skip()
        if not c.check(raised is None, "valid-spectrum-accepted", f"{what}: {raised}"):
            return
        ign = WarningCode.AIR_VACUUM_CONVERSION_IGNORED in flag.getBitMask()
        c.eq(ign, bool(air) and not w_air, "ignored-conversion-warned", what)
        expect = verify(c, rd, obs, filters, method, w_air, what)
        for name in expect:
            L = rd.get_spectrum(name).GetLSF()
            if lsf[0] == "gaussianConstantWidth":
                c.close(L.GetWidth(5000.), lsf[1], 1e-12, 0, "lsf-from-parameters", what)
            elif lsf[0] == "fromSpectrumData" and isinstance(v, float):
                c.close(L.GetWidth(5000.), v, 1e-12, 0, "lsf-from-spectrum", what)
            elif lsf[0] == "fromSpectrumData":
                c.close(L.GetWidth(5000.), float(v[1][1]), 1e-9, 0, "lsf-from-spectrum", what)
                c.close(L.GetWidth(7000.), float((v[1][1] + v[1][2]) / 2), 1e-9, 0, "lsf-from-spectrum", what)
        done.append((rd, obs, what))
        kept = sum(len(x) for x in expect.values())
        c.count("samples-observed", kept)
        if k == 0:
            c.nontrivial = kept > 1
            c.sig(method, len(obs), [(f["key"], f["instruction"]) for f in filters], w_air, air, lsf[0], kept)
            c.note(f"{what[:120]} kept {kept}")
    for rd, o, what in done[:-1]:
        verify(c, rd, o, filters, method, w_air, "after later spectra: " + what)


@vh.case(700, 20000)
def ascii(c):
    """the provided reader: DataFrame columns, additional columns of the parameters"""
    r = c.r
    ctx.reset()
    flag.resetFlag()
    extras = r.sample(EXTRA, r.i(0, 3))
    o, n = gen_obs(r, r.i(1, 80))
    for x in extras:
        o[x] = gen_extra(r, x, n)
    obs = {"": o}
    filters = [gen_filter(r, extras, obs) for _ in range(r.i(0, 2))]
    d = params(r.pick(["", "merge"]), obs, filters, r, ("gaussianConstantWidth", 2.0), "")
    if extras:
        d["additionalCols"] = extras
    P = Parameters(d, make_checks=False)
    rd = ASCIISpectrumReader("s", P, CalibrationLibrary(P, tmp), "s")
    cols = {"wave": o["waves"], "flux": o["fluxes"], "err": o["errors"], **{x: o[x] for x in extras}}
    unused = gen_extra(r, "mask", n)
    df = pd.DataFrame({**cols, "unused": unused})
    if r.b():
        df.index = [q * 2 + 5 for q in range(n)]
    missing = bool(extras) and r.b(0.15)
    if missing:
        df = df.drop(columns=[r.pick(extras)])
    try:
        rd.load_all(df)
        rd.init()
        raised = None
    except Exception as e:
        raised = e
    if missing:
        c.check(raised is not None, "missing-column-refused", f"{extras}")
        return
    if not want_rows(o, filters):
        c.check(isinstance(raised, AmzException), "all-samples-filtered-out-refused", f"{filters}: {raised}")
        return
    if not c.check(raised is None, "valid-spectrum-accepted", f"{filters}: {raised}"):
        return
    verify(c, rd, obs, filters, d["multiObsMethod"], False, f"ascii {filters}")
    c.nontrivial = n > 2
    c.sig(n, extras, [(f["key"], f["instruction"]) for f in filters])


@vh.case(900, 20000)
def refuse(c):
    """one defect is put in a valid set of arrays: the documented error, and nothing else, comes out"""
    r = c.r
    ctx.reset()
    flag.resetFlag()
    method, obs, extras, filters = gen_world(c)
    filters = []
    d = params(method, obs, filters, r, ("gaussianConstantWidth", 2.0), "")
    kind = r.pick(["flux-length", "error-length", "extra-length", "missing-obs", "renamed-obs", "filter-key", "no-lsf", "named-single", "not-loaded", "filter-instruction"])
    victim = r.pick(list(obs))
    n = len(obs[victim]["waves"])
    code = ErrorCode.INVALID_SPECTRUM
    if kind in ("filter-key", "filter-instruction"):
        ok = [dict(key="waves", instruction=">", value=0)] if r.b() else []
        bad = dict(key=r.pick(["wave", "quality2", "", "flux"]), instruction=">", value=0) if kind == "filter-key" else \
            dict(key="waves", instruction=r.pick(["==", "<>", "not in", "|", ""]), value=0)
        d["filters"] = ok + [bad]
        r.shuffle(d["filters"])
        code = ErrorCode.INVALID_FILTER_KEY if kind == "filter-key" else ErrorCode.INVALID_FILTER_INSTRUCTION
    if kind == "no-lsf":
        d["lsf"] = dict(lsfType="fromSpectrumData")
        code = ErrorCode.LSF_NOT_LOADED
    P = Parameters(d, make_checks=False)
    rd = build(c, P, "s")
    fill(rd, obs, extras, r)
    target = None
    if kind.endswith("-length"):
        cont = rd.fluxes if kind[0] == "f" else rd.errors
        if kind[1] == "x":
            if not extras:
                c.skip()
            cont = rd.others[r.pick(extras)]
        a = cont.data[victim]
        m = r.pick([0, 1, n - 1, n + 1, 2 * n])
        if m == n:
            c.skip()
        v = np.resize(np.asarray(a), m)
        cont.data[victim] = pd.Series(v) if isinstance(a, pd.Series) else v
        target = m
    elif kind in ("missing-obs", "renamed-obs"):
        conts = [rd.waves, rd.fluxes, rd.errors] + list(rd.others.values())
        cont = r.pick(conts)
        x = cont.data.pop(victim)
        if kind == "renamed-obs":
            cont.data["other name"] = x
        elif r.b(0.3) and len(conts) > 1:
            # the same count everywhere but another name
            cont.data[victim + "_"] = x
    elif kind == "named-single":
        if method != "":
            c.skip()
        for cont in [rd.waves, rd.fluxes, rd.errors] + list(rd.others.values()):
            x = cont.data.pop("")
            cont.data["name"] = x
        code = ErrorCode.INVALID_NAME
    elif kind == "not-loaded":
        code = ErrorCode.SPECTRUM_NOT_LOADED
    got = None
    try:
        if kind == "not-loaded":
            getattr(rd, r.pick(["get_wave", "get_flux", "get_error", "get_spectrum", "get_lsf"]))()
        else:
            rd.init()
    except AmzException as e:
        got = e
    except Exception as e:
        got = e
    what = f"{kind} {method or 'single'} n={n} {target}: {type(got).__name__} {got}"
    c.check(isinstance(got, APIException), f"refused:{kind}", what)
    if isinstance(got, AmzException):
        c.eq(int(got.getErrorCode().value if hasattr(got.getErrorCode(), 'value') else got.getErrorCode()), code.value, f"error-code:{kind}", what)
    if kind != "not-loaded":
        c.check(not rd._spectra if kind not in ("no-lsf",) else True, f"no-spectrum-after-error:{kind}", what)
    c.nontrivial = True
    c.sig(kind, method, n, target)


@vh.case(900, 20000)
def duplicates(c):
    """merge of observations with wavelengths that coincide or nearly coincide"""
    r = c.r
    ctx.reset()
    n, k = r.i(1, 40), r.i(2, 6)
    grid = np.array(sorted({float(r.i(3000, 3100)) if r.b() else r.d(3000, 9000) for _ in range(n)}))
    n = len(grid)
    near = r.b(0.3)
    obs = {}
    for j in range(k):
        keep = [q for q in range(n) if r.b(0.8)] or [0]
        w = grid[keep].copy()
        if near and j:
            w = w + r.pick([1e-10, 1e-11, 2e-10, 3e-11])
        m = len(w)
        obs[f"o{j}"] = dict(waves=w, fluxes=np.array([float(r.i(0, 10**6)) for _ in range(m)]), errors=np.array([r.d(1, 2) for _ in range(m)]))
    P = Parameters(params("merge", obs, [], r, ("gaussianConstantWidth", 2.0), ""), make_checks=False)
    rd = build(c, P, "s")
    fill(rd, obs, [], r)
    try:
        rd.init()
        raised = None
    except AmzException as e:
        raised = e
        code = getattr(e.getErrorCode(), 'value', e.getErrorCode())
    if raised is not None:
        c.check(near and code in (ErrorCode.UNALLOWED_DUPLICATES.value, ErrorCode.UNSORTED_ARRAY.value), "merge-error", f"near={near} {raised}")
        c.count("merge-refused")
        return
    if near:
        w = arr(rd.get_wave())
        c.check(bool(np.all(np.diff(w) > 0)), "merged-increasing", "")
        c.eq(len(w), sum(len(o["waves"]) for o in obs.values()), "number-of-samples", "near duplicates")
    else:
        verify(c, rd, obs, [], "merge", False, f"{k} observations")
    c.nontrivial = True
    c.sig(n, k, near)


@vh.case(1500, 40000)
def filters(c):
    r = c.r
    n = r.i(0, 40)
    cols = {"a": gen_extra(r, "snr", n), "q": gen_extra(r, "mask", n), "m": gen_extra(r, "quality", n), "f": np.array([r.pick([r.gauss(0, 1), math.nan, math.inf, 0.0]) for _ in range(n)])}
    df = pd.DataFrame(cols)
    if r.b():
        df.index = r.sample(range(1000), n)
    before = df.copy()
    fs = []
    for _ in range(r.i(0, 4)):
        k = r.pick(list(cols))
        ins = r.pick(INSTR if k in "qm" else INSTR[:8])
        pool = [x for x in df[k].tolist() if x == x] or [0]
        pool = [int(x) if k in "qm" else x for x in pool]
        v = [r.pick(pool) for _ in range(r.i(0, 4))] if "in" in ins else r.pick(pool + [1, 2, 3])
        if ins in INSTR[8:]:
            v = int(v)
        fs.append((k, ins, v))
    items = []
    for k, ins, v in fs:
        try:
            items.append(r.pick([FilterItem, SpectrumFilterItem])(k, ins, v))
        except AmzException as e:
            c.check(False, "documented-instruction-accepted", f"{ins}: {e}")
            return
        c.check(True, "documented-instruction-accepted")
    fl = FilterList(items) if r.b() else FilterList()
    if len(fl.items) != len(items):
        for it in items:
            fl.add_filter(it)
    got = fl.apply(df)
    keep = [q for q in range(n) if all(passes(ins, v, df[k].iloc[q]) for k, ins, v in fs)]
    want = before.iloc[keep]
    c.check(got.equals(want) or (not keep and len(got) == 0), "rows-kept-by-filters", f"{fs}: kept {list(got.index)} want {list(want.index)}")
    c.check(df.equals(before), "filters-leave-the-input", f"{fs}")
    c.eq(len(FilterList().items), 0, "filter-lists-independent", "")
    c.check(FilterList(items) == FilterList(items[:]), "filter-list-equality", "")
    if items:
        c.check(not (FilterList(items) == FilterList(items[:-1])), "filter-list-equality", "")
    c.nontrivial = bool(fs) and 0 < len(keep) < n
    c.sig(fs, n, len(keep))


vh.main()
