"""C27: the calibration the library works with is exactly what the calibration files hold."""
import ctypes, json, math, os, shutil
import numpy as np
import vh, flow
from flow import World, inproc, report

PROBE = ctypes.CDLL(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__import__("pylibamazed.redshift").redshift.__file__))), "calprobe.so"))
PROBE.vh_calibration.restype = ctypes.c_char_p
PROFILES = {"SYM": 1, "LOR": 2, "ASYM": 3, "ASYMFIT": 4, "SYMIGM": 5, "ASYMFIXED": 3}
LYA = 1216.0
NAMES = ["Halpha", "[OIII](doublet-1)", "[NII] 6584", "LyAE", "Lyα", "CIV1550 b", "a.b", "H_β", "Fe/H", "x'y", "1909", "(SiII)", "He II", "MgII2796", "Ca-H", "D4000+", "o%d"]


def held():
    return json.loads(PROBE.vh_calibration().decode("utf8"))


def near(a, b):
    """the file's decimal value, up to its conversion to binary"""
    return a == b or abs(a - b) <= 1e-11 * abs(b) or (a != a and b != b)


def nears(a, b):
    return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))


class Files:
    """replaces the calibration of a world by arbitrary, valid files, and remembers what they hold"""
    def __init__(self, w, r):
        self.w, self.r = w, r
        self.tpl, self.lin, self.rat, self.sub = {}, {}, {}, {}
        shutil.rmtree(w.cal)
        os.makedirs(w.cal)
        self.ism(); self.igm(); self.lsf(); self.bands()
        if r.b(0.3) and len(w.models) > 1:  # one template directory with the categories of every object
            for m in w.models: self.sec(m)["templateDir"] = "templates/shared"
        for m in w.models:
            for meth, x in self.linemodels(m):
                self.lines(m, meth, x)
            x = self.sec(m).get("redshiftSolver", {}).get("lineModelSolve", {}).get("lineModel")
            if x and "tplRatioCatalog" in x and x["lineRatioType"] in ("tplRatio", "tplCorr"): self.ratios(m, x)
            self.templates(m)
            if self.w.rel[m]: w.reliability(m, w.zrange[m], self.sec(m)["redshiftStep"])

    def sec(self, m): return self.w.tree["spectrumModel_" + m]

    def linemodels(self, m):
        s = self.sec(m)
        if self.w.methods[m] == "lineModelSolve": yield "lineModelSolve", s["redshiftSolver"]["lineModelSolve"]["lineModel"]
        if self.w.meas[m]: yield "lineMeasSolve", s["lineMeasSolver"]["lineMeasSolve"]["lineModel"]

    def num(self, x):
        """one of the usual spellings of a number, and its value"""
        s = self.r.pick([repr(x), f"{x:.4f}", f"{x:.8e}", f"{x:.6E}", f"{x:.3f}"])
        return s, float(s)

    def ism(self):
        r = self.r
        n, lo, st = r.i(2, 300), r.i(800, 1500), r.pick([1.0, 0.5, 10.0])
        v = []
        with open(self.w.path("ism", "SB_calzetti.dl1.txt"), "w") as f:
            f.write(r.pick(["# lambda\tflux\n", "lambda flux\n", "lambda\tflux\n"]))
            for k in range(n):
                s, x = self.num(r.d(0, 15))
                v.append(x)
                f.write(f"{lo + st * k:.1f}{r.pick([' ', chr(9), '   '])}{s}\n")
        e = self.w.tree["ebmv"] = {"start": r.pick([0, 0.05, 0.1]), "step": r.pick([0.1, 0.025]), "count": r.i(1, 6)}
        self.ismv = dict(table=v, lo=float(lo), hi=lo + st * (n - 1), ebmv=[e["start"] + e["step"] * k for k in range(e["count"])])

    def igm(self):
        r = self.r
        n, size = r.i(1, 7), r.i(20, 400)
        zs = sorted(r.sample([2.0 + 0.5 * k for k in range(12)], r.i(1, 7)))
        x0 = 1215.67 - 0.05 * r.i(10, 300)
        self.igmv = dict(zbins=[1.5] + zs, curves=[])
        for z in r.sample(zs, len(zs)):
            cur = [[] for _ in range(n)]
            lb = []
            with open(self.w.path("igm", "IGM_variation_curves_meiksin_v3.1", f"Meiksin_Var_curves_{z:.1f}.txt"), "w") as f:
                if r.b(): f.write("# " + "\t".join(["lambda"] + [f"curve{k}" for k in range(n)]) + "\n")
                for k in range(size):
                    row = [self.num(r.d(0, 1)) for _ in range(n)]
                    lb.append(float(f"{x0 + 0.05 * k:.2f}"))
                    for j in range(n): cur[j].append(row[j][1])
                    f.write(f"{lb[-1]:.2f}\t" + "\t".join(s for s, _ in row) + "\n")
            self.igmv["curves"].append((z, lb, cur))
        self.igmv["curves"].sort(key=lambda t: t[0])
        if r.b():  # other files of that directory are not curves
            open(self.w.path("igm", "IGM_variation_curves_meiksin_v3.1", r.pick(["README", "Meiksin_Var_curves.txt", "Meiksin_Var_curves_9.0.dat"])), "w").write("1 2\n")

    def lsf(self):
        if self.w.lsf != "gaussianVariableWidth": return
        from astropy.io import fits
        r = self.r
        x = np.cumsum([3400 + r.d(0, 200)] + [r.d(20, 300) for _ in range(40)])
        x = x[: 1 + int(np.searchsorted(x, 6600))]
        y = np.array([r.d(2, 12) for _ in x])
        c = [fits.Column(name=r.pick(["wave", "WAVELENGTH"]), format="D", array=x), fits.Column(name="width", format="D", array=y)]
        fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns(c)]).writeto(self.w.path("lsf", "x.fits"))
        self.w.tree["lsf"]["gaussianVariableWidthFileName"] = "lsf/x.fits"
        self.lsfv = [float(np.interp(q, x, y)) for q in (4100., 4555., 5005., 5550., 5790.)]

    def bands(self):
        r = self.r
        self.bandv = {}
        if not self.w.phot: return
        names = list(self.w.bands) + ["unused_" + str(k) for k in range(r.i(0, 3))]
        for k, b in enumerate(r.sample(names, len(names))):
            n, lo = r.i(2, 60), r.d(1000, 20000)
            x, y = [], []
            with open(self.w.path("phot", r.pick([f"{b}.pb", f"file{k}", f"{k}_{b}.csv"])), "w") as f:
                if r.b(): f.write("# a band, with a comment\n")
                f.write(f"lambda,{b}\n")
                for j in range(n):
                    s, q = self.num(lo + 10.0 * j)
                    t, p = self.num(r.d(0, 1))
                    x.append(q); y.append(p)
                    f.write(f"{s},{t}\n")
            if b in self.w.bands: self.bandv[b] = (x, y)

    def templates(self, m):
        r, d = self.r, self.sec(m)["templateDir"]
        cats = {m: r.i(1, 4)}
        for k in range(r.pick([0, 0, 1, 2])):
            cats[r.pick(["spare", "old", "other objects"] + [x for x in self.w.models if self.sec(x)["templateDir"] != d] * 2)] = r.i(1, 2)
        for c in cats:
            for k in range(cats[c]):
                name = r.pick([f"t{k}.dat", f"BC03_{k}.txt", f"{k}", f"a b{k}.spec", f"{m}_{k}.tar"])
                n = r.i(2, 60)
                x = np.cumsum([r.d(500, 3000)] + [r.logd(0.1, 50) for _ in range(n - 1)])
                fx, fy = [], []
                cols = r.pick([0, 0, 0, 1])
                with open(self.w.path(d, c, name), "w") as f:
                    if r.b(): f.write("# lambda flux\n")
                    for v in x:
                        a = f"{v:.6f}"
                        s, q = self.num(r.gauss(0, 1) * r.pick([1, 1, 1e3]))
                        if r.b(0.1): s, q = "1.25e-18", 1.25e-18
                        fx.append(float(a)); fy.append(q)
                        f.write(f"{a}{r.pick([' ', chr(9)])}{s}" + (" 7" if cols else "") + "\n")
                if c == m: self.tpl.setdefault(m, {})[name] = (fx, fy)

    def lines(self, m, meth, sec):
        r = self.r
        cols = flow.HEAD.split("\t")
        n = r.i(1, 14)
        rows, seen, groups = [], set(), r.pick([["-1"], ["-1", "E1", "A1"], ["g1", "g 2", "-1", "-1"]])
        dup = r.b(0.3)  # lines of the same name at other wavelengths or of the other type
        velint, offint, ampint = r.b(0.2), r.b(0.2), r.b(0.2)
        force = r.pick([["S", "W"], ["S"], ["W"]])
        for k in range(n):
            wl = float(f"{r.d(900, 9000):.{r.i(1, 4)}f}") if r.b(0.8) else r.pick([1215.67, 1216.0, 1216.3])
            row = dict(WaveLength=wl, Name=r.pick(NAMES) + ("" if dup else f"~{k}"), Type=r.pick("EA"), Force=r.pick(force), Profile=r.pick(["SYM", "SYM", "LOR", "ASYM", "ASYMFIT"]),
                       AmplitudeGroupName=r.pick(groups), AmplitudeGroupValue=r.i(1, 5) if ampint else float(f"{r.d(0.01, 5):.3f}"), DispersionVelocityGroupName=r.pick(["Em1", "Abs1", "-1", "v 2"]),
                       WaveLengthOffset=r.i(-300, 300) if offint else float(f"{r.d(-400, 400):.2f}"), EnableFitWaveLengthOffset=r.b(0.4))
            if row["Name"] == "1909" : row["Name"] = "CIII1909"
            if r.b(0.1): row["Name"] = "LyAE"
            key = (row["Name"], round(wl, 2), row["Type"])
            if key in seen: continue
            seen.add(key)
            rows.append(row)
        order = r.sample(cols, len(cols)) if r.b(0.5) else cols
        extra = r.b(0.2)
        with open(self.w.path("lines", f"{m}_{meth}.tsv"), "w") as f:
            f.write("\t".join(order + (["Comment"] if extra else [])) + "\n")
            spell = r.pick([("TRUE", "FALSE"), ("True", "False"), ("true", "false")])
            for q in rows: f.write("\t".join(str(q[c]) if c != "EnableFitWaveLengthOffset" else spell[0 if q[c] else 1] for c in order) + ("\tnote" if extra else "") + "\n")
        sec["lineCatalog"] = f"lines/{m}_{meth}.tsv"
        igm = sec["lya"]["profile"] == "igm"
        exp = []
        for k, q in enumerate(rows):
            prof, asym = q["Profile"], [math.nan] * 3
            if prof == "ASYM": asym = [1.0, 4.5, 0.0]
            if prof == "ASYMFIT": asym = [2.0, 2.0, 0.0]
            if igm and q["Type"] == "E" and (q["Name"] == "LyAE" or q["WaveLength"] < LYA): prof, asym = "SYMIGM", [math.nan] * 3
            exp.append(dict(id=k, name=q["Name"], pos=q["WaveLength"], type=q["Type"], force=q["Force"], group=q["AmplitudeGroupName"] if q["AmplitudeGroupName"] != "-1" else "undefined",
                            amp=float(q["AmplitudeGroupValue"]), velgroup=q["DispersionVelocityGroupName"], offset=float(q["WaveLengthOffset"]), fitoffset=q["EnableFitWaveLengthOffset"],
                            profile=PROFILES[prof], asym=asym, support=float(sec["nSigmaSupport"])))
        self.lin[f"{m}|{meth}"] = exp

    def ratios(self, m, sec):
        r, d = self.r, f"ratios of {m}" if self.r.b(0.3) else f"ratios_{m}"
        sec["tplRatioCatalog"] = d
        main = self.lin[f"{m}|lineModelSolve"]
        nb = self.w.tree["ebmv"]["count"] if sec.get("tplRatioIsmFit") else 1
        names = r.sample(["b", "a", "ratio 1", "ratio_10", "ratio_2", "Z.x"], r.i(1, 4))
        out = []
        for name in names:
            sub = r.sample(main, r.i(0 if len(main) > 1 else 1, len(main)))
            amp = {}
            with open(self.w.path(d, name + ".tsv"), "w") as f:
                cols = ["WaveLength", "Name", "Type", "NominalAmplitude"]
                order = r.sample(cols, 4) if r.b() else cols
                f.write("\t".join(order) + "\n")
                for l in sub:
                    s, q = self.num(r.d(0, 5))
                    amp[l["id"]] = q
                    v = dict(WaveLength=l["pos"], Name=l["name"], Type=l["type"], NominalAmplitude=s)
                    f.write("\t".join(str(v[c]) for c in order) + "\n")
            js = {"velocities": {"em_vel": r.d(80, 300), "abs_vel": r.d(100, 300)}, "sub_type": r.pick(["A", "B type", "é", "x/y"]),
                  "asym_params": {"profile": r.pick(["ASYMFIXED", "ASYMFIT"]), "sigma": r.d(1, 4), "alpha": r.d(0.5, 5), "delta": r.pick([0.0, r.d(-1, 1)])}}
            with open(self.w.path(d, name + ".json"), "w", encoding="utf8") as f: json.dump(js, f)
            exp = []
            for l in main:
                q = dict(l, amp=amp.get(l["id"], 0.0))
                if q["profile"] == PROFILES["ASYMFIT"] or (q["profile"] == PROFILES["ASYM"]):
                    a = js["asym_params"]
                    # the asymmetry of the catalogue replaces the one of the lines with a fitted or fixed asymmetric profile
                    q["profile"], q["asym"] = PROFILES[a["profile"]], [a["sigma"], a["alpha"], a["delta"]]
                exp.append(q)
            for k in range(nb):
                out.append(dict(name=name, prior=1.0 / (nb * len(names)), ism=k, velocities=dict(em_vel=js["velocities"]["em_vel"], abs_vel=js["velocities"]["abs_vel"]), lines=exp))
            self.sub[(m, name)] = js["sub_type"]
        if r.b(0.3): open(self.w.path(d, "notes.txt"), "w").write("x")
        out.sort(key=lambda o: (o["name"], o["ism"]))
        self.rat[m] = out


def compare_lines(q, got, exp, key, where):
    q.check(sorted(int(k) for k in got) == [l["id"] for l in exp], key + "-lines", f"{where}: lines {sorted(got)} of {len(exp)}")
    for l in exp:
        g = got.get(str(l["id"]))
        if g is None: continue
        for k, v in l.items():
            if k == "asym":
                if all(x == x for x in v): q.check(nears(g[k], v), key + "-asymmetry", f"{where} line {l['name']}: {g[k]} for {v}")
            elif isinstance(v, float): q.check(near(g[k], v), f"{key}-{k}", f"{where} line {l['name']}: {k} {g[k]!r} for {v!r}")
            else: q.check(g[k] == v, f"{key}-{k}", f"{where} line {l['name']}: {k} {g[k]!r} for {v!r} ({l['type']} {l['pos']})")


def compare(q, F, h, pf, spectra):
    w = F.w
    for m in w.models:
        got, exp = h["templates"].get(m, []), F.tpl[m]
        q.check(sorted(t[0] for t in got) == sorted(exp), "templates-of-the-object", f"{m}: {sorted(t[0] for t in got)} for {sorted(exp)}")
        for t in got:
            if t[0] not in exp: continue
            q.check(nears(t[2], exp[t[0]][0]), "template-wavelengths", f"{m} {t[0]}")
            q.check(nears(t[3], exp[t[0]][1]), "template-flux", f"{m} {t[0]}")
    q.check(sorted(h["lines"]) == sorted(F.lin), "line-catalogues", f"{sorted(h['lines'])} for {sorted(F.lin)}")
    for k, exp in F.lin.items():
        if k in h["lines"]: compare_lines(q, h["lines"][k], exp, "line", k)
    q.check(sorted(h["ratios"]) == sorted(F.rat), "ratio-catalogues", f"{sorted(h['ratios'])} for {sorted(F.rat)}")
    for m, exp in F.rat.items():
        got = sorted(h["ratios"].get(m, []), key=lambda o: (o["name"], o["ism"]))
        if not q.check([(g["name"], g["ism"]) for g in got] == [(e["name"], e["ism"]) for e in exp], "ratio-list", f"{m}: {[(g['name'], g['ism']) for g in got]}"): continue
        for g, e in zip(got, exp):
            q.check(near(g["prior"], e["prior"]), "ratio-prior", f"{m} {e['name']}: {g['prior']} for {e['prior']}")
            q.check(sorted(g["velocities"]) == sorted(e["velocities"]) and all(near(g["velocities"][k], v) for k, v in e["velocities"].items()), "ratio-velocities", f"{m} {e['name']}: {g['velocities']} for {e['velocities']}")
            compare_lines(q, g["lines"], e["lines"], "ratio-line", f"{m} {e['name']}")
            q.check(pf.calibration_library.get_sub_type(m, e["name"]) == F.sub[(m, e["name"])], "sub-type", f"{m} {e['name']}")
    q.check(sorted(h["bands"]) == sorted(F.bandv), "bands", f"{sorted(h['bands'])} for {sorted(F.bandv)}")
    for b, (x, y) in F.bandv.items():
        if b in h["bands"]: q.check(sorted(zip(*h["bands"][b])) and nears(h["bands"][b][0], x) and nears(h["bands"][b][1], y), "band-samples", f"{b}: {max(abs(p - o) / abs(o or 1) for p, o in zip(h['bands'][b][0] + h['bands'][b][1], x + y))}")
    i = h["ism"]
    q.check(i and nears(i["table"], F.ismv["table"]), "dust-table", str(i)[:200])
    q.check(i and near(i["lo"], F.ismv["lo"]) and near(i["hi"], F.ismv["hi"]), "dust-range", f"{i and (i['lo'], i['hi'])} for {F.ismv['lo'], F.ismv['hi']}")
    q.check(i and len(i["ebmv"]) == len(F.ismv["ebmv"]) and all(abs(a - b) < 1e-12 for a, b in zip(i["ebmv"], F.ismv["ebmv"])), "dust-grid", f"{i and i['ebmv']}")
    g = h["igm"]
    if q.check(g and g["zbins"] == F.igmv["zbins"], "igm-bins", f"{g and g['zbins']} for {F.igmv['zbins']}") and q.check(len(g["curves"]) == len(F.igmv["curves"]), "igm-count"):
        for c, (z, lb, cur) in zip(g["curves"], F.igmv["curves"]):
            q.check(nears(c["lbda"], lb), "igm-wavelengths", f"z {z}")
            q.check(len(c["flux"]) == len(cur) and all(nears(a, b) for a, b in zip(c["flux"], cur)), "igm-curves", f"z {z}")
    if w.lsf == "gaussianVariableWidth" and spectra:
        for v in h["lsf"]: q.check(v and all(abs(a - b) <= 1e-12 * b for a, b in zip(v, F.lsfv)), "lsf-width", f"{v} for {F.lsfv}")


def load(w, sid):
    """the flow up to the initialisation of the library, stopped before any processing"""
    pf = flow.process_flow(w)
    rd = flow.make_reader(w, pf, sid)
    init = rd.init

    def stop(*a, **k):
        init(*a, **k)
        rd.reached = True
        raise RuntimeError("calibration loaded")
    rd.reached = False
    rd.init = stop
    rso = pf.run(rd)
    return pf, rd, rso


def world(c, **kw):
    r = c.r
    w = World(r, **kw)
    w.spectrum("s0")
    return w


@vh.case(90, 1500)
def valid(c):
    r = c.r
    w = world(c)
    F = Files(w, r)

    def go(q):
        for k in range(2):  # nothing of the first load stays in the second
            pf, rd, rso = load(w, "s0")
            if not q.check(rd.reached, "valid-files-load", str(rso.errors)[:600]): return
            compare(q, F, held(), pf, True)
            if not r.b(0.3): break
    st, v = inproc(go)
    report(c, st, v)
    c.sig(w.methods, w.meas, w.phot, w.lsf, {k: len(v) for k, v in F.lin.items()}, {k: len(v) for k, v in F.tpl.items()}, F.igmv["zbins"])
    c.nontrivial = True
    w.close()


@vh.case(60, 1000)
def sequence(c):
    """loads of different configurations in one process: nothing of one is seen by the next"""
    r = c.r
    ws = []
    for k in range(r.i(2, 3)):
        w = world(c)
        ws.append((w, Files(w, r)))
    order = [r.i(0, len(ws) - 1) for _ in range(r.i(2, 4))]
    if len(set(order)) == 1: order.append((order[-1] + 1) % len(ws))

    def go(q):
        for k in order:
            w, F = ws[k]
            pf, rd, rso = load(w, "s0")
            if not q.check(rd.reached, "valid-files-load-after-others", str(rso.errors)[:600]): return
            compare(q, F, held(), pf, True)
    st, v = inproc(go)
    report(c, st, v)
    c.sig([w.methods for w, _ in ws], order)
    c.nontrivial = True
    for w, _ in ws: w.close()


def edit(path, fn):
    with open(path, encoding="utf8") as f: t = f.read()
    with open(path, "w", encoding="utf8") as f: f.write(fn(t))


def damage(w, F, r):
    """one defect of one file: (what, expected error code or None for any library error)"""
    out = []
    cal = w.cal
    m = r.pick(w.models)
    d = os.path.join(cal, F.sec(m)["templateDir"])
    tf = os.path.join(d, m, sorted(F.tpl[m])[0])
    out += [("no-template-dir", "INVALID_FILEPATH", lambda: shutil.rmtree(d)),
            ("no-category", "INVALID_DIRECTORY", lambda: [shutil.rmtree(os.path.join(d, x)) for x in os.listdir(d)]),
            ("no-template", "INVALID_FILEPATH", lambda: [os.remove(os.path.join(d, m, x)) for x in os.listdir(os.path.join(d, m))]),
            ("template-not-numbers", "INVALID_FILEPATH", lambda: edit(tf, lambda t: t + "abc def\n")),
            ("template-one-column", None, lambda: edit(tf, lambda t: "".join(l.split()[0] + "\n" for l in t.splitlines() if l[0] != "#"))),
            ("no-dust-file", "INVALID_FILEPATH", lambda: os.remove(os.path.join(cal, "ism", "SB_calzetti.dl1.txt"))),
            ("dust-irregular", "BAD_CALZETTICORR", lambda: edit(os.path.join(cal, "ism", "SB_calzetti.dl1.txt"), lambda t: t + "90000.0 1.5\n" + "90000.7 1.5\n")),
            ("no-igm-files", "INVALID_FILEPATH", lambda: shutil.rmtree(os.path.join(cal, "igm"))),
            ("no-calibration", "INVALID_DIRECTORY", lambda: shutil.rmtree(cal))]
    for k, l in F.lin.items():
        p = os.path.join(cal, "lines", k.replace("|", "_") + ".tsv")
        head = open(p).read().splitlines()[0].split("\t")

        def cell(col, v, p=p, head=head): return lambda: edit(p, lambda t: "\n".join("\t".join(v if (j == 1 and head[i] == col) else x for i, x in enumerate(row.split("\t"))) for j, row in enumerate(t.splitlines())) + "\n")
        out += [("no-line-catalogue", "INVALID_FILEPATH", lambda p=p: os.remove(p)),
                ("line-twice", "DUPLICATED_LINES", lambda p=p: edit(p, lambda t: t + t.splitlines()[1] + "\n")),
                ("line-with-too-many-columns", "BAD_FILEFORMAT", lambda p=p: edit(p, lambda t: t + t.splitlines()[1] + "\t1\t2\t3\n")),
                ("line-wavelength-not-a-number", None, cell("WaveLength", "abc")),
                ("line-type-unknown", "BAD_LINE_TYPE", cell("Type", "X")), ("line-force-unknown", "BAD_LINE_FORCE", cell("Force", "Q")),
                ("line-profile-unknown", "INTERNAL_ERROR", cell("Profile", "GAUSS")), ("line-profile-fixed", None, cell("Profile", "ASYMFIXED"))]
    for m2, e in F.rat.items():
        rd = os.path.join(cal, F.sec(m2)["redshiftSolver"]["lineModelSolve"]["lineModel"]["tplRatioCatalog"])
        p = os.path.join(rd, e[0]["name"] + ".tsv")
        order = open(p).read().splitlines()[0].split("\t")
        v = dict(WaveLength="777.77", Name="nowhere", Type="E", NominalAmplitude="1.0")
        out += [("no-ratio-dir", "INVALID_FILEPATH", lambda rd=rd: shutil.rmtree(rd)),
                ("no-ratio-file", "INVALID_FILEPATH", lambda rd=rd: [os.remove(os.path.join(rd, x)) for x in os.listdir(rd) if x.endswith(".tsv")]),
                ("no-ratio-parameters", "INVALID_FILEPATH", lambda p=p: os.remove(p[:-4] + ".json")),
                ("ratio-of-an-unknown-line", "LINE_RATIO_UNKNOWN_LINE", lambda p=p, o=order: edit(p, lambda t: t + "\t".join(v[c] for c in o) + "\n"))]
        if len(open(p).read().splitlines()) > 1:
            out.append(("ratio-line-twice", "DUPLICATED_LINES", lambda p=p: edit(p, lambda t: t + t.splitlines()[1] + "\n")))
    if w.lsf == "gaussianVariableWidth":
        def nohdu():
            from astropy.io import fits
            fits.HDUList([fits.PrimaryHDU()]).writeto(os.path.join(cal, "lsf", "x.fits"), overwrite=True)
        out += [("no-lsf-file", "INVALID_FILEPATH", lambda: os.remove(os.path.join(cal, "lsf", "x.fits"))), ("lsf-without-table", "BAD_FILEFORMAT", nohdu)]
    if w.phot:
        pd_ = os.path.join(cal, "phot")
        bf = next(x for x in os.listdir(pd_) if any(open(os.path.join(pd_, x)).read().split("lambda,")[1].startswith(b + "\n") for b in w.bands))
        out += [("no-band-dir", "INVALID_FILEPATH", lambda: shutil.rmtree(pd_)), ("no-band-file", "INVALID_FILEPATH", lambda: [os.remove(os.path.join(pd_, x)) for x in os.listdir(pd_)]),
                ("band-missing", "BAD_PARAMETER_VALUE", lambda: [os.remove(os.path.join(pd_, x)) for x in [bf]] + [open(os.path.join(pd_, "zz"), "w").write("lambda,zz\n1000,1\n1010,1\n")]),
                ("band-twice", "BAD_FILEFORMAT", lambda: shutil.copy(os.path.join(pd_, bf), os.path.join(pd_, "again")))]
    for m3 in w.models:
        if w.rel[m3]:
            def attr(k, v, p=os.path.join(cal, "rel", f"{m3}.h5")):
                def go():
                    import h5py
                    with h5py.File(p, "a") as f: f.attrs[k] = v
                return go
            out += [("reliability-model-too-recent", "RELIABILITY_NEEDS_TENSORFLOW", attr("keras_version", "3.0.1")), ("reliability-range", "INCOMPATIBLE_PDF_MODELSHAPES", attr("zrange_max", 9.0)),
                    ("reliability-step", "INCOMPATIBLE_PDF_MODELSHAPES", attr("zrange_step", 0.5))]
    names = sorted({x[0] for x in out})
    n = r.pick(names)
    return r.pick([x for x in out if x[0] == n])


@vh.case(120, 2000)
def damaged(c):
    r = c.r
    w = world(c)
    F = Files(w, r)
    good = os.path.join(w.dir, "good")
    shutil.copytree(w.cal, good)
    what, code, do = damage(w, F, r)
    do()

    def go(q):
        from pylibamazed.Exception import APIException
        from pylibamazed.redshift import AmzException, ErrorCode
        try:
            flow.process_flow(w)
            q.check(False, "refused/" + what, "accepted")
            return
        except AmzException as e:
            got = ErrorCode(e.getErrorCode()).name
            q.check(code is None or got == code, "refused/" + what, f"{got} ({e.getMessage()}) for {code}")
        except BaseException as e:
            q.check(False, "refused/" + what, f"{type(e).__name__}: {e}")
        shutil.rmtree(w.cal, ignore_errors=True)
        os.rename(good, w.cal)
        pf, rd, rso = load(w, "s0")
        if q.check(rd.reached, "loads-after-a-refusal", str(rso.errors)[:600]): compare(q, F, held(), pf, True)
    st, v = inproc(go)
    report(c, st, v)
    c.sig(what, w.methods)
    c.nontrivial = True
    w.close()


vh.main()
