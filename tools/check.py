#!/usr/bin/env python3
"""Runs the check of one property: builds from /repo's working tree, runs the harness shards, applies the known findings,
writes evidence/<ID>.json and prints VIOLATION / KNOWN-FINDING lines.

usage: check.py ID | check.py --replay FILE
exit: 0 held on everything explored, 1 violation, 2 the check itself failed (harness error, nothing observed)
"""
import glob, json, os, re, signal, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as bld
from registry import CHECKS

VERIF = bld.VERIF
B = bld.B
PY = bld.VENV_PY
NSHARD = int(os.environ.get("VERIF_SHARDS", "8"))


def run_env(flavour, kind="cpp"):
    e = bld.env()
    for k in list(e):
        if k.startswith(("LD_", "PYTHON", "ASAN_", "UBSAN_", "TSAN_")):
            del e[k]
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["PYTHONPATH"] = f"{B}/{'pysan' if flavour == 'san' else 'py'}:{VERIF}/pychecks"
    if kind == "py" and flavour == "san":
        lib = [subprocess.check_output([bld.CXX, f"-print-file-name={x}.so"], text=True).strip() for x in ("libasan", "libubsan")]
        e["LD_PRELOAD"] = " ".join(os.path.realpath(x) for x in lib)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    if flavour == "plain":
        e["MALLOC_PERTURB_"] = "181"  # fresh and freed memory is never zero: a use of uninitialised members changes results
    e["ASAN_OPTIONS"] = "detect_leaks=0:handle_abort=1:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    return e


def command(job):
    if job["kind"] == "py":
        return [PY, f"{VERIF}/pychecks/{job['harness']}.py"]
    if job["flavour"] == "vg":  # the plain build under memcheck: uninitialised values, which the compiler sanitizers do not see
        return ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes", "--num-callers=25", f"{B}/plain/{job['harness']}"]
    return [f"{B}/{job['flavour']}/{job['harness']}"]


def target(job):
    if job["kind"] == "py":
        return "pysan" if job["flavour"] == "san" else "pyext"
    return f"{job['flavour'].replace('vg', 'plain')}:{job['harness']}"


def classify_crash(err, rc):
    """short stable key of a crash: error class + first library frame"""
    kind = f"signal{-rc}" if rc < 0 else f"exit{rc}"
    m = re.search(r"ERROR: (?:Address|Leak|Thread)Sanitizer:? ([\w-]+)", err)
    if m:
        kind = m.group(1)
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid \w+|Syscall param|Jump to|Argument|Mismatched|Source and dest|Process terminating)[^\n]*", err)
    if m:
        kind = "memcheck " + m.group(1)
    m = re.search(r"runtime error: ([^\n]+)", err)
    if m:
        kind = "ub " + re.sub(r"[0-9.e+\-]{2,}", "N", m.group(1))[:60]
    if "WARNING: ThreadSanitizer" in err:
        kind = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err).group(1).strip()
    m = re.search(r"Assertion '([^']*)' failed", err)
    if m:
        kind = "assertion " + m.group(1)[:60]
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        kind = "terminate " + m.group(1)
    m = re.search(r"gsl: (\S+?):\d+: ERROR: ([^\n]*)", err)
    if m:
        kind = "gsl " + m.group(2)[:60]
    fr = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S.*?) (/\S+?):(\d+)", err):
        if "/build/src/" in m.group(2) or m.group(2).startswith("/repo"):
            fr = re.sub(r"\(.*", "", m.group(1))
            break
    if not fr and kind.startswith("memcheck"):
        m = re.search(r"(?:at|by) 0x[0-9A-F]+: (NSEpic::[^(<]*)", err)
        fr = m.group(1) if m else ""
    return re.sub(r"\s+", " ", f"{kind} {fr}").strip()


def run_shards(job, seed, tier, tmp):
    """returns (results, crashes[(where, key, stderr)], hung[where], harness_errors)"""
    procs = []
    n = job.get("shards", NSHARD)
    limit = job["timeout"][1 if tier == "thorough" else 0]
    for i in range(n):
        tag = f"{job['flavour']}-{job['harness']}-{i}"
        out, st = f"{tmp}/{tag}.json", f"{tmp}/{tag}.st"
        for p in (out, st):
            if os.path.exists(p):
                os.remove(p)
        cmd = command(job) + ["--seed", str(seed), "--tier", tier, "--shard", f"{i}/{n}", "--out", out, "--status", st]
        if job.get("scale"):
            cmd += ["--scale", str(job["scale"][1 if tier == "thorough" else 0])]
        if job.get("only"):
            cmd += ["--only", job["only"]]
        for f in glob.glob(f"{glob.escape(tmp)}/{tag}.san.*"):
            os.remove(f)
        ef = open(f"{tmp}/{tag}.err", "w+", errors="replace")
        env = dict(run_env(job["flavour"], job["kind"]), VERIF_SANLOG=f"{tmp}/{tag}.san")
        procs.append((tag, out, st, ef, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=tmp, start_new_session=True)))
    res, crashes, hung, errs = [], [], [], []
    t0 = time.time()
    for tag, out, st, ef, p in procs:
        try:
            rc = p.wait(max(0.1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        where = open(st).read().strip() if os.path.exists(st) else ""
        ef.flush()
        ef.seek(0)
        err = ef.read()[-20000:]
        ef.close()
        data = None
        if os.path.exists(out):
            try:
                data = json.load(open(out))
            except ValueError:
                data = None
        # reports of the processes forked by the Python workloads
        reported = set()
        for f in sorted(glob.glob(f"{glob.escape(tmp)}/{tag}.san.*")):
            text = open(f, errors="replace").read()
            w = os.path.basename(f)[len(tag) + 5:].rsplit(".", 1)[0].replace("@", ":")
            reported.add(w)
            crashes.append((w, classify_crash(text, 66), text))
        if job.get("memory_only"):
            for w, how in (data or {}).get("died", []):
                if w not in reported:
                    crashes.append((w, "died " + how, err))
        if rc is None:
            if where:
                hung.append(where)
            else:
                errs.append(f"{tag}: time limit before the first case")
        elif rc in (0, 3) and data and data.get("done"):
            res.append(data)
        elif where:
            crashes.append((where, classify_crash(err, rc), err))
        else:
            errs.append(f"{tag}: exit {rc} before the first case: {err[-500:]}")
    return res, crashes, hung, errs


def run_single(job, seed, tier, where, tmp, limit):
    out = f"{tmp}/single.json"
    if os.path.exists(out):
        os.remove(out)
    cmd = command(job) + ["--seed", str(seed), "--tier", tier, "--out", out, "--status", f"{tmp}/single.st", "--only", where]
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=run_env(job["flavour"], job["kind"]), cwd=tmp,
                           timeout=limit, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return None, "", None
    data = None
    if os.path.exists(out):
        data = json.load(open(out))
    return p.returncode, p.stderr[-20000:], data


def main(pid):
    t0 = time.time()
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    targets = []
    for j in spec["jobs"]:
        targets.append(target(j))
    bld.build(sorted(set(targets)))
    tmp = f"{B}/run/{pid}"
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    viols, errs = [], []  # viols: (key, msg, where, job)
    evals, distinct, counters, samples = 0, set(), {}, []
    for j in spec["jobs"]:
        memonly = j.get("memory_only")
        tj = time.time()
        res, crashes, hung, er = run_shards(j, seed, tier, tmp)
        errs += er
        if os.environ.get("VERIF_TIMES"):
            print(f"{j['flavour']}-{j['kind']} {j['harness']} {time.time() - tj:.1f} s", file=sys.stderr)
        for d in res:
            evals += d["evaluations"]
            distinct |= set(f"{j['harness']}:{x}" for x in d["distinct"])
            for k, v in d["counters"].items():
                if j["flavour"] != "plain":
                    k = f"{j['flavour']}/{k}"
                counters[k] = counters.get(k, 0) + v
            if len(samples) < 24:
                samples += [f"{j['harness']}/{s}" for s in d["samples"]]
            if not memonly:
                viols += [(v["key"], v["msg"], v["where"], j) for v in d["violations"]]
        for where, key, err in crashes:
            viols.append((f"crash:{where.rsplit(':', 1)[0]}:{key}", err[-3000:], where, j))
        if j.get("memory_only"):
            counters[f"{j['flavour']}-{j['kind']}-cases/{j['harness']}"] = sum(d["evaluations"] for d in res)
        for where in sorted(set(hung)):
            rc, err, data = run_single(j, seed, tier, where, tmp, 150)
            if rc is None:
                viols.append((f"hang:{where.rsplit(':', 1)[0]}", "no result within the time limit, twice", where, j))
            elif rc not in (0, 3):
                viols.append((f"crash:{where.rsplit(':', 1)[0]}:{classify_crash(err, rc)}", err[-3000:], where, j))
            else:
                if not memonly and data:
                    viols += [(v["key"], v["msg"], v["where"], j) for v in data["violations"]]
                if not memonly:
                    errs.append(f"{j['harness']}: time limit, but {where} alone finishes: inconclusive")
    # an explored run must have observed something
    for k, need in spec.get("require", {}).items():
        if sum(v for c, v in counters.items() if c == k) < need and not viols:
            errs.append(f"only {counters.get(k, 0)} observations of {k}, at least {need} expected")
    known = json.load(open(f"{VERIF}/known-findings.json"))["findings"]
    kf, new = {}, {}
    for key, msg, where, j in viols:
        hit = next((f for f in known if f["property"] == pid and f["key"] == key), None)
        (kf if hit else new).setdefault(key, []).append((msg, where, j, hit))
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"],
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": spec["rule"], "samples": samples[:24],
                       "observations": {k: v for k, v in sorted(counters.items()) if not k.startswith(("us/",)) and "/us/" not in k},
                       "seconds_per_workload": {k[3:]: round(v / 1e6, 2) for k, v in sorted(counters.items()) if k.startswith("us/")},
                       "known_findings_observed": sorted(kf), "harness_errors": errs},
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(new)}
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for key, l in sorted(kf.items()):
        print(f"KNOWN-FINDING: property={pid} {key}: {l[0][3]['what']}")
    if new:
        os.makedirs(f"{B}/replay", exist_ok=True)
        for n, (key, l) in enumerate(sorted(new.items())[:12]):
            msg, where, j, _ = l[0]
            path = f"{B}/replay/{pid}-{n}.json"
            with open(path, "w") as f:
                json.dump({"property": pid, "key": key, "where": where, "seed": seed, "tier": tier, "job": j, "message": msg,
                           "occurrences": len(l),
                           "command": " ".join(command(j) + ["--seed", str(seed), "--tier", tier, "--only", where])}, f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {key} at {where}: {msg[:400]}")
        return 1
    if errs:
        print(f"CHECK-ERROR property={pid}: " + "; ".join(errs)[:3000])
        return 2
    if evals == 0:
        print(f"CHECK-ERROR property={pid}: nothing was observed")
        return 2
    print(f"OK property={pid} tier={tier} seed={seed} evaluations={evals} distinct={len(distinct)} wall={wall:.1f}s")
    return 0


def replay(path):
    r = json.load(open(path))
    j = r["job"]
    bld.build([target(j)])
    tmp = f"{B}/run/replay"
    os.makedirs(tmp, exist_ok=True)
    rc, err, data = run_single(j, r["seed"], r["tier"], r["where"], tmp, 300)
    print("exit", rc)
    for v in (data or {}).get("violations", []):
        print(v["key"], v["where"], v["msg"])
    for v in (data or {}).get("died", []):
        print("a child process died:", *v)
        rc = rc or 1
    if err:
        print(err)
    return 0 if rc == 0 else 1


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
