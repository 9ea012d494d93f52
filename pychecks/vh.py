"""Python counterpart of harness/vh.h: random cases, monitors, counters, the same command line and result file."""
import hashlib, json, math, os, random, sys, time, traceback

_cases = []
died = []  # ends of forked children that returned nothing (flow.forked)


class Skip(Exception):
    pass


class Rng(random.Random):
    def i(self, a, b):
        return self.randint(a, b)

    def d(self, a, b):
        return self.uniform(a, b)

    def logd(self, a, b):
        return math.exp(self.uniform(math.log(a), math.log(b)))

    def b(self, p=0.5):
        return self.random() < p

    def pick(self, l):
        return l[self.randrange(len(l))]


class Case:
    def __init__(self, run, name, index, seed):
        self.run, self.name, self.index = run, name, index
        self.r = Rng(hashlib.sha256(f"{seed}/{name}/{index}".encode()).hexdigest())
        self.nontrivial = False
        self._sig = hashlib.sha256(name.encode())

    @property
    def where(self):
        return f"{self.name}:{self.index}"

    def fail(self, key, msg):
        v = self.run["violations"]
        n = self.run["nviol"]
        n[key] = n.get(key, 0) + 1
        if n[key] <= 5:
            v.append({"key": key, "msg": str(msg)[:1500], "where": self.where})

    def check(self, ok, key, msg=""):
        self.count(f"monitor/{key}")
        if not ok:
            self.fail(key, msg)
        return bool(ok)

    def eq(self, a, b, key, msg=""):
        return self.check(same(a, b), key, f"{msg} got={short(a)} want={short(b)}")

    def close(self, a, b, rel, absol, key, msg=""):
        ok = a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)) or abs(a - b) <= max(rel * abs(b), absol)
        return self.check(ok, key, f"{msg} got={a!r} want={b!r}")

    def sig(self, *a):
        self._sig.update(repr(a).encode())

    def count(self, k, n=1):
        self.run["counters"][k] = self.run["counters"].get(k, 0) + n

    def note(self, s):
        if len(self.run["samples"]) < 6:
            self.run["samples"].append(f"{self.where} {s}"[:300])

    def skip(self):
        raise Skip()


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."


def same(a, b):
    """equality with NaN equal to NaN, numeric types interchangeable"""
    import numpy as np
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


def case(quick, thorough):
    def deco(f):
        _cases.append((f.__name__, f, quick, thorough))
        return f
    return deco


def _sanitizer_report_path():
    """function that tells the sanitizer runtimes (when they are preloaded) where to write the reports of a case"""
    base, libs = os.environ.get("VERIF_SANLOG"), os.environ.get("LD_PRELOAD", "").split()
    if not base or not libs:
        return lambda where: None
    import ctypes
    fs = [ctypes.CDLL(l).__sanitizer_set_report_path for l in libs]

    def go(where):
        for f in fs:
            f(f"{base}.{where.replace(':', '@')}".encode())
    return go


def main():
    a = sys.argv[1:]
    report_path = _sanitizer_report_path()

    def opt(k, d=None):
        return a[a.index(k) + 1] if k in a else d
    seed, tier, scale = int(opt("--seed", "1")), opt("--tier", "quick"), float(opt("--scale", "1"))
    i, n = map(int, opt("--shard", "0/1").split("/"))
    only, out, status = opt("--only"), opt("--out"), opt("--status")
    run = dict(evaluations=0, distinct=set(), counters={}, samples=[], violations=[], nviol={}, died=[], done=False)
    verbose = only and ":" in only
    for name, f, q, t in _cases:
        if only and only.split(":")[0] != name:
            continue
        for k in range(max(1, int((t if tier == "thorough" else q) * scale))):
            if verbose:
                if k != int(only.split(":")[1]):
                    continue
            elif k % n != i:
                continue
            c = Case(run, name, k, seed)
            if status:
                with open(status, "w") as s:
                    s.write(c.where)
            report_path(c.where)
            t0 = time.time()
            try:
                f(c)
                run["evaluations"] += 1
                if c.nontrivial:
                    run["distinct"].add(c._sig.hexdigest()[:16])
            except Skip:
                c.count(f"skipped/{name}")
            except Exception as e:
                run["evaluations"] += 1
                c.fail(f"unexpected-exception:{name}:{type(e).__name__}", "".join(traceback.format_exception(e))[-1200:])
            if died:
                run["died"].append([c.where, died[0]])
                died.clear()
            c.count(f"cases/{name}")
            c.count(f"us/{name}", int((time.time() - t0) * 1e6))
    if status:
        with open(status, "w") as s:
            s.write("")
    run["done"] = True
    run["distinct"] = sorted(run["distinct"])
    if out:
        with open(out, "w") as f:
            json.dump(run, f)
    for v in run["violations"][:40] if verbose or not out else []:
        print(v["key"], v["where"], v["msg"])
    # leave without the destructors of the extension's singletons
    sys.stdout.flush()
    os._exit(3 if run["violations"] else 0)
