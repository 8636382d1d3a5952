"""C19: null samples resample only the source and keep everything else in place."""
import math
from api import DISCRETE1, call, im, is_exc, np, num
import gen
import terms
from replay import brief, is_real
from .stat import APS, KINDS, estimator, general, small, windows

KNOWN = "cte-null-degenerate"


def close(v, w, tol=1e-9):
    if v != v or w != w:
        return v != v and w != w
    if math.isinf(v) or math.isinf(w):
        return v == w
    return abs(v - w) <= 1e-10 + tol * max(abs(v), abs(w))


def number(t):
    v, err = terms.evaluate(t)
    return v, 1e-9 * abs(v) + 1e-10 + 32 * err


def classes(null):
    """Distinct numbers a test can produce, with their multiplicities."""
    out = []
    for t, k in null:
        v, tol = number(t)
        for c in out:
            if c[0] == v or abs(c[0] - v) <= tol or (v != v and c[0] != c[0]):
                c[1] += k
                break
        else:
            out.append([v, k, tol])
    return out


def judge(chk, what, case, values, cls, observed, rec):
    """Every null value is one the specification allows; likely ones all occur."""
    seen = [0] * len(cls)
    for v in values:
        hits = [i for i, (w, _, tol) in enumerate(cls) if w == v or abs(w - v) <= 2 * tol or (v != v and w != w)]
        if not hits:
            chk.violation(f"{what}: null value {v!r} belongs to no resampling of the source", rec)
            return
        for i in hits:
            seen[i] += 1
    total = sum(k for _, k, _ in cls)
    n = len(values)
    for (w, k, _), s in zip(cls, seen):
        if s == 0 and k * n >= 25 * total:
            stuck = case["kind"] == "cte" and all(close(v, observed) for v in values)
            chk.violation(f"{what}: {n} null values never give {w!r}, the value of {k} of {total} resamplings"
                          + (" (all equal the observed value)" if stuck else ""), rec, KNOWN if stuck else None)
            return


def usable(case, method, cls):
    """Bootstrapped rows coincide; estimates that then divide by zero distances are left out."""
    return all(math.isfinite(w) for w, _, _ in cls)


class Scripted(np.random.Generator):
    """A source of randomness whose rearrangements are prescribed (an involution / a map)."""
    log = None

    def plan(self, f):
        self.f, self.log = np.array(f) - 1, []
        return self

    def note(self, what, n):
        self.log.append((what, n))
        return n == len(self.f)

    def permutation(self, x, axis=0):
        a = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
        return a[self.f] if self.note("permutation", a.shape[0]) else a

    def shuffle(self, x, axis=0):
        if self.note("shuffle", len(x)):
            x[:] = np.asarray(x)[self.f]

    def permuted(self, x, *, axis=None, out=None):
        a = np.asarray(x)
        self.note("other", -1)
        return a

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = size if isinstance(size, (int, np.integer)) else (size or [1])[0]
        if not replace:      # without replacement: all of them is a permutation
            return a[self.f] if self.note("permutation" if n == len(a) else "other", n) else a[:n]
        return a[self.f] if self.note("choice", n) else a[:n]

    def integers(self, low, high=None, size=None, **kw):
        n = size if isinstance(size, (int, np.integer)) else (size or [1])[0]
        return self.f.copy() if self.note("choice", n) else np.zeros(size, dtype=int)

    def random(self, *a, **k):
        self.note("other", -1)
        return super().random(*a, **k)


def large(rng, kinds, count):
    """Prescribed rearrangements of long series."""
    out = []
    for i in range(count):
        kind = kinds[i % len(kinds)]
        ap = rng.choice(["discrete"] * 5 + ["ordinal"] * 2)
        n = [1030 if ap != "ordinal" else 290, 130, 520 if ap != "ordinal" else 200, 1100 if ap != "ordinal" else 160, 270, 70][i // len(kinds) % 6] + rng.randint(0, 20)
        c, e = small(rng, kind, ap, n, 1, plain=True)
        if ap != "ordinal":      # few outcomes, and the source matters
            for v in c["vars"] + ([c["cond"]] if "cond" in c else []):
                v[:] = [[x % 3 for x in r] for r in v]
            c["vars"][1] = [c["vars"][0][t - 1][:1] if rng.random() < 0.7 else r for t, r in enumerate(c["vars"][1])]
            w = max(len(r) for r in c["vars"][1])
            c["vars"][1] = [(r * w)[:w] for r in c["vars"][1]]
        idx = list(range(1, n + 1))
        rng.shuffle(idx)
        f = list(range(1, n + 1))
        for a, b in zip(idx[::2], idx[1::2]):
            f[a - 1], f[b - 1] = b, a
        out.append((c, e, "permutation_test", f))
        out.append((c, e, "bootstrap", [rng.randint(1, n) for _ in range(n)]))
    return out


def drawn(log, method, rows):
    """True: one rearrangement of the rows; False: nothing comparable; None: drawn in the wrong way."""
    if any(n != rows for _, n in log):
        return False
    kinds = {k for k, _ in log}
    if method == "bootstrap" and kinds and kinds <= {"permutation", "shuffle"}:
        return None
    if method == "permutation_test" and kinds == {"choice"}:
        return None
    return kinds <= {"permutation_test": {"permutation", "shuffle"}, "bootstrap": {"choice"}}[method]


def scripted(f):
    return Scripted(np.random.PCG64(0)).plan(f)


def run(chk):
    rng = chk.rng
    # 1. all resamplings of four source rows
    reqs = []
    for kind in KINDS:
        for ap in APS:
            if ap == "nsb":
                continue
            for _ in range(6 if chk.thorough else 2):
                for method in ("permutation_test", "bootstrap"):
                    if method == "bootstrap" and ap in ("renyi", "tsallis") and rng.random() < 0.7:
                        continue
                    c, e = small(rng, kind, ap, 4, 2)
                    reqs.append((c, e, method))
    for kind in ("mi", "te"):
        c, e = small(rng, kind, "nsb", 3)
        reqs.append((c, e, "permutation_test"))
    if chk.thorough:
        for kind in KINDS:
            for ap in ("discrete", "kernel", "metric", "ordinal"):
                for _ in range(3):
                    reqs.append((*small(rng, kind, ap, 5, 3), "permutation_test"))
    # 2. prescribed resamplings of any size
    pres = []
    for kind in ("mi", "cmi", "te"):
        for ap in APS:
            if ap == "nsb":
                continue
            for _ in range(12 if chk.thorough else 5):
                c, e = general(rng, kind, ap, 60 if ap in DISCRETE1 else 30)
                n = windows(c)
                if n < 2:
                    continue
                gauss = ap == "kernel" and c["par"]["ker"] == "gaussian"
                if rng.random() < 0.5 or gauss or ap in ("renyi", "tsallis"):
                    idx = list(range(1, n + 1))
                    rng.shuffle(idx)
                    f = list(range(1, n + 1))
                    for a, b in zip(idx[::2], idx[1::2]):
                        f[a - 1], f[b - 1] = b, a
                    pres.append((c, e, "permutation_test", f))
                    if gauss:
                        pres.pop()      # covariance of the rearranged data may be singular
                else:
                    pres.append((c, e, "bootstrap", [rng.randint(1, n) for _ in range(n)]))
    pres += large(rng, ("mi", "te", "cmi"), 36 if chk.thorough else 12)
    r = chk.tlc("MC_C19", data={"CASES": [{"case": c, "method": m} for c, _, m in reqs]
                                + [{"case": c, "method": m, "map": f} for c, _, m, f in pres]})
    ans = {x["id"]: x for x in r["lines"]}
    if len(ans) != len(reqs) + len(pres):
        raise RuntimeError("answers missing")

    def one(x, i):
        c, e, method = x
        a = ans[i + 1]
        cls = classes(a["null"])
        what = f"{method} of {c['kind']} {brief(c)}"
        rec = {"case": c, "encodings": e, "method": method}
        if a["frag"]:
            return chk.count("fragile_skipped")
        if not usable(c, method, cls):
            return chk.count("undefined_null_values")
        n = 160 if c["par"]["ap"] not in ("nsb", "ansb") else 40
        est = call(estimator, c, e, i)
        if is_exc(est):
            chk.violation(f"{what}: {est}", rec)
            return
        res = call(est.statistical_test, n, method)
        chk.traces += 1
        if is_exc(res):
            chk.violation(f"{what}: {res}", rec)
            return
        vals = [float(v) for v in res.test_values]
        judge(chk, what, c, vals, cls, number(a["observed"])[0], rec)
        if i % 40 == 3:
            chk.sample({"request": c, "method": method, "classes": [[w, k] for w, k, _ in cls], "null": vals[:8]})
        # the same seed gives the same null values, on a fresh object and via either argument style
        again = call(call(estimator, c, e, i).statistical_test, n_tests=n, method=method)
        if is_exc(again) or not np.array_equal(again.test_values, res.test_values, equal_nan=True):
            chk.violation(f"{what}: the same seed gives other null values", rec)
        # the data of a multi-column source are read in any container
        if a["rows"] != windows(c):
            chk.violation(f"{what}: {windows(c)} rows, specification {a['rows']}", rec)
    chk.each(list(reqs), one)

    def two(x, i):
        c, e, method, f = x
        a = ans[len(reqs) + i + 1]
        if a["frag"]:
            return chk.count("fragile_skipped")
        want, tol = number(a["null"][0][0])
        what = f"{method} of {c['kind']} {brief(c)} with rearrangement {f if len(f) < 16 else '...'}"
        rec = {"case": c, "encodings": e, "method": method, "rearrangement": f}
        g = scripted(f)
        est = call(estimator, c, e, g)
        if is_exc(est):
            chk.violation(f"{what}: {est}", rec)
            return
        g.log.clear()
        res = call(est.statistical_test, 2, method)
        ok = drawn(g.log, method, a["rows"])
        if ok is None:
            chk.violation(f"{what}: the rows are drawn by {g.log[0][0]}", rec)
            return
        if len(g.log) != 2 or not ok:
            chk.count("unscripted")         # randomness drawn in another way: nothing to compare
            return
        chk.traces += 1
        if is_exc(res):
            chk.violation(f"{what}: {res}", rec)
            return
        if not math.isfinite(want):
            return chk.count("undefined_null_values")
        for v in res.test_values:
            if not (abs(v - want) <= 2 * tol + 1e-9 * abs(want)):
                chk.violation(f"{what}: null value {v!r}, specification says {want!r}", rec)
                break
    chk.each(pres, two)
    chk.assumptions = ["all resamplings of four (five) source rows; values whose share makes missing them less likely than e^-25 must occur",
                       "prescribed rearrangements are injected through the documented seed argument (a numpy Generator)"]
