"""C20: estimator answers do not depend on the order or history of queries."""
import json
import math
from api import DISCRETE1, call, im, is_exc, make, np, num
import gen
import terms
from replay import REFUSE_LOCAL, brief, inputs_of, is_real
from .common import dcase, ordered
from .stat import APS, general

CLASS = {"h": "entropy", "hx": "entropy", "mi": "information", "cmi": "information", "te": "transfer", "cte": "transfer"}
LATER = {"test_permutation": (3, "permutation_test"), "test_bootstrap": (2, "bootstrap"), "test_default": (2, None),
         "test_zero": (0, "permutation_test"), "test_one": (1, "bootstrap"), "test_text": ("many", "permutation_test"),
         "test_method": (3, "jackknife")}


class Broken(Exception):
    pass


class Failing(np.random.Generator):
    """A generator that can be told to fail at its k-th draw."""
    fuse = 0

    def tick(self):
        if self.fuse:
            self.fuse -= 1
            if self.fuse == 0:
                raise Broken("no randomness left")

    def permutation(self, *a, **k):
        self.tick()
        return super().permutation(*a, **k)

    def shuffle(self, *a, **k):
        self.tick()
        return super().shuffle(*a, **k)

    def permuted(self, *a, **k):
        self.tick()
        return super().permuted(*a, **k)

    def choice(self, *a, **k):
        self.tick()
        return super().choice(*a, **k)

    def integers(self, *a, **k):
        self.tick()
        return super().integers(*a, **k)

    def random(self, *a, **k):
        self.tick()
        return super().random(*a, **k)


def pool(chk):
    rng, out, noisy = chk.rng, [], []
    for kind in ("h", "hx", "mi", "cmi", "te", "cte"):
        for ap in APS:
            if ap == "nsb" and kind != "h" or ap == "ansb" and kind != "mi" and kind != "h":
                continue
            if kind == "hx" and ap in DISCRETE1 and ap not in ("discrete", "miller_madow", "bayes"):
                continue
            for _ in range(3 if kind not in ("h", "hx") else 1):
                if kind in ("h", "hx"):
                    if ap in DISCRETE1:
                        c, e = dcase(rng, "mi" if kind == "h" else kind, ap, 14, 2)
                        if kind == "h":
                            c["kind"] = "h"
                            c.pop("off")
                    else:
                        c, e = gen.rcase(rng, kind, ap, 14, 2)
                else:
                    c, e = general(rng, kind, ap, 14)
                    if ap == "kernel" and c["par"]["ker"] == "gaussian":
                        c["par"]["ker"] = "box"     # covariances of resampled data may be singular
                out.append([c, e])
    for x, a in zip(out, chk.expect([c for c, _ in out])):
        x.append(a)
    # estimates that add noise: answers are compared with each other only
    for kind in ("mi", "cmi", "te", "cte"):
        for ap in ("metric", "renyi", "tsallis"):
            c, e = general(rng, kind, ap, 14)
            noisy.append([c, e, None])
    out = [x for x in out if not x[2]["frag"] and math.isfinite(terms.evaluate(x[2]["g"])[0])]
    out += noisy
    return {k: [x for x in out if CLASS[x[0]["kind"]] == k] for k in ("entropy", "information", "transfer")}


def perform(est, q, gen_, twin):
    """One query; returns the observation."""
    if q == "result":
        return ("V", num(call(est.result)))
    if q == "calculate":
        r = call(est.calculate)
        return ("none", r if is_exc(r) else None)
    if q == "local":
        r = call(est.local_vals)
        return ("L", r if is_exc(r) or r is None else [float(v) for v in np.asarray(r).ravel()])
    if q == "other":                 # another object on the same data
        for f in ("local_vals", "result"):
            call(getattr(twin, f))
        if hasattr(twin, "statistical_test"):
            call(twin.statistical_test, 2, "bootstrap")
        return ("none", None)
    if q.startswith("fail_"):
        gen_.fuse = int(q[-1]) if q[-1].isdigit() else 1
        if q == "fail_effective":
            r = call(est.effective_val, "permutation_test")
            ok = num(r) if not is_exc(r) else r
        else:
            r = call(est.statistical_test, 3, "permutation_test" if "perm" in q else "bootstrap")
            ok = r if is_exc(r) else ("test", r)
        blown = gen_.fuse == 0
        gen_.fuse = 0
        return ("fault" if blown and is_exc(r) and r["exc"] == "Broken" else "swallowed" if blown else "unused", ok)
    if q == "effective_method":
        r = call(est.effective_val, "jackknife")
        return ("E", r if is_exc(r) else num(r))
    if q.startswith("effective"):
        r = call(est.effective_val, "bootstrap") if q.endswith("bootstrap") else call(est.effective_val)
        return ("E", num(r))
    n, m = LATER[q]
    r = call(est.statistical_test, n, m)
    return ("test", r)


def agree(v, w):
    return v == w or (v != v and w != w)


def takes_seed(case):
    return CLASS[case["kind"]] != "entropy"     # entropy estimators draw nothing


def walk(chk, what, x, b, hist, expected, rec, check=True):
    """All observations of one history; checked against the specification's answers."""
    case, encs, ans = x
    noisy = ans is None
    ans = ans or {"g": None, "l": [], "has": False}
    if noisy:
        hist = ["result" if q == "calculate" else q for q in hist]
        expected = ["V" if w == "none" and q == "result" else w for q, w in zip(hist, expected)]
    extra = {"noise_level": 0.01} if noisy else {}
    compare = (lambda *a, **k: True) if noisy else chk.compare
    g = Failing(np.random.PCG64(rec["seed"]))
    ins = inputs_of(case, encs)
    est, twin = call(make, case, ins, b, dict(extra, seed=g) if takes_seed(case) else extra), None
    if is_exc(est):
        chk.violation(f"{what}: {est}", rec)
        return []
    twin = call(make, case, ins, b, dict(extra, seed=1) if takes_seed(case) else extra)
    trace, first, eff = [], {}, None
    bb = "e" if case["par"]["ap"] == "tsallis" and case["par"]["q"][0] != case["par"]["q"][1] else b
    tol = 2e-6 if case["par"]["ap"] == "nsb" else 1e-9
    for q, want in zip(hist, expected):
        tag, got = perform(est, q, g, twin)
        if eff is not None and want in ("refused", "fault") and q in ("effective_method", "fail_effective"):
            want = "same E"          # an earlier fault did not strike: the value is fixed
        trace.append((q, tag, list(got.test_values) if tag == "test" and not is_exc(got) else repr(got)
                      if not (isinstance(got, tuple)) else list(got[1].test_values)))
        if not check:
            continue
        w = f"{what} after {trace and [t[0] for t in trace]}"
        if q == "result":
            if not compare(w, got, ans["g"], rec, base=bb, rtol=tol):
                return trace
        elif q == "local":
            if is_exc(got):
                if noisy and case["par"]["ap"] == "metric" or not noisy and ans["has"] or not any(n in REFUSE_LOCAL for n in got["mro"]):
                    chk.violation(f"{w}: local values {got}", rec)
                    return trace
                got = got["exc"]
            elif noisy:
                chk.count("noisy_locals")
            elif not ans["has"] and case["kind"] == "hx":
                chk.count("cross_entropy_locals")
            elif not ans["has"] or got is None or len(got) != len(ans["l"]):
                chk.violation(f"{w}: local values {got}", rec)
                return trace
            elif not all(compare(w + " local", v, t, rec, base=bb, rtol=tol) for v, t in zip(got, ans["l"])):
                return trace
        elif want == "test":
            n = LATER[q][0]
            if is_exc(got) or len(got.test_values) != n or not compare(w + " observed", float(got.observed_value),
                                                                         ans["g"], rec, base=bb, rtol=tol):
                chk.violation(f"{w}: test gives {got}", rec)
                return trace
            got = float(got.observed_value)
            q = "result"
        elif want == "refused" and not q.startswith("effective"):
            if not is_exc(got) or "ValueError" not in got["mro"]:
                chk.violation(f"{w}: not refused but {got}", rec)
                return trace
            continue
        elif want == "fault":
            if tag == "unused" and q == "fail_effective" and not is_exc(got):
                eff = got
            if tag == "swallowed":
                chk.violation(f"{w}: a failure inside the computation was hidden: {got}", rec)
                return trace
            continue
        elif want in ("E", "same E") or q in ("effective_method", "fail_effective"):
            if want == "refused":
                if not is_exc(got) or "ValueError" not in got["mro"]:
                    chk.violation(f"{w}: not refused but {got}", rec)
                    return trace
                continue
            if is_exc(got):
                # a failing draw is not needed for a value that is already fixed
                chk.violation(f"{w}: effective value {got}", rec)
                return trace
            if eff is None:
                eff = got
            elif not agree(eff, got):
                chk.violation(f"{w}: effective value {got}, before {eff}", rec)
                return trace
            continue
        else:
            if is_exc(got):
                chk.violation(f"{w}: {q} raised {got}", rec)
                return trace
            continue
        # repeated queries return the same numbers
        if q in first and not (agree(first[q], got) or isinstance(got, list) and len(got) == len(first[q])
                               and all(agree(a, c) for a, c in zip(first[q], got))):
            chk.violation(f"{w}: {q} gives {got}, before {first[q]}", rec)
            return trace
        first.setdefault(q, got)
    return trace


def run(chk):
    r = chk.tlc("MC_C20")
    chk.notes["exhaustive"] = True
    lines = ordered(chk, r["lines"])
    chk.notes["model_behaviours"] = len(lines)
    P = pool(chk)
    stride = 5 if not chk.thorough else 3
    todo = [x for i, x in enumerate(lines) if x["class"] != "information" or i % stride == chk.seed % stride]
    chk.notes["replayed"] = len(todo)

    def one(x, i):
        p = P[x["class"]]
        req = p[(i * 7919) % len(p)]
        b = gen.BASES[i % len(gen.BASES)]
        c = req[0]
        what = f"{c['kind']} {brief(c)} base {b}"
        rec = {"case": c, "encodings": req[1], "history": x["hist"], "seed": i}
        if x["class"] == "transfer" and i % 3 == 0 or i % 40 == 0:
            im.Config.set("statistical_test_method", "bootstrap")
        t = walk(chk, what, req, b, x["hist"], x["ans"], rec)
        if i % 3 == 0:
            u = walk(chk, what, req, b, x["hist"], x["ans"], rec, check=False)
            if t and repr(t) != repr(u[:len(t)]):
                chk.violation(f"{what}: repeating {x['hist']} with the same seed gives {u} instead of {t}", rec)
        im.Config.reset()
        chk.traces += 1
        if i % 4001 == 5:
            chk.sample({"request": c, "history": x["hist"], "observed": t})
    chk.each(todo, one)
    chk.assumptions = ["failures are injected through the documented seed argument (a numpy Generator that raises)",
                       "noise levels are zero; box kernels for resampling"]
