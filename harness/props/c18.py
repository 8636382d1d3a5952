"""C18: figures of a statistical test are computed from the observed and null values."""
import json
from api import call, im, is_exc, make, np, num
import gen
import terms
from replay import brief, inputs_of, is_real
from .stat import APS, KINDS, estimator, general


def ranks(obs, nulls):
    vals = sorted(set([obs] + list(nulls)))
    pos = {v: i for i, v in enumerate(vals)}
    return pos[obs], [pos[v] for v in nulls]


def figures(chk, what, res, obs, nulls, fig, rec):
    """A result object against the figures of the specification."""
    n = len(nulls)
    args = [obs] + list(nulls) + [float(res.null_mean), float(res.null_std)]
    scale = max(abs(x) for x in args[:n + 1]) or 1.0
    ok = chk.compare(f"{what} p-value", float(res.p_value), fig["p"], rec, args=args, rtol=1e-12, atol=1e-12)
    ok &= chk.compare(f"{what} null mean", float(res.null_mean), fig["mean"], rec, args=args, rtol=1e-11,
                      atol=1e-13 * scale)
    ok &= chk.compare(f"{what} null deviation", float(res.null_std), fig["std"], rec, args=args, rtol=1e-9,
                      atol=1e-13 * scale)
    if fig["t"][0] == "nan" or res.null_std > 1e-9 * scale:
        ok &= chk.compare(f"{what} t-score", float(res.t_score), fig["t"], rec, args=args, rtol=1e-9, atol=1e-9)
    else:
        chk.count("deviation_within_rounding")
    for q, how, t in fig["perc"]:
        got = num(call(res.percentile, q[0] / q[1], how))
        ok &= chk.compare(f"{what} percentile {q} {how}", got, t, rec, args=args, rtol=1e-10, atol=1e-12 * scale)
    qs = [q[0] / q[1] for q, _, _ in fig["perc"]]
    if qs and all(h == "linear" for _, h, _ in fig["perc"]):
        many = call(res.percentile, qs)
        if is_exc(many) or len(many) != len(qs):
            chk.violation(f"{what}: percentile({qs}) is {many}", rec)
        else:
            for v, (q, how, t) in zip(many, fig["perc"]):
                ok &= chk.compare(f"{what} percentiles {q}", float(v), t, rec, args=args, rtol=1e-10, atol=1e-12 * scale)
    for l, how, (lo, hi) in fig["ci"]:
        got = call(res.confidence_interval, l[0] / l[1], how) if how != "linear" else \
            call(res.confidence_interval, l[0] / l[1])
        if is_exc(got) or len(got) != 2:
            chk.violation(f"{what}: confidence_interval({l}) is {got}", rec)
            continue
        if fuzzy(l, n) and how != "linear":
            continue
        ok &= chk.compare(f"{what} interval {l} {how} lower", float(got[0]), lo, rec, args=args, rtol=1e-9, atol=1e-12 * scale)
        ok &= chk.compare(f"{what} interval {l} {how} upper", float(got[1]), hi, rec, args=args, rtol=1e-9, atol=1e-12 * scale)
    return ok


def fuzzy(l, n):
    """Rounding of the percentage decides between neighbouring values."""
    return l[1] not in (1, 2, 4) or (100 * l[1] - l[0]) * (n - 1) % (200 * l[1]) == 0


VALUES = [[-0.25, 0.0, 0.125, 0.5, 1.0, 3.0], [1e-3, 2e-3, 5e-3, 0.7, 0.71, 0.8], [0.1, 0.2, 0.3, 0.4, 0.5, 0.6]]


def run(chk):
    rng = chk.rng
    # recorded tests of every measure and approach
    plan = [(k, a) for k in KINDS for a in APS for _ in range(4 if chk.thorough else 2)]
    recs = []
    for kind, ap in plan:
        c, e = general(rng, kind, ap, 12 if rng.random() < 0.6 else 40)
        n = rng.choice([2, 3, 4, 5, 8, 13, 30, 60]) if ap != "nsb" else rng.choice([2, 3, 5])
        m = rng.choice(["permutation_test", "bootstrap"])
        if ap == "kernel" and c["par"]["ker"] == "gaussian":
            m = "permutation_test"
        recs.append((c, e, n, m, rng.randrange(10**6), gen.base(rng)))
    # equal null values: constant source, all outcomes distinct
    for ap in ("discrete", "miller_madow", "kernel", "shrink", "bayes", "ordinal"):
        for n in (2, 3, 5, 7, 10, 13, 21):
            c, e = general(rng, rng.choice(["mi", "te"]), ap, 20)
            k = len(c["vars"][0])
            c["vars"] = [[[7]] * k if n % 2 else [[i] for i in range(k)], [r[:1] for r in c["vars"][1]]]
            if ap == "kernel":
                c["par"].update(ker="box", norm=False)
            recs.append((c, ["int64"] * 3 if ap in ("discrete", "miller_madow", "shrink", "bayes") else ["float64"] * 3,
                         n, "permutation_test", 5, "e"))
    ans = chk.expect([c for c, *_ in recs])
    rows = []
    for x, a in zip(recs, ans):
        c, e, n, m, seed, b = x
        what = f"{m} x {n} of {c['kind']} {brief(c)} base {b}"
        rec = {"case": c, "encodings": e, "n_tests": n, "method": m, "seed": seed}
        est = call(estimator, c, e, seed, b)
        if is_exc(est):
            chk.violation(f"{what}: {est}", rec)
            continue
        before = call(est.result) if seed % 2 else None
        kw = {"n_tests": [n, np.int64(n)][seed % 2], "method": m}
        res = call(est.statistical_test, **kw) if seed % 3 else call(est.statistical_test, kw["n_tests"], m)
        chk.traces += 1
        if is_exc(res):
            chk.violation(f"{what}: {res}", rec)
            continue
        nulls = [float(v) for v in np.asarray(res.test_values).ravel()]
        if np.asarray(res.test_values).shape != (n,) or res.n_tests != n or res.method != m:
            chk.violation(f"{what}: {np.asarray(res.test_values).shape} null values, n_tests={res.n_tests}, method={res.method}", rec)
            continue
        if not a["frag"]:
            bb = "e" if c["par"]["ap"] == "tsallis" and c["par"]["q"][0] != c["par"]["q"][1] else b
            chk.compare(f"{what} observed value", float(res.observed_value), a["g"], rec, base=bb,
                        rtol=2e-6 if c["par"]["ap"] == "nsb" else 1e-9)
        after = num(call(est.result))
        if is_exc(after) or after != res.observed_value and not (after != after and res.observed_value != res.observed_value) \
                or before is not None and not is_exc(before) and before != res.observed_value and before == before:
            chk.violation(f"{what}: observed value {res.observed_value}, result() {before} / {after}", rec)
        if not all(np.isfinite(nulls)) or not np.isfinite(res.observed_value):
            chk.count("non_finite_values")
            continue
        r, rs = ranks(float(res.observed_value), nulls)
        d = rng.choice([1, 2, 4, 10, 100, 1000])
        levels = [[rng.choice([95, 50, 90, 99, 1]), 1], [rng.randint(1, 100 * d - 1), d],
                  rng.choice([[999, 10], [9995, 100], [99999, 1000], [12345, 1000], [6827, 100], [9973, 100]])]
        rows.append((what, rec, res, float(res.observed_value), nulls,
                     {"r": r, "rs": rs, "qs": [[rng.randint(0, 100 * d), d] for _ in range(3)], "levels": levels,
                      "how": "linear" if rng.random() < 0.7 else rng.choice(["lower", "higher", "midpoint"])}))
    for w in rows:         # positions that rounding could push across a value are only asked linearly
        c, n = w[5], len(w[4])
        if c["how"] != "linear":
            c["qs"] = [q for q in c["qs"] if q[0] * (n - 1) % (100 * q[1])] or [[50, 1]]
            if any(q[0] * (n - 1) % (100 * q[1]) == 0 for q in c["qs"]):
                c["how"] = "linear"
    r = chk.tlc("MC_C18", data={"CASES": [w[5] for w in rows]})
    chk.notes["exhaustive"] = True
    got = {x["id"]: x["fig"] for x in r["lines"] if x["id"]}
    small = sorted((x for x in r["lines"] if not x["id"]), key=lambda x: json.dumps([x["r"], x["rs"]]))
    chk.notes["model_behaviours"] = len(small)
    for i, (what, rec, res, obs, nulls, _) in enumerate(rows):
        figures(chk, what, res, obs, nulls, got[i + 1], rec)
        if i % 60 == 7:
            chk.sample({"request": what, "null": nulls[:5], "figures": {k: got[i + 1][k] for k in ("p", "mean")}})
    # every order pattern: percentiles of a result holding values of that pattern
    from infomeasure.utils.data import StatisticalTestResult
    maker = getattr(getattr(im.estimators.mixins, "StatisticalTestingMixin", None), "_statistical_test_result", None)

    def pattern(x, i):
        vals = VALUES[i % len(VALUES)]
        obs, nulls = vals[x["r"]], [vals[k] for k in x["rs"]]
        rec = {"observed": obs, "null": nulls}
        n = len(nulls)
        res = call(maker, obs, [nulls, np.array(nulls), tuple(nulls)][i % 3], n, "bootstrap") if maker else \
            {"exc": "TypeError"}
        chk.traces += 1
        if is_exc(res):
            if maker and res["exc"] != "TypeError":
                chk.violation(f"figures of {rec}: {res}", rec)
            # no direct way to ask for the figures: percentiles of the container only
            res = StatisticalTestResult(p_value=0.0, t_score=0.0, test_values=np.array(nulls), observed_value=obs,
                                        null_mean=float(np.mean(nulls)), null_std=0.0, n_tests=n, method="bootstrap")
            f = {"perc": x["fig"]["perc"], "ci": x["fig"]["ci"]}
            args = [obs] + nulls
            for q, how, t in f["perc"]:
                chk.compare(f"percentile {q} {how} of {nulls}", num(call(res.percentile, q[0] / q[1], how)), t, rec, args=args)
            return
        fig = dict(x["fig"])
        fig["perc"] = [p for p in fig["perc"] if p[1] == "linear" or p[0][1] != 10 and p[0][0] * (n - 1) % (100 * p[0][1])]
        figures(chk, f"figures of observed {obs}, null {nulls}", res, obs, nulls, fig, rec)
    chk.each(small, pattern)
    refusals(chk)
    chk.assumptions = ["null values and observed value are taken from the reported result; order decided on the reported floats",
                       "a t-score is compared when the deviation exceeds rounding (1e-9 of the values)"]


def refusals(chk):
    """Numbers of tests, methods, levels and percentages that are refused, and neighbours that are not."""
    rng = chk.rng
    ns = [(0, True), (1, True), (-1, True), (-200, True), (2.0, True), (2.5, True), ("3", True), ([3], True),
          (2, False), (3, False), (np.int64(2), False), (np.int32(4), False), (np.float64(3), True), (None, False)]
    ms = [("permutation_test", False), ("bootstrap", False), ("Permutation_test", True), ("permutation", True), ("", True),
          ("jackknife", True), ("bootstrap ", True), (5, True), (None, False)]
    old = im.Config.get("statistical_test_n_tests")
    im.Config.set("statistical_test_n_tests", 4)
    try:
        for kind in KINDS:
            for ap in APS:
                if ap == "nsb":
                    continue
                for n, bad in ns if rng.random() < 0.5 else [rng.choice(ns), rng.choice(ns[:8])]:
                    m, mb = rng.choice(ms) if rng.random() < 0.6 else ms[0]
                    c, e = general(rng, kind, ap, 14)
                    if ap == "kernel":
                        c["par"]["ker"] = "box"
                    est = call(estimator, c, e, 3)
                    r = call(est.statistical_test, n, m)
                    rec = {"case": c, "n_tests": repr(n), "method": m}
                    what = f"statistical_test({n!r}, {m!r}) of {brief(c)}"
                    chk.traces += 1
                    if (bad or mb) and not is_exc(r):
                        chk.violation(f"{what} is computed", rec)
                    elif (bad or mb) and "ValueError" not in r["mro"]:
                        chk.violation(f"{what} is refused with {r['exc']} {r['msg']}", rec)
                    elif not (bad or mb) and is_exc(r):
                        chk.violation(f"{what}: {r}", rec)
                    elif not (bad or mb):
                        for l in (0, 100, -5, 100.5, 1000, 95, 0.5, 99.9):
                            q = call(r.confidence_interval, l)
                            if is_exc(q) == (0 < l < 100):
                                chk.violation(f"{what}: confidence_interval({l}) gives {q}", rec)
                        for l in (0, 100, -1, 101, 50):
                            q = call(r.percentile, l)
                            if is_exc(q) == (0 <= l <= 100):
                                chk.violation(f"{what}: percentile({l}) gives {q}", rec)
        # tests compare exactly two variables
        for ap in ("discrete", "miller_madow", "metric", "kernel", "bayes", "renyi"):
            for kind in ("mi", "cmi"):
                c, e = general(rng, kind, ap, 14)
                if ap == "kernel":
                    c["par"]["ker"] = "box"
                c["vars"].append(c["vars"][0])
                c["off"] = 0
                est = call(estimator, c, e[:1] * 4, 3)
                r = call(est.statistical_test, 3, "permutation_test")
                if not is_exc(r) or "UnsupportedOperation" not in r["mro"]:
                    chk.violation(f"test of three variables: {r}", {"case": c})
                chk.traces += 1
    finally:
        im.Config.set("statistical_test_n_tests", old)
