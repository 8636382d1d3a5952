"""C26: the effective value subtracts one shuffled-source evaluation."""
import math
from api import DISCRETE1, call, im, is_exc, num
from replay import brief
from .c19 import KNOWN, classes, close, drawn, judge, large, number, scripted, usable
from .stat import APS, estimator, general, small, windows


def run(chk):
    rng = chk.rng
    reqs, pres = [], []
    for kind in ("te", "cte"):
        for ap in APS:
            for _ in range(5 if chk.thorough else 2):
                for method in ("permutation_test", "bootstrap"):
                    if ap == "nsb" and (kind == "cte" or method == "bootstrap"):
                        continue
                    c, e = small(rng, kind, ap, 4 if ap != "nsb" else 3, 2)
                    reqs.append((c, e, method))
            for _ in range(12 if chk.thorough else 5):
                c, e = general(rng, kind, ap, 40)
                n = windows(c)
                if n < 2 or ap == "nsb" or kind == "cte" or ap == "kernel" and c["par"]["ker"] == "gaussian":
                    continue
                if rng.random() < 0.5 or ap in ("renyi", "tsallis"):
                    pres.append((c, e, "permutation_test", list(range(n, 0, -1))))
                else:
                    pres.append((c, e, "bootstrap", [rng.randint(1, n) for _ in range(n)]))
    pres += large(rng, ("te",), 16 if chk.thorough else 6)
    r = chk.tlc("MC_C19", data={"CASES": [{"case": c, "method": m} for c, _, m in reqs]
                                + [{"case": c, "method": m, "map": f} for c, _, m, f in pres]})
    ans = {x["id"]: x for x in r["lines"]}

    def one(x, i):
        c, e, method = x
        a = ans[i + 1]
        obs = number(a["observed"])[0]
        cls = [[obs - w, k, 2 * tol] for w, k, tol in classes(a["null"])]
        what = f"effective value ({method}) of {c['kind']} {brief(c)}"
        rec = {"case": c, "encodings": e, "method": method}
        if a["frag"]:
            return chk.count("fragile_skipped")
        if not usable(c, method, cls) or not math.isfinite(obs):
            return chk.count("undefined_null_values")
        vals = []
        count = 60 if c["par"]["ap"] not in ("nsb", "ansb") else 12
        for seed in range(count):
            if seed % 4 == 1:
                im.Config.set("statistical_test_method", method)
            est = call(estimator, c, e, seed)
            if is_exc(est):
                chk.violation(f"{what}: {est}", rec)
                return
            if seed % 3 == 0:
                call(est.result)
            if seed % 7 == 0:
                call(est.statistical_test, 2, "bootstrap")
            v = num(call(est.effective_val) if seed % 4 == 1 else call(est.effective_val, method) if seed % 2
                    else call(est.effective_val, method=method))
            if seed % 4 == 1:
                im.Config.reset()
            if is_exc(v):
                chk.violation(f"{what}: {v}", rec)
                return
            # computed once, whatever is asked in between
            call(est.statistical_test, 3, "permutation_test")
            again = [num(call(est.effective_val)), num(call(est.effective_val, method)),
                     num(call(est.effective_val, "bootstrap"))]
            if any(is_exc(w) or w != v for w in again):
                chk.violation(f"{what}: first {v}, then {again}", rec)
                return
            vals.append(v)
        chk.traces += 1
        judge(chk, what, c, vals, cls, 0.0, rec)
        if i % 30 == 3:
            chk.sample({"request": c, "method": method, "classes": [[w, k] for w, k, _ in cls], "values": vals[:6]})
        # the same seed gives the same effective value
        s = [num(call(call(estimator, c, e, 11).effective_val, method)) for _ in range(2)]
        if s[0] != s[1]:
            chk.violation(f"{what}: {s} with one seed", rec)
    chk.each(reqs, one)

    def two(x, i):
        c, e, method, f = x
        a = ans[len(reqs) + i + 1]
        if a["frag"]:
            return chk.count("fragile_skipped")
        want, tol = number(a["null"][0][0])
        obs, otol = number(a["observed"])
        rec = {"case": c, "encodings": e, "method": method, "rearrangement": f}
        what = f"effective value ({method}) of {c['kind']} {brief(c)}, prescribed rearrangement"
        g = scripted(f)
        est = call(estimator, c, e, g)
        if is_exc(est):
            chk.violation(f"{what}: {est}", rec)
            return
        g.log.clear()
        v = num(call(est.effective_val, method))
        ok = drawn(g.log, method, a["rows"])
        if ok is None:
            chk.violation(f"{what}: the rows are drawn by {g.log[0][0]}", rec)
            return
        if len(g.log) != 1 or not ok:
            return chk.count("unscripted")
        chk.traces += 1
        if not math.isfinite(want) or not math.isfinite(obs):
            return chk.count("undefined_null_values")
        if is_exc(v) or abs(v - (obs - want)) > 2 * (tol + otol) + 1e-9 * abs(obs - want):
            chk.violation(f"{what}: {v!r}, specification says {obs - want!r}", rec)
    chk.each(pres, two)
    for c, e, m in reqs[::9]:
        est = call(estimator, c, e, 1)
        for bad in ("jackknife", "", 7, "Bootstrap"):
            v = call(est.effective_val, bad)
            if not is_exc(v) or "ValueError" not in v["mro"]:
                chk.violation(f"effective_val({bad!r}) gives {v}", {"case": c})
    chk.assumptions = ["offered for (conditional) transfer entropy only", "all resamplings of four source windows, 60 seeds each"]
