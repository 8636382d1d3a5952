"""C23: local values average to the global value and line up with the observations."""
import json
import math
import gen
from api import DISCRETE1, ENCODINGS, call, im, is_exc, make, np, num
from replay import REFUSE_LOCAL, brief, inputs_of, is_real, replay
from .common import dcase, ordered

ALL = DISCRETE1 + ["metric", "renyi", "tsallis", "kernel", "ordinal"]
KINDS = ("h", "mi", "cmi", "te", "cte")


def same(a, b):
    if not math.isfinite(a) or not math.isfinite(b):
        return a == b or (a != a and b != b)
    return abs(a - b) <= 1e-10 + 1e-9 * max(abs(a), abs(b))


def sizes(case, rep=1):
    """What the specification needs to count the observations of a request."""
    p, k = case["par"], case["kind"]
    ordinal = "d" in p
    step = case.get("step", 1)
    return {"kind": k, "ap": p["ap"], "n": len(case["vars"][0]) * rep, "d": p["d"] if ordinal else 1,
            "st": (step if k in ("te", "cte") else p["st"]) if ordinal else 1, "off": case.get("off", 0),
            "prop": case.get("prop", 0), "m": max(case.get("lx", 0), case.get("ly", 0), case.get("lz", 0)), "s": step}


def ask(est, hist):
    """One session: the queries in order on one object."""
    out = []
    for q in hist:
        r = call({"global": est.global_val, "local": est.local_vals, "result": est.result}[q])
        if not is_exc(r):
            r = np.array(r, dtype=float) if q == "local" else num(r)
        out.append(r)
    return out


def check(chk, what, rec, build, count, offered, averages, hist, base_e=None):
    """One estimator, one session; returns the local values."""
    est = call(build)
    if is_exc(est):
        chk.violation(f"{what}: {est}", rec)
        return None
    got = ask(est, hist)
    chk.traces += 1
    glob, loc = None, None
    for q, r in zip(hist, got):
        if q == "local":
            if not offered:
                if not is_exc(r):
                    chk.violation(f"{what}: local values where none are defined", rec)
                    return None
                if not any(n in REFUSE_LOCAL for n in r["mro"]):
                    chk.violation(f"{what}: local values are refused with {r['exc']} {r['msg']}", rec)
                    return None
                continue
            if is_exc(r):
                chk.violation(f"{what}, session {hist}: local values {r}", rec)
                return None
            if r.shape != (count,):
                chk.violation(f"{what}, session {hist}: local values of shape {r.shape} for {count} observations", rec)
                return None
            if loc is not None and not np.array_equal(loc, r, equal_nan=True):
                chk.violation(f"{what}, session {hist}: the local values changed", rec)
                return None
            loc = r
        else:
            if is_exc(r):
                chk.violation(f"{what}, session {hist}: {q} {r}", rec)
                return None
            if glob is not None and not (glob == r or (glob != glob and r != r)):
                chk.violation(f"{what}, session {hist}: the value changed from {glob} to {r}", rec)
                return None
            glob = r
    if loc is not None and glob is not None and averages and not same(float(np.mean(loc)), glob):
        chk.violation(f"{what}, session {hist}: local values average to {np.mean(loc)!r}, the value is {glob!r}", rec)
        return None
    return loc


def one_case(rng, kind, ap, nmax):
    if ap in DISCRETE1:
        n = min(nmax, 40) if ap == "nsb" else nmax
        c, e = dcase(rng, "mi" if kind == "h" else kind, ap, n, 3)
        if kind == "h":
            c["kind"] = "h"
            c.pop("off")
        return c, e
    return gen.rcase(rng, kind, ap, nmax, 3)


def sized(rng, r, i):
    """A request of the given sizes."""
    kind, n = r["kind"], r["n"]
    if r["d"] > 1 or r["st"] > 1 and kind not in ("te", "cte"):
        par = {"ap": "ordinal", "K": 0, "mloc": False, "d": r["d"], "st": r["st"], "sc": [1, 1]}
    else:
        par = [{"ap": "discrete", "K": 0, "mloc": False}, {"ap": "miller_madow", "K": 0, "mloc": False},
               {"ap": "kernel", "K": 0, "mloc": False, "ker": "box", "bw": [2, 1], "sc": [1, 1]},
               {"ap": "metric", "K": 0, "mloc": False, "k": 1, "ksg": 1 + i % 2, "p": 0, "sc": [1, 1]},
               {"ap": "ordinal", "K": 0, "mloc": False, "d": 1, "st": r["s"], "sc": [1, 1]},
               {"ap": "grassberger", "K": 0, "mloc": False}, {"ap": "zhang", "K": 0, "mloc": False},
               {"ap": "shrink", "K": 0, "mloc": True}][i % 8]
    c = {"kind": kind, "par": par}
    vs = [gen.tie_free(rng, n) for _ in range(3)] if par["ap"] in ("ordinal", "kernel", "metric") else \
        [gen.var(rng, n, 1, 2) for _ in range(3)]
    c["vars"] = vs[:1 if kind == "h" else 2]
    if kind in ("cmi", "cte"):
        c["cond"] = vs[2]
    if kind == "mi":
        c["off"] = r["off"]
    if kind in ("te", "cte"):
        hs = [r["m"], rng.randint(1, r["m"])]
        rng.shuffle(hs)
        c.update(lx=hs[0], ly=hs[1], step=r["s"], prop=r["prop"])
        if kind == "cte":
            c["lz"] = rng.randint(1, r["m"])
    return c, ["float64"] * 3


def run(chk):
    rng = chk.rng
    big = []
    for kind in KINDS:
        for ap in ALL:
            for _ in range(16 if chk.thorough else 5):
                big.append(one_case(rng, kind, ap, 300 if ap in DISCRETE1 else 120))
    r = chk.tlc("MC_C23", data={"CASES": [sizes(c) for c, _ in big]})
    chk.notes["exhaustive"] = True
    lines = {}
    for x in r["lines"]:
        lines.setdefault(x["mode"], []).append(x)
    hists = sorted((x["hist"] for x in lines["session"]), key=json.dumps)
    chk.notes["model_behaviours"] = {k: len(v) for k, v in lines.items()}

    # 1. small plug-in requests: every local value is the specification's
    def plug(x, i):
        if not chk.thorough and i % 3 != chk.seed % 3:
            return
        case, ans = x["case"], x["ans"]
        encs = [chk.rng.choice(ENCODINGS) for _ in range(3)]
        replay(chk, case, ans, encs, gen.BASES[i % len(gen.BASES)])
        if i % 900 == 3:
            chk.sample({"case": case, "local": ans["l"]})
    chk.each(ordered(chk, lines["plug"]), plug)

    # 2. every size
    def size(x, i):
        q, count = x["req"], x["count"]
        case, encs = sized(rng, q, i)
        if count < 1 + case["par"].get("k", 0):
            return
        hist = hists[i % len(hists)] + ["local", "result"]
        check(chk, f"{case['kind']} {brief(case)}", {"case": case, "encodings": encs, "session": hist},
              lambda: make(case, inputs_of(case, encs)), count, True, case["kind"] != "h" or case["par"]["ap"] != "shrink",
              hist)
    chk.each(ordered(chk, lines["size"]), size)

    # 3. recorded requests of every kind, approach and setting
    ans = {x["id"]: x for x in lines["recorded"]}

    def recorded(x, i):
        case, encs = x
        a = ans[i + 1]
        what = f"{case['kind']} {brief(case)}"
        ins = inputs_of(case, encs)
        base = gen.base(chk.rng)
        for j in range(3):
            hist = hists[(7 * i + j) % len(hists)] + ["local"] * (j % 2) + ["global"]
            rec = {"case": case, "encodings": encs, "base": base, "session": hist}
            loc = check(chk, what, rec, lambda: make(case, ins, base), a["count"], a["offered"], a["averages"], hist)
        # added noise: still the local values of the value
        if case["par"]["ap"] in ("metric", "ksg"):
            hist = [["local", "result"], ["result", "local"]][i % 2]
            check(chk, what + " with noise", dict(rec, session=hist, noise=0.25),
                  lambda: make(case, ins, base, {"noise_level": 0.25}), a["count"], a["offered"], True, hist)
        if a["offered"]:
            follow(chk, what, rec, case, encs, base, a)
        if i % 60 == 3:
            chk.sample({"request": brief(case), "count": a["count"], "offered": a["offered"]})
    chk.each(big, recorded)
    cross(chk)
    chk.assumptions = ["the local values of the shrinkage entropy use the shrunk probabilities (documented); their mean is "
                       "not compared", "floating-point comparison at 1e-9 relative"]


def follow(chk, what, rec, case, encs, base, a):
    """Rearranging the observations rearranges the local values."""
    kind, par = case["kind"], case["par"]
    if kind in ("te", "cte") or "d" in par or case.get("off") or par.get("ksg") and par["p"] > 1:
        return
    n = len(case["vars"][0])
    order = list(range(n))
    chk.rng.shuffle(order)
    turned = dict(case, vars=[[v[t] for t in order] for v in case["vars"]])
    if "cond" in case:
        turned["cond"] = [case["cond"][t] for t in order]
    one = call(lambda: make(case, inputs_of(case, encs), base).local_vals())
    two = call(lambda: make(turned, inputs_of(turned, encs), base).local_vals())
    chk.traces += 1
    if is_exc(one) or is_exc(two):
        chk.violation(f"{what}: local values {one if is_exc(one) else two} in another order", rec)
        return
    one, two = np.asarray(one, dtype=float), np.asarray(two, dtype=float)
    if not np.allclose(one[order], two, rtol=1e-8, atol=1e-9, equal_nan=True):
        chk.violation(f"{what}: local values do not follow their observations", dict(rec, order=order))


def cross(chk):
    """Cross-entropies have no local values."""
    x, y = np.array([0, 1, 1, 2, 0, 1]), np.array([0, 0, 1, 2, 2, 1])
    for ap, kw in (("discrete", {}), ("miller_madow", {}), ("bayes", {"alpha": 1.0}), ("metric", {"k": 2}),
                   ("renyi", {"alpha": 2}), ("tsallis", {"q": 2}), ("kernel", {"bandwidth": 1.0, "kernel": "box"}),
                   ("ordinal", {"embedding_dim": 2, "stable": True})):
        p, q = (x, y) if ap in DISCRETE1 else (x + np.arange(6) * 0.1, y + np.arange(6) * 0.07)
        e = call(im.estimator, p, q, measure="cross_entropy", approach=ap, **kw)
        if is_exc(e):
            chk.violation(f"cross-entropy {ap}: {e}", {"approach": ap})
            continue
        for hist in (["local"], ["result", "local"], ["local", "result"]):
            check(chk, f"cross-entropy {ap}", {"approach": ap}, lambda: im.estimator(
                p, q, measure="cross_entropy", approach=ap, **kw), 0, False, False, hist)
