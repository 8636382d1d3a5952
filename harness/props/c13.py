"""C13: nearest-neighbour entropies."""
import json
import random
from api import call, im, is_exc, np, num
import gen
from replay import replay
from .common import copied, exhaust, fractional, noisy, play, record_real, stretched

GEO = ["float64", "mirror", "shift", "list", "int64", "fortran", "mshift", "readonly", "stride"]


def geo(case, i):
    rng = random.Random(i)
    return [rng.choice(GEO) for j in range(len(case["vars"]) + 1)]


def run(chk):
    def fix(case, i):
        p = case["par"]
        p["explicit"] = i % 3 == 0
        p["qint"] = i % 2 == 0
        if p["ap"] == "metric" and i % 4 == 1:
            p["ap"] = "kl"
        v = case["vars"][0]
        if len(v[0]) == 2 and i % 3 == 1:       # the same points as two variables
            case["vars"] = [[[r[0]] for r in v], [[r[1]] for r in v]]
    exhaust(chk, "MC_C13", encs_of=geo, fix=fix)
    k = 220 if chk.thorough else 75
    recs = record_real(chk, [("h", ap, k) for ap in ("metric", "renyi", "tsallis")], 60, 4)
    for c, e in recs:
        e[:] = [chk.rng.choice(GEO) for _ in e]
    k = 40 if chk.thorough else 12
    recs += record_real(chk, [(kd, ap, k) for kd in ("hx", "kld") for ap in ("metric", "renyi", "tsallis")], 40, 3)
    recs += copied(chk, recs, [200, 600, 1200, 3000, 9000]) + stretched(chk, recs) + fractional(chk, ["h"], 60 if chk.thorough else 20)
    # many points in one dimension and orders at the special values
    for q in ([1, 1], [2, 1], [3, 1], [4, 1], [1, 4], [9, 8], [1, 20], [10001, 10000], [999, 1000], [6, 1]):
        for ap in ("renyi", "tsallis"):
            for kk in (1, 2, 3):
                v = gen.points(chk.rng, 25, chk.rng.choice([1, 2]))
                recs.append(({"kind": "h", "par": {"ap": ap, "K": 0, "mloc": False, "k": kk, "q": q, "sc": [1, 2]},
                              "vars": [v]}, ["float64"] * 2))
    play(chk, recs, sample_every=90)
    play(chk, noisy(chk, ["h"], ["metric"], 60 if chk.thorough else 20), tol=1e-6)
    # scaling by c adds d log c (in the chosen base)
    for ap, kw in (("metric", {"noise_level": 0, "k": 3}), ("metric", {"noise_level": 0, "k": 2, "minkowski_p": 2}),
                   ("renyi", {"alpha": 1.5, "k": 3}), ("renyi", {"alpha": 1, "k": 2})):
        for d in (1, 2, 3):
            x = np.array(gen.points(chk.rng, 20, d, 60), float)
            for c in (0.5, 4.0, 1024.0, 2.0 ** -20):
                a = num(call(lambda: im.entropy(x, approach=ap, base=2, **kw)))
                b = num(call(lambda: im.entropy(x * c, approach=ap, base=2, **kw)))
                chk.traces += 1
                dup = len(np.unique(x, axis=0)) < len(x)
                if is_exc(a) or is_exc(b) or not dup and abs(b - a - d * np.log2(c)) > 1e-8 * max(1, abs(b)):
                    chk.violation(f"{ap} {kw}: scaling {d}-dimensional points by {c}: {a} -> {b}",
                                  {"points": x.tolist(), "scale": c, "kw": kw})
    chk.assumptions = ["data are small integers times a dyadic scale, so distances are exact or correctly ordered",
                       "the small default noise is switched off, or the points are in general position (and compared at 1e-6)",
                       "floating-point comparison at 1e-9 relative"]
