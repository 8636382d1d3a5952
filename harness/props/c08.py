"""C08: a time offset pairs x[t] with y[t+offset]."""
from api import call, im, is_exc, np
from .common import dcase, exhaust, long, play, record_real
from api import DISCRETE1
import gen


def run(chk):
    rng = chk.rng

    def explicit(case, i):
        case["explicit_off"] = i % 2 == 0       # offset=0 given or left out
    exhaust(chk, "MC_C08", fix=explicit)
    recs = []
    for i in range(330 if chk.thorough else 132):
        c, e = dcase(rng, "mi", DISCRETE1[i % len(DISCRETE1)], 60, 2, m=2)
        n = len(c["vars"][0])
        if c["par"]["ap"] == "ansb":
            n = min(n, n)
        c["off"] = rng.choice([k for k in range(1 - n, n) if k] or [0]) if rng.random() < 0.4 else \
            rng.choice([k for k in (1, -1, 2, -2, 3, -5) if abs(k) < n] or [0])
        recs.append((c, e))
    play(chk, recs, tol=2e-6)
    k = 40 if chk.thorough else 16
    recs = []
    for ap in ("ordinal", "kernel", "metric", "renyi", "tsallis"):
        got = 0
        while got < k:
            c, e = gen.rcase(rng, "mi", ap, 24, 2)
            if c["off"] == 0 and len(c["vars"]) == 2 and rng.random() < 0.8:
                continue
            recs.append((c, e))
            got += 1
    recs += long(chk, [("mi", ap, 1) for ap in ("discrete", "miller_madow", "grassberger", "shrink", "chao_shen",
                                                "ordinal", "ordinal", "kernel", "metric", "renyi", "tsallis")])
    play(chk, recs, sample_every=30)
    # offsets that leave no pair, or more than two variables, are refused by every approach
    x = np.arange(12) % 3
    y = np.array([3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8])
    z = np.array([2, 7, 1, 8, 2, 8, 1, 8, 2, 8, 4, 5])
    kws = [(a, {"alpha": 0.5} if a == "bayes" else {}) for a in DISCRETE1] + [
        ("ordinal", {"embedding_dim": 2}), ("kernel", {"bandwidth": 1.0, "kernel": "box"}),
        ("metric", {"k": 2}), ("renyi", {"alpha": 1.5}), ("tsallis", {"q": 1.5})]
    for ap, kw in kws:
        for args, off in (((x, y), 12), ((x, y), -12), ((x, y), 13), ((x, y), -40), ((x, y, z), 1), ((x, y, z), -2)):
            r = call(lambda: im.estimator(*args, measure="mi", approach=ap, offset=off, **kw).result())
            chk.traces += 1
            if not is_exc(r):
                chk.violation(f"{ap}: offset {off} on {len(args)} variables of length 12 gives {r}",
                              {"approach": ap, "offset": off, "variables": len(args)})
    chk.assumptions = ["floating-point comparison at 1e-9 relative (bias-corrected approaches 2e-6)"]
