"""C11: conditional transfer entropy of every approach."""
from api import DISCRETE1, call, im, is_exc, np
from .common import dcase, exhaust, long, play, record_real, sweep


def run(chk):
    exhaust(chk, "MC_C11")
    n = 330 if chk.thorough else 110
    play(chk, [dcase(chk.rng, "cte", "discrete", 150, 3) for _ in range(n)], sample_every=100)
    play(chk, [dcase(chk.rng, "cte", DISCRETE1[i % len(DISCRETE1)], 50, 2) for i in range(n)], tol=2e-6)
    play(chk, sweep(chk, ("cte",), DISCRETE1 + ["ordinal", "kernel", "metric", "renyi", "tsallis"]), tol=2e-6)
    k = 40 if chk.thorough else 14
    play(chk, record_real(chk, [("cte", ap, k) for ap in ("ordinal", "kernel", "metric", "renyi", "tsallis")],
                          24, 2), sample_every=30)
    play(chk, long(chk, [("cte", "discrete", 4)] + [("cte", ap, 1) for ap in (
        "miller_madow", "grassberger", "shrink", "bayes", "ordinal", "ordinal", "kernel", "metric", "renyi", "tsallis")]),
         tol=2e-6)
    # a propagation time cannot be combined with a condition
    x, y, z = np.arange(14) % 3, np.arange(14) * 5 % 7, np.arange(14) * 3 % 5
    kws = [(a, {"alpha": 0.5} if a == "bayes" else {}) for a in DISCRETE1] + [
        ("ordinal", {"embedding_dim": 2}), ("kernel", {"bandwidth": 1.0, "kernel": "box"}),
        ("metric", {"k": 2}), ("renyi", {"alpha": 1.5}), ("tsallis", {"q": 1.5})]
    for ap, kw in kws:
        for name in ("prop_time", "offset"):
            for v in (1, 2, -1):
                for meas in ("cte", "te"):
                    r = call(lambda: im.estimator(x, y, cond=z, measure=meas, approach=ap, **{name: v}, **kw).result())
                    chk.traces += 1
                    if not is_exc(r):
                        chk.violation(f"{ap}: conditional transfer entropy with {name}={v} gives {r}",
                                      {"approach": ap, name: v})
    chk.assumptions = ["floating-point comparison at 1e-9 relative (bias-corrected approaches 2e-6)"]
