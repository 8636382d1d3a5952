"""C10: every approach combines its own entropies on the specified windows."""
from api import DISCRETE1
from .common import dcase, copied, exhaust, long, noisy, play, record_real, sweep

REAL = ("ordinal", "kernel", "metric", "renyi", "tsallis")


def run(chk):
    exhaust(chk, "MC_C10", tol=2e-6)
    rng = chk.rng
    n = 40 if chk.thorough else 13
    for kind in ("te", "mi", "cmi", "cte"):
        play(chk, [dcase(rng, kind, ap, 50, 2) for ap in DISCRETE1[1:]
                   for _ in range(2 * n if kind == "te" else n // 2)], tol=2e-6, sample_every=100)
    play(chk, sweep(chk, ("mi", "cmi", "te"), DISCRETE1[1:] + list(REAL)), tol=2e-6)
    k = 60 if chk.thorough else 18
    play(chk, record_real(chk, [("te", ap, k) for ap in REAL], 26, 2), sample_every=40)
    recs = long(chk, [("te", ap, 1) for ap in DISCRETE1[1:] + list(REAL)])
    recs += copied(chk, record_real(chk, [(kd, ap, 6) for kd in ("mi", "cmi") for ap in REAL[1:]], 20, 2),
                   [300, 1200, 4000], 1)
    recs += noisy(chk, ["mi", "cmi", "te", "cte"], ["renyi", "tsallis"], 15 if chk.thorough else 4)
    play(chk, recs, tol=2e-6)
    chk.assumptions = ["floating-point comparison at 1e-9 relative (bias-corrected approaches 2e-6)",
                       "shrinkage: the global value is the mean of the local values, as implemented"]
