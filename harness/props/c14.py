"""C14: KSG informations."""
from .c13 import GEO, geo
from .common import copied, exhaust, fractional, long, noisy, play, record_real, stretched


def run(chk):
    def fix(case, i):
        p = case["par"]
        p["explicit"] = i % 3 == 0
        if i % 4 == 1:
            p["ap"] = "ksg"
    exhaust(chk, "MC_C14", encs_of=geo, fix=fix)
    k = 220 if chk.thorough else 70
    recs = record_real(chk, [("mi", "metric", k), ("mi", "ksg", k), ("cmi", "ksg", k), ("te", "metric", k),
                             ("cte", "metric", k)], 40, 3)
    for c, e in recs:
        if not c["par"].get("norm"):
            e[:] = [chk.rng.choice(GEO) for _ in e]
    recs += copied(chk, recs, [200, 600, 1200, 3000, 6000]) + stretched(chk, recs, share=0.3) + fractional(chk, ["mi", "cmi"], 60 if chk.thorough else 15)
    recs += long(chk, [("te", "metric", 2), ("cte", "metric", 1), ("cmi", "metric", 1)])
    play(chk, recs, sample_every=90)
    play(chk, noisy(chk, ["mi", "cmi", "te", "cte"], ["metric"], 40 if chk.thorough else 10), tol=1e-6)
    chk.assumptions = ["data are small integers times a dyadic scale, so distances are exact or correctly ordered",
                       "the small default noise is switched off, or the points are in general position (and compared at 1e-6)",
                       "for norms with inexact radii, cases where a marginal distance ties with the joint radius are skipped",
                       "floating-point comparison at 1e-9 relative"]
