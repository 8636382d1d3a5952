"""C09: which observations discrete transfer entropy sees."""
from .common import dcase, exhaust, long, play


def run(chk):
    def spelling(case, i):
        case["via_offset"] = case["prop"] != 0 and i % 3 == 0
    exhaust(chk, "MC_C09", fix=spelling)
    n = 500 if chk.thorough else 170
    play(chk, [dcase(chk.rng, "te", "discrete", 200, 3) for _ in range(n)], sample_every=100)
    play(chk, long(chk, [("te", "discrete", 8)]), procs=4)
    chk.assumptions = ["floating-point answers are compared with the specification's exact terms at 1e-9 relative"]
