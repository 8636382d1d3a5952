"""C07: discrete conditional mutual information conditions on the whole context."""
from .common import exhaust, play, record_discrete, scaled
import gen

PAR = {"ap": "discrete", "K": 0, "mloc": False}


def run(chk):
    exhaust(chk, "MC_C07")
    n = 500 if chk.thorough else 170
    play(chk, record_discrete(chk, "cmi", ["discrete"], n, 300), sample_every=100)
    recs = []
    for _ in range(30):       # conditions that single out few observations, or none
        k = gen.size(chk.rng, 2, 200)
        vs = gen.nvars(chk.rng, k, 2, 2)
        z = chk.rng.choice([[[1]] * k, [[i] for i in range(k)], [[i // 2, i % 3] for i in range(k)],
                            gen.var(chk.rng, k, 3, 2), [list(r) for r in vs[0]]])
        recs.append(({"kind": "cmi", "par": PAR, "vars": vs, "cond": z}, [gen.enc(chk.rng) for _ in range(3)]))
    for m, n in ((2, 300), (4, 1200), (6, 900)):
        vs = [[[0 if chk.rng.random() < 0.9 else 1] for _ in range(n)] for _ in range(m + 1)]
        recs.append(({"kind": "cmi", "par": PAR, "vars": vs[:m], "cond": vs[m]}, ["int8"] * (m + 1)))
    recs += [scaled(chk.rng, "cmi", "discrete") for _ in range(40 if chk.thorough else 16)]
    play(chk, recs)
    chk.assumptions = ["floating-point answers are compared with the specification's exact terms at 1e-9 relative",
                       "for three or more variables the documented combination (one H(Z)) is the reference"]
