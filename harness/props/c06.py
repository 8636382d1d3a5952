"""C06: discrete mutual information is the total correlation (plug-in)."""
from .common import exhaust, play, record_discrete, scaled
import gen


def run(chk):
    exhaust(chk, "MC_C06")
    n = 500 if chk.thorough else 170
    play(chk, record_discrete(chk, "mi", ["discrete"], n, 300), sample_every=100)
    # copies, bijections and constants among larger variables
    recs = []
    for _ in range(40):
        k = gen.size(chk.rng, 2, 200)
        v = gen.var(chk.rng, k, chk.rng.choice([1, 1, 2]))
        ws = [v, [[x * 3 + 1 for x in r] for r in v] if chk.rng.random() < 0.7 else [[7]] * k]
        if chk.rng.random() < 0.4:
            ws.insert(chk.rng.randint(0, 2), [[2]] * k)
        recs.append(({"kind": "mi", "par": {"ap": "discrete", "K": 0, "mloc": False}, "vars": ws, "off": 0},
                     [gen.enc(chk.rng) for _ in ws]))
    # many observations: products of marginal counts leave 32- and 64-bit integers
    for m, n in ((2, 300), (4, 1200), (7, 900), (5, 1500)):
        vs = [[[0 if chk.rng.random() < 0.9 else 1] for _ in range(n)] for _ in range(m)]
        recs.append(({"kind": "mi", "par": {"ap": "discrete", "K": 0, "mloc": False}, "vars": vs, "off": 0},
                     ["int8"] * m))
    recs += [scaled(chk.rng, "mi", "discrete") for _ in range(40 if chk.thorough else 16)]
    play(chk, recs)
    chk.assumptions = ["floating-point answers are compared with the specification's exact terms at 1e-9 relative"]
