"""C15: kernel estimates."""
import gen
from .c13 import GEO, geo
from .common import copied, exhaust, long, play, record_real, stretched

BOX, GAUSS = {"ker": "box"}, {"ker": "gaussian"}


def run(chk):
    def fix(case, i):
        case["par"]["bwint"] = i % 2 == 0
        case["par"]["workers"] = [0, 0, 2, 0, 0, -1, 0, 1, 4][i % 9]
    exhaust(chk, "MC_C15", encs_of=geo, fix=fix, stride=1 if chk.thorough else 2)
    rng = chk.rng
    k = 150 if chk.thorough else 50
    recs = record_real(chk, [(kd, "kernel", k) for kd in ("h", "mi", "cmi", "te", "cte")], 40, 4)
    recs += record_real(chk, [(kd, "kernel", k // 3) for kd in ("hx", "kld", "jsd")], 30, 3)
    for c, e in recs:
        if not c["par"].get("norm"):
            e[:] = [rng.choice(GEO) for _ in e]
        if c["kind"] in ("hx", "kld", "jsd"):
            e[:] = [e[0]] * len(e)
        c["par"]["workers"] = rng.choice([0, 0, 1, 2, 3, -1])
    recs += stretched(chk, recs, share=0.3) + copied(chk, recs, [200, 600, 1200, 5000], 0.2)
    recs += long(chk, [("te", "kernel", 1), ("cte", "kernel", 1), ("cmi", "kernel", 1)])
    # worker processes: enough points that the work is really divided
    for kind in ("h", "mi"):
        for ker in ("box", "gaussian"):
            w = rng.choice([2, 3, -1])
            n = rng.choice([70, 101]) if ker == "gaussian" else rng.choice([150, 201])
            vs = gen.pvars(rng, n, [1, 1], 60)
            par = {"ap": "kernel", "K": 0, "mloc": False, "ker": ker, "bw": [3, 1] if ker == "box" else [1, 2],
                   "sc": [1, 1], "workers": w}
            recs.append(({"kind": kind, "par": par, "vars": vs, **({"off": 0} if kind == "mi" else {})},
                         ["float64"] * 3))
    for x2 in (-200, -45, -20, 30):
        c = {"kind": "h", "par": {"ap": "kernel", "K": 0, "mloc": False, "ker": "gaussian", "bw": [1, 1],
                                  "sc": [1, 1], "x2": x2}, "vars": [[[0, 0], [1, 3], [2, 1], [5, 2], [3, 3]]]}
        recs.append((c, ["float64"]))
    play(chk, recs, sample_every=90)
    # so many observations that Gaussian densities are evaluated in chunks by several processes:
    # a few distinct points, each repeated
    big = []
    for kind, ker, shape in (("h", "gaussian", "blocks"), ("mi", "gaussian", "tile"), ("hx", "gaussian", "blocks"),
                             ("h", "box", "tile")):
        n, rep = (4, 5100) if ker == "gaussian" else (4, 1500)
        vs = [gen.points(rng, n, 1, 40), [[x] for x in rng.sample(range(-40, 40), n)]]
        vs[0][0][0] = 77
        par = {"ap": "kernel", "K": 0, "mloc": False, "ker": ker, "bw": [1, 2] if ker == "gaussian" else [3, 1],
               "sc": [1, 1], "workers": 2 if kind != "mi" else 3, "rep": rep}
        vs = vs[:1] if kind == "h" else vs
        c = {"kind": kind, "par": par, "vars": vs, "_rep": [(rep, shape)] * len(vs)}
        if kind == "hx":
            c["_rep"] = [(rep - 900, shape), (rep, shape)]
        if kind == "mi":
            c["off"] = 0
        big.append((c, ["float64"] * 3))
    play(chk, big, locals_=False, procs=4)
    chk.assumptions = ["data are small integers times a dyadic scale, so box membership is decided exactly",
                       "Gaussian kernel: full-rank samples only; comparison at 1e-9 relative"]
