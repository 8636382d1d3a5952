"""C12: ordinal measures see only order patterns."""
import json
import math
from api import np
import gen
from replay import replay
from .common import long, ordered, play, record_real

# strictly increasing transformations of tie-free data (small integers): same patterns
INC = ["exp", "cube", "gaps", "tiny", "huge", "float64", "int64", "float32", "list", "bigint",
       "stamps", "ustamps", "halves", "revstride"]


def unrank(d, code):
    """A window whose order pattern (argsort) has the given Lehmer code."""
    left, perm = list(range(d)), []
    for i in range(d):
        f = math.factorial(d - 1 - i)
        perm.append(left.pop(code // f))
        code %= f
    win = [0] * d
    for rank, pos in enumerate(perm):
        win[pos] = rank
    return [[x] for x in win]


def join(blocks):
    """The blocks one after the other, free of ties and with the order inside each block kept."""
    return [[x[0] * 16 + i] for i, b in enumerate(blocks) for x in b]


def run(chk):
    rng = chk.rng
    r = chk.tlc("MC_C12")
    chk.notes["exhaustive"] = True
    lines = ordered(chk, r["lines"])
    chk.notes["model_behaviours"] = len(lines)

    def one(x, i):
        case, ans = x["case"], x["ans"]
        if not chk.thorough and len(lines) > 6000 and i % 2 != chk.seed % 2:
            return
        case["par"]["ap"] = ["ordinal", "symbolic", "permutation"][i % 3]
        encs = [chk.rng.choice(INC) for _ in range(len(case["vars"]) + 1)]
        replay(chk, case, ans, encs, gen.BASES[i % len(gen.BASES)])
        if i % 1500 == 5:
            chk.sample({"case": case, "answer": ans["g"]})
    chk.each(lines, one)
    k = 90 if chk.thorough else 28
    recs = record_real(chk, [(kd, ap, k) for kd in ("h", "mi", "cmi", "te", "cte", "hx", "jsd", "kld")
                             for ap in ("ordinal", "permutation")], 40)
    for c, e in recs:
        e[:] = [rng.choice(INC + ["readonly", "stride"]) for _ in e]
    recs += long(chk, [(kd, "ordinal", 2) for kd in ("h", "mi", "cmi", "te", "cte")])
    # long embeddings: pattern numbers beyond 32 bits
    for d in (6, 8, 10, 13, 15, 18, 20):
        n = d + rng.randint(3, 20)
        vs = [gen.tie_free(rng, n), gen.tie_free(rng, n)]
        par = {"ap": "ordinal", "K": 0, "mloc": False, "d": d, "st": 1, "sc": [1, 1]}
        recs.append(({"kind": "h", "par": par, "vars": vs[:1]}, ["float64"] * 2))
        recs.append(({"kind": "h", "par": par, "vars": [[[x] for x in range(n)]]}, ["float64"] * 2))
        recs.append(({"kind": "mi", "par": par, "vars": vs, "off": 0}, ["float64"] * 3))
        win = {"lx": 1, "ly": 1, "step": 1, "prop": 0}
        recs.append(({"kind": "te", "par": par, "vars": vs, **win}, ["float64"] * 3))
        recs.append(({"kind": "cte", "par": par, "vars": vs, "cond": gen.tie_free(rng, n), "lz": 1, **win}, ["float64"] * 3))
        for kind in ("hx", "kld", "jsd"):
            w = [[q[0]] for q in vs[0]]
            w[-1], w[0] = w[0], w[-1]
            recs.append(({"kind": kind, "par": par, "vars": [vs[0], vs[0][:-1] + w[-1:]]}, ["float64"] * 3))
        # two copies of a block: some windows repeat
        v = gen.tie_free(rng, n)
        recs.append(({"kind": "h", "par": par, "vars": [v + [[q[0] + 500] for q in v]]}, ["float64"] * 2))
    # pattern numbers that agree in their low 8, 16, 32 or 48 bits
    for d, bits in ((6, 8), (7, 8), (9, 16), (10, 16), (13, 32), (16, 32), (18, 48)):
        a = rng.randrange(math.factorial(d) - 2**bits)
        v = join([unrank(d, a), unrank(d, a + 2**bits)])
        w = [[x[0]] for x in v]
        par = {"ap": "ordinal", "K": 0, "mloc": False, "d": d, "st": 1, "sc": [1, 1]}
        recs.append(({"kind": "mi", "par": par, "vars": [v, w], "off": 0}, ["float64"] * 3))
        par = dict(par)
        recs.append(({"kind": "h", "par": par, "vars": [v, [[x[0] * 2] for x in w]]}, ["float64"] * 2))
        blocks = [unrank(d, a + i * 2**bits) for i in (0, 1)]
        src = join([blocks[rng.randint(0, 1)] for _ in range(5)])
        dst = [[-1]] + src[:-1]
        cnd = join([blocks[rng.randint(0, 1)] for _ in range(5)])
        win = {"lx": 1, "ly": 1, "step": 1, "prop": 0}
        recs.append(({"kind": "te", "par": par, "vars": [src, dst], **win}, ["float64"] * 3))
        recs.append(({"kind": "cte", "par": par, "vars": [src, dst], "cond": cnd, "lz": 1, **win}, ["float64"] * 3))
        for kind in ("hx", "jsd", "kld"):
            recs.append(({"kind": kind, "par": par, "vars": [src, cnd]}, ["float64"] * 3))
    play(chk, recs, sample_every=100)
    chk.assumptions = ["floating-point comparison at 1e-9 relative",
                       "windows with equal values are decided only with stable=True (documented as order of appearance)"]
