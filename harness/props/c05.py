"""C05: Jensen-Shannon divergence."""
import json
from api import call, im, is_exc, np
from replay import inputs_of, replay
import gen
from .common import dcase, ordered, play, record_real, scaled, shared_encs


def refused(chk, case, encs):
    v = inputs_of(dict(case, par=dict(case["par"], ap="discrete")), encs)["vars"]
    r = call(im.jsd, *v, approach=case["par"]["ap"])
    if not is_exc(r):
        chk.violation(f"jsd {case['par']['ap']}: not supported, but {r} returned", {"case": case})
    chk.traces += 1


def run(chk):
    rng = chk.rng
    r = chk.tlc("MC_C05")
    chk.notes["exhaustive"] = True
    lines = ordered(chk, r["lines"])
    chk.notes["model_behaviours"] = len(lines)

    def one(x, i):
        rng = chk.rng
        case, ans = x["case"], x["ans"]
        encs = shared_encs(rng, len(case["vars"]))
        for v in case["vars"]:
            rng.shuffle(v)
        if x["refused"]:
            refused(chk, case, ["int64", "list"] * 2)
        elif chk.thorough or i % 2 == chk.seed % 2:
            replay(chk, case, ans, encs, gen.BASES[i % len(gen.BASES)])
        if i % 3000 == 5:
            chk.sample({"case": case, "answer": ans["g"]})
    chk.each(lines, one)
    n = 100 if chk.thorough else 40
    recs = [dcase(rng, "jsd", ap, 200, 3) for ap in ("discrete", "bayes", "shrink", "js") for _ in range(n)]
    # identical distributions from different samples: shuffled copies, repeated copies
    for _ in range(n):
        c, e = dcase(rng, "jsd", rng.choice(["discrete", "discrete", "shrink"]), 60, 2)
        for k in range(1, len(c["vars"])):
            c["vars"][k] = [list(r) for r in c["vars"][0]] * (rng.choice([1, 2, 3]) if c["par"]["ap"] == "discrete" else 1)
            rng.shuffle(c["vars"][k])
        recs.append((c, e))
    recs += [scaled(rng, "jsd", ap) for ap in ("discrete", "bayes", "shrink") for _ in range(4)]
    play(chk, recs)
    k = 60 if chk.thorough else 25
    play(chk, record_real(chk, [("jsd", ap, k) for ap in ("kernel", "ordinal", "symbolic")], 24, 3), sample_every=30)
    chk.assumptions = ["floating-point comparison at 1e-9 relative, 1e-10 absolute",
                       "discrete outcomes are compared by value across the samples"]
