"""C04: cross-entropy and Kullback-Leibler divergence."""
import json
from api import LONG, call, im, is_exc, num, par_kwargs
from replay import brief, inputs_of, replay
import gen
from .common import dcase, ordered, play, record_real, scaled, shared_encs


def refused(chk, case, encs):
    """Approaches without cross-entropy say so, by factory, shortcut and divergence."""
    v = inputs_of(case, encs)["vars"]
    ap = case["par"]["ap"]
    kw = {}
    for name, fn in (("estimator", lambda: im.estimator(*v, measure="cross_entropy", approach=ap, **kw).result()),
                     ("hx", lambda: im.hx(*v, approach=ap, **kw)), ("kld", lambda: im.kld(*v, approach=ap, **kw))):
        if case["kind"] == "kld" and name != "kld" or case["kind"] == "hx" and name == "kld":
            continue
        r = call(fn)
        if not is_exc(r):
            chk.violation(f"{name} {ap}: cross-entropy is not defined, but {r} returned", {"case": case})
        elif "TheoreticalInconsistencyError" not in r["mro"]:
            chk.violation(f"{name} {ap}: refused with {r['exc']} {r['msg']} instead of the theoretical-"
                          "inconsistency error", {"case": case})
        chk.traces += 1


def run(chk):
    rng = chk.rng
    r = chk.tlc("MC_C04")
    chk.notes["exhaustive"] = True
    lines = ordered(chk, r["lines"])
    chk.notes["model_behaviours"] = len(lines)

    def one(x, i):
        rng = chk.rng
        case, ans = x["case"], x["ans"]
        encs = shared_encs(rng, 2)
        for v in case["vars"]:
            rng.shuffle(v)
        if x["refused"]:
            refused(chk, case, encs)
        elif chk.thorough or i % 2 == chk.seed % 2:
            replay(chk, case, ans, encs, gen.BASES[i % len(gen.BASES)])
        if i % 1000 == 5:
            chk.sample({"case": case, "answer": ans["g"]})
    chk.each(lines, one)
    n = 60 if chk.thorough else 22
    play(chk, [dcase(rng, k, ap, 200, 3) for k in ("hx", "kld") for ap in ("discrete", "miller_madow", "bayes")
               for _ in range(n)])
    play(chk, [scaled(rng, k, ap) for k in ("hx", "kld") for ap in ("discrete", "miller_madow", "bayes")
               for _ in range(12 if chk.thorough else 4)], procs=4)
    k = 40 if chk.thorough else 14
    play(chk, record_real(chk, [(kd, ap, k) for kd in ("hx", "kld")
                                for ap in ("metric", "renyi", "tsallis", "kernel", "ordinal")], 24, 3),
         sample_every=60)
    chk.assumptions = ["floating-point comparison at 1e-9 relative",
                       "discrete outcomes are compared by value across the two samples"]
