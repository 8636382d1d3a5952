"""C02: every bias-corrected discrete entropy against its documented formula."""
import json
import gen
from api import DISCRETE1, ENCODINGS, call, im, is_exc, num, observe, par_kwargs
from replay import inputs_of, replay
from .common import ordered, play, scaled
import terms

TOL = {"nsb": 2e-6}


def close(got, term):
    v, err = terms.evaluate(term)
    return abs(got - v) <= 2e-6 * abs(v) + 32 * err


def from_counts(chk, case, ans, counts, base):
    """The same estimate from the counts alone (not offered by Grassberger, which needs the sample)."""
    ap = case["par"]["ap"]
    cls = im.get_estimator_class(measure="entropy", approach=ap)
    uniq, cnt = gen.tally(chk.rng, counts)
    e = call(cls.from_counts, uniq, cnt, base=base, **par_kwargs("h", case["par"]))
    g = e if is_exc(e) else num(call(e.global_val))
    chk.compare(f"{ap} {case['par']} from counts {cnt!r} of {uniq!r} base {base}", g, ans["g"],
                {"case": case, "counts": list(map(int, cnt)), "type": str(getattr(cnt, "dtype", "list"))},
                base=base, rtol=TOL.get(ap, 1e-9))
    chk.traces += 1


def run(chk):
    rng = chk.rng
    r = chk.tlc("MC_C02")
    chk.notes["exhaustive"] = True
    lines = ordered(chk, r["lines"])
    for i, x in enumerate(lines):
        case, ans = x["case"], x["ans"]
        ap = case["par"]["ap"]
        if ap == "nsb" and not chk.thorough and i % 3:
            continue
        base = gen.BASES[i % len(gen.BASES)]
        c = dict(case)
        if i % 2:   # the order of the observations must not matter: shuffle, locals follow
            perm = list(range(len(c["vars"][0])))
            rng.shuffle(perm)
            c["vars"] = [[c["vars"][0][p] for p in perm]]
            if ans["has"]:
                ans = dict(ans, l=[ans["l"][p] for p in perm])
        replay(chk, c, ans, [chk.rng.choice(ENCODINGS)], base, tol=TOL.get(ap, 1e-9))
        if i % 4 == 0 and ap != "grassberger":
            from_counts(chk, case, ans, x["counts"], base)
        if i % 1200 == 7:
            chk.sample({"counts": x["counts"], "par": case["par"], "answer": ans["g"]})
    cases, meta = [], []
    for j in range(1200 if chk.thorough else 420):
        ap = DISCRETE1[1:][j % (len(DISCRETE1) - 1)]
        if ap == "nsb" and j % 22 and not chk.thorough:
            ap = rng.choice(["chao_shen", "chao_wang_jost", "shrink", "bayes"])
        par = gen.dpar(rng, ap)
        n = gen.size(rng, 1, 200)
        if ap in ("nsb", "zhang"):
            n = min(n, 60)
        form = rng.choice([1, 1, 1, 2, 3])
        v = gen.var(rng, n, form)
        cases.append({"kind": "h", "par": par, "vars": [v]})
        meta.append((gen.enc(rng), gen.base(rng)))
    for case, ans, (enc, base) in zip(cases, chk.expect(cases), meta):
        replay(chk, case, ans, [enc], base, tol=TOL.get(case["par"]["ap"], 1e-9))
        if rng.random() < 0.3 and case["par"]["ap"] != "grassberger" and len(case["vars"][0][0]) == 1:
            xs = [r[0] for r in case["vars"][0]]
            from_counts(chk, case, ans, [xs.count(u) for u in sorted(set(xs))], base)
    # counts that fill a narrow integer type
    big, at = [], []
    for j in range(60 if chk.thorough else 26):
        ap = [a for a in DISCRETE1 if a not in ("grassberger", "nsb")][j % (len(DISCRETE1) - 2)]
        top = rng.choice([127, 130, 255])
        cnt = [rng.randint(top - 40, top) for _ in range(rng.randint(1, 2 if ap == "zhang" else 4))] \
            + [rng.choice([1, 1, 2, 3]) for _ in range(rng.randint(0, 4))]
        big.append({"kind": "h", "par": gen.dpar(rng, ap), "vars": [[[i] for i, k in enumerate(cnt) for _ in range(k)]]})
        at.append(cnt)
    for case, ans, cnt in zip(big, chk.expect(big), at):
        for _ in range(3):
            from_counts(chk, case, ans, cnt, gen.base(rng))
    # counts of samples too large to hold
    vast = []
    for j in range(48 if chk.thorough else 24):
        ap = ["discrete", "miller_madow", "chao_shen", "shrink", "bayes", "ansb"][j % 6]
        c, _ = scaled(rng, "h", ap, total=rng.choice([10**5, 3 * 10**6, 10**8]))
        if len(c["vars"]) == 1 and len(c["vars"][0][0]) == 1:
            vast.append(c)
    for case, ans in zip(vast, chk.expect(vast)):
        xs = [r[0] for r in case["vars"][0]]
        w = case["par"].get("w") or [case["par"]["rep"]] * len(xs)
        from_counts(chk, case, ans, [sum(k for k, x in zip(w, xs) if x == u) for u in sorted(set(xs))], gen.base(rng))
    # many observations: every count multiplied
    play(chk, [scaled(rng, "h", ap, rare=j % 3 > 0) for ap in DISCRETE1[1:] if ap != "nsb"
               for j in range(18 if chk.thorough else 6)],
         procs=4)
    # known finding F-NSB: the documented integral against the implemented one
    doc = {"kind": "h", "par": {"ap": "nsb", "K": 0, "doc": True}, "vars": [[[0], [0], [0], [1], [1], [2]]]}
    imp = dict(doc, par={"ap": "nsb", "K": 0})
    adoc, aimp = chk.expect([doc, imp])
    got = observe(imp, inputs_of(imp, ["int64"]))["g"]
    key = "nsb-formula"
    if not is_exc(got) and not close(got, aimp["g"]):
        key = None      # neither the documented nor the recorded value
    chk.compare("nsb of counts [3, 2, 1]: documented integral", got, adoc["g"], {"case": imp}, rtol=2e-6, key=key)
    chk.assumptions = [
        "NSB is decided against the formula the code documents as implemented (known finding F-NSB)",
        "comparison at 1e-9 relative (NSB, a numerical integral: 2e-6)"]
