"""C03: discrete results depend only on how often outcomes co-occur."""
import json
from api import DISCRETE1, ENCODINGS, is_exc, encode, observe
import gen
from replay import brief, check_locals, replay
from .common import MIXABLE, dcase, ordered

NARROW = [("uint8", 0, 255), ("int8", -128, 127), ("uint16", 0, 65535), ("int16", -32768, 32767), ("uint8", 0, 255),
          ("int8", -128, 127)]
TIMED = ("te", "cte")


def follow(ans, order):
    return dict(ans, l=[ans["l"][i] for i in order]) if ans["has"] else ans


def run(chk):
    rng = chk.rng
    r = chk.tlc("MC_C03")
    chk.notes["exhaustive"] = True
    lines = ordered(chk, r["lines"])
    chk.notes["model_behaviours"] = len(lines)
    def one(x, i):
        if not chk.thorough and i % 4 != chk.seed % 4:
            return
        case, ans = x["case"], follow(x["ans"], [p - 1 for p in x["order"]])
        encs = [chk.rng.choice(ENCODINGS) for _ in range(len(case["vars"]) + 1)]
        replay(chk, case, ans, encs, gen.BASES[i % len(gen.BASES)])
        if i % 1500 == 5:
            chk.sample({"case": case, "answer": ans["g"]})
    chk.each(lines, one)

    # larger requests of every measure and approach: rename, recode and reorder the request,
    # and expect the specification's answer to the original
    n = 6 if chk.thorough else 2
    recs = []
    for kind in ("h", "mi", "cmi", "te", "cte"):
        for ap in DISCRETE1:
            for _ in range(n * (3 if ap == "discrete" else 1)):
                recs.append(dcase(rng, "mi", ap, 40, 2) if kind == "h" else dcase(rng, kind, ap, 50, 2))
                if kind == "h":
                    c = recs[-1][0]
                    c["kind"] = "h"
                    c.pop("off")
    for ap in ("discrete", "miller_madow", "bayes"):
        for kind in ("hx", "kld"):
            recs += [dcase(rng, kind, ap, 60, 2) for _ in range(3 * n)]
    for ap in ("discrete", "bayes", "shrink"):
        recs += [dcase(rng, "jsd", ap, 60, 2) for _ in range(3 * n)]

    def two(x, i):
        (case, _), ans = x
        rng = chk.rng
        paired = case["kind"] in ("hx", "kld", "jsd")
        for _ in range(4):
            c = json.loads(json.dumps(case))
            a = ans
            rows = c["vars"] + ([c["cond"]] if "cond" in c else [])
            # a one-to-one renaming, per variable (two-sample measures: one for all)
            maps, narrow = {}, rng.random() < 0.3 and rng.choice(NARROW)
            for k, v in enumerate(rows):
                syms = sorted({s for w in (rows if paired else [v]) for r in w for s in r})
                if k == 0 or not paired:
                    new = rng.sample(range(-100, 100) if rng.random() < 0.5 else range(len(syms) + 3), len(syms))
                if narrow and (k == 0 or not paired):      # the whole range of a narrow number type
                    t, lo, hi = narrow
                    new = rng.sample(range(lo, hi + 1), len(syms))
                    for end in (lo, hi):
                        if end not in new:
                            new[rng.randrange(len(new))] = end
                if k == 0 or not paired:
                    maps = dict(zip(syms, new))
                for r in v:
                    r[:] = [maps[s] for s in r]
            if paired:
                for v in c["vars"]:
                    rng.shuffle(v)
                e = rng.choice(["int64", "list", "str", "float64", "big", "lstr"])
                encs = [e] * len(rows) if rng.random() < 0.6 else [rng.choice(
                    ["int64", "list", "float64", "int32", "int16", "float32", "fortran", "readonly"]) for _ in rows]
            else:
                if case["kind"] not in TIMED and case.get("off", 0) == 0:
                    order = list(range(len(rows[0])))
                    rng.shuffle(order)
                    for v in rows:
                        v[:] = [v[i] for i in order]
                    a = follow(ans, order)
                encs = [rng.choice(ENCODINGS) for _ in range(len(c["vars"]) + 1)]
            if narrow:
                encs = [narrow[0]] * (len(c["vars"]) + 1)
            replay(chk, c, a, encs, gen.base(rng), tol=2e-6 if case["par"]["ap"] not in ("discrete",) else 1e-9)
    chk.each(zip(recs, chk.expect([c for c, _ in recs])), two)
    chk.assumptions = ["floating-point comparison at 1e-9 relative (bias-corrected approaches 2e-6)"]
