"""C16: the log base only rescales results."""
import json
from api import DISCRETE1, im, is_exc, np, observe
import gen
from replay import brief, inputs_of, replay
from .common import dcase, ordered

BASES = [[2, 1], [10, 1], [3, 2], [27, 10], [7, 1], [100, 1], [17, 16], [1000, 1], [5, 4], [3, 1], [16, 1], [9, 2]]


def number(b, i):
    v = b[0] / b[1]
    if b[1] == 1:
        return [int(v), float(v), np.float64(v), int(v)][i % 4]
    return v if i % 3 else np.float64(v)


def one(chk, case, ans, encs, i, tol):
    c = {k: v for k, v in case.items() if k != "base"}
    b = number(case["base"], i)
    if ans.get("refused"):
        return refuse(chk, c, encs, b)
    # the specification has already put the answer in the base
    a = dict(ans)
    obs = observe(c, inputs_of(c, encs), b)
    if a.get("frag"):
        return chk.count("fragile_skipped")
    from replay import check_locals
    what = f"{c['kind']} {brief(c)} base {b!r}"
    rec = {"case": case}
    chk.compare(what, obs["g"], a["g"], rec, rtol=tol)
    if c["kind"] not in ("hx", "jsd", "kld"):
        check_locals(chk, what, obs, a, rec, "e", tol=tol)
    chk.traces += 1


def refuse(chk, c, encs, b):
    obs = observe(c, inputs_of(c, encs), b, locals_=False)
    chk.traces += 1
    if not is_exc(obs["g"]):
        chk.violation(f"{brief(c)}: negative base {b!r} gives {obs['g']}", {"case": c, "base": float(b)})


def tolerance(c):
    return 2e-6 if c["par"]["ap"] == "nsb" else 1e-9


def run(chk):
    rng = chk.rng
    r = chk.tlc("MC_C16")
    chk.notes["exhaustive"] = True
    lines = ordered(chk, r["lines"])
    chk.notes["model_behaviours"] = len(lines)

    def first(x, i):
        one(chk, x["case"], dict(x["ans"], refused=x["refused"]), ["int64"] * 4, i, tolerance(x["case"]))
        if i % 500 == 5:
            chk.sample({"case": x["case"], "answer": x["ans"]["g"]})
    chk.each(lines, first)
    recs = []
    n = 12 if chk.thorough else 3
    for kind in ("h", "hx", "kld", "jsd", "mi", "cmi", "te", "cte"):
        for ap in DISCRETE1 + ["ordinal", "metric", "renyi", "tsallis", "kernel"]:
            if kind in ("hx", "kld") and ap in DISCRETE1 and ap not in ("discrete", "miller_madow", "bayes") or \
                    kind == "jsd" and ap not in ("discrete", "bayes", "shrink", "kernel", "ordinal"):
                continue
            for _ in range(n if ap != "nsb" else 1):
                if ap in DISCRETE1:
                    c, e = dcase(rng, "mi" if kind == "h" else kind, ap, 30, 2)
                    if kind == "h":
                        c["kind"] = "h"
                        c.pop("off")
                else:
                    c, e = gen.rcase(rng, kind, ap, 20, 2)
                c["base"] = rng.choice(BASES)
                recs.append((c, e))
    # a base written as the Euler number is the natural logarithm
    def second(x, i):
        (c, e), a = x
        one(chk, c, a, e, i, 2e-6)
    chk.each(zip(recs, chk.expect([c for c, _ in recs])), second)
    nat = [dict(c) for c, _ in recs[::4]]
    for c in nat:
        c.pop("base")

    def third(x, i):
        (c, e), a = x
        replay(chk, c, a, e, ["e", np.e][i % 2], tol=2e-6)
    chk.each(zip(zip(nat, [e for _, e in recs[::4]]), chk.expect(nat)), third)
    chk.assumptions = ["bases above 1 and negative bases (0 and 1 are edge cases outside the property)",
                       "floating-point comparison at 1e-9 relative (bias-corrected approaches 2e-6)"]
