"""C22: all spellings of one request give one result."""
import copy
import json
import gen
from api import DISCRETE1, LONG, call, im, is_exc, np, num, par_kwargs, request
from replay import inputs_of, is_real
from .common import dcase, ordered

FUN = {"h": "entropy", "hx": "cross_entropy", "mi": "mutual_information", "cmi": "conditional_mutual_information",
       "te": "transfer_entropy", "cte": "conditional_transfer_entropy", "jsd": "jensen_shannon_divergence",
       "kld": "kullback_leiber_divergence"}


def write(word, letters, sep, i):
    out = word
    if sep != "_":
        parts = word.split("_")
        if sep == "mixed":
            ss = ["-", " ", "_"]
            out = parts[0] + "".join(ss[(i + k) % 3] + p for k, p in enumerate(parts[1:]))
        else:
            out = sep.join(parts)
    if letters == "upper":
        return out.upper()
    if letters == "title":
        return out.title()
    if letters == "swap":
        return "".join(c.upper() if k % 2 else c.lower() for k, c in enumerate(out))
    return out


def pool(chk, per):
    """Requests of every measure, approach and number of variables, with the specification's answers."""
    rng, out, cases = chk.rng, {}, []
    for kind in FUN:
        for ap in DISCRETE1 + ["metric", "kernel", "renyi", "tsallis", "ordinal"]:
            for nv in {"h": [1], "mi": [2, 3], "cmi": [2, 3], "jsd": [2, 3]}.get(kind, [2]):
                for _ in range(per):
                    c = one_case(rng, kind, ap, nv)
                    if c is None:
                        continue
                    cases.append(((kind, ap, nv), c))
    for (key, (c, e)), a in zip(cases, chk.expect([x[1][0] for x in cases])):
        if not a["frag"]:
            out.setdefault(key, []).append((c, e, a))
    return out


def one_case(rng, kind, ap, nv):
    if kind in ("hx", "kld") and ap in ("ansb", "bonachela", "chao_shen", "chao_wang_jost", "grassberger", "nsb",
                                        "shrink", "zhang"):
        return None
    if kind == "jsd" and ap not in ("discrete", "bayes", "shrink", "ordinal", "kernel"):
        return None
    for _ in range(400):
        if ap in DISCRETE1:
            c, e = dcase(rng, "mi" if kind == "h" else kind, ap, 16, 1, m=2 if kind in ("h", "te", "cte") else nv)
            if kind == "h":
                c["kind"] = "h"
                c.pop("off")
                c["vars"] = c["vars"][:1]
                if ap == "nsb":
                    c["vars"][0] = [r[:1] for r in c["vars"][0]][:12]
            e = [rng.choice(["int64", "list", "int32"]) for _ in range(4)]
        else:
            c, e = gen.rcase(rng, kind, ap, 16, 1)
            if ap == "kernel" and c["par"]["ker"] == "gaussian" and nv > 2:
                continue
            e = [rng.choice(["float64", "list"]) for _ in range(4)]
        if len(c["vars"]) == nv:
            return c, e
    return None


def arguments(entry, nv, cond):
    """Positional and keyword arguments: the request of the entry with another number of variables."""
    case, encs, _ = entry
    ins = inputs_of(case, encs)
    args, kw = request(case, ins, None)
    spare = [np.asarray(ins["vars"][0])[::-1].copy(), np.asarray(ins["vars"][0]).copy()]
    args = (list(args) + spare)[:nv]
    if cond and "cond" not in kw:
        kw["cond"] = spare[0]
    if not cond:
        kw.pop("cond", None)
    return args, kw


def composite_kw(case):
    return par_kwargs(case["kind"], case["par"])


def ask(r, args, kw, i):
    """The observed outcome of one request: a number or a refusal."""
    ap = write(r["ap"], r["al"], "_", i) if r["ap"] != "None" else None
    if r["style"] == "factory":
        m = write(r["word"], r["letters"], r["sep"], i)
        e = call(lambda: im.estimator(*args, measure=m, approach=ap, **kw))
        return e if is_exc(e) else num(call([e.result, e.global_val][i % 2]))
    if r["style"] == "class":
        cls = call(im.get_estimator_class, write(r["word"], r["letters"], "_", i), ap)
        if is_exc(cls):
            return cls
        return num(call(lambda: cls(*args, **kw).result()))
    f = getattr(im, r["word"])
    if f.__name__.startswith("kullback") and i % 3 == 0:
        return num(call(lambda: f(*args, ap, **kw)))
    return num(call(lambda: f(*args, approach=ap, **kw)))


def run(chk):
    r = chk.tlc("MC_C22")
    chk.notes["exhaustive"] = True
    P = pool(chk, 3 if not chk.thorough else 8)
    for key, es in P.items():
        if len(es) < 1:
            raise RuntimeError(f"no request for {key}")
    lines = ordered(chk, r["lines"])
    chk.notes["requests"] = len(lines)
    known = {}

    def one(x, i):
        q, a = x["req"], x["ans"]
        nv = q["nv"]
        chk.count(a["verdict"])
        if a["verdict"] == "free":
            return
        if a["verdict"] == "refused":
            # arguments that would be fine otherwise
            word = q["word"]
            kind = {v: k for k, v in FUN.items()}.get(word, word if word in FUN else "mi")
            if kind in ("mi", "te") and q["cond"]:
                kind = "c" + kind
            es = P.get((kind, q["ap"], nv)) or P.get((kind, q["ap"], 2)) or P.get((kind, "discrete", max(nv, 1))) \
                or P.get((kind, "discrete", 2)) or P[("h", "discrete", 1)]
            args, kw = arguments(es[i % len(es)], nv, q["cond"])
            got = ask(q, args, kw, i)
            chk.traces += 1
            if not is_exc(got):
                chk.violation(f"{q}: not refused but {got}", {"request": q})
            return
        es = P[(a["kind"], a["ap"], {"h": 1, "mi": nv, "cmi": nv, "jsd": nv}.get(a["kind"], 2))]
        j = i % len(es)
        case, encs, ans = es[j]
        args, kw = arguments(es[j], len(case["vars"]), "cond" in case)
        if q["style"] == "factory" and "cond" not in kw and i % 4 == 1:
            kw["cond"] = None
        got = ask(q, args, kw, i)
        chk.traces += 1
        what = f"{q} with {case['par']}"
        rec = {"request": q, "case": case, "encodings": encs}
        if not chk.compare(what, got, ans["g"], rec, rtol=2e-6 if a["ap"] == "nsb" else 1e-9):
            return
        # all spellings: the very same number
        key = json.dumps([a["kind"], a["ap"], nv if a["kind"] in ("mi", "cmi", "jsd") else 0, j])
        if known.setdefault(key, got) != got and not (got != got and known[key] != known[key]):
            chk.violation(f"{what}: {got!r}, another spelling gives {known[key]!r}", rec)
        if i % 5003 == 7:
            chk.sample({"request": q, "resolved": a, "value": got})
    chk.each(lines, one)
    extras(chk, P)
    chk.assumptions = ["a mutual information request of one series with a condition, and a Jensen-Shannon divergence of "
                       "one series, are left open"]


def extras(chk, P):
    """Names that are not texts; missing names."""
    x, y = np.array([0, 1, 1, 0, 2]), np.array([1, 1, 0, 2, 0])
    for bad in (None, 3, 1.5, ["discrete"], ("mi",), b"discrete", True):
        for f in (im.h, im.hx, im.mi, im.te, im.jsd, im.kld):
            g = call(f, x, y, approach=bad)
            if not is_exc(g):
                chk.violation(f"{f.__name__} takes the approach {bad!r}: {g}", {"approach": repr(bad)})
        for kind in LONG:
            for kw in ({"measure": LONG[kind], "approach": bad}, {"measure": bad, "approach": "discrete"}):
                g = call(im.estimator, x, y, cond=y if kind in ("cmi", "cte") else None, **kw)
                if not is_exc(g):
                    chk.violation(f"estimator takes {kw}: {g}", {"request": repr(kw)})
            g = call(im.get_estimator_class, LONG[kind], bad)
            h = call(im.get_estimator_class, bad, "discrete")
            if not is_exc(g) or not is_exc(h):
                chk.violation(f"get_estimator_class takes {bad!r}", {"name": repr(bad)})
    for f in (im.h, im.hx, im.mi, im.te, im.jsd, im.kld):
        if not is_exc(call(f, x, y)):
            chk.violation(f"{f.__name__} needs no approach", {})
    for kw in ({}, {"measure": "mi"}, {"approach": "discrete"}):
        if not is_exc(call(im.estimator, x, y, **kw)):
            chk.violation(f"estimator takes {kw}", {})
    # the names of the package are one object each
    for a, b in (("h", "entropy"), ("hx", "cross_entropy"), ("mi", "mutual_information"), ("te", "transfer_entropy"),
                 ("cmi", "conditional_mutual_information"), ("cte", "conditional_transfer_entropy"),
                 ("jsd", "jensen_shannon_divergence"), ("kld", "kullback_leiber_divergence")):
        if getattr(im, a, None) is None or getattr(im, b, None) is None or a not in im.__all__ or b not in im.__all__:
            chk.violation(f"{a} or {b} is not offered by the package", {})
