"""C24: ill-formed requests are refused, well-formed ones computed."""
import json
from api import LONG, call, im, is_exc, np, num
from replay import is_real
from .common import ordered

SHORT = {"h": "entropy", "hx": "cross_entropy", "mi": "mutual_information", "cmi": "conditional_mutual_information",
         "te": "transfer_entropy", "cte": "conditional_transfer_entropy", "jsd": "jensen_shannon_divergence",
         "kld": "kullback_leiber_divergence"}
WORDS = {("base", 0): "e", ("kernel", 1): "box", ("kernel", 2): "gaussian", ("kernel", 8): "triangle",
         ("alpha", 3): "jeffrey"}


def value(f, c, i):
    t, n = c
    if t == "int":
        return n
    if t == "npint":
        return [np.int64, np.int32, np.int16][i % 3](n)
    if t == "float":
        return [float, np.float64][i % 2](n / 2)
    if t == "str":
        return WORDS.get((f, n), "foo" if f in ("base", "kernel", "alpha") else "2")
    if t == "none":
        return None
    if t == "bool":
        return bool(n)
    return [1]


def series(ap, n, j, rng):
    """n values; real-valued ones are distinct, symbols repeat."""
    if ap in ("metric", "renyi", "tsallis", "kernel", "ordinal"):
        return rng.permutation(4 * n)[:n] * 0.25 + j
    return (np.arange(n) * (j + 2) + rng.integers(0, 2, n)) % 3


def shape(form, v, j, ap, rng, last=False):
    n = len(v)
    if form == "table" or form == "odd" and j == 0 or form == "tail" and last:
        return np.stack([v, series(ap, n, j + 1, rng)], axis=1)
    if form == "cube":
        return np.stack([v.reshape(n, 1)] * 2, axis=2)
    if j == 0:
        if form == "scalar":
            return 3
        if form == "none":
            return None
        if form == "word":
            return "hello"
        if form == "ragged":
            return [[1], [1, 2]] * (n // 2) + [[1]] * (n % 2)
    return v


def build(r, p, i, seed):
    rng = np.random.default_rng([seed, i])
    ap = r["ap"]
    vs = [shape(r["form"], series(ap, n, j, rng), j, ap, rng, j == len(r["lens"]) - 1) for j, n in enumerate(r["lens"])]
    if i % 3 == 0:
        vs = [v.tolist() if isinstance(v, np.ndarray) and r["kind"] != "jsd" else v for v in vs]
    kw = {f: value(f, c, i) for f, c in p.items()} if isinstance(p, dict) else {}
    if r["cl"] >= 0:
        form = {"table": "table", "cube": "cube", "cond": "table"}.get(r["form"], "flat")
        kw["cond"] = shape(form, series(ap, r["cl"], 7, rng), 9, ap, rng)
    return vs, kw


def submit(r, vs, kw, i):
    """Through the shortcut, the factory or the class."""
    kind, ap = r["kind"], r["ap"]
    if kind in ("jsd", "kld"):
        return num(call(getattr(im, [SHORT[kind], kind][i % 2]), *vs, approach=ap, **kw)), "shortcut"
    style = i % 3
    if style == 0 and not (kind in ("mi", "cmi") and len(vs) == 1):
        return num(call(getattr(im, SHORT[kind]), *vs, approach=ap, **kw)), "shortcut"
    if style == 1 and (kind in ("cmi", "cte")) == ("cond" in kw) and len(vs) in (1, 2):
        cls = call(im.get_estimator_class, measure="entropy" if kind == "hx" else LONG[kind], approach=ap)
        if not is_exc(cls) and (kind != "h" or len(vs) == 1) and (kind != "hx" or len(vs) == 2):
            e = call(cls, *vs, **kw)
            return (e if is_exc(e) else num(call(e.result))), "class"
    e = call(im.estimator, *vs, measure=LONG[kind], approach=ap, **kw)
    return (e if is_exc(e) else num(call(e.result))), "factory"


def run(chk):
    r = chk.tlc("MC_C24")
    lines = ordered(chk, r["lines"])
    chk.notes["exhaustive"] = True
    chk.notes["model_behaviours"] = len(lines)
    # without a condition the conditional measures are the unconditional ones, with one the other way round:
    # the request names its measure through its arguments then (decided under C22)
    def one(x, i):
        q, p, want = x["req"], x["p"], x["ans"]
        vs, kw = build(q, p, i, chk.seed)
        got, style = submit(q, vs, kw, i)
        chk.traces += 1
        chk.count(want)
        what = f"{style} {q['kind']} {q['ap']} lengths {q['lens']} condition {q['cl']} {q['form']} " \
               f"{ {k: v for k, v in kw.items() if k != 'cond'} }"
        rec = {"request": q, "p": p, "index": i}
        if want == "refused" and not is_exc(got):
            chk.violation(f"{what} is computed ({got}) where it must be refused", rec)
        elif want == "computed" and is_exc(got):
            chk.violation(f"{what} is refused: {got}", rec)
        if i % 9001 == 17:
            chk.sample({"request": what, "expected": want, "got": got})
    chk.each(lines, one)
    chk.assumptions = ["left open: " + "; ".join([
        "three-dimensional data outside entropies", "bases 0 and 1 and numpy integers as base",
        "Bayes concentrations <= 0", "normalize for count-based approaches other than plug-in and Miller-Madow",
        "numpy integers as Renyi/Tsallis order", "empty data", "Gaussian kernel on a handful of points"])]
