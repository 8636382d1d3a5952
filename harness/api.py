"""Running a request (a case) through the public interface of infomeasure."""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

import logging
import math
import warnings

warnings.simplefilter("ignore")
import numpy as np
import infomeasure as im

logging.getLogger("infomeasure").setLevel(logging.CRITICAL)
np.seterr(all="ignore")
assert os.path.abspath(im.__file__).startswith(os.path.abspath(REPO)), im.__file__

DISCRETE = ["discrete", "miller_madow", "mm", "grassberger", "bonachela", "chao_shen", "cs",
            "chao_wang_jost", "cwj", "zhang", "shrink", "js", "bayes", "ansb", "nsb"]
DISCRETE1 = ["discrete", "miller_madow", "grassberger", "bonachela", "chao_shen",
             "chao_wang_jost", "zhang", "shrink", "bayes", "ansb", "nsb"]
ORDINAL = ["ordinal", "symbolic", "permutation"]


def is_discrete(ap):
    return ap in DISCRETE


def par_kwargs(kind, par):
    """Keyword arguments of a request from the specification's parameter record."""
    ap = par["ap"]
    kw = {}
    if ap in ("bayes",):
        a = par["alpha"]
        kw["alpha"] = a[1] / a[2] if a[0] == "num" else par.get("alpha_name", a[0])
        if par.get("alpha_int"):
            kw["alpha"] = int(kw["alpha"])
    if par.get("K", 0) and ap in ("bayes", "nsb", "ansb"):
        kw["K"] = par["K"]
    if ap in ORDINAL:
        kw["embedding_dim"] = par["d"]
        if kind in ("h", "hx", "jsd", "kld", "mi", "cmi"):
            if par["st"] != 1 or par.get("explicit"):
                kw["step_size"] = par["st"]
        if par.get("stable") is not None:
            kw["stable"] = par["stable"]
    if ap in ("metric", "kl", "ksg"):
        if par["k"] != 4 or par.get("explicit"):
            kw["k"] = par["k"]
        kw["noise_level"] = (0, 0.0, None, False)[par["k"] % 4] if kind in ("mi", "cmi", "te", "cte") else 0
        if par["ksg"] != 1 or par.get("explicit"):
            kw["ksg_id"] = par["ksg"]
        if par["p"] != 0 or par.get("explicit"):
            kw["minkowski_p"] = math.inf if par["p"] == 0 else par["p"] if par["p"] > 0 else -par["p"] / 2
    if ap in ("renyi", "tsallis"):
        q = par["q"][0] / par["q"][1]
        if q == int(q) and par.get("qint"):
            q = int(q)
        kw["alpha" if ap == "renyi" else "q"] = q
        kw["k"] = par["k"]
        if kind not in ("h", "hx", "jsd", "kld"):
            kw["noise_level"] = 0
    if "noise" in par:         # below the resolution of the comparison
        kw["noise_level"] = par["noise"]
        if par["noise"] == "default":
            del kw["noise_level"]
    if ap == "kernel":
        h = par["bw"][0] / par["bw"][1]
        if par["ker"] == "box":
            h *= 2.0 ** par.get("x2", 0)
        kw["bandwidth"] = int(h) if par.get("bwint") and h == int(h) else h
        kw["kernel"] = par["ker"]
        if par.get("workers"):
            kw["workers"] = par["workers"]
    if kind in ("mi", "cmi") and par.get("norm"):
        kw["normalize"] = True
    return kw


# ---- encodings of integer rows into containers and number types -------------------
def _relabel(vals, kind):
    """Injective order-free relabelling of integers into other symbol types."""
    if kind == "str":
        return {v: "s%03d" % ((v * 37 + 11) % 997) for v in vals}
    if kind == "bool":
        return {v: bool(i) for i, v in enumerate(sorted(vals))}
    raise KeyError(kind)


ENCODINGS = ["int64", "list", "int8", "uint8", "int16", "int32", "uint16", "uint64", "float64",
             "str", "neg", "big", "fortran", "stride", "readonly", "float32", "bool", "object",
             "shuffle", "uint32", "lstr", "revstride", "hash", "uhash", "frac", "fine"]


def encode(rows, enc, want2d=None):
    """rows: list of equal-length integer rows -> value passed to the library."""
    width = len(rows[0])
    flat = width == 1 and want2d is not True
    data = [r[0] for r in rows] if flat else [list(r) for r in rows]
    vals = sorted({x for r in rows for x in r})
    if enc == "bool":
        if len(vals) > 2:
            enc = "int64"
        else:
            m = _relabel(vals, "bool")
            data = [m[x] for x in data] if flat else [[m[x] for x in r] for r in data]
            return np.array(data, dtype=bool)
    if enc in ("str", "lstr"):
        m = _relabel(vals, "str")
        data = [m[x] for x in data] if flat else [[m[x] for x in r] for r in data]
        return data if enc == "lstr" else np.array(data)
    if enc == "shuffle":  # non-monotone relabelling
        perm = {v: (i * 7919 + 13) % 10007 - 5000 for i, v in enumerate(vals)}
        data = [perm[x] for x in data] if flat else [[perm[x] for x in r] for r in data]
        return np.array(data)
    if enc == "neg":
        return -np.array(data, dtype=np.int64) - 3
    if enc == "big":
        return np.array(data, dtype=np.int64) * 1000003 + 2**40
    if enc in ("hash", "uhash"):   # not representable as floating-point numbers
        a = np.array([x + 2**60 for x in data] if flat else [[x + 2**60 for x in r] for r in data])
        return a.astype(np.uint64) if enc == "uhash" else a
    if enc == "frac":                # outcomes differ in their fractions only
        return np.array(data) * 0.001 + 2
    if enc == "fine":                # very close outcomes
        return np.array(data) * 2.0**-40 + 1
    if enc == "list":
        return data
    if enc == "fortran":
        return np.asfortranarray(np.array(data))
    if enc == "stride":
        a = np.repeat(np.array(data), 2, axis=0)
        return a[::2]
    if enc == "revstride":
        return np.array(data[::-1])[::-1]
    if enc == "readonly":
        a = np.array(data)
        a.flags.writeable = False
        return a
    if enc == "object":
        return np.array(data)
    a = np.array(data)
    if enc in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "uint64"):
        info = np.iinfo(enc)
        shift = 0
        if vals[0] < info.min:
            shift = -vals[0]
        if vals[-1] + shift > info.max:
            return a
        return (a + shift).astype(enc)
    return a.astype(enc)


NARROW = ("int8", "uint8", "uint16", "uint32", "uint64")


def encode_real(rows, sc, enc="float64", want2d=None, x2=0):
    """Order- and geometry-preserving encoding (scale sc = [sn, sd], times 2^x2)."""
    if x2:
        return encode_real(rows, [math.ldexp(sc[0], x2), sc[1]],
                           {"shift": "mirror", "mshift": "mirror", "int64": "float64", "int32": "float64", "int16": "float64",
                            **dict.fromkeys(NARROW, "float64")}.get(enc, enc), want2d)
    flat = len(rows[0]) == 1 and want2d is not True
    a = np.array([r[0] for r in rows] if flat else [list(r) for r in rows])
    if sc[1] == 1 and enc in ("int64", "int32", "list_int", "int16"):
        a = a * sc[0]
        return a.tolist() if enc == "list_int" else a.astype(enc if enc != "list_int" else None)
    if enc in ("exp", "cube", "gaps", "tiny", "huge", "float32", "bigint", "stamps", "ustamps", "halves"):
        return _increasing(a, enc)
    if sc[1] == 1 and enc in NARROW:
        c = a * sc[0]
        for t in (enc, "int8", "int16", "int32"):
            if np.iinfo(t).min <= c.min() and c.max() <= np.iinfo(t).max:
                return c.astype(t)
    b = a * (sc[0] / sc[1])
    if enc == "single":          # small multiples of a power of two: exact
        return b.astype(np.float32)
    # isometries: distances stay exactly the same
    if enc == "mirror":
        return -b
    if enc == "shift":
        return b + 1000.0
    if enc == "mshift":
        return 64.0 - b
    if enc == "list":
        return b.tolist()
    if enc == "readonly":
        b.flags.writeable = False
    if enc == "stride":
        c = np.repeat(b, 2, axis=0)
        return c[::2]
    if enc == "revstride":
        return b[::-1].copy()[::-1]
    if enc == "fortran":
        return np.asfortranarray(b)
    return b


def _increasing(a, enc):
    """Strictly increasing images of small integers (only order-based measures may use them)."""
    if enc == "exp":
        return np.exp(a / 16.0)
    if enc == "cube":
        return a.astype(float) ** 3 / 7 - 11
    if enc == "gaps":
        vals = np.unique(a)
        pos = np.cumsum((vals * 7919 + 13) % 97 + 0.25)
        return pos[np.searchsorted(vals, a)]
    if enc == "tiny":
        return a * 1e-12
    if enc == "huge":
        return a * 1e12 + 3e15
    if enc == "float32":
        return (a * 0.5).astype(np.float32)
    if enc == "stamps":      # neighbouring integers beyond double precision (nanoseconds, say)
        return a + 2**60
    if enc == "ustamps":
        return a.astype(np.uint64) + np.uint64(2**63) if a.min() >= 0 else a - 2**62
    if enc == "halves":
        return a.astype(np.float16) if abs(a).max() < 2048 else a.astype(np.float64)
    return a * 10**15 - 7


def exc_name(e):
    return type(e).__name__


def call(fn, *a, **k):
    """Value or {'exc': name, 'msg': text}."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k)
    except Exception as e:  # noqa: BLE001 - the outcome is the observation
        return {"exc": exc_name(e), "msg": str(e)[:200], "mro": [c.__name__ for c in type(e).__mro__]}


def num(v):
    if is_exc(v):
        return v
    try:
        return float(v)
    except Exception as e:  # noqa: BLE001
        return {"exc": "not-a-number", "msg": repr(v)[:100], "mro": []}


def is_exc(v):
    return isinstance(v, dict) and "exc" in v


LONG = {"h": "entropy", "hx": "cross_entropy", "mi": "mutual_information",
        "cmi": "conditional_mutual_information", "te": "transfer_entropy",
        "cte": "conditional_transfer_entropy"}


DEFAULTS = {"src_hist_len": 1, "dest_hist_len": 1, "cond_hist_len": 1, "step_size": 1, "prop_time": 0}


def request(case, inputs, base="e", extra=None):
    """(args, kwargs) for im.estimator / the shortcuts, from a case and encoded inputs."""
    kind, par = case["kind"], case["par"]
    kw = par_kwargs(kind, par)
    if kind in ("te", "cte"):
        kw.update(src_hist_len=case["lx"], dest_hist_len=case["ly"], step_size=case["step"])
        if kind == "te":
            if case.get("via_offset"):
                kw["offset"] = case["prop"]
            else:
                kw["prop_time"] = case["prop"]
        else:
            kw["cond_hist_len"] = case["lz"]
            kw["prop_time"] = 0
        if sum(r[0] for r in case["vars"][0]) % 2:      # every other request leaves the defaults out
            for name, default in DEFAULTS.items():
                if kw.get(name) == default:
                    del kw[name]
        if kind == "cte":
            kw["cond"] = inputs["cond"]
    if kind == "mi" and (case["off"] != 0 or case.get("explicit_off")):
        kw["offset"] = case["off"]
    if kind == "cmi":
        kw["cond"] = inputs["cond"]
    if base is not None:
        kw["base"] = base
    kw.update(extra or {})
    args = inputs["vars"]
    if kind == "h" and len(args) > 1 or case.get("tuple"):
        args = [tuple(args)]
    return args, kw


def make(case, inputs, base="e", extra=None):
    args, kw = request(case, inputs, base, extra)
    return im.estimator(*args, measure=LONG[case["kind"]], approach=case["par"]["ap"], **kw)


def observe(case, inputs, base="e", extra=None, locals_=True):
    """Observed answer: {'g': float|exc, 'l': list|exc|None}"""
    kind = case["kind"]
    if kind in ("jsd", "kld"):
        fn = im.jsd if kind == "jsd" else im.kld
        kw = par_kwargs(kind, case["par"])
        if base is not None:
            kw["base"] = base
        g = call(fn, *inputs["vars"], approach=case["par"]["ap"], **kw)
        return {"g": num(g), "l": None}
    e = call(make, case, inputs, base, extra)
    if is_exc(e):
        return {"g": e, "l": None}
    g = call(e.result)
    out = {"g": num(g), "l": None}
    if locals_ and kind != "hx":
        l = call(e.local_vals)
        if is_exc(l):
            out["l"] = l
        elif l is None:
            out["l"] = {"exc": "None", "msg": "local_vals() returned None", "mro": []}
        else:
            out["l"] = [float(x) for x in np.asarray(l).ravel()]
            if np.asarray(l).ndim != 1:
                out["l"] = {"exc": "shape", "msg": f"{np.asarray(l).shape}", "mro": []}
    return out
