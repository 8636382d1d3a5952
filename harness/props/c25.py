"""C25: the summary of a discrete sample describes it."""
import gen
from .common import ordered
from api import call, is_exc, np
from infomeasure.utils.data import DiscreteData

# strictly increasing images of small integers
LABELS = {
    "int": lambda v: v, "negative": lambda v: v * 3 - 1000, "big": lambda v: 2**60 + v, "float": lambda v: v * 0.5 - 1.25,
    "fine": lambda v: 1 + v * 2.0**-50, "text": lambda v: "s%04d" % (v + 500), "mixedtext": lambda v: "a" * (v + 1) if v < 30 else "b%06d" % v,
    "thousandths": lambda v: v / 1000, "wide": lambda v: (v - 2) * 1e300,
}
DTYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"]


def variants(rng, small):
    """A labelling and a container."""
    name = rng.choice(list(LABELS) + (["bool"] if small else []))
    box = rng.choice(["array", "array", "list", "tuple", "readonly", "stride", "reverse", "column", "dtype", "object"])
    return name, box


def put(values, box, rng):
    if box in ("list", "tuple"):
        return list(values) if box == "list" else tuple(values)
    a = np.array(values)
    if box == "dtype" and a.dtype.kind in "iu":
        fits = [t for t in DTYPES if (np.array(a, dtype=object) == a.astype(t).astype(object)).all()
                and (t[0] == "f" or np.iinfo(t).min <= min(values) and max(values) <= np.iinfo(t).max)]
        a = a.astype(rng.choice(fits))
    if box == "object" and a.dtype.kind in "iu":
        a = np.array(values, dtype=object)
    if box == "readonly":
        a.flags.writeable = False
    if box == "stride":
        a = np.repeat(a, 2)[::2]
    if box == "reverse":
        a = np.array(values[::-1])[::-1]
    if box == "column":
        a = a[:, None]
    return a


def plain(x):
    return np.asarray(x).tolist()


def describe(chk, what, d, want, label, rec):
    """Every part of a summary against the specification's."""
    if is_exc(d):
        chk.violation(f"{what}: {d}", rec)
        return False
    uniq = [label(v) for v in want["uniq"]]
    exp = [want["counts"], want["n"], want["k"], [a / b for a, b in want["probs"]]]
    got = call(lambda: [plain(d.uniq), plain(d.counts), int(d.N), int(d.K), plain(d.probabilities),
                        list(d.distribution_dict.items())])
    if is_exc(got):
        chk.violation(f"{what}: {got}", rec)
        return False
    if got[0] != uniq or len(got[0]) != len(uniq):
        chk.violation(f"{what}: outcomes {got[0]}, specification {uniq}", rec)
    elif got[1:4] != exp[:3]:
        chk.violation(f"{what}: counts, N, K {got[1:4]}, specification {exp[:3]}", rec)
    elif len(got[4]) != len(exp[3]) or any(abs(a - b) > 1e-15 for a, b in zip(got[4], exp[3])):
        chk.violation(f"{what}: probabilities {got[4]}, specification {exp[3]}", rec)
    elif [k for k, _ in got[5]] != uniq or any(abs(a - b) > 1e-15 for (_, a), b in zip(got[5], exp[3])):
        chk.violation(f"{what}: distribution {got[5]}", rec)
    else:
        return True
    return False


def sample(chk, s, want, i):
    rng = chk.rng
    name, box = variants(rng, set(s) <= {1, 2})
    label = (lambda v: v == 2) if name == "bool" else LABELS[name]
    values = [label(v) for v in s]
    data = put(values, box, rng)
    before = plain(data)
    rec = {"sample": s, "labels": name, "container": box}
    what = f"sample {s if len(s) < 30 else len(s)} as {name} {box}"
    d = call(DiscreteData.from_data, data)
    chk.traces += 1
    if not describe(chk, what, d, want, label, rec):
        return
    if d.data is None or plain(d.data) != before or plain(data) != before:
        chk.violation(f"{what}: observations {plain(d.data)} instead of {before}", rec)
        return
    # from the counts: the same summary without observations
    cdt = rng.choice(["int64", "int32", "uint8", "int16", "uint64"]) if max(want["counts"]) < 100 else "int64"
    counts = np.array(want["counts"], dtype=cdt) if rng.random() < 0.7 else list(want["counts"])
    uniq = put([label(v) for v in want["uniq"]], "list" if rng.random() < 0.3 else "array", rng)
    e = call(DiscreteData.from_counts, uniq, counts)
    if describe(chk, what + " from its counts", e, want, label, rec) and e.data is not None:
        chk.violation(f"{what}: counts come with observations {e.data}", rec)
    # explicit construction with the observations
    f = call(lambda: DiscreteData(uniq=np.asarray(uniq), counts=np.asarray(counts), data=np.asarray(data)))
    describe(chk, what + " given explicitly", f, want, label, rec)
    # same sample in another order
    t = list(values)
    rng.shuffle(t)
    describe(chk, what + " reordered", call(DiscreteData.from_data, put(t, rng.choice(["array", "list"]), rng)), want,
             label, rec)
    # a summary cannot be changed
    for f, v in (("uniq", []), ("counts", []), ("N", 1), ("K", 1), ("data", None)):
        if not is_exc(call(setattr, d, f, v)):
            chk.violation(f"{what}: {f} can be reassigned", rec)
    if i % 997 == 1:
        chk.sample({"sample": s, "labels": name, "container": box, "counts": plain(d.counts)})


def counts(chk, x):
    """Count vectors, many of them inconsistent."""
    rng = chk.rng
    c = np.array(x["counts"], dtype="int64" if x["whole"] else "float64")
    if not x["whole"] and rng.random() < 0.5 and len(c):
        c = c * 0.5
    if x["whole"] and rng.random() < 0.2 and all(v >= 0 for v in x["counts"]):
        c = c.astype(rng.choice(["int32", "uint8", "int16", "uint16", "uint64", "int8"]))
    u = np.arange(x["uniq"]) * 2 + 1 if rng.random() < 0.5 else np.array(["k%d" % i for i in range(x["uniq"])])
    rec = dict(x)
    what = f"uniq {plain(u)} counts {plain(c)} with {x['data'] if x['data'] >= 0 else 'no'} observations"
    if x["data"] >= 0:
        obs = np.repeat(u[:1], x["data"]) if len(u) else np.zeros(x["data"], int)
        if x["verdict"] == "accepted":
            obs = np.repeat(u, c)
            rng.shuffle(obs)
        d = call(lambda: DiscreteData(uniq=u, counts=c, data=obs))
    else:
        d = call(DiscreteData.from_counts, u if rng.random() < 0.7 else u.tolist(), c if rng.random() < 0.7 or not len(c)
                 else c.tolist())
    chk.traces += 1
    if x["verdict"] == "refused":
        if not is_exc(d):
            chk.violation(f"{what}: accepted", rec)
        elif "ValueError" not in d["mro"]:
            chk.violation(f"{what}: refused with {d}", rec)
        return
    if is_exc(d):
        chk.violation(f"{what}: refused with {d}", rec)
        return
    names = dict(enumerate(plain(u), 1))
    describe(chk, what, d, x["sum"], names.get, rec)


def run(chk):
    rng = chk.rng
    recorded = []
    for _ in range(400 if not chk.thorough else 2000):
        n = gen.size(rng, 1, 300)
        recorded.append(gen.symbols(rng, n))
    r = chk.tlc("MC_C25", data={"RECORDED": recorded})
    chk.notes["exhaustive"] = True

    def one(x, i):
        if x["mode"] == "sample":
            sample(chk, x["s"], x["sum"], i)
        elif x["mode"] == "recorded":
            sample(chk, recorded[x["id"] - 1], x["sum"], i)
        else:
            counts(chk, x)
        chk.count(x["mode"])
    import json
    chk.each(ordered(chk, r["lines"]), one)
    # nothing to summarise
    for bad in ([], np.array([]), np.zeros((0, 2)), np.array([[1, 2], [3, 4]]), [[1, 2], [1, 2]]):
        d = call(DiscreteData.from_data, bad)
        if not is_exc(d) or "ValueError" not in d["mro"]:
            chk.violation(f"from_data({bad!r}): {d}", {"data": repr(bad)})
    chk.assumptions = ["outcomes are numbers, texts or truth values without NaN; outcomes given with counts are distinct"]
