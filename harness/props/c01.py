"""C01: plug-in entropy of every small sample (exhaustive) and of recorded larger ones."""
import json
import gen
import numpy as np
from api import ENCODINGS, call, im, is_exc, num
from replay import replay
from .common import ordered, play, scaled


def one(chk, case, ans, encs, base, tuple_=False, want2d=None):
    replay(chk, case, ans, encs, base, want2d=want2d, tuple_=tuple_)


def merged(vs):
    return [sum((v[i] for v in vs), []) for i in range(len(vs[0]))]


def run(chk):
    rng = chk.rng
    cls = im.get_estimator_class(measure="entropy", approach="discrete")
    # A. behaviours of the exhaustive model, replayed
    r = chk.tlc("MC_C01")
    chk.notes["exhaustive"] = True
    for i, x in enumerate(ordered(chk, r["lines"])):
        case, ans = x["case"], x["ans"]
        m = len(case["vars"])
        encs = [chk.rng.choice(ENCODINGS) for _ in range(m)]
        base = gen.BASES[i % len(gen.BASES)]
        one(chk, case, ans, encs, base)
        if m == 2:  # the same joint sample as one two-dimensional array
            c2 = dict(case, vars=[merged(case["vars"])])
            one(chk, c2, ans, [chk.rng.choice(ENCODINGS)], base)
        else:  # from the counts alone
            xs = [row[0] for row in case["vars"][0]]
            uniq, cnt = gen.tally(chk.rng, [xs.count(u) for u in sorted(set(xs))])
            e = call(cls.from_counts, uniq, cnt, base=base)
            g = e if is_exc(e) else num(call(e.global_val))
            chk.compare(f"entropy from counts {cnt!r} of {uniq!r}", g, ans["g"],
                        {"counts": list(map(int, cnt)), "base": base}, base=base)
            chk.traces += 1
        if i % 900 == 5:
            chk.sample({"case": case, "answer": ans["g"]})
    # B. recorded larger samples, answered by TLC
    cases, meta = [], []
    for j in range(900 if chk.thorough else 260):
        n = gen.size(rng)
        form = rng.choice(["one", "one", "array", "tuple", "tuple2d", "col"])
        if form == "one":
            vs = [gen.var(rng, n)]
        elif form == "array":
            vs = [gen.var(rng, n, rng.randint(2, 5), rng.choice([2, 3, None]))]
        elif form == "col":
            vs = [gen.var(rng, n)]
        elif form == "tuple2d":
            vs = [gen.var(rng, n, rng.randint(1, 3), 2) for _ in range(rng.randint(2, 3))]
        else:
            vs = gen.nvars(rng, n, rng.randint(1, 4))
        cases.append({"kind": "h", "par": {"ap": "discrete", "K": 0}, "vars": vs})
        meta.append(([gen.enc(rng) for _ in vs], gen.base(rng), form == "tuple", form == "col" or None))
    # outcomes whose ranges multiply beyond narrow number types
    for enc, span in (("int8", 120), ("uint8", 250), ("int16", 3000), ("uint16", 9000), ("int32", 10**6),
                      ("uint32", 10**6), ("int64", 10**8), ("big", 5000), ("hash", 10**6), ("neg", 10**8)):
        for form in ("array", "tuple"):
            n, w = rng.randint(150, 300), rng.choice([2, 2, 3])
            vs = [gen.var(rng, n, w, 0)] if form == "array" else [gen.var(rng, n, 1, 0) for _ in range(w)]
            vs = [[[rng.randrange(span // 2, span) if rng.random() < .5 else rng.randrange(17) for _ in r] for r in v]
                  for v in vs]
            cases.append({"kind": "h", "par": {"ap": "discrete", "K": 0}, "vars": vs})
            meta.append(([enc] * len(vs), gen.base(rng), form == "tuple", None))
    for case, ans, (encs, base, tup, w2) in zip(cases, chk.expect(cases), meta):
        if len(case["vars"]) > 1:
            # columns of one joint variable must be able to share an array
            encs = ["str" if e == "lstr" else e for e in encs]
        one(chk, case, ans, encs, base, tup, w2)
    # samples of up to 140000 observations: everything scales with the counts
    play(chk, [scaled(rng, "h", "discrete") for _ in range(60 if chk.thorough else 24)], procs=4)
    # very many columns, all of them varying
    recs = []
    for w in (33, 64, 65, 70, 130, 300):
        n = rng.randint(6, 30)
        fill = [[rng.randrange(2) for _ in range(n)]] * (w - 1)
        if rng.random() < 0.5:
            fill = [[rng.randrange(3) for _ in range(n // 2)] * 3 for _ in range(w - 1)]
        cols = [[rng.randrange(2) for _ in range(n)]] + [f[:n] for f in fill]
        if rng.random() < 0.3:
            cols = cols[::-1]
        v = [list(r) for r in zip(*cols)]
        recs.append(({"kind": "h", "par": {"ap": "discrete", "K": 0}, "vars": [v]},
                     [rng.choice(["int64", "int8", "bool", "uint8", "float64", "fortran"])]))
        recs.append(({"kind": "h", "par": {"ap": "discrete", "K": 0}, "vars": [[[x] for x in c] for c in cols]},
                     ["int64"] * w))
    play(chk, recs)
    # counts given directly, including large ones
    cases, meta = [], []
    for j in range(40):
        k = rng.randint(1, 12)
        cnt = [rng.randint(1, rng.choice([1, 3, 40])) for _ in range(k)]
        xs = [[u] for u, c in enumerate(cnt) for _ in range(c)]
        cases.append({"kind": "h", "par": {"ap": "discrete", "K": 0}, "vars": [xs]})
        meta.append((cnt, gen.base(rng)))
    for case, ans, (cnt, base) in zip(cases, chk.expect(cases), meta):
        labels = ["x%d" % i for i in range(len(cnt))] if len(cnt) % 2 else list(range(-3, len(cnt) - 3))
        e = call(cls.from_counts, labels, np.array(cnt, dtype=rng.choice(["int64", "int32", "uint16", "uint8"])),
                 base=base)
        g = e if is_exc(e) else num(call(e.global_val))
        chk.compare(f"entropy from counts {cnt}", g, ans["g"], {"counts": cnt, "base": base}, base=base)
        chk.traces += 1
    chk.assumptions = ["floating-point answers are compared with the specification's exact terms at 1e-9 relative"]
