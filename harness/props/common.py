"""Recorded random requests, answered by TLC and compared with the library."""
import json
import random

import gen
from api import DISCRETE1
from replay import replay


def record_real(chk, plan, nmax=30, maxw=3, par=None):
    """plan: (kind, approach, count) triples; returns (case, encodings) pairs."""
    return [gen.rcase(chk.rng, kind, ap, nmax, maxw, par) for kind, ap, n in plan for _ in range(n)]


def play(chk, recs, bases=True, tol=1e-9, sample_every=0, procs=8, **kw):
    def one(x, i):
        (case, encs), ans = x
        replay(chk, case, ans, encs, gen.base(chk.rng) if bases else "e", tol=tol, **kw)
        if sample_every and i % sample_every == 3:
            chk.sample({"case": case, "answer": ans["g"]})
    chk.each(zip(recs, chk.expect([c for c, _ in recs])), one, procs)


def record_discrete(chk, kind, aps, count, nmax=200, maxw=3, **kw):
    return [dcase(chk.rng, kind, chk.rng.choice(aps), nmax, maxw, **kw) for _ in range(count)]


def dcase(rng, kind, ap, nmax=200, maxw=3, m=None):
    n = min(gen.size(rng, 2, nmax), nmax)
    if ap in ("nsb", "zhang"):
        n = min(n, 40)
    c = {"kind": kind, "par": gen.dpar(rng, ap, composite=True)}
    if kind in ("hx", "kld", "jsd"):
        w = rng.choice([1, 1, 2, 3])
        k = rng.choice([2, 3, 5])
        m = m or (2 if kind != "jsd" else rng.choice([2, 2, 3, 4, 5, 6]))
        c["vars"] = [gen.var(rng, rng.choice([n, rng.randint(1, nmax)]), w, k) for _ in range(m)]
    elif kind in ("te", "cte"):
        s = rng.choice([1, 1, 1, 2, 3])
        lx, ly, lz = (rng.choice([1, 1, 2, 3]) for _ in range(3))
        p = rng.choice([0, 0, 1, 2, -1, -2]) if kind == "te" else 0
        if rng.random() < 0.25 and nmax >= 50:       # long strides, histories and delays
            s = rng.choice([1, 2, 4, 5, 7])
            lx, ly, lz = (rng.choice([1, 2, 4, 6]) for _ in range(3))
            p = rng.choice([0, 3, 5, -3, -7]) if kind == "te" else 0
        need = max(lx, ly, lz) * s + abs(p) * s + 1
        n = max(n, need + rng.randint(0, 3))
        vs = gen.nvars(rng, n, 3, maxw if rng.random() < 0.3 else 1, rng.choice([2, 2, 3, 4]))
        if rng.random() < 0.5:      # the destination follows the source
            lag = rng.randint(1, 3)
            if len(vs[0][0]) == len(vs[1][0]):
                vs[1] = [list(vs[0][max(0, t - lag)]) if rng.random() < 0.8 else vs[1][t] for t in range(n)]
        c.update(vars=vs[:2], lx=lx, ly=ly, step=s, prop=p)
        if kind == "te" and p and rng.random() < 0.4:
            c["via_offset"] = True
        if kind == "cte":
            c.update(cond=vs[2], lz=lz)
    else:
        m = m or rng.choice([2, 2, 2, 3, 4])
        vs = gen.nvars(rng, n, m + 1, maxw)
        c["vars"] = vs[:m]
        if kind == "cmi":
            c["cond"] = vs[m]
            if ap == "miller_madow":
                c["cond"] = [r[:1] for r in vs[m]]
        if kind == "mi":
            c["off"] = 0
            if m == 2 and n > 3 and rng.random() < 0.4:
                c["off"] = rng.choice([1, 2, -1, -2, n - 1, 1 - n, n // 2])
    if kind in ("hx", "kld", "jsd"):
        return c, shared_encs(rng, len(c["vars"]))
    encs = [gen.enc(rng) for _ in range(len(c["vars"]) + 1)]
    return c, encs


LONG_NS = {"discrete": [1100, 2500, 5000], "ordinal": [600, 1100, 2500, 4000]}


def long(chk, plan):
    """Long series: (kind, approach, count) triples."""
    rng, out = chk.rng, []
    for kind, ap, count in plan:
        for _ in range(count * (3 if chk.thorough else 1)):
            n = rng.choice(LONG_NS.get(ap, [300, 600, 1100]) if ap in DISCRETE1 or ap == "ordinal" else
                           [130, 200] + ([300, 400] if chk.thorough else []))
            if ap in ("nsb", "zhang"):
                n = 120
            k = rng.choice([2, 3, 4])
            if ap in DISCRETE1:
                par = gen.dpar(rng, ap, composite=True)
                vs = [gen.few(rng, n, k) for _ in range(3)]
                vs[1] = gen.dependent(rng, vs[0], 0.4) if rng.random() < 0.5 else vs[1]
            else:
                par = gen.kpar(rng, ap)
                if ap == "kernel":
                    par["ker"] = "box"
                if ap == "ordinal":
                    par["d"] = rng.choice([2, 3])
                vs = gen.pvars(rng, n, [1, 1, 1], rng.choice([20, 60, 200]))
            c = {"kind": kind, "par": par, "vars": vs[:1 if kind == "h" else 2]}
            if kind in ("te", "cte"):
                far = rng.choice([1, 1, 2, 7, 30, 100]) if n > 500 and (ap in DISCRETE1 or ap == "ordinal") else rng.choice([1, 2, 7])
                h = (1, 1, 2) if ap == "ordinal" else (1, 2, 3)
                c.update(lx=rng.choice(h), ly=rng.choice(h), step=far, prop=0)
                if ap in DISCRETE1 and k > 2:       # few joint outcomes
                    c["lx"], c["ly"] = rng.choice([(1, 1), (1, 2), (2, 1)])
                if kind == "te":
                    c["prop"] = rng.choice([0, 1, 3, -2])
                else:
                    c.update(lz=1 if ap == "ordinal" or k > 2 else rng.randint(1, 3))
                if ap == "ordinal":
                    par["st"] = far
            if kind == "mi":
                c["off"] = rng.choice([0, 1, -1, 40, -70, n // 2, 3 - n // 2])
            if kind in ("cmi", "cte"):
                c["cond"] = vs[2]
            out.append((c, ["int64"] * 3 if ap in DISCRETE1 else [rng.choice(["float64", "readonly", "stride"])] * 3))
    return out


def settings(ap):
    """Every kind of setting an approach has, one by one."""
    p = {"ap": ap, "K": 0, "mloc": ap == "shrink"}
    if ap == "bayes":
        names = [[a] for a in ("jeffrey", "laplace", "sch-grass", "min-max")]
        return [dict(p, alpha=a, K=k) for a in names + [["num", 1, 4], ["num", 3, 1]] for k in (0, 9, 30)]
    if ap == "nsb":
        return [dict(p, K=k) for k in (0, 30)]
    if ap in ("metric", "ksg"):
        return [dict(p, k=k, ksg=g, p=q, sc=[1, 2], explicit=True)
                for k in (1, 3) for g in (1, 2) for q in (0, 1, 2, 3)]
    if ap in ("renyi", "tsallis"):
        return [dict(p, k=k, q=q, sc=[1, 2]) for k in (1, 3) for q in ([1, 1], [1, 2], [2, 1], [3, 2])]
    if ap == "kernel":
        return [dict(p, ker=k, bw=b, sc=[1, 2]) for k in ("box", "gaussian") for b in ([1, 2], [3, 1])]
    if ap in ("ordinal", "symbolic", "permutation"):
        return [dict(p, d=d, st=1, stable=True, sc=[1, 1]) for d in (1, 2, 3, 4)]
    return [p]


def sweep(chk, kinds, aps, n=30):
    """One recorded request per kind and setting of every approach."""
    out = []
    for kind in kinds:
        for ap in aps:
            for par in settings(ap):
                if ap in DISCRETE1:
                    c, e = dcase(chk.rng, kind, ap, n, 2)
                    c["par"] = par
                else:
                    c, e = gen.rcase(chk.rng, kind, ap, n, 2, par)
                out.append((c, e))
    return out


MIXABLE = ["int64", "list", "int8", "uint8", "int16", "int32", "uint16", "uint64", "float64",
           "fortran", "stride", "readonly", "float32", "object", "uint32", "revstride"]


def shared_encs(rng, m):
    """Encodings under which equal integers stay equal outcomes across samples."""
    r = rng.random()
    if r < 0.4:
        return [rng.choice(["str", "lstr", "neg", "big", "int64"])] * m
    if r < 0.7:
        return [rng.choice(MIXABLE)] * m
    return [rng.choice(MIXABLE) for _ in range(m)]


def ordered(chk, lines):
    """The behaviours in a reproducible order that is unrelated to their content."""
    lines = sorted(lines, key=lambda x: json.dumps(x, sort_keys=True))
    random.Random(f"order-{chk.seed}").shuffle(lines)
    return lines


def exhaust(chk, module, encs_of=None, cfg=None, stride=1, every=700, fix=None, bases=True, **kw):
    """Replay every behaviour of an exhaustive model on the library."""
    from api import ENCODINGS
    r = chk.tlc(module, cfg)
    chk.notes["exhaustive"] = True
    lines = ordered(chk, r["lines"])
    chk.notes["model_behaviours"] = chk.notes.get("model_behaviours", 0) + len(lines)
    def one(x, i):
        if stride > 1 and i % stride != chk.seed % stride:
            return
        case, ans = x["case"], x["ans"]
        if fix:
            fix(case, i)
        m = len(case["vars"]) + 1
        if encs_of:
            encs = encs_of(case, i)
        else:
            encs = [chk.rng.choice(ENCODINGS) for _ in range(m)]
        replay(chk, case, ans, encs, gen.BASES[i % len(gen.BASES)] if bases else "e", **kw)
        if i % every == 11:
            chk.sample({"case": case, "answer": ans["g"]})
    chk.each(lines, one)
    return lines


def scaled(rng, kind, ap, total=None, rare=None):
    """A request on a sample that stands for itself many times over: every observation equally often
    (case["par"]["rep"]), or a few observations often and the others rarely (case["par"]["w"])."""
    c, _ = dcase(rng, "mi" if kind == "h" else kind, ap, 30 if kind != "cmi" else 24, 2)
    if kind == "h":
        c["kind"] = "h"
        c.pop("off")
        c["vars"] = c["vars"][:rng.choice([1, 1, 2])]
    n = len(c["vars"][0])
    if kind in ("hx", "kld", "jsd"):
        n = max(len(v) for v in c["vars"])
    if "off" in c:
        c["off"] = 0
    total = total or rng.choice([300, 1100, 2500, 6000, 20000, 33000, 66000, 70000, 140000])
    if ap == "zhang":
        total = rng.choice([300, 1100, 2100, 3000])
    elif ap == "bonachela":
        total = rng.choice([300, 1100, 5000, 20000])
    elif ap == "nsb":
        total = 60
    elif ap in ("chao_wang_jost", "grassberger"):
        total = min(total, 70000)
    c["_how"] = rng.choice(["blocks", "concat"])
    if kind in ("hx", "kld", "jsd") or ap == "shrink" and kind != "h" \
            or (rng.random() < 0.4 if rare is None else not rare):
        c["par"]["rep"] = max(2, -(-total // n))
    else:       # a few observations carry the sample, the others are rare
        few = rng.sample(range(n), rng.randint(1, min(3, n)))
        c["par"]["w"] = [total // len(few) if i in few else rng.choice([1, 1, 2, 3, 20]) for i in range(n)]
        c["_how"] = "blocks"
    if kind in ("hx", "kld", "jsd"):
        return c, shared_encs(rng, len(c["vars"]))
    e = lambda: rng.choice([x for x in MIXABLE + ["str", "bool", "neg", "big", "hash"] if x != "object"])
    return c, [e() for _ in range(len(c["vars"]) + 1)]


def stretched(chk, recs, exps=(-45, -36, -20, -8, 12, 33), share=0.5):
    """Some of the recorded requests again, at very small and very large units of measurement."""
    out = []
    for c, e in recs:
        if c["par"].get("norm") or chk.rng.random() > share:
            continue
        c = json.loads(json.dumps(c))
        c["par"]["x2"] = chk.rng.choice(exps)
        a, b = c["par"].get("q", [1, 1])
        if abs(c["par"]["x2"]) * dimensions(c) * max(1, abs(a - b) / b) < 700:   # volumes have to be representable
            out.append((c, e))
    return out


def noisy(chk, kinds, aps, count):
    """Points in general position with the default noise, or one as small, which hardly matters there."""
    rng, out = chk.rng, []
    for kind in kinds:
        for ap in aps:
            for _ in range(count):
                par = gen.kpar(rng, ap)
                par["sc"] = [1, 1]
                par["noise"] = rng.choice(["default", "default", 1e-9, 1e-7])
                if kind == "h" and ap in ("renyi", "tsallis"):
                    del par["noise"]
                par["k"] = min(par["k"], 4)
                if par.get("p") == 3:
                    par["p"] = 0
                span = 10**4 if par.get("p", 2) == 2 else 10**8
                n, w = rng.randint(8, 30), [rng.choice([1, 1, 2]) for _ in range(3)]
                vs = [[[rng.randint(-span, span) for _ in range(d)] for _ in range(n)] for d in w]
                if rng.random() < 0.5:
                    vs[1] = [[x[0] // 2 + r[0] // 4] + r[1:] for x, r in zip(vs[0], vs[1])]
                c = {"kind": kind, "par": par, "vars": vs[:1 if kind == "h" else 2]}
                if kind == "mi":
                    c["off"] = rng.choice([0, 0, 2])
                if kind in ("te", "cte"):
                    if span == 10**4:
                        c["vars"] = [[r[:1] for r in v] for v in c["vars"]]
                    c.update(lx=1, ly=1, step=1, prop=0)
                if kind in ("cmi", "cte"):
                    c["cond"] = [r[:1] for r in vs[2]]
                if kind == "cte":
                    c["lz"] = 1
                out.append((c, [rng.choice(["float64", "int64", "list", "fortran"]) for _ in range(3)]))
    return out


def copied(chk, recs, totals, share=0.3):
    """Some of the recorded requests again, on very many points: far translates of the same ones."""
    out = []
    for c, e in recs:
        p = c["par"]
        n = min(len(v) for v in c["vars"])
        if p.get("norm") or p.get("ker") == "gaussian" or c["kind"] in ("te", "cte") or c.get("off") \
                or p.get("k", 0) >= n or chk.rng.random() > share:
            continue
        c = json.loads(json.dumps(c))
        total = chk.rng.choice(totals)
        if c["kind"] in ("mi", "cmi") and p["ap"] in ("metric", "ksg", "kernel") and chk.rng.random() < 0.6:
            m = [chk.rng.random() < 0.5 for _ in range(len(c["vars"]) + (c["kind"] == "cmi"))]
            if any(m):
                c["par"]["moved"] = m
                total = min(total, 3000)
        c["par"]["copies"] = max(2, total // n)
        out.append((c, [x if x in ("mirror", "shift", "mshift", "fortran", "stride") else "float64" for x in e]))
    return out


def dimensions(c):
    """The number of coordinates of the joint space of a request."""
    w = [len(v[0]) for v in c["vars"]] + ([len(c["cond"][0])] if "cond" in c else [])
    if c["kind"] in ("te", "cte"):
        return w[0] * c["lx"] + w[1] * (c["ly"] + 1) + (w[2] * c["lz"] if len(w) > 2 else 0)
    return sum(w)


def fractional(chk, kinds, n):
    """Minkowski exponents 3/2 and 5/2: coordinates whose differences are all squares."""
    rng, out = chk.rng, []
    for kind in kinds:
        for _ in range(n):
            m, c = rng.randint(12, 40), None
            w = [rng.randint(1, 5 if kind == "h" else 3) for _ in range(3)]
            ladder = rng.choice([[0, 9, 25], [0, 16, 25], [0, 1], [0, 4], [0, 144, 169], [0, 25, 169]])
            vs = [[[rng.choice(ladder) for _ in range(k)] for _ in range(m)] for k in w]
            par = {"ap": "metric", "K": 0, "mloc": False, "k": rng.randint(1, 4), "ksg": rng.choice([1, 1, 2]),
                   "p": rng.choice([-3, -5]), "sc": rng.choice([[1, 1], [1, 4], [8, 1]])}
            c = {"kind": kind, "par": par, "vars": vs[:1] if kind == "h" else vs[:2]}
            if kind == "mi":
                c["off"] = 0
            if kind == "cmi":
                c["cond"] = vs[2]
            out.append((c, ["float64"] * 3))
    return out
