"""Random requests (cases) with their encodings; every choice comes from the given rng."""
import numpy as np

from api import DISCRETE1, ENCODINGS

BASES = ["e", 2, 10, 3, 1.5, 7.25, 16, 100, 2.0, 10.0, 2.718281828459045, 1.0625, 256, 5]


def base(rng):
    return rng.choice(BASES)


def symbols(rng, n, k=None):
    """A sequence of n small non-negative integers with a random shape."""
    shape = rng.choice(["uniform", "uniform", "skew", "skew", "const", "distinct", "period", "blocks",
                        "rare", "markov"])
    k = k or rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 20, 60, 127])
    if shape == "uniform":
        return [rng.randrange(k) for _ in range(n)]
    if shape == "skew":
        return [min(int(rng.expovariate(1.0)), k) for _ in range(n)]
    if shape == "const":
        return [rng.randrange(5)] * n
    if shape == "distinct":
        s = list(range(n))
        rng.shuffle(s)
        return s
    if shape == "period":
        return [i % k for i in range(n)]
    if shape == "blocks":
        return [(i * k) // n for i in range(n)]
    if shape == "rare":
        s = [0] * n
        s[rng.randrange(n)] = 1
        return s
    s = [rng.randrange(k)]
    while len(s) < n:
        s.append(s[-1] if rng.random() < 0.6 else rng.randrange(k))
    return s


def few(rng, n, k):
    """A long variable with few outcomes."""
    s = [rng.randrange(k)]
    stay = rng.choice([0, 0, 0.5, 0.8])
    while len(s) < n:
        s.append(s[-1] if rng.random() < stay else rng.randrange(k) if rng.random() < 0.7 else 0)
    return [[x] for x in s]


def var(rng, n, width=1, k=None):
    cols = [symbols(rng, n, k) for _ in range(width)]
    return [list(r) for r in zip(*cols)]


def dependent(rng, v, noise=0.2):
    """A variable of width 1 that depends on the rows of v."""
    key = {}
    out = []
    for r in v:
        t = tuple(r)
        key.setdefault(t, rng.randrange(4))
        out.append([rng.randrange(4)] if rng.random() < noise else [key[t]])
    return out


def nvars(rng, n, m, maxwidth=1, k=None):
    vs = [var(rng, n, rng.choice([1] * 3 + list(range(1, maxwidth + 1))), k)]
    for _ in range(m - 1):
        r = rng.random()
        if r < 0.5:
            src = rng.choice(vs)
            vs.append(dependent(rng, src, rng.choice([0, 0.1, 0.5])))
        elif r < 0.6:
            vs.append([list(x) for x in rng.choice(vs)])
        else:
            vs.append(var(rng, n, rng.choice([1] * 3 + list(range(1, maxwidth + 1))), k))
    rng.shuffle(vs)
    return vs


def enc(rng):
    return rng.choice(ENCODINGS)


def size(rng, lo=1, big=300):
    n = rng.choice([rng.randint(1, 6), rng.randint(3, 14), rng.randint(3, 14), rng.randint(10, 40),
                    rng.randint(30, 90), rng.choice([64, 128, big, big - 1])])
    return max(lo, n)


def dpar(rng, ap=None, composite=False):
    ap = ap or rng.choice(DISCRETE1)
    p = {"ap": ap, "K": 0, "mloc": ap == "shrink"}
    if ap == "bayes":
        a = rng.choice([["jeffrey"], ["laplace"], ["sch-grass"], ["min-max"], ["num", 1, 4],
                        ["num", 1, 1], ["num", 3, 1], ["num", 7, 10]])
        p["alpha"] = a
        if a[0] == "num" and a[2] == 1:
            p["alpha_int"] = rng.random() < 0.5
        if a[0] in ("jeffrey", "laplace", "sch-grass"):
            p["alpha_name"] = rng.choice([a[0], a[0], a[0].capitalize(), a[0].upper()])
    if ap in ("bayes", "nsb") or (ap == "ansb" and not composite):
        if rng.random() < 0.4:
            p["K"] = rng.randint(2, 30)
    return p


# ---- real-valued data as small integers times a dyadic scale ------------------------
SCALES = [[1, 1], [1, 1], [1, 2], [1, 4], [3, 8], [8, 1], [1, 64]]


def points(rng, n, width=1, span=None):
    """n integer points of the given width; duplicates, lines and clusters occur."""
    span = span or rng.choice([3, 8, 20, 60])
    shape = rng.choice(["uniform", "uniform", "grid", "cluster", "walk", "distinct"])
    cols = []
    for _ in range(width):
        if shape == "uniform":
            c = [rng.randint(-span, span) for _ in range(n)]
        elif shape == "grid":
            c = [rng.randint(0, 3) * 2 for _ in range(n)]
        elif shape == "cluster":
            cs = [rng.randint(-span, span) for _ in range(3)]
            c = [rng.choice(cs) + rng.randint(-2, 2) for _ in range(n)]
        elif shape == "walk":
            c = [0]
            while len(c) < n:
                c.append(max(-99, min(99, c[-1] + rng.randint(-3, 3))))
        else:
            c = rng.sample(range(-n, n + 1), n)
        cols.append(c)
    if rng.random() < 0.3:      # non-negative data, which unsigned numbers can carry
        cols = [[x - min(c) for x in c] for c in cols]
    return [list(r) for r in zip(*cols)]


def pvars(rng, n, widths, span=None):
    """Several variables, some depending on an earlier one."""
    vs = [points(rng, n, widths[0], span)]
    for w in widths[1:]:
        v = points(rng, n, w, span)
        if rng.random() < 0.5:
            src = rng.choice(vs)
            f = rng.choice([1, -1, 2])
            v = [[f * s[0] + rng.randint(-2, 2)] + r[1:] for s, r in zip(src, v)]
        vs.append(v)
    return vs


def tie_free(rng, n):
    return [[x] for x in rng.sample(range(-2 * n, 2 * n + 1), n)]


def full_rank(cols):
    a = np.array(cols, dtype=float)
    if a.shape[0] < 3:
        return False
    c = np.atleast_2d(np.cov(a, rowvar=False))
    return np.linalg.matrix_rank(c) == c.shape[0] and np.linalg.cond(c) < 1e6 and \
        np.linalg.eigvalsh(c)[0] > 1e-3


def kpar(rng, ap):
    """Settings of one real-valued approach."""
    p = {"ap": ap, "K": 0, "mloc": False}
    if ap in ("metric", "kl", "ksg"):
        p.update(k=rng.choice([1, 1, 2, 3, 4, 5, 5, rng.randint(6, 25)]), ksg=rng.choice([1, 1, 2]), p=rng.choice([0, 0, 0, 1, 2, 3]),
                 sc=rng.choice(SCALES), explicit=rng.random() < 0.5)
    elif ap in ("renyi", "tsallis"):
        p.update(k=rng.choice([1, 2, 3, 4, 5, rng.randint(6, 15)]), q=rng.choice([[1, 1], [1, 2], [2, 1], [3, 2], [3, 1], [4, 5], [6, 5],
               [1, 10], [101, 100], [99, 100], [1001, 1000], [5, 1], [7, 2]]),
                 sc=rng.choice(SCALES), qint=rng.random() < 0.5)
    elif ap == "kernel":
        p.update(ker=rng.choice(["box", "box", "gaussian"]), sc=rng.choice(SCALES[:5]),
                 bw=rng.choice([[1, 1], [1, 2], [2, 1], [3, 1], [3, 4], [5, 2]]), bwint=rng.random() < 0.5)
    elif ap in ("ordinal", "symbolic", "permutation"):
        p.update(d=rng.choice([1, 2, 2, 3, 3, 4, 5]), st=rng.choice([1, 1, 1, 2, 3]), stable=True,
                 sc=rng.choice(SCALES))
    return p


def rcase(rng, kind, ap, nmax=40, maxw=3, par=None):
    """A random request of a real-valued approach: (case, encodings) or None when unsuitable."""
    for _ in range(200):
        c = _rcase(rng, kind, ap, nmax, maxw, dict(par) if par else kpar(rng, ap))
        if c:
            return c
    raise RuntimeError("no suitable case")


REAL_ENC = ["float64", "float64", "list", "readonly", "stride", "fortran", "int64", "list_int",
            "single", "int8", "uint8", "uint16", "uint64"]


def _rcase(rng, kind, ap, nmax, maxw, par):
    ordinal = ap in ("ordinal", "symbolic", "permutation")
    n = rng.randint(4, nmax)
    w = lambda: 1 if ordinal else rng.choice([1, 1, 1, 2, maxw] * 4 + [rng.randint(4, 8)])
    c = {"kind": kind, "par": par}
    step = 1
    if kind in ("te", "cte"):
        step = rng.choice([1, 1, 2, 3])
        c.update(lx=rng.randint(1, 3), ly=rng.randint(1, 3), step=step, prop=0)
        if kind == "te" and rng.random() < 0.5:
            c["prop"] = rng.randint(-3, 3)
            c["via_offset"] = rng.random() < 0.3 and c["prop"] != 0
        if kind == "cte":
            c["lz"] = rng.randint(1, 3)
        if rng.random() < 0.15 and nmax >= 24:
            n = nmax
            step = c["step"] = rng.choice([4, 5])
            for l in ("lx", "ly", "lz"):
                if l in c:
                    c[l] = rng.choice([1, 1, 2, 4])
        if ordinal:
            par["st"] = step
    m = {"h": rng.choice([1, 1, 2, 3]), "hx": 2, "kld": 2, "jsd": rng.choice([2, 2, 3]),
         "mi": rng.choice([2, 2, 2, 3]), "cmi": rng.choice([2, 2, 3]), "te": 2, "cte": 2}[kind]
    if ordinal:
        m = min(m, 2) if kind == "hx" else m
    if kind in ("hx", "kld", "jsd"):
        ww = w()
        c["vars"] = [points(rng, rng.randint(4, nmax), ww) for _ in range(m)]
        if ap in ("kernel",) and rng.random() < 0.5:
            c["vars"] = [points(rng, len(v), ww, 5) for v in c["vars"]]
    else:
        vs = pvars(rng, n, [w() for _ in range(m + 1)])
        if ordinal and (not par.get("stable") or rng.random() < 0.3):
            vs = [tie_free(rng, n) for _ in vs]
            if rng.random() < 0.7:
                par.pop("stable")
        c["vars"] = vs[:m]
        if kind in ("cmi", "cte"):
            c["cond"] = vs[m]
    if ordinal and kind in ("hx", "kld", "jsd"):
        c["vars"] = [[r[:1] for r in v] for v in c["vars"]]
    if kind == "mi":
        c["off"] = rng.choice([0, 0, 0, 1, 2, -1, -3]) if m == 2 else 0
    # enough observations
    if kind in ("te", "cte"):
        eff = n - abs(c["prop"]) * step
        if ordinal:
            eff -= (par["d"] - 1) * par["st"]
        eff = -(-(eff - max(c["lx"], c["ly"], c.get("lz", 0)) * step) // step)
    else:
        eff = min(len(v) for v in c["vars"]) - abs(c.get("off", 0))
        if ordinal:
            eff -= (par["d"] - 1) * par["st"]
    need = par.get("k", 0) + 1
    if eff < max(2, need) or (ap == "kernel" and par["ker"] == "gaussian" and eff < 4):
        return None
    if ap == "kernel" and par["ker"] == "gaussian" and not gauss_ok(c):
        return None
    if kind in ("mi", "cmi") and ap in ("kernel", "metric", "ksg", "renyi", "tsallis") and rng.random() < 0.25 \
            and all(len(v[0]) == 1 for v in c["vars"] + ([c["cond"]] if kind == "cmi" else [])):
        if ap == "kernel" and par["ker"] == "gaussian" and len(c["vars"]) + (kind == "cmi") > 3:
            return None
        if not normable(c, ap):
            return None
        if ap == "kernel" and par["ker"] == "gaussian" and not gauss_ok(c):
            return None
        par["norm"] = True
        par["sc"] = [1, 1]
        if par.get("p", 0) > 1:
            par["p"] = 0
    encs = [rng.choice(REAL_ENC) for _ in range(len(c["vars"]) + 1)]
    if par.get("norm"):         # normalised in the precision of the data
        encs = ["float64" if e == "single" else e for e in encs]
    return c, encs


def offset_pair(v, k):
    x, y = v
    if k > 0:
        return [x[:-k], y[k:]]
    if k < 0:
        return [x[-k:], y[:k]]
    return [x, y]


def normable(c, ap):
    """Stretch every series so that its range (after pairing) is a power of two."""
    vs = offset_pair(c["vars"], c.get("off", 0)) if c["kind"] == "mi" and len(c["vars"]) == 2 else c["vars"]
    for v in vs + ([c["cond"]] if c["kind"] == "cmi" else []):
        vals = [r[0] for r in v]
        r = max(vals) - min(vals)
        if r not in (1, 2, 4, 8):
            lo = min(vals)
            for row in v:           # rows are shared with the case: squeeze in place
                row[0] = (row[0] - lo) * 8 // max(r, 1)
            vals = [q[0] for q in v]
            if max(vals) - min(vals) != 8:
                return False
    return True


def near(P, S, bw):
    """Every point of P has a density under the mixture at S that floating point can represent."""
    if not full_rank(S):
        return False
    m = np.linalg.inv(np.atleast_2d(np.cov(np.array(S, float), rowvar=False))) * (bw[1] / bw[0]) ** 2
    d = np.array(P, float)[:, None] - np.array(S, float)[None]
    return np.einsum("ijk,kl,ijl->ij", d, m, d).min(axis=1).max() < 1000


def gauss_ok(c):
    """The Gaussian estimate needs full-rank covariance in every space it evaluates."""
    k = c["kind"]
    if k in ("hx", "kld"):
        if not near(*c["vars"], c["par"]["bw"]):
            return False
        return all(full_rank(v) for v in c["vars"])
    if k == "jsd":
        return all(full_rank(v) for v in c["vars"]) and full_rank(sum(c["vars"], []))
    cols = lambda *vs: [sum((v[i] for v in vs), []) for i in range(len(vs[0]))]
    if k in ("h", "mi", "cmi"):
        vs = offset_pair(c["vars"], c["off"]) if k == "mi" and len(c["vars"]) == 2 else c["vars"]
        allv = cols(*vs, *([c["cond"]] if k == "cmi" else []))
        return len(allv[0]) <= 5 and len(allv) > len(allv[0]) + 2 and full_rank(allv)
    s, n = c["step"], len(c["vars"][0])
    x, y = offset_pair(c["vars"], c["prop"] * s)
    z = c.get("cond")
    m = max(c["lx"], c["ly"], c.get("lz", 0)) * s
    rows = []
    for t in range(m, len(y), s):
        r = list(y[t])
        for v, l in ((x, c["lx"]), (y, c["ly"])) + (((z, c["lz"]),) if z else ()):
            for j in range(1, l + 1):
                r += v[t - j * s]
        rows.append(r)
    return len(rows[0]) <= 6 and len(rows) > len(rows[0]) + 2 and full_rank(rows)


def tally(rng, counts):
    """A count vector as a caller may hold it: any integer type, any order, any names of the outcomes,
    outcomes listed that never occurred."""
    cnt = list(counts)
    if rng.random() < 0.3:
        cnt += [0] * rng.choice([1, 1, 3])
    if rng.random() < 0.7:
        rng.shuffle(cnt)
    uniq = rng.sample(range(-3 * len(cnt), 3 * len(cnt)), len(cnt))
    if rng.random() < 0.3:
        uniq = [f"v{u}" for u in uniq]
    fits = [t for t in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64")
            if max(cnt) <= np.iinfo(t).max]
    t = rng.choice(["list", "int64"] + 2 * fits)
    return uniq if rng.random() < 0.5 else np.array(uniq), cnt if t == "list" else np.array(cnt, dtype=t)
