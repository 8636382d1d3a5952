"""Requests for statistical tests, shared by C18, C19, C20 and C26."""
import gen
from api import DISCRETE1, make
from replay import inputs_of, is_real
from .common import dcase

REAL1 = ["metric", "renyi", "tsallis", "kernel", "ordinal"]
APS = DISCRETE1 + REAL1
KINDS = ("mi", "cmi", "te", "cte")


def windows(c):
    """Number of observations a test rearranges."""
    n = len(c["vars"][0]) - ((c["par"]["d"] - 1) * c["par"]["st"] if "d" in c["par"] else 0)
    if c["kind"] in ("te", "cte"):
        n -= abs(c["prop"]) * c["step"]
        m = max(c["lx"], c["ly"], c.get("lz", 0)) * c["step"]
        return max(0, -(-(n - m) // c["step"]))
    return n - abs(c.get("off", 0))


def small(rng, kind, ap, rows, width=1, plain=False):
    """A request whose source has exactly `rows` rearrangeable rows."""
    par = gen.dpar(rng, ap, composite=True) if ap in DISCRETE1 else gen.kpar(rng, ap)
    if ap == "nsb":
        par["K"] = 0
    if "k" in par:
        par["k"] = min(par["k"], max(1, rows // 2 - 1))
    if ap == "kernel":
        par["ker"] = "box"
    c = {"kind": kind, "par": par}
    n = rows
    if ap == "ordinal":
        par["d"] = rng.choice([1, 2, 2, 3])
        par["stable"] = True
        width = 1
    if kind in ("te", "cte"):
        s = rng.choice([1, 1, 2]) if not plain else 1
        if ap == "ordinal":
            par["st"] = s
        c.update(lx=rng.choice([1, 1, 2]), ly=rng.choice([1, 1, 2]), step=s, prop=0)
        if kind == "te":
            c["prop"] = rng.choice([0, 0, 1, -1])
        else:
            c["lz"] = rng.choice([1, 1, 2])
        n = max(c["lx"], c["ly"], c.get("lz", 0)) * s + (rows - 1) * s + 1 + abs(c["prop"]) * s
        if ap == "ordinal":
            n += (par["d"] - 1) * s
    elif kind == "mi":
        c["off"] = rng.choice([0, 0, 0, 1, -1, 2])
        n += abs(c["off"])
    if ap == "ordinal" and kind in ("mi", "cmi"):
        n += (par["d"] - 1) * par["st"]
    m = 3 if kind[0] == "c" else 2
    if ap in DISCRETE1:
        vs = [gen.var(rng, n, rng.choice([1, 1, width]), rng.choice([2, 2, 3])) for _ in range(m)]
        if kind == "cmi" and ap == "miller_madow":
            vs[2] = [r[:1] for r in vs[2]]
    elif ap == "ordinal":
        vs = [gen.points(rng, n, 1) for _ in range(m)]
    else:
        vs = [[[rng.randint(-40, 40) for _ in r] for r in gen.points(rng, n, rng.choice([1, 1, width]))]
              for _ in range(m)]
    c["vars"] = vs[:2]
    if m == 3:
        c["cond"] = vs[2]
    encs = [rng.choice(["int64", "float64", "list", "readonly"]) if not is_real(c) else
            rng.choice(["float64", "list", "readonly", "stride"]) for _ in range(3)]
    assert windows(c) == rows, (c, windows(c))
    return c, encs


def general(rng, kind, ap, nmax=40):
    """A request of any size for a test (exactly two variables)."""
    while True:
        if ap in DISCRETE1:
            c, e = dcase(rng, kind, ap, nmax, 2, m=2)
        else:
            c, e = gen.rcase(rng, kind, ap, nmax, 2)
        if len(c["vars"]) == 2:
            return c, e


def estimator(case, encs, seed, base="e", extra=None):
    return make(case, inputs_of(case, encs), base, dict(extra or {}, seed=seed))
