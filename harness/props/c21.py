"""C21: measures leave the caller's data and the global random state alone."""
import copy
import json
import random
from api import DISCRETE1, call, encode, encode_real, im, is_exc, make, np, num, observe, par_kwargs, request
import gen
from replay import REFUSE_LOCAL, brief, is_real
from .common import dcase, ordered
from .c20 import Failing
from .stat import APS, general

CONTAINERS = ["array", "list", "readonly", "fortran", "stride", "back", "inner", "float", "object"]
COMPOSITE = ("jsd", "kld")


class Buffer:
    """Memory of the caller holding one of two contents."""

    def __init__(self, contents, how):
        self.contents = [np.asarray(c) for c in contents]
        a = self.contents[0]
        self.base = None
        if how in ("list",):
            self.obj = a.tolist()
        elif how == "stride":
            self.base = np.repeat(a, 3, axis=0)
            self.obj = self.base[::3]
        elif how == "back":
            self.base = a[::-1].copy()
            self.obj = self.base[::-1]
        elif how == "inner":
            self.base = np.zeros((a.shape[0] + 4,) + a.shape[1:], a.dtype)
            self.obj = self.base[2:-2]
            self.obj[...] = a
        elif how == "fortran":
            self.base = self.obj = np.asfortranarray(a.copy())
        elif how == "readonly":
            self.base = a.copy()
            self.obj = self.base.view()
            self.obj.flags.writeable = False
        elif how == "object" and a.ndim == 1:
            self.base = self.obj = a.copy()
        else:
            self.base = self.obj = a.copy()
        self.how = how
        self.ver = 0
        self.note()

    def write(self):
        self.ver = 1 - self.ver
        c = self.contents[self.ver]
        if self.base is None:
            new = c.tolist()
            for i, v in enumerate(new):
                if isinstance(v, list):
                    self.obj[i][:] = v
                else:
                    self.obj[i] = v
        elif self.how == "readonly":
            self.base[...] = c
        else:
            self.obj[...] = c
        self.note()

    def picture(self):
        if self.base is None:
            return repr(self.obj), len(self.obj)
        return (self.base.tobytes(), self.obj.tobytes(), str(self.obj.dtype), self.obj.shape, self.obj.strides,
                self.obj.flags.writeable, self.base.flags.writeable, self.base.shape)

    def note(self):
        self.last = self.picture()
        if not np.array_equal(np.asarray(self.obj), self.contents[self.ver]):
            raise AssertionError("the harness writes its own buffers")

    def untouched(self):
        return self.picture() == self.last


def variants(rng, case):
    """A second content for each of the two buffers, of the same shape and with the same kind of values."""
    new = copy.deepcopy(case)
    for v in new["vars"]:
        rng.shuffle(v)
    if new["vars"] == case["vars"]:
        for v in new["vars"]:
            v.reverse()
    return new


def swapped(case):
    c = copy.deepcopy(case)
    c["vars"] = c["vars"][::-1]
    if c["kind"] in ("te", "cte"):
        c["lx"], c["ly"] = case["lx"], case["ly"]
    return c


def pool(chk):
    rng, out = chk.rng, []
    n = 4 if chk.thorough else 2
    for kind in ("h", "hx", "mi", "cmi", "te", "cte", "jsd", "kld"):
        for ap in APS:
            if ap == "nsb" and kind != "h":
                continue
            if kind in ("hx", "kld") and ap in DISCRETE1 and ap not in ("discrete", "miller_madow", "bayes"):
                continue
            if kind == "jsd" and ap not in ("discrete", "bayes", "shrink", "ordinal", "kernel"):
                continue
            scaled = kind in ("mi", "cmi") and ap in ("metric", "renyi", "tsallis", "kernel")
            for rep in range(n + scaled):
                for _ in range(400):
                    if kind in ("h", "hx", "jsd", "kld"):
                        if ap in DISCRETE1:
                            c, e = dcase(rng, "mi" if kind == "h" else kind, ap, 12, 2, **({"m": 2} if kind == "jsd" else {}))
                            c["kind"] = kind
                            c.pop("off", None)
                        else:
                            c, e = gen.rcase(rng, "hx" if kind == "h" else kind, ap, 12, 2)
                            c["kind"] = kind
                            c.pop("off", None)
                    else:
                        c, e = general(rng, kind, ap, 12)
                        if c["par"].get("norm") and c.get("off") or scaled and (rep == n) != c["par"].get("norm", False):
                            continue
                    if ap == "kernel":
                        c["par"]["ker"] = "box"
                    c.pop("_rep", None)
                    c.pop("via_offset", None)
                    if len(c["vars"]) == 2:
                        break
                else:
                    continue
                w = variants(rng, c)
                vers = {}
                for i in (0, 1):
                    for j in (0, 1):
                        d = copy.deepcopy(c)
                        d["vars"] = [w["vars"][0] if i else c["vars"][0], w["vars"][1] if j else c["vars"][1]]
                        vers[(i, j)] = d
                cls = "composite" if kind in COMPOSITE else "joint" if kind == "hx" else "single" if kind == "h" \
                    else "tested"
                out.append({"kind": kind, "ap": ap, "cls": cls, "case": c, "other": w, "vers": vers})
                # the joint entropy reads both buffers
                if kind == "h" and len(c["vars"][0]) == len(c["vars"][1]) and ap not in ("metric", "renyi", "tsallis", "kernel"):
                    out.append({"kind": kind, "ap": ap, "cls": "joint", "case": c, "other": w, "vers": vers})
    return out


def reading(entry, obj, ver):
    """The case object A or B answers when the buffers hold ver."""
    d = copy.deepcopy(entry["vers"][tuple(ver)])
    if entry["cls"] == "single":
        d["vars"] = [d["vars"][0 if obj == "A" else 1]]
        return d
    return swapped(d) if obj == "B" else d


def raw(case, v):
    sc = case["par"].get("sc", [1, 1])
    return encode_real(v, sc, "float64") if is_real(case) else encode(v, "int64")


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


BAD = [{"base": -2}, {"unheard": 1}, {"base": "foo"}]


def run(chk):
    r = chk.tlc("MC_C21")
    lines = ordered(chk, r["lines"])
    chk.notes["exhaustive"] = True
    chk.notes["model_behaviours"] = len(lines)
    P = pool(chk)
    asked, where = [], []
    for i, p in enumerate(P):
        p["ans"] = {}
        for obj in "AB":
            for v in p["vers"]:
                asked.append(reading(p, obj, v))
                where.append((i, obj, v))
    for (i, obj, v), a in zip(where, chk.expect(asked)):
        P[i]["ans"][(obj, v)] = a
    P = [p for p in P if not any(a["frag"] for a in p["ans"].values())]
    by = {c: [p for p in P if p["cls"] == c] for c in ("single", "joint", "tested", "composite")}
    chk.notes["requests"] = {c: len(v) for c, v in by.items()}

    def one(x, i):
        ps = by[x["class"]]
        pick = random.Random(f"pick-{chk.seed}-{i}")
        p = pick.choice(ps)
        chk.traces += 1
        noisy = x["class"] == "tested" and p["ap"] in ("metric", "renyi", "tsallis") and pick.random() < 0.3
        Walk(chk, p, x, i, noisy).go()
        if i % 3001 == 5:
            chk.sample({"request": brief(p["case"]), "history": [d["act"] + d["obj"] + str(d["buf"] or "") for d in x["hist"]],
                        "answers": [o["tag"] for o in x["out"]]})
    chk.each(lines, one)
    chk.assumptions = ["an estimator reads the caller's buffers until its first answer; a first answer after the caller wrote is open",
                       "writing into an array the library returned is the caller's own business and left open"]


class Walk:
    def __init__(self, chk, p, x, i, noisy):
        self.chk, self.p, self.x, self.i, self.noisy = chk, p, x, i, noisy
        c = p["case"]
        self.rng = random.Random(f"{chk.seed}-{i}")
        hows = [self.rng.choice(CONTAINERS) for _ in range(3)]
        if c["kind"] in COMPOSITE:
            hows = [h for h in hows]
        self.buf = [Buffer([raw(c, c["vars"][k]), raw(c, p["other"]["vars"][k])], hows[k]) for k in (0, 1)]
        self.cond = Buffer([raw(c, c["cond"])] * 2, hows[2]) if "cond" in c else None
        self.base = gen.BASES[i % len(gen.BASES)]
        self.cmp_base = "e" if c["par"]["ap"] == "tsallis" and c["par"]["q"][0] != c["par"]["q"][1] else self.base
        self.rec = {"case": c, "other": p["other"]["vars"], "containers": hows, "class": x["class"],
                    "history": x["hist"], "index": i}
        self.ests, self.given, self.held = {}, {}, []
        self.gens = {}

    def inputs(self, obj):
        b = self.buf if obj == "A" else self.buf[::-1]
        vs = [q.obj for q in b]
        if self.x["class"] == "single":
            vs = vs[:1]
        out = {"vars": vs}
        if self.cond is not None:
            out["cond"] = self.cond.obj
        return out

    def make(self, obj):
        self.gens[obj] = Failing(np.random.PCG64(self.i))
        extra = {} if self.p["kind"] in ("h", "hx") else {"seed": self.gens[obj]}
        if self.noisy:
            extra["noise_level"] = 0.01
        return call(make, self.p["case"], self.inputs(obj), self.base, extra)

    def bad(self, obj):
        """A request the library refuses, on the same buffers."""
        k = self.rng.randrange(4)
        c = self.p["case"]
        if k == 3 and obj in self.ests and hasattr(self.ests[obj], "statistical_test"):
            return call(self.ests[obj].statistical_test, self.rng.choice([1, 0, "x"]), "bootstrap")
        extra = self.rng.choice(BAD)
        if self.x["class"] != "composite":
            short = dict(self.inputs(obj))
            if k == 2 and c["kind"] in ("mi", "cmi", "te", "cte"):
                short["vars"] = [short["vars"][0], short["vars"][1][:-1]]
                extra = {}
            e = call(make, c, short, self.base if "base" not in extra else None, extra)
            return e if is_exc(e) else num(call(e.result))
        kw = par_kwargs(c["kind"], c["par"])
        kw.update(extra)
        return num(call(im.jsd if c["kind"] == "jsd" else im.kld, *self.inputs(obj)["vars"], approach=c["par"]["ap"], **kw))

    def direct(self, obj):
        c = self.p["case"]
        ins = self.inputs(obj)
        if c["kind"] in COMPOSITE:
            return observe(c, ins, self.base)["g"]
        args, kw = request(c, ins, self.base, {"noise_level": 0.01, "seed": 1} if self.noisy else None)
        fn = {"h": im.entropy, "hx": im.cross_entropy, "mi": im.mutual_information, "cmi": im.conditional_mutual_information,
              "te": im.transfer_entropy, "cte": im.conditional_transfer_entropy}[c["kind"]]
        return num(call(fn, *args, approach=c["par"]["ap"], **kw))

    def fail(self, text):
        self.chk.violation(f"{self.what}: {text}", self.rec)
        return False

    def go(self):
        np.random.seed(self.i % 1000)
        random.seed(self.i)
        if self.x["class"] != "composite":
            self.what = f"{self.x['class']} {brief(self.p['case'])}"
            self.ests["A"] = self.make("A")
            if is_exc(self.ests["A"]):
                return self.fail(str(self.ests["A"]))
        done = []
        for d, want in zip(self.x["hist"], self.x["out"]):
            done.append(d["act"] + d["obj"] + (str(d["buf"]) if d["buf"] else ""))
            self.what = f"{self.x['class']} {self.p['kind']} {self.p['ap']} {self.rec['containers']} after {done}"
            before = state()
            if not self.step(d, want):
                return
            if d["act"] != "reseed" and state() != before:
                return self.fail("the global random state changed")
            for k, b in enumerate(self.buf + ([self.cond] if self.cond else [])):
                if not b.untouched():
                    return self.fail(f"buffer {k + 1} ({b.how}) was changed: {np.asarray(b.obj).tolist()}")
            for a, copy_, tag in self.held:
                if np.asarray(a).tobytes() != copy_:
                    return self.fail(f"{tag} returned earlier changed")

    def step(self, d, want):
        act, o = d["act"], d["obj"]
        if act == "overwrite":
            self.buf[d["buf"] - 1].write()
            return True
        if act == "reseed":
            np.random.seed(self.rng.randrange(10**6))
            random.seed(self.rng.randrange(10**6))
            return True
        if act == "make":
            self.ests[o] = self.make(o)
            return not is_exc(self.ests[o]) or self.fail(f"{self.ests[o]}")
        if act == "bad":
            r = self.bad(o)
            return is_exc(r) or self.fail(f"an ill-formed request gives {r}")
        if act == "fault":
            g = self.gens[o]
            g.fuse = self.rng.choice([1, 2, 3])
            call(self.ests[o].statistical_test, 3, self.rng.choice(["permutation_test", "bootstrap"]))
            g.fuse = 0
            return True
        if act == "direct":
            return self.judge(o, "result", want, self.direct(o), direct=True)
        est = self.ests[o]
        if act == "result":
            return self.judge(o, "result", want, num(call(est.result)))
        if act == "test":
            r = call(est.statistical_test, 2, self.rng.choice(["permutation_test", "bootstrap"]))
            if is_exc(r):
                # rearranged rows may leave nothing to estimate with (k neighbours, singular spaces)
                return self.fail(f"test: {r}")
            self.held.append((r.test_values, np.asarray(r.test_values).tobytes(), "a test's null values"))
            return self.judge(o, "result", want, float(r.observed_value))
        r = call(est.local_vals)
        if not is_exc(r) and r is not None:
            self.held.append((r, np.asarray(r).tobytes(), "an array of local values"))
            r = [float(v) for v in np.asarray(r).ravel()]
        return self.judge(o, "local", want, r)

    def judge(self, o, q, want, got, direct=False):
        key = (o, q)
        if want["tag"] == "value" and not self.noisy:
            ans = self.p["ans"][(o, tuple(want["ver"]))]
            tol = 2e-6 if self.p["ap"] == "nsb" else 1e-9
            if q == "result":
                if not self.chk.compare(self.what, got, ans["g"], self.rec, base=self.cmp_base, rtol=tol):
                    return False
            elif is_exc(got) or got is None:
                if ans["has"] and self.p["kind"] != "hx" or got is None:
                    return self.fail(f"local values {got}")
            elif self.p["kind"] != "hx":
                if len(got) != len(ans["l"]) or not all(
                        self.chk.compare(self.what + " local", v, t, self.rec, base=self.cmp_base, rtol=tol)
                        for v, t in zip(got, ans["l"])):
                    return self.fail(f"local values {got}")
        if direct:
            return True
        was = self.given.setdefault(key, got)
        same = lambda a, b: a == b or a != a and b != b
        if is_exc(was) and is_exc(got):
            return True
        if type(was) is not type(got) or (not same(was, got) if q == "result" else
                                          len(was) != len(got) or not all(map(same, was, got))):
            return self.fail(f"{q} gives {got}, before {was}")
        return True
