"""C17: configured defaults govern every later call until changed or reset."""
import json
import math
from api import DISCRETE1, LONG, call, encode, im, is_exc, make, np, num, observe, request
import gen
from replay import brief, inputs_of, is_real
from .common import dcase, ordered

C = im.Config
KEYS = ("base", "statistical_test_method", "statistical_test_n_tests")


def value(v):
    if v[0] == "num":
        return v[1] if v[2] == 1 else v[1] / v[2]
    if v[0] == "float":
        return float(v[1])
    if v[0] == "text":
        return v[1]
    return {"None": None, "list": [2], "dict": {}}[v[1]]


def perform(o):
    """Error name ('' if none) of one operation on the real configuration."""
    try:
        if o["op"] == "set":
            C.set(o["key"], value(o["val"]))
        elif o["op"] == "unit":
            C.set_logarithmic_unit(o["name"])
        elif o["op"] == "reset":
            C.reset()
        return ""
    except Exception as e:  # noqa: BLE001
        return next((n for n in ("KeyError", "TypeError", "ValueError") if n in [c.__name__ for c in type(e).__mro__]),
                    type(e).__name__)


def unit():
    u = C.get_logarithmic_unit()
    d = call(C.get_logarithmic_unit_description)
    if u.startswith("unknown"):
        return "unknown" if is_exc(d) and "ValueError" in d["mro"] else "unknown unit described"
    return u if isinstance(d, str) and d else "known unit not described"


def same(got, v):
    want = value(v)
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    return not isinstance(got, (str, bool)) and got == want


def probes(chk):
    """Requests whose answers must follow the configured base."""
    rng, out = chk.rng, []
    for kind in ("h", "hx", "kld", "jsd", "mi", "cmi", "te", "cte"):
        for ap in DISCRETE1 + ["ordinal", "metric", "renyi", "tsallis", "kernel"]:
            if kind in ("hx", "kld") and ap in DISCRETE1 and ap not in ("discrete", "miller_madow", "bayes") or \
                    kind == "jsd" and ap not in ("discrete", "bayes", "shrink", "kernel", "ordinal"):
                continue
            if ap == "nsb" and kind != "h":
                continue
            for _ in range(3 if ap != "nsb" else 1):
                if ap in DISCRETE1:
                    c, e = dcase(rng, "mi" if kind == "h" else kind, ap, 24, 2)
                    if kind == "h":
                        c["kind"] = "h"
                        c.pop("off")
                else:
                    c, e = gen.rcase(rng, kind, ap, 18, 1)
                out.append([c, ["float64" if is_real(c) else "int64"] * (len(c["vars"]) + 1)])
    for x, a in zip(out, chk.expect([c for c, _ in out])):
        x.append(a)
    return [x for x in out if not x[2]["frag"]]


def measured(chk, what, p, base, rec, given=None, obj=None):
    """The answer of one request that leaves out the base (or gives one) against the specification."""
    case, encs, ans = p
    b = given if given is not None else base
    if case["par"]["ap"] == "tsallis" and case["par"]["q"][0] != case["par"]["q"][1]:
        b = "e"
    if obj is not None:
        got = num(call(obj.result))
    elif case["kind"] in LONG and chk.rng.random() < 0.6:
        args, kw = request(case, inputs_of(case, encs), given)
        fn = getattr(im, chk.rng.choice([case["kind"], LONG[case["kind"]]]))
        got = num(call(fn, *args, approach=case["par"]["ap"], **kw))
    else:
        got = observe(case, inputs_of(case, encs), given, locals_=False)["g"]
    what = f"{what}: {case['kind']} {brief(case)}"
    if b != "e" and b <= 1:
        return
    tol = 2e-6 if case["par"]["ap"] == "nsb" else 1e-9
    chk.compare(what, got, ans["g"], rec, base=b, rtol=tol)
    if obj is not None and ans["has"]:
        l = call(obj.local_vals)
        if is_exc(l) or len(l) != len(ans["l"]):
            chk.violation(f"{what}: local values {l}", rec)
        else:
            for g, t in zip(l, ans["l"]):
                if not chk.compare(what + " local", float(g), t, rec, base=b, rtol=tol):
                    break


TESTS = [("mi", "discrete"), ("te", "discrete"), ("cmi", "discrete"), ("mi", "metric"), ("te", "renyi"), ("mi", "kernel"),
         ("cte", "discrete"), ("cmi", "ordinal"), ("te", "kernel"), ("mi", "bayes"), ("te", "metric")]


def tester(i, **kw):
    kind, ap = TESTS[i % len(TESTS)]
    par = {"ap": ap, "K": 0, "mloc": False, "alpha": ["num", 1, 2], "k": 2, "p": 0, "ksg": 1, "sc": [1, 2],
           "q": [2, 1], "d": 2, "st": 1, "ker": "box", "bw": [2, 1]}
    c = {"kind": kind, "par": par, "vars": [[[x] for x in (0, 3, 1, 2, 2, 5, 1, 0, 4, 7)],
                                            [[x] for x in (1, 0, 3, 1, 2, 2, 6, 1, 0, 4)]], "off": 0,
         "lx": 1, "ly": 1, "lz": 1, "step": 1, "prop": 0}
    if kind[0] == "c":
        c["cond"] = [[x] for x in (0, 1, 1, 0, 2, 0, 1, 1, 0, 2)]
    return c, make(c, inputs_of(c, ["int64"] * 3), None, dict(kw, seed=i))


def tested(chk, what, cfg, i, rec):
    """Default and explicit arguments of a statistical test."""
    m, n = value(cfg["statistical_test_method"]), value(cfg["statistical_test_n_tests"])
    b = value(cfg["base"])
    if b != "e" and b <= 1:
        return
    for kw in ({}, {"n_tests": 3}, {"method": ["bootstrap", "permutation_test"][i // 7 % 2]}):
        wm, wn = kw.get("method", m), kw.get("n_tests", n)
        c, e = tester(i)
        r = call(e.statistical_test, **kw)
        c, f = tester(i, base=b)
        s = call(f.statistical_test, n_tests=wn, method=wm)
        w = f"{what}: statistical_test({kw}) of {c['kind']} {c['par']['ap']}"
        if wn < 2:
            if not is_exc(r):
                chk.violation(f"{w}: {wn} tests are not refused", rec)
            continue
        if is_exc(r) or is_exc(s):
            chk.violation(f"{w}: {r if is_exc(r) else s}", rec)
            continue
        if r.method != wm or r.n_tests != wn or len(r.test_values) != wn:
            chk.violation(f"{w}: ran {r.method} x {r.n_tests} ({len(r.test_values)} values), not {wm} x {wn}", rec)
        if not (np.array_equal(r.test_values, s.test_values, equal_nan=True) and r.observed_value == s.observed_value):
            chk.violation(f"{w}: differs from the same test with explicit arguments", rec)
        c, e = tester(i)
        if hasattr(e, "effective_val"):
            c, f = tester(i, base=b)
            u, v = call(e.effective_val), call(f.effective_val, m)
            if is_exc(u) or is_exc(v) or u != v:
                chk.violation(f"{w}: effective value {u}, with explicit arguments {v}", rec)


def settle(cfg, chk, what, o, err, u, rec):
    """After an operation: reported error, settings, unit names."""
    got = [C.get(k) for k in KEYS]
    if err != "":
        pass
    for k, g in zip(KEYS, got):
        if not same(g, cfg[k]):
            chk.violation(f"{what}: {k} is {g!r}, not {value(cfg[k])!r}", rec)
            return False
    if unit() != u:
        chk.violation(f"{what}: unit reported as {unit()!r}, not {u!r}", rec)
        return False
    return True


def run(chk):
    rng = chk.rng
    r = chk.tlc("MC_C17")
    chk.notes["exhaustive"] = True
    lines = ordered(chk, r["lines"])
    chk.notes["model_behaviours"] = len(lines)
    P = probes(chk)
    after = {json.dumps(x["hist"] + [x["o"]], sort_keys=True): x["cfg"] for x in lines}
    after["[]"] = {"base": ["text", "e"], "statistical_test_method": ["text", "permutation_test"],
                   "statistical_test_n_tests": ["num", 200, 1]}

    def one(x, i):
        what = f"after {[list(o.values()) for o in x['hist'] + [x['o']]]}"
        rec = {"history": x["hist"], "operation": x["o"]}
        C.reset()
        if unit() != "nat/nit/nepit" or [C.get(k) for k in KEYS] != ["e", "permutation_test", 200]:
            chk.violation(f"defaults after reset: {[C.get(k) for k in KEYS]}", rec)
        born = chk.rng.randint(0, len(x["hist"]))
        p, obj, base0 = P[(i * 7) % len(P)], None, None
        for j, o in enumerate(x["hist"] + [x["o"]]):
            if j == born and i % 5 == 1 and p[0]["kind"] in ("h", "mi", "cmi", "te", "cte"):
                base0 = value(after[json.dumps(x["hist"][:j], sort_keys=True)]["base"])
                obj = call(make, p[0], inputs_of(p[0], p[1]), None)
            err = perform(o)
        chk.traces += 1
        if err != x["err"]:
            chk.violation(f"{what}: outcome {err or 'accepted'}, specification says {x['err'] or 'accepted'}", rec)
        if settle(x["cfg"], chk, what, x["o"], err, x["unit"], rec):
            base = value(x["cfg"]["base"])
            if i % 3 < 2:
                measured(chk, what, P[i % len(P)], base, rec)
            if i % 5 == 0:
                measured(chk, what, P[(i * 5 + 3) % len(P)], base, rec, given=[2, "e", 10, 3.5][i // 5 % 4])
            if i % 29 == 0:
                tested(chk, what, x["cfg"], i // 29, rec)
            if obj is not None:
                if is_exc(obj):
                    chk.violation(f"{what}: {obj}", rec)
                else:
                    measured(chk, what + " created before", p, base0, rec, obj=obj)
        if i % 3001 == 5:
            chk.sample({"history": x["hist"], "operation": x["o"], "configuration": x["cfg"]})
    chk.each(lines, one)
    C.reset()
    recorded(chk, sorted({json.dumps(x["o"], sort_keys=True) for x in lines}))
    C.reset()
    chk.assumptions = ["an estimator object keeps the log base in force when it was created",
                       "the number of tests is a Python integer, the base a number or 'e', as documented"]


def recorded(chk, ops):
    """Long random histories, recorded from the library and checked by TLC."""
    rng = chk.rng
    traces = []
    tag = {"e": ["text", "e"], "permutation_test": ["text", "permutation_test"], "bootstrap": ["text", "bootstrap"]}

    def seen(v):
        if isinstance(v, str):
            return ["text", v]
        if isinstance(v, float) and v == int(v):
            return ["float", int(v), 1]
        if isinstance(v, float):
            for d in (2, 4):
                if v * d == int(v * d):
                    return ["num", int(v * d), d]
            return ["other", repr(v)]
        return ["num", v, 1] if isinstance(v, int) and not isinstance(v, bool) else ["other", repr(v)]
    for _ in range(400 if chk.thorough else 120):
        C.reset()
        t = []
        for _ in range(rng.randint(5, 60)):
            o = json.loads(rng.choice(ops)) if rng.random() < 0.85 else {"op": "measure"}
            if o["op"] == "measure":
                x = encode([[0], [1], [1], [2]], "int64")
                rng.choice([lambda: call(im.entropy, x, approach="discrete", base=2),
                            lambda: call(im.mi, x, x, approach="discrete"),
                            lambda: call(im.entropy, x, approach="nonsense"),
                            lambda: call(im.te, x, x, approach="kernel"),
                            lambda: call(im.estimator(x, x, measure="mi", approach="discrete").statistical_test, 3),
                            lambda: call(im.estimator(x, x, measure="te", approach="discrete").statistical_test, 0),
                            lambda: call(im.jsd, x, x, approach="discrete", base=-1)])()
            err = perform(o)
            t.append({"o": o, "err": err, "cfg": {k: seen(C.get(k)) for k in KEYS}, "unit": unit()})
        traces.append(t)
    r = chk.tlc("MC_C17T", data={"TRACES": traces})
    if len(r["lines"]) != len(traces):
        raise RuntimeError(f"{len(r['lines'])} verdicts for {len(traces)} traces")
    for x in r["lines"]:
        chk.traces += 1
        if x["bad"]:
            s = traces[x["id"] - 1][x["bad"] - 1]
            chk.violation(f"recorded history: step {x['bad']} {s['o']} gave {s['err'] or 'no error'} and {s['cfg']}"
                          f" unit {s['unit']}", {"trace": traces[x["id"] - 1]})
