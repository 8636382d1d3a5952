"""Replaying behaviours (case, answer) of the specification on the real library."""
import json
import math

import terms
from api import (DISCRETE, ORDINAL, call, encode, encode_real, is_exc, np, observe)

REFUSE_LOCAL = ("UnsupportedOperation", "TheoreticalInconsistencyError")


def is_real(case):
    return case["par"]["ap"] not in DISCRETE


def inputs_of(case, encs, want2d=None):
    """encs: one encoding name per variable (plus one for cond)."""
    vs = case["vars"]
    assert len(encs) >= len(vs), "an encoding per variable"
    if is_real(case):
        sc, x2 = case["par"].get("sc", [1, 1]), case["par"].get("x2", 0)
        out = {"vars": [encode_real(v, sc, e, want2d, x2) for v, e in zip(vs, encs)]}
        if "cond" in case:
            out["cond"] = encode_real(case["cond"], sc, encs[-1], want2d, x2)
        if case["par"].get("copies", 1) > 1:
            moved = case["par"].get("moved", [True] * (len(vs) + 1))
            out["vars"] = [translates(v, case["par"], m) for v, m in zip(out["vars"], moved)]
            if "cond" in out:
                out["cond"] = translates(out["cond"], case["par"], moved[-1])
        for v, (rep, how) in enumerate(case.get("_rep", [])):
            a = np.asarray(out["vars"][v])
            out["vars"][v] = np.repeat(a, rep, axis=0) if how == "blocks" else np.concatenate([a] * rep)
    else:
        out = {"vars": [encode(v, e, want2d) for v, e in zip(vs, encs)]}
        if "cond" in case:
            out["cond"] = encode(case["cond"], encs[-1], want2d)
        if times(case["par"]) is not None:
            again = lambda v: repeated(np.asarray(v), times(case["par"]), case["_how"])
            out = {"vars": [again(v) for v in out["vars"]], **({"cond": again(out["cond"])} if "cond" in out else {})}
    return out


def translates(a, par, moved=True):
    """The points again and again, each time moved far away in every coordinate (or not moved at all)."""
    a = np.asarray(a, float)
    gap = 2.0**20 * par["sc"][0] / par["sc"][1] * moved
    return np.concatenate([a + gap * c for c in range(par["copies"])])


def times(par):
    """How often each observation of a case is to be repeated (None: once)."""
    return par.get("w") or (par["rep"] if par.get("rep", 1) > 1 else None)


def repeated(a, rep, how):
    """Every observation rep times: in a row, or the sample over and over."""
    if how == "blocks":
        return np.repeat(a, rep, axis=0)
    return np.concatenate([a] * rep)


def brief(case):
    c = {k: v for k, v in case.items() if k not in ("vars", "cond")}
    n = [len(v) for v in case["vars"]]
    s = json.dumps(c) + f" n={n}"
    if sum(n) <= 24:
        s += " vars=" + json.dumps(case["vars"])
        if "cond" in case:
            s += " cond=" + json.dumps(case["cond"])
    return s


def check_locals(chk, what, obs, ans, replay, base, key=None, tol=1e-9):
    if not ans["has"]:
        if is_exc(obs["l"]):
            if not any(n in REFUSE_LOCAL for n in obs["l"]["mro"]):
                chk.violation(f"{what}: local values not defined here, but refused with {obs['l']['exc']}"
                              f" {obs['l']['msg']}", replay, key)
        else:
            chk.violation(f"{what}: local values returned where none are defined", replay, key)
        return
    if is_exc(obs["l"]):
        chk.violation(f"{what}: local values raised {obs['l']['exc']} {obs['l']['msg']}", replay, key)
        return
    if len(obs["l"]) != len(ans["l"]):
        chk.violation(f"{what}: {len(obs['l'])} local values for {len(ans['l'])} observations", replay, key)
        return
    seen = set()
    for i, (g, t) in enumerate(zip(obs["l"], ans["l"])):
        if (id(t), g) in seen:
            continue
        seen.add((id(t), g))
        if not chk.compare(f"{what} local[{i}]", g, t, replay, base=base, key=key, rtol=tol):
            return


def replay(chk, case, ans, encs, base="e", want2d=None, extra=None, locals_=True, key=None, tol=1e-9,
           tuple_=False):
    """One behaviour: ask the library, compare the answer with the specification's."""
    if ans.get("frag"):
        chk.count("fragile_skipped")
        return None
    c = dict(case, tuple=True) if tuple_ else case
    rep = times(case["par"])
    if rep is not None and "_how" in case and ans["l"]:
        l = ans["l"]
        ans = dict(ans, l=l * rep if case["_how"] == "concat" else
                   [t for i, t in enumerate(l) for _ in range(rep[i] if isinstance(rep, list) else rep)])
    if case["par"].get("copies", 1) > 1 and ans["l"]:
        ans = dict(ans, l=ans["l"] * case["par"]["copies"])
    rec = {"case": case, "encodings": encs, "base": base, "want2d": want2d}
    what = f"{case['kind']} {brief(case)} as {encs} base {base}"
    if "bool" in encs and is_real(case):
        encs = ["float64"] * len(encs)
    obs = observe(c, inputs_of(case, encs, want2d), base, extra, locals_)
    b = base
    if case["par"]["ap"] == "tsallis" and case["par"]["q"][0] != case["par"]["q"][1]:
        b = "e"           # no logarithmic unit
    chk.compare(what, obs["g"], ans["g"], rec, base=b, key=key, rtol=tol)
    if locals_ and case["kind"] not in ("hx", "jsd", "kld"):
        check_locals(chk, what, obs, ans, rec, b, key, tol)
    chk.traces += 1
    return obs


def replay_all(chk, cases, meta, **kw):
    """Batch: TLC answers all recorded cases, then each is compared."""
    for case, ans, m in zip(cases, chk.expect(cases), meta):
        replay(chk, case, ans, **{**kw, **m})
