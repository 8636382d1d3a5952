"""Common frame of every check: TLC runs, comparison, evidence, verdict."""
import json
import math
import os
import random
import multiprocessing
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import terms
import tlc


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{self.seed}-{pid}")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.viol = []
        self.known_hits = []
        self.notes = {}
        self.assumptions = []
        self.skipped = 0
        self.out = os.path.join(VERIF, "out", pid)
        self.known = load_known(pid)

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # ---- TLC ----------------------------------------------------------------------
    def warm(self):
        """Let just-in-time compilation happen while TLC runs."""
        self.warm = lambda: None
        if self.pid in ("C01", "C02", "C04", "C05", "C13", "C15", "C17", "C24", "C25"):
            return          # nothing there is compiled
        import numpy as np
        import infomeasure as im
        x = np.arange(8) % 3
        y = np.arange(8) % 2
        for m, a, k in (("mi", (x, y), {}), ("mi", (x, y, x), {}), ("cmi", (x, y), {"cond": y}),
                        ("te", (x, y), {}), ("cte", (x, y), {"cond": y})):
            try:
                im.estimator(*a, measure=m, approach="discrete", **k).local_vals()
            except Exception:  # noqa: BLE001 - judged elsewhere
                pass

    def tlc(self, module, cfg=None, **kw):
        th = threading.Thread(target=self.warm)
        th.start()
        try:
            r = tlc.run(module + ".tla", (cfg or module) + ".cfg", **kw)
        finally:
            th.join()
        self.states += r["distinct"]
        self.transitions += max(0, r["states"] - r["distinct"]) or r["states"]
        if r["violated"]:
            raise tlc.TLCError(f"specification property fails: {r['violated']}\n{r['out'][-2000:]}")
        return r

    def expect(self, cases, module="MC_Answers", **kw):
        """Answers of the specification, in order, for a list of case records."""
        if not cases:
            return []
        r = self.tlc(module, data={"CASES": [spec_view(c) for c in cases]}, **kw)
        got = {x["id"]: x["ans"] for x in r["lines"]}
        if len(got) != len(cases):
            raise tlc.TLCError(f"{len(got)} answers for {len(cases)} cases")
        return [got[i + 1] for i in range(len(cases))]

    # ---- replaying in parallel ------------------------------------------------------
    def each(self, items, fn, procs=8):
        """fn(item, index) for every item, in forked processes; results are merged into this check.
        Randomness inside fn comes from self.rng, seeded per item."""
        items = list(items)
        procs = min(procs, max(1, len(items) // 40)) if procs == 8 else min(procs, len(items))
        if procs == 1:
            self._some(items, fn, 0, 1)
            return
        ctx = multiprocessing.get_context("fork")
        jobs = []
        for k in range(procs):
            rd, wr = ctx.Pipe(False)
            pr = ctx.Process(target=self._child, args=(items, fn, k, procs, wr))
            pr.start()
            wr.close()
            jobs.append((pr, rd))
        failed = None
        for pr, rd in jobs:
            try:
                r = rd.recv()
            except EOFError:
                r = {"error": "a replay process died"}
            pr.join()
            if "error" in r:
                failed = r["error"]
                continue
            self.viol += r["viol"]
            self.traces += r["traces"]
            self.samples = (self.samples + r["samples"])[:4]
            for h in r["known"]:
                if h not in self.known_hits:
                    self.known_hits.append(h)
            for k, v in r["notes"].items():
                self.count(k, v)
        if failed:
            raise RuntimeError(failed)

    def _some(self, items, fn, k, procs):
        for i in range(k, len(items), procs):
            self.rng = random.Random(f"{self.seed}-{self.pid}-{i}")
            fn(items[i], i)

    def _child(self, items, fn, k, procs, wr):
        try:
            self.viol, self.traces, self.samples, self.known_hits, self.notes = [], 0, [], [], {}
            self._some(items, fn, k, procs)
            wr.send({"viol": self.viol[:20], "traces": self.traces, "samples": self.samples,
                     "known": self.known_hits, "notes": self.notes})
        except BaseException:  # noqa: BLE001
            wr.send({"error": traceback.format_exc()[-3000:]})
        finally:
            wr.close()
            os._exit(0)

    # ---- verdicts -------------------------------------------------------------------
    def violation(self, what, replay, key=None):
        for k in self.known:
            if key is not None and k["key"] == key:
                if key not in [h[0] for h in self.known_hits]:
                    self.known_hits.append((key, k["what"]))
                return
        self.viol.append((what, replay))
        if len(self.viol) <= 1:
            print(f"  violation: {what}", file=sys.stderr)

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(obj)

    def compare(self, what, got, term, replay, rtol=1e-9, atol=1e-10, base=None, key=None, args=()):
        """One number against one term (in nats; converted by base)."""
        if isinstance(got, dict):
            self.violation(f"{what}: raised {got['exc']}: {got['msg']}", replay, key)
            return False
        v, err = terms.evaluate(term, args)
        if base not in (None, "e"):
            v /= math.log(base)
            err /= abs(math.log(base))
        if v != v:
            ok = got != got
        elif math.isinf(v):
            ok = got == v
        else:
            ok = got == got and abs(got - v) <= atol + rtol * abs(v) + 32 * err
        if not ok:
            self.violation(f"{what}: got {got!r}, specification says {v!r}", replay, key)
        return ok

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.samples, **self.notes},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
        }
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for key, what in self.known_hits:
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        if self.viol:
            os.makedirs(self.out, exist_ok=True)
            path = os.path.join(self.out, "replay.json")
            with open(path, "w") as fh:
                json.dump([{"what": w, "replay": r} for w, r in self.viol[:20]], fh, indent=1,
                          default=str)
            for w, _ in self.viol[:10]:
                print("  " + w)
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"OK property={self.pid} states={self.states} traces={self.traces} "
              f"wall={ev['wall_s']}s {json.dumps(self.notes, default=str)}")
        return 0


def spec_view(c):
    """The part of a case the specification sees (no harness-only keys)."""
    return {k: v for k, v in c.items() if not k.startswith("_")}


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [k for k in data["findings"] if k["property"] == pid]
