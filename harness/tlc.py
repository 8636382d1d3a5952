"""Running TLC on the specifications in /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")


class TLCError(Exception):
    pass


def run(module, cfg, data=None, workers=8, timeout=800, extra=(), env_extra=None):
    """Run TLC; returns dict(lines, states, distinct, ok, out, violated).

    data: {name: json-able} written to scratch files whose paths the
    specification reads from IOEnv.<NAME>.
    """
    scratch = tempfile.mkdtemp(prefix="tlc_")
    try:
        env = {k: os.environ[k] for k in ("PATH", "HOME", "LANG", "TMPDIR") if k in os.environ}
        env["VERIF_TIER"] = os.environ.get("VERIF_TIER", "quick")
        env["JAVA_TOOL_OPTIONS"] = f"-Xmx8g -Xss64m -Djava.io.tmpdir={scratch}"
        for k, v in (data or {}).items():
            p = os.path.join(scratch, k + ".json")
            with open(p, "w") as fh:
                json.dump(v, fh)
            env[k] = p
        env.update(env_extra or {})
        cmd = ["tlc", "-workers", str(workers), "-nowarning", "-deadlock",
               "-metadir", os.path.join(scratch, "meta"),
               "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module)]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise TLCError(f"TLC timeout after {timeout}s on {module}") from e
        out = p.stdout
        lines = []
        for ln in out.splitlines():
            if ln.startswith('"{') or ln.startswith('"['):
                try:
                    lines.append(json.loads(json.loads(ln)))
                except ValueError:
                    raise TLCError(f"unparsable TLC output line: {ln[:300]}")
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        viol = re.search(r"(Invariant|Action property|Temporal propert\w+|Postcondition|Assumption)"
                         r"[^\n]*(violated|is false)", out)
        ok = "Model checking completed. No error has been found" in out or \
            ("-simulate" in extra and p.returncode == 0)
        res = dict(lines=lines, states=int(m.group(1)) if m else 0,
                   distinct=int(m.group(2)) if m else 0, ok=ok and p.returncode == 0,
                   out=out, violated=viol.group(0) if viol else None, rc=p.returncode)
        if not res["ok"] and not viol:
            msg = "\n".join(l for l in out.splitlines() if not l.startswith('"'))
            raise TLCError(f"TLC failed on {module}/{cfg} rc={p.returncode}:\n{msg[-3000:]}")
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
