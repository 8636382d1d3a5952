#!/usr/bin/env python3
"""run.py <property> <quick|thorough>: run one check."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    from check import Check
    chk = Check(pid, tier)
    try:
        import api  # noqa: F401
    except Exception:
        # the library itself cannot be used: no request is answered at all
        chk.violation("infomeasure cannot be imported: " + traceback.format_exc()[-800:], {})
        sys.exit(chk.finish())
    from tlc import TLCError
    mod = importlib.import_module(f"props.{pid.lower()}")
    try:
        mod.run(chk)
    except TLCError:
        traceback.print_exc()
        sys.exit(3)
    except Exception:
        # an answer of the library that the driver cannot even interpret
        if os.environ.get("VERIF_DEBUG"):
            raise
        chk.violation("uninterpretable answer: " + traceback.format_exc()[-1500:], {})
    sys.exit(chk.finish())


main()
