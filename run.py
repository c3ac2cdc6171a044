#!/usr/bin/env python3
"""check ID [--thorough]: decides one property; exit 0 held, 1 violated, 2 no verdict."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib


def checks():
    import importlib
    t = {}
    for m in ("reader", "regex", "automata", "tokens", "lexer", "decls", "spans", "e2e"):
        t.update(importlib.import_module(m).CHECKS)
    return t


ROUNDS_S = int(os.environ.get("VERIF_ROUNDS_S", "560"))


def rounds(run, pid, t0):
    """Further thorough rounds with other seeds, as long as there is time for one more."""
    first = vlib.SEED
    longest, n = time.time() - t0, 1
    try:
        while time.time() - t0 + 1.3 * longest < ROUNDS_S:
            t = time.time()
            for m in list(sys.modules.values()):
                if getattr(m, "__file__", None) and m.__file__.startswith(vlib.VERIF) and hasattr(m, "SEED"): m.SEED = first + 1000 * n
            checks()[pid](run, True)
            longest, n = max(longest, time.time() - t), n + 1
    except vlib.ToolError as e:
        vlib.log("a further round gave no verdict:", str(e)[:300])
        run.extra["stopped_round"] = str(e)[:300]
    vlib.SEED = first
    run.extra["rounds"] = n


def main():
    if sys.argv[1:] == ["setup"]:
        # nothing has to be prepared: every check builds what it needs; look whether the tools are there
        import shutil
        return 0 if shutil.which("java") and shutil.which("cargo") and os.path.exists(vlib.JAR.split(":")[0]) else 2
    if len(sys.argv) < 3 or sys.argv[1] != "check":
        print(__doc__)
        return 2
    pid = sys.argv[2]
    deep = "--thorough" in sys.argv
    vlib.TIER = "thorough" if deep else "quick"
    run = vlib.Run(pid)
    try:
        t = time.time()
        checks()[pid](run, deep)
        if deep: rounds(run, pid, t)
        run.evidence(0)
        print(f"{pid}: held on {run.traces} traces, {run.states} states")
        return 0
    except vlib.Violation as v:
        run.evidence(1)
        vlib.report(run, v)
        return 1
    except vlib.ToolError as e:
        vlib.log("NO VERDICT:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


if __name__ == "__main__":
    sys.exit(main())
