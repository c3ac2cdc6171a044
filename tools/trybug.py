#!/usr/bin/env python3
"""trybug.py [--all-checks] [ids]: applies each planted bug to /repo, runs the quick check of
its property (or every check), undoes it, and says which bugs are caught.  A development
tool: no registered command uses it."""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    every = "--all-checks" in sys.argv
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    checks = {c["property"]: c for c in man["checks"]}
    seeded = os.path.join(VERIF, "seeded")
    for bug in sorted(os.listdir(seeded)):
        if args and not any(bug == a or bug.startswith(a) for a in args):
            continue
        prop = json.load(open(os.path.join(seeded, bug, "meta.json")))["property"]
        if sh("git -C %s status --porcelain" % REPO).stdout.strip():
            sys.exit("/repo is not clean")
        r = sh("git -C %s apply %s" % (REPO, os.path.join(seeded, bug, "patch.diff")))
        if r.returncode:
            print(bug, "DOES NOT APPLY", r.stderr)
            continue
        try:
            for p in (sorted(checks) if every else [prop]):
                t = time.time()
                cmd = checks[p]["quick_cmd"] if "quick_cmd" in checks[p] else checks[p]["quick"]
                r = sh(cmd, cwd=VERIF, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
                res = "caught" if r.returncode == 1 and vio else \
                    "MISSED" if r.returncode == 0 else "BROKEN rc=%d" % r.returncode
                if every and res == "MISSED":
                    continue
                print("%-34s %-4s %s %.0f s" % (bug, p, res, time.time() - t), flush=True)
                if res.startswith("BROKEN"):
                    print(r.stdout[-1500:], r.stderr[-1500:])
        finally:
            sh("git -C %s checkout -- ." % REPO)


main()
