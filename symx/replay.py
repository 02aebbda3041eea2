"""Replay one counterexample on the unpatched code: exit 1 if it violates."""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from symx import run  # noqa: E402


def main():
    import signal

    body = json.load(open(sys.argv[1]))
    h = run.load(body["property"])[body["harness"]]
    signal.signal(signal.SIGALRM, run._alarm)
    out = run.run_concrete(h.fn, run.dec(body["inputs"]), body["params"], limit=120)
    print(out)
    sys.exit(1 if out[0] == "violation" else 0)


main()
