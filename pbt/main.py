#!/usr/bin/env python3
"""python3-vt main.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
   exit 0: held; 1: VIOLATION; 3: the machinery itself failed (no verdict)."""
import argparse
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from core import engine  # noqa: E402
from core.build import BuildError  # noqa: E402
from core.runner import Infra  # noqa: E402


def usual_signals():
    """A parent may have left signals ignored or blocked (a shell does for its background jobs), which
    everything started from here would inherit."""
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    for s in (signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2,
              signal.SIGCONT, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU, signal.SIGWINCH):
        signal.signal(s, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)


def main():
    usual_signals()
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(a.seed)
    except ValueError:
        seed = 1
    try:
        if a.replay:
            return engine.replay(a.property, a.replay)
        return engine.check(a.property, tier, seed)
    except (BuildError, Infra) as e:
        print("ERROR: no verdict: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        print("ERROR: no verdict")
        return 3


if __name__ == "__main__":
    sys.exit(main())
