#!/usr/bin/env python3
"""setup: builds what the checks run (every check also builds what it needs by itself; this only warms the caches)."""
import signal, subprocess, sys
from common import *  # noqa
import run


DEADLINE = 1500


def too_late(*_):
    log("warm-up cut short after %d s; the checks build the rest" % DEADLINE)
    signal.signal(signal.SIGTERM, signal.SIG_IGN)
    os.killpg(0, signal.SIGTERM)
    os._exit(0)


def main():
    os.setpgid(0, 0)
    signal.signal(signal.SIGALRM, too_late)
    signal.alarm(DEADLINE)
    t0 = time.time()
    for prop in sorted(run.PLAN):
        try:
            run.build_for(prop)
        except (CheckError, subprocess.TimeoutExpired) as e:
            log("warm-up build of %s failed (the check will say why): %s" % (prop, str(e)[-2000:]))
        log("%s built at %.0f s" % (prop, time.time() - t0))
        if time.time() - t0 > 1200:
            break
    try:
        import c13
        c13.build([c13.CONTROL], ["checked", "asan"], "gen")
    except (CheckError, subprocess.TimeoutExpired) as e:
        log("warm-up build of C13 failed: %s" % str(e)[-2000:])
    return 0


if __name__ == "__main__":
    sys.exit(main())
