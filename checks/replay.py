#!/usr/bin/env python3
"""replay.py FILE...: rebuilds and replays saved failing cases against /repo's working tree (exit 1: one still fails)."""
import json, subprocess, sys
from common import *  # noqa
import run

rc = 0
for f in sys.argv[1:]:
    rep = json.load(open(f))
    prop = rep["property"]
    if rep.get("kind") == "features must build":
        ok, text = probe(rep["features"], rep["bare"], "-bare" if rep["bare"] else "0")
        if ok and rep["bare"] and dependency_std(rep["features"]):
            ok, text = False, "a dependency needs the standard library"
        rc |= 0 if ok else 1
        log("features '%s' %s" % (rep["features"], "build" if ok else "do not build:\n" + text[-2000:]))
        continue
    if prop not in run.PLAN:
        import importlib
        rc |= importlib.import_module(prop.lower()).replay(f)
        continue
    if rep.get("build") == "miri":
        import miri
        rc |= miri.replay(prop, rep)
        continue
    bins, _ = run.build_for(prop)
    for b in [rep["build"]] if rep.get("build") in bins else list(bins):
        rc |= subprocess.run([bins[b], "replay", prop, os.path.abspath(f)], env=run_env(run.giga(b)), preexec_fn=limits(b, None)).returncode
sys.exit(1 if rc else 0)
