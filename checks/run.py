#!/usr/bin/env python3
"""check runner: run.py PROPERTY quick|thorough

Exit 0: held on everything explored. Exit 1 with 'VIOLATION property=<id> replay=<path>': broken. Exit 2: no answer."""
import glob, json, os, signal, subprocess, sys, time
import importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *  # noqa

# per build: workers and cases per worker in the quick tier; thorough multiplies the cases
PLAN = {
    "C01": dict(checked=(4, 30000), asan=(4, 9000), deep=12),
    "C02": dict(checked=(4, 120000), asan=(4, 50000), deep=12),
    "C03": dict(checked=(4, 80000), asan=(4, 28000), heavy=("checked", 1, 4), deep=12),
    "C04": dict(checked=(4, 52000), asan=(4, 20800), deep=12),
    "C05": dict(checked=(4, 90000), asan=(4, 36000), deep=12),
    "C06": dict(checked=(4, 125000), asan=(4, 40000), deep=12),
    "C07": dict(checked=(4, 225000), asan=(4, 125000), deep=12),
    "C08": dict(checked=(4, 100000), asan=(4, 32000), heavy=("checked", 1, 3), deep=12),
    "C09": dict(checked=(4, 50000), asan=(4, 20000), deep=12),
    "C10": dict(checked=(4, 80000), asan=(4, 20000), deep=12),
    "C11": dict(checked=(8, 300000), deep=12, crate=("harness-ros", "harness-ros"), fallback="jazzy"),
    "C12": dict(checked=(4, 180000), asan=(4, 75000), deep=12),
    "C14": dict(checked=(4, 900000), asan=(4, 240000), deep=12),
    "C15": dict(checked=(4, 600000), asan=(4, 240000), deep=12),
    "C16": dict(checked=(4, 2400000), asan=(4, 600000), deep=8),
    "C18": dict(checked=(8, 40000), deep=12, crate=("harness-config", "harness-config"), configurations=[
        [("no-default", "none"), ("no-default+derive+serde", "derive,serde"), ("no-default+nalgebra", "nalgebra")],
        [("std", "std"), ("std+derive", "std,derive"), ("std+serde", "std,serde")],
        [("no-default+rayon", "rayon"), ("std+rayon", "std,rayon"), ("std+nalgebra+serde", "std,nalgebra,serde")],
    ]),
    "C19": dict(checked=(8, 40000), deep=12),
    "C20": dict(checked=(4, 40000), asan=(4, 16000), deep=12),
    "C21": dict(checked=(4, 3000), asan=(4, 1200), deep=12),
    "C17": dict(checked=(2, 30000), plain=(2, 30000), heavy=("plain", 2, 8), deep=4, memory=None, stall=600),
}
ASSUMPTIONS = {
    "*": [
        "little-endian x86-64 host, 64-bit usize; a sanitizer or debug assertion is not proof of absence",
        "only what the generators reach is explored; generator distribution is in coverage.labels",
    ]
}


def giga(build):
    # untouched gigabytes cost nothing, except under AddressSanitizer
    return {} if build == "asan" else {"HARNESS_GIGABYTES": "1"}


def workers_of(prop, plan, tier):
    """(build, label, worker number, cases, env)"""
    out = []
    mul = plan.get("deep", 10) if tier == "thorough" else 1
    w = 0
    for build in ("checked", "asan", "plain"):
        if build in plan:
            n, cases = plan[build]
            # the worker number is part of the seed, so builds do not repeat each other's cases
            for _ in range(n):
                out.append((build, w, cases * mul, dict({"C17_HEAVY": "0"}, **giga(build))))
                w += 1
    if "heavy" in plan:
        build, n, cases = plan["heavy"]
        for _ in range(n):
            # first, since they take longest
            out.insert(0, (build, w, cases * mul, dict({"C17_HEAVY": "100000", "HARNESS_HEAVY": "1"}, **giga(build))))
            w += 1
    return out


def memory_of(plan, env):
    """Address space of a process in GiB; clouds of gigabytes need theirs."""
    return None if "HARNESS_HEAVY" in env else plan.get("memory", 8)


def run_workers(prop, plan, bins, jobs, scratch, tally):
    """Runs the worker processes; returns a failure description or None."""
    stall = plan.get("stall", 240)
    pending, running = list(jobs), []
    failure = None
    try:
        while (pending or running) and failure is None:
            while pending and len(running) < CORES:
                build, w, cases, env = pending.pop(0)
                prefix = os.path.join(scratch, "%s-%d" % (build, w))
                err = open(prefix + ".err", "w+")
                p = subprocess.Popen([bins[build], "run", prop, str(seed()), str(w), "0", str(cases), prefix],
                                     env=run_env(env), stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limits(build, memory_of(plan, env)))
                running.append(dict(p=p, build=build, w=w, env=env, prefix=prefix, err=err, last=None, since=time.time()))
            time.sleep(0.05)
            for r in list(running):
                rc = r["p"].poll()
                if rc is None:
                    at = progress(r)
                    if at != r["last"]:
                        r["last"], r["since"] = at, time.time()
                    elif time.time() - r["since"] > stall:
                        raise CheckError("no progress for %d s at case %s of %s worker %d (%s)" % (stall, at, prop, r["w"], r["build"]))
                    continue
                running.remove(r)
                r["err"].seek(0)
                errtext = r["err"].read()[-4000:]
                r["err"].close()
                if rc in (0, 1):
                    rep = json.load(open(r["prefix"] + ".json"))
                    tally.add(r["build"], rep, r["prefix"] + ".hash")
                    if rc == 1:
                        failure = dict(r, index=rep["failed_index"], message=rep["message"])
                        break
                elif crashed(rc, r["build"]):
                    at = progress(r)
                    if at is None:
                        raise CheckError("worker died before its first case (%s): %s" % (rc, errtext))
                    tally.evaluations += at + 1
                    failure = dict(r, index=at, message="process ended with %s\n%s" % (rc, errtext))
                    break
                else:
                    raise CheckError("worker of %s ended with %s: %s" % (prop, rc, errtext))
    finally:
        for r in running:
            try:
                os.killpg(r["p"].pid, signal.SIGKILL)
            except OSError:
                pass
            r["p"].wait()
    return failure


def progress(r):
    try:
        with open(r["prefix"] + ".progress", "rb") as f:
            b = f.read(8)
        return int.from_bytes(b, "little") if len(b) == 8 else None
    except OSError:
        return None


def shrink(prop, plan, bins, f):
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(REPLAYS, "%s-%s-s%d-w%d-i%d.json" % (prop, f["build"], seed(), f["w"], f["index"]))
    if os.path.exists(out):
        os.remove(out)
    env = run_env(dict(f["env"], HARNESS_MESSAGE=(f["message"] or "")[:3000]))
    p = subprocess.run([bins[f["build"]], "shrink", prop, str(seed()), str(f["w"]), str(f["index"]), out], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limits(f["build"], memory_of(plan, f["env"])), timeout=600)
    log(p.stderr[-5000:])
    if p.returncode != 1 or not os.path.exists(out):
        raise CheckError("failing case of %s could not be reproduced: exit %s; %s" % (prop, p.returncode, f["message"]))
    rep = json.load(open(out))
    rep["build"] = f["build"]
    rep["replay_with"] = "python3 /verif/checks/replay.py %s" % out
    json.dump(rep, open(out, "w"), indent=1, ensure_ascii=False)
    return out


def corpus(prop, plan, bins, tally):
    """Replays the saved regression cases in every build; returns (file, build) of a failing one."""
    files = sorted(glob.glob(os.path.join(VERIF, "corpus", prop, "*.json")))
    known = known_findings(prop)
    bad = None
    for build, b in bins.items():
        left = list(files)
        while left:
            p = subprocess.run([b, "replay", prop] + left, env=run_env(giga(build)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               preexec_fn=limits(build, plan.get("memory", 8)), timeout=600)
            if p.returncode == 0:
                tally.corpus += len(left)
                break
            if p.returncode != 1:
                raise CheckError("replaying the regression cases ended with %s: %s" % (p.returncode, p.stderr[-3000:]))
            f = [line[7:] for line in p.stdout.splitlines() if line.startswith("failed ")][-1]
            tally.corpus += left.index(f) + 1
            if os.path.basename(f) in known:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[os.path.basename(f)]), flush=True)
                left = left[left.index(f) + 1:]
                continue
            log(p.stderr[-3000:])
            if bad is None:
                bad = (f, build)
            break
    return bad


def main():
    if len(sys.argv) != 3 or sys.argv[2] not in ("quick", "thorough"):
        log(__doc__)
        return 2
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    try:
        if prop in PLAN:
            return generated(prop, tier, t0)
        mod = importlib.import_module(prop.lower())
        return mod.main(tier, t0)
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("CHECK ERROR: timed out: %s" % e)
        return 2


FEATURES = ["std", "rayon", "derive", "nalgebra", "serde"]
SUBSETS = [",".join(f for k, f in enumerate(FEATURES) if m >> k & 1) for m in range(32)]
# what documents itself as usable without a standard library
BARE = [",".join(f for k, f in enumerate(["derive", "nalgebra", "serde"]) if m >> k & 1) for m in range(8)]


def needing_std(prop):
    """The feature sets meant for bare targets whose dependencies need std; each has to be a known finding."""
    known = known_feature_sets(prop)
    unfit = []
    for f in BARE:
        crates = dependency_std(f)
        if not crates:
            continue
        if f not in known:
            raise Unbuildable(f, True, "pulls in %s with the standard library" % ", ".join(crates))
        print("KNOWN-FINDING: property=%s features '%s' without a standard library: %s" % (prop, f, known[f]), flush=True)
        unfit.append(f)
    return unfit


def save_unbuildable(prop, e):
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(REPLAYS, "%s-features-%s%s.json" % (prop, e.features.replace(",", "+") or "none", "-bare" if e.bare else ""))
    json.dump(dict(property=prop, kind="features must build", features=e.features, bare=e.bare, message=e.text[-3000:],
                   replay_with="python3 /verif/checks/replay.py %s" % out), open(out, "w"), indent=1)
    return out


def build_for(prop):
    """Binaries of a property's check per build, and notes for the evidence."""
    plan = PLAN[prop]
    crate, binary = plan.get("crate", ("harness", "harness"))
    builds = [b for b in ("checked", "asan", "plain") if b in plan]
    if "configurations" in plan:
        others = build_configurations(prop, crate, binary, plan["configurations"])
        os.environ["C18_OTHERS"] = " ".join("%s=%s" % o for o in sorted(others.items()))
        return build_harness(prop, builds, crate, binary), {"configurations": ["every feature (std,rayon,derive,nalgebra,serde)"] + sorted(others)}
    try:
        return build_harness(prop, builds, crate, binary), {}
    except CheckError as e:
        if "fallback" not in plan:
            raise
        log("full build failed, continuing with feature '%s' alone: %s" % (plan["fallback"], str(e)[-3000:]))
        return build_harness(prop, builds, crate, binary, plan["fallback"]), {"reduced_to_features": plan["fallback"]}


def generated(prop, tier, t0):
    plan = PLAN[prop]
    tally = Tally()
    if "configurations" in plan:
        try:
            probed = {"feature_sets_compiled": probe_all(SUBSETS, False)}
            unfit = needing_std(prop)
            probed["feature_sets_resolved_without_std_library"] = len(BARE)
            if tier == "thorough":
                probed["feature_sets_compiled_without_std_library"] = probe_all([f for f in BARE if f not in unfit], True)
        except Unbuildable as e:
            log("C18: %s" % e)
            replay = save_unbuildable(prop, e)
            tally.rule, tally.evaluations = "A case is a set of features.", len(SUBSETS)
            write_evidence(prop, tier, time.time() - t0, tally, 1, {}, ASSUMPTIONS["*"])
            print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
            return 1
    bins, extra = build_for(prop)
    if "configurations" in plan:
        extra.update(probed)
    builds = list(bins)
    built = time.time()
    log("%s: built %s in %.0f s" % (prop, ", ".join(builds), built - t0))
    violation = corpus(prop, plan, bins, tally)
    replay = None
    if violation:
        replay = violation[0]
        log("saved regression case fails in the %s build" % violation[1])
    else:
        with Scratch(prop) as scratch:
            f = run_workers(prop, plan, bins, workers_of(prop, plan, tier), scratch, tally)
            if f:
                log("%s failed in the %s build (worker %d, case %d): %s" % (prop, f["build"], f["w"], f["index"], f["message"]))
                replay = shrink(prop, plan, bins, f)
    if tier == "thorough" and replay is None:
        import fuzz
        import miri
        replay = fuzz.campaign(prop, tally) or miri.campaign(prop, bins["checked"], tally)
    write_evidence(prop, tier, time.time() - t0, tally, 1 if replay else 0, extra, ASSUMPTIONS.get(prop, ASSUMPTIONS["*"]))
    log("%s: %d evaluations, %d distinct non-trivial, %.0f s" % (prop, tally.evaluations, len(tally.hashes), time.time() - t0))
    if replay:
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
