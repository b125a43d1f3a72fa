"""Interpretation of generated cases by Miri in the thorough tier: uninitialised or misaligned reads, pointers used outside of what they were
derived from, invalid values and data races, whatever the compiled builds make of them."""
import json, os, subprocess, time
from common import *  # noqa

# with the most memory a case may take, as a measure of the time it takes
INTERPRETED = {"C02": 6000, "C05": 6000, "C08": 6000, "C09": 2500, "C15": 6000, "C21": 2500}
SECONDS = int(os.environ.get("MIRI_SECONDS", "600"))
CASES = int(os.environ.get("MIRI_CASES", "4000"))
# crossbeam (in rayon) needs tree borrows and permissive provenance
FLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-backtrace=1 -Zmiri-tree-borrows -Zmiri-permissive-provenance"


def interpreter(prop, seed_of_schedule=0):
    """Environment, command and directory for one run."""
    env = cargo_env({"CARGO_TARGET_DIR": os.path.join(BUILD, "miri"), "MIRIFLAGS": FLAGS + " -Zmiri-seed=%d" % seed_of_schedule, "RAYON_NUM_THREADS": "2"})
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--no-default-features", "--features", prop.lower(), "--bin", "harness", "--"]
    return env, cmd, os.path.join(VERIF, "harness")


def replay(prop, rep):
    """1 if the case still has undefined behaviour."""
    with Scratch(prop + "-miri") as scratch:
        case = os.path.join(scratch, "case")
        json.dump(rep["case"], open(case, "w"))
        for k in range(4):
            env, cmd, here = interpreter(prop, k)
            with Lock("build"):
                drop_stale(env["CARGO_TARGET_DIR"])
                rc, text = cargo(cmd[1:] + ["walk", prop, case, case + ".progress"], here, env, timeout=1200)
            if rc != 0:
                log(text[-3000:])
                return 1
    return 0


def campaign(prop, checked, tally):
    """Interprets small non-trivial cases for a fixed time; returns a replay file or None. No interpreter, no violation."""
    if prop not in INTERPRETED:
        return None
    env, cmd, here = interpreter(prop)
    with Scratch(prop + "-miri") as scratch:
        empty = os.path.join(scratch, "empty")
        open(empty, "w").close()
        with Lock("build"):
            drop_stale(env["CARGO_TARGET_DIR"])
            rc, text = cargo(cmd[1:] + ["walk", prop, empty, empty + ".progress"], here, env, timeout=1200)
        if rc != 0:
            raise CheckError("the interpreter does not run: %s" % text[-3000:])
        procs = []
        for k in range(CORES):
            cases = os.path.join(scratch, "cases%d" % k)
            subprocess.run([checked, "sift", prop, str(seed()), str(900 + k), str(CASES), str(INTERPRETED[prop]), cases], env=run_env({}), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
            log_file = open(os.path.join(scratch, "log%d" % k), "w")
            env = interpreter(prop, k)[0]
            procs.append((k, cases, subprocess.Popen(cmd + ["walk", prop, cases, cases + ".progress"], cwd=here, env=env, stdout=log_file, stderr=log_file, start_new_session=True)))
        end = time.time() + SECONDS
        done, bad = 0, None
        for k, cases, p in procs:
            try:
                rc = p.wait(timeout=max(0.1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = None
            at = open(cases + ".progress").read() if os.path.exists(cases + ".progress") else "0"
            lines = open(cases).read().splitlines()
            done += len(lines) if at == "done" else int(at)
            text = open(os.path.join(scratch, "log%d" % k), errors="replace").read()
            if rc not in (None, 0) and bad is None:
                if "Undefined Behavior" in text:
                    bad = (lines[int(at)], text[text.index("Undefined Behavior"):][:6000])
                else:
                    raise CheckError("the interpreter ended with %s: %s" % (rc, text[-3000:]))
        tally.labels["cases interpreted by Miri"] = done
        log("%s: %d cases interpreted" % (prop, done))
        if bad:
            log(bad[1])
            os.makedirs(REPLAYS, exist_ok=True)
            out = os.path.join(REPLAYS, "%s-miri-s%d.json" % (prop, seed()))
            rep = dict(property=prop, message=bad[1], case=json.loads(bad[0]), build="miri", replay_with="python3 /verif/checks/replay.py %s" % out)
            json.dump(rep, open(out, "w"), indent=1, ensure_ascii=False)
            return out
    return None
