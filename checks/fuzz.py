"""Coverage-guided deepening of the thorough tier: libFuzzer mutates the random choices of a property's generator.

The strategy draws from proptest's PassThrough generator. As released, that one hands disjoint halves of the remaining bytes to nested
strategies and yields endless zeros after the last byte, on which rejection sampling never ends; the copy that is built here lets all
strategies read one stream, continued by fixed pseudo-random numbers."""
import glob, hashlib, json, os, shutil, subprocess
from common import *  # noqa

FUZZED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C12", "C14", "C20"]
SECONDS = int(os.environ.get("FUZZ_SECONDS", "900"))
FLAGS = "-Zsanitizer=address --cfg fuzzing"
EDITS = [
    ("""                let bytes_to_copy = dest.len().min(*end - *off);
                dest[.. bytes_to_copy].copy_from_slice(&data[*off .. *off + bytes_to_copy]);
                *off += bytes_to_copy;
                for i in bytes_to_copy .. dest.len() {
                    dest[i] = 0;
                }
""", """                let _ = (off, end);
                for d in dest.iter_mut() {
                    let at = SHARED_OFFSET.with(|o| o.replace(o.get() + 1));
                    *d = data.get(at).copied().unwrap_or_else(|| {
                        let mut z = (at as u64).wrapping_mul(0x9e3779b97f4a7c15);
                        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                        (z ^ (z >> 31)) as u8
                    });
                }
"""),
    ("""            RngAlgorithm::PassThrough => Seed::PassThrough(None, seed.into()),
""", """            RngAlgorithm::PassThrough => {
                SHARED_OFFSET.with(|o| o.set(0));
                Seed::PassThrough(None, seed.into())
            }
"""),
]


def changed_proptest():
    out = os.path.join(BUILD, "proptest")
    rc, text = cargo(["metadata", "--offline", "--locked", "--format-version", "1"], os.path.join(VERIF, "harness"), cargo_env({}))
    if rc != 0:
        raise CheckError("cargo metadata: %s" % text[-2000:])
    meta = json.loads([line for line in text.splitlines() if line.startswith("{")][-1])
    src = os.path.dirname([p["manifest_path"] for p in meta["packages"] if p["name"] == "proptest"][0])
    text = open(os.path.join(src, "src/test_runner/rng.rs")).read()
    for old, new in EDITS:
        if text.count(old) != 1:
            raise CheckError("another proptest than expected")
        text = text.replace(old, new)
    text += "\nstd::thread_local!(static SHARED_OFFSET: core::cell::Cell<usize> = const { core::cell::Cell::new(0) });\n"
    stamp = hashlib.sha256(text.encode()).hexdigest()
    try:
        if open(os.path.join(out, "stamp")).read() == stamp:
            return
    except OSError:
        pass
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(src, out)
    open(os.path.join(out, "src/test_runner/rng.rs"), "w").write(text)
    open(os.path.join(out, "stamp"), "w").write(stamp)


def build(prop):
    with Lock("build"):
        changed_proptest()
        target = os.path.join(BUILD, "fuzz")
        drop_stale(target)
        rc, text = cargo(["+nightly", "build", "--offline", "--locked", "--release", "--target", "x86_64-unknown-linux-gnu", "--features", prop.lower()],
                         os.path.join(VERIF, "harness-fuzz"), cargo_env({"CARGO_TARGET_DIR": target, "RUSTFLAGS": FLAGS, "RUSTC_WRAPPER": os.path.join(VERIF, "checks", "cov-rustc.sh")}), timeout=1800)
        if rc != 0:
            raise CheckError("building the coverage-guided search failed:\n%s" % text[-5000:])
        out = os.path.join(BUILD, "bin", prop + "-fuzz")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        shutil.copy2(os.path.join(target, "x86_64-unknown-linux-gnu/release/harness-fuzz"), out)
        return out


def campaign(prop, tally):
    """Eight processes sharing what they find; returns the replay file of a violation or None."""
    if prop not in FUZZED:
        return None
    binary = build(prop)
    with Scratch(prop + "-fuzz") as scratch:
        inputs = os.path.join(scratch, "inputs")
        os.makedirs(inputs)
        procs = []
        for k in range(CORES):
            cmd = [binary, inputs, "-max_total_time=%d" % SECONDS, "-seed=%d" % (seed() * 100 + k + 1), "-max_len=4096", "-len_control=20", "-use_value_profile=%d" % (k % 2), "-detect_leaks=0",
                   "-rss_limit_mb=0", "-malloc_limit_mb=0", "-timeout=300", "-reload=1", "-artifact_prefix=%s/" % scratch, "-verbosity=0"]
            env = run_env({"ASAN_OPTIONS": ASAN + ":quarantine_size_mb=16", "FUZZ_PROPERTY": prop, "FUZZ_STATS": os.path.join(scratch, "stats%d" % k)})
            err = open(os.path.join(scratch, "log%d" % k), "w")
            procs.append(subprocess.Popen(cmd, cwd=scratch, env=env, stdout=err, stderr=err, preexec_fn=limits("asan", None)))
        codes = [p.wait() for p in procs]
        for k in range(CORES):
            prefix = os.path.join(scratch, "stats%d" % k)
            if os.path.exists(prefix + ".json"):
                tally.add("coverage-guided", json.load(open(prefix + ".json")), prefix + ".hash")
        tally.labels["inputs kept by coverage-guided search"] = len(os.listdir(inputs))
        found = sorted(glob.glob(os.path.join(scratch, "crash-*")))
        log("%s: coverage-guided search ended with %s, %d inputs kept, %d failing" % (prop, codes, len(os.listdir(inputs)), len(found)))
        if not found and any(codes):
            for k, c in enumerate(codes):
                if c:
                    log(open(os.path.join(scratch, "log%d" % k), errors="replace").read()[-1500:])
        os.makedirs(REPLAYS, exist_ok=True)
        for f in found[:4]:
            out = os.path.join(REPLAYS, "%s-fuzz-%s.json" % (prop, os.path.basename(f)[6:18]))
            p = subprocess.run([binary, f, "-rss_limit_mb=0", "-malloc_limit_mb=0", "-timeout=0"], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               env=run_env({"FUZZ_PROPERTY": prop, "FUZZ_SHRINK": out}), preexec_fn=limits("asan", None), timeout=600)
            log(p.stderr[-4000:])
            if p.returncode == 1 and os.path.exists(out):
                rep = json.load(open(out))
                rep["build"] = "asan"
                rep["replay_with"] = "python3 /verif/checks/replay.py %s" % out
                json.dump(rep, open(out, "w"), indent=1, ensure_ascii=False)
                return out
            log("input %s did not fail again" % f)
    return None
