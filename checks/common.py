"""Shared by the checks: building from /repo's working tree, running worker processes, evidence and verdicts."""
import fcntl, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
CORES = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """The check gives no answer (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1")) & 0xFFFFFFFF
    except ValueError:
        return int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "little")


def repo_hash():
    h = hashlib.sha256()
    for root in ("rpcl2", "rpcl2-derive"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read() + b"\0")
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo_env(extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC_")) and k not in ("CARGO_HOME",):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.update(extra or {})
    return env


def drop_stale(target_dir):
    """mtimes may lie after a restore: if the sources' content changed since the last build, forget the compiled library."""
    stamp = os.path.join(target_dir, "repo.stamp")
    now = repo_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = None
    if old is not None and old != now:
        ours = ("ros_pointcloud2", "rpcl2")
        for d, dirs, _ in os.walk(target_dir):
            # stable keeps .fingerprint/<package>-<hash>, newer cargos build/<package>/<hash>/fingerprint
            if os.path.basename(d) in (".fingerprint", "build"):
                for x in list(dirs):
                    if x.startswith(ours):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                dirs[:] = []
    os.makedirs(target_dir, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)


# (toolchain, extra cargo args, RUSTFLAGS, path of the binary inside the target directory)
BUILDS = {
    "checked": ("stable", [], "", "debug"),
    "plain": ("stable", ["--release"], "", "release"),
    "asan": ("nightly", ["--release", "--target", "x86_64-unknown-linux-gnu"], "-Zsanitizer=address", "x86_64-unknown-linux-gnu/release"),
}


def cargo(args, cwd, env, timeout=840):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


def start_build(crate, build, features, binary, out_name, extra_env=None, target_name=None):
    """Builds one binary (in a thread-free way: returns a Popen-like object to wait for)."""
    tool, args, flags, sub = BUILDS[build]
    target = os.path.join(BUILD, target_name or build)
    drop_stale(target)
    env = cargo_env(dict(extra_env or {}, CARGO_TARGET_DIR=target))
    if flags:
        env["RUSTFLAGS"] = flags
    cmd = ["cargo", "+" + tool, "build", "--offline", "--locked", "--bin", binary] + args
    if features is not None:
        cmd += ["--no-default-features", "--features", features]
    logf = open(os.path.join(BUILD, out_name + ".log"), "w+")
    p = subprocess.Popen(cmd, cwd=os.path.join(VERIF, crate), env=env, stdout=logf, stderr=subprocess.STDOUT)
    return dict(p=p, log=logf, bin=os.path.join(target, sub, binary), out=os.path.join(BUILD, "bin", out_name), build=build)


def finish_build(b):
    rc = b["p"].wait()
    b["log"].seek(0)
    text = b["log"].read()
    b["log"].close()
    if rc != 0:
        raise CheckError("build '%s' failed:\n%s" % (b["build"], text[-6000:]))
    os.makedirs(os.path.dirname(b["out"]), exist_ok=True)
    tmp = b["out"] + ".tmp"
    shutil.copy2(b["bin"], tmp)
    os.replace(tmp, b["out"])
    return b["out"]


def build_harness(prop, builds, crate="harness", binary="harness", features=None, env=None):
    """Builds the harness with only this property compiled in, in all requested ways at once."""
    with Lock("build"):
        jobs = [start_build(crate, b, features or prop.lower(), binary, "%s-%s" % (prop, b), env) for b in builds]
        errors, bins = [], {}
        for j in jobs:
            try:
                bins[j["build"]] = finish_build(j)
            except CheckError as e:
                errors.append(str(e))
        if errors:
            raise CheckError("\n".join(errors))
        return bins


def build_configurations(prop, crate, binary, groups):
    """One checked binary per feature set; the sets of a group are built one after another in one target directory."""
    from concurrent.futures import ThreadPoolExecutor

    def group(g):
        out = {}
        for name, features in groups[g]:
            out[name] = finish_build(start_build(crate, "checked", features, binary, "%s-%s" % (prop, name), None, "configs%d" % g))
        return out
    with Lock("build"):
        with ThreadPoolExecutor(len(groups)) as ex:
            res = {}
            for r in ex.map(group, range(len(groups))):
                res.update(r)
            return res


class Unbuildable(Exception):
    """A feature set with which the library itself does not compile although the default one does."""

    def __init__(self, features, bare, text):
        super().__init__("features '%s'%s: %s" % (features, " without a standard library" if bare else "", text[-1500:]))
        self.features, self.bare, self.text = features, bare, text


def probe(features, bare, lane):
    """Type-checks the library with exactly these features; returns (ok, output)."""
    target = os.path.join(BUILD, "probe%s" % lane)
    drop_stale(target)
    cmd = ["+nightly" if bare else "+stable", "check", "--offline", "--locked", "--no-default-features", "--features", features]
    if bare:
        cmd += ["-Zbuild-std=core,alloc", "--target", "x86_64-unknown-none"]
    rc, text = cargo(cmd, os.path.join(VERIF, "probe"), cargo_env({"CARGO_TARGET_DIR": target}))
    return rc == 0, text


def probe_all(feature_sets, bare):
    """Raises Unbuildable if the library does not compile with one of the feature sets; returns how many do."""
    from concurrent.futures import ThreadPoolExecutor
    lanes = 1 if bare else 4

    def lane(k):
        for f in feature_sets[k::lanes]:
            ok, text = probe(f, bare, "-bare" if bare else str(k))
            if not ok:
                return f, text
        return None
    with Lock("probe"):
        with ThreadPoolExecutor(lanes) as ex:
            bad = [r for r in ex.map(lane, range(lanes)) if r]
        if bad:
            f, text = bad[0]
            ok, base = probe("std", False, "0")
            if not ok:
                raise CheckError("the library does not compile at all:\n%s" % base[-4000:])
            again, text = probe(f, bare, "-bare" if bare else "0")
            ours = ("ros_pointcloud2", "rpcl2-derive", "rpcl2-probe")
            if again or not any("could not compile `%s`" % c in text for c in ours):
                raise CheckError("probe with features '%s' failed otherwise:\n%s" % (f, text[-4000:]))
            raise Unbuildable(f, bare, text)
    return len(feature_sets)


ASAN = "detect_leaks=0:allocator_may_return_null=1:exitcode=97:max_allocation_size_mb=3000:symbolize=0:abort_on_error=0:handle_segv=1:detect_stack_use_after_return=0"


def limits(build, gib):
    def f():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if gib and build != "asan":
            resource.setrlimit(resource.RLIMIT_AS, (gib << 30, gib << 30))
    return f


def run_env(extra):
    env = dict(os.environ)
    env.pop("RUST_BACKTRACE", None)
    env["ASAN_OPTIONS"] = ASAN
    env["RAYON_NUM_THREADS"] = "2"
    env.update(extra or {})
    return env


class Scratch:
    def __init__(self, name):
        self.path = os.path.join(BUILD, "run", "%s-%d" % (name, os.getpid()))

    def __enter__(self):
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class Tally:
    """What the run covered, measured."""

    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.rule = ""
        self.per_build = {}
        self.corpus = 0

    def add(self, build, rep, hash_file):
        self.evaluations += rep["evaluations"]
        self.per_build[build] = self.per_build.get(build, 0) + rep["evaluations"]
        for k, v in rep["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v
        if len(self.samples) < 6:
            self.samples += rep["samples"][: 6 - len(self.samples)]
        self.rule = rep["rule"]
        with open(hash_file, "rb") as f:
            data = f.read()
        self.hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data))


def write_evidence(prop, tier, wall, tally, violations, extra=None, assumptions=None):
    cov = {
        "evaluations": tally.evaluations,
        "distinct_nontrivial": len(tally.hashes),
        "rule": tally.rule,
        "samples": tally.samples,
        "evaluations_per_build": tally.per_build,
        "labels": dict(sorted(tally.labels.items())),
        "regression_cases_replayed": tally.corpus,
    }
    cov.update(extra or {})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed(),
        "level": "exploration",
        "coverage": cov,
        "wall_s": round(wall, 2),
        "violations": violations,
        "assumptions": assumptions or [],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(p + ".tmp", p)


def known_feature_sets(prop):
    """Lines 'finding: property=<id> bare-features=<set> <text>': feature sets known not to work without a standard library."""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt"), encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) bare-features=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


def dependency_std(features):
    """Crates that these features pull in with their own 'std' feature turned on, as cargo resolves them for a target without std."""
    cmd = ["+stable", "tree", "--offline", "--locked", "--no-default-features", "--features", features, "-e", "normal,no-proc-macro",
           "--prefix", "none", "-f", "{p}\t{f}"]
    rc, text = cargo(cmd, os.path.join(VERIF, "probe"), cargo_env({}))
    if rc != 0:
        raise CheckError("cargo tree with features '%s' failed:\n%s" % (features, text[-3000:]))
    found = set()
    for line in text.splitlines():
        name, _, feats = line.partition("\t")
        if "std" in feats.replace(" (*)", "").split(","):
            found.add(name.split()[0])
    return sorted(found)


def known_findings(prop):
    """Lines 'finding: property=<id> replay=<file name in corpus> <text>' of known-findings.txt that suppress exactly that case."""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt"), encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) replay=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


def crashed(rc, build):
    """Did the process die in a way that only the code under test can cause?"""
    if rc == 97 and build == "asan":
        return True
    return rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP)
