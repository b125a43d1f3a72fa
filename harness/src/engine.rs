//! The property runner: fixed numbers of generated cases, a pure function of (code, seed, worker, case index).
//! Cases run in-process; the index of the running case is recorded so that a crash can be attributed, regenerated and shrunk with
//! every candidate running in a forked child.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What a case exercised: whether it is non-trivial by the property's stated rule, and labels for the distribution.
pub struct Class {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

pub trait Prop {
    type Case: Serialize + DeserializeOwned + Debug + Clone;
    const ID: &'static str;
    const RULE: &'static str;
    fn strategy() -> BoxedStrategy<Self::Case>;
    fn check(c: &Self::Case) -> Result<(), String>;
    fn classify(c: &Self::Case) -> Class;
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn config() -> Config {
    Config {
        failure_persistence: None,
        max_local_rejects: 100_000,
        max_global_rejects: 1_000_000,
        ..Config::default()
    }
}

fn runner_for(id: &str, seed: u64, worker: u64, index: u64) -> TestRunner {
    let mut s = fnv(id.as_bytes()) ^ seed.wrapping_mul(0x2545F4914F6CDD1D) ^ (worker << 48) ^ index;
    let mut bytes = [0u8; 32];
    for c in bytes.chunks_mut(8) {
        c.copy_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    TestRunner::new_with_rng(config(), TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

#[derive(Serialize, Deserialize, Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failed_index: Option<u64>,
    pub message: Option<String>,
    pub rule: String,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub message: String,
    pub case: serde_json::Value,
}

fn clip(s: String, n: usize) -> String {
    if s.len() <= n {
        return s;
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} chars)", &s[..k], s.len())
}

pub struct Files {
    pub report: String,
    pub hashes: String,
    pub progress: String,
}

fn identity<P: Prop>(case: &P::Case) -> u64 {
    fnv(&bincode::serialize(case).expect("case serialises"))
}

/// Runs `cases` cases; exit code 0 (held), 1 (failing case recorded), 2 (harness error).
pub fn run<P: Prop>(seed: u64, worker: u64, start: u64, cases: u64, files: &Files) -> i32 {
    let strat = P::strategy();
    let mut rep = Report {
        rule: P::RULE.to_string(),
        ..Default::default()
    };
    let progress = std::fs::File::create(&files.progress).expect("progress file");
    let mut seen: HashSet<u64> = HashSet::new();
    let mut code = 0;
    for i in start..start + cases {
        use std::os::unix::fs::FileExt;
        let mut runner = runner_for(P::ID, seed, worker, i);
        let case = match strat.new_tree(&mut runner) {
            Ok(t) => t.current(),
            Err(e) => {
                eprintln!("generator of {} failed: {e}", P::ID);
                return 2;
            }
        };
        progress.write_all_at(&i.to_le_bytes(), 0).expect("progress");
        let hash = identity::<P>(&case);
        crate::alloc::arrange(hash);
        let r = match catch_unwind(AssertUnwindSafe(|| {
            let c = P::classify(&case);
            (P::check(&case), c)
        })) {
            Ok(r) => r,
            Err(_) => {
                eprintln!("harness error in {} seed {seed} worker {worker} case {i}", P::ID);
                return 2;
            }
        };
        rep.evaluations += 1;
        let (res, class) = r;
        for l in class.labels {
            *rep.labels.entry(l.to_string()).or_default() += 1;
        }
        if class.nontrivial {
            rep.nontrivial += 1;
            seen.insert(hash);
            if rep.samples.len() < 2 && i % 7 == 3 {
                rep.samples.push(clip(serde_json::to_string(&case).expect("case serialises"), 700));
            }
        }
        if let Err(m) = res {
            rep.failed_index = Some(i);
            rep.message = Some(m);
            code = 1;
            break;
        }
    }
    let mut h = std::io::BufWriter::new(std::fs::File::create(&files.hashes).expect("hash file"));
    for x in &seen {
        h.write_all(&x.to_le_bytes()).expect("hash file");
    }
    h.flush().expect("hash file");
    std::fs::write(&files.report, serde_json::to_vec(&rep).expect("report")).expect("report file");
    code
}

pub enum Verdict {
    Held,
    Failed(String),
    Inconclusive(String),
}

/// Runs one case in a forked child.
pub fn isolated<P: Prop>(case: &P::Case, seconds: u32) -> Verdict {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            if std::env::var_os("HARNESS_VERBOSE").is_none() {
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 2);
            }
            libc::alarm(seconds);
            crate::alloc::arrange(identity::<P>(case));
            let (code, msg) = match catch_unwind(AssertUnwindSafe(|| P::check(case))) {
                Ok(Ok(())) => (0, String::new()),
                Ok(Err(m)) => (1, m),
                Err(_) => (2, "harness panic".to_string()),
            };
            let m = msg.as_bytes();
            let m = &m[..m.len().min(60000)];
            libc::write(fds[1], m.as_ptr().cast(), m.len());
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut msg = Vec::new();
        let _ = f.read_to_end(&mut msg);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        let msg = String::from_utf8_lossy(&msg).into_owned();
        if libc::WIFEXITED(status) {
            match libc::WEXITSTATUS(status) {
                0 => Verdict::Held,
                1 => Verdict::Failed(msg),
                97 => Verdict::Failed("memory error reported by AddressSanitizer".into()),
                c => Verdict::Inconclusive(format!("exit {c}: {msg}")),
            }
        } else {
            let sig = libc::WTERMSIG(status);
            if sig == libc::SIGALRM || sig == libc::SIGKILL {
                Verdict::Inconclusive(format!("signal {sig}"))
            } else {
                Verdict::Failed(format!("process died with signal {sig}"))
            }
        }
    }
}

/// Regenerates a failing case and shrinks it. Exit 1: reproduced, replay written. Exit 2: not reproduced.
pub fn shrink<P: Prop>(seed: u64, worker: u64, index: u64, out: &str) -> i32 {
    let mut runner = runner_for(P::ID, seed, worker, index);
    let tree = P::strategy().new_tree(&mut runner).expect("generator");
    reduce::<P>(tree, &format!("seed {seed} worker {worker} case {index}"), out)
}

fn reduce<P: Prop>(mut tree: impl ValueTree<Value = P::Case>, origin: &str, out: &str) -> i32 {
    let mut best = tree.current();
    // a failure that only some runs show (freed or uninitialised memory, a race) gets a few chances
    let heavy = crate::gen::heavy();
    let (long, short) = if heavy { (240, 60) } else { (100, 20) };
    let mut first = isolated::<P>(&best, long);
    for _ in 0..4 {
        if !matches!(first, Verdict::Held) || heavy {
            break;
        }
        first = isolated::<P>(&best, long);
    }
    let mut msg = match first {
        Verdict::Failed(m) => m,
        Verdict::Held => {
            if let Some(m) = std::env::var("HARNESS_MESSAGE").ok().filter(|m| !m.is_empty()) {
                let rep = Replay {
                    property: P::ID.into(),
                    message: format!("seen once, not on every run: {m}"),
                    case: serde_json::to_value(&best).expect("case serialises"),
                };
                std::fs::write(out, serde_json::to_vec_pretty(&rep).expect("replay")).expect("replay file");
                return 1;
            }
            eprintln!("failure of {} ({origin}) did not reproduce in isolation", P::ID);
            return 2;
        }
        Verdict::Inconclusive(m) => {
            eprintln!("replaying {} ({origin}) was inconclusive: {m}", P::ID);
            return 2;
        }
    };
    let started = std::time::Instant::now();
    let mut steps = 0u32;
    // the time bound only limits how small the reproduction gets, never the verdict
    if tree.simplify() {
        loop {
            steps += 1;
            if steps > 3000 || started.elapsed().as_secs() > 40 {
                break;
            }
            let cand = tree.current();
            let failed = match isolated::<P>(&cand, short) {
                Verdict::Failed(m) => {
                    best = cand;
                    msg = m;
                    true
                }
                _ => false,
            };
            let more = if failed { tree.simplify() } else { tree.complicate() };
            if !more {
                break;
            }
        }
    }
    let rep = Replay {
        property: P::ID.into(),
        message: clip(msg.clone(), 4000),
        case: serde_json::to_value(&best).expect("case serialises"),
    };
    std::fs::write(out, serde_json::to_vec_pretty(&rep).expect("replay")).expect("replay file");
    eprintln!("{} minimal failing case after {steps} steps: {}", P::ID, clip(format!("{best:?}"), 1500));
    eprintln!("{}", clip(msg, 2000));
    1
}

/// Replays saved cases (each in a forked child). Exit 1 on the first that fails, printing its path.
pub fn replay<P: Prop>(files: &[String]) -> i32 {
    for f in files {
        let text = std::fs::read(f).expect("replay file");
        let rep: Replay = serde_json::from_slice(&text).expect("replay format");
        let case: P::Case = serde_json::from_value(rep.case).expect("replay case format");
        match isolated::<P>(&case, 240) {
            Verdict::Held => println!("held {f}"),
            Verdict::Failed(m) => {
                println!("failed {f}");
                eprintln!("{}", clip(m, 2000));
                return 1;
            }
            Verdict::Inconclusive(m) => {
                eprintln!("inconclusive {f}: {m}");
                return 2;
            }
        }
    }
    0
}

/// Case generation from a raw byte string (coverage-guided): proptest draws its randomness from the bytes.
fn tree_of<P: Prop>(strat: &BoxedStrategy<P::Case>, bytes: &[u8]) -> Option<Box<dyn ValueTree<Value = P::Case>>> {
    let mut runner = TestRunner::new_with_rng(config(), TestRng::from_seed(RngAlgorithm::PassThrough, bytes));
    strat.new_tree(&mut runner).ok()
}

/// The coverage-guided search of one property.
pub struct Fuzz<P: Prop> {
    strat: BoxedStrategy<P::Case>,
    seen: HashSet<u64>,
    rep: Report,
    files: Option<Files>,
    shrink_to: Option<String>,
}

pub trait Fuzzed {
    /// Whether the input is worth keeping: slow ones (big clouds) would otherwise take over, since their counters run highest.
    fn one(&mut self, bytes: &[u8]) -> bool;
    fn tell(&self);
}

impl<P: Prop> Fuzz<P> {
    /// `stats`: prefix of the files that say what was covered; `shrink_to`: reduce the first input and write it there instead.
    pub fn new(stats: Option<String>, shrink_to: Option<String>) -> Self {
        Fuzz {
            strat: P::strategy(),
            seen: HashSet::new(),
            rep: Report { rule: P::RULE.to_string(), ..Default::default() },
            files: stats.map(|s| Files { report: format!("{s}.json"), hashes: format!("{s}.hash"), progress: String::new() }),
            shrink_to,
        }
    }
}

impl<P: Prop> Fuzzed for Fuzz<P> {
    /// A broken property aborts the process.
    fn one(&mut self, bytes: &[u8]) -> bool {
        let Some(tree) = tree_of::<P>(&self.strat, bytes) else { return false };
        if let Some(out) = &self.shrink_to {
            if bytes.is_empty() {
                return false; // libFuzzer begins with an empty input of its own
            }
            let code = reduce::<P>(tree, "saved input", out);
            unsafe { libc::_exit(code) };
        }
        let case = tree.current();
        drop(tree);
        let hash = identity::<P>(&case);
        crate::alloc::arrange(hash);
        let started = std::time::Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let c = P::classify(&case);
            (P::check(&case), c)
        }));
        let quick = started.elapsed().as_millis() < 8;
        self.rep.evaluations += 1;
        match r {
            Ok((Ok(()), class)) => {
                for l in class.labels {
                    *self.rep.labels.entry(l.to_string()).or_default() += 1;
                }
                if class.nontrivial {
                    self.rep.nontrivial += 1;
                    self.seen.insert(hash);
                }
                quick
            }
            Ok((Err(m), _)) => {
                eprintln!("{} broken: {}", P::ID, clip(m, 2000));
                std::process::abort();
            }
            Err(_) => {
                eprintln!("harness error");
                unsafe { libc::_exit(2) };
            }
        }
    }

    fn tell(&self) {
        if let Some(f) = &self.files {
            let bytes: Vec<u8> = self.seen.iter().flat_map(|x| x.to_le_bytes()).collect();
            std::fs::write(&f.hashes, bytes).expect("hash file");
            std::fs::write(&f.report, serde_json::to_vec(&self.rep).expect("report")).expect("report file");
        }
    }
}

pub fn usage() -> ! {
    eprintln!("usage: harness run PROP SEED WORKER START CASES OUTPREFIX | shrink PROP SEED WORKER INDEX OUT | replay PROP FILE...");
    std::process::exit(2)
}

/// Writes cases that hold and are small enough for an interpreter (memory in use at any time as a measure of the work), one per line.
fn sift<P: Prop>(seed: u64, worker: u64, count: u64, bytes: u64, out: &str) -> i32 {
    assert!(crate::alloc::ACTIVE, "sifting needs the counting allocator");
    let mut text = String::new();
    let (mut i, mut found) = (0, 0);
    while found < count && i < count * 1000 {
        let mut runner = runner_for(P::ID, seed, worker, i);
        i += 1;
        let case = P::strategy().new_tree(&mut runner).expect("generator").current();
        if !P::classify(&case).nontrivial {
            continue;
        }
        crate::alloc::arrange(identity::<P>(&case));
        let (held, _, peak) = crate::alloc::measured_total(|| P::check(&case).is_ok());
        // what fails is the other builds' business
        if held && peak < bytes as isize {
            text += &serde_json::to_string(&case).expect("case serialises");
            text.push('\n');
            found += 1;
        }
    }
    std::fs::write(out, text).expect("case file");
    0
}

/// Runs the cases of a file in this process, telling how far it came.
fn walk<P: Prop>(file: &str, progress: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("case file");
    for (i, line) in text.lines().enumerate() {
        std::fs::write(progress, i.to_string()).expect("progress file");
        let case: P::Case = serde_json::from_str(line).expect("case");
        if let Err(m) = P::check(&case) {
            eprintln!("case {i}: {m}");
            return 1;
        }
    }
    std::fs::write(progress, "done").expect("progress file");
    0
}

/// One command of the harness binary for one property.
pub fn command<P: Prop>(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap_or_else(|_| usage());
    match a[0].as_str() {
        "run" if a.len() == 7 => {
            let f = Files {
                report: format!("{}.json", a[6]),
                hashes: format!("{}.hash", a[6]),
                progress: format!("{}.progress", a[6]),
            };
            run::<P>(n(2), n(3), n(4), n(5), &f)
        }
        "shrink" if a.len() == 6 => shrink::<P>(n(2), n(3), n(4), &a[5]),
        "replay" => replay::<P>(&a[2..]),
        "sift" if a.len() == 7 => sift::<P>(n(2), n(3), n(4), n(5), &a[6]),
        "walk" if a.len() == 4 => walk::<P>(&a[2], &a[3]),
        _ => usage(),
    }
}

pub fn main(dispatch: impl Fn(&str, &[String]) -> i32) -> ! {
    crate::api::install_quiet_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.len() < 2 {
        usage();
    }
    let code = catch_unwind(AssertUnwindSafe(|| dispatch(a[1].as_str(), &a))).unwrap_or(2);
    std::process::exit(code)
}
