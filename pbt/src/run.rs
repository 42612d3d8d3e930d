//! Running the suites of one property: in threads inside a watched child process (so that a stack
//! overflow or an abort of the code under test becomes a counterexample and not a lost run), with
//! shrinking, replay files and the evidence file.

use crate::*;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn from_env() -> Tier {
        match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        }
    }
}

pub fn seed_from_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn case_seed(seed: u64, suite: &Suite, idx: u64) -> u64 {
    mix(mix(seed, hash_str(suite.name)), idx)
}

pub fn size_of(suite: &Suite, tier: Tier) -> u64 {
    // for trying things out: VERIF_SCALE=0.1 runs a tenth of the random cases
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    match suite.kind {
        Kind::Random { quick, thorough, .. } => {
            let n = if tier == Tier::Quick { quick } else { thorough };
            ((n as f64 * scale) as u64).max(1)
        }
        Kind::Enumerated { quick, thorough, .. } => {
            if tier == Tier::Quick {
                quick
            } else {
                thorough
            }
        }
    }
}

/// One case of a suite by its index.
pub fn run_index(suite: &Suite, seed: u64, idx: u64, cx: &mut Cx) -> (Verdict, Vec<u64>) {
    match suite.kind {
        Kind::Random { f, .. } => {
            let mut src = Src::random(case_seed(seed, suite, idx));
            let v = run_random(f, &mut src, cx);
            (v, src.rec)
        }
        Kind::Enumerated { f, .. } => (guarded(|| f(idx, cx)), vec![idx]),
    }
}

pub fn run_choices(suite: &Suite, choices: Vec<u64>, cx: &mut Cx) -> (Verdict, Vec<u64>) {
    match suite.kind {
        Kind::Random { f, .. } => {
            let mut src = Src::replay(choices);
            let v = run_random(f, &mut src, cx);
            (v, src.rec)
        }
        Kind::Enumerated { f, .. } => {
            let idx = choices.first().copied().unwrap_or(0);
            (guarded(|| f(idx, cx)), vec![idx])
        }
    }
}

#[derive(Clone)]
pub struct Failure {
    pub suite: String,
    pub idx: u64,
    pub choices: Vec<u64>,
    pub msg: String,
    pub desc: String,
    pub shrink_evals: u64,
}

pub fn shrink_failure(suite: &Suite, idx: u64, choices: Vec<u64>, msg: String, budget: u64) -> Failure {
    let until = Instant::now() + SHRINK_FOR;
    let s = match suite.kind {
        Kind::Random { .. } => shrink(choices, msg, budget, |cand| {
            if Instant::now() > until {
                return None;
            }
            let mut cx = Cx::default();
            BUSY[SHRINKING].store(now_ms(), Ordering::Relaxed);
            let (v, used) = run_choices(suite, cand, &mut cx);
            BUSY[SHRINKING].store(0, Ordering::Relaxed);
            v.err().map(|m| (used, m))
        }),
        Kind::Enumerated { .. } => Shrunk { choices, msg, evals: 0 },
    };
    let mut cx = Cx { want_desc: true, ..Cx::default() };
    let (v, _) = run_choices(suite, s.choices.clone(), &mut cx);
    Failure {
        suite: suite.name.to_string(),
        idx,
        msg: v.err().unwrap_or(s.msg),
        choices: s.choices,
        desc: cx.desc,
        shrink_evals: s.evals,
    }
}

fn wants_desc(idx: u64, n: u64) -> bool {
    [1, 7, 12, 18].iter().any(|k| {
        let a = n / 20 * k;
        idx >= a && idx < a + 24
    })
}

pub struct SuiteReport {
    pub name: String,
    pub enumerated: bool,
    pub stats: Stats,
    pub failure: Option<Failure>,
}

fn account(stats: &mut Stats, suite: &Suite, idx: u64, cx: &Cx) {
    stats.evaluations += 1 + cx.extra_evals;
    if cx.nontrivial {
        match suite.kind {
            Kind::Random { .. } => {
                stats.seen.insert(cx.fingerprint);
            }
            Kind::Enumerated { .. } => stats.nontrivial_enum += 1,
        }
    }
    for l in &cx.labels {
        *stats.labels.entry(l).or_insert(0) += 1;
    }
    if cx.want_desc && cx.nontrivial && stats.samples.len() < 3 {
        let d = json_out::clip(&cx.desc, 300);
        if !stats.samples.contains(&d) {
            stats.samples.push(d);
        }
    }
    let _ = idx;
}

/// When each thread began the case it is at (0: none); and the failure being shrunk meanwhile.
static BUSY: [AtomicU64; 65] = [const { AtomicU64::new(0) }; 65];
const SHRINKING: usize = 64;
/// A case that takes this long is taken to run for ever.
const HANG: Duration = Duration::from_secs(60);
const HUNG: i32 = 97;
/// A failure that is slow to show is left as it is by then.
const SHRINK_FOR: Duration = Duration::from_secs(60);

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Ends the process when a case does not end; the parent finds out which.
fn watch() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = now_ms();
        for b in &BUSY {
            let t = b.load(Ordering::Relaxed);
            if t > 0 && now > t + HANG.as_millis() as u64 {
                std::process::exit(HUNG);
            }
        }
    });
}

/// Runs a suite in `threads` threads; the failing case of lowest index is the one reported.
pub fn run_suite(suite: &Suite, si: usize, seed: u64, n: u64, threads: usize, trace: Option<&fs::File>) -> SuiteReport {
    let next = AtomicU64::new(0);
    let worst = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Stats::default());
    let fails: Mutex<Vec<(u64, Vec<u64>, String)>> = Mutex::new(Vec::new());
    let chunk = (n / (threads as u64 * 16)).clamp(1, 512);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, worst, total, fails) = (&next, &worst, &total, &fails);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    let mut stats = Stats::default();
                    'out: loop {
                        let lo = next.fetch_add(chunk, Ordering::Relaxed);
                        if lo >= n || lo > worst.load(Ordering::Relaxed) {
                            break;
                        }
                        for idx in lo..(lo + chunk).min(n) {
                            if idx > worst.load(Ordering::Relaxed) {
                                break 'out;
                            }
                            if let Some(f) = trace {
                                let mut b = [0u8; 16];
                                b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                                b[8..].copy_from_slice(&idx.to_le_bytes());
                                let _ = f.write_all_at(&b, t as u64 * 16);
                            }
                            let mut cx = Cx { want_desc: wants_desc(idx, n), ..Cx::default() };
                            BUSY[t % 64].store(now_ms(), Ordering::Relaxed);
                            let (v, rec) = run_index(suite, seed, idx, &mut cx);
                            BUSY[t % 64].store(0, Ordering::Relaxed);
                            account(&mut stats, suite, idx, &cx);
                            if let Err(m) = v {
                                worst.fetch_min(idx, Ordering::Relaxed);
                                fails.lock().unwrap().push((idx, rec, m));
                                break 'out;
                            }
                        }
                    }
                    total.lock().unwrap().merge(stats);
                })
                .expect("spawn");
        }
    });
    let mut stats = total.into_inner().unwrap();
    stats.samples.sort();
    stats.samples.truncate(3);
    let mut fails = fails.into_inner().unwrap();
    fails.sort();
    let failure = fails.into_iter().next().map(|(idx, rec, m)| shrink_failure(suite, idx, rec, m, 20_000));
    SuiteReport {
        name: suite.name.to_string(),
        enumerated: matches!(suite.kind, Kind::Enumerated { .. }),
        stats,
        failure,
    }
}

// ---------------------------------------------------------------------------------------------
// reports

pub fn replay_text(id: &str, f: &Failure, seed: u64) -> String {
    let choices: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
    format!(
        "property: {}\nsuite: {}\nseed: {}\nindex: {}\nchoices: {}\nshrink-evaluations: {}\n\n--- what failed\n{}\n\n--- the case\n{}\n",
        id,
        f.suite,
        seed,
        f.idx,
        choices.join(" "),
        f.shrink_evals,
        f.msg,
        f.desc
    )
}

pub struct Replay {
    pub property: String,
    pub suite: String,
    pub seed: u64,
    pub index: u64,
    pub choices: Vec<u64>,
}

pub fn read_replay(path: &Path) -> Option<Replay> {
    let t = fs::read_to_string(path).ok()?;
    let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|r| r.trim().to_string()));
    Some(Replay {
        property: field("property:")?,
        suite: field("suite:")?,
        seed: field("seed:")?.parse().ok()?,
        index: field("index:")?.parse().ok()?,
        choices: field("choices:")?.split_whitespace().filter_map(|x| x.parse().ok()).collect(),
    })
}

pub fn write_replay(id: &str, f: &Failure, seed: u64) -> PathBuf {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}.txt", id, f.suite));
    let _ = fs::write(&p, replay_text(id, f, seed));
    p
}

pub fn evidence_json(
    id: &str,
    tier: Tier,
    seed: u64,
    rule: &str,
    assumptions: &[&str],
    reports: &[SuiteReport],
    wall: f64,
    violations: u64,
) -> String {
    let q = json_out::quote;
    let evals: u64 = reports.iter().map(|r| r.stats.evaluations).sum();
    let nontriv: u64 = reports.iter().map(|r| r.stats.distinct_nontrivial()).sum();
    let mut samples = Vec::new();
    for r in reports {
        for s in r.stats.samples.iter().take(3) {
            samples.push(format!("{}: {}", r.name, s));
        }
    }
    let suites: Vec<String> = reports
        .iter()
        .map(|r| {
            let labels: Vec<String> = r.stats.labels.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect();
            format!(
                "      {}: {{\"kind\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"classes\": {{{}}}}}",
                q(&r.name),
                q(if r.enumerated { "enumerated" } else { "random" }),
                r.stats.evaluations,
                r.stats.distinct_nontrivial(),
                labels.join(", ")
            )
        })
        .collect();
    format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": {},\n    \"suites\": {{\n{}\n    }}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        q(id),
        q(tier.name()),
        seed,
        evals,
        nontriv,
        q(rule),
        json_out::list(&samples),
        suites.join(",\n"),
        json_out::list(&assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        wall,
        violations
    )
}

pub fn write_evidence(id: &str, text: &str) {
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    if let Err(e) = fs::write(dir.join(format!("{}.json", id)), text) {
        eprintln!("cannot write the evidence of {}: {}", id, e);
        std::process::exit(2);
    }
}

/// Prints the verdict, writes evidence and replay file, and returns the exit code.
pub fn conclude(check_id: &str, tier: Tier, seed: u64, rule: &str, assumptions: &[&str], reports: &[SuiteReport], wall: f64) -> i32 {
    let failures: Vec<&Failure> = reports.iter().filter_map(|r| r.failure.as_ref()).collect();
    let text = evidence_json(check_id, tier, seed, rule, assumptions, reports, wall, failures.len() as u64);
    write_evidence(check_id, &text);
    for r in reports {
        println!(
            "{} {:<34} {:>9} cases, {:>9} distinct non-trivial{}",
            check_id,
            r.name,
            r.stats.evaluations,
            r.stats.distinct_nontrivial(),
            if r.failure.is_some() { "  FAILED" } else { "" }
        );
    }
    for f in &failures {
        let p = write_replay(check_id, f, seed);
        println!("--- {} / {}: {}", check_id, f.suite, json_out::clip(&f.msg, 2000));
        println!("    case: {}", json_out::clip(&f.desc, 2000));
        println!("VIOLATION property={} replay={}", check_id, p.display());
    }
    if failures.is_empty() {
        println!("{}: held on everything explored ({:.1} s)", check_id, wall);
        0
    } else {
        1
    }
}

// ---------------------------------------------------------------------------------------------
// the command

fn threads() -> usize {
    std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

fn worker(check: &Check, trace: Option<&Path>) -> i32 {
    quiet_panics();
    let (tier, seed) = (Tier::from_env(), seed_from_env());
    let t0 = Instant::now();
    let only = std::env::var("VERIF_SUITE").ok();
    let file = trace.map(|p| fs::OpenOptions::new().write(true).create(true).open(p).expect("trace file"));
    let mut reports = Vec::new();
    watch();
    for (si, suite) in check.suites.iter().enumerate() {
        if let Some(o) = &only {
            if o != suite.name {
                continue;
            }
        }
        let t1 = Instant::now();
        let r = run_suite(suite, si, seed, size_of(suite, tier), threads(), file.as_ref());
        if std::env::var_os("VERIF_VERBOSE").is_some() {
            eprintln!("{} {}: {:.2} s", check.id, suite.name, t1.elapsed().as_secs_f64());
            for (k, v) in &r.stats.labels {
                eprintln!("    {:>9} {}", v, k);
            }
        }
        let stop = r.failure.is_some();
        reports.push(r);
        if stop {
            break;
        }
    }
    let _ = std::io::stdout().flush();
    conclude(check.id, tier, seed, check.rule, check.assumptions, &reports, t0.elapsed().as_secs_f64())
}

/// A single case in this very process; its description is announced before it is decided.
fn single(check: &Check, suite: &str, seed: u64, what: Result<u64, Vec<u64>>) -> i32 {
    quiet_panics();
    let suite = match check.suites.iter().find(|s| s.name == suite) {
        Some(s) => *s,
        None => {
            eprintln!("no suite {}", suite);
            return 2;
        }
    };
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut cx = Cx { want_desc: true, announce: true, ..Cx::default() };
            match what {
                Ok(idx) => run_index(&suite, seed, idx, &mut cx).0,
                Err(choices) => run_choices(&suite, choices, &mut cx).0,
            }
        })
        .unwrap();
    match h.join().unwrap() {
        Ok(()) => 0,
        Err(m) => {
            println!("FAILS: {}", m);
            1
        }
    }
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    timed_out: bool,
    stdout: String,
    stderr: String,
}

extern "C" {
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}

pub fn run_child(cmd: Command, limit: Duration) -> (Option<i32>, Option<i32>, bool, String, String) {
    run_child_in(cmd, limit, 24 << 30)
}

/// code, signal, whether it was ended for taking too long, stdout, stderr
pub fn run_child_in(mut cmd: Command, limit: Duration, memory: u64) -> (Option<i32>, Option<i32>, bool, String, String) {
    use std::os::unix::process::CommandExt;
    let dir = std::env::temp_dir().join(format!("vt-{}-{}", std::process::id(), next_id()));
    let _ = fs::create_dir_all(&dir);
    let (po, pe) = (dir.join("o"), dir.join("e"));
    cmd.stdin(Stdio::null());
    cmd.stdout(fs::File::create(&po).unwrap());
    cmd.stderr(fs::File::create(&pe).unwrap());
    unsafe {
        cmd.pre_exec(move || {
            // RLIMIT_AS: what allocates without end shall end itself, not the sandbox
            setrlimit(9, &[memory, memory]);
            Ok(())
        });
    }
    let mut ch = cmd.spawn().expect("spawn");
    let t0 = Instant::now();
    let mut timed_out = false;
    let st = loop {
        match ch.try_wait().expect("wait") {
            Some(st) => break st,
            None => {
                if t0.elapsed() > limit {
                    timed_out = true;
                    let _ = ch.kill();
                    break ch.wait().expect("wait");
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    };
    let read = |p: &Path| String::from_utf8_lossy(&fs::read(p).unwrap_or_default()).into_owned();
    let out = (st.code(), st.signal(), timed_out, read(&po), read(&pe));
    let _ = fs::remove_dir_all(&dir);
    out
}

fn next_id() -> u64 {
    static N: AtomicU64 = AtomicU64::new(0);
    N.fetch_add(1, Ordering::Relaxed)
}

fn child(id: &str, args: &[String], limit: Duration, memory: u64) -> Ran {
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg(id).args(args);
    let (code, signal, timed_out, stdout, stderr) = run_child_in(cmd, limit, memory);
    Ran { code, signal, timed_out, stdout, stderr }
}

const ALONE: u64 = 6 << 30;

/// How a case that ran alone, with plenty of time and memory, went wrong.
fn how(r: &Ran) -> Option<String> {
    if r.timed_out {
        return Some("it does not end".into());
    }
    if r.code == Some(1) {
        return Some(r.stdout.lines().find_map(|l| l.strip_prefix("FAILS: ")).unwrap_or("it fails").to_string());
    }
    match r.signal {
        // SIGABRT (stack overflow, abort, out of memory), SIGSEGV, SIGBUS, SIGILL
        Some(s @ (6 | 11 | 7 | 4)) => Some(format!("the process died (signal {}): {}", s, json_out::clip(r.stderr.trim(), 600))),
        _ => None,
    }
}

fn kind_of(r: &Ran) -> (bool, Option<i32>, Option<i32>) {
    (r.timed_out, r.code, r.signal)
}

fn parent(check: &Check) -> i32 {
    let (tier, seed) = (Tier::from_env(), seed_from_env());
    let t0 = Instant::now();
    let trace = std::env::temp_dir().join(format!("vt-trace-{}", std::process::id()));
    let _ = fs::remove_file(&trace);
    let limit = if tier == Tier::Quick { 700 } else { 7200 };
    let r = child(check.id, &["--worker".into(), trace.display().to_string()], Duration::from_secs(limit), 24 << 30);
    print!("{}", r.stdout);
    eprint!("{}", json_out::clip(&r.stderr, 20_000));
    let bytes = fs::read(&trace).unwrap_or_default();
    let _ = fs::remove_file(&trace);
    if r.timed_out {
        eprintln!("{}: no answer within {} s", check.id, limit);
        return 3;
    }
    if let Some(c) = r.code {
        if c != HUNG {
            return c;
        }
    }
    // the process died: which of the cases in flight does it on its own?
    let mut flight: Vec<(usize, u64)> = bytes
        .chunks_exact(16)
        .map(|b| {
            (
                u64::from_le_bytes(b[..8].try_into().unwrap()) as usize,
                u64::from_le_bytes(b[8..].try_into().unwrap()),
            )
        })
        .filter(|x| x.0 > 0)
        .map(|(s, i)| (s - 1, i))
        .collect();
    flight.sort();
    for (si, idx) in flight {
        let suite = &check.suites[si];
        let tee = std::env::temp_dir().join(format!("vt-tee-{}", std::process::id()));
        let one = child(
            check.id,
            &["--single".into(), suite.name.into(), seed.to_string(), idx.to_string(), tee.display().to_string()],
            HANG,
            ALONE,
        );
        let drawn = fs::read(&tee).unwrap_or_default();
        let _ = fs::remove_file(&tee);
        let msg = match how(&one) {
            Some(m) => m,
            None => continue,
        };
        let choices: Vec<u64> = drawn.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
        // shrink in children, for as long as that is reasonable
        let (until, patience) = (Instant::now() + SHRINK_FOR, Duration::from_secs(if one.timed_out { 6 } else { 60 }));
        let mut best = (one.stdout.clone(), msg.clone());
        let mut s = Shrunk { choices, msg, evals: 0 };
        if let (Kind::Random { .. }, false) = (suite.kind, s.choices.is_empty()) {
            s = shrink(s.choices, s.msg, 3000, |cand| {
                if Instant::now() > until {
                    return None;
                }
                let c: Vec<String> = cand.iter().map(|c| c.to_string()).collect();
                let r = child(check.id, &["--choices".into(), suite.name.into(), seed.to_string(), c.join(",")], patience, ALONE);
                if kind_of(&r) != kind_of(&one) {
                    return None;
                }
                let m = how(&r)?;
                best = (r.stdout.clone(), m.clone());
                Some((cand, m))
            });
        } else {
            s.choices.clear();
        }
        let desc = best.0.strip_prefix("CASE ").unwrap_or(&best.0).to_string();
        let f = Failure {
            suite: suite.name.to_string(),
            idx,
            choices: s.choices,
            msg: best.1,
            desc: json_out::clip(&desc, 100_000),
            shrink_evals: s.evals,
        };
        let mut st = Stats::default();
        st.evaluations = 1;
        st.samples.push(json_out::clip(&f.desc, 300));
        let rep = SuiteReport { name: suite.name.to_string(), enumerated: false, stats: st, failure: Some(f) };
        return conclude(check.id, tier, seed, check.rule, check.assumptions, &[rep], t0.elapsed().as_secs_f64());
    }
    eprintln!("{}: the worker ended by signal {:?}, code {:?}, and no case in flight does it alone", check.id, r.signal, r.code);
    3
}

fn replay(check: &Check, path: &Path) -> i32 {
    let r = match read_replay(path) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {}", path.display());
            return 2;
        }
    };
    let args: Vec<String> = if r.choices.is_empty() {
        vec!["--single".into(), r.suite.clone(), r.seed.to_string(), r.index.to_string()]
    } else {
        let c: Vec<String> = r.choices.iter().map(|c| c.to_string()).collect();
        vec!["--choices".into(), r.suite.clone(), r.seed.to_string(), c.join(",")]
    };
    let one = child(check.id, &args, HANG, ALONE);
    print!("{}", one.stdout);
    eprint!("{}", one.stderr);
    if one.code == Some(0) {
        println!("{}: the replayed case passes", check.id);
        return 0;
    }
    if let Some(m) = how(&one) {
        if one.code != Some(1) {
            println!("FAILS: {}", m);
        }
        println!("VIOLATION property={} replay={}", check.id, path.display());
        return 1;
    }
    3
}

/// `args`: what follows the property's id on the command line.
pub fn main_check(check: &Check, args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        None => parent(check),
        Some("--worker") => worker(check, args.get(1).map(|p| Path::new(p.as_str()))),
        Some("--single") => {
            let seed = args[2].parse().unwrap();
            if let Some(f) = args.get(4).and_then(|p| fs::File::create(p).ok()) {
                tee_to(f);
            }
            single(check, &args[1], seed, Ok(args[3].parse().unwrap()))
        }
        Some("--choices") => {
            let seed = args[2].parse().unwrap();
            single(check, &args[1], seed, Err(args[3].split(',').filter_map(|x| x.parse().ok()).collect()))
        }
        Some("--replay") => replay(check, Path::new(&args[1])),
        Some(o) => {
            eprintln!("unknown argument {}", o);
            2
        }
    }
}
