//! Checks whose cases run while a procedural macro is expanded: the cases are in /verif/pm, and here
//! is what has rustc expand it, in many processes at once, and puts the results together.

use pbt::run::*;
use pbt::{json_out, shrink, Shrunk, Stats};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// the texts printed are given to the compiler
    pub syntax: bool,
}

pub struct Inside {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: &'static [Part],
}

const CHUNK: u64 = 2000;
const PATIENCE: Duration = Duration::from_secs(150);
const MEMORY: u64 = 6 << 30;

const ASSUMPTIONS: &[&str] = &["tokens are those rustc makes of the text, and an invisible group is one the macro makes itself", "rustc's own syntax check decides whether a printed text is an item"];

pub fn check(id: &str) -> Option<Inside> {
    match id {
        "C23" => Some(Inside {
            id: "C23",
            rule: "an item with type parameters or a where clause, or of more than 60 characters",
            assumptions: ASSUMPTIONS,
            parts: &[Part { name: "items", quick: 80_000, thorough: 3_000_000, syntax: true }],
        }),
        "C24" => Some(Inside {
            id: "C24",
            rule: "more than one attribute, not all of them plain identifiers; or a literal",
            assumptions: ASSUMPTIONS,
            parts: &[
                Part { name: "attributes", quick: 120_000, thorough: 4_000_000, syntax: false },
                Part { name: "literals", quick: 160_000, thorough: 6_000_000, syntax: false },
            ],
        }),
        "C27" => Some(Inside {
            id: "C27",
            rule: "at least one token",
            assumptions: ASSUMPTIONS,
            parts: &[Part { name: "broken", quick: 60_000, thorough: 2_000_000, syntax: false }],
        }),
        "C30" => Some(Inside {
            id: "C30",
            rule: "a part of more than 8 characters, several pieces, or an integer of more than 2 characters",
            assumptions: ASSUMPTIONS,
            parts: &[
                Part { name: "parts", quick: 120_000, thorough: 4_000_000, syntax: false },
                Part { name: "helpers", quick: 120_000, thorough: 4_000_000, syntax: false },
            ],
        }),
        _ => None,
    }
}

struct Out {
    evals: u64,
    labels: Vec<(String, u64)>,
    samples: Vec<String>,
    seen: Vec<u64>,
    fail: Option<Failure>,
    prints: Vec<(u64, String)>,
    desc: String,
}

fn unline(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some(c) => o.push(c),
            None => (),
        }
    }
    o
}

fn read_out(part: &str, path: &Path) -> Option<Out> {
    let text = fs::read_to_string(path).ok()?;
    if !text.ends_with("END\n") {
        return None;
    }
    let mut o = Out { evals: 0, labels: vec![], samples: vec![], seen: vec![], fail: None, prints: vec![], desc: String::new() };
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "EVALS" => o.evals = f[1].parse().ok()?,
            "LABEL" => o.labels.push((f[2].to_string(), f[1].parse().ok()?)),
            "SAMPLE" => o.samples.push(unline(f[1])),
            "SEEN" => o.seen = f[1].split(',').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect(),
            "DESC" => o.desc = unline(f[1]),
            "PRINT" => o.prints.push((f[1].parse().ok()?, unline(f[2]))),
            "FAIL" => {
                o.fail = Some(Failure {
                    suite: part.to_string(),
                    idx: f[1].parse().ok()?,
                    choices: f[2].split(',').filter_map(|x| x.parse().ok()).collect(),
                    msg: unline(f[3]),
                    desc: unline(f[4]),
                    shrink_evals: f[5].parse().ok()?,
                })
            }
            _ => (),
        }
    }
    Some(o)
}

struct Room {
    dir: PathBuf,
    lib: PathBuf,
}

impl Room {
    fn new(id: &str) -> Room {
        let dir = root().join("target").join("inside").join(format!("{}-{}", id, std::process::id()));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).expect("scratch directory");
        let lib = root().join("target").join("release").join("libpm.so");
        if !lib.exists() {
            eprintln!("no {}", lib.display());
            std::process::exit(2);
        }
        fs::write(dir.join("m.rs"), "pm::run!();\nfn main() {}\n").expect("scratch file");
        Room { dir, lib }
    }

    /// rustc expands run!() with this environment.
    fn expand(&self, part: &str, tag: &str, env: &[(&str, String)], limit: Duration) -> (Option<i32>, Option<i32>, bool, String, Option<Out>) {
        let out = self.dir.join(format!("{}.out", tag));
        let _ = fs::remove_file(&out);
        let mut c = Command::new("rustc");
        c.current_dir(&self.dir);
        c.args(["--edition", "2021", "--cap-lints", "allow", "--emit", "metadata", "-o"]);
        c.arg(self.dir.join(format!("{}.rmeta", tag)));
        c.arg("--extern").arg(format!("pm={}", self.lib.display()));
        c.arg("m.rs");
        c.env("PM_OUT", &out).env("PM_SUITE", part);
        for (k, v) in env {
            c.env(k, v);
        }
        let (code, signal, late, _, err) = run_child_in(c, limit, MEMORY);
        let r = read_out(part, &out);
        (code, signal, late, err, r)
    }

    /// Which of the texts are not syntactically items? (the first few)
    fn bad_syntax(&self, tag: &str, texts: &[(u64, String)]) -> Vec<(u64, String)> {
        let mut bad = Vec::new();
        let mut left: Vec<&(u64, String)> = texts.iter().collect();
        for _ in 0..4 {
            let (lines, errors) = self.syntax(tag, &left);
            if errors.is_none() {
                break;
            }
            let (at, msg) = errors.unwrap();
            // the line of the error tells which it was; to be sure it is tried alone
            let k = lines.iter().rposition(|l| *l <= at).unwrap_or(0);
            let mut found = None;
            for i in [k, k.saturating_sub(1), (k + 1).min(left.len() - 1)] {
                if let (_, Some((_, m))) = self.syntax(tag, &[left[i]]) {
                    found = Some((i, m));
                    break;
                }
            }
            match found {
                Some((i, m)) => {
                    bad.push((left[i].0, format!("what it prints is no item for the compiler: {}\n{}", m.trim(), left[i].1)));
                    left.remove(i);
                }
                None => {
                    eprintln!("the compiler refuses texts together, but not alone: {}", msg);
                    std::process::exit(3);
                }
            }
        }
        bad
    }

    fn syntax(&self, tag: &str, texts: &[&(u64, String)]) -> (Vec<usize>, Option<(usize, String)>) {
        let mut src = String::from("#![allow(warnings)]\n");
        let mut lines = Vec::new();
        let mut n = 2;
        for (i, (_, t)) in texts.iter().enumerate() {
            lines.push(n);
            let m = format!("#[cfg(any())] mod m{} {{\n{}\n}}\n", i, t);
            n += m.matches('\n').count();
            src.push_str(&m);
        }
        src.push_str("fn main() {}\n");
        let f = self.dir.join(format!("{}-syntax.rs", tag));
        fs::write(&f, src).expect("scratch file");
        let mut c = Command::new("rustc");
        c.current_dir(&self.dir).args(["--edition", "2021", "--cap-lints", "allow", "--error-format", "short", "--emit", "metadata", "-o"]);
        c.arg(self.dir.join(format!("{}-syntax.rmeta", tag))).arg(&f);
        let (code, signal, late, _, err) = run_child_in(c, PATIENCE, MEMORY);
        if code == Some(0) {
            return (lines, None);
        }
        let first = err.lines().find(|l| l.contains(": error") || l.contains("error:")).unwrap_or("").to_string();
        if late || signal.is_some() || first.is_empty() {
            eprintln!("rustc gives no answer on {}: {:?} {:?} {}", f.display(), code, signal, json_out::clip(&err, 2000));
            std::process::exit(3);
        }
        let at = first.split(':').nth(1).and_then(|x| x.parse().ok()).unwrap_or(1);
        (lines, Some((at, first)))
    }
}

fn died(code: Option<i32>, signal: Option<i32>, late: bool, err: &str) -> String {
    if late {
        return "it does not end".into();
    }
    format!("the process died (signal {:?}, code {:?}): {}", signal, code, json_out::clip(err.trim(), 600))
}

fn list(cs: &[u64]) -> String {
    cs.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
}

/// One case by its choices: how it fails, and its description.
fn by_choices(room: &Room, part: &Part, cs: &[u64], limit: Duration) -> (Option<String>, String) {
    let (code, signal, late, err, out) = room.expand(part.name, "one", &[("PM_CHOICES", list(cs))], limit);
    match out {
        None => (Some(died(code, signal, late, &err)), String::new()),
        Some(o) => {
            if let Some(f) = o.fail {
                return (Some(f.msg), o.desc);
            }
            if part.syntax {
                if let Some((_, m)) = room.bad_syntax("one", &o.prints).into_iter().next() {
                    return (Some(m), o.desc);
                }
            }
            (None, o.desc)
        }
    }
}

/// Shrinks a failure that shows only outside the process in which the case runs.
fn shrink_outside(room: &Room, part: &Part, seed: u64, idx: u64, msg: String) -> Option<Failure> {
    let tee = room.dir.join("tee");
    let env = [("PM_ALONE", idx.to_string()), ("PM_SEED", seed.to_string()), ("PM_TEE", tee.display().to_string())];
    let (code, signal, late, err, out) = room.expand(part.name, "one", &env, Duration::from_secs(60));
    let drawn = fs::read(&tee).unwrap_or_default();
    let choices: Vec<u64> = drawn.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
    let (mut desc, mut kind, mut msg) = (String::new(), false, msg);
    match out {
        None => {
            kind = true;
            msg = died(code, signal, late, &err);
        }
        Some(o) => {
            let mut bad = o.fail.map(|f| f.msg);
            if bad.is_none() && part.syntax {
                bad = room.bad_syntax("one", &o.prints).into_iter().next().map(|x| x.1);
            }
            msg = bad?;
            desc = o.desc;
        }
    }
    let until = Instant::now() + Duration::from_secs(60);
    let patience = Duration::from_secs(if late { 6 } else { 60 });
    let s = shrink(choices, msg, 3000, |cand| {
        if Instant::now() > until {
            return None;
        }
        let (m, d) = by_choices(room, part, &cand, patience);
        let m = m?;
        if d.is_empty() != kind {
            return None;
        }
        desc = d;
        Some((cand, m))
    });
    let Shrunk { choices, msg, evals } = s;
    Some(Failure { suite: part.name.to_string(), idx, choices, msg, desc, shrink_evals: evals })
}

fn run_part(room: &Room, part: &Part, seed: u64, n: u64) -> SuiteReport {
    let next = AtomicU64::new(0);
    let worst = AtomicU64::new(u64::MAX);
    let total = Mutex::new((0u64, BTreeMap::<String, u64>::new(), Vec::<(u64, Vec<String>)>::new(), Vec::<u64>::new()));
    // index, failure if it is shrunk already, message
    let fails: Mutex<Vec<(u64, Option<Failure>, String)>> = Mutex::new(Vec::new());
    std::thread::scope(|sc| {
        for t in 0..8 {
            let (next, worst, total, fails) = (&next, &worst, &total, &fails);
            sc.spawn(move || loop {
                let lo = next.fetch_add(CHUNK, Ordering::Relaxed);
                if lo >= n || lo > worst.load(Ordering::Relaxed) {
                    break;
                }
                let hi = (lo + CHUNK).min(n);
                let tag = format!("t{}", t);
                let env = [("PM_SEED", seed.to_string()), ("PM_LO", lo.to_string()), ("PM_HI", hi.to_string()), ("PM_N", n.to_string())];
                let (code, signal, late, err, out) = room.expand(part.name, &tag, &env, PATIENCE);
                match out {
                    None => {
                        let at = fs::read(room.dir.join(format!("{}.out.at", tag))).unwrap_or_default();
                        if at.len() < 8 {
                            eprintln!("rustc gives no answer: {}", died(code, signal, late, &err));
                            std::process::exit(3);
                        }
                        let idx = u64::from_le_bytes(at[..8].try_into().unwrap());
                        worst.fetch_min(idx, Ordering::Relaxed);
                        fails.lock().unwrap().push((idx, None, died(code, signal, late, &err)));
                        break;
                    }
                    Some(o) => {
                        let mut g = total.lock().unwrap();
                        g.0 += o.evals;
                        for (l, k) in o.labels {
                            *g.1.entry(l).or_insert(0) += k;
                        }
                        g.2.push((lo, o.samples));
                        g.3.extend(o.seen);
                        drop(g);
                        if let Some(f) = o.fail {
                            worst.fetch_min(f.idx, Ordering::Relaxed);
                            fails.lock().unwrap().push((f.idx, Some(f), String::new()));
                            break;
                        }
                        if part.syntax {
                            if let Some((idx, m)) = room.bad_syntax(&tag, &o.prints).into_iter().min() {
                                worst.fetch_min(idx, Ordering::Relaxed);
                                fails.lock().unwrap().push((idx, None, m));
                                break;
                            }
                        }
                    }
                }
            });
        }
    });
    let (evals, labels, mut samples, seen) = total.into_inner().unwrap();
    let mut stats = Stats { evaluations: evals, ..Stats::default() };
    stats.seen.extend(seen);
    for (l, k) in labels {
        stats.labels.insert(Box::leak(l.into_boxed_str()), k);
    }
    samples.sort();
    stats.samples = samples.into_iter().flat_map(|x| x.1).map(|x| json_out::clip(&x, 300)).take(3).collect();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.0);
    let mut failure = None;
    for (idx, f, msg) in fails {
        failure = match f {
            Some(f) => Some(f),
            None => shrink_outside(room, part, seed, idx, msg.clone()),
        };
        if failure.is_some() {
            break;
        }
        eprintln!("case {} of {} failed among others, but not alone: {}", idx, part.name, msg);
        std::process::exit(3);
    }
    SuiteReport { name: part.name.to_string(), enumerated: false, stats, failure }
}

pub fn main(c: &Inside, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let room = Room::new(c.id);
    let code = match args.first().map(|x| x.as_str()) {
        Some("--replay") => replay(&room, c, Path::new(&args[1])),
        Some(o) => {
            eprintln!("unknown argument {}", o);
            2
        }
        None => {
            let (tier, seed) = (Tier::from_env(), seed_from_env());
            let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let mut reports = Vec::new();
            for p in c.parts {
                let n = if tier == Tier::Quick { p.quick } else { p.thorough };
                let t1 = Instant::now();
                let r = run_part(&room, p, seed, ((n as f64 * scale) as u64).max(1));
                if std::env::var_os("VERIF_VERBOSE").is_some() {
                    eprintln!("{} {}: {:.2} s", c.id, p.name, t1.elapsed().as_secs_f64());
                    for (k, v) in &r.stats.labels {
                        eprintln!("    {:>9} {}", v, k);
                    }
                }
                let stop = r.failure.is_some();
                reports.push(r);
                if stop {
                    break;
                }
            }
            conclude(c.id, tier, seed, c.rule, c.assumptions, &reports, t0.elapsed().as_secs_f64())
        }
    };
    let _ = fs::remove_dir_all(&room.dir);
    code
}

fn replay(room: &Room, c: &Inside, path: &Path) -> i32 {
    let r = match read_replay(path) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {}", path.display());
            return 2;
        }
    };
    let part = match c.parts.iter().find(|p| p.name == r.suite) {
        Some(p) => p,
        None => {
            eprintln!("no suite {}", r.suite);
            return 2;
        }
    };
    let (m, desc) = by_choices(room, part, &r.choices, Duration::from_secs(60));
    println!("CASE {}", desc);
    match m {
        None => {
            println!("{}: the replayed case passes", c.id);
            0
        }
        Some(m) => {
            println!("FAILS: {}", m);
            println!("VIOLATION property={} replay={}", c.id, path.display());
            1
        }
    }
}
