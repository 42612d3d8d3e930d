//! C20, C21, C22: random structure definitions, compiled with the derives against /repo.
//!
//! The generator writes programs; rustc compiles them in parallel; each compiled program runs value
//! cases for each of its structures through the engine (rt.rs). A definition that does not compile
//! with the derives, although it compiles without them, is a counterexample by itself.

pub mod def;
pub mod mac;
pub mod rt;

use def::{masked, unit, Mask, Purpose, Unit};
use pbt::run::{conclude, seed_from_env, Failure, SuiteReport, Tier};
use pbt::{hash_str, mix, Src, Stats};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Plan {
    pub id: &'static str,
    pub suite: &'static str,
    pub purpose: Purpose,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// (quick, thorough)
    pub units: (u64, u64),
    pub per_program: u64,
    /// value cases per structure
    pub values: (u64, u64),
}

const RULE_COMMON: &str = "random modules of one to three structures: 0 to 60 fields, all supported field types and their nestings, other derived, generic and recursive structures, type, const and lifetime parameters with bounds, defaults and where clauses, raw and non-ASCII names, key attributes in any literal spelling, ignored fields of arbitrary types, other attributes and doc comments, macro_rules, definitions inside functions; ";

pub fn plan(id: &str) -> Option<Plan> {
    Some(match id {
        "C20" => Plan {
            id: "C20",
            suite: "derived-encode",
            purpose: Purpose::Encode,
            rule: "each compiled with the derives; values of each structure are encoded and compared, member by member and as text, with the model. A case is a value of a structure; non-trivial: at least one member",
            assumptions: &["field values are those of C08's types", "attributes of the fields are names, literal values and groups of them"],
            units: (280, 4000),
            per_program: 12,
            values: (300, 3000),
        },
        "C21" => Plan {
            id: "C21",
            suite: "derived-decode",
            purpose: Purpose::Decode,
            rule: "each compiled with the derives; JSON values (encoded ones, in another order, with surplus, repeated, missing, renamed or damaged members, or anything else) are decoded and compared with the model. A case is a JSON value for a structure; non-trivial: it has fields and the outcome is promised",
            assumptions: &["numbers that are not exactly a value of the numeric type decode to something unspecified", "with several faulty members, the error may be that of any"],
            units: (240, 4000),
            per_program: 10,
            values: (400, 4000),
        },
        "C22" => Plan {
            id: "C22",
            suite: "accepted",
            purpose: Purpose::Accept,
            rule: "each compiled with the derives and, where that fails, without them; tuple and unit structures, enumerations and unions must be refused by each derive. A case is a definition; non-trivial: it uses more than plain fields",
            assumptions: &["attributes are names, literal values and groups of them", "the crate is reachable as `json`"],
            units: (2400, 40000),
            per_program: 60,
            values: (0, 0),
        },
        "C18" => Plan {
            id: "C18",
            suite: "macros",
            purpose: Purpose::Macros,
            rule: "random modules of one to four invocations of object!, array!, path!, find!, update! and discard!: 0 to 300 entries or 1 to 40 segments, any bracket, trailing commas, by import, path or other name, nested, with keys and values of every supported type written as every kind of expression (blocks, branches, closures, calls, macros, ?, return), among names the macros use themselves; each compiled (and, where that fails, compiled over macros made of the calls) and run with random values against the reference model, with every argument evaluated once and entries in order. A case is a run of an invocation; non-trivial: the value built is not empty, or the value operated on is a container",
            assumptions: &["the order in which find!, update! and discard! evaluate their arguments is not judged, only that each is evaluated once"],
            units: (800, 12000),
            per_program: 10,
            values: (400, 4000),
        },
        _ => return None,
    })
}

fn full_rule(p: &Plan) -> String {
    format!("{}{}", if p.purpose == Purpose::Macros { "" } else { RULE_COMMON }, p.rule)
}

// ---------------------------------------------------------------------------------------------
// compiling

struct Tools {
    deps: PathBuf,
    vt: PathBuf,
    json: PathBuf,
    dir: PathBuf,
}

fn newest(dir: &Path, prefix: &str, suffix: &str) -> Option<PathBuf> {
    let mut all: Vec<(std::time::SystemTime, PathBuf)> = fs::read_dir(dir)
        .ok()?
        .filter_map(|e| e.ok())
        .filter(|e| {
            let n = e.file_name().to_string_lossy().to_string();
            n.starts_with(prefix) && n.ends_with(suffix)
        })
        .filter_map(|e| Some((e.metadata().ok()?.modified().ok()?, e.path())))
        .collect();
    all.sort();
    all.pop().map(|x| x.1)
}

impl Tools {
    fn new(id: &str) -> Tools {
        let exe = std::env::current_exe().expect("own path");
        let rel = exe.parent().unwrap().to_path_buf();
        let deps = rel.join("deps");
        let dir = pbt::run::root().join("target").join("gen").join(format!("{}-{}", id, std::process::id()));
        fs::create_dir_all(&dir).expect("scratch directory");
        let json = match newest(&deps, "libjson-", ".rlib") {
            Some(j) => j,
            None => {
                eprintln!("no library of the crate under test in {}", deps.display());
                std::process::exit(2);
            }
        };
        Tools { vt: rel.join("libvt.rlib"), json, deps, dir }
    }
    /// Err: the compiler's messages, in short form.
    fn rustc(&self, src: &Path, out: &Path, lib: bool, limit: u64) -> Result<(), String> {
        let mut c = Command::new("rustc");
        c.current_dir(&self.dir);
        c.args(["--edition", "2021", "-A", "warnings", "--cap-lints", "allow", "--error-format", "short", "-C", "debuginfo=0", "-C", "opt-level=0"]);
        if lib {
            c.args(["--crate-type", "lib", "--emit=metadata"]);
        } else {
            c.args(["--crate-type", "bin", "-C", "codegen-units=1"]);
        }
        c.arg("-L").arg(format!("dependency={}", self.deps.display()));
        c.arg("--extern").arg(format!("json={}", self.json.display()));
        c.arg("--extern").arg(format!("vt={}", self.vt.display()));
        c.arg("-o").arg(out).arg(src);
        let (code, sig, late, o, e) = pbt::run::run_child_in(c, Duration::from_secs(limit), 6 << 30);
        if code == Some(0) {
            return Ok(());
        }
        if late {
            return Err("ENDED: the compiler does not end".to_string());
        }
        if code.is_none() {
            return Err(format!("ENDED: the compiler dies (signal {:?}): {}", sig, pbt::json_out::clip(&e, 400)));
        }
        Err(format!("{}{}", o, e))
    }
}

impl Drop for Tools {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

/// A program of some units; gives the line ranges of the units.
fn program(units: &[(u64, String)], runs: bool) -> (String, Vec<(usize, usize, u64)>) {
    let mut o = String::from("#![allow(warnings)]\n");
    let mut line = 2;
    let mut ranges = Vec::new();
    for (i, t) in units {
        let m = format!("pub mod u{} {{\n{}\n}}\n", i, t.replace("@MOD@", &format!("u{}", i)));
        let n = m.lines().count();
        ranges.push((line, line + n - 1, *i));
        line += n;
        o.push_str(&m);
    }
    if runs {
        o.push_str("fn main() {\n    ::vt::derive::rt::main(vec![\n");
        for (i, _) in units {
            o.push_str(&format!("        ({}, u{}::list()),\n", i, i));
        }
        o.push_str("    ]);\n}\n");
    }
    (o, ranges)
}

/// Lines `file.rs:LINE:COL: error...`
fn error_lines(msgs: &str) -> Vec<(usize, String)> {
    msgs.lines()
        .filter_map(|l| {
            let at = l.find(".rs:")?;
            let rest = &l[at + 4..];
            let n: usize = rest.split(':').next()?.parse().ok()?;
            if l.contains(": error") {
                Some((n, l[at + 4..].to_string()))
            } else {
                None
            }
        })
        .collect()
}

struct Built {
    /// the units that are in the program
    units: Vec<u64>,
    exe: Option<PathBuf>,
    /// (unit, compiler's message)
    refused: Vec<(u64, String)>,
}

fn build(t: &Tools, name: &str, units: &[(u64, String)], runs: bool) -> Result<Built, String> {
    let mut left: Vec<(u64, String)> = units.to_vec();
    let mut refused = Vec::new();
    loop {
        if left.is_empty() {
            return Ok(Built { units: vec![], exe: None, refused });
        }
        let (text, ranges) = program(&left, runs);
        let src = t.dir.join(format!("{}.rs", name));
        let out = t.dir.join(name);
        fs::write(&src, &text).map_err(|e| e.to_string())?;
        match t.rustc(&src, &out, !runs, if left.len() > 1 { 120 } else { 40 }) {
            Ok(()) => return Ok(Built { units: left.iter().map(|u| u.0).collect(), exe: Some(out), refused }),
            Err(m) => {
                let mut bad: BTreeMap<u64, String> = BTreeMap::new();
                for (n, l) in error_lines(&m) {
                    if let Some(r) = ranges.iter().find(|r| r.0 <= n && n <= r.1) {
                        let e = bad.entry(r.2).or_default();
                        if e.len() < 1500 {
                            e.push_str(&format!("line {} of the module: {}\n", n - r.0, l.split_once(": ").map_or(&l[..], |x| x.1)));
                        }
                    }
                }
                if bad.is_empty() {
                    if left.len() == 1 {
                        bad.insert(left[0].0, pbt::json_out::clip(&m, 3000));
                    } else {
                        // unclear which: one by one
                        for (k, u) in left.iter().enumerate() {
                            let b = build(t, &format!("{}_{}", name, k), &[u.clone()], runs)?;
                            for r in b.refused {
                                bad.insert(r.0, r.1);
                            }
                            // each may take the whole time: one is enough
                            if m.starts_with("ENDED") && !bad.is_empty() {
                                break;
                            }
                        }
                        if bad.is_empty() {
                            return Err(format!("the units of {} compile one by one but not together:\n{}", name, m));
                        }
                    }
                }
                left.retain(|u| !bad.contains_key(&u.0));
                refused.extend(bad);
                if m.starts_with("ENDED") {
                    // the others might do the same to it
                    return Ok(Built { units: vec![], exe: None, refused });
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// cases

fn unit_src(seed: u64, id: &str, i: u64) -> Src {
    Src::random(mix(mix(seed, hash_str(id)), i))
}

/// What one unit showed.
#[derive(Clone)]
enum Bad {
    Compile(String),
    /// structure, choices of the value, message, description
    Value(usize, Vec<u64>, String, String),
    Crash(usize, String),
}

#[derive(Default)]
struct Ran {
    evaluations: u64,
    distinct: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    bad: BTreeMap<u64, Bad>,
    structs: u64,
}

fn read_out(text: &str, ran: &mut Ran) -> Option<(u64, usize)> {
    let mut open = None;
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "START" => open = Some((f[1].parse::<u64>().unwrap(), f[2].parse::<usize>().unwrap())),
            "DONE" => {
                ran.evaluations += f[1].parse::<u64>().unwrap();
                ran.distinct += f[2].parse::<u64>().unwrap();
                ran.structs += 1;
            }
            "LABEL" => *ran.labels.entry(f[2].to_string()).or_insert(0) += f[1].parse::<u64>().unwrap(),
            "SAMPLE" => ran.samples.push(rt::unquote_line(f[1])),
            "FAIL" => {
                let cs = f[1].split(',').filter_map(|x| x.parse().ok()).collect();
                if let Some((u, e)) = open {
                    ran.bad.entry(u).or_insert(Bad::Value(e, cs, rt::unquote_line(f[2]), rt::unquote_line(f[3])));
                }
            }
            "END" => return None,
            _ => (),
        }
    }
    open
}

fn run_program(t: &Tools, p: &Plan, b: &Built, name: &str, seed: u64, count: u64, ran: &mut Ran) -> Result<(), String> {
    let exe = match &b.exe {
        Some(e) => e,
        None => return Ok(()),
    };
    if p.purpose == Purpose::Accept {
        return Ok(());
    }
    let out = t.dir.join(format!("{}.out", name));
    let mut c = Command::new(exe);
    c.arg("run").arg(if p.purpose == Purpose::Decode { "d" } else { "e" }).arg(seed.to_string()).arg(count.to_string()).arg(&out);
    let (code, sig, late, _o, e) = pbt::run::run_child(c, Duration::from_secs(600));
    let text = fs::read_to_string(&out).unwrap_or_default();
    let open = read_out(&text, ran);
    if code != Some(0) {
        match open {
            Some((u, en)) => {
                let how = if late { "does not end".to_string() } else { format!("ends by signal {:?}, code {:?}", sig, code) };
                ran.bad.insert(u, Bad::Crash(en, format!("the program {}: {}", how, pbt::json_out::clip(&e, 600))));
            }
            None => return Err(format!("generated program: code {:?}, signal {:?}: {}", code, sig, e)),
        }
    }
    Ok(())
}

/// A single unit, built and run: the way failures are reduced and replayed.
fn alone(t: &Tools, p: &Plan, name: &str, u: &Unit, seed: u64, count: u64) -> Result<Option<Bad>, String> {
    let b = build(t, name, &[(0, u.text.clone())], p.purpose != Purpose::Accept)?;
    if let Some(r) = b.refused.first() {
        if let Err(m) = control(t, name, u)? {
            return Err(format!("the generated definition is not valid Rust:\n{}\n{}\n--- with the derives\n{}", u.control, m, r.1));
        }
        return Ok(Some(Bad::Compile(r.1.clone())));
    }
    let mut ran = Ran::default();
    run_program(t, p, &b, name, seed, count, &mut ran)?;
    Ok(ran.bad.remove(&0))
}

/// Without the derives it has to compile.
fn control(t: &Tools, name: &str, u: &Unit) -> Result<Result<(), String>, String> {
    let b = build(t, &format!("{}_control", name), &[(0, u.control.clone())], false)?;
    Ok(match b.refused.first() {
        None => Ok(()),
        Some(r) => Err(r.1.clone()),
    })
}

fn describe(u: &Unit, bad: &Bad) -> (String, String, Vec<u64>) {
    match bad {
        Bad::Compile(m) => (format!("does not compile:\n{}", m), u.desc.clone(), vec![]),
        Bad::Value(e, cs, m, d) => {
            let mut v = vec![*e as u64];
            v.extend(cs);
            (m.clone(), format!("{}\nvalue: {}", u.desc, d), v)
        }
        Bad::Crash(e, m) => (m.clone(), u.desc.clone(), vec![*e as u64]),
    }
}

fn same_kind(a: &Bad, b: &Bad) -> bool {
    matches!(
        (a, b),
        (Bad::Compile(_), Bad::Compile(_)) | (Bad::Value(..), Bad::Value(..)) | (Bad::Crash(..), Bad::Crash(..))
    )
}

struct Reduced {
    choices: Vec<u64>,
    mask: Mask,
    bad: Bad,
    tries: u64,
}

/// First takes parts out of the definition, several candidates at once; then makes the choices
/// smaller that remain.
fn reduce(t: &Tools, p: &Plan, choices: Vec<u64>, first: Bad, seed: u64, count: u64) -> Reduced {
    let deadline = Instant::now() + Duration::from_secs(60);
    let mut r = Reduced { choices, mask: Mask::new(), bad: first.clone(), tries: 0 };
    let make = |choices: &[u64], mask: &Mask| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut s = Src::replay(choices.to_vec());
            let u = masked(&mut s, p.purpose, mask);
            (u, s.rec)
        }))
        .ok()
    };
    let mut parts = make(&r.choices, &r.mask).map_or(vec![], |u| u.0.parts);
    let mut size = (parts.len() / 2).max(1);
    while !parts.is_empty() && Instant::now() < deadline {
        let chunks: Vec<Vec<u64>> = parts.chunks(size).map(|c| c.to_vec()).collect();
        let mut taken: Vec<u64> = Vec::new();
        for group in chunks.chunks(8) {
            let found: Vec<(Vec<u64>, Option<Bad>)> = std::thread::scope(|sc| {
                let hs: Vec<_> = group
                    .iter()
                    .enumerate()
                    .map(|(i, c)| {
                        let mut m = r.mask.clone();
                        m.extend(c.iter().copied());
                        let (choices, first, make, n) = (&r.choices, &first, &make, r.tries);
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(sc, move || {
                                let u = make(choices, &m)?.0;
                                match alone(t, p, &format!("m{}_{}", n, i), &u, seed, count) {
                                    Ok(Some(b)) if same_kind(&b, first) => Some(b),
                                    _ => None,
                                }
                            })
                            .unwrap()
                    })
                    .collect();
                hs.into_iter().zip(group).map(|(h, c)| (c.clone(), h.join().unwrap_or(None))).collect()
            });
            r.tries += group.len() as u64;
            // one of them; the others are tried again on top of it
            if let Some((c, b)) = found.into_iter().find(|f| f.1.is_some()) {
                r.mask.extend(c.iter().copied());
                r.bad = b.unwrap();
                taken = c;
                break;
            }
            if Instant::now() > deadline {
                break;
            }
        }
        if taken.is_empty() {
            if size == 1 {
                break;
            }
            size = (size / 2).max(1);
        } else {
            parts.retain(|x| !taken.contains(x));
            size = size.min(parts.len().max(1));
        }
    }
    let deadline = Instant::now() + Duration::from_secs(40);
    let best: Mutex<Bad> = Mutex::new(r.bad.clone());
    let mut seen: HashSet<String> = HashSet::new();
    let mut n = r.tries;
    let mask = r.mask.clone();
    let s = pbt::shrink(r.choices, String::new(), 4000, |cand| {
        if Instant::now() > deadline {
            return None;
        }
        let (u, rec) = make(&cand, &mask)?;
        if !seen.insert(u.text.clone()) {
            return None;
        }
        n += 1;
        match alone(t, p, &format!("r{}", n), &u, seed, count) {
            Ok(Some(b)) if same_kind(&b, &first) => {
                *best.lock().unwrap() = b;
                Some((rec, String::new()))
            }
            _ => None,
        }
    });
    Reduced { choices: s.choices, mask: r.mask, bad: best.into_inner().unwrap(), tries: n }
}

fn infra(m: &str) -> i32 {
    eprintln!("no answer: {}", m);
    3
}

pub fn check(p: &Plan) -> i32 {
    let t0 = Instant::now();
    pbt::quiet_panics();
    let (tier, seed) = (Tier::from_env(), seed_from_env());
    let quick = tier == Tier::Quick;
    let n = if quick { p.units.0 } else { p.units.1 };
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = ((n as f64 * scale) as u64).max(p.per_program);
    let count = if quick { p.values.0 } else { p.values.1 };
    let tools = Tools::new(p.id);
    let programs = (n + p.per_program - 1) / p.per_program;
    let next = AtomicUsize::new(0);
    let total: Mutex<Ran> = Mutex::new(Ran::default());
    let trouble: Mutex<Option<String>> = Mutex::new(None);
    // definitions the generator got wrong: a few are left out
    let unfit: Mutex<u64> = Mutex::new(0);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let labels: Mutex<(BTreeMap<&'static str, u64>, HashSet<u64>, Vec<String>)> = Mutex::new(Default::default());
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed) as u64;
                    if k >= programs || stop.load(Ordering::Relaxed) {
                        return;
                    }
                    let name = format!("p{}", k);
                    let us: Vec<(u64, Unit)> = (k * p.per_program..((k + 1) * p.per_program).min(n))
                        .map(|i| (i, unit(&mut unit_src(seed, p.id, i), p.purpose)))
                        .collect();
                    {
                        let mut l = labels.lock().unwrap();
                        for (i, u) in &us {
                            for x in &u.labels {
                                *l.0.entry(x).or_insert(0) += 1;
                            }
                            if u.nontrivial {
                                l.1.insert(hash_str(&u.text));
                                if i % (n / 8).max(1) == 3 && l.2.len() < 3 {
                                    l.2.push(pbt::json_out::clip(&u.desc, 600));
                                }
                            }
                        }
                    }
                    let texts: Vec<(u64, String)> = us.iter().map(|(i, u)| (*i, u.text.clone())).collect();
                    let mut ran = Ran::default();
                    let done = build(&tools, &name, &texts, p.purpose != Purpose::Accept).and_then(|b| {
                        for (u, m) in &b.refused {
                            ran.bad.insert(*u, Bad::Compile(m.clone()));
                        }
                        run_program(&tools, p, &b, &name, mix(seed, k), count, &mut ran)?;
                        let _ = b.units;
                        Ok(())
                    });
                    for ext in ["", ".rs", ".out"] {
                        let _ = fs::remove_file(tools.dir.join(format!("{}{}", name, ext)));
                    }
                    if let Err(m) = done {
                        *trouble.lock().unwrap() = Some(m);
                        stop.store(true, Ordering::Relaxed);
                    }
                    // refused without the derives too? then the generator is to blame, and it is left out
                    let mut out: Vec<u64> = Vec::new();
                    for (i, b) in &ran.bad {
                        if let Bad::Compile(m) = b {
                            let u = &us.iter().find(|u| u.0 == *i).unwrap().1;
                            match control(&tools, &format!("{}_{}", name, i), u) {
                                Ok(Ok(())) => (),
                                Ok(Err(c)) => {
                                    let mut un = unfit.lock().unwrap();
                                    *un += 1;
                                    let m = format!("the generated definition is not valid Rust:\n{}\n{}\n--- with the derives\n{}", u.control, c, m);
                                    eprintln!("left out: {}", m);
                                    if *un > (n / 100).max(2) {
                                        *trouble.lock().unwrap() = Some(m);
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                    out.push(*i);
                                    labels.lock().unwrap().1.remove(&hash_str(&u.text));
                                }
                                Err(m) => {
                                    *trouble.lock().unwrap() = Some(m);
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    ran.bad.retain(|i, _| !out.contains(i));
                    let mut t = total.lock().unwrap();
                    t.evaluations += ran.evaluations;
                    t.distinct += ran.distinct;
                    t.structs += ran.structs;
                    for (k, v) in ran.labels {
                        *t.labels.entry(k).or_insert(0) += v;
                    }
                    t.samples.extend(ran.samples);
                    if !ran.bad.is_empty() && !quick {
                        stop.store(true, Ordering::Relaxed);
                    }
                    t.bad.extend(ran.bad);
                    if t.bad.len() > 20 || t.bad.values().any(|b| matches!(b, Bad::Compile(m) if m.starts_with("ENDED"))) {
                        stop.store(true, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });
    if let Some(m) = trouble.into_inner().unwrap() {
        return infra(&m);
    }
    let mut ran = total.into_inner().unwrap();
    let (mut labels, texts, defs) = labels.into_inner().unwrap();
    for (k, v) in &ran.labels {
        *labels.entry(Box::leak(k.clone().into_boxed_str())).or_insert(0) += v;
    }
    if std::env::var_os("VERIF_VERBOSE").is_some() {
        for (k, v) in &labels {
            eprintln!("    {:>9} {}", v, k);
        }
        eprintln!("{} modules, {} structures, {} failures", n, ran.structs, ran.bad.len());
        for (i, b) in ran.bad.iter().take(20) {
            let u = unit(&mut unit_src(seed, p.id, *i), p.purpose);
            let d = describe(&u, b);
            eprintln!("--- unit {}: {}\n{}", i, d.0, d.1);
        }
    }
    let mut failure = None;
    if let Some((i, b)) = ran.bad.iter().next() {
        let (i, b) = (*i, b.clone());
        let mut src = unit_src(seed, p.id, i);
        let _ = unit(&mut src, p.purpose);
        let pseed = mix(seed, i / p.per_program);
        let r = reduce(&tools, p, src.rec.clone(), b, pseed, count);
        let u = masked(&mut Src::replay(r.choices.clone()), p.purpose, &r.mask);
        let (msg, desc, val) = describe(&u, &r.bad);
        let mut cs = vec![r.choices.len() as u64, r.mask.len() as u64];
        cs.extend(r.choices);
        cs.extend(r.mask);
        cs.extend(val);
        failure = Some(Failure { suite: p.suite.to_string(), idx: i, choices: cs, msg, desc, shrink_evals: r.tries });
    }
    let mut samples = defs;
    samples.extend(ran.samples.drain(..).take(3).map(|s| pbt::json_out::clip(&s, 300)));
    let mut stats = Stats { evaluations: ran.evaluations, nontrivial_enum: ran.distinct, labels, samples, ..Stats::default() };
    if p.purpose == Purpose::Accept {
        stats.evaluations = n;
        stats.nontrivial_enum = texts.len() as u64;
    } else {
        stats.labels.insert("structures", ran.structs);
        stats.labels.insert("modules", n);
    }
    let mut reports = vec![SuiteReport { name: p.suite.to_string(), enumerated: false, stats, failure }];
    if p.purpose == Purpose::Accept && reports[0].failure.is_none() {
        match refusals(&tools, seed, if quick { 160 } else { 4000 }) {
            Ok(r) => reports.push(r),
            Err(m) => return infra(&m),
        }
    }
    conclude(p.id, tier, seed, &full_rule(p), p.assumptions, &reports, t0.elapsed().as_secs_f64())
}

// ---------------------------------------------------------------------------------------------
// what must be refused

fn refusable(s: &mut Src) -> String {
    let g = *s.pick(&["", "", "<T>", "<T: Clone>", "<'a, T: 'a>", "<const N: usize>", "<T = i32>"]);
    let has_t = g.contains('T');
    let lt = g.contains("'a");
    let ts = ["i32", "String", "Vec<i32>", "(i32, u8)", "[u8; 3]", "Option<String>", "std::collections::HashMap<String, i32>"];
    let fields = |s: &mut Src, min: usize| -> Vec<String> {
        let mut f: Vec<String> = (0..s.range(min, 4)).map(|_| s.pick(&ts).to_string()).collect();
        if lt {
            f.push("&'a T".into());
        } else if has_t {
            f.push("T".into());
        }
        f
    };
    let v = *s.pick(&["", "pub ", "pub(crate) "]);
    let wh = if has_t && s.chance(1, 3) { " where T: Sized" } else { "" };
    let a = *s.pick(&["", "", "#[allow(dead_code)] ", "#[doc = \"x\"] ", "#[repr(C)] "]);
    match s.below(5) {
        0 => {
            let f = fields(s, 0);
            let f: Vec<String> = f.iter().map(|t| format!("{}{}", s.pick(&["", "pub ", "#[allow(dead_code)] "]), t)).collect();
            format!("{}{}struct A{}({}){};", a, v, g, f.join(", "), wh)
        }
        1 => {
            let g = if has_t { "" } else { g };
            format!("{}{}struct A{};", a, v, g)
        }
        2 => {
            let f = fields(s, 1);
            let f: Vec<String> = f.iter().enumerate().map(|(i, t)| format!("f{}: std::mem::ManuallyDrop<{}>", i, t)).collect();
            format!("{}union A{}{} {{ {} }}", v, g, wh, f.join(", "))
        }
        _ => {
            let a = if a.contains("repr") { "" } else { a };
            let f = fields(s, 0);
            let mut vs: Vec<String> = Vec::new();
            for i in 0..s.range(0, 3) {
                vs.push(match s.below(3) {
                    0 => format!("V{}", i),
                    1 => format!("V{}(i32, String)", i),
                    _ => format!("V{} {{ a: i32, b: Vec<u8> }}", i),
                });
            }
            if has_t || !f.is_empty() {
                vs.push(match s.flag() {
                    true => format!("Last({})", f.join(", ")),
                    false => format!("Last {{ {} }}", f.iter().enumerate().map(|(i, t)| format!("f{}: {}", i, t)).collect::<Vec<_>>().join(", ")),
                });
            }
            let g = if !has_t && !g.contains("const") { "" } else { g };
            format!("{}{}enum A{}{} {{ {} }}", a, v, g, wh, vs.join(", "))
        }
    }
}

fn refusal_items(seed: u64, lo: u64, hi: u64) -> Vec<(u64, String, &'static str, Vec<u64>)> {
    (lo..hi)
        .map(|i| {
            let mut s = Src::random(mix(mix(seed, hash_str("refused")), i));
            let t = refusable(&mut s);
            let d = if s.flag() { "JsonEncode" } else { "JsonDecode" };
            (i, t, d, s.rec)
        })
        .collect()
}

fn refusals(t: &Tools, seed: u64, n: u64) -> Result<SuiteReport, String> {
    let step = 40;
    let mut stats = Stats::default();
    let mut failure = None;
    let chunks: Vec<u64> = (0..n).step_by(step as usize).collect();
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(u64, String, &'static str, Vec<u64>)>> = Mutex::new(Vec::new());
    let trouble: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= chunks.len() {
                    return;
                }
                let lo = chunks[k];
                let items = refusal_items(seed, lo, (lo + step).min(n));
                match accepted(t, &format!("n{}", k), &items) {
                    Ok(v) => out.lock().unwrap().extend(v),
                    Err(m) => *trouble.lock().unwrap() = Some(m),
                }
            });
        }
    });
    if let Some(m) = trouble.into_inner().unwrap() {
        return Err(m);
    }
    for (_, text, d, _) in refusal_items(seed, 0, n) {
        stats.evaluations += 1;
        stats.seen.insert(hash_str(&format!("{} {}", d, text)));
        if stats.samples.len() < 3 {
            stats.samples.push(format!("#[derive({})] {}", d, text));
        }
    }
    let mut bad = out.into_inner().unwrap();
    bad.sort();
    if let Some((i, text, d, cs)) = bad.into_iter().next() {
        failure = Some(Failure {
            suite: "refused".into(),
            idx: i,
            choices: cs,
            msg: format!("{} does not refuse an item that is no structure with named fields", d),
            desc: format!("#[derive({})] {}", d, text),
            shrink_evals: 0,
        });
    }
    Ok(SuiteReport { name: "refused".into(), enumerated: false, stats, failure })
}

/// Those of the items which the derive did not refuse.
fn accepted(t: &Tools, name: &str, items: &[(u64, String, &'static str, Vec<u64>)]) -> Result<Vec<(u64, String, &'static str, Vec<u64>)>, String> {
    let mut o = String::from("#![allow(warnings)]\n");
    for (i, x) in items.iter().enumerate() {
        o.push_str(&format!("mod m{} {{ #[derive(json::{})] {} }}\n", i, x.2, x.1));
    }
    let src = t.dir.join(format!("{}.rs", name));
    fs::write(&src, &o).map_err(|e| e.to_string())?;
    let lines: HashSet<usize> = match t.rustc(&src, &t.dir.join(name), true, 60) {
        Ok(()) => HashSet::new(),
        Err(m) if m.starts_with("ENDED") => {
            if items.len() == 1 {
                return Ok(items.to_vec());
            }
            let mut all = Vec::new();
            for x in items {
                all.extend(accepted(t, name, std::slice::from_ref(x))?);
                if !all.is_empty() {
                    break;
                }
            }
            return Ok(all);
        }
        Err(m) => error_lines(&m).into_iter().map(|x| x.0).collect(),
    };
    // without the derive they compile
    let plain = o.lines().map(|l| match l.find("#[derive(") {
        Some(a) => format!("{}{}", &l[..a], &l[l.find(")] ").unwrap() + 3..]),
        None => l.to_string(),
    });
    fs::write(&src, plain.collect::<Vec<_>>().join("\n")).map_err(|e| e.to_string())?;
    if let Err(m) = t.rustc(&src, &t.dir.join(name), true, 60) {
        return Err(format!("generated items are not valid Rust: {}\n{}", m, o));
    }
    Ok(items.iter().enumerate().filter(|(i, _)| !lines.contains(&(i + 2))).map(|(_, x)| x.clone()).collect())
}

// ---------------------------------------------------------------------------------------------

pub fn replay(p: &Plan, file: &Path) -> i32 {
    pbt::quiet_panics();
    let r = match pbt::run::read_replay(file) {
        Some(r) => r,
        None => {
            eprintln!("not a replay file: {}", file.display());
            return 2;
        }
    };
    let tools = Tools::new(p.id);
    let hit = || {
        println!("VIOLATION property={} replay={}", p.id, file.display());
        1
    };
    if r.suite == "refused" {
        let mut s = Src::replay(r.choices.clone());
        let t = refusable(&mut s);
        let d = if s.flag() { "JsonEncode" } else { "JsonDecode" };
        println!("CASE #[derive({})] {}", d, t);
        return match accepted(&tools, "n", &[(0, t, d, vec![])]) {
            Ok(v) if v.is_empty() => 0,
            Ok(_) => hit(),
            Err(m) => infra(&m),
        };
    }
    let (n, m) = (r.choices[0] as usize, r.choices[1] as usize);
    let mask: Mask = r.choices[2 + n..2 + n + m].iter().copied().collect();
    let u = masked(&mut Src::replay(r.choices[2..2 + n].to_vec()), p.purpose, &mask);
    println!("CASE\n{}", u.desc);
    let val = &r.choices[2 + n + m..];
    let b = match build(&tools, "one", &[(0, u.text.clone())], p.purpose != Purpose::Accept) {
        Ok(b) => b,
        Err(m) => return infra(&m),
    };
    if let Some(x) = b.refused.first() {
        return match control(&tools, "one", &u) {
            Ok(Ok(())) => {
                println!("FAILS: does not compile with the derives:\n{}", x.1);
                hit()
            }
            Ok(Err(m)) | Err(m) => infra(&m),
        };
    }
    if val.is_empty() {
        println!("{}: the replayed case passes", p.id);
        return 0;
    }
    if val.len() == 1 {
        // a crash somewhere among the values of one structure
        return match alone(&tools, p, "again", &u, mix(r.seed, r.index / p.per_program), p.values.0) {
            Ok(None) => 0,
            Ok(Some(_)) => hit(),
            Err(m) => infra(&m),
        };
    }
    let mut c = Command::new(b.exe.unwrap());
    let cs: Vec<String> = val[1..].iter().map(|c| c.to_string()).collect();
    c.arg("one").arg(val[0].to_string()).arg(if p.purpose == Purpose::Decode { "d" } else { "e" }).arg(cs.join(","));
    let (code, _, _, o, e) = pbt::run::run_child(c, Duration::from_secs(300));
    print!("{}", o);
    eprint!("{}", e);
    match code {
        Some(0) => {
            println!("{}: the replayed case passes", p.id);
            0
        }
        _ => hit(),
    }
}

pub fn main(p: &Plan, args: &[String]) -> i32 {
    // the generator and the shrinker nest deeply enough to want a larger stack
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || match args.first().map(|s| s.as_str()) {
                None => check(p),
                Some("--replay") => replay(p, Path::new(&args[1])),
                // for looking at what is generated
                Some("--show") => {
                    let u = unit(&mut unit_src(seed_from_env(), p.id, args[1].parse().unwrap()), p.purpose);
                    println!("{}", u.text);
                    0
                }
                Some(o) => {
                    eprintln!("unknown argument {}", o);
                    2
                }
            })
            .unwrap()
            .join()
            .unwrap_or(3)
    })
}
