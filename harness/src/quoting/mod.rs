//! C25, C29: random templates for quote!, compiled into procedural macros which compare, for random values of
//! the variables, the tokens they give with those of a model. The generator writes the procedural
//! macros; rustc compiles and expands them, many at once.

pub mod template;

use pbt::run::{conclude, root, run_child_in, seed_from_env, Failure, SuiteReport, Tier};
use pbt::{hash_str, json_out, mix, Src, Stats};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use template::{misplaced, smaller, template, Template};

/// One of the two properties of templates.
#[derive(Clone, Copy)]
struct Plan {
    id: &'static str,
    suite: &'static str,
    rule: &'static str,
    /// templates with a directive out of its place
    stray: bool,
    templates: (u64, u64),
    values: (u64, u64),
}

const C25: Plan = Plan { id: "C25", suite: "templates", rule: RULE, stray: false, templates: (1600, 40000), values: (40, 150) };
const C29: Plan = Plan { id: "C29", suite: "misplaced", rule: RULE_STRAY, stray: true, templates: (480, 16000), values: (3, 5) };

const RULE_STRAY: &str = "random @scope templates over random variables, as they are and with one directive put where it must not be (any of them inside a loop, a branch or the end of a condition or loop that is not open, a call of a macro with another number of arguments, anything after #end), each compiled into a procedural macro and run. The first has to expand, the second must not: its compilation or its expansion fails. A case is a template with values; non-trivial: it compiles and its unchanged form expands, or it is refused by the compiler";
const RULE: &str = "random templates (literal tokens of every kind, groups, attributes, variables, expressions, booleans, options, iterations with separators, with and without bodies, nested; the modifiers) over random variables, each compiled into a procedural macro and run for random values. A case is a template with values; non-trivial: it interpolates and gives at least one token";
const ASSUMPTIONS: &[&str] = &[
    "the tokens of a value are those rustc makes of its text",
    "two tokens written apart are two, an operator of several characters is one",
    "`+`, `-` and `?` are no separators of an iteration with a body (they mean the other forms)",
];
const PER: u64 = 20;

struct Tools {
    deps: PathBuf,
    qt: PathBuf,
    dir: PathBuf,
}

impl Tools {
    fn new() -> Tools {
        let rel = root().join("target").join("release");
        let dir = root().join("target").join("quoting").join(std::process::id().to_string());
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).expect("scratch directory");
        let qt = rel.join("libqt.rlib");
        if !qt.exists() {
            eprintln!("no {}", qt.display());
            std::process::exit(2);
        }
        fs::write(dir.join("m.rs"), "t::run!();\nfn main() {}\n").expect("scratch file");
        Tools { deps: rel.join("deps"), qt, dir }
    }

    fn compile(&self, name: &str, text: &str) -> Result<PathBuf, String> {
        let src = self.dir.join(format!("{}.rs", name));
        let out = self.dir.join(format!("lib{}.so", name));
        fs::write(&src, text).map_err(|e| e.to_string())?;
        let mut c = Command::new("rustc");
        c.current_dir(&self.dir);
        c.args(["--edition", "2021", "-A", "warnings", "--cap-lints", "allow", "--error-format", "short", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=1"]);
        c.args(["--crate-type", "proc-macro", "--crate-name", "t"]);
        c.arg("-L").arg(format!("dependency={}", self.deps.display()));
        c.arg("--extern").arg(format!("qt={}", self.qt.display()));
        c.arg("-o").arg(&out).arg(&src);
        let (code, sig, late, o, e) = run_child_in(c, Duration::from_secs(200), 6 << 30);
        if code == Some(0) {
            return Ok(out);
        }
        if late {
            return Err("ENDED: the compiler does not end".into());
        }
        if code.is_none() {
            return Err(format!("ENDED: the compiler dies (signal {:?}): {}", sig, json_out::clip(&e, 400)));
        }
        Err(format!("{}{}", o, e))
    }

    /// Expands run!() of this library.
    fn expand(&self, name: &str, lib: &Path, env: &[(&str, String)]) -> (String, Option<i32>, Option<i32>, bool, String) {
        let out = self.dir.join(format!("{}.out", name));
        let _ = fs::remove_file(&out);
        let mut c = Command::new("rustc");
        c.current_dir(&self.dir);
        c.args(["--edition", "2021", "--cap-lints", "allow", "--emit", "metadata", "-o"]);
        c.arg(self.dir.join(format!("{}.rmeta", name)));
        c.arg("--extern").arg(format!("t={}", lib.display())).arg("m.rs");
        c.env("QT_OUT", &out);
        for (k, v) in env {
            c.env(k, v);
        }
        let (code, sig, late, _, err) = run_child_in(c, Duration::from_secs(100), 6 << 30);
        (fs::read_to_string(&out).unwrap_or_default(), code, sig, late, err)
    }

    fn clear(&self, name: &str) {
        for f in [format!("{}.rs", name), format!("lib{}.so", name), format!("{}.out", name), format!("{}.rmeta", name)] {
            let _ = fs::remove_file(self.dir.join(f));
        }
    }
}

impl Drop for Tools {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

fn krate(units: &[(u64, String)]) -> (String, Vec<(usize, usize, u64)>) {
    let mut o = String::from("#![allow(warnings)]\n#![recursion_limit = \"4096\"]\nextern crate proc_macro;\nuse ::qt::json_quote::quote;\n");
    let mut line = 5;
    let mut ranges = Vec::new();
    for (i, t) in units {
        let m = format!("mod u{} {{\nuse ::qt::json_quote::quote;\n{}\n}}\n", i, t);
        let n = m.lines().count();
        ranges.push((line, line + n - 1, *i));
        line += n;
        o.push_str(&m);
    }
    o.push_str("#[proc_macro]\npub fn run(_: proc_macro::TokenStream) -> proc_macro::TokenStream {\n    ::qt::main(&[\n");
    for (i, _) in units {
        o.push_str(&format!("        ::qt::Unit {{ id: {0}, case: u{0}::case }},\n", i));
    }
    o.push_str("    ]);\n    proc_macro::TokenStream::new()\n}\n");
    (o, ranges)
}

struct Built {
    lib: Option<PathBuf>,
    refused: Vec<(u64, String)>,
}

fn build(t: &Tools, name: &str, units: &[(u64, String)]) -> Result<Built, String> {
    let mut left: Vec<(u64, String)> = units.to_vec();
    let mut refused = Vec::new();
    loop {
        if left.is_empty() {
            return Ok(Built { lib: None, refused });
        }
        let (text, ranges) = krate(&left);
        match t.compile(name, &text) {
            Ok(lib) => return Ok(Built { lib: Some(lib), refused }),
            Err(m) => {
                if left.len() == 1 {
                    refused.push((left[0].0, json_out::clip(&m, 3000)));
                    return Ok(Built { lib: None, refused });
                }
                let mut bad: BTreeMap<u64, String> = BTreeMap::new();
                let file = format!("{}.rs:", name);
                for l in m.lines().filter(|l| l.contains(": error")) {
                    let n: Option<usize> = l.find(&file).and_then(|a| l[a + file.len()..].split(':').next()?.parse().ok());
                    if let Some(r) = n.and_then(|n| ranges.iter().find(|r| r.0 <= n && n <= r.1)) {
                        let e = bad.entry(r.2).or_default();
                        if e.len() < 1500 {
                            e.push_str(l);
                            e.push('\n');
                        }
                    }
                }
                if bad.is_empty() {
                    // unclear which: half by half
                    let (a, b) = left.split_at(left.len() / 2);
                    for (k, half) in [a, b].iter().enumerate() {
                        for r in build(t, &format!("{}_{}", name, k), half)?.refused {
                            bad.insert(r.0, r.1);
                        }
                        t.clear(&format!("{}_{}", name, k));
                    }
                    if bad.is_empty() {
                        return Err(format!("units of {} compile apart but not together:\n{}", name, json_out::clip(&m, 3000)));
                    }
                }
                left.retain(|u| !bad.contains_key(&u.0));
                refused.extend(bad);
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Bad {
    Compile(String),
    /// choices of the values, message, description
    Value(Vec<u64>, String, String),
    Crash(String),
}

#[derive(Default)]
struct Ran {
    evaluations: u64,
    distinct: u64,
    samples: Vec<String>,
    bad: BTreeMap<u64, Bad>,
}

fn unline(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some(c) => o.push(c),
            None => (),
        }
    }
    o
}

/// The unit that was running when the output ends early.
fn read_out(text: &str, ran: &mut Ran) -> Option<u64> {
    let mut open = None;
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "START" => open = f[1].parse().ok(),
            "DONE" => {
                ran.evaluations += f[1].parse::<u64>().unwrap_or(0);
                ran.distinct += f[2].parse::<u64>().unwrap_or(0);
            }
            "SAMPLE" => ran.samples.push(unline(f[1])),
            "FAIL" => {
                if let Some(u) = open {
                    let cs = f[1].split(',').filter_map(|x| x.parse().ok()).collect();
                    ran.bad.insert(u, Bad::Value(cs, unline(f[2]), unline(f[3])));
                }
            }
            "END" => return None,
            _ => (),
        }
    }
    open
}

fn run(t: &Tools, name: &str, lib: &Path, env: &[(&str, String)], ran: &mut Ran) -> Result<(), String> {
    let (text, code, sig, late, err) = t.expand(name, lib, env);
    let open = read_out(&text, ran);
    if let Some(u) = open {
        let how = if late { "does not end".to_string() } else { format!("ends by signal {:?}, code {:?}", sig, code) };
        ran.bad.insert(u, Bad::Crash(format!("the expansion {}: {}", how, json_out::clip(err.trim(), 500))));
        return Ok(());
    }
    if code == Some(1) && text.contains("END") && !err.is_empty() {
        // a text was refused by the lexer, which only the compiler tells: whose was it
        let units: Vec<u64> = text.lines().filter_map(|l| l.strip_prefix("START\t").and_then(|u| u.parse().ok())).collect();
        if let [u] = units[..] {
            ran.bad.entry(u).or_insert(Bad::Crash(format!("the compiler refuses what the template made: {}", json_out::clip(err.trim(), 500))));
            return Ok(());
        }
        for u in units {
            let mut env = env.to_vec();
            env.push(("QT_ONLY", u.to_string()));
            let mut one = Ran::default();
            run(t, name, lib, &env, &mut one)?;
            ran.bad.extend(one.bad);
        }
        return Ok(());
    }
    if code != Some(0) || !text.contains("END") {
        return Err(format!("no expansion of {}: {:?} {:?} {}", name, code, sig, json_out::clip(&err, 1500)));
    }
    Ok(())
}

fn many(seed: u64, count: u64) -> Vec<(&'static str, String)> {
    vec![("QT_SEED", seed.to_string()), ("QT_COUNT", count.to_string())]
}

fn src(p: &Plan, seed: u64, i: u64) -> Src {
    Src::random(mix(mix(seed, hash_str(p.id)), i))
}

impl Plan {
    fn template(&self, s: &mut Src) -> Template {
        if !self.stray {
            return template(s);
        }
        // those which only the compiler refuses together
        let last = s.chance(1, 5);
        misplaced(s, last)
    }
}

/// Without the macro it has to compile.
fn control(t: &Tools, name: &str, x: &Template) -> Result<Result<(), String>, String> {
    let n = format!("{}_control", name);
    let b = build(t, &n, &[(0, x.control())])?;
    t.clear(&n);
    Ok(match b.refused.into_iter().next() {
        None => Ok(()),
        Some(r) => Err(r.1),
    })
}

fn same_kind(a: &Bad, b: &Bad) -> bool {
    matches!((a, b), (Bad::Compile(_), Bad::Compile(_)) | (Bad::Value(..), Bad::Value(..)) | (Bad::Crash(_), Bad::Crash(_)))
}

/// Takes parts out as long as it fails in the same way. All candidates of a round are tried at once.
fn reduce(t: &Tools, first: &Template, bad: &Bad, id: u64, seed: u64, count: u64) -> (Template, Vec<u64>, Bad, u64) {
    let until = Instant::now() + Duration::from_secs(90);
    let (mut best, mut bad, mut steps, mut tries, mut skip) = (first.clone(), bad.clone(), Vec::new(), 0u64, 0usize);
    let mut round = 0;
    while Instant::now() < until {
        let all = smaller(&best);
        // in batches, so that a large step is found before the small ones are tried
        let batch: Vec<(usize, &Template)> = all.iter().enumerate().skip(skip).take(48).collect();
        if batch.is_empty() {
            break;
        }
        tries += batch.len() as u64;
        round += 1;
        let found: Mutex<Vec<(usize, Bad)>> = Mutex::new(Vec::new());
        let crash = !matches!(bad, Bad::Value(..));
        let per = if crash { 1 } else { 6 };
        let next = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| loop {
                    let j = next.fetch_add(1, Ordering::Relaxed) as usize;
                    let chunk: Vec<&(usize, &Template)> = batch.iter().skip(j * per).take(per).collect();
                    if chunk.is_empty() || (crash && !found.lock().unwrap().is_empty()) {
                        return;
                    }
                    let name = format!("r{}_{}", round, j);
                    // same number, same values
                    let units: Vec<(u64, String)> = chunk.iter().enumerate().map(|(k, c)| (id + ((k as u64 + 1) << 40), c.1.text())).collect();
                    let mut ran = Ran::default();
                    if let Ok(b) = build(t, &name, &units) {
                        for r in b.refused {
                            ran.bad.insert(r.0, Bad::Compile(r.1));
                        }
                        if let Some(lib) = &b.lib {
                            let _ = run(t, &name, lib, &many(seed, count), &mut ran);
                        }
                    }
                    t.clear(&name);
                    for (u, b) in ran.bad {
                        let (i, c) = chunk[(u >> 40) as usize - 1];
                        if same_kind(&b, &bad) && (!matches!(b, Bad::Compile(_)) || matches!(control(t, &name, c), Ok(Ok(())))) {
                            found.lock().unwrap().push((*i, b));
                        }
                    }
                });
            }
        });
        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|f| f.0);
        match found.into_iter().next() {
            Some((i, b)) => {
                steps.push(i as u64);
                best = all[i].clone();
                bad = b;
                skip = 0;
            }
            None => skip += batch.len(),
        }
    }
    (best, steps, bad, tries)
}

const INVALID: &str = "templates left out: the code they are made of is not valid Rust";

fn infra(m: &str) -> i32 {
    eprintln!("no answer: {}", m);
    3
}

fn explain(x: &Template, bad: &Bad) -> (String, String, Vec<u64>) {
    match bad {
        Bad::Compile(m) => (format!("the template does not compile:\n{}", m), x.describe(), vec![]),
        Bad::Value(cs, m, d) => (m.clone(), format!("{}\ncase: {}", x.describe(), d), cs.clone()),
        Bad::Crash(m) => (m.clone(), x.describe(), vec![]),
    }
}

fn check(p: &Plan) -> i32 {
    let t0 = Instant::now();
    let (tier, seed) = (Tier::from_env(), seed_from_env());
    let quick = tier == Tier::Quick;
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = ((if quick { p.templates.0 as f64 } else { p.templates.1 as f64 }) * scale) as u64;
    let n = n.max(PER);
    let count = if quick { p.values.0 } else { p.values.1 };
    let t = Tools::new();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let trouble: Mutex<Option<String>> = Mutex::new(None);
    let total: Mutex<(Ran, BTreeMap<&'static str, u64>, HashSet<u64>)> = Mutex::new(Default::default());
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k * PER >= n || stop.load(Ordering::Relaxed) {
                        return;
                    }
                    let name = format!("p{}", k);
                    let us: Vec<(u64, Template)> = (k * PER..((k + 1) * PER).min(n)).map(|i| (i, p.template(&mut src(p, seed, i)))).collect();
                    let texts: Vec<(u64, String)> = us.iter().map(|(i, u)| (*i, u.text())).collect();
                    let mut ran = Ran::default();
                    let done = build(&t, &name, &texts).and_then(|b| {
                        for (u, m) in b.refused {
                            ran.bad.insert(u, Bad::Compile(m));
                        }
                        match &b.lib {
                            Some(lib) => run(&t, &name, lib, &many(seed, count), &mut ran),
                            None => Ok(()),
                        }
                    });
                    let mut done = done;
                    let mut invalid: Vec<u64> = Vec::new();
                    for (i, b) in &ran.bad {
                        if let (Bad::Compile(_), true) = (b, p.stray) {
                            continue;
                        }
                        if let (Bad::Compile(m), Ok(())) = (b, &done) {
                            let u = &us.iter().find(|u| u.0 == *i).unwrap().1;
                            match control(&t, &name, u) {
                                Ok(Ok(())) => (),
                                Ok(Err(c)) => {
                                    // not a template anybody could write
                                    invalid.push(*i);
                                    if std::env::var_os("VERIF_VERBOSE").is_some() {
                                        eprintln!("the generator makes code that is not valid:\n{}\n{}\n--- with the macro\n{}", u.control(), c, m);
                                    }
                                }
                                Err(e) => done = Err(e),
                            }
                        }
                    }
                    if p.stray {
                        // refused by the compiler: for the stray, if it compiles without
                        let refused: Vec<u64> = ran.bad.iter().filter(|b| matches!(b.1, Bad::Compile(_))).map(|b| *b.0).collect();
                        let texts: Vec<(u64, String)> = us.iter().filter(|u| refused.contains(&u.0)).map(|(i, u)| (*i, u.control())).collect();
                        if done.is_ok() && !texts.is_empty() {
                            let n = format!("{}_control", name);
                            match build(&t, &n, &texts) {
                                Ok(b) => {
                                    invalid.extend(b.refused.iter().map(|r| r.0));
                                    let k = (refused.len() - b.refused.len()) as u64;
                                    ran.evaluations += k;
                                    ran.distinct += k;
                                    *total.lock().unwrap().1.entry("refused by the compiler").or_insert(0) += k;
                                    if std::env::var_os("VERIF_VERBOSE").is_some() {
                                        for r in b.refused {
                                            eprintln!("does not compile without the stray either:\n{}\n{}", us.iter().find(|u| u.0 == r.0).unwrap().1.control(), r.1);
                                        }
                                    }
                                }
                                Err(e) => done = Err(e),
                            }
                            t.clear(&n);
                        }
                        ran.bad.retain(|_, b| !matches!(b, Bad::Compile(_)));
                    }
                    ran.bad.retain(|i, _| !invalid.contains(i));
                    if std::env::var_os("QT_KEEP").is_none() {
                        t.clear(&name);
                    }
                    if let Err(m) = done {
                        *trouble.lock().unwrap() = Some(m);
                        stop.store(true, Ordering::Relaxed);
                    }
                    let mut g = total.lock().unwrap();
                    g.0.evaluations += ran.evaluations;
                    g.0.distinct += ran.distinct;
                    g.0.samples.extend(ran.samples);
                    g.0.bad.extend(ran.bad);
                    if !invalid.is_empty() {
                        *g.1.entry(INVALID).or_insert(0) += invalid.len() as u64;
                    }
                    for (_, u) in us.iter().filter(|u| !invalid.contains(&u.0)) {
                        g.2.insert(hash_str(&u.invocation()));
                        for l in u.labels() {
                            *g.1.entry(l).or_insert(0) += 1;
                        }
                    }
                    if g.0.bad.len() > 15 || (!quick && !g.0.bad.is_empty()) {
                        stop.store(true, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });
    if let Some(m) = trouble.into_inner().unwrap() {
        return infra(&m);
    }
    let (ran, mut labels, distinct) = total.into_inner().unwrap();
    if labels.get(INVALID).map_or(false, |k| *k > 3 + n / 100) {
        return infra("the generator makes too much code that is not valid");
    }
    labels.insert("templates, all different", distinct.len() as u64);
    if std::env::var_os("VERIF_VERBOSE").is_some() {
        for (k, v) in &labels {
            eprintln!("    {:>9} {}", v, k);
        }
        for (i, b) in ran.bad.iter().take(12) {
            let e = explain(&p.template(&mut src(p, seed, *i)), b);
            eprintln!("--- unit {}: {}\n{}", i, e.0, e.1);
        }
    }
    let mut failure = None;
    if let Some((i, b)) = ran.bad.iter().next() {
        let mut s = src(p, seed, *i);
        let u = p.template(&mut s);
        let (small, steps, bad, tries) = reduce(&t, &u, b, *i, seed, count);
        let (msg, desc, vals) = explain(&small, &bad);
        let mut cs = vec![s.rec.len() as u64, steps.len() as u64];
        cs.extend(s.rec);
        cs.extend(steps);
        cs.extend(vals);
        failure = Some(Failure { suite: p.suite.into(), idx: *i, choices: cs, msg, desc, shrink_evals: tries });
    }
    let samples = ran.samples.iter().take(4).map(|s| json_out::clip(s, 500)).collect();
    let stats = Stats { evaluations: ran.evaluations, nontrivial_enum: ran.distinct, labels, samples, ..Stats::default() };
    let reports = vec![SuiteReport { name: p.suite.into(), enumerated: false, stats, failure }];
    conclude(p.id, tier, seed, p.rule, ASSUMPTIONS, &reports, t0.elapsed().as_secs_f64())
}

fn replay(p: &Plan, file: &Path) -> i32 {
    let r = match pbt::run::read_replay(file) {
        Some(r) => r,
        None => {
            eprintln!("not a replay file: {}", file.display());
            return 2;
        }
    };
    let t = Tools::new();
    let (n, k) = (r.choices[0] as usize, r.choices[1] as usize);
    let mut x = p.template(&mut Src::replay(r.choices[2..2 + n].to_vec()));
    for s in &r.choices[2 + n..2 + n + k] {
        match smaller(&x).into_iter().nth(*s as usize) {
            Some(y) => x = y,
            None => return infra("the replay file does not fit"),
        }
    }
    let vals = &r.choices[2 + n + k..];
    let index = r.index;
    println!("CASE {}", x.describe());
    let b = match build(&t, "one", &[(r.index, x.text())]) {
        Ok(b) => b,
        Err(m) => return infra(&m),
    };
    let mut ran = Ran::default();
    if let Some(r) = b.refused.into_iter().next() {
        match control(&t, "one", &x) {
            Ok(Ok(())) => (),
            Ok(Err(m)) | Err(m) => return infra(&m),
        }
        if !p.stray {
            ran.bad.insert(index, Bad::Compile(r.1));
        }
    } else {
        let env = if vals.is_empty() {
            many(r.seed, 40)
        } else {
            vec![("QT_UNIT", r.index.to_string()), ("QT_CHOICES", vals.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","))]
        };
        if let Err(m) = run(&t, "one", &b.lib.unwrap(), &env, &mut ran) {
            return infra(&m);
        }
    }
    match ran.bad.remove(&index) {
        None => {
            println!("{}: the replayed case passes", p.id);
            0
        }
        Some(b) => {
            println!("FAILS: {}", explain(&x, &b).0);
            println!("VIOLATION property={} replay={}", p.id, file.display());
            1
        }
    }
}

pub fn main(id: &str, args: &[String]) -> i32 {
    let p = if id == C29.id { &C29 } else { &C25 };
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || match args.first().map(|s| s.as_str()) {
                None => check(p),
                Some("--replay") => replay(p, Path::new(&args[1])),
                Some("--show") => {
                    println!("{}", p.template(&mut src(p, seed_from_env(), args[1].parse().unwrap())).text());
                    0
                }
                Some(o) => {
                    eprintln!("unknown argument {}", o);
                    2
                }
            })
            .unwrap()
            .join()
            .unwrap_or(3)
    })
}
