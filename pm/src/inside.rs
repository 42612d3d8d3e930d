//! A job: PM_OUT is the file of results, PM_SUITE the suite, and either PM_CHOICES the choices of a
//! single case, or PM_SEED, PM_LO, PM_HI, PM_N the range of cases to run.

use pbt::run::{run_choices, run_index, shrink_failure};
use pbt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;

thread_local! {
    static PRINTED: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// A text that is to be checked by the compiler afterwards.
pub fn printed(text: String) {
    PRINTED.with(|p| p.borrow_mut().push(text));
}

pub fn line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn var(k: &str) -> Option<String> {
    std::env::var(k).ok()
}

fn num(k: &str) -> u64 {
    var(k).and_then(|x| x.parse().ok()).unwrap_or(0)
}

pub fn main(suites: &[Suite]) {
    let out = match var("PM_OUT") {
        Some(o) => o,
        None => return,
    };
    let name = var("PM_SUITE").expect("PM_SUITE");
    let suite = suites.iter().find(|s| s.name == name).expect("suite");
    quiet_panics();
    let mut file = File::create(&out).expect("PM_OUT");
    if let Some(t) = var("PM_TEE") {
        tee_to(File::create(t).expect("PM_TEE"));
    }
    if let Some(cs) = var("PM_CHOICES") {
        let mut cx = Cx { want_desc: true, ..Cx::default() };
        let (v, rec) = run_choices(suite, cs.split(',').filter_map(|x| x.parse().ok()).collect(), &mut cx);
        report(&mut file, &cx, v, rec);
        return;
    }
    let (seed, lo, hi, n) = (num("PM_SEED"), num("PM_LO"), num("PM_HI"), num("PM_N").max(1));
    if let Some(idx) = var("PM_ALONE").and_then(|x| x.parse().ok()) {
        let mut cx = Cx { want_desc: true, ..Cx::default() };
        let (v, rec) = run_index(suite, seed, idx, &mut cx);
        report(&mut file, &cx, v, rec);
        return;
    }
    let trace = File::create(format!("{}.at", out)).expect("trace");
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let (mut evals, mut fail) = (0u64, None);
    for idx in lo..hi {
        let _ = trace.write_all_at(&idx.to_le_bytes(), 0);
        let step = (n / 40).max(1);
        let mut cx = Cx { want_desc: idx % step < 2, ..Cx::default() };
        let (v, rec) = run_index(suite, seed, idx, &mut cx);
        evals += 1 + cx.extra_evals;
        if cx.nontrivial {
            seen.insert(cx.fingerprint);
        }
        for l in &cx.labels {
            *labels.entry(l).or_insert(0) += 1;
        }
        if cx.want_desc && cx.nontrivial && samples.len() < 3 {
            samples.push(cx.desc.clone());
        }
        for p in PRINTED.with(|p| std::mem::take(&mut *p.borrow_mut())) {
            let _ = writeln!(file, "PRINT\t{}\t{}", idx, line(&p));
        }
        if let Err(m) = v {
            fail = Some(shrink_failure(suite, idx, rec, m, 4000));
            break;
        }
    }
    let _ = writeln!(file, "EVALS\t{}", evals);
    for (l, n) in labels {
        let _ = writeln!(file, "LABEL\t{}\t{}", n, l);
    }
    for s in samples {
        let _ = writeln!(file, "SAMPLE\t{}", line(&s));
    }
    let fps: Vec<String> = seen.iter().map(|x| format!("{:x}", x)).collect();
    let _ = writeln!(file, "SEEN\t{}", fps.join(","));
    if let Some(f) = fail {
        let cs: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
        let _ = writeln!(file, "FAIL\t{}\t{}\t{}\t{}\t{}", f.idx, cs.join(","), line(&f.msg), line(&f.desc), f.shrink_evals);
    }
    let _ = writeln!(file, "END");
}

fn report(file: &mut File, cx: &Cx, v: Verdict, rec: Vec<u64>) {
    let cs: Vec<String> = rec.iter().map(|c| c.to_string()).collect();
    let _ = writeln!(file, "DESC\t{}", line(&cx.desc));
    for p in PRINTED.with(|p| std::mem::take(&mut *p.borrow_mut())) {
        let _ = writeln!(file, "PRINT\t0\t{}", line(&p));
    }
    if let Err(m) = v {
        let _ = writeln!(file, "FAIL\t0\t{}\t{}\t{}\t0", cs.join(","), line(&m), line(&cx.desc));
    }
    let _ = writeln!(file, "END");
}
