//! Runs the cases of each unit. QT_OUT is the file of results; either QT_CHOICES and QT_UNIT for a
//! single case, or QT_SEED and QT_COUNT for many.

use pbt::run::{run_choices, run_index, shrink_failure};
use pbt::*;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;

pub struct Unit {
    pub id: u64,
    pub case: RandomFn,
}

fn line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn num(k: &str) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(0)
}

pub fn main(units: &[Unit]) {
    let mut file = match std::env::var("QT_OUT") {
        Ok(o) => File::create(o).expect("QT_OUT"),
        Err(_) => return,
    };
    quiet_panics();
    if let Ok(cs) = std::env::var("QT_CHOICES") {
        let unit = units.iter().find(|u| u.id == num("QT_UNIT")).expect("QT_UNIT");
        let suite = Suite { name: "templates", kind: Kind::Random { quick: 0, thorough: 0, f: unit.case } };
        let mut cx = Cx { want_desc: true, ..Cx::default() };
        let _ = writeln!(file, "START\t{}", unit.id);
        let (v, rec) = run_choices(&suite, cs.split(',').filter_map(|x| x.parse().ok()).collect(), &mut cx);
        report(&mut file, &rec, v, &cx.desc);
        let _ = writeln!(file, "END");
        return;
    }
    let (seed, count) = (num("QT_SEED"), num("QT_COUNT").max(1));
    let only: Option<u64> = std::env::var("QT_ONLY").ok().and_then(|x| x.parse().ok());
    for u in units.iter().filter(|u| only.map_or(true, |o| o == u.id)) {
        let suite = Suite { name: "templates", kind: Kind::Random { quick: 0, thorough: 0, f: u.case } };
        let _ = writeln!(file, "START\t{}", u.id);
        let mut seen: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut n = 0;
        for i in 0..count {
            let mut cx = Cx { want_desc: i == 1, ..Cx::default() };
            let (v, rec) = run_index(&suite, mix(seed, u.id & ((1 << 40) - 1)), i, &mut cx);
            n += 1;
            if cx.nontrivial {
                seen.insert(cx.fingerprint);
            }
            for l in cx.labels {
                *labels.entry(l).or_insert(0) += 1;
            }
            if !cx.desc.is_empty() && u.id % 97 == 3 {
                let _ = writeln!(file, "SAMPLE\t{}", line(&cx.desc));
            }
            if let Err(m) = v {
                let f = shrink_failure(&suite, i, rec, m, 3000);
                report(&mut file, &f.choices, Err(f.msg), &f.desc);
                break;
            }
        }
        for (l, k) in labels {
            let _ = writeln!(file, "LABEL\t{}\t{}", k, l);
        }
        let _ = writeln!(file, "DONE\t{}\t{}", n, seen.len());
    }
    let _ = writeln!(file, "END");
}

fn report(file: &mut File, choices: &[u64], v: Verdict, desc: &str) {
    if let Err(m) = v {
        let cs: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
        let _ = writeln!(file, "FAIL\t{}\t{}\t{}", cs.join(","), line(&m), line(desc));
    }
}
