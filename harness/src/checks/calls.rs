//! C32: what a call gives depends on its arguments alone.
//!
//! Histories of calls on few texts, paths and values, most of them given again and again, among them
//! ones that fail; each result is compared with the model's, and with what the same call gave before.

use crate::gen;
use crate::model::*;
use json::{FromJson, Json, ToJson};
use pbt::run::Check;
use pbt::{no_panic, Cx, Kind, Src, Suite, Verdict};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Barrier};

fn clip(t: &str) -> String {
    pbt::json_out::clip(t, 1500)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Call {
    Read(usize),
    Get(usize, usize),
    GetText(usize, usize),
    GetNumber(usize, usize),
    Set(usize, usize, usize),
    Del(usize, usize),
    Encode(usize),
    DecodeList(usize),
    DecodeMap(usize),
}

/// What the calls are made with.
struct World {
    texts: Vec<String>,
    read: Vec<Result<V, &'static str>>,
    paths: Vec<String>,
    meant: Vec<Option<Result<Vec<Seg>, E>>>,
    values: Vec<V>,
}

type Out = Result<String, E>;

impl World {
    fn new(s: &mut Src) -> World {
        let mut texts: Vec<String> = Vec::new();
        let mut paths: Vec<String> = Vec::new();
        for _ in 0..s.range(1, 4) {
            let v = gen::document(s);
            let t = match texts.last() {
                Some(t) if s.chance(1, 2) => {
                    let t = t.clone();
                    match s.below(4) {
                        0 => gen::mutate(s, &t),
                        // of the same length
                        1 => {
                            let d = *s.pick(&['0', '7', 'x', '"', '[']);
                            let n = t.bytes().filter(|b| b.is_ascii_alphanumeric()).count() as u64;
                            let at = s.below(n.max(1));
                            let mut seen = 0;
                            t.chars()
                                .map(|c| {
                                    let hit = c.is_ascii_alphanumeric() && { seen += 1; seen - 1 == at };
                                    if hit { d } else { c }
                                })
                                .collect()
                        }
                        2 => t.chars().take(s.below(t.chars().count() as u64 + 1) as usize).collect(),
                        _ => format!("{}{}", t, s.pick(&[" ", "]", "}", "x", "\""])),
                    }
                }
                _ => gen::spell(s, &v),
            };
            for _ in 0..s.range(1, 2) {
                paths.push(match s.below(4) {
                    0 => super::text::any_path_text(s),
                    _ => {
                        let p = gen::path(s, &v, 3);
                        gen::spell_path(&p)
                    }
                });
            }
            texts.push(t);
        }
        let values = (0..s.range(1, 3)).map(|_| if s.chance(1, 2) { gen::scalar_value(s) } else { gen::document(s) }).collect();
        World {
            read: texts.iter().map(|t| parse_ref(t)).collect(),
            meant: paths.iter().map(|p| gen::parse_path_ref(p)).collect(),
            texts,
            paths,
            values,
        }
    }
    fn call(&self, s: &mut Src) -> Call {
        let t = s.below(self.texts.len() as u64) as usize;
        let p = s.below(self.paths.len() as u64) as usize;
        let v = s.below(self.values.len() as u64) as usize;
        match s.below(9) {
            0 => Call::Read(t),
            1 => Call::Get(t, p),
            2 => Call::GetText(t, p),
            3 => Call::GetNumber(t, p),
            4 => Call::Set(t, p, v),
            5 => Call::Del(t, p),
            6 => Call::Encode(v),
            7 => Call::DecodeList(t),
            _ => Call::DecodeMap(t),
        }
    }
    fn at(&self, t: usize, p: usize) -> Option<Result<V, E>> {
        let v = match &self.read[t] {
            Ok(v) => v,
            Err(_) => return Some(Err(E::Parse)),
        };
        Some(match self.meant[p].clone()? {
            Ok(p) => v.at(&p).cloned(),
            Err(e) => Err(e),
        })
    }
    /// What a call has to give; None where that is not specified.
    fn expected(&self, c: Call) -> Option<Out> {
        let plain = |v: Result<V, E>| v.map(|v| render_ref(&v));
        Some(match c {
            Call::Read(t) => plain(self.read[t].clone().map_err(|_| E::Parse)),
            Call::Get(t, p) => plain(self.at(t, p)?),
            Call::GetText(t, p) => match self.at(t, p)? {
                Ok(V::Str(x)) => Ok(x),
                Ok(_) => Err(E::ConvertError),
                Err(e) => Err(e),
            },
            Call::GetNumber(t, p) => match self.at(t, p)? {
                Ok(V::Num(x)) => Ok(x.to_bits().to_string()),
                Ok(_) => Err(E::ConvertError),
                Err(e) => Err(e),
            },
            Call::Set(t, p, v) => match (&self.read[t], self.meant[p].clone()?) {
                (Err(_), _) => Err(E::Parse),
                (_, Err(e)) => Err(e),
                (Ok(w), Ok(p)) => {
                    let mut w = w.clone();
                    w.set(&p, self.values[v].clone());
                    Ok(render_ref(&w))
                }
            },
            Call::Del(t, p) => match (&self.read[t], self.meant[p].clone()?) {
                (Err(_), _) => Err(E::Parse),
                (_, Err(e)) => Err(e),
                (Ok(w), Ok(p)) => {
                    let mut w = w.clone();
                    w.del(&p).map(|_| render_ref(&w))
                }
            },
            Call::Encode(v) => Ok(render_ref(&self.values[v])),
            Call::DecodeList(t) => match &self.read[t] {
                Err(_) => Err(E::Parse),
                Ok(V::Arr(a)) if a.iter().all(|x| matches!(x, V::Num(_) | V::Null)) => Ok(format!(
                    "{:?}",
                    a.iter().map(|x| if let V::Num(n) = x { Some(n.to_bits()) } else { None }).collect::<Vec<_>>()
                )),
                Ok(_) => Err(E::ConvertError),
            },
            Call::DecodeMap(t) => match &self.read[t] {
                Err(_) => Err(E::Parse),
                Ok(V::Obj(m)) => {
                    let mut o: Vec<(String, String)> = Vec::new();
                    for (k, v) in m {
                        match o.iter_mut().find(|x| x.0 == *k) {
                            Some(x) => x.1 = render_ref(v),
                            None => o.push((k.clone(), render_ref(v))),
                        }
                    }
                    o.sort();
                    Ok(format!("{:?}", o))
                }
                Ok(_) => Err(E::ConvertError),
            },
        })
    }
    /// Padding of a size that takes long is not what this is about.
    fn allowed(&self, c: Call) -> bool {
        match c {
            Call::Set(_, p, _) => match &self.meant[p] {
                Some(Ok(p)) => !p.iter().any(|s| matches!(s, Seg::Index(i) if *i > 2000)),
                // `#+99999999` may mean an index
                None => false,
                _ => true,
            },
            _ => true,
        }
    }
    fn show(&self, c: Call) -> String {
        let (t, p) = (|i: usize| clip(&self.texts[i]), |i: usize| &self.paths[i]);
        match c {
            Call::Read(a) => format!("read {:?}", t(a)),
            Call::Get(a, b) => format!("get {:?} of {:?}", p(b), t(a)),
            Call::GetText(a, b) => format!("get {:?} of {:?} as String", p(b), t(a)),
            Call::GetNumber(a, b) => format!("get {:?} of {:?} as f64", p(b), t(a)),
            Call::Set(a, b, v) => format!("set {:?} of {:?} to {}", p(b), t(a), show(&self.values[v])),
            Call::Del(a, b) => format!("del {:?} of {:?}", p(b), t(a)),
            Call::Encode(v) => format!("encode {}", show(&self.values[v])),
            Call::DecodeList(a) => format!("decode {:?} to Vec<Option<f64>>", t(a)),
            Call::DecodeMap(a) => format!("decode {:?} to HashMap<String, Json>", t(a)),
        }
    }
    /// What a call gives, and the message of its error.
    fn run(&self, c: Call, held: &mut (String, String)) -> (Out, String) {
        let (t, p) = match c {
            Call::Read(t) | Call::DecodeList(t) | Call::DecodeMap(t) => (t, 0),
            Call::Get(t, p) | Call::GetText(t, p) | Call::GetNumber(t, p) | Call::Set(t, p, _) | Call::Del(t, p) => (t, p),
            Call::Encode(_) => (0, 0),
        };
        // texts and paths come in the same place of the memory, one after the other
        held.0.clear();
        held.0.push_str(&self.texts[t]);
        held.1.clear();
        held.1.push_str(&self.paths[p]);
        let (t, p): (&str, &str) = (&held.0, &held.1);
        let r: Result<String, json::Error> = match c {
            Call::Read(_) => Json::parse(t).map(|j| j.to_string()),
            Call::Get(..) => json::get::<Json>(t, p).map(|j| j.to_string()),
            Call::GetText(..) => json::get::<String>(t, p),
            Call::GetNumber(..) => json::get::<f64>(t, p).map(|n| n.to_bits().to_string()),
            Call::Set(_, _, v) => json::set(t, p, self.values[v].to_json()),
            Call::Del(..) => json::del(t, p),
            Call::Encode(v) => Ok(json::encode(&self.values[v].to_json())),
            Call::DecodeList(_) => json::decode::<Vec<Option<f64>>>(t)
                .map(|v| format!("{:?}", v.into_iter().map(|x| x.map(|n| n.to_bits())).collect::<Vec<_>>())),
            Call::DecodeMap(_) => json::decode::<HashMap<String, Json>>(t).map(|m| {
                let mut m: Vec<(String, String)> = m.into_iter().map(|(k, v)| (k, v.to_string())).collect();
                m.sort();
                format!("{:?}", m)
            }),
        };
        match r {
            Ok(x) => (Ok(x), String::new()),
            Err(e) => (Err(kind_of(&e)), e.to_string()),
        }
    }
    fn right(&self, c: Call, got: &(Out, String)) -> Result<(), String> {
        match self.expected(c) {
            Some(w) if w != got.0 => Err(format!("{} gives {:?} {}, expected {:?}", self.show(c), got.0, got.1, w)),
            _ => Ok(()),
        }
    }
}

fn room() -> (String, String) {
    (String::with_capacity(5000), String::with_capacity(500))
}

fn kept(s: &mut Src, w: &World) -> Vec<Call> {
    let mut v: Vec<Call> = Vec::new();
    while s.more(v.len(), 10, 40) {
        let c = if v.is_empty() || s.chance(2, 3) { w.call(s) } else { *s.pick(&v) };
        if w.allowed(c) {
            v.push(c);
        } else {
            v.push(Call::Read(0));
        }
    }
    v
}

fn labels(cx: &mut Cx, w: &World, calls: &[Call]) {
    let fails = calls.iter().filter(|c| matches!(w.expected(**c), Some(Err(_)))).count();
    cx.label_if(fails > 0 && fails < calls.len(), "some calls fail");
    cx.label_if((1..calls.len()).any(|i| calls[..i].contains(&calls[i])), "a call made again");
    cx.extra_evals += calls.len() as u64;
}

fn order(s: &mut Src, cx: &mut Cx) -> Verdict {
    let w = World::new(s);
    let calls = kept(s, &w);
    labels(cx, &w, &calls);
    let log = |n: usize| calls[..n].iter().map(|c| w.show(*c)).collect::<Vec<_>>().join("; ");
    cx.case(calls.len() > 1, || clip(&log(calls.len())));
    let small = w.texts.iter().map(|t| t.len()).sum::<usize>() < 600;
    let rounds = if small && s.chance(1, 100) { s.range(2, 300) } else { 1 };
    cx.label_if(rounds > 100, "more than a hundred times over");
    cx.extra_evals += (calls.len() * (rounds - 1)) as u64;
    // in a thread of their own, so that what went before cannot matter
    std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(scope, || {
                let mut before: HashMap<Call, (Out, String)> = HashMap::new();
                let mut place = room();
                for (i, c) in (0..rounds).flat_map(|_| calls.iter().enumerate()) {
                    let got = no_panic(|| w.run(*c, &mut place)).map_err(|e| format!("after {}: {}: {}", log(i), w.show(*c), e))?;
                    w.right(*c, &got).map_err(|e| format!("after {}: {}", log(i), e))?;
                    match before.get(c) {
                        Some(b) if *b != got => return Err(format!("after {}: {} gives {:?}, before {:?}", log(i), w.show(*c), got, b)),
                        Some(_) => (),
                        None => drop(before.insert(*c, got)),
                    }
                }
                Ok(())
            })
            .expect("a thread")
            .join()
            .unwrap_or_else(|_| Err("the thread panics".into()))
    })
}

/// The same calls in other orders, on several threads at once.
fn threads(s: &mut Src, cx: &mut Cx) -> Verdict {
    let w = Arc::new(World::new(s));
    let calls = kept(s, &w);
    labels(cx, &w, &calls);
    let n = s.range(2, 4);
    let list = calls.iter().map(|c| w.show(*c)).collect::<Vec<_>>().join("; ");
    cx.case(calls.len() > 1, || clip(&format!("{} threads: {}", n, list)));
    if calls.is_empty() {
        return Ok(());
    }
    let gate = Arc::new(Barrier::new(n));
    let mut hands = Vec::new();
    for k in 0..n {
        let mut mine = calls.clone();
        let m = mine.len();
        mine.rotate_left(k * m / n);
        if k % 2 == 1 {
            mine.reverse();
        }
        let (w, gate) = (w.clone(), gate.clone());
        let f = move || {
            gate.wait();
            let mut place = room();
            let mut out = Vec::new();
            for c in mine {
                let got = no_panic(|| w.run(c, &mut place)).map_err(|e| format!("{}: {}", w.show(c), e))?;
                w.right(c, &got)?;
                out.push((c, got));
            }
            Ok::<_, String>(out)
        };
        hands.push(std::thread::Builder::new().stack_size(16 << 20).spawn(f).expect("a thread"));
    }
    let mut first: HashMap<Call, (Out, String)> = HashMap::new();
    let mut bad = None;
    for h in hands {
        match h.join() {
            Ok(Ok(out)) => {
                for (c, got) in out {
                    match first.get(&c) {
                        Some(b) if *b != got => bad = bad.or(Some(format!("{} gives {:?} and {:?}", w.show(c), got, b))),
                        Some(_) => (),
                        None => drop(first.insert(c, got)),
                    }
                }
            }
            Ok(Err(e)) => bad = bad.or(Some(e)),
            Err(_) => bad = bad.or(Some("a thread panics".into())),
        }
    }
    match bad {
        Some(e) => Err(format!("on {} threads at once, {}: {}", n, clip(&list), e)),
        None => Ok(()),
    }
}

/// Values held side by side: reading, editing, copying and dropping one leaves the others alone.
fn held(s: &mut Src, cx: &mut Cx) -> Verdict {
    let mut slots: Vec<(Json, V)> = Vec::new();
    let mut log: Vec<String> = Vec::new();
    let mut n = 0;
    while s.more(n, 10, 30) {
        n += 1;
        let k = if slots.is_empty() { 0 } else { s.below(slots.len() as u64) as usize };
        let what = if slots.is_empty() { 0 } else { s.below(8) };
        match what {
            0 => {
                let v = gen::document(s);
                let t = gen::spell(s, &v);
                let t = if s.chance(1, 4) { gen::mutate(s, &t) } else { t };
                log.push(format!("parse {:?}", clip(&t)));
                match (Json::parse(&t), parse_ref(&t)) {
                    (Ok(j), Ok(v)) => slots.push((j, v)),
                    (Err(_), Err(_)) => (),
                    (j, _) => return Err(format!("{}: {:?}", log.join("; "), j)),
                }
            }
            1 => {
                log.push(format!("copy {}", k));
                let c = (slots[k].0.clone(), slots[k].1.clone());
                slots.push(c);
            }
            2 => {
                log.push(format!("drop {}", k));
                slots.remove(k);
            }
            3 | 4 => {
                let p = gen::path(s, &slots[k].1, 4);
                let o = s.below(slots.len() as u64) as usize;
                if p.iter().any(|s| matches!(s, Seg::Index(i) if *i > 2000)) || slots[o].1.nodes() > 300 || slots[k].1.depth() > 40 {
                    continue;
                }
                log.push(format!("put {} into {} at {}", o, k, show_segs(&p)));
                let (j, v) = (slots[o].0.clone(), slots[o].1.clone());
                slots[k].1.set(&p, v);
                if let Err(e) = slots[k].0.update(to_path(&p), j) {
                    return Err(format!("{}: {}", log.join("; "), e));
                }
            }
            5 => {
                let p = gen::path(s, &slots[k].1, 4);
                log.push(format!("take {} out of {}", show_segs(&p), k));
                let w = slots[k].1.del(&p);
                match (slots[k].0.discard(to_path(&p)), w) {
                    (Ok(j), Ok(v)) => slots.push((j, v)),
                    (Err(e), Err(f)) if kind_of(&e) == f => (),
                    (j, w) => return Err(format!("{}: {:?}, expected {:?}", log.join("; "), j, w)),
                }
            }
            6 => {
                let key = gen::key(s);
                let v = gen::scalar_value(s);
                log.push(format!("append {:?} to {}", key, k));
                let w = slots[k].1.append(&key, v.clone());
                match (slots[k].0.append(&key, v.to_json()), w) {
                    (Ok(()), Ok(())) => (),
                    (Err(e), Err(f)) if kind_of(&e) == f => (),
                    (j, w) => return Err(format!("{}: {:?}, expected {:?}", log.join("; "), j, w)),
                }
            }
            _ => {
                let p = gen::path(s, &slots[k].1, 4);
                log.push(format!("take {} of {}", show_segs(&p), k));
                match (slots[k].0.find(to_path(&p)), slots[k].1.at(&p)) {
                    (Ok(j), Ok(v)) => {
                        let c = (j.clone(), v.clone());
                        slots.push(c);
                    }
                    (Err(e), Err(f)) if kind_of(&e) == f => (),
                    (j, w) => return Err(format!("{}: {:?}, expected {:?}", log.join("; "), j, w)),
                }
            }
        }
        if slots.len() > 8 {
            slots.remove(0);
            log.push("drop 0".into());
        }
        for (i, (j, v)) in slots.iter().enumerate() {
            expect(&format!("after {}: value {}", log.join("; "), i), j, v)?;
        }
    }
    cx.extra_evals += n as u64;
    cx.label_if(slots.len() > 1, "several values");
    cx.case(n > 2, || clip(&log.join("; ")));
    Ok(())
}

/// The calls made by a user's own conversions, in the middle of another call.
struct Inner {
    world: Arc<World>,
    calls: Vec<Call>,
    next: usize,
    made: usize,
    depth: usize,
    deepest: usize,
    /// the conversion after which the user's code gives up, by a panic
    stop: Option<usize>,
    bad: Option<String>,
}

/// What a user's code which gives up panics with.
struct Stop;

thread_local!(static INNER: RefCell<Option<Inner>> = const { RefCell::new(None) });

/// A user's own code: calls of the library, each with results of its own.
fn busy() {
    let job = INNER.with(|i| {
        let mut i = i.borrow_mut();
        let i = i.as_mut()?;
        if let Some(n) = i.stop {
            if n == 0 {
                i.stop = None;
                return Some(Err(()));
            }
            i.stop = Some(n - 1);
        }
        if i.calls.is_empty() || i.depth > 2 || i.made > 60 {
            return None;
        }
        i.made += 1;
        i.depth += 1;
        i.deepest = i.deepest.max(i.depth);
        i.next += 1;
        Some(Ok((i.world.clone(), i.calls[(i.next - 1) % i.calls.len()])))
    });
    let (w, c) = match job {
        None => return,
        Some(Err(())) => std::panic::resume_unwind(Box::new(Stop)),
        Some(Ok(x)) => x,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.run_busy(c)));
    let bad = match r {
        Ok(got) => w.right(c, &got).err(),
        Err(e) if e.is::<Stop>() => {
            INNER.with(|i| i.borrow_mut().as_mut().map(|i| i.depth -= 1));
            std::panic::resume_unwind(e)
        }
        Err(_) => Some(format!("{}: panics", w.show(c))),
    };
    INNER.with(|i| {
        if let Some(i) = i.borrow_mut().as_mut() {
            i.depth -= 1;
            if i.bad.is_none() {
                i.bad = bad.map(|b| format!("within another call, {}", b));
            }
        }
    });
}

/// A value whose conversions make calls.
#[derive(Clone, Debug)]
struct Busy(Json);

impl ToJson for Busy {
    fn to_json(&self) -> Json {
        busy();
        match &self.0 {
            Json::Array(v) => v.iter().map(|x| Busy(x.clone())).collect::<Vec<_>>().to_json(),
            x => x.clone(),
        }
    }
}

impl FromJson for Busy {
    fn from_json(j: &Json) -> Result<Busy, json::Error> {
        busy();
        Ok(Busy(match j {
            Json::Array(_) => Json::Array(j.convert::<Vec<Busy>>()?.into_iter().map(|x| x.0).collect()),
            x => x.clone(),
        }))
    }
}

/// A text, or a number, whose conversions make calls.
struct Only<T>(T);

impl<T: FromJson> FromJson for Only<T> {
    fn from_json(j: &Json) -> Result<Only<T>, json::Error> {
        busy();
        let r = j.convert();
        busy();
        r.map(Only)
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct BusyKey(String);

impl std::str::FromStr for BusyKey {
    type Err = ();
    fn from_str(s: &str) -> Result<BusyKey, ()> {
        busy();
        Ok(BusyKey(s.to_string()))
    }
}

impl std::fmt::Display for BusyKey {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        busy();
        f.write_str(&self.0)
    }
}

impl World {
    /// The same call, with types whose conversions make calls.
    fn run_busy(&self, c: Call) -> (Out, String) {
        let (t, p): (&str, &str) = match c {
            Call::Read(t) | Call::DecodeList(t) | Call::DecodeMap(t) => (&self.texts[t], ""),
            Call::Get(t, p) | Call::GetText(t, p) | Call::GetNumber(t, p) | Call::Set(t, p, _) | Call::Del(t, p) => (&self.texts[t], &self.paths[p]),
            Call::Encode(_) => ("", ""),
        };
        let r: Result<String, json::Error> = match c {
            Call::Read(_) => json::decode::<Busy>(t).map(|b| json::encode(&b)),
            Call::Get(..) => json::get::<Busy>(t, p).map(|b| b.0.to_string()),
            Call::GetText(..) => json::get::<Only<String>>(t, p).map(|x| x.0),
            Call::GetNumber(..) => json::get::<Only<f64>>(t, p).map(|n| n.0.to_bits().to_string()),
            Call::Set(_, _, v) => json::set(t, p, Busy(self.values[v].to_json())),
            Call::Del(..) => json::del(t, p),
            Call::Encode(v) => Ok(json::encode(&Busy(self.values[v].to_json()))),
            Call::DecodeList(_) => json::decode::<Vec<Option<Only<f64>>>>(t)
                .map(|v| format!("{:?}", v.into_iter().map(|x| x.map(|n| n.0.to_bits())).collect::<Vec<_>>())),
            Call::DecodeMap(_) => json::decode::<HashMap<BusyKey, Busy>>(t).map(|m| {
                let mut m: Vec<(String, String)> = m.into_iter().map(|(k, v)| (k.0, v.0.to_string())).collect();
                m.sort();
                format!("{:?}", m)
            }),
        };
        match r {
            Ok(x) => (Ok(x), String::new()),
            Err(e) => (Err(kind_of(&e)), e.to_string()),
        }
    }
}

/// Calls made by the conversions of other calls, and after ones that a user's code gave up.
fn within(s: &mut Src, cx: &mut Cx) -> Verdict {
    let w = Arc::new(World::new(s));
    let calls = kept(s, &w);
    let inner: Vec<Call> = kept(s, &w).into_iter().take(12).collect();
    let stops: Vec<Option<usize>> = calls.iter().map(|_| if s.chance(1, 8) { Some(s.below(4) as usize) } else { None }).collect();
    let edits: Vec<(u64, usize, String)> = calls.iter().take(4).map(|_| (s.below(9), s.below(4) as usize, gen::key(s))).collect();
    labels(cx, &w, &calls);
    let rounds = if s.chance(1, 50) { s.range(2, 20) } else { 1 };
    // in a thread of their own, so that what went before cannot matter
    let mut seen = Seen::default();
    let r = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(scope, || (0..rounds).try_for_each(|_| round(&w, &calls, &inner, &stops, &edits, &mut seen)))
            .expect("a thread")
            .join()
            .unwrap_or_else(|_| Err("the thread panics".into()))
    });
    cx.extra_evals += seen.total as u64;
    cx.label_if(seen.most > 0, "a call within another");
    cx.label_if(seen.most > 1, "a call within one within another");
    cx.label_if(seen.stopped > 0, "given up by the user's code");
    cx.label_if(seen.stopped > 10, "given up more than ten times");
    cx.case(seen.total > 1, || clip(&seen.log.join("; ")));
    r
}

/// What one history came to.
#[derive(Default)]
struct Seen {
    log: Vec<String>,
    most: usize,
    total: usize,
    stopped: usize,
}

fn round(w: &Arc<World>, calls: &[Call], inner: &[Call], stops: &[Option<usize>], edits: &[(u64, usize, String)], seen: &mut Seen) -> Verdict {
    let Seen { log, most, total, stopped } = seen;
    INNER.with(|i| {
        *i.borrow_mut() = Some(Inner { world: w.clone(), calls: inner.to_vec(), next: 0, made: 0, depth: 0, deepest: 0, stop: None, bad: None })
    });
    struct Clear;
    impl Drop for Clear {
        fn drop(&mut self) {
            INNER.with(|i| *i.borrow_mut() = None);
        }
    }
    let _clear = Clear;
    // one piece of a user's code: what it makes of the calls within it, or that it gave up
    let mut step = |what: String, stop: Option<usize>, f: &mut dyn FnMut() -> Verdict| -> Verdict {
        INNER.with(|i| {
            if let Some(i) = i.borrow_mut().as_mut() {
                i.made = 0;
                i.depth = 0;
                i.deepest = 0;
                i.bad = None;
                i.stop = stop;
            }
        });
        log.push(what);
        let r = no_panic(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut *f)).or_else(|e| if e.is::<Stop>() { Ok::<Verdict, ()>(Err("stop".to_string())) } else { std::panic::resume_unwind(e) }));
        let told = || {
            let list = inner.iter().map(|c| w.show(*c)).collect::<Vec<_>>().join("; ");
            format!("{} (with conversions that make the calls {})", clip(&log.join("; ")), clip(&list))
        };
        let (bad, made, deep, left) = INNER.with(|i| {
            let mut i = i.borrow_mut();
            let i = i.as_mut().expect("set");
            let left = i.stop.is_some();
            i.stop = None;
            (i.bad.take(), i.made, i.deepest, left)
        });
        *total += made;
        *most = (*most).max(deep);
        if let Some(b) = bad {
            return Err(format!("{}: {}", told(), b));
        }
        match r {
            Err(e) => Err(format!("{}: {}", told(), e)),
            Ok(Ok(Err(m))) if m == "stop" && stop.is_some() && !left => {
                *stopped += 1;
                log.push("(given up by the user's code)".into());
                Ok(())
            }
            Ok(Ok(r)) => r.map_err(|e| format!("{}: {}", told(), e)),
            Ok(Err(_)) => Err(format!("{}: panics", told())),
        }
    };
    for (c, stop) in calls.iter().zip(stops) {
        step(w.show(*c), *stop, &mut || {
            let got = w.run_busy(*c);
            w.right(*c, &got)
        })?;
    }
    for (n, (kind, i, key)) in edits.iter().enumerate() {
        let stop = stops[n];
        let v = &w.values[n % w.values.len()];
        let (i, key) = (*i, key.clone());
        let b = Busy(v.to_json());
        let two = V::Arr(vec![v.clone(), V::Num(1.0), v.clone()]);
        let pair = V::Obj(vec![("k".into(), V::Bool(true))]);
        match kind {
            0 => step(format!("push {}", show(v)), stop, &mut || {
                let (mut j, mut m) = (two.to_json(), two.clone());
                j.push(b.clone()).map_err(|e| e.to_string())?;
                if let V::Arr(a) = &mut m { a.push(v.clone()) }
                expect("the result", &j, &m)
            })?,
            1 => step(format!("replace #{} by {}", i, show(v)), stop, &mut || {
                let (mut j, mut m) = (two.to_json(), two.clone());
                let r = j.replace(i, b.clone());
                if i < 3 {
                    r.map_err(|e| e.to_string())?;
                    if let V::Arr(a) = &mut m { a[i] = v.clone() }
                } else if r.is_ok() {
                    return Err("an element that is not there is replaced".into());
                }
                expect("the result", &j, &m)
            })?,
            2 | 3 => step(format!("{} {:?}: {}", if *kind == 2 { "insert" } else { "append" }, key, show(v)), stop, &mut || {
                let (mut j, mut m) = (pair.to_json(), pair.clone());
                let k = BusyKey(key.clone());
                if *kind == 2 { j.insert(k, b.clone()) } else { j.append(k, b.clone()) }.map_err(|e| e.to_string())?;
                if *kind == 2 { m.insert(&key, v.clone()) } else { m.append(&key, v.clone()) }.map_err(|e| format!("{:?}", e))?;
                expect("the result", &j, &m)
            })?,
            4 => step(format!("object! {:?}: {}", key, show(v)), stop, &mut || {
                let j = json::object! { BusyKey(key.clone()) => b.clone(), "b" => json::array![b.clone(), 1] };
                let mut m = V::Obj(Vec::new());
                m.append(&key, v.clone()).map_err(|e| format!("{:?}", e))?;
                m.append("b", V::Arr(vec![v.clone(), V::Num(1.0)])).map_err(|e| format!("{:?}", e))?;
                expect("the result", &j, &m)
            })?,
            5 => step(format!("array! of {}", show(v)), stop, &mut || {
                let j = json::array![b.clone(), json::object! { "x" => b.clone() }, Some(b.clone())];
                let m = V::Arr(vec![v.clone(), V::Obj(vec![("x".into(), v.clone())]), v.clone()]);
                expect("the result", &j, &m)
            })?,
            6 => step(format!("update #{} by {}", i, show(v)), stop, &mut || {
                let (mut j, mut m) = (two.to_json(), two.clone());
                j.update(i, b.clone()).map_err(|e| e.to_string())?;
                m.set(&[Seg::Index(i)], v.clone());
                expect("the result", &j, &m)
            })?,
            7 => step(format!("set a.#{} to {}", i, show(v)), stop, &mut || {
                let (mut j, mut m) = (pair.to_json(), pair.clone());
                j.set(&format!("a.#{}", i), b.clone()).map_err(|e| e.to_string())?;
                m.set(&[Seg::Key("a".into()), Seg::Index(i)], v.clone());
                expect("the result", &j, &m)
            })?,
            _ => step(format!("update! \"k\", {} to {}", i, show(v)), stop, &mut || {
                let (mut j, mut m) = (pair.to_json(), pair.clone());
                json::update!(b.clone() => j, "k", i).map_err(|e| e.to_string())?;
                m.set(&[Seg::Key("k".into()), Seg::Index(i)], v.clone());
                expect("the result", &j, &m)
            })?,
        }
    }
    Ok(())
}

pub fn c32() -> Check {
    Check {
        id: "C32",
        rule: "histories of up to 40 calls on up to four texts, eight paths and three values, in one thread or on up to four at once, of calls made by the conversions of a user's own types in the middle of other calls, and of edits of up to eight values held at once; non-trivial: two calls or more, two calls within others, three edits or more",
        assumptions: &["the reference reader, writer and model of the harness"],
        suites: vec![
            Suite { name: "order", kind: Kind::Random { quick: 60_000, thorough: 2_000_000, f: order } },
            Suite { name: "threads", kind: Kind::Random { quick: 15_000, thorough: 400_000, f: threads } },
            Suite { name: "within", kind: Kind::Random { quick: 30_000, thorough: 800_000, f: within } },
            Suite { name: "held", kind: Kind::Random { quick: 60_000, thorough: 1_500_000, f: held } },
        ],
    }
}
