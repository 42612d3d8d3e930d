//! The same program with the derived structures of C31.

use json::{JsonDecode, JsonEncode};
use std::collections::HashMap;
use vt::checks::cost::{Derived, Keys, Meter, DERIVED};
use vt::roundtrip;

#[derive(JsonEncode, JsonDecode, Clone, PartialEq)]
struct Point {
    x: f64,
    name: String,
    rest: Vec<u8>,
}

#[derive(JsonEncode, JsonDecode, Clone, PartialEq)]
struct Shape {
    points: Vec<Point>,
    by_name: HashMap<String, u32>,
    next: Vec<Shape>,
}

fn point(k: &Keys, x: f64, i: usize) -> Point {
    Point { x, name: k.at(i), rest: vec![i as u8; 3] }
}

fn items(m: &mut Meter, k: &Keys, x: f64, n: usize) {
    roundtrip!(m, (0..n / 4).map(|i| point(k, x, i)).collect(), Vec<Point>)
}

fn nested(m: &mut Meter, k: &Keys, x: f64, n: usize, depth: usize) {
    let mut v = Shape { points: (0..n / 8).map(|i| point(k, x, i)).collect(), by_name: (0..n / 8).map(|i| (k.at(i), i as u32)).collect(), next: Vec::new() };
    for _ in 0..depth {
        v = Shape { points: vec![point(k, x, 1)], by_name: HashMap::new(), next: vec![v] };
    }
    roundtrip!(m, v, Shape)
}

fn main() {
    let _ = DERIVED.set(Derived { items, nested });
    vt::main()
}
