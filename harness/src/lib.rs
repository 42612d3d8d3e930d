//! The value models, generators and checks; generated programs link it too.

pub mod checks;
pub mod derive;
pub mod gen;
pub mod inside;
pub mod model;
pub mod quoting;

pub use model::V;
pub use pbt::{Cx, Src};
pub use checks::types::{Typed, D};

/// One property's check, as the command line says.
pub fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = match args.first() {
        Some(id) => id.clone(),
        None => {
            eprintln!("usage: vt <property> [--replay file]");
            std::process::exit(2);
        }
    };
    for c in checks::all() {
        let c = c();
        if c.id == id {
            std::process::exit(pbt::run::main_check(&c, &args[1..]));
        }
    }
    if let Some(p) = derive::plan(&id) {
        std::process::exit(derive::main(&p, &args[1..]));
    }
    if let Some(c) = inside::check(&id) {
        std::process::exit(inside::main(&c, &args[1..]));
    }
    if id == "C25" || id == "C29" {
        std::process::exit(quoting::main(&id, &args[1..]));
    }
    eprintln!("no check for {}", id);
    std::process::exit(2);
}
