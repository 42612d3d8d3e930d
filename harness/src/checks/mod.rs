pub mod calls;
pub mod cost;
pub mod errors;
pub mod text;
pub mod types;
pub mod edits;
pub mod paths;

use pbt::run::Check;

pub fn all() -> Vec<fn() -> Check> {
    vec![text::c01, text::c02, text::c03, text::c04, text::c05, text::c06, text::c07, types::c08, types::c09, paths::c10, paths::c11, paths::c12, paths::c13, paths::c17, paths::c19, edits::c14, edits::c15, edits::c16, edits::c26, errors::c28, cost::c31, calls::c32]
}
