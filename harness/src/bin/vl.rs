//! The two libraries, called directly and judged by exact arithmetic.
#[path = "../core.rs"]
#[allow(dead_code)]
mod core;
#[path = "../driver.rs"]
mod driver;
#[path = "../curvelib.rs"]
mod curvelib;
#[path = "../declib.rs"]
mod declib;

pub use driver::{Spec, Work};

fn main() {
    let mut v: Vec<Spec> = vec![];
    v.extend(curvelib::specs());
    v.extend(declib::specs());
    driver::run(v, false)
}
