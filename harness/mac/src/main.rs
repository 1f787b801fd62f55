//! C05-C09: the real macro code, run in process on token streams; its output is evaluated and
//! compared with an independent reading of the input.
#![allow(dead_code, unused_imports)]
#[path = "/repo/packages/stylist-macros/src/inline/mod.rs"]
mod inline;
#[path = "/repo/packages/stylist-macros/src/literal/mod.rs"]
mod literal;
#[path = "/repo/packages/stylist-macros/src/output/mod.rs"]
mod output;
#[path = "/repo/packages/stylist-macros/src/sheet.rs"]
mod sheet;
#[path = "/repo/packages/stylist-macros/src/spacing_iterator.rs"]
mod spacing_iterator;
mod eval;
mod gen;
mod lit;
mod real;
mod spacing;
use hcore::*;

fn main() {
    let a = args();
    let mut rep = Report::new();
    match a.prop.as_str() {
        "inline" => gen::run(&mut rep, a.seed, a.secs),
        "literal" => lit::run(&mut rep, a.seed, a.secs),
        "spacing" => spacing::run(&mut rep, a.seed, a.secs),
        "real" => real::run(&mut rep, a.seed, a.secs),
        p => panic!("no stand-in for {p}"),
    }
    rep.print();
}
