#![allow(dead_code)]
mod alpha;
mod bfs;
mod bulk;
mod exec;
mod model;
mod snap;
mod sys;
mod c02;
mod c03;
mod c04;
mod c05;
mod c09;
mod c10;
mod c11;
mod c12;
#[path = "../../codec/src/gen.rs"]
mod gen;
#[path = "../../codec/src/refcodec.rs"]
mod refcodec;

mc_common::define_getrandom!();

fn main() {
    mc_common::main(&[("C02", c02::run), ("C03", c03::run), ("C04", c04::run), ("C05", c05::run), ("C09", c09::run), ("C10", c10::run), ("C11", c11::run), ("C12", c12::run)])
}
