#![allow(dead_code)]
mod bus;
mod c06;
mod c15;
mod c19;
mod calls;
mod chan;
mod events;
mod explore;
mod listener;
mod more;
mod net;
mod registry;
mod sim;
#[path = "../../bus/src/snap.rs"]
pub mod snap;

mc_common::define_getrandom!();

fn main() {
    mc_common::main(&[("C06", c06::run), ("C15", c15::run), ("C19", c19::run), ("C02", more::c02), ("C03", more::c03), ("C04", more::c04), ("C05", more::c05), ("C10", more::c10), ("C12", more::c12)])
}
