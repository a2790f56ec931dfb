mod c17;
mod c18;
mod corpus;
mod docs;
mod dump;
mod gram;
mod sem;
mod util;

mc_common::define_getrandom!();

fn main() {
    mc_common::main(&[("C17", c17::run), ("C18", c18::run)])
}
