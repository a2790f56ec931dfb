mod alloc;
mod c01;
mod c07;
mod c08;
mod c13;
mod c14;
mod gen;
mod refcodec;
mod typed;
mod util;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    mc_common::main(&[("C01", c01::run), ("C07", c07::run), ("C08", c08::run), ("C13", c13::run), ("C14", c14::run)])
}
