#[path = "../../codec/src/gen.rs"]
pub mod gen;
#[path = "../../codec/src/refcodec.rs"]
pub mod refcodec;

pub mod c16;
pub mod c20;
pub mod glue;
pub mod hand;
pub mod prepare;
pub mod schema;
pub mod svc;
pub mod units;

use mc_gen_rt::Entries;
use std::os::unix::process::CommandExt;
use std::sync::OnceLock;

pub static ENTRIES: OnceLock<Entries> = OnceLock::new();

pub fn stage1() {
    let exe = prepare::prepare(prepare::thorough_args());
    if std::env::args().nth(1).as_deref() == Some("prepare") {
        return;
    }
    let e = std::process::Command::new(exe).args(std::env::args().skip(1)).exec();
    eprintln!("{e}");
    std::process::exit(3);
}

pub fn stage2(e: Entries) {
    let _ = ENTRIES.set(e);
    mc_common::main(&[("C16", c16::run), ("C20", c20::run)]);
}
