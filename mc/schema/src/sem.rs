//! Schemas that are syntactically fine: every combination of small definitions and of the schemas
//! they are in, so that every error and warning occurs in every place.

use crate::util::Files;
use mc_common::choice::Choices;

pub const OTHERS: usize = 9;

/// The state of the second schema `b`.
fn add_b(mut f: Files, k: usize) -> Files {
    match k {
        0 => f,
        1 => f.with("b", "struct A { required x @ 1 = u8; }\nconst C = u32(3);\nenum B { X @ 1; }\n"),
        2 => {
            f.others.push(("b".into(), None));
            f
        }
        3 => f.with("b", "struct A {"),
        4 => f.with("b", "import main;\nstruct A { x @ 1 = main::A; }\nnewtype B = main::B;\nconst C = string(\"x\");\n"),
        5 => f.with("b", "import b;\nnewtype A = b::B;\nnewtype B = b::A;\nconst C = u8(0);\n"),
        6 => f.with("b", "import c;\nnewtype A = c::A;\nstruct B {}\nstruct B {}\nconst C = uuid(01234567-89ab-cdef-0123-456789abcdef);\n"),
        7 => f.with("b", "service A { uuid = 01234567-89ab-cdef-0123-456789abcdef; version = 1; }\nenum B {}\nnewtype C = u8;\n"),
        _ => f.with("b", "/// [zz]\nnewtype A = u64;\nenum B { x @ 1 = A; Y = fallback; }\nconst C = i64(-1);\n"),
    }
}

const TYPES: &[&str] = &[
    "u8", "A", "B", "C", "zz", "b::A", "b::B", "b::zz", "c::A", "main::A", "vec<A>", "box<A>", "option<B>", "map<A -> u8>", "map<u8 -> A>", "set<B>", "set<b::A>", "set<f32>",
    "result<A, B>", "[A; 3]", "[u8; 0]", "[u8; C]", "[u8; A]", "[u8; b::C]", "[u8; b::A]", "[u8; zz]", "[u8; -1]", "[u8; 4294967296]", "[B; C]", "sender<A>", "lifetime",
];

fn def(ch: &mut Choices, name: &str, uuid: usize) -> String {
    let k = ch.pick_free(14);
    let mut t = || TYPES[ch.pick_free(TYPES.len())];
    match k {
        0 => String::new(),
        1 => format!("struct {name} {{ f @ 1 = {}; }}\n", t()),
        2 => format!("enum {name} {{ F @ 1 = {}; }}\n", t()),
        3 => format!("newtype {name} = {};\n", t()),
        4 => format!("const {name} = u8(7);\n"),
        5 => format!("const {name} = string(\"x\\q\");\n"),
        6 => format!("const {name} = uuid(01234567-89ab-cdef-0123-456789abcdef);\n"),
        7 => format!("service {name} {{ uuid = 01234567-89ab-cdef-0123-456789abcd{uuid:0>2}; version = 1; event e @ 1 = {}; }}\n", t()),
        8 => format!("enum {name} {{}}\n"),
        9 => format!("const {name} = u8(256);\n"),
        10 => format!(
            "service {name} {{ uuid = 01234567-89ab-cdef-0123-456789abcdef; version = x; }}\n").replace("= x", "= 4294967296"),
        11 => format!("struct {name} {{}}\nenum {name} {{ X @ 1; X @ 1; x = fallback; }}\n"),
        12 => format!("struct {name} {{ F @ 0 = u8; F @ 0 = {}; }}\n", t()),
        _ => format!("/// [A] [{name}] [zz] [b::A]\nconst {name} = i32(2);\n"),
    }
}

/// Two definitions that refer to each other and to `b`.
pub fn pairs(ch: &mut Choices, few: bool) -> Files {
    let k = if few { [1, 4][ch.pick_free(2)] } else { ch.pick_free(OTHERS) };
    let imp = ch.pick_free(2);
    let a = def(ch, "A", 0);
    let b = def(ch, "B", 1);
    let imp = ["import b;\n", ""][imp];
    add_b(Files::one(format!("{imp}{a}{b}const C = u32(5);\n")), k)
}

/// Import graphs of three schemas.
pub fn imports(ch: &mut Choices) -> Files {
    const NAMES: [&str; 5] = ["main", "a", "b", "zz", "A_b"];
    let mut src = |refs: bool, max: usize| {
        let mut s = String::new();
        let n = ch.pick_free(max + 1);
        for _ in 0..n {
            s += &format!("import {};\n", NAMES[ch.pick_free(5)]);
        }
        if refs {
            s += &format!("struct S {{ f @ 1 = {}::S; }}\n", NAMES[ch.pick_free(4)]);
        }
        s + "service V { uuid = 01234567-89ab-cdef-0123-456789abcdef; version = 1; }\nstruct T { a @ 1 = zz; a @ 2 = zz; b @ 1 = u8; b @ 2 = zz; }\n"
    };
    let m = src(true, 2);
    let a = src(true, 1);
    let b = src(false, 1);
    let mut f = Files::one(m).with("a", &a);
    match ch.pick_free(4) {
        0 => {}
        1 => f = f.with("b", &b),
        2 => f.others.push(("b".into(), None)),
        _ => f = f.with("b", &format!("{b} }}")),
    }
    f
}

/// Names: of the schema itself, of imports, of definitions and references to them.
pub fn names(ch: &mut Choices) -> Files {
    const N: [&str; 24] = [
        "main", "", " ", "a b", "é", "1", "_", "type", "Self", "a-b", "..", "a/b", "A", "struct", "r#a", "a\nb", "\u{0}", "crate", "u8", "fallback", "\u{202e}", "std", "aldrin", "a::b",
    ];
    let main = N[ch.pick_free(24)];
    let imp = N[ch.pick_free(24)];
    let def = N[ch.pick_free(24)];
    let kind = ch.pick_free(5);
    let d = match kind {
        0 => format!("struct {def} {{ {def} @ 1 = {imp}::{def}; }}"),
        1 => format!("enum {def} {{ {def} @ 1 = {def}; }}"),
        2 => format!("const {def} = u8(1);"),
        3 => format!("service {def} {{ uuid = 01234567-89ab-cdef-0123-456789abcdef; version = 1; fn {def} @ 1 = {imp}::S; event {def} @ 1; }}"),
        _ => format!("#[{def}({def})]\nnewtype {def} = {imp}::{def};"),
    };
    let mut f = Files::one(format!("import {imp};\n{d}\n"));
    f.main = main.to_string();
    f.with(imp, &format!("struct {def} {{}}\nstruct S {{}}\n"))
}

/// Repeated ids, names and uuids.
pub fn duplicates(ch: &mut Choices) -> Files {
    const IDS: [&str; 7] = ["0", "1", "01", "4294967295", "4294967294", "-1", "x"];
    let kind = ch.pick_free(6);
    let mut s = String::new();
    for _ in 0..4 {
        let n = ["a", "b"][ch.pick_free(2)];
        let id = IDS[ch.pick_free(6)];
        s += &match kind {
            0 | 1 => format!("{n} @ {id} = u8;\n"),
            2 => format!("{n} @ {id};\n"),
            3 => format!("fn {n} @ {id};\n"),
            4 => format!("event {n} @ {id};\n"),
            _ => {
                if n == "a" {
                    format!("event {n} @ {id};\n")
                } else {
                    format!("fn {n} @ {id};\n")
                }
            }
        };
    }
    let v = "uuid = 01234567-89ab-cdef-0123-456789abcdef; version = 1;";
    Files::one(match kind {
        0 => format!("struct S {{ {s} a = fallback; }}"),
        1 => format!("service V {{ {v} fn f @ 1 {{ args = struct {{ {s} }} ok = struct {{ {s} }} }} }}"),
        2 => format!("enum E {{ {s} b = fallback; }}"),
        _ => format!("service V {{ {v} {s} fn a = fallback; event a = fallback; }}"),
    })
}

/// Texts that grow: (name, builder, sizes).
pub fn growth() -> Vec<(&'static str, fn(usize) -> String, usize, usize)> {
    fn rep(a: &str, n: usize) -> String {
        a.repeat(n)
    }
    vec![
        ("nested-vec", |n| format!("newtype N = {}u8{};", rep("vec<", n), rep(">", n)), 256, 1024),
        ("nested-box-ref", |n| format!("struct N {{ f @ 1 = {}N{}; }}", rep("option<", n), rep(">", n)), 256, 1024),
        ("nested-array", |n| format!("newtype N = {}u8{};", rep("[", n), rep("; 1]", n)), 256, 1024),
        ("unclosed-vec", |n| format!("newtype N = {}", rep("vec<", n)), 256, 1024),
        ("unclosed-map", |n| format!("newtype N = {}", rep("map<u8->", n)), 256, 1024),
        ("unclosed-array", |n| format!("newtype N = {}", rep("[", n)), 256, 1024),
        ("wide-dag", |n| {
            let mut s = String::from("struct S0 { a @ 1 = u8; }\n");
            for i in 1..n {
                s += &format!("struct S{i} {{ a @ 1 = S{}; b @ 2 = S{}; }}\n", i - 1, i - 1);
            }
            s
        }, 64, 200),
        ("enum-dag", |n| {
            let mut s = String::from("enum S0 { a @ 1 = u8; }\n");
            for i in 1..n {
                s += &format!("enum S{i} {{ a @ 1 = S{}; b @ 2 = result<S{}, S{}>; }}\n", i - 1, i - 1, i - 1);
            }
            s
        }, 64, 200),
        ("key-chain", |n| {
            let mut s = String::from("newtype S0 = u8;\n");
            for i in 1..n {
                s += &format!("newtype S{i} = S{};\nnewtype M{i} = map<S{i} -> S{i}>;\n", i - 1);
            }
            s
        }, 200, 400),
        ("ref-cycle", |n| {
            let mut s = String::new();
            for i in 0..n {
                s += &format!("struct S{i} {{ a @ 1 = S{}; b @ 2 = option<S{}>; }}\n", (i + 1) % n, (i * 7 + 1) % n);
            }
            s
        }, 64, 200),
        ("rho", |n| {
            let mut s = String::new();
            for i in 0..n {
                s += &format!("struct S{i} {{ a @ 1 = S{}; }}\n", (i + 1).min(n / 2));
            }
            s
        }, 200, 400),
        ("doc-brackets", |n| format!("/// {}\nstruct S {{}}", rep("[", n)), 2000, 8000),
        ("doc-brackets2", |n| format!("/// {}{}\nstruct S {{}}", rep("[", n), rep("]", n)), 2000, 8000),
        ("doc-links", |n| format!("/// {}\nstruct S {{}}", rep("[x](S ", n)), 1000, 4000),
        ("doc-broken", |n| format!("/// {}\nstruct S {{}}", rep("[zz](zz) ", n)), 64, 256),
        ("doc-quotes", |n| format!("/// {}[zz]\nstruct S {{}}", rep("> ", n)), 200, 1000),
        ("doc-ticks", |n| (1..n).map(|i| format!("/// {}\n", rep("`", i))).collect::<String>() + "struct S {}", 64, 200),
        ("doc-lines", |n| rep("/// [zz]\n", n) + "struct S {}", 64, 256),
        ("doc-emph", |n| format!("/// {}\nstruct S {{}}", rep("*a_", n)), 500, 2000),
        ("attrs", |n| rep("#[a(b, c)]\n", n) + "struct S {}", 500, 2000),
        ("comments", |n| rep("// c\n", n) + "struct S {}", 2000, 8000),
        ("comments-only", |n| rep("// c\n", n), 2000, 8000),
        ("docs-only", |n| rep("/// c\n", n), 2000, 8000),
        ("inline-docs", |n| rep("// c\n//! c\n", n), 1000, 4000),
        ("semicolons", |n| rep(";", n), 2000, 8000),
        ("defs", |n| (0..n).map(|i| format!("struct S{i} {{}}\n")).collect(), 500, 2000),
        ("dup-defs", |n| rep("struct S {}\n", n), 64, 256),
        ("dup-imports", |n| rep("import zz;\n", n), 64, 256),
        ("long-ident", |n| format!("struct {} {{}}", rep("a", n)), 2000, 8000),
        ("long-int", |n| format!("const A = u8({});", rep("9", n)), 2000, 8000),
        ("long-string", |n| format!("const A = string(\"{}\");", rep("\\", n)), 2000, 8000),
    ]
}
