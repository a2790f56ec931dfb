//! C17: the schema front end is total and deterministic.

use crate::c18::lex;
use crate::corpus;
use crate::docs::{self, ALPHABETS, POSITIONS};
use crate::gram::{FAMILIES, W};
use crate::sem;
use crate::util::{others, par_explore, par_strings, Files};
use aldrin_codegen::rust::RustOptions;
use aldrin_codegen::{Generator, Options};
use aldrin_parser::{Diagnostic, Formatter, Parser, Renderer};
use mc_common::{catch, Ctx};
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy)]
pub struct How {
    /// Renderer settings: 1 or all.
    renderers: usize,
    /// Code generation option sets.
    codegen: usize,
    /// How often the whole thing is repeated and compared.
    repeat: usize,
}

const LIGHT: How = How { renderers: 1, codegen: 1, repeat: 1 };
const FULL: How = How { renderers: 6, codegen: 8, repeat: 2 };
const REPEAT: How = How { renderers: 1, codegen: 1, repeat: 4 };

fn outcome(files: &Files, how: How, stage: &mut &'static str, counts: &mut [u64; 4]) -> Vec<String> {
    *stage = "parse";
    let p = files.parse();
    let mut out = vec![];
    *stage = "render";
    let rs = [(false, false, 100), (true, true, 100), (false, true, 20), (true, false, 1), (false, false, 0), (true, true, usize::MAX)];
    for (c, u, w) in &rs[..how.renderers] {
        let r = Renderer::new(*c, *u, *w);
        let issues = p
            .errors()
            .iter()
            .map(|e| e as &dyn Diagnostic)
            .chain(p.warnings().iter().map(|e| e as &dyn Diagnostic))
            .chain(p.other_warnings().iter().map(|e| e as &dyn Diagnostic));
        for i in issues {
            let t = r.render(i, &p);
            counts[0] += 1;
            out.push(format!("{:?} {} {t}", i.kind(), i.schema_name()));
        }
    }
    *stage = "format";
    match Formatter::new(&p) {
        Ok(f) => {
            counts[1] += 1;
            out.push(f.to_string());
        }
        Err(errs) => out.push(format!("not formatted: {}", errs.len())),
    }
    *stage = "codegen";
    if p.errors().is_empty() {
        counts[2] += 1;
        for k in 0..how.codegen {
            out.push(generate(&p, k));
        }
    }
    counts[3] += 1;
    out
}

/// Option set 0 has everything enabled.
fn generate(p: &Parser, k: usize) -> String {
    let mut o = Options::new();
    o.client = k & 1 == 0;
    o.server = k & 2 == 0;
    o.introspection = k & 4 == 0;
    let mut r = RustOptions::new();
    if k & 1 != 0 {
        r.introspection_if = Some("feat");
    }
    let g = Generator::new(&o, p);
    match g.rust(&r) {
        Ok(o) => o.module_content,
        Err(e) => format!("error {e}"),
    }
}

/// Returns the outcome's hash.
fn judge(ctx: &Ctx, what: &str, files: &Files, how: How, tot: &Totals) {
    files.mark(ctx);
    let mut first: Option<Vec<String>> = None;
    for _ in 0..how.repeat {
        let mut stage = "";
        let mut counts = [0; 4];
        match catch(|| outcome(files, how, &mut stage, &mut counts)) {
            Ok(o) => {
                tot.add(&counts);
                match &first {
                    None => first = Some(o),
                    Some(f) if *f != o => {
                        let d = f.iter().zip(&o).find(|(a, b)| a != b);
                        let d = d.map_or_else(|| format!("{} / {} results", f.len(), o.len()), |(a, b)| format!("once:\n{a}\nthen:\n{b}"));
                        ctx.violation(&format!("C17/{what}/repeat"), &format!("a repetition yields something else; {d}\nfiles: {files:?}"), json!({"files": files.json()}));
                        return;
                    }
                    _ => {}
                }
            }
            Err(e) => {
                ctx.violation(&format!("C17/{what}/{stage}"), &format!("{stage} panicked: {e}\nfiles: {files:?}"), json!({"files": files.json()}));
                return;
            }
        }
    }
}

#[derive(Default)]
struct Totals([AtomicU64; 4]);

impl Totals {
    fn add(&self, c: &[u64; 4]) {
        for (a, b) in self.0.iter().zip(c) {
            a.fetch_add(*b, Ordering::Relaxed);
        }
    }
}

const TOKENS: &[&str] = &[
    "import", "struct", "enum", "service", "fn", "event", "const", "newtype", "required", "fallback", "uuid", "version", "args", "ok", "err", "u8", "string", "vec", "map", "result",
    "A", "é", "1", "-1", "01234567-89ab-cdef-0123-456789abcdef", "\"s\"", "\"", "{", "}", "(", ")", "<", ">", "[", "]", ";", ",", "=", "@", "->", "::", "#", "!", "// c\n", "/// d\n",
    "//! i\n", "#[a]", "\\", "\r", "\u{0}", "\u{1f600}", "/",
];

/// (before, after): places where a token string is put.
const CONTEXTS: &[(&str, &str)] = &[
    ("", ""),
    ("struct S { ", " }"),
    ("enum E { ", " }"),
    ("service V { uuid = 01234567-89ab-cdef-0123-456789abcdef; version = 1; ", " }"),
    ("newtype N = ", ";"),
    ("service V { uuid = 01234567-89ab-cdef-0123-456789abcdef; version = 1; fn f @ 1 ", " }"),
    ("const C = ", ";"),
    ("#[", "] struct S {}"),
    ("service V { ", " }"),
    ("service V { uuid = 01234567-89ab-cdef-0123-456789abcdef; version = 1; event e @ 1 = struct { ", " } }"),
];

const CHARS: &[&str] = &["/", "\"", "\\", "\n", "\r", "\u{e9}", "\u{1f600}", "#", "[", "]", "{", "}", ";", "a", "0", "-", "\u{feff}", "\t", "!", "\u{2028}"];

/// Nested constructs: text with the given depth.
const DEEP: &[(&str, fn(usize) -> String)] = &[
    ("vec", |n| format!("newtype N = {}u8{};", "vec<".repeat(n), ">".repeat(n))),
    ("array", |n| format!("newtype N = {}u8{};", "[".repeat(n), "; 1]".repeat(n))),
    ("unclosed", |n| format!("newtype N = {}", "option<".repeat(n))),
];

pub fn run(ctx: &Ctx) {
    if let Some(p) = std::env::var_os("MC_DEEP") {
        let p = Files::one(std::fs::read_to_string(p).unwrap()).parse();
        let r = Renderer::new(false, false, 100);
        for e in p.errors() {
            r.render(e, &p);
        }
        if let Ok(f) = Formatter::new(&p) {
            f.to_string();
        }
        std::process::exit(0);
    }
    let tot = Totals::default();
    if let Some(r) = &ctx.replay {
        if let Some(d) = r["deep"].as_str() {
            let make = DEEP.iter().find(|x| x.0 == d).unwrap().1;
            let files = Files::one(make(r["depth"].as_u64().unwrap() as usize));
            judge(ctx, "replay", &files, LIGHT, &tot);
            return;
        }
        let files = Files::from_json(&r["files"]);
        judge(ctx, "replay", &files, How { repeat: 16, ..FULL }, &tot);
        ctx.unmark();
        return;
    }
    let part = |name: &str, n: &dyn Fn() -> u64| {
        if !ctx.only(name) || ctx.stopped() {
            return;
        }
        let t = ctx.elapsed();
        let n = n();
        ctx.add_states(n);
        ctx.extra(name, json!({"inputs": n}));
        if std::env::var_os("MC_TIME").is_some() {
            println!("{name}: {n} inputs, {:?}", ctx.elapsed() - t);
        }
    };
    let q = ctx.quick();

    // Nesting that exhausts the stack ends the process, so it is looked at in processes of its own.
    part("deep", &|| {
        for (name, make) in DEEP {
            for depth in [1000, 5000, 100_000] {
                let text = make(depth);
                let path = std::env::temp_dir().join(format!("mc-deep-{}-{name}-{depth}", std::process::id()));
                std::fs::write(&path, &text).unwrap();
                let st = std::process::Command::new(std::env::current_exe().unwrap())
                    .arg("C17")
                    .env("MC_DEEP", &path)
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status()
                    .unwrap();
                let _ = std::fs::remove_file(&path);
                if !st.success() {
                    let size = if depth > 5000 { "beyond-5000" } else { "up-to-5000" };
                    ctx.violation(
                        &format!("C17/deep-{name}/{size}"),
                        &format!("parsing {depth} levels of {name} ends the process: {st}"),
                        json!({"deep": name, "depth": depth}),
                    );
                }
            }
        }
        3 * DEEP.len() as u64
    });

    part("growth", &|| {
        let g = sem::growth();
        let n = AtomicU64::new(0);
        // The stack of a main thread.
        ctx.par_stack(g.len(), 8 << 20, |i| {
            let (name, f, quick, thorough) = g[i];
            let max = if q { quick } else { thorough };
            let mut k = 1;
            while k <= max && !ctx.stopped() {
                let mut files = Files::one(f(k));
                files.main = format!("g{k}");
                // The mark has to be short enough to be replayed.
                ctx.mark(files.json().to_string().as_bytes());
                judge(ctx, &format!("growth-{name}"), &files, How { renderers: 2, ..LIGHT }, &tot);
                n.fetch_add(1, Ordering::Relaxed);
                k = if k < 40 { k + 1 } else { k + k / 8 };
            }
        });
        n.into_inner()
    });

    part("imports", &|| par_explore(ctx, 0, |ch| judge(ctx, "imports", &sem::imports(ch), REPEAT, &tot)));
    part("names", &|| par_explore(ctx, 0, |ch| judge(ctx, "names", &sem::names(ch), How { repeat: 1, ..FULL }, &tot)));
    part("duplicates", &|| par_explore(ctx, 0, |ch| judge(ctx, "duplicates", &sem::duplicates(ch), How { repeat: 2, ..LIGHT }, &tot)));
    part("pairs", &|| par_explore(ctx, 0, |ch| judge(ctx, "pairs", &sem::pairs(ch, q), LIGHT, &tot)));
    if !q {
        part("pairs-full", &|| par_explore(ctx, 0, |ch| judge(ctx, "pairs-full", &sem::pairs(ch, true), FULL, &tot)));
    }

    for a in ALPHABETS {
        let full = if q { a.quick } else { a.thorough };
        for (i, pos) in POSITIONS.iter().enumerate() {
            let len = if i < 2 { full } else { full - 1 };
            let name = format!("docs-{}-{pos}", a.name);
            part(&name, &|| {
                par_strings(ctx, a.items.len(), len, |s| {
                    let text: String = s.iter().map(|i| a.items[*i]).collect();
                    judge(ctx, &format!("docs-{}", a.name), &docs::files(*pos, &text), LIGHT, &tot);
                })
            });
        }
    }

    for (i, start) in docs::BLOCK_STARTS.iter().enumerate() {
        part(&format!("docs-inside-{i}"), &|| {
            par_strings(ctx, docs::BLOCK_ITEMS.len(), if q { 4 } else { 5 }, |s| {
                let text: String = s.iter().map(|i| docs::BLOCK_ITEMS[*i]).collect();
                judge(ctx, &format!("docs-inside-{i}"), &docs::files('1', &format!("{start}{text}")), LIGHT, &tot);
            })
        });
    }

    for (i, (pre, post)) in CONTEXTS.iter().enumerate() {
        let len = if q { 3 } else { 4 };
        part(&format!("tokens-{i}"), &|| {
            par_strings(ctx, TOKENS.len(), if i == 0 { len } else { len.min(3) }, |s| {
                let t: Vec<_> = s.iter().map(|i| TOKENS[*i]).collect();
                judge(ctx, "tokens", &Files::one(format!("{pre}{}{post}", t.join(" "))), LIGHT, &tot);
            })
        });
        part(&format!("chars-{i}"), &|| {
            par_strings(ctx, CHARS.len(), if q { 4 } else { 5 }, |s| {
                let t: String = s.iter().map(|i| CHARS[*i]).collect();
                judge(ctx, "chars", &Files::one(format!("{pre}{t}{post}")), LIGHT, &tot);
            })
        });
    }

    for fam in FAMILIES {
        part(&format!("gram-{}", fam.name), &|| {
            par_explore(ctx, if q { fam.dev_quick.min(1) } else { fam.dev_thorough.min(2) }, |ch| {
                let mut w = W::new(ch);
                (fam.run)(&mut w, false);
                let files = others(Files::one(w.src));
                judge(ctx, &format!("gram-{}", fam.name), &files, LIGHT, &tot);
            })
        });
    }

    part("corpus", &|| {
        let all = corpus::all();
        let n = AtomicU64::new(0);
        for f in &all {
            judge(ctx, "corpus", &corpus::with_siblings(&all, f, f.src.clone()), FULL, &tot);
            n.fetch_add(1, Ordering::Relaxed);
        }
        ctx.unmark();
        let mut work = vec![];
        for (i, f) in all.iter().enumerate() {
            // The two big files would dominate; their middle is like the rest of them.
            let toks = lex(&f.src);
            for j in 0..=toks.len() {
                if toks.len() < 600 || !q || j % 8 == 0 {
                    work.push((i, j));
                }
            }
        }
        ctx.par(work.len(), |k| {
            let (i, j) = work[k];
            let f = &all[i];
            let toks = lex(&f.src);
            let go = |src: String| {
                judge(ctx, "corpus", &corpus::with_siblings(&all, f, src), LIGHT, &tot);
                n.fetch_add(1, Ordering::Relaxed);
            };
            let at = toks.get(j).map_or(f.src.len(), |t| t.0);
            go(f.src[..at].to_string());
            for t in TOKENS.iter().chain(CHARS) {
                go(format!("{}{t} {}", &f.src[..at], &f.src[at..]));
                if let Some(&(a, b)) = toks.get(j) {
                    go(format!("{}{t}{}", &f.src[..a], &f.src[b..]));
                }
            }
            if let Some(&(a, b)) = toks.get(j) {
                go(format!("{}{}", &f.src[..a], &f.src[b..]));
                go(format!("{}{} {}", &f.src[..b], &f.src[a..b], &f.src[b..]));
                if let Some(&(c, d)) = toks.get(j + 1) {
                    go(format!("{}{} {}{}", &f.src[..a], &f.src[c..d], &f.src[a..b], &f.src[d..]));
                }
                // Every character of the token (comments and docs are tokens) replaced or removed.
                for (o, c) in f.src[a..b].char_indices() {
                    let (x, y) = (a + o, a + o + c.len_utf8());
                    go(format!("{}{}", &f.src[..x], &f.src[y..]));
                    for r in ["\u{e9}", "\r", "\n", "[", "]", "`", "\""] {
                        go(format!("{}{r}{}", &f.src[..x], &f.src[y..]));
                    }
                }
            }
        });
        n.into_inner()
    });

    let t: Vec<u64> = tot.0.iter().map(|a| a.load(Ordering::Relaxed)).collect();
    ctx.add_transitions(t.iter().sum());
    ctx.extra("diagnostics_rendered", t[0]);
    ctx.extra("formatted", t[1]);
    ctx.extra("code_generated_for", t[2]);
    ctx.extra("parsed", t[3]);
    ctx.sample(json!({"docs": "/// [`\\r](S", "tokens": "struct S { required @ }", "corpus": "every single token/character edit of every schema file of the repository"}));
}
