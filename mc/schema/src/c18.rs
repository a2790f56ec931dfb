//! C18: formatting preserves the schema and its diagnostics, and is idempotent.

use crate::corpus;
use crate::dump;
use crate::gram::{FAMILIES, W};
use crate::util::{others, par_explore, Files};
use aldrin_parser::Formatter;
use mc_common::{catch, Ctx};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};

pub enum Verdict {
    Rejected,
    Fine,
    Bad(&'static str, String),
}

/// Independent lexer: the texts of comments and docs, and all words and literals, as a multiset.
/// Imports and the optional `ok` keyword are left out.
fn lexemes(src: &str) -> BTreeMap<String, usize> {
    let mut out = BTreeMap::new();
    let mut toks = vec![];
    for t in lex(src) {
        let t = &src[t.0..t.1];
        if t.starts_with("//") {
            let n = if t.starts_with("///") || t.starts_with("//!") { 3 } else { 2 };
            let i = t[n..].trim_end();
            toks.push(format!("{} {}", &t[..n], i.strip_prefix(' ').unwrap_or(i)));
        } else if t.starts_with('"') || t.chars().next().is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '-') && t != "->" {
            toks.push(t.to_string());
        }
    }
    let mut i = 0;
    while i < toks.len() {
        if toks[i] == "import" {
            i += 2;
            continue;
        }
        if toks[i] != "ok" {
            *out.entry(toks[i].clone()).or_insert(0) += 1;
        }
        i += 1;
    }
    out
}

/// Token boundaries of an arbitrary text.
pub fn lex(s: &str) -> Vec<(usize, usize)> {
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let at = |i: usize| b.get(i).map(|c| c.1);
    let pos = |i: usize| b.get(i).map_or(s.len(), |c| c.0);
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i].1;
        let st = i;
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c == '/' && at(i + 1) == Some('/') {
            while i < b.len() && b[i].1 != '\n' {
                i += 1;
            }
        } else if c == '"' {
            i += 1;
            while i < b.len() && b[i].1 != '"' && b[i].1 != '\n' {
                i += if b[i].1 == '\\' { 2 } else { 1 };
            }
            i = (i + 1).min(b.len());
        } else if c.is_alphanumeric() || c == '_' || (c == '-' && at(i + 1).is_some_and(|c| c.is_ascii_digit())) {
            i += 1;
            while at(i).is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '-') {
                if at(i) == Some('-') && at(i + 1) == Some('>') {
                    break;
                }
                i += 1;
            }
        } else if (c == '-' && at(i + 1) == Some('>')) || (c == ':' && at(i + 1) == Some(':')) {
            i += 2;
        } else {
            i += 1;
        }
        out.push((pos(st), pos(i.min(b.len()))));
    }
    out
}

pub fn judge(files: &Files, exp: Option<&str>, lexed: bool) -> Verdict {
    let r = catch(|| {
        let p1 = files.parse();
        let out1 = match Formatter::new(&p1) {
            Ok(f) => f.to_string(),
            Err(_) => return Verdict::Rejected,
        };
        let d1 = dump::schema(p1.main_schema());
        let mut files2 = files.clone();
        files2.src = Some(out1.clone());
        let p2 = files2.parse();
        let out2 = match Formatter::new(&p2) {
            Ok(f) => f.to_string(),
            Err(_) => return Verdict::Bad("unparsable", format!("the formatted text does not parse:\n{out1}")),
        };
        let d2 = dump::schema(p2.main_schema());
        if d1 != d2 {
            return Verdict::Bad("changed", format!("formatting changes the schema: {}\nformatted:\n{out1}", diff(&d1, &d2)));
        }
        if let Some(exp) = exp {
            if exp != d2 {
                return Verdict::Bad(
                    "lost",
                    format!("the formatted text is not the schema that was written: {}\nformatted:\n{out1}", diff(exp, &d2)),
                );
            }
        }
        if lexed {
            let (a, b) = (lexemes(files.src.as_ref().unwrap()), lexemes(&out1));
            if a != b {
                let d: Vec<_> = a.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|x| x.0).collect();
                let e: Vec<_> = b.iter().filter(|(k, v)| a.get(*k) != Some(v)).map(|x| x.0).collect();
                return Verdict::Bad("lexemes", format!("the formatted text differs in {d:?} / {e:?}:\n{out1}"));
            }
        }
        let (i1, i2) = (dump::issues(&p1), dump::issues(&p2));
        if i1 != i2 {
            let a: Vec<_> = i1.difference(&i2).collect();
            let b: Vec<_> = i2.difference(&i1).collect();
            return Verdict::Bad("issues", format!("only before: {a:?}; only after: {b:?}; formatted:\n{out1}"));
        }
        if out1 != out2 {
            return Verdict::Bad("idempotence", format!("formatting again changes the text: {}\nfirst:\n{out1}\nsecond:\n{out2}", diff(&out1, &out2)));
        }
        Verdict::Fine
    });
    match r {
        Ok(v) => v,
        Err(e) => Verdict::Bad("panic", e),
    }
}

fn diff(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {i}: {x:?} became {y:?}");
        }
    }
    format!("{} lines became {}", a.lines().count(), b.lines().count())
}

fn report(ctx: &Ctx, what: &str, files: &Files, exp: Option<&str>, v: Verdict) {
    if let Verdict::Bad(class, d) = v {
        ctx.violation(
            &format!("C18/{what}/{class}"),
            &format!("{d}\nsource: {:?}", files.src.as_deref().unwrap_or("")),
            json!({"files": files.json(), "exp": exp}),
        );
    }
}

pub fn run(ctx: &Ctx) {
    if let Some(r) = &ctx.replay {
        let files = Files::from_json(&r["files"]);
        let exp = r["exp"].as_str();
        files.mark(ctx);
        let v = judge(&files, exp, exp.is_none());
        report(ctx, "replay", &files, exp, v);
        ctx.unmark();
        return;
    }
    let rejected = AtomicU64::new(0);
    let weird = AtomicU64::new(0);
    let fine = AtomicU64::new(0);
    for fam in FAMILIES {
        if !ctx.only(fam.name) || ctx.stopped() {
            continue;
        }
        let t = ctx.elapsed();
        let dev = if ctx.quick() { fam.dev_quick } else { fam.dev_thorough };
        let rej0 = rejected.load(Ordering::Relaxed);
        let n = par_explore(ctx, dev, |ch| {
            let mut w = W::new(ch);
            (fam.run)(&mut w, !ctx.quick());
            let (src, exp, odd) = (w.src, w.exp, w.weird);
            let files = others(Files::one(src));
            files.mark(ctx);
            let v = judge(&files, Some(&exp), false);
            match v {
                Verdict::Rejected if odd => weird.fetch_add(1, Ordering::Relaxed),
                Verdict::Rejected => {
                    if std::env::var_os("MC_REJ").is_some() {
                        println!("rejected: {:?}", files.src);
                    }
                    rejected.fetch_add(1, Ordering::Relaxed)
                }
                Verdict::Fine => fine.fetch_add(1, Ordering::Relaxed),
                Verdict::Bad(..) => 0,
            };
            report(ctx, fam.name, &files, Some(&exp), v);
        });
        ctx.add_states(n);
        ctx.add_transitions(n * 4);
        let rej = rejected.load(Ordering::Relaxed) - rej0;
        ctx.extra(fam.name, json!({"schemas": n, "deviations": dev, "rejected_by_parser": rej}));
        if std::env::var_os("MC_TIME").is_some() {
            println!("{}: {n} schemas, {rej} rejected, {:?}", fam.name, ctx.elapsed() - t);
        }
    }
    if ctx.only("corpus") {
        let all = corpus::all();
        let n = AtomicU64::new(0);
        let acc = AtomicU64::new(0);
        // (file, token index) pairs.
        let mut work = vec![];
        for (i, f) in all.iter().enumerate() {
            let toks = lex(&f.src);
            for j in 0..=toks.len() {
                work.push((i, j));
            }
        }
        ctx.par(work.len(), |k| {
            let (i, j) = work[k];
            let f = &all[i];
            let toks = lex(&f.src);
            for src in edits(&f.src, &toks, j) {
                let files = corpus::with_siblings(&all, f, src);
                files.mark(ctx);
                let v = judge(&files, None, true);
                n.fetch_add(1, Ordering::Relaxed);
                if !matches!(v, Verdict::Rejected) {
                    acc.fetch_add(1, Ordering::Relaxed);
                }
                report(ctx, "corpus", &files, None, v);
            }
        });
        let n = n.into_inner();
        ctx.add_states(n);
        ctx.add_transitions(n * 4);
        ctx.extra("corpus", json!({"files": all.len(), "edits": n, "syntactically_valid": acc.into_inner()}));
    }
    ctx.extra("schemas_fine", fine.into_inner());
    ctx.extra("odd_names_rejected", weird.into_inner());
    ctx.assume("Layouts: every gap of a schema is the family's uniform layout except for at most the stated number of deviations (white space, extra comments/docs/attributes, odd names and literals).");
    ctx.sample(json!({"example": "every choice sequence of a grammar-directed writer; text -> parse -> format -> parse -> format, compared with the written schema"}));
}

/// The text itself (once per file) and every single edit at token `j`: white space and prelude
/// lines put in front of it, the token removed, doubled or swapped with the next one.
fn edits(src: &str, toks: &[(usize, usize)], j: usize) -> Vec<String> {
    let mut out = vec![];
    let at = toks.get(j).map_or(src.len(), |t| t.0);
    if j == 0 {
        out.push(src.to_string());
        out.push(src.replace('\n', "\r\n"));
    }
    for ins in ["\n\n", " ", "\t", "\n// X\n", "\n/// X\n", "\n//! X\n", "\n#[x]\n", "\n#![x]\n", "\n// X\n\n// Y\r\n", "//\n", "///\n", "required ", "\n// X\n/// Y\n#[z]\n"] {
        out.push(format!("{}{ins}{}", &src[..at], &src[at..]));
    }
    if let Some(&(a, b)) = toks.get(j) {
        out.push(format!("{}{}", &src[..a], &src[b..]));
        out.push(format!("{}{} {}", &src[..b], &src[a..b], &src[b..]));
        if let Some(&(c, d)) = toks.get(j + 1) {
            out.push(format!("{}{} {}{}", &src[..a], &src[c..d], &src[a..b], &src[d..]));
            if src[b..c].chars().all(|c| c.is_whitespace()) {
                out.push(format!("{}{}", &src[..b], &src[c..]));
                out.push(format!("{}\n{}", &src[..b], &src[c..]));
            }
        }
    }
    out
}
