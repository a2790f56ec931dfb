//! Stage 1: generates the code of every unit and compiles it with the artifacts cargo made for
//! this very crate. Errors of the compiler are attributed to units by file; units that fail are
//! taken out (and reported) and the rest is compiled again.

use crate::glue;
use crate::units::{self, Unit};
use aldrin_codegen::{Generator, Options, RustOptions};
use aldrin_parser::{MemoryResolver, Parser};
use serde_json::{json, Value as Json};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn dir() -> PathBuf {
    root().join("target/gen-corpus")
}

pub fn thorough_args() -> bool {
    let a: Vec<String> = std::env::args().collect();
    a.windows(2).any(|w| w[0] == "--tier" && w[1] == "thorough")
}

/// What one unit's code is.
pub enum Generated {
    Rejected(String),
    Panic(String),
    Code(Vec<(String, String)>),
}

pub fn sources(u: &Unit) -> Vec<(String, String)> {
    match &u.text {
        Some(t) => t.clone(),
        None => u.world.0.iter().map(|s| (s.name.clone(), s.src())).collect(),
    }
}

pub fn generate(u: &Unit) -> Generated {
    if let Some(st) = u.hand {
        return Generated::Code(crate::hand::render(&u.world, st));
    }
    let src = sources(u);
    let mut out = vec![];
    for (i, (name, text)) in src.iter().enumerate() {
        let r = std::panic::catch_unwind(|| {
            let mut r = MemoryResolver::new(name, Ok(text.clone()));
            for (j, (n, t)) in src.iter().enumerate() {
                if j != i {
                    r.add(n, Ok(t.clone()));
                }
            }
            let p = Parser::parse(r);
            if !p.errors().is_empty() {
                return Err(p.errors().iter().map(|e| format!("{e:?}").chars().take(200).collect::<String>()).collect::<Vec<_>>().join("; "));
            }
            let mut o = Options::new();
            o.client = u.opts.client;
            o.server = u.opts.server;
            o.introspection = u.opts.introspection;
            let mut ro = RustOptions::new();
            ro.introspection_if = u.opts.intro_if;
            ro.krate = u.opts.krate.then_some("::mc_gen_rt::aldrin");
            match Generator::new(&o, &p).rust(&ro) {
                Ok(r) => Ok(Ok(r.module_content)),
                Err(e) => Ok(Err(format!("{e:?}"))),
            }
        });
        match r {
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                return Generated::Panic(m.unwrap_or_default());
            }
            Ok(Err(e)) => return Generated::Rejected(e),
            Ok(Ok(Err(e))) => return Generated::Panic(e),
            Ok(Ok(Ok(c))) => out.push((name.clone(), c)),
        }
    }
    Generated::Code(out)
}

struct Artifacts {
    deps: PathBuf,
    aldrin: PathBuf,
    rt: PathBuf,
    gen: PathBuf,
    core: PathBuf,
    stamp: String,
}

fn artifacts() -> Artifacts {
    let out = Command::new("cargo")
        .args(["build", "--release", "--offline", "--lib", "--message-format=json"])
        .current_dir(root().join("mc/gen"))
        .output()
        .expect("cargo");
    assert!(out.status.success(), "harness: cargo failed");
    let mut m: BTreeMap<String, PathBuf> = BTreeMap::new();
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(j) = serde_json::from_str::<Json>(l) else { continue };
        if j["reason"] == "compiler-artifact" {
            for f in j["filenames"].as_array().unwrap() {
                let f = f.as_str().unwrap();
                if f.ends_with(".rlib") {
                    m.insert(j["target"]["name"].as_str().unwrap().replace('-', "_"), f.into());
                }
            }
        }
    }
    let get = |n: &str| m.get(n).unwrap_or_else(|| panic!("harness: no {n}")).clone();
    let (aldrin, rt, gen, core) = (get("aldrin"), get("mc_gen_rt"), get("mc_gen"), get("aldrin_core"));
    // Everything the code is compiled against.
    let mut stamp = String::new();
    for p in m.values() {
        let md = fs::metadata(p).unwrap();
        if p == &gen {
            continue;
        }
        stamp += &format!("{p:?} {} {:?};", md.len(), md.modified().unwrap());
    }
    Artifacts { deps: root().join("target/release/deps"), aldrin, rt, gen, core, stamp }
}

fn write(p: &Path, s: &str) {
    if fs::read_to_string(p).is_ok_and(|o| o == s) {
        return;
    }
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, s).unwrap();
}

struct Chunk {
    name: String,
    units: Vec<usize>,
    glue: bool,
    krate: bool,
}

struct Compiled {
    failed: Vec<(usize, String)>,
    /// There is a library.
    done: bool,
}

fn base_args(a: &Artifacts, krate: bool) -> Vec<String> {
    let mut v: Vec<String> = ["--edition", "2021", "--cap-lints", "allow", "-C", "opt-level=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    v.extend(["-L".into(), format!("dependency={}", a.deps.display())]);
    v.extend(["--extern".into(), format!("mc_gen_rt={}", a.rt.display())]);
    if !krate {
        v.extend(["--extern".into(), format!("aldrin={}", a.aldrin.display())]);
        v.extend(["--extern".into(), format!("aldrin_core={}", a.core.display())]);
    }
    v.extend(["--cfg".into(), "feature=\"present\"".into()]);
    v
}

/// Compiles the units of a chunk, taking out those that fail.
fn compile(a: &Artifacts, c: &Chunk, units: &[Unit], code: &BTreeMap<usize, Vec<(String, String)>>) -> Compiled {
    let d = dir().join(&c.name);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    a.stamp.hash(&mut h);
    c.glue.hash(&mut h);
    for u in &c.units {
        units[*u].name.hash(&mut h);
        code[u].hash(&mut h);
        glue::module(&units[*u], &[]).hash(&mut h);
    }
    let fp = format!("{:016x}", h.finish());
    let rec = dir().join(format!("{}.json", c.name));
    let lib = dir().join(format!("lib{}.rlib", c.name));
    if let Some(j) = fs::read_to_string(&rec).ok().and_then(|s| serde_json::from_str::<Json>(&s).ok()) {
        if j["fp"] == fp.as_str() && (!c.glue || lib.exists()) {
            let failed = j["failed"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| (c.units[x[0].as_u64().unwrap() as usize], x[1].as_str().unwrap().to_string()))
                .collect();
            return Compiled { failed, done: true };
        }
    }
    let mut live: Vec<usize> = c.units.clone();
    let mut failed: Vec<(usize, String)> = vec![];
    for u in &live {
        let x = &units[*u];
        let mods: Vec<String> = code[u].iter().map(|c| c.0.clone()).collect();
        let ud = d.join(format!("u_{}", x.name));
        for (n, t) in &code[u] {
            write(&ud.join(format!("s_{n}.rs")), t);
        }
        write(&ud.join("mod.rs"), &glue::module(x, &mods));
    }
    for _round in 0..12 {
        let mut main = String::from("#![allow(warnings)]\n");
        for u in &live {
            main += &format!("pub mod u_{};\n", units[*u].name);
        }
        if c.glue {
            main += "pub fn entries(e: &mut ::mc_gen_rt::Entries) {\n";
            for u in &live {
                if units[*u].glue {
                    main += &format!("    u_{}::entries(e);\n", units[*u].name);
                }
            }
            main += "}\n";
        }
        write(&d.join("lib.rs"), &main);
        let mut cmd = Command::new("rustc");
        cmd.args(base_args(a, c.krate)).args(["--crate-name", &c.name, "--crate-type", "rlib", "--error-format=json"]);
        if c.glue {
            cmd.args(["-o", lib.to_str().unwrap()]);
        } else {
            cmd.args(["--emit=metadata", "-o", dir().join(format!("lib{}.rmeta", c.name)).to_str().unwrap()]);
        }
        cmd.arg(d.join("lib.rs"));
        let out = cmd.output().expect("rustc");
        if out.status.success() {
            let f: Vec<Json> = failed.iter().map(|(u, m)| json!([c.units.iter().position(|x| x == u).unwrap(), m])).collect();
            fs::write(&rec, json!({"fp": fp, "failed": f}).to_string()).unwrap();
            return Compiled { failed, done: true };
        }
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        let err = String::from_utf8_lossy(&out.stderr);
        for l in err.lines() {
            let Ok(j) = serde_json::from_str::<Json>(l) else { continue };
            if j["level"] != "error" {
                continue;
            }
            let msg = j["message"].as_str().unwrap_or("");
            // The outermost place of each span.
            for s in j["spans"].as_array().into_iter().flatten() {
                if !s["is_primary"].as_bool().unwrap_or(false) {
                    continue;
                }
                let mut s = s;
                loop {
                    let f = s["file_name"].as_str().unwrap_or("");
                    if let Some(u) = live.iter().find(|u| f.contains(&format!("/u_{}/", units[**u].name))) {
                        bad.entry(*u).or_insert_with(|| {
                            let src = s["text"][0]["text"].as_str().unwrap_or("").trim().to_string();
                            format!("{msg} (line {}: {})", s["line_start"], src.chars().take(120).collect::<String>())
                        });
                        break;
                    }
                    if s["expansion"].is_null() {
                        break;
                    }
                    s = &s["expansion"]["span"];
                }
            }
        }
        if bad.is_empty() {
            eprintln!("{}", err.chars().take(3000).collect::<String>());
            eprintln!("compiling {} failed", c.name);
            std::process::exit(3);
        }
        live.retain(|u| !bad.contains_key(u));
        if live.is_empty() && c.units.len() == 1 {
            failed.extend(bad);
            let f: Vec<Json> = failed.iter().map(|(_, m)| json!([0, m])).collect();
            fs::write(&rec, json!({"fp": fp, "failed": f}).to_string()).unwrap();
            return Compiled { failed, done: true };
        }
        failed.extend(bad);
        if failed.len() > 40 {
            // Something is broken for good.
            failed.truncate(10);
            return Compiled { failed, done: false };
        }
    }
    eprintln!("compiling {} does not converge", c.name);
    std::process::exit(3);
}

fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..std::thread::available_parallelism().map_or(8, |n| n.get()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                f(i);
            });
        }
    });
}

/// Generates and compiles everything; the path of the program that runs the checks.
pub fn prepare(thorough: bool) -> PathBuf {
    let t0 = std::time::Instant::now();
    let all = units::all(thorough);
    {
        for (i, u) in all.iter().enumerate() {
            assert!(all[..i].iter().all(|x| x.name != u.name), "harness: unit {}", u.name);
        }
    }
    fs::create_dir_all(dir()).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let code = Mutex::new(BTreeMap::new());
    let bad = Mutex::new(vec![]);
    par(all.len(), |i| match generate(&all[i]) {
        Generated::Code(c) => {
            code.lock().unwrap().insert(i, c);
        }
        Generated::Panic(m) => bad.lock().unwrap().push((i, "generate", m)),
        Generated::Rejected(m) => bad.lock().unwrap().push((i, "rejected", m)),
    });
    let _ = std::panic::take_hook();
    let code = code.into_inner().unwrap();
    let a = artifacts();
    let t1 = t0.elapsed().as_secs_f64();

    // Known to fail: on their own, so that the others need no further rounds.
    let known: BTreeSet<String> = fs::read_to_string(root().join("known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str::<Json>(&s).ok())
        .map(|j| j["findings"].as_array().into_iter().flatten().filter_map(|f| f["key"].as_str().map(|s| s.to_string())).collect())
        .unwrap_or_default();
    let alone = |u: &Unit| known.contains(&format!("C16/compile/{}", u.name));
    let mut chunks: Vec<Chunk> = vec![];
    let mut split = |name: &str, glue: bool, krate: bool, sel: &dyn Fn(&Unit) -> bool, n: usize| {
        let idx: Vec<usize> = code.keys().copied().filter(|i| sel(&all[*i])).collect();
        if idx.is_empty() {
            return;
        }
        let n = n.min(idx.len());
        // By size, largest first, each to the emptiest chunk.
        let size = |i: &usize| code[i].iter().map(|c| c.1.len()).sum::<usize>();
        let mut order = idx;
        order.sort_by_key(|i| std::cmp::Reverse(size(i)));
        let mut l = vec![0; n];
        let mut parts: Vec<Vec<usize>> = vec![vec![]; n];
        for i in order {
            let k = (0..n).min_by_key(|k| l[*k]).unwrap();
            l[k] += size(&i);
            parts[k].push(i);
        }
        for (k, p) in parts.into_iter().enumerate() {
            chunks.push(Chunk { name: format!("{name}{k}"), units: p, glue, krate });
        }
    };
    split("v", true, false, &|u| u.glue && !alone(u), 16);
    split("k", false, true, &|u| !u.glue && u.opts.krate && !alone(u), 1);
    split("p", false, false, &|u| !u.glue && !u.odd && !u.opts.krate && !alone(u), 8);
    split("o", false, false, &|u| !u.glue && u.odd && !u.opts.krate && !alone(u), 8);
    split("x", false, false, &|u| alone(u), usize::MAX);
    let failed = Mutex::new(vec![]);
    let again = Mutex::new(vec![]);
    let missing = Mutex::new(vec![]);
    par(chunks.len(), |i| {
        let c = compile(&a, &chunks[i], &all, &code);
        if !c.done {
            missing.lock().unwrap().push(chunks[i].name.clone());
        }
        if chunks[i].units.len() == 1 {
            failed.lock().unwrap().extend(c.failed);
        } else {
            again.lock().unwrap().extend(c.failed.into_iter().map(|f| (f.0, chunks[i].krate)));
        }
    });
    // What fails among others has to fail on its own: one broken unit can confuse the compiler
    // about the next.
    let again = again.into_inner().unwrap();
    par(again.len(), |i| {
        let (u, krate) = again[i];
        let c = Chunk { name: format!("y_{}", all[u].name), units: vec![u], glue: false, krate };
        failed.lock().unwrap().extend(compile(&a, &c, &all, &code).failed);
    });
    let mut failed: Vec<(usize, &str, String)> = failed.into_inner().unwrap().into_iter().map(|(u, m)| (u, "compile", m)).collect();
    failed.extend(bad.into_inner().unwrap());
    failed.sort();
    let t2 = t0.elapsed().as_secs_f64();

    // The program.
    let d = dir();
    let missing = missing.into_inner().unwrap();
    let vs: Vec<&str> = chunks.iter().filter(|c| c.glue && !missing.contains(&c.name)).map(|c| &*c.name).collect();
    let mut m = String::from("fn main() {\n    let mut e = ::mc_gen_rt::Entries::default();\n");
    for v in &vs {
        m += &format!("    {v}::entries(&mut e);\n");
    }
    m += "    ::mc_gen::stage2(e);\n}\n";
    write(&d.join("main.rs"), &m);
    let exe = d.join("corpus");
    let mut stamp = format!("{} {:?}", a.stamp, fs::metadata(&a.gen).unwrap().modified().unwrap());
    for v in &vs {
        stamp += &format!("{:?}", fs::metadata(d.join(format!("lib{v}.rlib"))).unwrap().modified().unwrap());
    }
    let sf = d.join("corpus.stamp");
    if !exe.exists() || fs::read_to_string(&sf).ok().as_deref() != Some(&stamp) {
        let mut cmd = Command::new("rustc");
        cmd.args(base_args(&a, false)).args(["--crate-name", "corpus", "--crate-type", "bin", "-o", exe.to_str().unwrap()]);
        cmd.args(["-L", d.to_str().unwrap(), "--extern", &format!("mc_gen={}", a.gen.display())]);
        for v in &vs {
            cmd.args(["--extern", &format!("{v}={}", d.join(format!("lib{v}.rlib")).display())]);
        }
        cmd.arg(d.join("main.rs"));
        let out = cmd.output().expect("rustc");
        if !out.status.success() {
            eprintln!("{}", String::from_utf8_lossy(&out.stderr).chars().take(3000).collect::<String>());
            std::process::exit(3);
        }
        fs::write(&sf, stamp).unwrap();
    }
    let f: Vec<Json> = failed.iter().map(|(u, p, m)| json!({"unit": all[*u].name, "phase": p, "message": m, "schemas": sources(&all[*u])})).collect();
    let j = json!({
        "thorough": thorough,
        "units": all.len(),
        "failed": f,
        "chunks_without_code": missing,
        "seconds": {"generate": t1, "compile": t2, "all": t0.elapsed().as_secs_f64()},
    });
    fs::write(d.join("build.json"), j.to_string()).unwrap();
    exe
}
