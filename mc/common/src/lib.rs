//! Shared plumbing of the model-checking harnesses: command line, supervisor process,
//! violations, known findings, evidence, parallel enumeration, deterministic choice trees.

pub mod choice;
pub mod rng;

use serde_json::{json, Map, Value as Json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SLOTS: usize = 64;
const SLOT_SIZE: usize = 64 * 1024;
const HDR: usize = 16;

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub replay: Option<Json>,
    pub only: Option<String>,
    start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    stop: AtomicBool,
    inner: Mutex<Inner>,
    known: Vec<(String, String)>,
    slots: *mut u8,
    next_slot: AtomicUsize,
    root: PathBuf,
    pub threads: usize,
}

unsafe impl Sync for Ctx {}
unsafe impl Send for Ctx {}

#[derive(Default)]
struct Inner {
    violations: Vec<String>,
    violation_keys: HashSet<String>,
    num_violations: u64,
    known_hit: BTreeMap<String, (String, u64)>,
    samples: Vec<Json>,
    extra: Map<String, Json>,
    assumptions: Vec<String>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static SLOT: RefCell<Option<usize>> = const { RefCell::new(None) };
}

/// Runs `f`, turning a panic into `Err(message @ location)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

/// Takes the message of the last panic on this thread.
pub fn take_panic() -> Option<String> {
    PANIC_MSG.with(|m| m.borrow_mut().take())
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        // No line number: it would tie the identity of a finding to unrelated edits.
        let loc = info
            .location()
            .map(|l| l.file().to_string())
            .unwrap_or_default();
        if std::env::var_os("MC_PANIC").is_some() {
            eprintln!("panic: {info}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{msg} @ {loc}")));
    }));
}

impl Ctx {
    pub fn quick(&self) -> bool {
        !self.thorough
    }

    /// Whether a part of the check is to be run (`--only`).
    pub fn only(&self, part: &str) -> bool {
        self.only.as_deref().is_none_or(|o| o == part)
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed) || TIME_UP.load(Ordering::Relaxed)
    }

    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }

    pub fn add_states(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }

    pub fn add_transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }

    pub fn add_traces(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }

    /// Reports a violation. `key` identifies the failing input / history / call site; it is what
    /// the known-findings file refers to.
    /// Records another occurrence of a listed finding; false if there is no such finding.
    pub fn known_hit(&self, key: &str) -> bool {
        let Some((_, what)) = self.known.iter().find(|(k, _)| key_matches(k, key)) else {
            return false;
        };
        let mut inner = self.inner.lock().unwrap();
        inner.known_hit.entry(what.clone()).or_insert((key.to_string(), 0)).1 += 1;
        true
    }

    pub fn violation(&self, key: &str, desc: &str, replay: Json) {
        // Long operation sequences are cut in the middle.
        let chars: Vec<char> = desc.chars().collect();
        let cut: String;
        let desc = if chars.len() > 6000 {
            cut = chars[..3000].iter().chain(" [...] ".chars().collect::<Vec<_>>().iter()).chain(&chars[chars.len() - 3000..]).collect();
            cut.as_str()
        } else {
            desc
        };
        let mut inner = self.inner.lock().unwrap();
        if let Some((_, what)) = self.known.iter().find(|(k, _)| key_matches(k, key)) {
            let e = inner
                .known_hit
                .entry(what.clone())
                .or_insert((key.to_string(), 0));
            e.1 += 1;
            return;
        }
        inner.num_violations += 1;
        if inner.violations.len() < 8 && inner.violation_keys.insert(key.to_string()) {
            let n = inner.violations.len();
            let dir = self.root.join("replays").join(&self.prop);
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}{}-{n}.json", if merged().is_some() { "2" } else { "" }, if self.thorough { "t" } else { "q" }));
            let doc = json!({"property": self.prop, "key": key, "what": desc, "replay": replay});
            let _ = std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap());
            let line = format!(
                "VIOLATION property={} replay={}",
                self.prop,
                path.display()
            );
            println!("{line}");
            println!("  key: {key}");
            println!("  what: {}", desc.replace('\n', "\n        "));
            let _ = std::io::stdout().flush();
            inner.violations.push(line);
        }
        if inner.num_violations >= 40 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    pub fn num_violations(&self) -> u64 {
        self.inner.lock().unwrap().num_violations
    }

    pub fn sample(&self, v: Json) {
        let mut inner = self.inner.lock().unwrap();
        if inner.samples.len() < 8 {
            let s = v.to_string();
            if s.len() > 4000 {
                let mut cut = 4000;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                inner.samples.push(Json::String(s[..cut].to_string()));
            } else {
                inner.samples.push(v);
            }
        }
    }

    pub fn extra(&self, key: &str, v: impl Into<Json>) {
        self.inner.lock().unwrap().extra.insert(key.into(), v.into());
    }

    pub fn assume(&self, s: &str) {
        self.inner.lock().unwrap().assumptions.push(s.into());
    }

    /// Records what this thread is about to do, so that an abnormal end of the process or a hang
    /// can be attributed.
    pub fn mark(&self, data: &[u8]) {
        let idx = SLOT.with(|s| {
            let mut s = s.borrow_mut();
            *s.get_or_insert_with(|| self.next_slot.fetch_add(1, Ordering::Relaxed) % SLOTS)
        });
        unsafe {
            let p = self.slots.add(idx * SLOT_SIZE);
            let n = data.len().min(SLOT_SIZE - HDR);
            let ctr = p as *mut u64;
            ctr.write_volatile(ctr.read_volatile().wrapping_add(1));
            (p.add(8) as *mut u32).write_volatile(n as u32);
            (p.add(12) as *mut u32).write_volatile(1);
            std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(HDR), n);
        }
    }

    /// This thread is done with marked work.
    pub fn unmark(&self) {
        if let Some(idx) = SLOT.with(|s| s.borrow_mut().take()) {
            unsafe {
                let p = self.slots.add(idx * SLOT_SIZE);
                (p.add(12) as *mut u32).write_volatile(0);
            }
        }
    }

    /// Runs `f(i)` for `0..n` on all cores.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        self.par_stack(n, 16 << 20, f)
    }

    pub fn par_stack(&self, n: usize, stack: usize, f: impl Fn(usize) + Sync) {
        // The calling thread only waits from here on.
        self.unmark();
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for _ in 0..self.threads.min(n.max(1)) {
                let next = &next;
                let f = &f;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(stack)
                        .spawn_scoped(s, move || {
                            loop {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= n || self.stopped() {
                                    break;
                                }
                                if let Err(e) = catch(|| f(i)) {
                                    eprintln!("harness thread panicked: {e}");
                                    std::process::exit(if self.num_violations() > 0 { 1 } else { 3 });
                                }
                            }
                            self.unmark();
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                if h.join().is_err() {
                    std::process::exit(3);
                }
            }
        });
    }
}

/// A known-findings key may end with `*` only after a full "class:" part (kept narrow on purpose).
fn key_matches(pat: &str, key: &str) -> bool {
    match pat.strip_suffix('*') {
        Some(p) => key.starts_with(p),
        None => pat == key,
    }
}

pub fn root() -> PathBuf {
    std::env::var_os("MC_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

type Check = fn(&Ctx);

/// Set when the time that `run.sh` allows for a quick check is used up. Only a safety net for slow
/// machines: the evidence then says that the exploration is incomplete.
static TIME_UP: AtomicBool = AtomicBool::new(false);

fn watch_time() {
    let Some(end) = std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse::<u64>().ok()) else {
        return;
    };
    let now = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map_or(0, |d| d.as_secs());
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(end.saturating_sub(now)));
        TIME_UP.store(true, Ordering::Relaxed);
    });
}

/// Entry point of a harness binary: `<bin> <PROP> [--tier quick|thorough] [--replay FILE]`.
pub fn main(checks: &[(&str, Check)]) -> ! {
    let mut args = std::env::args().skip(1);
    let prop = args.next().unwrap_or_else(|| {
        eprintln!("usage: <prop> [--tier quick|thorough] [--replay file] [--only part]");
        std::process::exit(2)
    });
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut replay = None;
    let mut only = None;
    while let Some(a) = args.next() {
        match &*a {
            "--tier" => tier = args.next().unwrap(),
            "--replay" => replay = Some(args.next().unwrap()),
            "--only" => only = Some(args.next().unwrap()),
            _ => {
                eprintln!("unknown argument {a}");
                std::process::exit(2)
            }
        }
    }
    let Some((_, check)) = checks.iter().find(|(p, _)| *p == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    };
    let thorough = tier == "thorough";
    let root = root();
    let slots_path = root
        .join("replays")
        .join(format!("{prop}.slots.{}", std::process::id()));

    if let Some(p) = std::env::var_os("MC_WORKER") {
        worker(&prop, *check, thorough, replay, only, root, p.into());
    }

    let _ = std::fs::create_dir_all(root.join("replays"));
    std::fs::write(&slots_path, vec![0u8; SLOTS * SLOT_SIZE]).unwrap();
    let code = supervise(&prop, &slots_path, &root, thorough);
    let _ = std::fs::remove_file(&slots_path);
    std::process::exit(code)
}

fn map_slots(path: &std::path::Path) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .open(path)
        .unwrap();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SLOTS * SLOT_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

fn slot_state(slots: *mut u8, i: usize) -> (u64, bool, Vec<u8>) {
    unsafe {
        let p = slots.add(i * SLOT_SIZE);
        let c = (p as *const u64).read_volatile();
        let n = (p.add(8) as *const u32).read_volatile() as usize;
        let a = (p.add(12) as *const u32).read_volatile() != 0;
        let d = std::slice::from_raw_parts(p.add(HDR), n.min(SLOT_SIZE - HDR)).to_vec();
        (c, a, d)
    }
}

fn supervise(prop: &str, slots_path: &std::path::Path, root: &std::path::Path, thorough: bool) -> i32 {
    let hang = Duration::from_secs(
        std::env::var("MC_HANG_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 300 } else { 90 }),
    );
    let slots = map_slots(slots_path);
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(std::env::args().skip(1))
        .env("MC_WORKER", slots_path)
        .spawn()
        .unwrap();
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    let report = |what: &str, cases: Vec<(usize, Vec<u8>)>| {
        let dir = root.join("replays").join(prop);
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join("abnormal.json");
        let cases: Vec<Json> = cases
            .into_iter()
            .map(|(i, d)| {
                json!({"thread": i, "text": String::from_utf8_lossy(&d),
                   "hex": d.iter().take(4096).map(|b| format!("{b:02x}")).collect::<String>()})
            })
            .collect();
        let doc = json!({"property": prop, "key": what, "what": what, "in_progress": cases});
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap());
        println!("VIOLATION property={prop} replay={}", path.display());
        println!("  what: {what}");
    };
    let active = |slots| -> Vec<(usize, Vec<u8>)> {
        (0..SLOTS)
            .filter_map(|i| {
                let (_, a, d) = slot_state(slots, i);
                a.then_some((i, d))
            })
            .collect()
    };
    loop {
        match child.try_wait().unwrap() {
            Some(st) => {
                if let Some(code) = st.code() {
                    return code;
                }
                let sig = st.signal().unwrap_or(0);
                let act = active(slots);
                if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE]
                    .contains(&sig)
                    && !act.is_empty()
                {
                    report(
                        &format!("the process was ended by signal {sig} (stack exhaustion, abort or invalid memory access)"),
                        act,
                    );
                    return 1;
                }
                eprintln!("worker ended by signal {sig}");
                return 3;
            }
            None => {
                for (i, l) in last.iter_mut().enumerate() {
                    let (c, a, _) = slot_state(slots, i);
                    if !a || c != l.0 {
                        *l = (c, Instant::now());
                    } else if l.1.elapsed() > hang {
                        let (_, _, d) = slot_state(slots, i);
                        let _ = child.kill();
                        let _ = child.wait();
                        report("a single case did not finish (hang)", vec![(i, d)]);
                        return 1;
                    }
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
}

fn worker(
    prop: &str,
    check: Check,
    thorough: bool,
    replay: Option<String>,
    only: Option<String>,
    root: PathBuf,
    slots: PathBuf,
) -> ! {
    // Die with the supervisor.
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    install_hook();
    let replay = replay.map(|p| {
        let j: Json = serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap();
        j.get("replay").cloned().unwrap_or(j)
    });
    let known = std::fs::read(root.join("known_findings.json"))
        .ok()
        .and_then(|b| serde_json::from_slice::<Json>(&b).ok())
        .map(|j| {
            j["findings"]
                .as_array()
                .into_iter()
                .flatten()
                .filter(|f| f["property"] == prop)
                .map(|f| {
                    (
                        f["key"].as_str().unwrap().to_string(),
                        f["what"].as_str().unwrap().to_string(),
                    )
                })
                .collect::<Vec<_>>()
        })
        .unwrap_or_default();
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let ctx = Ctx {
        prop: prop.to_string(),
        thorough,
        seed,
        replay,
        only,
        start: Instant::now(),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        inner: Mutex::new(Inner::default()),
        known,
        slots: map_slots(&slots),
        next_slot: AtomicUsize::new(0),
        root: root.clone(),
        threads: std::env::var("MC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())),
    };
    if ctx.replay.is_none() && ctx.only.is_none() && merged().is_none() {
        let _ = std::fs::remove_dir_all(root.join("replays").join(prop));
    }
    watch_time();
    if let Err(e) = catch(|| check(&ctx)) {
        eprintln!("harness panicked: {e}");
        std::process::exit(if ctx.num_violations() > 0 { 1 } else { 3 });
    }
    let inner = ctx.inner.into_inner().unwrap();
    for (what, (key, n)) in &inner.known_hit {
        println!("KNOWN-FINDING: property={prop} {what} [{n} case(s), e.g. {key}]");
    }
    let mut cov = Map::new();
    cov.insert("states".into(), ctx.states.into_inner().into());
    cov.insert("transitions".into(), ctx.transitions.into_inner().into());
    cov.insert(
        "traces_validated_against_impl".into(),
        ctx.traces.into_inner().into(),
    );
    cov.insert("samples".into(), inner.samples.into());
    for (k, v) in inner.extra {
        cov.insert(k, v);
    }
    if TIME_UP.load(Ordering::Relaxed) {
        println!("{prop}: the time limit was reached, the exploration is incomplete");
        cov.insert("exploration incomplete: time limit reached".into(), true.into());
    }
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": inner.assumptions,
        "wall_s": ctx.start.elapsed().as_secs_f64(),
        "violations": inner.num_violations,
    });
    if ctx.replay.is_none() && ctx.only.is_none() {
        let _ = std::fs::create_dir_all(root.join("evidence"));
        let path = root.join("evidence").join(format!("{prop}.json"));
        let doc = match merged() {
            Some(part) => merge(&path, &part, ev.clone()),
            None => ev.clone(),
        };
        std::fs::write(path, serde_json::to_vec_pretty(&doc).unwrap()).unwrap();
    }
    println!(
        "{prop}: {} in {:.1}s; {} states, {} transitions, {} traces",
        if inner.num_violations == 0 { "ok" } else { "VIOLATED" },
        ev["wall_s"].as_f64().unwrap(),
        ev["coverage"]["states"],
        ev["coverage"]["transitions"],
        ev["coverage"]["traces_validated_against_impl"]
    );
    let _ = std::io::stdout().flush();
    std::process::exit(if inner.num_violations == 0 { 0 } else { 1 })
}

/// Set when this run adds to what another crate's run for the same property has recorded.
fn merged() -> Option<String> {
    std::env::var("MC_MERGE").ok().filter(|s| !s.is_empty())
}

/// Adds this run to the evidence of the one before.
fn merge(path: &std::path::Path, part: &str, ev: Json) -> Json {
    let Some(mut doc) = std::fs::read(path).ok().and_then(|d| serde_json::from_slice::<Json>(&d).ok()) else {
        return ev;
    };
    for k in ["states", "transitions", "traces_validated_against_impl"] {
        let n = doc["coverage"][k].as_u64().unwrap_or(0) + ev["coverage"][k].as_u64().unwrap_or(0);
        doc["coverage"][k] = n.into();
    }
    let mut cov = ev["coverage"].clone();
    if let Some(v) = cov["samples"].as_array_mut() {
        v.truncate(2);
    }
    // Keep the file small.
    let mut room = 60_000usize.saturating_sub(serde_json::to_vec_pretty(&doc).map_or(0, |d| d.len()));
    let mut left_out = 0;
    if let Some(o) = cov.as_object_mut() {
        o.retain(|k, v| {
            let n = serde_json::to_vec_pretty(v).map_or(0, |d| d.len() * 2) + k.len() + 20;
            let fits = n <= room || !v.is_object();
            if fits {
                room = room.saturating_sub(n);
            } else {
                left_out += 1;
            }
            fits
        });
        o.insert("further scenarios left out of this file".into(), left_out.into());
    }
    doc["coverage"][part] = cov;
    if let (Some(a), Some(b)) = (doc["assumptions"].as_array_mut(), ev["assumptions"].as_array()) {
        a.extend(b.iter().cloned());
    }
    doc["wall_s"] = (doc["wall_s"].as_f64().unwrap_or(0.0) + ev["wall_s"].as_f64().unwrap_or(0.0)).into();
    doc["violations"] = (doc["violations"].as_u64().unwrap_or(0) + ev["violations"].as_u64().unwrap_or(0)).into();
    doc
}

/// FNV-1a based 64 bit hash, stable across runs.
pub fn hash64(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in data {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0x9E3779B97F4A7C15);
    h ^ (h >> 29)
}

/// Sharded set of 64 bit fingerprints.
pub struct FpSet {
    shards: Vec<Mutex<HashSet<u64, BuildId>>>,
}

#[derive(Default, Clone)]
pub struct BuildId;
pub struct IdHasher(u64);
impl std::hash::BuildHasher for BuildId {
    type Hasher = IdHasher;
    fn build_hasher(&self) -> IdHasher {
        IdHasher(0)
    }
}
impl std::hash::Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}

impl Default for FpSet {
    fn default() -> Self {
        Self::new()
    }
}

impl FpSet {
    pub fn new() -> Self {
        Self {
            shards: (0..64).map(|_| Mutex::default()).collect(),
        }
    }

    /// Returns true if `fp` is new.
    pub fn insert(&self, fp: u64) -> bool {
        self.shards[(fp >> 58) as usize].lock().unwrap().insert(fp)
    }

    pub fn len(&self) -> usize {
        self.shards.iter().map(|s| s.lock().unwrap().len()).sum()
    }

    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
