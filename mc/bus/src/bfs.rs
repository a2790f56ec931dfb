//! Exhaustive exploration of operation histories against the real broker, breadth first, with
//! states identified by (model state, implementation state).

use crate::model::*;
use crate::snap;
use crate::sys::*;
use aldrin_core::message::MessageKind;
use mc_common::{hash64, Ctx, FpSet};
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub type Alphabet<'a> = &'a (dyn Fn(&Model) -> Vec<Op> + Sync);

pub struct Cfg<'a> {
    pub name: String,
    pub versions: Vec<u32>,
    pub prelude: Vec<Op>,
    pub alphabet: Alphabet<'a>,
    pub depth: usize,
    /// Do not expand further once this many states are known.
    pub max_states: usize,
    pub judge: &'a (dyn Fn(&Mismatch) -> bool + Sync),
    /// Called on the system of every new state (which is thrown away afterwards).
    pub probe: Option<&'a (dyn Fn(&mut Sys, u64) -> Result<(), Mismatch> + Sync)>,
    /// Check the statistics and state in every state.
    pub stats: bool,
    /// The broker may ignore or close this connection whatever it sends.
    pub lenient: Option<ConnIx>,
    /// Identity of a mismatch that does not depend on the scenario.
    pub finding: Option<&'a (dyn Fn(&Mismatch, &Op) -> Option<String> + Sync)>,
}

pub fn judge_all(_: &Mismatch) -> bool {
    true
}

/// Things no property tolerates.
pub fn fatal(m: &Mismatch) -> bool {
    matches!(m.class, "panic" | "hang")
}

pub fn kinds(m: &Mismatch, k: &[MessageKind]) -> bool {
    m.kind.is_some_and(|x| k.contains(&x))
}

fn describe(ops: &[Op]) -> Vec<String> {
    ops.iter().map(|o| format!("{o:?}")).collect()
}

/// Replays a history; returns the system.
fn build<'a>(cfg: &Cfg<'a>, ops: &[Op]) -> Result<Sys<'a>, Mismatch> {
    let mut sys = Sys::new(&cfg.versions, Some(cfg.judge));
    for o in ops {
        sys.step(o, &mut None)?;
    }
    sys.lenient = cfg.lenient;
    Ok(sys)
}

pub fn report(ctx: &Ctx, cfg: &Cfg, ops: &[Op], m: &Mismatch, tail: &str) {
    let kind = m.kind.map(|k| format!("{k:?}")).unwrap_or_default();
    let key = format!("{}/{}/{}/{}", ctx.prop, cfg.name, m.class, kind);
    report_keyed(ctx, cfg, ops, m, tail, &key)
}

fn report_keyed(ctx: &Ctx, cfg: &Cfg, ops: &[Op], m: &Mismatch, tail: &str, key: &str) {
    if ctx.known_hit(key) {
        return;
    }
    // Produce a readable transcript by running once more.
    let mut log = Some(String::new());
    let mut sys = Sys::new(&cfg.versions, Some(cfg.judge));
    for o in ops {
        if sys.step(o, &mut log).is_err() {
            break;
        }
    }
    ctx.violation(
        key,
        &format!("{}{}", m.what, if tail.is_empty() { String::new() } else { format!(" [{tail}]") }),
        json!({
            "scenario": cfg.name,
            "versions": cfg.versions,
            "history": describe(ops),
            "transcript": log.unwrap_or_default().lines().map(|l| l.chars().take(400).collect::<String>()).collect::<Vec<_>>(),
            "class": m.class,
        }),
    );
}

pub struct Outcome {
    pub states: u64,
    pub transitions: u64,
    pub depth: usize,
    pub complete: bool,
}

pub fn explore(ctx: &Ctx, cfg: &Cfg) -> Outcome {
    // For calibration only.
    let max_depth = cfg.depth
        + std::env::var("MC_DEPTH_ADD").ok().and_then(|v| v.parse::<usize>().ok()).unwrap_or(0);
    let t0 = ctx.elapsed();
    let seen = FpSet::new();
    let transitions = AtomicU64::new(0);
    let pruned = AtomicU64::new(0);
    let probes = AtomicU64::new(0);
    let tolerated = AtomicU64::new(0);

    // Initial state.
    let init = match build(cfg, &cfg.prelude) {
        Ok(mut s) => {
            let snap = s.stats().ok().and_then(|s| s.1);
            seen.insert(hash64(s.key(snap.as_ref()).as_bytes()));
            s.model
        }
        Err(m) => {
            if fatal(&m) || (cfg.judge)(&m) {
                report(ctx, cfg, &cfg.prelude, &m, "prelude");
            }
            return Outcome {
                states: 0,
                transitions: 0,
                depth: 0,
                complete: true,
            };
        }
    };
    let mut frontier: Vec<(Vec<Op>, Model)> = vec![(Vec::new(), init)];
    let mut depth = 0;
    let mut complete = true;
    while !frontier.is_empty() && depth < max_depth && !ctx.stopped() {
        depth += 1;
        let next: Mutex<Vec<(Vec<Op>, Model)>> = Mutex::new(Vec::new());
        // Few states are split up further.
        let jobs: Vec<(usize, Option<Op>)> = if frontier.len() < 64 {
            frontier
                .iter()
                .enumerate()
                .flat_map(|(i, f)| (cfg.alphabet)(&f.1).into_iter().map(move |o| (i, Some(o))))
                .collect()
        } else {
            (0..frontier.len()).map(|i| (i, None)).collect()
        };
        ctx.par(jobs.len(), |j| {
            let (hist, model) = &frontier[jobs[j].0];
            let mut found = Vec::new();
            let ops = match &jobs[j].1 {
                Some(o) => vec![o.clone()],
                None => (cfg.alphabet)(model),
            };
            for op in ops {
                if ctx.stopped() {
                    break;
                }
                let mut ops = cfg.prelude.clone();
                ops.extend(hist.iter().cloned());
                ctx.mark(format!("{}: {:?} then {op:?}", cfg.name, hist).as_bytes());
                // Hash keys and ids are a function of the history.
                mc_common::rng::reset(0x5eed ^ hist.len() as u64);
                let mut sys = match build(cfg, &ops) {
                    Ok(s) => s,
                    Err(m) => {
                        // The same history passed before; only nondeterminism of the
                        // implementation can lead here.
                        if fatal(&m) || (cfg.judge)(&m) {
                            report(ctx, cfg, &ops, &m, "on replay");
                        }
                        continue;
                    }
                };
                transitions.fetch_add(1, Ordering::Relaxed);
                ops.push(op.clone());
                sys.wire.clear();
                let before = sys.tolerated;
                let res = sys.step(&op, &mut None);
                tolerated.fetch_add(sys.tolerated - before, Ordering::Relaxed);
                if ctx.prop == "C12" {
                    if let Some(m) = sys.wire.first() {
                        report(ctx, cfg, &ops, m, "");
                        continue;
                    }
                }
                if let Err(m) = res {
                    if fatal(&m) || (cfg.judge)(&m) {
                        match cfg.finding.and_then(|f| f(&m, &op)) {
                            Some(key) => report_keyed(ctx, cfg, &ops, &m, "", &key),
                            None => report(ctx, cfg, &ops, &m, ""),
                        }
                    } else {
                        pruned.fetch_add(1, Ordering::Relaxed);
                    }
                    continue;
                }
                if cfg.stats && sys.model.zombie != model.zombie {
                    if let Some(c) = (0..sys.model.n()).find(|c| sys.model.zombie[*c]) {
                        let m = Mismatch {
                            conn: c,
                            kind: None,
                            class: "dropped-unnoticed",
                            what: format!("after {op:?}: the broker does not notice that the task of connection {c} was dropped; everything the connection owned stays"),
                        };
                        report_keyed(ctx, cfg, &ops, &m, "", "C09/task-dropped-unnoticed");
                    }
                }
                if !sys.model.broker_up {
                    continue;
                }
                let (st, snap) = match sys.stats() {
                    Ok(x) => x,
                    Err(m) => {
                        if fatal(&m) || (cfg.judge)(&m) {
                            report(ctx, cfg, &ops, &m, "statistics");
                        }
                        continue;
                    }
                };
                if snap.is_none() {
                    panic!("no broker snapshot: the verif_hooks hook is missing");
                }
                if cfg.stats {
                    let want = sys.model_stats();
                    if st != Some(want) {
                        let m = Mismatch {
                            conn: 0,
                            kind: None,
                            class: "statistics",
                            what: format!(
                                "statistics (connections, objects, services, channels, bus listeners): published {st:?}, true {want:?}"
                            ),
                        };
                        report(ctx, cfg, &ops, &m, "");
                        continue;
                    }
                }
                if let Err(m) = sys.dangling(snap.as_ref().unwrap()) {
                    if (cfg.judge)(&m) {
                        report(ctx, cfg, &ops, &m, "");
                        continue;
                    }
                }
                if std::env::var_os("MC_KEYS").is_some() {
                    eprintln!("{}", sys.key(snap.as_ref()));
                }
                let key = hash64(sys.key(snap.as_ref()).as_bytes());
                if !seen.insert(key) {
                    continue;
                }
                let m2 = sys.model.clone();
                if let Some(p) = cfg.probe {
                    probes.fetch_add(1, Ordering::Relaxed);
                    if let Err(m) = p(&mut sys, key) {
                        if fatal(&m) || (cfg.judge)(&m) {
                            report(ctx, cfg, &ops, &m, "probe");
                        }
                        continue;
                    }
                }
                let mut h = hist.clone();
                h.push(op);
                found.push((h, m2));
            }
            next.lock().unwrap().extend(found);
        });
        frontier = next.into_inner().unwrap();
        // Deterministic order whatever the thread timing was.
        frontier.sort_by_cached_key(|(h, _)| format!("{h:?}"));
        if seen.len() > cfg.max_states && depth < max_depth {
            complete = frontier.is_empty();
            break;
        }
    }
    if depth == max_depth && !frontier.is_empty() {
        complete = false;
    }
    let states = seen.len() as u64;
    let tr = transitions.into_inner();
    ctx.add_states(states);
    ctx.add_transitions(tr);
    ctx.add_traces(tr);
    ctx.extra(
        &cfg.name,
        json!({
            "versions": cfg.versions,
            "states": states,
            "transitions": tr,
            "depth": depth,
            "state_space_exhausted": complete,
            "probes": probes.into_inner(),
            "tolerated_mismatch_of_other_properties": tolerated.into_inner(),
            "pruned_mismatch_of_other_properties": pruned.into_inner(),
            "seconds": (ctx.elapsed() - t0).as_secs_f64(),
        }),
    );
    if let Some((h, _)) = frontier.first() {
        ctx.sample(json!({"scenario": cfg.name, "history": describe(h)}));
    }
    Outcome {
        states,
        transitions: tr,
        depth,
        complete,
    }
}

/// Ends every connection (in ways chosen by `how`), then checks that nothing is left and that the
/// broker stops when idle.
pub fn cleanup_probe(sys: &mut Sys, how: u64, terms: &[Term]) -> Result<(), Mismatch> {
    let n = sys.conns.len();
    let rot = (how >> 8) as usize % n;
    let idle_first = how & 0x40 != 0;
    if idle_first {
        sys.step(&Op::ShutdownIdle, &mut None)?;
    }
    for i in 0..n {
        let c = (i + rot) % n;
        if sys.model.alive[c] {
            let mut t = terms[(how >> (16 + 4 * c)) as usize % terms.len()];
            if sys.model.zombie[c] {
                t = Term::Forced;
            }
            sys.step(&Op::Term(c, t), &mut None)?;
        }
    }
    // Whoever was not noticed (reported separately) is removed by force.
    for c in 0..n {
        if sys.model.zombie[c] {
            sys.step(&Op::Term(c, Term::Forced), &mut None)?;
        }
    }
    if !sys.model.broker_up {
        return Ok(());
    }
    residual(sys)?;
    idle(sys)
}

pub fn residual(sys: &mut Sys) -> Result<(), Mismatch> {
    let (st, snap) = sys.stats()?;
    if st != Some([0; 5]) {
        return Err(Mismatch {
            conn: 0,
            kind: None,
            class: "statistics",
            what: format!("statistics after the last connection ended: {st:?}"),
        });
    }
    let mut left = Vec::new();
    snap::non_empty(
        &snap.expect("no broker snapshot"),
        "Broker",
        &|p| p.contains("introspection"),
        &mut left,
    );
    if !left.is_empty() {
        return Err(Mismatch {
            conn: 0,
            kind: None,
            class: "residual",
            what: format!("left in the broker after the last connection ended: {left:?}"),
        });
    }
    Ok(())
}

pub fn idle(sys: &mut Sys) -> Result<(), Mismatch> {
    let Some(mut bh) = sys.handle.clone() else {
        return Ok(());
    };
    let mut f = Box::pin(async move { bh.shutdown_idle().await });
    let _ = crate::exec::poll_once(&mut f);
    sys.quiesce()?;
    if !sys.exec.done(sys.broker_task) {
        return Err(Mismatch {
            conn: 0,
            kind: None,
            class: "idle",
            what: "all connections are gone but the broker does not stop when idle".into(),
        });
    }
    Ok(())
}
