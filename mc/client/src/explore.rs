//! Exhaustive exploration of application programs and their schedules.
//!
//! A program is a settled prefix (each operation runs to quiescence) followed by a burst of
//! operations that are issued at every possible step of each other's execution, under several
//! scheduling policies and up to a number of deviations from them.

use crate::net::BUFFERED;
use crate::sim::*;
use mc_common::choice::{successors, Choices};
use mc_common::Ctx;
use serde_json::{json, Value as Json};
use std::collections::{HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, Default)]
pub struct Params {
    pub size: usize,
}

pub trait Area {
    fn names(&self) -> Vec<String>;
    /// Starts an operation; false if it makes no sense now.
    fn issue(&self, op: usize) -> bool;
    /// Everything that distinguishes settled states.
    fn sig(&self) -> String;
    /// Judges the operations that are pending at quiescence.
    fn quiet(&self);
    /// Gives up one thing that is idle; false if there is none.
    fn wind(&self) -> bool;
    /// Starts further operations on everything that belongs to a client that has stopped.
    fn poke(&self, client: usize);
    /// The broker's and the application's idea of what exists, at quiescence.
    fn truth(&self, _snapshot: &str) {}
}

pub type Make = fn(Rc<Env>, &Params) -> Box<dyn Area>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Term {
    Shutdown(usize),
    BrokerShutdown,
    ConnShutdown(usize),
    Cut(usize),
    CutBroker(usize),
    KillBroker,
    /// The application gives up everything it has, the last handle included.
    Release(usize),
}

#[derive(Clone, Copy, Debug)]
pub enum Ev {
    Op(usize),
    Term(Term),
}

#[derive(Clone)]
pub struct Plan {
    pub minors: Vec<u32>,
    pub cap: Option<usize>,
    pub prefix: Vec<usize>,
    /// Events and the step of the burst at which they happen.
    pub burst: Vec<(Ev, u64)>,
    /// Fail the n-th transport call of the client counted from the start of the burst.
    pub fault: Option<(usize, bool, u64)>,
    pub policy: Policy,
    pub sched: Vec<u32>,
    /// Judge the end of the run as well.
    pub wind: bool,
    pub snap: bool,
}

impl Plan {
    pub fn new(minors: &[u32], cap: Option<usize>, prefix: &[usize]) -> Self {
        Self {
            minors: minors.to_vec(),
            cap,
            prefix: prefix.to_vec(),
            burst: vec![],
            fault: None,
            policy: Policy::Fifo,
            sched: vec![],
            wind: true,
            snap: true,
        }
    }
}

#[derive(Default, Clone)]
pub struct Outcome {
    pub applicable: bool,
    pub sig: String,
    /// Steps of the burst until quiescence.
    pub steps: u64,
    pub total: u64,
    /// Transport calls of each client during the burst: (client side, broker side).
    pub calls: Vec<(u64, u64)>,
    pub fails: Vec<(String, String)>,
    pub trace: Vec<(u32, u32, u32)>,
    pub ops: Vec<String>,
    pub names: Vec<String>,
}

fn finish(sim: &mut Sim, out: &mut Outcome) {
    out.fails = sim.env.fails.borrow().clone();
    out.total = sim.steps;
    out.ops = sim
        .env
        .ops
        .borrow()
        .iter()
        .map(|o| format!("{}@{}: {:?} {}", o.name, o.client, o.state, o.result))
        .collect();
}

fn terminate(sim: &mut Sim, area: &dyn Area, t: Term) -> bool {
    let env = sim.env.clone();
    let n = env.cl.borrow().len();
    let dying = |v: &[usize]| {
        for &c in v {
            env.cl.borrow_mut()[c].dying = true;
        }
    };
    match t {
        Term::Shutdown(c) => {
            if env.cl.borrow()[c].run.is_some() {
                return false;
            }
            dying(&[c]);
            let Some(h) = env.handle(c) else { return false };
            h.shutdown();
        }
        Term::BrokerShutdown => {
            let mut bh = env.broker.borrow().clone().unwrap();
            dying(&(0..n).collect::<Vec<_>>());
            env.spawn(Class::Ctl, async move { bh.shutdown().await });
        }
        Term::ConnShutdown(c) => {
            dying(&[c]);
            let mut bh = env.broker.borrow().clone().unwrap();
            let h = env.cl.borrow()[c].conn_handle.clone().unwrap();
            env.spawn(Class::Ctl, async move {
                let _ = bh.shutdown_connection(&h).await;
            });
        }
        Term::Cut(c) => {
            dying(&[c]);
            let p = env.cl.borrow()[c].port.clone();
            p.borrow_mut().cut();
        }
        Term::CutBroker(c) => {
            dying(&[c]);
            let p = env.cl.borrow()[c].broker_port.clone();
            p.borrow_mut().cut();
        }
        Term::KillBroker => {
            dying(&(0..n).collect::<Vec<_>>());
            env.kill_task(0);
        }
        Term::Release(c) => {
            if env.cl.borrow()[c].run.is_some() {
                return false;
            }
            dying(&[c]);
            for _ in 0..2 {
                // Operations that own everything, but are never started.
                area.poke(c);
                for i in env.pending_ops() {
                    if env.ops.borrow()[i].client == c {
                        env.cancel(i);
                    }
                }
                // What they had borrowed is given back.
                sim.absorb();
            }
            env.cl.borrow_mut()[c].handle = None;
        }
    }
    true
}

/// Judges a system at rest after some clients have been terminated.
fn judge_dead(sim: &mut Sim, area: &dyn Area, terms: &[Term], fault: Option<(usize, bool, u64)>) {
    let env = sim.env.clone();
    let n = env.cl.borrow().len();
    for c in 0..n {
        let cl = env.cl.borrow();
        let (run, conn, dying) = (cl[c].run.clone(), cl[c].conn.clone(), cl[c].dying);
        drop(cl);
        let hits = |f: &dyn Fn(&Term) -> bool| terms.iter().any(f);
        let dirty_client = hits(&|t| *t == Term::Cut(c) || *t == Term::CutBroker(c) || *t == Term::KillBroker)
            || fault.is_some_and(|f| f.0 == c);
        let clean = hits(&|t| *t == Term::Shutdown(c) || *t == Term::Release(c) || *t == Term::ConnShutdown(c) || *t == Term::BrokerShutdown);
        if !dying {
            if run.is_some() || conn.is_some() {
                env.fail("survivor", format!("client {c} stopped for no reason: {run:?}, its connection: {conn:?}"));
            }
            continue;
        }
        match &run {
            None => env.fail("run-hangs", format!("client {c} does not stop")),
            Some(Ok(())) => {
                if dirty_client && !clean {
                    env.fail("run-result", format!("client {c} reports success although its transport failed"));
                }
            }
            Some(Err(e)) => {
                if !e.starts_with("Transport(") {
                    env.fail("run-result", format!("client {c} stopped with {e}"));
                } else if !dirty_client {
                    env.fail("run-result", format!("client {c} was shut down cleanly, but run() returned {e}"));
                }
            }
        }
        match &conn {
            None => env.fail("conn-hangs", format!("the connection of client {c} does not stop")),
            Some(Ok(())) => {}
            Some(Err(e)) => {
                // When both sides end the connection at once, either may find the other gone.
                let both = terms.len() > 1 && e.starts_with("Transport(");
                if !dirty_client && !both {
                    env.fail("conn-result", format!("client {c} was shut down cleanly, but its connection returned {e}"));
                }
            }
        }
        let pend: Vec<String> = env
            .pending_ops()
            .into_iter()
            .filter(|&i| env.ops.borrow()[i].client == c)
            .map(|i| env.ops.borrow()[i].name.clone())
            .collect();
        if !pend.is_empty() {
            env.fail(&format!("hangs/{}", pend[0]), format!("client {c} has stopped, but {pend:?} do not complete"));
        }
    }
    if !env.fails.borrow().is_empty() {
        return;
    }
    area.quiet();
    if !env.fails.borrow().is_empty() {
        return;
    }
    // Whatever is started now.
    let before = env.ops.borrow().len();
    for c in 0..n {
        if env.dead(c) {
            area.poke(c);
            poke_handle(&env, c);
        }
    }
    sim.settle();
    for o in env.ops.borrow()[before..].iter() {
        let ok = o.state == OpState::Done;
        if !ok {
            env.fail(&format!("hangs/{}", o.name), format!("{} does not complete", o.name));
        } else if o.result.contains("Ok(") && !o.result.contains("Ok(())") {
            env.fail(&format!("late/{}", o.name), format!("{} reports {}", o.name, o.result));
        }
    }
}

fn poke_handle(env: &Rc<Env>, c: usize) {
    let Some(h) = env.handle(c) else { return };
    env.op(c, "handle operations on a stopped client", "poke", async move {
        let a = h.sync_client().await.map(|_| 1);
        let b = h.sync_broker().await.map(|_| 1);
        let d = h.create_object(aldrin_core::ObjectUuid::new_v4()).await.map(|_| 1);
        let e = h.create_bus_listener().await.map(|_| 1);
        let f = h.create_lifetime_scope().await.map(|_| 1);
        let g = h.version().await.map(|_| 1);
        h.shutdown();
        h.clone().shutdown();
        format!("{a:?}{b:?}{d:?}{e:?}{f:?}{g:?}")
    });
}

fn run_here(make: Make, params: &Params, plan: &Plan) -> Outcome {
    mc_common::rng::reset(11);
    let mut out = Outcome::default();
    let mut sim = Sim::setup(&plan.minors, plan.cap);
    let env = sim.env.clone();
    let area = make(env.clone(), params);
    out.names = area.names();
    sim.settle();
    let failed = |sim: &Sim| !sim.env.fails.borrow().is_empty();
    for &op in &plan.prefix {
        if !area.issue(op) {
            if failed(&sim) {
                out.applicable = true;
                finish(&mut sim, &mut out);
            }
            return out;
        }
        sim.settle();
        if plan.burst.is_empty() && plan.fault.is_none() && !failed(&sim) {
            for c in 0..env.cl.borrow().len() {
                let cl = env.cl.borrow();
                if cl[c].run.is_some() || cl[c].conn.is_some() {
                    let t = format!("client {c} stopped: {:?}, its connection: {:?}", cl[c].run, cl[c].conn);
                    drop(cl);
                    env.fail("stopped", t);
                }
            }
        }
        area.quiet();
    }
    out.sig = area.sig();
    if failed(&sim) {
        out.applicable = true;
        finish(&mut sim, &mut out);
        return out;
    }
    let base: Vec<(u64, u64)> = env
        .cl
        .borrow()
        .iter()
        .map(|c| (c.port.borrow().calls, c.broker_port.borrow().calls))
        .collect();
    if let Some((c, broker, n)) = plan.fault {
        let mut cl = env.cl.borrow_mut();
        // From here on the client may stop at any time.
        cl[c].dying = true;
        if broker {
            cl[c].broker_port.borrow_mut().fault_at = Some(base[c].1 + n);
        } else {
            cl[c].port.borrow_mut().fault_at = Some(base[c].0 + n);
        }
    }
    // The burst.
    let mut ch = Choices::new(plan.sched.clone());
    let start = sim.steps;
    sim.policy = plan.policy;
    for &(ev, k) in &plan.burst {
        while sim.steps - start < k {
            if !sim.step(&mut ch) {
                // At rest before the event is due: a settled program covers this.
                return out;
            }
        }
        let ok = match ev {
            Ev::Op(op) => area.issue(op),
            Ev::Term(t) => terminate(&mut sim, &*area, t),
        };
        if !ok {
            return out;
        }
        // What has been given up is dropped at once.
        sim.absorb();
    }
    sim.quiesce(&mut ch);
    sim.policy = Policy::Fifo;
    out.steps = sim.steps - start;
    out.trace = ch.trace.clone();
    out.applicable = true;
    out.calls = env
        .cl
        .borrow()
        .iter()
        .zip(&base)
        .map(|(c, b)| (c.port.borrow().calls - b.0, c.broker_port.borrow().calls - b.1))
        .collect();
    let mut fault = plan.fault;
    if let Some((c, broker, _)) = fault {
        let cut = {
            let cl = env.cl.borrow();
            let cut = if broker { cl[c].broker_port.borrow().cut } else { cl[c].port.borrow().cut };
            if !cut {
                cl[c].port.borrow_mut().fault_at = None;
                cl[c].broker_port.borrow_mut().fault_at = None;
            }
            cut
        };
        if !cut {
            env.cl.borrow_mut()[c].dying = plan.burst.iter().any(|e| matches!(e.0, Ev::Term(_)));
            fault = None;
        }
    }
    if failed(&sim) {
        finish(&mut sim, &mut out);
        return out;
    }
    let terms: Vec<Term> = plan
        .burst
        .iter()
        .filter_map(|e| match e.0 {
            Ev::Term(t) => Some(t),
            _ => None,
        })
        .collect();
    judge_dead(&mut sim, &*area, &terms, fault);
    if !failed(&sim) {
        sim.spurious();
    }
    let broker_gone = terms.iter().any(|t| matches!(t, Term::BrokerShutdown | Term::KillBroker));
    if !failed(&sim) && plan.snap && !broker_gone {
        if let Some(s) = sim.snapshot() {
            judge_snapshot(&sim, &s);
            area.truth(&s);
        } else {
            env.fail("broker", "the broker does not answer".into());
        }
    }
    if plan.wind && !failed(&sim) {
        wind_down(&mut sim, &*area, broker_gone, plan);
    }
    finish(&mut sim, &mut out);
    // Tear down under a net: what is left must not bring the process down.
    drop(area);
    env.ops.borrow_mut().clear();
    if let Err(m) = mc_common::catch(move || drop(sim)) {
        out.fails.push(("panic".into(), format!("while dropping everything: {m}")));
    }
    out
}

/// The broker knows exactly the connections that are still there.
fn judge_snapshot(sim: &Sim, s: &str) {
    let env = &sim.env;
    let snap = crate::snap::parse(s).expect("harness: snapshot");
    let alive = env.cl.borrow().iter().filter(|c| !c.dying).count();
    if let Some(n) = crate::snap::field_len(&snap, "conns") {
        if n != alive {
            env.fail("broker-conns", format!("the broker has {n} connections, {alive} clients are running"));
        }
    }
}

fn wind_down(sim: &mut Sim, area: &dyn Area, broker_gone: bool, plan: &Plan) {
    let env = sim.env.clone();
    let mut n = 0;
    loop {
        let mut any = false;
        while area.wind() {
            any = true;
            n += 1;
            assert!(n < 1000, "harness: winding down does not end");
            sim.settle();
            if !env.fails.borrow().is_empty() {
                return;
            }
            area.quiet();
            if !env.fails.borrow().is_empty() {
                return;
            }
        }
        if !any {
            break;
        }
    }
    let pend = env.pending_ops();
    if !pend.is_empty() {
        let names: Vec<String> = pend.iter().map(|&i| env.ops.borrow()[i].name.clone()).collect();
        env.fail(&format!("stuck/{}", names[0]), format!("{names:?} do not complete although everything has been given up"));
        return;
    }
    // An idle shutdown of the broker, asked for before or after the clients stop.
    let early = (plan.prefix.iter().sum::<usize>() + plan.burst.len()) % 2 == 0;
    let idle = |env: &Rc<Env>| {
        if let Some(mut bh) = env.broker.borrow_mut().take() {
            env.spawn(Class::Ctl, async move { bh.shutdown_idle().await });
        }
    };
    if early {
        idle(&env);
    }
    sim.settle();
    let k = env.cl.borrow().len();
    for c in 0..k {
        let h = env.cl.borrow_mut()[c].handle.take();
        let Some(h) = h else { continue };
        if c % 2 == 0 {
            h.shutdown();
        }
        drop(h);
        sim.settle();
        let cl = env.cl.borrow();
        let (run, conn, dying) = (cl[c].run.clone(), cl[c].conn.clone(), cl[c].dying);
        drop(cl);
        if dying {
            continue;
        }
        if run != Some(Ok(())) {
            env.fail("run-result", format!("client {c} was shut down cleanly, but run() gave {run:?}"));
        }
        if conn != Some(Ok(())) {
            env.fail("conn-result", format!("client {c} was shut down cleanly, but its connection gave {conn:?}"));
        }
    }
    if !early {
        if env.broker_done.get() && !broker_gone {
            env.fail("broker", "the broker stopped without being asked to".into());
        }
        idle(&env);
        sim.settle();
    }
    if !broker_gone && !env.broker_done.get() {
        env.fail("broker-idle", "all clients have stopped, but the broker does not".into());
    }
}

/// Runs a plan on a thread of its own: hash map seeds and random numbers are per thread, so every
/// run of a plan is the same.
pub fn run(make: Make, params: &Params, plan: &Plan) -> Outcome {
    let (p, q) = (*params, plan.clone());
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || match mc_common::catch(|| run_here(make, &p, &q)) {
            Ok(o) => o,
            Err(m) => Outcome {
                applicable: true,
                fails: vec![(if m.contains("harness:") { "harness" } else { "panic" }.into(), m)],
                ..Default::default()
            },
        })
        .unwrap()
        .join()
        .expect("harness: run thread")
}

pub struct Scenario {
    pub name: String,
    pub make: Make,
    pub params: Params,
    pub minors: Vec<u32>,
    pub cap: Option<usize>,
    /// Length of the settled prefix.
    pub depth: usize,
    /// Prefixes to start from (by operation name).
    pub from: Vec<Vec<&'static str>>,
    /// Number of operations in a burst (0, 2 or 3).
    pub burst: usize,
    pub policies: Vec<Policy>,
    /// Deviations from the policy, for bursts whose operations are issued together.
    pub dev: u32,
    /// Points of a run at which to deviate.
    pub dev_points: usize,
    pub terms: Vec<Term>,
    pub faults: bool,
    pub second_terms: Vec<Term>,
}

impl Scenario {
    pub fn new(name: impl Into<String>, make: Make) -> Self {
        Self {
            name: name.into(),
            make,
            params: Params::default(),
            minors: vec![20, 20],
            cap: None,
            depth: 3,
            from: vec![vec![]],
            burst: 2,
            policies: vec![Policy::Fifo],
            dev: 0,
            dev_points: 40,
            terms: vec![],
            faults: false,
            second_terms: vec![],
        }
    }
}

pub fn all_policies(clients: usize) -> Vec<Policy> {
    let mut v = vec![Policy::Fifo, Policy::Lifo, Policy::Starve(Class::Broker)];
    for c in 0..clients {
        v.extend([
            Policy::Starve(Class::Conn(c)),
            Policy::Starve(Class::Client(c)),
            Policy::Starve(Class::App(c)),
        ]);
    }
    v
}

fn key_of(f: &(String, String)) -> String {
    // Positions and addresses do not belong to the identity of a failure.
    if f.0 == "panic" {
        let m: String = f.1.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
        format!("panic/{}", m.split(" @ ").nth(1).unwrap_or(&m))
    } else {
        f.0.clone()
    }
}

struct Shared<'a> {
    ctx: &'a Ctx,
    sc: &'a Scenario,
    names: Vec<String>,
    runs: AtomicU64,
    maxsteps: AtomicU64,
}

impl Shared<'_> {
    fn doc(&self, p: &Plan) -> Json {
        let ev = |e: &(Ev, u64)| match e.0 {
            Ev::Op(o) => json!([self.names[o], e.1]),
            Ev::Term(t) => json!([format!("{t:?}"), e.1]),
        };
        json!({
            "scenario": self.sc.name,
            "versions": p.minors,
            "capacity": p.cap,
            "prefix": p.prefix.iter().map(|&o| self.names[o].clone()).collect::<Vec<_>>(),
            "burst (event, step)": p.burst.iter().map(ev).collect::<Vec<_>>(),
            "fault": p.fault.map(|f| json!({"client": f.0, "broker side": f.1, "transport call": f.2})),
            "policy": format!("{:?}", p.policy),
            "schedule": p.sched,
        })
    }

    fn go(&self, p: &Plan) -> Outcome {
        self.ctx.mark(self.doc(p).to_string().as_bytes());
        let o = run(self.sc.make, &self.sc.params, p);
        self.runs.fetch_add(1, Ordering::Relaxed);
        self.maxsteps.fetch_max(o.steps, Ordering::Relaxed);
        if o.applicable {
            self.ctx.add_traces(1);
            self.ctx.add_transitions(o.total);
        }
        if let Some(f) = o.fails.first() {
            if f.0 == "harness" {
                panic!("{} in {}", f.1, self.doc(p));
            }
            let key = format!("{}/{}/{}", self.ctx.prop, self.sc.name, key_of(f));
            self.ctx.violation(
                &key,
                &format!("{}\n{}\noperations: {:#?}", f.1, serde_json::to_string(&self.doc(p)).unwrap(), o.ops),
                self.doc(p),
            );
        }
        o
    }
}

/// Explores a scenario.
pub fn explore(ctx: &Ctx, sc: &Scenario) {
    if !ctx.only(&sc.name) || ctx.stopped() {
        return;
    }
    let t0 = std::time::Instant::now();
    let probe = run(sc.make, &sc.params, &Plan::new(&sc.minors, sc.cap, &[]));
    let names = probe.names.clone();
    let sh = Shared { ctx, sc, names, runs: AtomicU64::new(0), maxsteps: AtomicU64::new(0) };
    if let Some(doc) = &ctx.replay {
        if doc["scenario"] == sc.name {
            replay(&sh, doc);
        }
        return;
    }
    let nops = sh.names.len();
    let idx = |n: &str| {
        sh.names
            .iter()
            .position(|x| x == n)
            .unwrap_or_else(|| panic!("harness: no operation {n} in {}", sc.name))
    };
    // Settled states, breadth first.
    let seen: Mutex<HashSet<String>> = Default::default();
    let mut states: Vec<Vec<usize>> = vec![];
    let mut level: Vec<Vec<usize>> = vec![];
    for f in &sc.from {
        let p: Vec<usize> = f.iter().map(|n| idx(n)).collect();
        let o = sh.go(&Plan::new(&sc.minors, sc.cap, &p));
        if !o.applicable {
            ctx.violation(
                &format!("{}/{}/seed", ctx.prop, sc.name),
                &format!("the operations {f:?} are not possible one after the other"),
                json!({"scenario": sc.name, "seed": f}),
            );
            continue;
        }
        if seen.lock().unwrap().insert(o.sig.clone()) {
            states.push(p.clone());
            level.push(p);
        }
    }
    for _ in 0..sc.depth {
        let next: Mutex<HashMap<String, Vec<usize>>> = Default::default();
        ctx.par(level.len() * nops, |i| {
            let mut p = level[i / nops].clone();
            p.push(i % nops);
            let o = sh.go(&Plan::new(&sc.minors, sc.cap, &p));
            if o.applicable && o.fails.is_empty() && !seen.lock().unwrap().contains(&o.sig) {
                let mut n = next.lock().unwrap();
                let e = n.entry(o.sig).or_insert_with(|| p.clone());
                if p < *e {
                    *e = p;
                }
            }
        });
        if ctx.stopped() {
            return;
        }
        level = vec![];
        let mut v: Vec<(String, Vec<usize>)> = next.into_inner().unwrap().into_iter().collect();
        v.sort();
        for (s, p) in v {
            seen.lock().unwrap().insert(s);
            states.push(p.clone());
            level.push(p);
        }
    }
    ctx.add_states(states.len() as u64);
    let settled = sh.runs.load(Ordering::Relaxed);

    let base = |p: &[usize], policy: Policy| Plan { policy, ..Plan::new(&sc.minors, sc.cap, p) };
    // Bursts.
    if sc.burst >= 2 {
        let np = sc.policies.len();
        ctx.par(states.len() * nops * np, |i| {
            let pre = &states[i / (nops * np)];
            let op1 = (i / np) % nops;
            let pol = sc.policies[i % np];
            let mut p1 = base(pre, pol);
            p1.burst = vec![(Ev::Op(op1), 0)];
            let o1 = sh.go(&p1);
            if !o1.applicable || !o1.fails.is_empty() {
                return;
            }
            for op2 in 0..nops {
                for k in 0..=o1.steps {
                    if ctx.stopped() {
                        return;
                    }
                    let mut p2 = p1.clone();
                    p2.burst.push((Ev::Op(op2), k));
                    let o2 = sh.go(&p2);
                    if !o2.applicable && k == 0 && o1.steps > 0 {
                        // May become possible while the first operation makes progress.
                        continue;
                    }
                    if !o2.applicable || !o2.fails.is_empty() {
                        continue;
                    }
                    if sc.burst >= 3 {
                        for op3 in 0..nops {
                            for k3 in k..=o2.steps {
                                let mut p3 = p2.clone();
                                p3.burst.push((Ev::Op(op3), k3));
                                sh.go(&p3);
                                if ctx.stopped() {
                                    return;
                                }
                            }
                        }
                    }
                    if sc.dev > 0 && k == 0 {
                        deviate(&sh, &p2, o2);
                    }
                }
            }
        });
    }
    // Terminations at every step of every operation.
    if !sc.terms.is_empty() {
        let np = sc.policies.len();
        ctx.par(states.len() * (nops + 1) * np, |i| {
            let pre = &states[i / ((nops + 1) * np)];
            let op1 = (i / np) % (nops + 1);
            let pol = sc.policies[i % np];
            let mut p1 = base(pre, pol);
            if op1 < nops {
                p1.burst = vec![(Ev::Op(op1), 0)];
            }
            let o1 = sh.go(&p1);
            if !o1.applicable || !o1.fails.is_empty() {
                return;
            }
            for &t in &sc.terms {
                for k in 0..=o1.steps {
                    if ctx.stopped() {
                        return;
                    }
                    let mut p2 = p1.clone();
                    p2.burst.push((Ev::Term(t), k));
                    let o2 = sh.go(&p2);
                    if !o2.applicable || !o2.fails.is_empty() {
                        continue;
                    }
                    if op1 == nops {
                        // Operations that are started, or given up, while it stops.
                        for op2 in 0..nops {
                            for k2 in 0..=o2.steps {
                                if ctx.stopped() {
                                    return;
                                }
                                let mut p3 = p2.clone();
                                p3.burst.push((Ev::Op(op2), k2));
                                sh.go(&p3);
                            }
                        }
                    }
                    if k == 0 {
                        for &t2 in &sc.second_terms {
                            for k2 in 0..=o2.steps {
                                let mut p3 = p2.clone();
                                p3.burst.push((Ev::Term(t2), k2));
                                sh.go(&p3);
                            }
                        }
                        if sc.dev > 0 {
                            deviate(&sh, &p2, o2);
                        }
                    }
                }
            }
            if sc.faults {
                for c in 0..sc.minors.len() {
                    for side in [false, true] {
                        let n = if side { o1.calls[c].1 } else { o1.calls[c].0 };
                        for k in 0..n {
                            let mut p2 = p1.clone();
                            p2.fault = Some((c, side, k));
                            sh.go(&p2);
                        }
                        // While shutting down.
                        for t in [Term::Shutdown(c), Term::BrokerShutdown] {
                            let mut p2 = p1.clone();
                            p2.burst.push((Ev::Term(t), 0));
                            let o2 = sh.go(&p2);
                            if o2.applicable && o2.fails.is_empty() {
                                let n = if side { o2.calls[c].1 } else { o2.calls[c].0 };
                                for k in 0..n {
                                    let mut p3 = p2.clone();
                                    p3.fault = Some((c, side, k));
                                    sh.go(&p3);
                                }
                            }
                        }
                    }
                }
            }
        });
    }
    let what = json!({
        "operations": nops,
        "settled states": states.len(),
        "settled runs": settled,
        "runs": sh.runs.load(Ordering::Relaxed),
        "longest burst (steps)": sh.maxsteps.load(Ordering::Relaxed),
        "versions": sc.minors,
        "transport": match sc.cap {
            None => "unbounded".to_string(),
            Some(n) if n >= BUFFERED => format!("buffer in front of bounded({})", n - BUFFERED),
            Some(n) => format!("bounded({n})"),
        },
        "policies": sc.policies.len(),
        "seconds": (t0.elapsed().as_secs_f64() * 10.0).round() / 10.0,
    });
    if std::env::var_os("MC_TIME").is_some() {
        eprintln!("{}: {what}", sc.name);
    }
    ctx.extra(&sc.name, what);
    if let Some(p) = states.last() {
        ctx.sample(sh.doc(&base(p, Policy::Fifo)));
    }
}

/// Every schedule of the burst with at most `dev` deviations from the policy.
fn deviate(sh: &Shared, plan: &Plan, first: Outcome) {
    let sc = sh.sc;
    let mut todo: VecDeque<Vec<u32>> = VecDeque::new();
    let mut ch = Choices::new(vec![]);
    ch.trace = first.trace;
    todo.extend(successors(0, &ch, sc.dev, sc.dev_points));
    while let Some(pre) = todo.pop_back() {
        if sh.ctx.stopped() {
            return;
        }
        let mut p = plan.clone();
        p.sched = pre.clone();
        let o = sh.go(&p);
        if !o.applicable || !o.fails.is_empty() {
            continue;
        }
        let mut ch = Choices::new(vec![]);
        ch.trace = o.trace;
        todo.extend(successors(pre.len(), &ch, sc.dev, sc.dev_points));
    }
}

fn replay(sh: &Shared, doc: &Json) {
    let idx = |n: &str| sh.names.iter().position(|x| x == n);
    let mut p = Plan::new(&sh.sc.minors, sh.sc.cap, &[]);
    p.minors = doc["versions"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u32).collect();
    p.cap = doc["capacity"].as_u64().map(|v| v as usize);
    p.prefix = doc["prefix"].as_array().unwrap().iter().filter_map(|v| idx(v.as_str().unwrap())).collect();
    let all_terms = |n: &str| {
        let mut v = vec![Term::BrokerShutdown, Term::KillBroker];
        for c in 0..4 {
            v.extend([Term::Shutdown(c), Term::ConnShutdown(c), Term::Cut(c), Term::CutBroker(c), Term::Release(c)]);
        }
        v.into_iter().find(|t| format!("{t:?}") == n)
    };
    for e in doc["burst (event, step)"].as_array().unwrap() {
        let n = e[0].as_str().unwrap();
        let k = e[1].as_u64().unwrap();
        match idx(n) {
            Some(o) => p.burst.push((Ev::Op(o), k)),
            None => p.burst.push((Ev::Term(all_terms(n).expect("harness: unknown event")), k)),
        }
    }
    if doc["fault"].is_object() {
        let f = &doc["fault"];
        p.fault = Some((
            f["client"].as_u64().unwrap() as usize,
            f["broker side"].as_bool().unwrap(),
            f["transport call"].as_u64().unwrap(),
        ));
    }
    let pol = doc["policy"].as_str().unwrap();
    p.policy = all_policies(4).into_iter().find(|x| format!("{x:?}") == pol).unwrap_or(Policy::Fifo);
    p.sched = doc["schedule"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u32).collect();
    let o = sh.go(&p);
    eprintln!("steps {}, operations {:#?}, {:?}", o.steps, o.ops, o.fails);
}
