//! Histories with many entities of one kind: everything that can be had more than once, for every
//! number up to a bound, created, used and then ended in every way. The explorations branch a lot
//! but never hold more than a few entities.

use crate::alpha::*;
use crate::bfs::*;
use crate::model::*;
use crate::sys::*;
use aldrin_core::message::*;
use aldrin_core::{BusListenerFilter, BusListenerScope, ChannelEnd, ChannelEndWithCapacity as Cap};
use mc_common::Ctx;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Drive<'a> {
    cfg: &'a Cfg<'a>,
    ctx: &'a Ctx,
    pub sys: Sys<'a>,
    ops: Vec<Op>,
    steps: &'a AtomicU64,
}

type R = Result<(), ()>;
pub type Script = (&'static str, usize, fn(&mut Drive, usize, usize) -> R);

impl Drive<'_> {
    fn fail(&mut self, m: &Mismatch, tail: &str) -> R {
        if fatal(m) || (self.cfg.judge)(m) {
            report(self.ctx, self.cfg, &self.ops, m, tail);
        }
        Err(())
    }

    pub fn op(&mut self, op: Op) -> R {
        self.steps.fetch_add(1, Ordering::Relaxed);
        self.ops.push(op.clone());
        if let Err(m) = self.sys.step(&op, &mut None) {
            return self.fail(&m, "");
        }
        if self.cfg.stats && self.sys.model.broker_up {
            let want = self.sys.model_stats();
            match self.sys.stats() {
                Err(m) => return self.fail(&m, "statistics"),
                Ok((st, _)) if st != Some(want) => {
                    let m = Mismatch {
                        conn: 0,
                        kind: None,
                        class: "statistics",
                        what: format!("statistics (connections, objects, services, channels, bus listeners): published {st:?}, true {want:?}"),
                    };
                    return self.fail(&m, "");
                }
                _ => {}
            }
        }
        Ok(())
    }

    fn m(&self) -> &Model {
        &self.sys.model
    }

    /// Every connection ends; nothing is left.
    fn finish(&mut self) -> R {
        if !self.m().broker_up {
            return Ok(());
        }
        for c in 0..self.m().n() {
            if self.m().alive[c] {
                self.op(Op::Term(c, if c % 2 == 0 { Term::Drop } else { Term::Clean }))?;
            }
        }
        if let Err(m) = residual(&mut self.sys).and_then(|()| idle(&mut self.sys)) {
            return self.fail(&m, "after the last connection ended");
        }
        Ok(())
    }
}

fn owned(d: &Drive, c: ConnIx) -> Vec<Tok> {
    d.m().svcs.iter().filter(|s| s.owner == c).map(|s| s.tok).collect()
}

fn object(d: &mut Drive, c: ConnIx, n: u8) -> Result<Tok, ()> {
    d.op(create_object(c, n))?;
    Ok(d.m().objs.last().ok_or(())?.tok)
}

fn service(d: &mut Drive, c: ConnIx, o: Tok, n: u8) -> Result<Tok, ()> {
    let op = create_service_any(d.m(), c, o, n, true);
    d.op(op)?;
    Ok(d.m().svcs.last().ok_or(())?.tok)
}

/// `n` services on one object.
pub fn services(d: &mut Drive, n: usize, how: usize) -> R {
    // Without subscribers nobody is told, and only the registry itself can be wrong.
    let (how, subscribed) = (how % 5, how < 5);
    let o = object(d, 0, 0)?;
    for i in 0..n {
        service(d, 0, o, i as u8)?;
    }
    for t in owned(d, 0) {
        d.op(query_version(1, t))?;
        if subscribed {
            d.op(subscribe_service(1, t))?;
        }
    }
    for i in 0..n {
        let op = create_service_any(d.m(), 0, o, i as u8, false);
        d.op(op)?;
    }
    let old = owned(d, 0);
    match how {
        0 => d.op(destroy_object(0, o))?,
        1 => d.op(Op::Term(0, Term::Drop))?,
        2 => d.op(Op::Term(0, Term::Forced))?,
        3 => {
            for t in &old {
                d.op(destroy_service(0, *t))?;
            }
            d.op(destroy_object(0, o))?;
        }
        _ => {
            for t in old.iter().rev().step_by(2) {
                d.op(destroy_service(0, *t))?;
            }
            d.op(destroy_object(0, o))?;
        }
    }
    for t in old {
        d.op(query_version(1, t))?;
        if subscribed {
            d.op(subscribe(1, t, 0))?;
        }
    }
    let o = object(d, 1, 0)?;
    for i in 0..n {
        service(d, 1, o, i as u8)?;
    }
    d.op(Op::Term(1, Term::Drop))?;
    d.finish()
}

/// `n` objects with a service each.
pub fn objects(d: &mut Drive, n: usize, how: usize) -> R {
    for i in 0..n {
        let o = object(d, i % 2, i as u8)?;
        service(d, i % 2, o, 0)?;
    }
    match how {
        0 => d.op(Op::Term(0, Term::Drop))?,
        1 => d.op(Op::Term(0, Term::Forced))?,
        _ => {
            for t in obj_toks(d.m()) {
                d.op(destroy_object(0, t))?;
                d.op(destroy_object(1, t))?;
            }
        }
    }
    for i in 0..n {
        d.op(create_object(2, i as u8))?;
    }
    d.op(Op::Term(1, Term::Clean))?;
    for i in 0..n {
        d.op(create_object(2, i as u8))?;
    }
    d.finish()
}

/// `n` pending calls each of two callers.
pub fn calls(d: &mut Drive, n: usize, how: usize) -> R {
    let o = object(d, 0, 0)?;
    let t = service(d, 0, o, 0)?;
    let u = service(d, 0, o, 1)?;
    for i in 0..n {
        for c in [1, 2] {
            let s = d.m().free_serial(c);
            let op = call_any(d.m(), c, s, if i % 3 == 2 { u } else { t }, i as u32, 100 * c as u32 + i as u32);
            d.op(op)?;
        }
    }
    let calls = d.m().calls.clone();
    match how {
        0 | 1 => {
            let v: Vec<Call> =
                if how == 0 { calls } else { calls.into_iter().rev().collect() };
            for x in v {
                d.op(reply(0, x.bserial, CallFunctionResult::Ok(val(x.bserial))))?;
            }
        }
        2 => d.op(destroy_service(0, t))?,
        3 => d.op(destroy_object(0, o))?,
        4 => d.op(Op::Term(0, Term::Drop))?,
        5 => {
            d.op(Op::Term(1, Term::Drop))?;
            for x in calls {
                d.op(reply(0, x.bserial, CallFunctionResult::Err(val(x.bserial))))?;
            }
        }
        6 => {
            for x in calls.iter().rev() {
                if d.m().version[x.caller] >= 16 {
                    d.op(abort(x.caller, x.serial))?;
                }
            }
            for x in calls {
                d.op(reply(0, x.bserial, CallFunctionResult::Ok(val(x.bserial))))?;
            }
        }
        // One after the other: more calls than there ever are at the same time, and every one
        // answered twice.
        _ => {
            for x in calls {
                d.op(reply(0, x.bserial, CallFunctionResult::Ok(val(x.bserial))))?;
                d.op(reply(0, x.bserial, CallFunctionResult::Aborted))?;
                let s = d.m().free_serial(x.caller);
                let op = call_any(d.m(), x.caller, s, t, 7, s);
                d.op(op)?;
                d.op(reply(0, x.bserial, CallFunctionResult::Err(val(1))))?;
                let b = d.m().calls.last().ok_or(())?.bserial;
                d.op(reply(0, b, CallFunctionResult::InvalidArgs))?;
            }
        }
    }
    d.finish()
}

/// Subscriptions to `n` events.
pub fn events(d: &mut Drive, n: usize, how: usize) -> R {
    let o = object(d, 0, 0)?;
    let t = service(d, 0, o, 0)?;
    for e in 0..n as u32 {
        d.op(subscribe(1, t, e))?;
        if e % 2 == 0 {
            d.op(subscribe(2, t, e))?;
        }
    }
    for e in 0..n as u32 + 1 {
        d.op(emit(0, t, e, e))?;
    }
    match how {
        0 => {
            for e in 0..n as u32 {
                d.op(unsubscribe(1, t, e))?;
                d.op(emit(0, t, e, e))?;
            }
        }
        1 => d.op(Op::Term(1, Term::Drop))?,
        2 => d.op(destroy_service(0, t))?,
        3 => d.op(Op::Term(0, Term::Drop))?,
        _ => {
            d.op(subscribe_all(1, t))?;
            for e in 0..n as u32 {
                d.op(emit(0, t, e, e))?;
            }
            d.op(unsubscribe_all(1, t, true))?;
            for e in (0..n as u32).rev() {
                d.op(emit(0, t, e, e))?;
            }
        }
    }
    if d.m().svc(sc(t)).is_some() {
        for e in 0..n as u32 {
            d.op(emit(0, t, e, e))?;
        }
        d.op(Op::Term(2, Term::Drop))?;
        for e in 0..n as u32 {
            d.op(emit(0, t, e, e))?;
        }
    }
    d.finish()
}

/// `n` subscribers.
pub fn subscribers(d: &mut Drive, n: usize, how: usize) -> R {
    let o = object(d, 0, 0)?;
    let t = service(d, 0, o, 0)?;
    for c in 1..=n {
        match (how + c) % 3 {
            0 => d.op(subscribe_all(c, t))?,
            1 => d.op(subscribe(c, t, 0))?,
            _ => {
                d.op(subscribe(c, t, 0))?;
                d.op(subscribe_service(c, t))?;
            }
        }
    }
    d.op(emit(0, t, 0, 1))?;
    d.op(emit(0, t, 1, 2))?;
    match how {
        0 => {
            for c in 1..=n {
                d.op(Op::Term(c, Term::Drop))?;
                d.op(emit(0, t, 0, 3))?;
            }
        }
        1 => {
            for c in (1..=n).rev() {
                d.op(unsubscribe(c, t, 0))?;
                d.op(unsubscribe_all(c, t, true))?;
                d.op(emit(0, t, 0, 3))?;
            }
        }
        2 => d.op(destroy_service(0, t))?,
        _ => d.op(Op::Term(0, Term::Drop))?,
    }
    d.finish()
}

/// Subscriptions to `n` services.
pub fn subscribed_services(d: &mut Drive, n: usize, how: usize) -> R {
    let o = object(d, 0, 0)?;
    for i in 0..n {
        let t = service(d, 0, o, i as u8)?;
        match i % 3 {
            0 => d.op(subscribe(1, t, 5))?,
            1 => d.op(subscribe_service(1, t))?,
            _ => d.op(subscribe_all(1, t))?,
        }
        d.op(subscribe(2, t, 5))?;
    }
    for t in svc_toks(d.m()) {
        d.op(emit(0, t, 5, t))?;
    }
    match how {
        0 => d.op(Op::Term(1, Term::Drop))?,
        1 => d.op(destroy_object(0, o))?,
        2 => d.op(Op::Term(0, Term::Forced))?,
        _ => {
            for t in svc_toks(d.m()) {
                d.op(destroy_service(0, t))?;
            }
        }
    }
    for t in svc_toks(d.m()) {
        d.op(emit(0, t, 5, t))?;
    }
    d.finish()
}

/// `n` channels.
pub fn channels(d: &mut Drive, n: usize, how: usize) -> R {
    for i in 0..n {
        if i % 2 == 0 {
            d.op(create_channel(0, Cap::Sender))?;
            let t = d.m().chans.last().ok_or(())?.tok;
            d.op(claim_end(1, t, Cap::Receiver(1 + i as u32)))?;
        } else {
            d.op(create_channel(1, Cap::Receiver(1 + i as u32)))?;
            let t = d.m().chans.last().ok_or(())?.tok;
            if i % 4 == 1 {
                d.op(claim_end(0, t, Cap::Sender))?;
            }
        }
    }
    for t in chan_toks(d.m()) {
        d.op(send_item(0, t, t))?;
    }
    match how {
        0 => d.op(Op::Term(0, Term::Drop))?,
        1 => d.op(Op::Term(1, Term::Forced))?,
        _ => {
            for t in chan_toks(d.m()) {
                d.op(close_end(0, t, ChannelEnd::Sender))?;
                d.op(close_end(1, t, ChannelEnd::Receiver))?;
            }
        }
    }
    d.finish()
}

/// Credit in steps of `n`.
pub fn items(d: &mut Drive, n: usize, how: usize) -> R {
    let n = n as u32;
    d.op(create_channel(0, Cap::Sender))?;
    let t = d.m().chans.last().ok_or(())?.tok;
    d.op(claim_end(1, t, Cap::Receiver(n)))?;
    for round in 0..3 {
        // The receiver returns what it has consumed.
        match how {
            0 => {
                for i in 0..n {
                    d.op(send_item(0, t, i))?;
                }
                d.op(add_capacity(1, t, n))?;
            }
            1 => {
                for i in 0..n {
                    d.op(send_item(0, t, i))?;
                    d.op(add_capacity(1, t, 1))?;
                }
            }
            _ => {
                d.op(add_capacity(1, t, n + round))?;
                for i in 0..n {
                    d.op(send_item(0, t, i))?;
                }
            }
        }
    }
    d.op(close_end(0, t, ChannelEnd::Sender))?;
    d.finish()
}

fn some_filters(n: usize) -> Vec<BusListenerFilter> {
    (0..n)
        .map(|i| {
            let (o, s) = (obj_uuid((i / 4) as u8), svc_uuid((i / 4) as u8));
            match i % 4 {
                0 => BusListenerFilter::object(o),
                1 => BusListenerFilter::specific_object_and_service(o, s),
                2 => BusListenerFilter::any_object_specific_service(s),
                _ => BusListenerFilter::specific_object_any_service(o),
            }
        })
        .collect()
}

/// `n` filters and as many objects and services, half of which exist before.
pub fn filters(d: &mut Drive, n: usize, how: usize) -> R {
    let k = n.div_ceil(4);
    for i in 0..k.div_ceil(2) {
        let o = object(d, 0, i as u8)?;
        service(d, 0, o, i as u8)?;
    }
    d.op(create_listener(1))?;
    let l = d.m().listeners.last().ok_or(())?.tok;
    for f in some_filters(n) {
        d.op(add_filter(1, l, f))?;
    }
    let scope = [BusListenerScope::All, BusListenerScope::New, BusListenerScope::Current][how % 3];
    d.op(start_listener(1, l, scope))?;
    for i in k.div_ceil(2)..k {
        let o = object(d, 0, i as u8)?;
        service(d, 0, o, i as u8)?;
        service(d, 0, o, 200)?;
    }
    let mut fs = some_filters(n);
    if how >= 3 {
        fs.reverse();
    }
    for f in fs {
        d.op(remove_filter(1, l, f))?;
        if let Some(o) = d.m().objs.first().map(|o| o.tok) {
            d.op(destroy_object(0, o))?;
            let o = object(d, 0, 0)?;
            service(d, 0, o, 0)?;
        }
    }
    d.finish()
}

/// `n` listeners on one connection and one on each of two others.
pub fn listeners(d: &mut Drive, n: usize, how: usize) -> R {
    for i in 0..n {
        let o = object(d, 0, i as u8)?;
        service(d, 0, o, (i % 3) as u8)?;
    }
    for i in 0..n {
        let c = if i == 1 { 2 } else { 1 };
        d.op(create_listener(c))?;
        let l = d.m().listeners.last().ok_or(())?.tok;
        let f = if how % 2 == 0 {
            BusListenerFilter::any_object_any_service()
        } else {
            some_filters(n)[i]
        };
        d.op(add_filter(c, l, f))?;
        if i % 3 == 0 {
            d.op(add_filter(c, l, BusListenerFilter::any_object()))?;
        }
        d.op(start_listener(c, l, BusListenerScope::All))?;
    }
    let o = object(d, 0, 250)?;
    service(d, 0, o, 0)?;
    d.op(destroy_object(0, o))?;
    match how {
        0 | 1 => {
            for l in listener_toks(d.m()) {
                let c = d.m().listeners.iter().find(|x| x.tok == l).map(|x| x.owner).ok_or(())?;
                d.op(if l % 2 == 0 { stop_listener(c, l) } else { destroy_listener(c, l) })?;
                let o = object(d, 0, 250)?;
                service(d, 0, o, 0)?;
                d.op(destroy_object(0, o))?;
            }
        }
        2 => d.op(Op::Term(1, Term::Drop))?,
        _ => d.op(Op::Term(0, Term::Drop))?,
    }
    d.finish()
}

/// `n` connections that all end together.
pub fn conns(d: &mut Drive, n: usize, how: usize) -> R {
    for c in 0..n {
        let o = object(d, c, c as u8)?;
        service(d, c, o, 0)?;
    }
    match how {
        0 => d.op(Op::ShutdownBroker)?,
        1 => {
            d.op(Op::ShutdownIdle)?;
            for c in (0..=n).rev() {
                d.op(Op::Term(c, Term::Drop))?;
            }
        }
        2 => d.op(Op::Burst((0..n).map(|c| Op::Term(c, Term::Clean)).take(5).collect()))?,
        _ => {
            for c in 0..n {
                d.op(Op::Term(c, Term::Forced))?;
            }
        }
    }
    d.finish()
}

pub const SERVICES: Script = ("services", 10, services);
pub const OBJECTS: Script = ("objects", 3, objects);
pub const CALLS: Script = ("calls", 8, calls);
pub const EVENTS: Script = ("events", 5, events);
pub const SUBSCRIBERS: Script = ("subscribers", 4, subscribers);
pub const SUBSCRIBED: Script = ("subscribed-services", 4, subscribed_services);
pub const CHANNELS: Script = ("channels", 3, channels);
pub const ITEMS: Script = ("items", 3, items);
pub const FILTERS: Script = ("filters", 4, filters);
pub const LISTENERS: Script = ("listeners", 4, listeners);
pub const CONNS: Script = ("conns", 4, conns);
pub const ALL: [Script; 11] = [
    SERVICES, OBJECTS, CALLS, EVENTS, SUBSCRIBERS, SUBSCRIBED, CHANNELS, ITEMS, FILTERS, LISTENERS,
    CONNS,
];

pub fn run(ctx: &Ctx, scripts: &[Script], judge: &(dyn Fn(&Mismatch) -> bool + std::marker::Sync), stats: bool) {
    let max = if ctx.thorough { 200 } else { 70 };
    for (name, hows, f) in scripts {
        let name = format!("bulk-{name}");
        if !ctx.only(&name) {
            continue;
        }
        let t0 = ctx.elapsed();
        let steps = AtomicU64::new(0);
        let per_conn = matches!(name.as_str(), "bulk-subscribers" | "bulk-conns");
        // The largest ones first.
        let jobs: Vec<(usize, usize)> =
            (1..=max).rev().flat_map(|n| (0..*hows).map(move |h| (n, h))).collect();
        ctx.par(jobs.len(), |j| {
            let (n, how) = jobs[j];
            let n_conns = if per_conn { n + 1 } else { 3 };
            let versions = vec![20; n_conns];
            let cfg = Cfg {
                name: name.clone(),
                versions: versions.clone(),
                prelude: Vec::new(),
                alphabet: &|_| Vec::new(),
                depth: 0,
                max_states: 0,
                judge,
                probe: None,
                stats,
                lenient: None,
                finding: None,
            };
            ctx.mark(format!("{name}: {n} of them, variant {how}").as_bytes());
            mc_common::rng::reset(0x5eed ^ n as u64);
            let mut d =
                Drive { cfg: &cfg, ctx, sys: Sys::new(&versions, Some(judge)), ops: Vec::new(), steps: &steps };
            let _ = connect_all(n_conns).into_iter().try_for_each(|o| d.op(o)).and_then(|()| f(&mut d, n, how));
        });
        let steps = steps.into_inner();
        ctx.add_states(steps);
        ctx.add_transitions(steps);
        ctx.add_traces(jobs.len() as u64);
        ctx.extra(
            &name,
            json!({"sizes": max, "ways": hows, "steps": steps, "seconds": (ctx.elapsed() - t0).as_secs_f64()}),
        );
    }
}
