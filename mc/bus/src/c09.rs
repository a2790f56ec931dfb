//! Disconnect and shutdown cleanup: no residual state, exact counters.

use crate::alpha::*;
use crate::bfs::*;
use crate::model::*;
use crate::sys::*;
use aldrin_core::message::*;
use aldrin_core::{BusListenerFilter, BusListenerScope, ChannelEnd, ChannelEndWithCapacity as Cap, SerializedValue};
use mc_common::Ctx;

#[derive(Clone, Copy, Default)]
struct P {
    objs: u8,
    svcs: usize,
    calls: usize,
    /// 0: none, 1: one event, 2: also all events and the service itself
    subs: u8,
    chans: usize,
    listeners: usize,
    intro: bool,
    bursts: bool,
    /// Pairs of requests together with the end of a connection.
    burst_pairs: bool,
    reconnect: bool,
    one_term: bool,
}

fn requests(m: &Model, p: P) -> Vec<Op> {
    let mut v = Vec::new();
    for c in alive(m) {
        for n in 0..p.objs {
            if m.objs.iter().all(|o| o.uuid != obj_uuid(n)) {
                v.push(create_object(c, n));
            }
        }
        for o in m.objs.iter().filter(|o| o.owner == c) {
            v.push(destroy_object(c, o.tok));
            if m.svcs.len() < p.svcs && m.svcs.iter().all(|s| s.obj != o.tok) {
                v.push(create_service_any(m, c, o.tok, 0, true));
            }
        }
        for s in &m.svcs {
            if s.owner == c {
                v.push(destroy_service(c, s.tok));
                if p.subs > 0 {
                    v.push(emit(c, s.tok, 0, 1));
                }
            }
            if p.subs > 0 {
                let on = s.ev.contains(&(0, c));
                v.push(if on { unsubscribe(c, s.tok, 0) } else { subscribe(c, s.tok, 0) });
            }
            if p.subs > 1 && m.version[c] >= 18 {
                let on = s.all.contains(&c);
                v.push(if on { unsubscribe_all(c, s.tok, true) } else { subscribe_all(c, s.tok) });
                let on = s.subs.contains(&c);
                v.push(if on { unsubscribe_service(c, s.tok) } else { subscribe_service(c, s.tok) });
            }
            if m.calls.len() < p.calls {
                v.push(call_any(m, c, m.free_serial(c), s.tok, 0, 5));
            }
        }
        for x in &m.calls {
            if x.caller == c && !x.aborted && m.version[c] >= 16 {
                v.push(abort(c, x.serial));
            }
            if m.svcs.iter().any(|s| s.tok == x.svc && s.owner == c) {
                v.push(reply(c, x.bserial, CallFunctionResult::Ok(val(6))));
            }
        }
        if m.chans.len() < p.chans {
            v.push(create_channel(c, Cap::Sender));
            v.push(create_channel(c, Cap::Receiver(2)));
        }
        for ch in &m.chans {
            let mine = |e: End| matches!(e, End::Claimed(o, _) if o == c) || e == End::Unclaimed;
            if ch.tx == End::Unclaimed {
                v.push(claim_end(c, ch.tok, Cap::Sender));
            }
            if ch.rx == End::Unclaimed {
                v.push(claim_end(c, ch.tok, Cap::Receiver(2)));
            }
            if mine(ch.tx) {
                v.push(close_end(c, ch.tok, ChannelEnd::Sender));
            }
            if mine(ch.rx) {
                v.push(close_end(c, ch.tok, ChannelEnd::Receiver));
            }
            if matches!(ch.tx, End::Claimed(o, _) if o == c) {
                v.push(send_item(c, ch.tok, 3));
            }
            if matches!(ch.rx, End::Claimed(o, n) if o == c && n < 3) {
                v.push(add_capacity(c, ch.tok, 1));
            }
        }
        if m.listeners.len() < p.listeners {
            v.push(create_listener(c));
        }
        for l in m.listeners.iter().filter(|l| l.owner == c) {
            v.push(destroy_listener(c, l.tok));
            if l.filters.is_empty() {
                v.push(add_filter(c, l.tok, BusListenerFilter::any_object()));
            }
            match l.scope {
                None => v.push(start_listener(c, l.tok, BusListenerScope::All)),
                Some(_) => v.push(stop_listener(c, l.tok)),
            }
        }
        if p.intro && m.version[c] >= 17 {
            for t in 0..2 {
                if m.intro.get(&type_id(t)).is_none_or(|i| !i.conns.contains(&c)) {
                    v.push(register_intro(c, &[t]));
                }
                let pending = m
                    .intro
                    .get(&type_id(t))
                    .is_some_and(|i| i.pending.iter().any(|x| x.0 == c));
                if !pending {
                    v.push(query_intro(c, t));
                }
            }
            for i in m.intro.values() {
                if let Some((q, s)) = i.queried {
                    if q == c {
                        v.push(send(
                            c,
                            QueryIntrospectionReply {
                                serial: s,
                                result: QueryIntrospectionResult::Ok(
                                    SerializedValue::serialize(9u8).unwrap(),
                                ),
                            },
                        ));
                    }
                }
            }
        }
    }
    v
}

fn alphabet(m: &Model, p: P) -> Vec<Op> {
    let reqs = requests(m, p);
    let mut v = Vec::new();
    let terms: &[Term] = if p.one_term { &[Term::Drop] } else { &TERMS };
    for c in alive(m) {
        for t in terms {
            v.push(Op::Term(c, *t));
        }
    }
    for c in zombies(m) {
        v.push(Op::Term(c, Term::Forced));
    }
    v.push(Op::ShutdownBroker);
    if p.reconnect {
        for c in 0..m.n() {
            if !m.alive[c] {
                v.push(Op::Connect(c));
                v.push(Op::Burst(vec![Op::Connect(c), Op::Term(c, Term::Drop)]));
            }
        }
    }
    if p.bursts {
        let ends: Vec<Op> = alive(m)
            .into_iter()
            .flat_map(|c| terms.iter().map(move |t| Op::Term(c, *t)))
            .collect();
        v.extend(queued_with_end(&reqs, &ends));
        // Two connections end at once.
        for a in &ends {
            for b in &ends {
                if let (Op::Term(x, _), Op::Term(y, _)) = (a, b) {
                    if x != y {
                        v.push(Op::Burst(vec![a.clone(), b.clone()]));
                    }
                }
            }
        }
    }
    if p.burst_pairs {
        for a in &reqs {
            for b in &reqs {
                for c in alive(m) {
                    if a != b {
                        v.push(Op::Burst(vec![a.clone(), b.clone(), Op::Term(c, Term::Drop)]));
                    }
                }
            }
        }
    }
    v.extend(reqs);
    v
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let d = |q: usize, t: usize| if th { t } else { q };
    ctx.assume("A dropped task is noticed by the broker at once or when it next sends something to the connection; the former is what the property asks for, the latter is a known finding.");
    let run = |name: &str, versions: &[u32], extra: Vec<Op>, p: P, depth: usize| {
        if !ctx.only(name) {
            return;
        }
        let mut prelude = connect_all(versions.len());
        prelude.extend(extra);
        explore(
            ctx,
            &Cfg {
                name: name.into(),
                versions: versions.to_vec(),
                prelude,
                alphabet: &|m| alphabet(m, p),
                depth,
                max_states: if th { 400_000 } else { 60_000 },
                judge: &judge_all,
                probe: Some(&|s, how| {
                    // The broker asks a random connection for introspection, so which dropped one
                    // it notices is random, too.
                    cleanup_probe(s, how, if p.intro { &TERMS[..3] } else { &TERMS })
                }),
                stats: true,
                lenient: None,
                finding: None,
            },
        );
    };
    let obj = vec![create_object(0, 0), create_service(0, 1, 0, 0)];
    let svc2 = |m: &[u32]| {
        vec![create_object(0, 0), create_service_any(&Model::new(m), 0, 1, 0, true)]
    };
    run("objects", &[20, 20], vec![], P { objs: 2, svcs: 2, reconnect: true, ..P::default() }, d(6, 8));
    run("calls", &[20, 20, 14], obj.clone(), P { svcs: 1, calls: 3, ..P::default() }, d(5, 7));
    run("events", &[20, 20, 20], svc2(&[20]), P { svcs: 1, subs: 2, one_term: true, ..P::default() }, d(6, 8));
    run("events2", &[20, 20], svc2(&[20]), P { svcs: 1, subs: 2, reconnect: true, ..P::default() }, d(6, 8));
    run("channels", &[20, 20], vec![], P { chans: 2, ..P::default() }, d(6, 8));
    run("listeners", &[20, 20], vec![], P { listeners: 2, objs: 1, svcs: 1, ..P::default() }, d(6, 8));
    run("introspection", &[20, 20, 17], vec![], P { intro: true, one_term: true, ..P::default() }, d(5, 7));
    run("all", &[20, 20], svc2(&[20]), P { objs: 1, svcs: 1, calls: 1, subs: 2, chans: 1, listeners: 1, one_term: true, ..P::default() }, d(6, 8));
    run("all3", &[20, 16, 18], svc2(&[20]), P { objs: 1, svcs: 1, calls: 2, subs: 1, chans: 1, listeners: 1, ..P::default() }, d(4, 6));
    // Requests still queued in the broker.
    run("queued-calls", &[20, 20], obj.clone(), P { objs: 1, svcs: 1, calls: 2, bursts: true, ..P::default() }, d(4, 6));
    run("queued-events", &[20, 20], svc2(&[20]), P { svcs: 1, subs: 2, bursts: true, ..P::default() }, d(4, 6));
    run("queued-channels", &[20, 20], vec![], P { chans: 2, bursts: true, ..P::default() }, d(4, 6));
    run("queued-listeners", &[20, 20], vec![], P { objs: 1, svcs: 1, listeners: 1, bursts: true, ..P::default() }, d(4, 6));
    run("queued-pairs", &[20, 20], svc2(&[20]), P { svcs: 1, calls: 1, subs: 2, chans: 1, burst_pairs: true, one_term: true, ..P::default() }, d(3, 5));
    crate::bulk::run(ctx, &crate::bulk::ALL, &judge_all, true);
}
