//! Event delivery matches subscriptions; the owner sees the 0<->1 transitions.

use crate::alpha::*;
use crate::bfs::*;
use crate::model::*;
use crate::sys::*;
use aldrin_core::message::*;
use mc_common::Ctx;

fn judge(m: &Mismatch) -> bool {
    use MessageKind::*;
    matches!(m.class, "closed" | "dangling")
        || kinds(
            m,
            &[
                EmitEvent,
                SubscribeEvent,
                SubscribeEventReply,
                UnsubscribeEvent,
                SubscribeAllEvents,
                SubscribeAllEventsReply,
                UnsubscribeAllEvents,
                UnsubscribeAllEventsReply,
                SubscribeService,
                SubscribeServiceReply,
                UnsubscribeService,
                ServiceDestroyed,
            ],
        )
}

#[derive(Clone, Copy)]
struct P {
    events: u32,
    all: bool,
    svc_subs: bool,
    /// The owner and strangers take part, too.
    owner_subs: bool,
    strangers: bool,
    recreate: bool,
    bursts: bool,
    emit_pairs: bool,
    terms: &'static [Term],
    destroy: bool,
}

fn alphabet(m: &Model, p: P) -> Vec<Op> {
    let mut v = Vec::new();
    let mut reqs = Vec::new();
    for c in alive(m) {
        for t in with_stale(svc_toks(m), m, 1, false) {
            let live = m.svc(sc(t));
            let owner = live.map(|s| s.owner);
            let subscriber = owner != Some(c) || p.owner_subs;
            if subscriber {
                for ev in 0..p.events {
                    reqs.push(subscribe(c, t, ev));
                    if live.is_some() {
                        reqs.push(unsubscribe(c, t, ev));
                    }
                }
                if p.all && m.version[c] >= 18 {
                    reqs.push(subscribe_all(c, t));
                    if live.is_some() {
                        reqs.push(unsubscribe_all(c, t, true));
                    }
                }
                if p.svc_subs && m.version[c] >= 18 {
                    reqs.push(subscribe_service(c, t));
                    if live.is_some() {
                        reqs.push(unsubscribe_service(c, t));
                    }
                }
            }
            if owner == Some(c) || (p.strangers && live.is_some()) {
                for ev in 0..p.events + 1 {
                    v.push(emit(c, t, ev, 100 + ev));
                }
                if p.emit_pairs && owner == Some(c) {
                    // Around a change of the subscriptions by someone else.
                    for s in alive(m) {
                        if s != c {
                            for x in [subscribe(s, t, 0), unsubscribe(s, t, 0)] {
                                v.push(Op::Burst(vec![
                                    emit(c, t, 0, 1),
                                    x.clone(),
                                    emit(c, t, 0, 2),
                                ]));
                            }
                        }
                    }
                }
            }
            if live.is_none() && owner.is_none() {
                v.push(emit(c, t, 0, 55));
            }
            if owner == Some(c) && p.destroy {
                reqs.push(destroy_service(c, t));
            }
        }
        for o in &m.objs {
            if o.owner == c && p.destroy {
                reqs.push(destroy_object(c, o.tok));
                if p.recreate && m.svcs.iter().all(|s| s.obj != o.tok) {
                    v.push(create_service_any(m, c, o.tok, 0, true));
                }
            }
        }
        for t in p.terms {
            v.push(Op::Term(c, *t));
        }
    }
    for c in 0..m.n() {
        if p.recreate && !m.alive[c] {
            v.push(Op::Connect(c));
        }
    }
    if p.bursts {
        let ends: Vec<Op> = alive(m).into_iter().map(|c| Op::Term(c, Term::Drop)).collect();
        v.extend(queued_with_end(&reqs, &ends));
    }
    v.extend(reqs);
    v
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let d = |q: usize, t: usize| if th { t } else { q };
    let base = P {
        events: 1,
        all: true,
        svc_subs: true,
        owner_subs: false,
        strangers: false,
        recreate: false,
        bursts: false,
        emit_pairs: false,
        terms: &[Term::Drop],
        destroy: true,
    };
    let run = |name: &str, versions: &[u32], svcs: usize, p: P, depth: usize| {
        if !ctx.only(name) {
            return;
        }
        let m = Model::new(versions);
        let mut prelude = connect_all(versions.len());
        prelude.push(create_object(0, 0));
        for n in 0..svcs {
            prelude.push(create_service_any(&m, 0, 1, n as u8, true));
        }
        explore(
            ctx,
            &Cfg {
                name: name.into(),
                versions: versions.to_vec(),
                prelude,
                alphabet: &|m| alphabet(m, p),
                depth,
                max_states: if th { 400_000 } else { 60_000 },
                judge: &judge,
                probe: None,
                stats: false,
                lenient: None,
                finding: None,
            },
        );
    };
    run("one-event", &[20, 20, 20], 1, base, d(11, 17));
    run("two-events", &[20, 20, 20], 1, P { events: 2, svc_subs: false, ..base }, d(10, 16));
    run("owner-subscribes", &[20, 20, 20], 1, P { owner_subs: true, strangers: true, ..base }, d(10, 16));
    run("two-services", &[20, 20], 2, P { events: 2, strangers: true, ..base }, d(10, 16));
    run("recreate", &[20, 20], 1, P { recreate: true, owner_subs: true, terms: &TERMS, ..base }, d(10, 16));
    run("queued", &[20, 20, 20], 1, P { bursts: true, emit_pairs: true, ..base }, d(6, 9));
    run("three-subscribers", &[20, 20, 20, 20], 1, P { svc_subs: false, ..base }, d(10, 16));
    // Without subscribe-all at either side, or at the owner only.
    for (i, vs) in [[17, 20, 14], [20, 17, 16], [14, 20, 20], [18, 18, 17]].iter().enumerate() {
        run(&format!("mixed{i}"), vs, 1, P { events: 2, owner_subs: true, ..base }, d(9, 15));
    }
    // Everything at once, less deep.
    let all = P { events: 2, owner_subs: true, strangers: true, recreate: true, ..base };
    run("large", &[20, 20, 20], 2, all, d(5, 7));
    run("large-mixed", &[18, 20, 17], 2, all, d(5, 7));
    run("large-old-owner", &[17, 20, 14], 2, all, d(5, 7));
    run("four-subscribers", &[20, 18, 17, 20, 16], 1, P { events: 2, svc_subs: false, ..base }, d(6, 8));
    crate::bulk::run(ctx, &[crate::bulk::EVENTS, crate::bulk::SUBSCRIBERS, crate::bulk::SUBSCRIBED], &judge, false);
}
