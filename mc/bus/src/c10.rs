//! Bus listeners report exactly the matching current and new events.

use crate::alpha::*;
use crate::bfs::*;
use crate::model::*;
use crate::sys::*;
use aldrin_core::message::*;
use aldrin_core::{BusListenerFilter, BusListenerScope};
use mc_common::Ctx;

fn judge(m: &Mismatch) -> bool {
    use MessageKind::*;
    matches!(m.class, "closed" | "cookie" | "order")
        || kinds(
            m,
            &[
                CreateBusListenerReply,
                DestroyBusListenerReply,
                StartBusListenerReply,
                StopBusListenerReply,
                EmitBusEvent,
                BusListenerCurrentFinished,
            ],
        )
}

const SCOPES: [BusListenerScope; 3] =
    [BusListenerScope::Current, BusListenerScope::New, BusListenerScope::All];

/// All shapes over a pool of UUIDs.
fn filters(objs: u8, svcs: u8) -> Vec<BusListenerFilter> {
    let mut v = vec![BusListenerFilter::any_object(), BusListenerFilter::any_object_any_service()];
    for o in 0..objs {
        v.push(BusListenerFilter::object(obj_uuid(o)));
        v.push(BusListenerFilter::specific_object_any_service(obj_uuid(o)));
        for s in 0..svcs {
            v.push(BusListenerFilter::specific_object_and_service(obj_uuid(o), svc_uuid(s)));
        }
    }
    for s in 0..svcs {
        v.push(BusListenerFilter::any_object_specific_service(svc_uuid(s)));
    }
    v
}

#[derive(Clone)]
struct P {
    /// Connections that create objects and services.
    owners: Vec<ConnIx>,
    objs: u8,
    svcs: u8,
    max_svcs: usize,
    /// Connections that listen, and how many listeners each may have.
    listeners: Vec<(ConnIx, usize)>,
    /// Filter changes, start and stop.
    control: bool,
    filters: Vec<BusListenerFilter>,
    scopes: Vec<BusListenerScope>,
    /// Foreign and ended listeners.
    foreign: bool,
    terms: &'static [Term],
    connect: bool,
    bursts: bool,
}

fn alphabet(m: &Model, p: &P) -> Vec<Op> {
    let mut v = Vec::new();
    let mut reqs = Vec::new();
    for c in alive(m) {
        if p.owners.contains(&c) {
            for n in 0..p.objs {
                if m.objs.iter().all(|o| o.uuid != obj_uuid(n)) {
                    reqs.push(create_object(c, n));
                }
            }
            for o in m.objs.iter().filter(|o| o.owner == c) {
                reqs.push(destroy_object(c, o.tok));
                for n in 0..p.svcs {
                    if m.svcs.len() < p.max_svcs
                        && !m.svcs.iter().any(|s| s.obj == o.tok && s.uuid == svc_uuid(n))
                    {
                        reqs.push(create_service(c, o.tok, n, 0));
                    }
                }
            }
            for s in m.svcs.iter().filter(|s| s.owner == c) {
                reqs.push(destroy_service(c, s.tok));
            }
        }
        if let Some((_, max)) = p.listeners.iter().find(|l| l.0 == c) {
            if m.listeners.iter().filter(|l| l.owner == c).count() < *max {
                v.push(create_listener(c));
            }
        }
        let mut ls: Vec<Tok> =
            m.listeners.iter().filter(|l| l.owner == c || p.foreign).map(|l| l.tok).collect();
        if p.foreign {
            ls = with_stale(ls, m, 3, true);
        }
        for t in ls {
            if p.control {
                for f in &p.filters {
                    v.push(add_filter(c, t, *f));
                    v.push(remove_filter(c, t, *f));
                }
                v.push(clear_filters(c, t));
            }
            for s in &p.scopes {
                v.push(start_listener(c, t, *s));
            }
            v.push(stop_listener(c, t));
            v.push(destroy_listener(c, t));
        }
        for t in p.terms {
            v.push(Op::Term(c, *t));
        }
    }
    for c in 0..m.n() {
        if p.connect && !m.alive[c] {
            v.push(Op::Connect(c));
        }
    }
    if p.bursts {
        let ends: Vec<Op> = alive(m).into_iter().map(|c| Op::Term(c, Term::Drop)).collect();
        v.extend(queued_with_end(&reqs, &ends));
        for a in &reqs {
            for b in &reqs {
                if a != b {
                    v.push(Op::Burst(vec![a.clone(), b.clone()]));
                }
            }
        }
    }
    v.extend(reqs);
    v
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let d = |q: usize, t: usize| if th { t } else { q };
    let run = |name: &str, versions: &[u32], prelude: Vec<Op>, p: P, depth: usize| {
        if !ctx.only(name) {
            return;
        }
        let mut pre = connect_all(versions.len());
        pre.extend(prelude);
        explore(
            ctx,
            &Cfg {
                name: name.into(),
                versions: versions.to_vec(),
                prelude: pre,
                alphabet: &|m| alphabet(m, &p),
                depth,
                max_states: if th { 600_000 } else { 60_000 },
                judge: &judge,
                probe: None,
                stats: false,
                lenient: None,
                finding: None,
            },
        );
    };
    let base = P {
        owners: vec![0],
        objs: 1,
        svcs: 1,
        max_svcs: 2,
        listeners: vec![(1, 1)],
        control: true,
        filters: filters(1, 1),
        scopes: SCOPES.to_vec(),
        foreign: false,
        terms: &[],
        connect: false,
        bursts: false,
    };
    // Every history of filter changes on one listener over a populated bus: the filter sets over
    // a pool of two objects and two services (thorough), or one and two (quick), to exhaustion.
    let bus = vec![
        create_object(0, 0),
        create_service(0, 1, 0, 0),
        create_service(0, 1, 1, 0),
        create_object(0, 1),
        create_service(0, 4, 0, 0),
        create_object(0, 2),
        create_service(0, 6, 2, 0),
        create_listener(1),
    ];
    let fs = if th { filters(2, 2) } else { filters(1, 2) };
    run(
        "filters",
        &[20, 20],
        bus.clone(),
        P { owners: vec![], filters: fs, scopes: vec![BusListenerScope::Current, BusListenerScope::All], ..base.clone() },
        d(21, 24),
    );
    // The same with objects and services coming and going while the listener is configured.
    run("dynamic", &[20, 20], vec![create_listener(1)], base.clone(), d(7, 10));
    run(
        "dynamic2",
        &[20, 18],
        vec![create_listener(1)],
        P {
            objs: 2,
            svcs: 2,
            filters: vec![
                BusListenerFilter::any_object(),
                BusListenerFilter::object(obj_uuid(1)),
                BusListenerFilter::any_object_specific_service(svc_uuid(1)),
                BusListenerFilter::specific_object_and_service(obj_uuid(0), svc_uuid(1)),
            ],
            scopes: vec![BusListenerScope::All],
            ..base.clone()
        },
        d(6, 9),
    );
    // Several listeners per connection: one event per connection, whatever the number of listeners
    // that match.
    let two = |a: BusListenerFilter, b: BusListenerFilter| {
        vec![create_listener(1), create_listener(1), add_filter(1, 1, a), add_filter(1, 2, b)]
    };
    let pairs = [
        (BusListenerFilter::any_object(), BusListenerFilter::object(obj_uuid(0))),
        (BusListenerFilter::any_object_any_service(), BusListenerFilter::any_object()),
        (
            BusListenerFilter::specific_object_any_service(obj_uuid(0)),
            BusListenerFilter::any_object_specific_service(svc_uuid(0)),
        ),
        (
            BusListenerFilter::specific_object_and_service(obj_uuid(0), svc_uuid(0)),
            BusListenerFilter::specific_object_and_service(obj_uuid(1), svc_uuid(0)),
        ),
    ];
    for (i, (a, b)) in pairs.into_iter().enumerate() {
        run(
            &format!("two-listeners{i}"),
            &[20, 20],
            two(a, b),
            P {
                owners: vec![0, 1],
                objs: 2,
                control: false,
                listeners: vec![(1, 2)],
                ..base.clone()
            },
            d(6, 9),
        );
    }
    // Listeners on several connections (one of which owns objects as well); disconnects.
    run(
        "connections",
        &[20, 20, 14],
        vec![
            create_listener(1),
            add_filter(1, 1, BusListenerFilter::any_object()),
            add_filter(1, 1, BusListenerFilter::any_object_any_service()),
            start_listener(1, 1, BusListenerScope::New),
            create_listener(2),
            add_filter(2, 2, BusListenerFilter::any_object_any_service()),
        ],
        P {
            owners: vec![0, 1],
            objs: 2,
            control: false,
            listeners: vec![(1, 1), (2, 1)],
            terms: &[Term::Drop, Term::Clean],
            connect: true,
            ..base.clone()
        },
        d(6, 9),
    );
    // Foreign, ended and made-up listeners.
    run(
        "foreign",
        &[20, 20],
        vec![create_object(0, 0), create_listener(1)],
        P {
            foreign: true,
            filters: vec![BusListenerFilter::any_object()],
            listeners: vec![(0, 1), (1, 1)],
            ..base.clone()
        },
        d(6, 9),
    );
    // Several changes of the bus in one go, and together with the end of a connection.
    run(
        "queued",
        &[20, 20],
        vec![
            create_listener(1),
            add_filter(1, 1, BusListenerFilter::any_object()),
            add_filter(1, 1, BusListenerFilter::any_object_any_service()),
            start_listener(1, 1, BusListenerScope::All),
        ],
        P { control: false, bursts: true, objs: 2, owners: vec![0, 1], ..base.clone() },
        d(4, 7),
    );
    crate::bulk::run(ctx, &[crate::bulk::FILTERS, crate::bulk::LISTENERS], &judge, false);
}
