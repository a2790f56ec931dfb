//! Object/service registry: uniqueness, ownership, cascading destruction.

use crate::alpha::*;
use crate::bfs::*;
use crate::model::*;
use crate::sys::*;
use aldrin_core::message::*;
use aldrin_core::ServiceInfo;
use mc_common::Ctx;

fn judge(m: &Mismatch) -> bool {
    use MessageKind::*;
    matches!(m.class, "closed" | "cookie")
        || kinds(
            m,
            &[
                CreateObjectReply,
                DestroyObjectReply,
                CreateServiceReply,
                DestroyServiceReply,
                QueryServiceVersionReply,
                QueryServiceInfoReply,
                SubscribeEventReply,
                SubscribeServiceReply,
                SubscribeAllEventsReply,
                CallFunction,
                CallFunction2,
                CallFunctionReply,
            ],
        )
}

#[derive(Clone, Copy)]
struct P {
    objs: u8,
    svcs: u8,
    max_objs: usize,
    max_svcs: usize,
    queries: bool,
    /// Services are created with several kinds of info.
    infos: bool,
    bogus: bool,
    bursts: bool,
    terms: &'static [Term],
    connect: bool,
}

fn alphabet(m: &Model, p: P) -> Vec<Op> {
    let mut v = Vec::new();
    let mut reqs = Vec::new();
    for c in alive(m) {
        for n in 0..p.objs {
            if m.objs.len() < p.max_objs || m.objs.iter().any(|o| o.uuid == obj_uuid(n)) {
                reqs.push(create_object(c, n));
            }
        }
        for t in with_stale(obj_toks(m), m, 0, p.bogus) {
            reqs.push(destroy_object(c, t));
            let live = m.obj(oc(t)).is_some();
            for n in 0..if live { p.svcs } else { 1 } {
                if m.svcs.len() < p.max_svcs || !live {
                    v.push(create_service_any(m, c, t, n, true));
                    if p.infos && m.version[c] >= 17 {
                        v.push(create_service(c, t, n, 0));
                        v.push(create_service2(c, t, n, ServiceInfo::new(u32::MAX)));
                        v.push(create_service2(
                            c,
                            t,
                            n,
                            ServiceInfo::new(1).set_type_id(type_id(1)).set_subscribe_all(false),
                        ));
                    }
                }
            }
        }
        for t in with_stale(svc_toks(m), m, 1, p.bogus) {
            reqs.push(destroy_service(c, t));
            if p.queries {
                let live = m.svc(sc(t)).is_some();
                v.push(query_version(c, t));
                if m.version[c] >= 17 {
                    v.push(query_info(c, t));
                }
                // These change the state of live services, which other checks go through; here
                // they only have to succeed.
                if !live || p.infos {
                    v.push(subscribe(c, t, 0));
                    if m.version[c] >= 18 {
                        v.push(subscribe_service(c, t));
                        v.push(subscribe_all(c, t));
                    }
                    let pending = m.calls.iter().filter(|x| x.caller == c).count();
                    if !live || pending == 0 {
                        v.push(call_any(m, c, m.free_serial(c), t, 0, 1));
                    }
                }
            }
        }
        for t in p.terms {
            v.push(Op::Term(c, *t));
        }
    }
    for c in 0..m.n() {
        if p.connect && !m.alive[c] {
            v.push(Op::Connect(c));
        }
    }
    if p.bursts {
        let ends: Vec<Op> = alive(m).into_iter().map(|c| Op::Term(c, Term::Drop)).collect();
        v.extend(queued_with_end(&reqs, &ends));
        // Two requests of different connections in one go.
        for a in &reqs {
            for b in &reqs {
                if let (Op::Send(x, _), Op::Send(y, _)) = (a, b) {
                    if x != y {
                        v.push(Op::Burst(vec![a.clone(), b.clone()]));
                    }
                }
            }
        }
    }
    v.extend(reqs);
    v
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let d = |q: usize, t: usize| if th { t } else { q };
    let base = P {
        objs: 2,
        svcs: 2,
        max_objs: 2,
        max_svcs: 3,
        queries: true,
        infos: false,
        bogus: true,
        bursts: false,
        terms: &[Term::Drop],
        connect: true,
    };
    let run = |name: &str, versions: &[u32], extra: Vec<Op>, p: P, depth: usize| {
        if !ctx.only(name) {
            return;
        }
        let mut prelude = connect_all(versions.len());
        prelude.extend(extra);
        explore(
            ctx,
            &Cfg {
                name: name.into(),
                versions: versions.to_vec(),
                prelude,
                alphabet: &|m| alphabet(m, p),
                depth,
                max_states: if th { 400_000 } else { 60_000 },
                judge: &judge,
                probe: None,
                stats: false,
                lenient: None,
                finding: None,
            },
        );
    };
    run("two-conns", &[20, 20], vec![], base, d(8, 10));
    run("three-conns", &[20, 20, 20], vec![], P { queries: false, bogus: false, ..base }, d(7, 9));
    run("infos", &[20, 18], vec![], P { infos: true, objs: 1, svcs: 1, ..base }, d(7, 9));
    // No services, but many objects: re-creation under another owner.
    run("objects", &[20, 14, 17], vec![], P { svcs: 0, objs: 3, max_objs: 3, queries: false, ..base }, d(7, 10));
    // Many services on one object.
    let svc = vec![create_object(0, 0), create_object(1, 1)];
    run("services", &[20, 16], svc, P { svcs: 3, max_svcs: 4, bogus: false, ..base }, d(7, 9));
    run("four-conns", &[20, 14, 17, 18], vec![], P { queries: false, bogus: false, ..base }, d(5, 8));
    run("infos-many", &[17, 20, 16], vec![create_object(0, 0)], P { infos: true, ..base }, d(4, 6));
    run("terminations", &[20, 20], vec![], P { terms: &TERMS, queries: false, ..base }, d(7, 9));
    run("queued", &[20, 20], vec![], P { bursts: true, queries: false, bogus: false, max_svcs: 2, ..base }, d(6, 9));
    crate::bulk::run(ctx, &[crate::bulk::SERVICES, crate::bulk::OBJECTS], &judge, false);
}
