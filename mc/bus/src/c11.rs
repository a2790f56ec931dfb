//! The broker survives arbitrary message sequences and keeps serving others.

use crate::alpha::*;
use crate::bfs::*;
use crate::model::*;
use crate::sys::*;
use aldrin_core::message::*;
use aldrin_core::{
    BusEvent, BusListenerFilter, BusListenerScope, ChannelEnd, ChannelEndWithCapacity as Cap,
    ObjectId, SerializedValue, ServiceId, ServiceInfo,
};
use mc_common::Ctx;

/// Connection 0 is the attacker. 1 and 2 are victims; 3 connects afterwards.
const A: ConnIx = 0;
const PROBE: ConnIx = 3;

fn ill_formed() -> Vec<SerializedValue> {
    vec![
        // No such kind; a string longer than the payload; an array of 2^32-1 elements.
        raw_value(&[0xfe]),
        raw_value(&[13, 200, 1]),
        raw_value(&[18, 0xff, 0xff, 0xff, 0xff, 0xff]),
        // Something behind the value.
        raw_value(&[0, 0, 0]),
    ]
}

pub fn is_ill_formed(m: &Message) -> bool {
    m.value_opt().is_some_and(|v| ill_formed().iter().any(|g| g[..] == v[..]))
}

trait ValueOpt {
    fn value_opt(&self) -> Option<&aldrin_core::SerializedValueSlice>;
}
impl ValueOpt for Message {
    fn value_opt(&self) -> Option<&aldrin_core::SerializedValueSlice> {
        use aldrin_core::message::MessageOps;
        MessageOps::value(self)
    }
}

struct Pools {
    objs: Vec<Tok>,
    svcs: Vec<Tok>,
    chans: Vec<Tok>,
    listeners: Vec<Tok>,
    serials: Vec<u32>,
    values: Vec<SerializedValue>,
}

fn pools(m: &Model, wide: bool) -> Pools {
    let mut serials: Vec<u32> = m.calls.iter().map(|c| c.bserial).collect();
    serials.extend(m.intro.values().filter_map(|i| i.queried.map(|q| q.1)));
    serials.extend(m.stale_call.map(|s| s.1));
    serials.push(BOGUS_SERIAL);
    serials.sort();
    serials.dedup();
    Pools {
        objs: with_stale(obj_toks(m), m, 0, wide),
        svcs: with_stale(svc_toks(m), m, 1, true),
        chans: with_stale(chan_toks(m), m, 2, wide),
        listeners: with_stale(listener_toks(m), m, 3, wide),
        serials,
        values: if wide { ill_formed() } else { vec![ill_formed()[0].clone()] },
    }
}

/// Everything a client has no business sending.
fn wrong_direction(m: &Model, p: &Pools) -> Vec<Message> {
    let o = p.objs.first().copied().unwrap_or(BOGUS);
    let s = p.svcs.first().copied().unwrap_or(BOGUS);
    let h = p.chans.first().copied().unwrap_or(BOGUS);
    let l = p.listeners.first().copied().unwrap_or(BOGUS);
    let id = ObjectId::new(obj_uuid(0), oc(o));
    let _ = m;
    vec![
        Connect { version: 14, value: val(0) }.into(),
        connect2_msg(20),
        ConnectReply::Ok(val(0)).into(),
        ConnectReply::IncompatibleVersion(14).into(),
        ConnectReply2 { result: ConnectResult::Ok(20), value: val(0) }.into(),
        CreateObjectReply { serial: 0, result: CreateObjectResult::Ok(oc(o)) }.into(),
        DestroyObjectReply { serial: 0, result: DestroyObjectResult::Ok }.into(),
        CreateServiceReply { serial: 0, result: CreateServiceResult::Ok(sc(s)) }.into(),
        DestroyServiceReply { serial: 0, result: DestroyServiceResult::Ok }.into(),
        SubscribeEvent { serial: None, service_cookie: sc(s), event: 0 }.into(),
        SubscribeAllEvents { serial: None, service_cookie: sc(s) }.into(),
        SubscribeEventReply { serial: 0, result: SubscribeEventResult::Ok }.into(),
        QueryServiceVersionReply { serial: 0, result: QueryServiceVersionResult::Ok(1) }.into(),
        CreateChannelReply { serial: 0, cookie: cc(h) }.into(),
        CloseChannelEndReply { serial: 0, result: CloseChannelEndResult::Ok }.into(),
        ChannelEndClosed { cookie: cc(h), end: ChannelEnd::Sender }.into(),
        ClaimChannelEndReply { serial: 0, result: ClaimChannelEndResult::SenderClaimed(1) }.into(),
        ChannelEndClaimed { cookie: cc(h), end: Cap::Receiver(3) }.into(),
        ItemReceived { cookie: cc(h), value: val(0) }.into(),
        SyncReply { serial: 0 }.into(),
        ServiceDestroyed { service_cookie: sc(s) }.into(),
        CreateBusListenerReply { serial: 0, cookie: lc(l) }.into(),
        DestroyBusListenerReply { serial: 0, result: DestroyBusListenerResult::Ok }.into(),
        StartBusListenerReply { serial: 0, result: StartBusListenerResult::Ok }.into(),
        StopBusListenerReply { serial: 0, result: StopBusListenerResult::Ok }.into(),
        EmitBusEvent { cookie: None, event: BusEvent::ObjectDestroyed(id) }.into(),
        EmitBusEvent {
            cookie: Some(lc(l)),
            event: BusEvent::ServiceDestroyed(ServiceId::new(id, svc_uuid(0), sc(s))),
        }
        .into(),
        BusListenerCurrentFinished { cookie: lc(l) }.into(),
        QueryServiceInfoReply { serial: 0, result: QueryServiceInfoResult::Ok(val(0)) }.into(),
        SubscribeServiceReply { serial: 0, result: SubscribeServiceResult::Ok }.into(),
        SubscribeAllEventsReply { serial: 0, result: SubscribeAllEventsResult::Ok }.into(),
        UnsubscribeAllEventsReply { serial: 0, result: UnsubscribeAllEventsResult::Ok }.into(),
    ]
}

/// Whatever connection `c` may try.
pub fn attack(m: &Model, c: ConnIx, wide: bool) -> Vec<Op> {
    let p = pools(m, wide);
    let mut v = Vec::new();
    for n in 0..3 {
        v.push(create_object(c, n));
    }
    for &t in &p.objs {
        v.push(destroy_object(c, t));
        v.push(create_service(c, t, 0, 1));
        v.push(create_service2(c, t, 1, ServiceInfo::new(1).set_subscribe_all(true)));
        let mut bad = p.values.clone();
        bad.push(val(7));
        for b in bad {
            v.push(send(
                c,
                CreateService2 { serial: 1, object_cookie: oc(t), uuid: svc_uuid(2), value: b },
            ));
        }
    }
    let used = m.calls.iter().filter(|x| x.caller == c).count();
    for &t in &p.svcs {
        v.push(destroy_service(c, t));
        if used < 3 {
            v.push(call(c, m.free_serial(c), t, 0, 1));
            v.push(call2(c, m.free_serial(c), t, u32::MAX, None, 1));
            for b in &p.values {
                v.push(send(
                    c,
                    CallFunction { serial: 90, service_cookie: sc(t), function: 0, value: b.clone() },
                ));
                v.push(send(
                    c,
                    CallFunction2 {
                        serial: 91,
                        service_cookie: sc(t),
                        function: 0,
                        version: Some(1),
                        value: b.clone(),
                    },
                ));
            }
        }
        // A serial that is in use already.
        if let Some(x) = m.calls.iter().find(|x| x.caller == c) {
            v.push(call(c, x.serial, t, 0, 1));
        }
        for ev in [0, 7] {
            v.push(subscribe(c, t, ev));
            v.push(unsubscribe(c, t, ev));
            v.push(emit(c, t, ev, 66));
        }
        for b in &p.values {
            v.push(send(c, EmitEvent { service_cookie: sc(t), event: 0, value: b.clone() }));
        }
        v.push(query_version(c, t));
        v.push(query_info(c, t));
        v.push(subscribe_service(c, t));
        v.push(unsubscribe_service(c, t));
        v.push(subscribe_all(c, t));
        v.push(unsubscribe_all(c, t, true));
        v.push(unsubscribe_all(c, t, false));
    }
    // Serials of the attacker and of others.
    let mut aborts: Vec<u32> = m.calls.iter().map(|c| c.serial).collect();
    aborts.push(BOGUS_SERIAL);
    aborts.sort();
    aborts.dedup();
    for s in aborts {
        v.push(abort(c, s));
    }
    for &s in &p.serials {
        for r in [CallFunctionResult::Ok(val(3)), CallFunctionResult::Aborted] {
            v.push(reply(c, s, r));
        }
        for b in &p.values {
            v.push(reply(c, s, CallFunctionResult::Ok(b.clone())));
            v.push(reply(c, s, CallFunctionResult::Err(b.clone())));
        }
        for r in [
            QueryIntrospectionResult::Unavailable,
            QueryIntrospectionResult::Ok(val(4)),
            QueryIntrospectionResult::Ok(p.values[0].clone()),
        ] {
            v.push(send(c, QueryIntrospectionReply { serial: s, result: r }));
        }
    }
    if m.chans.len() < 6 {
        v.push(create_channel(c, Cap::Sender));
        v.push(create_channel(c, Cap::Receiver(0)));
        v.push(create_channel(c, Cap::Receiver(u32::MAX)));
    }
    for &t in &p.chans {
        v.push(claim_end(c, t, Cap::Sender));
        v.push(claim_end(c, t, Cap::Receiver(u32::MAX)));
        v.push(claim_end(c, t, Cap::Receiver(0)));
        v.push(close_end(c, t, ChannelEnd::Sender));
        v.push(close_end(c, t, ChannelEnd::Receiver));
        v.push(add_capacity(c, t, 0));
        v.push(add_capacity(c, t, 1));
        v.push(add_capacity(c, t, u32::MAX));
        v.push(send_item(c, t, 12));
        for b in &p.values {
            v.push(send(c, SendItem { cookie: cc(t), value: b.clone() }));
        }
    }
    v.push(sync(c));
    if m.listeners.iter().filter(|l| l.owner == c).count() < 2 {
        v.push(create_listener(c));
    }
    for &t in &p.listeners {
        v.push(destroy_listener(c, t));
        v.push(add_filter(c, t, BusListenerFilter::any_object()));
        v.push(add_filter(c, t, BusListenerFilter::specific_object_and_service(obj_uuid(1), svc_uuid(0))));
        v.push(remove_filter(c, t, BusListenerFilter::any_object()));
        v.push(clear_filters(c, t));
        for s in [BusListenerScope::Current, BusListenerScope::New, BusListenerScope::All] {
            v.push(start_listener(c, t, s));
        }
        v.push(stop_listener(c, t));
    }
    v.push(register_intro(c, &[0, 1]));
    v.push(register_intro(c, &[]));
    for b in p.values.iter().cloned().chain([val(1)]) {
        v.push(send(c, RegisterIntrospection { value: b }));
    }
    for n in 0..3 {
        v.push(query_intro(c, n));
    }
    for w in wrong_direction(m, &p) {
        v.push(send(c, w));
    }
    v
}

/// What the victims go on doing meanwhile.
fn victims(m: &Model) -> Vec<Op> {
    let mut v = Vec::new();
    for c in alive(m) {
        if c == A || c == PROBE {
            continue;
        }
        for s in m.svcs.iter().filter(|s| s.owner == A) {
            if m.calls.iter().filter(|x| x.caller == c).count() < 2 {
                v.push(call_any(m, c, m.free_serial(c), s.tok, 0, 1));
            }
            v.push(subscribe(c, s.tok, 0));
        }
        for x in &m.calls {
            if m.svcs.iter().any(|s| s.tok == x.svc && s.owner == c) {
                v.push(reply(c, x.bserial, CallFunctionResult::Ok(val(6))));
            }
            if x.caller == c && !x.aborted && m.version[c] >= 16 {
                v.push(abort(c, x.serial));
            }
        }
        for ch in m.chans.iter() {
            let touches_a = matches!(ch.tx, End::Claimed(A, _)) || matches!(ch.rx, End::Claimed(A, _));
            if touches_a {
                if ch.tx == End::Unclaimed {
                    v.push(claim_end(c, ch.tok, Cap::Sender));
                }
                if ch.rx == End::Unclaimed {
                    v.push(claim_end(c, ch.tok, Cap::Receiver(1)));
                }
                if matches!(ch.tx, End::Claimed(o, n) if o == c && n > 0) {
                    v.push(send_item(c, ch.tok, 3));
                }
            }
        }
        v.push(Op::Term(c, Term::Drop));
    }
    v
}

fn alphabet(m: &Model, wide: bool) -> Vec<Op> {
    let mut v = Vec::new();
    if alive(m).contains(&A) {
        v.extend(attack(m, A, wide));
        v.push(Op::Term(A, Term::Clean));
        v.push(Op::Term(A, Term::Drop));
    } else if !m.alive[A] {
        v.push(Op::Connect(A));
    }
    v.extend(victims(m));
    v
}

/// A well-behaved connection is served afterwards, and so are the victims.
fn probe(sys: &mut Sys, how: u64) -> Result<(), Mismatch> {
    let st = |s: &mut Sys, o: Op| s.step(&o, &mut None);
    st(sys, Op::Connect(PROBE))?;
    let t = sys.model.next_tok;
    st(sys, create_object(PROBE, 9))?;
    let o = create_service_any(&sys.model, PROBE, t, 0, true);
    st(sys, o)?;
    st(sys, create_channel(PROBE, Cap::Receiver(2)))?;
    for c in alive(&sys.model) {
        if c == PROBE || c == A {
            continue;
        }
        st(sys, sync(c))?;
        let o = call_any(&sys.model, c, sys.model.free_serial(c), t + 1, 0, 1);
        st(sys, o)?;
        let b = sys.model.calls.last().unwrap().bserial;
        st(sys, reply(PROBE, b, CallFunctionResult::Ok(val(2))))?;
        st(sys, subscribe(c, t + 1, 3))?;
    }
    st(sys, emit(PROBE, t + 1, 3, 8))?;
    if let Some(c) = alive(&sys.model).into_iter().find(|c| *c != PROBE && *c != A) {
        st(sys, claim_end(c, t + 2, Cap::Sender))?;
        st(sys, send_item(c, t + 2, 1))?;
        st(sys, send_item(c, t + 2, 2))?;
        // The other way round: the victims' services still answer.
        let s = sys.model.svcs.iter().find(|s| s.owner == c).map(|s| s.tok);
        if let Some(s) = s {
            let o = call_any(&sys.model, PROBE, sys.model.free_serial(PROBE), s, 0, 1);
            st(sys, o)?;
            let b = sys.model.calls.last().unwrap().bserial;
            st(sys, reply(c, b, CallFunctionResult::Ok(val(2))))?;
        }
    }
    st(sys, sync(PROBE))?;
    sys.lenient = None;
    cleanup_probe(sys, how, &[Term::Clean, Term::Drop, Term::Forced])
}

/// A bit of everything between the attacker and two victims.
pub fn busy_prelude(versions: &[u32]) -> Vec<Op> {
    let m = Model::new(versions);
    let mut prelude: Vec<Op> = (0..3).map(Op::Connect).collect();
    // tokens: 1 object, 2 service (victim 1); 3, 4 (attacker)
    prelude.extend([
        create_object(1, 1),
        create_service_any(&m, 1, 1, 0, true),
        create_object(A, 0),
        create_service_any(&m, A, 3, 0, true),
        // 5: both ends with the victims; 6: the attacker holds the sender, 7: the receiver;
        // 8: half open.
        create_channel(1, Cap::Sender),
        claim_end(2, 5, Cap::Receiver(2)),
        create_channel(A, Cap::Sender),
        claim_end(2, 6, Cap::Receiver(1)),
        create_channel(A, Cap::Receiver(1)),
        claim_end(1, 7, Cap::Sender),
        create_channel(1, Cap::Receiver(1)),
        // 9: a listener of a victim, 10: of the attacker.
        create_listener(2),
        add_filter(2, 9, BusListenerFilter::any_object()),
        start_listener(2, 9, BusListenerScope::All),
        create_listener(A),
        subscribe(2, 2, 0),
        subscribe(1, 4, 0),
        call_any(&m, 2, 32, 2, 0, 1),
        call_any(&m, 1, 16, 4, 0, 1),
        call_any(&m, A, 0, 2, 0, 1),
    ]);
    if versions[1] >= 17 && versions[2] >= 17 && versions[A] >= 17 {
        prelude.push(register_intro(1, &[1]));
        prelude.push(query_intro(2, 1));
        prelude.push(register_intro(A, &[2]));
        prelude.push(query_intro(1, 2));
        prelude.push(query_intro(2, 2));
    }
    prelude
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let d = |q: usize, t: usize| if th { t } else { q };
    ctx.assume("The attacker itself may be answered, ignored or closed; everyone else must see exactly what the model of the protocol says.");
    let run = |name: &str, versions: &[u32], wide: bool, depth: usize| {
        if !ctx.only(name) {
            return;
        }
        let prelude = busy_prelude(versions);
        explore(
            ctx,
            &Cfg {
                name: name.into(),
                versions: versions.to_vec(),
                prelude,
                alphabet: &|m| alphabet(m, wide),
                depth,
                max_states: if th { 400_000 } else { 60_000 },
                judge: &|m| m.conn != A || matches!(m.class, "statistics" | "residual" | "idle" | "broker-run"),
                probe: Some(&probe),
                stats: false,
                lenient: Some(A),
                finding: Some(&|m, op| {
                    // A payload that an older peer has to be sent in another encoding.
                    let Op::Send(A, msg) = op else { return None };
                    // Someone else's connection is closed; others may be told about that first.
                    // (Introspections are kept as they are and always converted.)
                    let mixed = (versions[A] >= 20
                        || msg.kind() == MessageKind::QueryIntrospectionReply)
                        && versions.iter().any(|v| *v < 20);
                    (mixed
                        && matches!(m.class, "closed" | "extra" | "missing")
                        && is_ill_formed(msg)
                        && m.conn != A)
                        .then(|| format!("C11/ill-formed-payload/{:?}", msg.kind()))
                }),
            },
        );
    };
    run("modern", &[20, 20, 20, 20], true, d(2, 3));
    run("modern-deep", &[20, 20, 20, 20], false, d(3, 4));
    run("old-victims", &[20, 14, 16, 20], false, d(2, 3));
    run("old-attacker", &[14, 20, 20, 20], false, d(2, 3));
    run("mid-attacker", &[17, 20, 18, 20], false, d(2, 3));
    run("mixed", &[19, 15, 20, 14], false, d(3, 4));
}
