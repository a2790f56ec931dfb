//! Message constructors for the alphabets.

use crate::model::*;
use crate::sys::Op;
use aldrin_core::message::*;
use aldrin_core::*;

pub fn val(n: u32) -> SerializedValue {
    SerializedValue::serialize(n).unwrap()
}

/// Requests of different kinds and connections carry different serials.
pub fn ser(c: ConnIx, n: u32) -> u32 {
    0x100 + c as u32 * 0x40 + n
}

pub fn oc(t: Tok) -> ObjectCookie {
    ObjectCookie(cookie(t))
}
pub fn sc(t: Tok) -> ServiceCookie {
    ServiceCookie(cookie(t))
}
pub fn cc(t: Tok) -> ChannelCookie {
    ChannelCookie(cookie(t))
}
pub fn lc(t: Tok) -> BusListenerCookie {
    BusListenerCookie(cookie(t))
}

pub fn send(c: ConnIx, m: impl Into<Message>) -> Op {
    Op::Send(c, m.into())
}

pub fn create_object(c: ConnIx, n: u8) -> Op {
    send(c, CreateObject { serial: ser(c, 0), uuid: obj_uuid(n) })
}
pub fn destroy_object(c: ConnIx, t: Tok) -> Op {
    send(c, DestroyObject { serial: ser(c, 1), cookie: oc(t) })
}
pub fn create_service(c: ConnIx, t: Tok, n: u8, version: u32) -> Op {
    send(c, CreateService { serial: ser(c, 2), object_cookie: oc(t), uuid: svc_uuid(n), version })
}
pub fn create_service2(c: ConnIx, t: Tok, n: u8, info: ServiceInfo) -> Op {
    send(
        c,
        CreateService2 {
            serial: ser(c, 3),
            object_cookie: oc(t),
            uuid: svc_uuid(n),
            value: SerializedValue::serialize(info).unwrap(),
        },
    )
}
/// The newest way of creating a service that this connection may use.
pub fn create_service_any(m: &Model, c: ConnIx, t: Tok, n: u8, sub_all: bool) -> Op {
    if m.version[c] >= 17 {
        create_service2(c, t, n, ServiceInfo::new(7).set_subscribe_all(sub_all))
    } else {
        create_service(c, t, n, 7)
    }
}
pub fn destroy_service(c: ConnIx, t: Tok) -> Op {
    send(c, DestroyService { serial: ser(c, 4), cookie: sc(t) })
}
pub fn call(c: ConnIx, serial: u32, t: Tok, function: u32, n: u32) -> Op {
    send(c, CallFunction { serial, service_cookie: sc(t), function, value: val(n) })
}
pub fn call2(c: ConnIx, serial: u32, t: Tok, function: u32, version: Option<u32>, n: u32) -> Op {
    send(
        c,
        CallFunction2 { serial, service_cookie: sc(t), function, version, value: val(n) },
    )
}
pub fn call_any(m: &Model, c: ConnIx, serial: u32, t: Tok, function: u32, n: u32) -> Op {
    if m.version[c] >= 19 {
        call2(c, serial, t, function, Some(3), n)
    } else {
        call(c, serial, t, function, n)
    }
}
pub fn reply(c: ConnIx, serial: u32, result: CallFunctionResult) -> Op {
    send(c, CallFunctionReply { serial, result })
}
pub fn abort(c: ConnIx, serial: u32) -> Op {
    send(c, AbortFunctionCall { serial })
}
pub fn subscribe(c: ConnIx, t: Tok, event: u32) -> Op {
    send(c, SubscribeEvent { serial: Some(ser(c, 5)), service_cookie: sc(t), event })
}
pub fn unsubscribe(c: ConnIx, t: Tok, event: u32) -> Op {
    send(c, UnsubscribeEvent { service_cookie: sc(t), event })
}
pub fn emit(c: ConnIx, t: Tok, event: u32, n: u32) -> Op {
    send(c, EmitEvent { service_cookie: sc(t), event, value: val(n) })
}
pub fn query_version(c: ConnIx, t: Tok) -> Op {
    send(c, QueryServiceVersion { serial: ser(c, 6), cookie: sc(t) })
}
pub fn query_info(c: ConnIx, t: Tok) -> Op {
    send(c, QueryServiceInfo { serial: ser(c, 7), cookie: sc(t) })
}
pub fn subscribe_service(c: ConnIx, t: Tok) -> Op {
    send(c, SubscribeService { serial: ser(c, 8), service_cookie: sc(t) })
}
pub fn unsubscribe_service(c: ConnIx, t: Tok) -> Op {
    send(c, UnsubscribeService { service_cookie: sc(t) })
}
pub fn subscribe_all(c: ConnIx, t: Tok) -> Op {
    send(c, SubscribeAllEvents { serial: Some(ser(c, 9)), service_cookie: sc(t) })
}
pub fn unsubscribe_all(c: ConnIx, t: Tok, serial: bool) -> Op {
    send(
        c,
        UnsubscribeAllEvents { serial: serial.then_some(ser(c, 10)), service_cookie: sc(t) },
    )
}
pub fn create_channel(c: ConnIx, end: ChannelEndWithCapacity) -> Op {
    send(c, CreateChannel { serial: ser(c, 11), end })
}
pub fn close_end(c: ConnIx, t: Tok, end: ChannelEnd) -> Op {
    send(c, CloseChannelEnd { serial: ser(c, 12), cookie: cc(t), end })
}
pub fn claim_end(c: ConnIx, t: Tok, end: ChannelEndWithCapacity) -> Op {
    send(c, ClaimChannelEnd { serial: ser(c, 13), cookie: cc(t), end })
}
pub fn add_capacity(c: ConnIx, t: Tok, capacity: u32) -> Op {
    send(c, AddChannelCapacity { cookie: cc(t), capacity })
}
pub fn send_item(c: ConnIx, t: Tok, n: u32) -> Op {
    send(c, SendItem { cookie: cc(t), value: val(n) })
}
pub fn sync(c: ConnIx) -> Op {
    send(c, message::Sync { serial: ser(c, 14) })
}
pub fn create_listener(c: ConnIx) -> Op {
    send(c, CreateBusListener { serial: ser(c, 15) })
}
pub fn destroy_listener(c: ConnIx, t: Tok) -> Op {
    send(c, DestroyBusListener { serial: ser(c, 16), cookie: lc(t) })
}
pub fn add_filter(c: ConnIx, t: Tok, filter: BusListenerFilter) -> Op {
    send(c, AddBusListenerFilter { cookie: lc(t), filter })
}
pub fn remove_filter(c: ConnIx, t: Tok, filter: BusListenerFilter) -> Op {
    send(c, RemoveBusListenerFilter { cookie: lc(t), filter })
}
pub fn clear_filters(c: ConnIx, t: Tok) -> Op {
    send(c, ClearBusListenerFilters { cookie: lc(t) })
}
pub fn start_listener(c: ConnIx, t: Tok, scope: BusListenerScope) -> Op {
    send(c, StartBusListener { serial: ser(c, 17), cookie: lc(t), scope })
}
pub fn stop_listener(c: ConnIx, t: Tok) -> Op {
    send(c, StopBusListener { serial: ser(c, 18), cookie: lc(t) })
}
pub fn register_intro(c: ConnIx, types: &[u8]) -> Op {
    let ids: std::collections::HashSet<TypeId> = types.iter().map(|t| type_id(*t)).collect();
    send(c, RegisterIntrospection { value: SerializedValue::serialize(ids).unwrap() })
}
pub fn query_intro(c: ConnIx, n: u8) -> Op {
    send(c, QueryIntrospection { serial: ser(c, 19), type_id: type_id(n) })
}

pub fn alive(m: &Model) -> Vec<ConnIx> {
    (0..m.n()).filter(|c| m.alive[*c] && !m.zombie[*c]).collect()
}

pub fn zombies(m: &Model) -> Vec<ConnIx> {
    (0..m.n()).filter(|c| m.zombie[*c]).collect()
}

pub fn svc_toks(m: &Model) -> Vec<Tok> {
    m.svcs.iter().map(|s| s.tok).collect()
}
pub fn obj_toks(m: &Model) -> Vec<Tok> {
    m.objs.iter().map(|s| s.tok).collect()
}
pub fn chan_toks(m: &Model) -> Vec<Tok> {
    m.chans.iter().map(|s| s.tok).collect()
}
pub fn listener_toks(m: &Model) -> Vec<Tok> {
    m.listeners.iter().map(|s| s.tok).collect()
}

/// Live, most recently ended, and (optionally) never issued.
pub fn with_stale(mut v: Vec<Tok>, m: &Model, kind: usize, bogus: bool) -> Vec<Tok> {
    v.extend(m.stale[kind]);
    if bogus {
        v.push(BOGUS);
    }
    v
}

pub fn connect_all(n: usize) -> Vec<Op> {
    (0..n).map(Op::Connect).collect()
}

/// All ordered pairs in which the broker finds both queued at once, the first entry being a
/// request and the second the end of a connection (or the other way round).
pub fn queued_with_end(reqs: &[Op], ends: &[Op]) -> Vec<Op> {
    let mut v = Vec::new();
    for r in reqs {
        for e in ends {
            v.push(Op::Burst(vec![r.clone(), e.clone()]));
            let same = matches!((r, e), (Op::Send(a, _), Op::Term(b, _)) if a == b);
            if !same {
                v.push(Op::Burst(vec![e.clone(), r.clone()]));
            }
        }
    }
    v
}

/// A payload of arbitrary bytes, as it would arrive from a client.
pub fn raw_value(bytes: &[u8]) -> SerializedValue {
    let m = Message::from(SendItem { cookie: cc(0), value: val(0) });
    let buf = m.serialize_message().unwrap();
    let n = u32::from_le_bytes(buf[5..9].try_into().unwrap()) as usize;
    let mut v = Vec::new();
    v.extend_from_slice(&[0; 4]);
    v.push(buf[4]);
    v.extend_from_slice(&(bytes.len() as u32).to_le_bytes());
    v.extend_from_slice(bytes);
    v.extend_from_slice(&buf[9 + n..]);
    let len = v.len() as u32;
    v[..4].copy_from_slice(&len.to_le_bytes());
    let Ok(Message::SendItem(m)) = Message::deserialize_message(bytes::BytesMut::from(&v[..])) else {
        panic!("raw payload")
    };
    m.value
}
