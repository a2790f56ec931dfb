//! C08: message codec round-trip and strict parsing of all message kinds.

use crate::c07::{mutations, short};
use crate::refcodec::put_varint;
use aldrin_core::message::*;
use aldrin_core::{
    BusEvent, BusListenerCookie, BusListenerFilter, BusListenerScope, BusListenerServiceFilter,
    ChannelCookie, ChannelEnd, ChannelEndWithCapacity, ObjectCookie, ObjectId, ObjectUuid,
    SerializedValue, ServiceCookie, ServiceId, ServiceUuid, TypeId,
};
use bytes::BytesMut;
use mc_common::{catch, hex, Ctx};
use serde_json::json;
use uuid::Uuid;

/// One field of the wire grammar.
enum F {
    /// varint u32
    N,
    /// 16 bytes
    U,
    /// A discriminant byte selecting what follows; discriminants are 0, 1, ...
    D(&'static [&'static [F]]),
}
use F::*;

/// A message kind: name, does it carry a value, its fields, and for which values of its first
/// top-level discriminant the value is just a placeholder.
struct Kind(&'static str, bool, &'static [F], &'static [u8]);

const E: &[F] = &[];
const OPT_N: F = D(&[E, &[N]]);
const END: F = D(&[E, E]);
const END_CAP: F = D(&[E, &[N]]);
const FILTER: F = D(&[E, &[U], E, &[U], &[U], &[U, U]]);
const R2: F = D(&[E, E]);
const R3: F = D(&[E, E, E]);

const KINDS: [Kind; 63] = [
    Kind("Connect", true, &[N], &[]),
    Kind("ConnectReply", true, &[D(&[E, &[N], E])], &[1]),
    Kind("Shutdown", false, E, &[]),
    Kind("CreateObject", false, &[N, U], &[]),
    Kind("CreateObjectReply", false, &[N, D(&[&[U], E])], &[]),
    Kind("DestroyObject", false, &[N, U], &[]),
    Kind("DestroyObjectReply", false, &[N, R3], &[]),
    Kind("CreateService", false, &[N, U, U, N], &[]),
    Kind("CreateServiceReply", false, &[N, D(&[&[U], E, E, E])], &[]),
    Kind("DestroyService", false, &[N, U], &[]),
    Kind("DestroyServiceReply", false, &[N, R3], &[]),
    Kind("CallFunction", true, &[N, U, N], &[]),
    Kind("CallFunctionReply", true, &[N, D(&[E, E, E, E, E, E])], &[2, 3, 4, 5]),
    Kind("SubscribeEvent", false, &[OPT_N, U, N], &[]),
    Kind("SubscribeEventReply", false, &[N, R2], &[]),
    Kind("UnsubscribeEvent", false, &[U, N], &[]),
    Kind("EmitEvent", true, &[U, N], &[]),
    Kind("QueryServiceVersion", false, &[N, U], &[]),
    Kind("QueryServiceVersionReply", false, &[N, D(&[&[N], E])], &[]),
    Kind("CreateChannel", false, &[N, END_CAP], &[]),
    Kind("CreateChannelReply", false, &[N, U], &[]),
    Kind("CloseChannelEnd", false, &[N, U, END], &[]),
    Kind("CloseChannelEndReply", false, &[N, R3], &[]),
    Kind("ChannelEndClosed", false, &[U, END], &[]),
    Kind("ClaimChannelEnd", false, &[N, U, END_CAP], &[]),
    Kind("ClaimChannelEndReply", false, &[N, D(&[&[N], E, E, E])], &[]),
    Kind("ChannelEndClaimed", false, &[U, END_CAP], &[]),
    Kind("SendItem", true, &[U], &[]),
    Kind("ItemReceived", true, &[U], &[]),
    Kind("AddChannelCapacity", false, &[U, N], &[]),
    Kind("Sync", false, &[N], &[]),
    Kind("SyncReply", false, &[N], &[]),
    Kind("ServiceDestroyed", false, &[U], &[]),
    Kind("CreateBusListener", false, &[N], &[]),
    Kind("CreateBusListenerReply", false, &[N, U], &[]),
    Kind("DestroyBusListener", false, &[N, U], &[]),
    Kind("DestroyBusListenerReply", false, &[N, R2], &[]),
    Kind("AddBusListenerFilter", false, &[U, FILTER], &[]),
    Kind("RemoveBusListenerFilter", false, &[U, FILTER], &[]),
    Kind("ClearBusListenerFilters", false, &[U], &[]),
    Kind("StartBusListener", false, &[N, U, R3], &[]),
    Kind("StartBusListenerReply", false, &[N, R3], &[]),
    Kind("StopBusListener", false, &[N, U], &[]),
    Kind("StopBusListenerReply", false, &[N, R3], &[]),
    Kind("EmitBusEvent", false, &[D(&[E, &[U]]), D(&[&[U, U], &[U, U], &[U, U, U, U], &[U, U, U, U]])], &[]),
    Kind("BusListenerCurrentFinished", false, &[U], &[]),
    Kind("Connect2", true, &[N, N], &[]),
    Kind("ConnectReply2", true, &[D(&[&[N], E, E])], &[]),
    Kind("AbortFunctionCall", false, &[N], &[]),
    Kind("RegisterIntrospection", true, E, &[]),
    Kind("QueryIntrospection", false, &[N, U], &[]),
    Kind("QueryIntrospectionReply", true, &[N, D(&[E, E])], &[1]),
    Kind("CreateService2", true, &[N, U, U], &[]),
    Kind("QueryServiceInfo", false, &[N, U], &[]),
    Kind("QueryServiceInfoReply", true, &[N, D(&[E, E])], &[1]),
    Kind("SubscribeService", false, &[N, U], &[]),
    Kind("SubscribeServiceReply", false, &[N, R2], &[]),
    Kind("UnsubscribeService", false, &[U], &[]),
    Kind("SubscribeAllEvents", false, &[OPT_N, U], &[]),
    Kind("SubscribeAllEventsReply", false, &[N, R3], &[]),
    Kind("UnsubscribeAllEvents", false, &[OPT_N, U], &[]),
    Kind("UnsubscribeAllEventsReply", false, &[N, R3], &[]),
    Kind("CallFunction2", true, &[N, U, N, OPT_N], &[]),
];

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    N(u32),
    U([u8; 16]),
    D(u8),
}

/// An abstract message.
#[derive(Clone, Debug, PartialEq)]
struct Abs {
    kind: u8,
    toks: Vec<Tok>,
    value: Option<Vec<u8>>,
}

fn has_payload(k: &Kind, toks: &[Tok]) -> bool {
    k.1 && !toks
        .iter()
        .any(|t| matches!(t, Tok::D(d) if k.3.contains(d)))
}

struct R<'a>(&'a [u8]);

impl R<'_> {
    fn byte(&mut self) -> Option<u8> {
        let (b, r) = self.0.split_first()?;
        self.0 = r;
        Some(*b)
    }
    fn fields(&mut self, fs: &[F], out: &mut Vec<Tok>) -> Option<()> {
        for f in fs {
            match f {
                N => {
                    let b = self.byte()?;
                    let mut n = u32::from(b);
                    if b > 251 {
                        n = 0;
                        for i in 0..b - 251 {
                            n |= u32::from(self.byte()?) << (8 * i);
                        }
                    }
                    out.push(Tok::N(n));
                }
                U => {
                    let (u, r) = self.0.split_first_chunk::<16>()?;
                    self.0 = r;
                    out.push(Tok::U(*u));
                }
                D(alts) => {
                    let d = self.byte()?;
                    let alt = alts.get(usize::from(d))?;
                    out.push(Tok::D(d));
                    self.fields(alt, out)?;
                }
            }
        }
        Some(())
    }
}

/// Reference parser.
fn parse(b: &[u8]) -> Option<Abs> {
    let len = u32::from_le_bytes(b.get(..4)?.try_into().unwrap());
    if len as usize != b.len() {
        return None;
    }
    let kind = *b.get(4)?;
    let k = KINDS.get(usize::from(kind))?;
    let mut r = R(&b[5..]);
    let mut value = None;
    if k.1 {
        let vl = u32::from_le_bytes(r.0.get(..4)?.try_into().unwrap()) as usize;
        r.0 = &r.0[4..];
        if vl == 0 || vl > r.0.len() {
            return None;
        }
        value = Some(r.0[..vl].to_vec());
        r.0 = &r.0[vl..];
    }
    let mut toks = Vec::new();
    r.fields(k.2, &mut toks)?;
    if !r.0.is_empty() {
        return None;
    }
    if !has_payload(k, &toks) {
        value = None;
    }
    Some(Abs { kind, toks, value })
}

/// Reference encoder.
fn encode(a: &Abs) -> Vec<u8> {
    let mut out = vec![0, 0, 0, 0, a.kind];
    if KINDS[usize::from(a.kind)].1 {
        let v = a.value.as_deref().unwrap_or(&[0]);
        out.extend_from_slice(&(v.len() as u32).to_le_bytes());
        out.extend_from_slice(v);
    }
    for t in &a.toks {
        match t {
            Tok::N(n) => put_varint(&mut out, u64::from(*n), 4),
            Tok::U(u) => out.extend_from_slice(u),
            Tok::D(d) => out.push(*d),
        }
    }
    let n = (out.len() as u32).to_le_bytes();
    out[..4].copy_from_slice(&n);
    out
}

/// A serialized value with arbitrary bytes.
fn sv(b: &[u8]) -> SerializedValue {
    crate::util::slice(b).to_owned()
}

/// Builds the real message from the abstract one.
fn build(a: &Abs) -> Message {
    let it = std::cell::RefCell::new(a.toks.iter());
    let n = || match it.borrow_mut().next() {
        Some(Tok::N(n)) => *n,
        t => panic!("harness: {a:?} at {t:?}"),
    };
    let u = || match it.borrow_mut().next() {
        Some(Tok::U(n)) => Uuid::from_bytes(*n),
        t => panic!("harness: {a:?} at {t:?}"),
    };
    let d = || match it.borrow_mut().next() {
        Some(Tok::D(n)) => *n,
        t => panic!("harness: {a:?} at {t:?}"),
    };
    let v = || sv(a.value.as_deref().unwrap());
    let opt_n = || if d() == 0 { None } else { Some(n()) };
    let end = || if d() == 0 { ChannelEnd::Sender } else { ChannelEnd::Receiver };
    let end_cap = || match d() {
        0 => ChannelEndWithCapacity::Sender,
        _ => ChannelEndWithCapacity::Receiver(n()),
    };
    let filter = || match d() {
        0 => BusListenerFilter::Object(None),
        1 => BusListenerFilter::Object(Some(ObjectUuid(u()))),
        2 => BusListenerFilter::Service(BusListenerServiceFilter { object: None, service: None }),
        3 => BusListenerFilter::Service(BusListenerServiceFilter { object: Some(ObjectUuid(u())), service: None }),
        4 => BusListenerFilter::Service(BusListenerServiceFilter { object: None, service: Some(ServiceUuid(u())) }),
        _ => {
            let object = Some(ObjectUuid(u()));
            let service = Some(ServiceUuid(u()));
            BusListenerFilter::Service(BusListenerServiceFilter { object, service })
        }
    };
    let oid = || {
        let o = u();
        let c = u();
        ObjectId::new(ObjectUuid(o), ObjectCookie(c))
    };
    let sid = || {
        let o = oid();
        let s = u();
        let c = u();
        ServiceId::new(o, ServiceUuid(s), ServiceCookie(c))
    };
    macro_rules! pick {
        ($($e:expr),* $(,)?) => {{
            let all = [$($e),*];
            all[d() as usize].clone()
        }};
    }
    let m: Message = match a.kind {
        0 => Connect { version: n(), value: v() }.into(),
        1 => match d() {
            0 => ConnectReply::Ok(v()),
            1 => ConnectReply::IncompatibleVersion(n()),
            _ => ConnectReply::Rejected(v()),
        }
        .into(),
        2 => Shutdown.into(),
        3 => CreateObject { serial: n(), uuid: ObjectUuid(u()) }.into(),
        4 => CreateObjectReply {
            serial: n(),
            result: match d() {
                0 => CreateObjectResult::Ok(ObjectCookie(u())),
                _ => CreateObjectResult::DuplicateObject,
            },
        }
        .into(),
        5 => DestroyObject { serial: n(), cookie: ObjectCookie(u()) }.into(),
        6 => DestroyObjectReply {
            serial: n(),
            result: pick!(DestroyObjectResult::Ok, DestroyObjectResult::InvalidObject, DestroyObjectResult::ForeignObject),
        }
        .into(),
        7 => CreateService { serial: n(), object_cookie: ObjectCookie(u()), uuid: ServiceUuid(u()), version: n() }.into(),
        8 => CreateServiceReply {
            serial: n(),
            result: match d() {
                0 => CreateServiceResult::Ok(ServiceCookie(u())),
                1 => CreateServiceResult::DuplicateService,
                2 => CreateServiceResult::InvalidObject,
                _ => CreateServiceResult::ForeignObject,
            },
        }
        .into(),
        9 => DestroyService { serial: n(), cookie: ServiceCookie(u()) }.into(),
        10 => DestroyServiceReply {
            serial: n(),
            result: pick!(DestroyServiceResult::Ok, DestroyServiceResult::InvalidService, DestroyServiceResult::ForeignObject),
        }
        .into(),
        11 => CallFunction { serial: n(), service_cookie: ServiceCookie(u()), function: n(), value: v() }.into(),
        12 => CallFunctionReply {
            serial: n(),
            result: match d() {
                0 => CallFunctionResult::Ok(v()),
                1 => CallFunctionResult::Err(v()),
                2 => CallFunctionResult::Aborted,
                3 => CallFunctionResult::InvalidService,
                4 => CallFunctionResult::InvalidFunction,
                _ => CallFunctionResult::InvalidArgs,
            },
        }
        .into(),
        13 => SubscribeEvent { serial: opt_n(), service_cookie: ServiceCookie(u()), event: n() }.into(),
        14 => SubscribeEventReply {
            serial: n(),
            result: pick!(SubscribeEventResult::Ok, SubscribeEventResult::InvalidService),
        }
        .into(),
        15 => UnsubscribeEvent { service_cookie: ServiceCookie(u()), event: n() }.into(),
        16 => EmitEvent { service_cookie: ServiceCookie(u()), event: n(), value: v() }.into(),
        17 => QueryServiceVersion { serial: n(), cookie: ServiceCookie(u()) }.into(),
        18 => QueryServiceVersionReply {
            serial: n(),
            result: match d() {
                0 => QueryServiceVersionResult::Ok(n()),
                _ => QueryServiceVersionResult::InvalidService,
            },
        }
        .into(),
        19 => CreateChannel { serial: n(), end: end_cap() }.into(),
        20 => CreateChannelReply { serial: n(), cookie: ChannelCookie(u()) }.into(),
        21 => CloseChannelEnd { serial: n(), cookie: ChannelCookie(u()), end: end() }.into(),
        22 => CloseChannelEndReply {
            serial: n(),
            result: pick!(CloseChannelEndResult::Ok, CloseChannelEndResult::InvalidChannel, CloseChannelEndResult::ForeignChannel),
        }
        .into(),
        23 => ChannelEndClosed { cookie: ChannelCookie(u()), end: end() }.into(),
        24 => ClaimChannelEnd { serial: n(), cookie: ChannelCookie(u()), end: end_cap() }.into(),
        25 => ClaimChannelEndReply {
            serial: n(),
            result: match d() {
                0 => ClaimChannelEndResult::SenderClaimed(n()),
                1 => ClaimChannelEndResult::ReceiverClaimed,
                2 => ClaimChannelEndResult::InvalidChannel,
                _ => ClaimChannelEndResult::AlreadyClaimed,
            },
        }
        .into(),
        26 => ChannelEndClaimed { cookie: ChannelCookie(u()), end: end_cap() }.into(),
        27 => SendItem { cookie: ChannelCookie(u()), value: v() }.into(),
        28 => ItemReceived { cookie: ChannelCookie(u()), value: v() }.into(),
        29 => AddChannelCapacity { cookie: ChannelCookie(u()), capacity: n() }.into(),
        30 => Sync { serial: n() }.into(),
        31 => SyncReply { serial: n() }.into(),
        32 => ServiceDestroyed { service_cookie: ServiceCookie(u()) }.into(),
        33 => CreateBusListener { serial: n() }.into(),
        34 => CreateBusListenerReply { serial: n(), cookie: BusListenerCookie(u()) }.into(),
        35 => DestroyBusListener { serial: n(), cookie: BusListenerCookie(u()) }.into(),
        36 => DestroyBusListenerReply {
            serial: n(),
            result: pick!(DestroyBusListenerResult::Ok, DestroyBusListenerResult::InvalidBusListener),
        }
        .into(),
        37 => AddBusListenerFilter { cookie: BusListenerCookie(u()), filter: filter() }.into(),
        38 => RemoveBusListenerFilter { cookie: BusListenerCookie(u()), filter: filter() }.into(),
        39 => ClearBusListenerFilters { cookie: BusListenerCookie(u()) }.into(),
        40 => StartBusListener {
            serial: n(),
            cookie: BusListenerCookie(u()),
            scope: pick!(BusListenerScope::Current, BusListenerScope::New, BusListenerScope::All),
        }
        .into(),
        41 => StartBusListenerReply {
            serial: n(),
            result: pick!(
                StartBusListenerResult::Ok,
                StartBusListenerResult::InvalidBusListener,
                StartBusListenerResult::AlreadyStarted
            ),
        }
        .into(),
        42 => StopBusListener { serial: n(), cookie: BusListenerCookie(u()) }.into(),
        43 => StopBusListenerReply {
            serial: n(),
            result: pick!(
                StopBusListenerResult::Ok,
                StopBusListenerResult::InvalidBusListener,
                StopBusListenerResult::NotStarted
            ),
        }
        .into(),
        44 => EmitBusEvent {
            cookie: if d() == 0 { None } else { Some(BusListenerCookie(u())) },
            event: match d() {
                0 => BusEvent::ObjectCreated(oid()),
                1 => BusEvent::ObjectDestroyed(oid()),
                2 => BusEvent::ServiceCreated(sid()),
                _ => BusEvent::ServiceDestroyed(sid()),
            },
        }
        .into(),
        45 => BusListenerCurrentFinished { cookie: BusListenerCookie(u()) }.into(),
        46 => Connect2 { major_version: n(), minor_version: n(), value: v() }.into(),
        47 => ConnectReply2 {
            result: match d() {
                0 => ConnectResult::Ok(n()),
                1 => ConnectResult::Rejected,
                _ => ConnectResult::IncompatibleVersion,
            },
            value: v(),
        }
        .into(),
        48 => AbortFunctionCall { serial: n() }.into(),
        49 => RegisterIntrospection { value: v() }.into(),
        50 => QueryIntrospection { serial: n(), type_id: TypeId(u()) }.into(),
        51 => QueryIntrospectionReply {
            serial: n(),
            result: match d() {
                0 => QueryIntrospectionResult::Ok(v()),
                _ => QueryIntrospectionResult::Unavailable,
            },
        }
        .into(),
        52 => CreateService2 { serial: n(), object_cookie: ObjectCookie(u()), uuid: ServiceUuid(u()), value: v() }.into(),
        53 => QueryServiceInfo { serial: n(), cookie: ServiceCookie(u()) }.into(),
        54 => QueryServiceInfoReply {
            serial: n(),
            result: match d() {
                0 => QueryServiceInfoResult::Ok(v()),
                _ => QueryServiceInfoResult::InvalidService,
            },
        }
        .into(),
        55 => SubscribeService { serial: n(), service_cookie: ServiceCookie(u()) }.into(),
        56 => SubscribeServiceReply {
            serial: n(),
            result: pick!(SubscribeServiceResult::Ok, SubscribeServiceResult::InvalidService),
        }
        .into(),
        57 => UnsubscribeService { service_cookie: ServiceCookie(u()) }.into(),
        58 => SubscribeAllEvents { serial: opt_n(), service_cookie: ServiceCookie(u()) }.into(),
        59 => SubscribeAllEventsReply {
            serial: n(),
            result: pick!(
                SubscribeAllEventsResult::Ok,
                SubscribeAllEventsResult::InvalidService,
                SubscribeAllEventsResult::NotSupported
            ),
        }
        .into(),
        60 => UnsubscribeAllEvents { serial: opt_n(), service_cookie: ServiceCookie(u()) }.into(),
        61 => UnsubscribeAllEventsReply {
            serial: n(),
            result: pick!(
                UnsubscribeAllEventsResult::Ok,
                UnsubscribeAllEventsResult::InvalidService,
                UnsubscribeAllEventsResult::NotSupported
            ),
        }
        .into(),
        62 => CallFunction2 { serial: n(), service_cookie: ServiceCookie(u()), function: n(), version: opt_n(), value: v() }.into(),
        k => panic!("harness: kind {k}"),
    };
    if it.borrow().len() != 0 {
        panic!("harness: {a:?} has unused tokens");
    }
    m
}

/// Parses a frame as one particular message type.
fn parse_as(kind: u8, b: BytesMut) -> Result<Message, MessageDeserializeError> {
    macro_rules! p {
        ($($k:literal $t:ident),* $(,)?) => {
            match kind {
                $($k => $t::deserialize_message(b).map(Into::into),)*
                _ => panic!("harness: kind"),
            }
        };
    }
    p!(
        0 Connect, 1 ConnectReply, 2 Shutdown, 3 CreateObject, 4 CreateObjectReply, 5 DestroyObject,
        6 DestroyObjectReply, 7 CreateService, 8 CreateServiceReply, 9 DestroyService,
        10 DestroyServiceReply, 11 CallFunction, 12 CallFunctionReply, 13 SubscribeEvent,
        14 SubscribeEventReply, 15 UnsubscribeEvent, 16 EmitEvent, 17 QueryServiceVersion,
        18 QueryServiceVersionReply, 19 CreateChannel, 20 CreateChannelReply, 21 CloseChannelEnd,
        22 CloseChannelEndReply, 23 ChannelEndClosed, 24 ClaimChannelEnd, 25 ClaimChannelEndReply,
        26 ChannelEndClaimed, 27 SendItem, 28 ItemReceived, 29 AddChannelCapacity, 30 Sync,
        31 SyncReply, 32 ServiceDestroyed, 33 CreateBusListener, 34 CreateBusListenerReply,
        35 DestroyBusListener, 36 DestroyBusListenerReply, 37 AddBusListenerFilter,
        38 RemoveBusListenerFilter, 39 ClearBusListenerFilters, 40 StartBusListener,
        41 StartBusListenerReply, 42 StopBusListener, 43 StopBusListenerReply, 44 EmitBusEvent,
        45 BusListenerCurrentFinished, 46 Connect2, 47 ConnectReply2, 48 AbortFunctionCall,
        49 RegisterIntrospection, 50 QueryIntrospection, 51 QueryIntrospectionReply,
        52 CreateService2, 53 QueryServiceInfo, 54 QueryServiceInfoReply, 55 SubscribeService,
        56 SubscribeServiceReply, 57 UnsubscribeService, 58 SubscribeAllEvents,
        59 SubscribeAllEventsReply, 60 UnsubscribeAllEvents, 61 UnsubscribeAllEventsReply,
        62 CallFunction2
    )
}

const NUMS: [u32; 12] = [0, 1, 7, 251, 252, 255, 256, 0xffff, 0x1_0000, 0xff_ffff, 0x100_0000, u32::MAX];
const FEW_NUMS: [u32; 3] = [3, 252, u32::MAX];

fn uuids(pos: usize) -> [[u8; 16]; 3] {
    let mut p = [0u8; 16];
    for (i, b) in p.iter_mut().enumerate() {
        *b = (pos as u8) << 5 | i as u8 | 0x10;
    }
    [p, [0; 16], [0xff; 16]]
}

/// Calls `f` with every assignment of the fields.
fn assignments(fs: &[&'static F], nums: &[u32], nu: usize, toks: &mut Vec<Tok>, f: &mut impl FnMut(&[Tok])) {
    let Some((first, rest)) = fs.split_first() else {
        return f(toks);
    };
    match first {
        N => {
            for n in nums {
                toks.push(Tok::N(*n));
                assignments(rest, nums, nu, toks, f);
                toks.pop();
            }
        }
        U => {
            for u in &uuids(toks.len())[..nu] {
                toks.push(Tok::U(*u));
                assignments(rest, nums, nu, toks, f);
                toks.pop();
            }
        }
        D(alts) => {
            for (d, alt) in alts.iter().enumerate() {
                toks.push(Tok::D(d as u8));
                let mut all: Vec<&'static F> = alt.iter().collect();
                all.extend_from_slice(rest);
                assignments(&all, nums, nu, toks, f);
                toks.pop();
            }
        }
    }
}

fn each_abs(kind: u8, nums: &[u32], nu: usize, values: &[Vec<u8>], mut f: impl FnMut(Abs)) {
    let k = &KINDS[usize::from(kind)];
    let fs: Vec<&'static F> = k.2.iter().collect();
    assignments(&fs, nums, nu, &mut Vec::new(), &mut |toks| {
        if has_payload(k, toks) {
            for v in values {
                f(Abs { kind, toks: toks.to_vec(), value: Some(v.clone()) });
            }
        } else {
            f(Abs { kind, toks: toks.to_vec(), value: None });
        }
    });
}

fn name(kind: u8) -> &'static str {
    KINDS.get(usize::from(kind)).map_or("unknown", |k| k.0)
}

fn fail(ctx: &Ctx, class: &str, kind: u8, b: &[u8], what: String) {
    ctx.violation(
        &format!("{class}:{}:{}", name(kind), short(b)),
        &format!("{} frame {}: {what}", name(kind), short(b)),
        json!({"hex": hex(b)}),
    );
}

/// How the frame is handed to the parser.
#[derive(Clone, Copy, PartialEq)]
enum Via {
    Own,
    /// Split off a buffer that goes on behind it, as a packetizer does.
    Split,
}

fn with_frame<T>(b: &[u8], via: Via, f: impl FnOnce(BytesMut) -> T) -> (T, bool) {
    match via {
        Via::Own => (f(BytesMut::from(b)), true),
        Via::Split => {
            let mut big = BytesMut::with_capacity(b.len() + 64);
            big.extend_from_slice(&[0x5a; 8]);
            big.extend_from_slice(b);
            big.extend_from_slice(&[0xa5; 40]);
            let head = big.split_to(8);
            let frame = big.split_to(b.len());
            let r = f(frame);
            (r, *head == [0x5a; 8] && *big == [0xa5; 40])
        }
    }
}

/// Serializes an accepted or built message and checks the result.
fn check_ser(ctx: &Ctx, m: &Message, want: &Abs, b: &[u8]) {
    ctx.add_transitions(1);
    let frame = match catch(|| m.clone().serialize_message()) {
        Ok(Ok(f)) => f,
        r => return fail(ctx, "ser", want.kind, b, format!("serializing {m:?} gave {r:?}")),
    };
    if frame.len() < 5 || u32::from_le_bytes(frame[..4].try_into().unwrap()) as usize != frame.len() {
        return fail(ctx, "len", want.kind, b, format!("{m:?} serialized to {} whose length prefix differs from its length", short(&frame)));
    }
    match catch(|| Message::deserialize_message(frame.clone())) {
        Ok(Ok(m2)) if m2 == *m => {
            if m2.value().map(|v| v.to_vec()) != want.value {
                fail(ctx, "payload", want.kind, b, format!("payload differs after a round trip: {:?}", m2.value()));
            }
        }
        r => return fail(ctx, "rt", want.kind, b, format!("{m:?} serialized to {} which parses to {r:?}", short(&frame))),
    }
    // The frame has to mean the same to the reference reading of the protocol.
    if parse(&frame).as_ref() != Some(want) {
        fail(ctx, "wire", want.kind, b, format!("{m:?} serialized to {} which by the protocol means {:?}", short(&frame), parse(&frame)));
    }
}

/// Parses one frame and judges the result.
fn check_frame(ctx: &Ctx, b: &[u8], via: Via, must_accept: bool) -> bool {
    ctx.add_transitions(1);
    let want = parse(b);
    let kind = b.get(4).copied().unwrap_or(255);
    let (r, clean) = with_frame(b, via, |f| catch(|| Message::deserialize_message(f)));
    if !clean {
        fail(ctx, "neighbour", kind, b, "parsing changed bytes outside of the frame".into());
    }
    let m = match r {
        Err(p) => {
            fail(ctx, "panic", kind, b, format!("parsing panicked: {p}"));
            return false;
        }
        Ok(Err(e)) => {
            if must_accept {
                fail(ctx, "reject", kind, b, format!("rejected with {e:?}"));
            }
            return false;
        }
        Ok(Ok(m)) => m,
    };
    let Some(want) = want else {
        fail(ctx, "accept", kind, b, format!("accepted as {m:?} although it isn't a well-formed frame"));
        return true;
    };
    if u8::from(m.kind()) != want.kind {
        fail(ctx, "kind", kind, b, format!("parsed to kind {:?}", m.kind()));
        return true;
    }
    let built = build(&want);
    if built != m || m.value().map(|v| v.to_vec()) != want.value {
        fail(ctx, "content", kind, b, format!("parsed to {m:?}, expected {built:?}"));
        return true;
    }
    check_ser(ctx, &m, &want, b);
    true
}

/// Parses a frame as the matching and as other message types.
fn check_typed(ctx: &Ctx, b: &[u8], all: bool) {
    let want = parse(b);
    let kind = b.get(4).copied().unwrap_or(255);
    for k in 0..63u8 {
        if !all && k != kind {
            continue;
        }
        ctx.add_transitions(1);
        match catch(|| parse_as(k, BytesMut::from(b))) {
            Err(p) => fail(ctx, "typed-panic", k, b, format!("parsing as {} panicked: {p}", name(k))),
            Ok(Ok(m)) => match &want {
                Some(w) if w.kind == k => {
                    if build(w) != m {
                        fail(ctx, "typed-content", k, b, format!("parsed to {m:?}, expected {w:?}"));
                    }
                }
                _ => fail(ctx, "typed-accept", k, b, format!("accepted as {m:?}")),
            },
            Ok(Err(_)) => {}
        }
    }
}

fn fix_len(b: &mut [u8]) {
    if b.len() >= 4 {
        let n = (b.len() as u32).to_le_bytes();
        b[..4].copy_from_slice(&n);
    }
}

fn check_bytes(ctx: &Ctx, b: &[u8]) {
    check_frame(ctx, b, Via::Own, false);
    check_typed(ctx, b, false);
}

pub fn run(ctx: &Ctx) {
    if let Some(r) = &ctx.replay {
        let b = mc_common::unhex(r["hex"].as_str().unwrap());
        // Replays of frames built from messages expect acceptance.
        let canonical = parse(&b).is_some_and(|a| encode(&a) == b);
        check_frame(ctx, &b, Via::Own, canonical);
        check_frame(ctx, &b, Via::Split, canonical);
        check_typed(ctx, &b, true);
        if let Some(a) = parse(&b) {
            check_ser(ctx, &build(&a), &a, &b);
        }
        return;
    }

    let mut values: Vec<Vec<u8>> = vec![vec![0], vec![3, 7], vec![0xff; 3], (0..=255).collect()];
    values.push(vec![0xee; 70_000]);
    let few_values = vec![vec![0], vec![3, 252], vec![1, 2, 3, 4, 5]];

    // Every kind with every combination of field values.
    if ctx.only("fields") {
        ctx.par(63, |k| {
            let kind = k as u8;
            let mut n = 0u64;
            let vals = &values[..values.len() - 1];
            each_abs(kind, &NUMS, 3, vals, |a| {
                if ctx.stopped() {
                    return;
                }
                let b = encode(&a);
                ctx.mark(&b);
                let m = build(&a);
                check_ser(ctx, &m, &a, &b);
                check_frame(ctx, &b, if n % 2 == 0 { Via::Own } else { Via::Split }, true);
                if n == 0 {
                    ctx.sample(json!({"kind": name(kind), "frame": hex(&b)}));
                }
                n += 1;
            });
            each_abs(kind, &FEW_NUMS[..2], 1, &values, |a| {
                let b = encode(&a);
                for via in [Via::Own, Via::Split] {
                    check_frame(ctx, &b, via, true);
                }
                check_typed(ctx, &b, true);
                // The kind byte alone must not decide.
                let mut c = b.clone();
                if c.len() < 1000 {
                    for k in 0..=255u8 {
                        c[4] = k;
                        check_bytes(ctx, &c);
                    }
                }
                n += 1;
            });
            // Messages without a value can't be serialized.
            if KINDS[k].1 {
                each_abs(kind, &[1], 1, &[vec![0]], |a| {
                    if a.value.is_some() {
                        let mut m = build(&a);
                        *m.value_mut().unwrap() = SerializedValue::empty();
                        ctx.add_transitions(1);
                        match catch(|| m.serialize_message()) {
                            Ok(Err(MessageSerializeError::InvalidValue)) => {}
                            r => fail(ctx, "empty-value", kind, &encode(&a), format!("serializing without a value gave {r:?}")),
                        }
                    }
                });
            }
            ctx.add_states(n);
            ctx.unmark();
        });
    }

    // Frames whose length needs all bytes of its field.
    if ctx.only("large") {
        let big: Vec<u8> = vec![0x2a; (1 << 24) + 300];
        let kinds: Vec<u8> = (0..63).filter(|k| KINDS[usize::from(*k)].1).step_by(if ctx.thorough { 1 } else { 5 }).collect();
        ctx.par(kinds.len(), |i| {
            let mut n = 0u64;
            each_abs(kinds[i], &[7], 1, std::slice::from_ref(&big), |a| {
                if a.value.is_some() && n == 0 {
                    n += 1;
                    let b = encode(&a);
                    ctx.mark(&b[..64]);
                    let m = build(&a);
                    let out = catch(|| m.clone().serialize_message().map(|f| f[..] == b[..]));
                    if !matches!(out, Ok(Ok(true))) {
                        fail(ctx, "large-ser", kinds[i], &b[..64], format!("serializing a frame of {} bytes gave {out:?}", b.len()));
                    }
                    let parsed = catch(|| Message::deserialize_message(BytesMut::from(&b[..])).map(|p| p == m));
                    if !matches!(parsed, Ok(Ok(true))) {
                        fail(ctx, "large", kinds[i], &b[..64], format!("a frame of {} bytes parsed to {parsed:?}", b.len()));
                    }
                }
            });
            ctx.add_states(n);
            ctx.unmark();
        });
    }

    // Complete single-edit closure of one frame per kind and alternative.
    if ctx.only("mutations") {
        let nums: &[u32] = if ctx.thorough { &FEW_NUMS } else { &FEW_NUMS[1..] };
        ctx.par(63, |k| {
            let mut n = 0u64;
            each_abs(k as u8, nums, 1, &few_values, |a| {
                let b = encode(&a);
                ctx.mark(&b);
                mutations(&b, |m| {
                    if ctx.stopped() {
                        return;
                    }
                    n += 1;
                    check_bytes(ctx, m);
                    let mut f = m.to_vec();
                    fix_len(&mut f);
                    if f != m {
                        n += 1;
                        check_bytes(ctx, &f);
                    }
                });
                // Every length field.
                for at in [0usize, 5] {
                    if b.len() < at + 4 {
                        continue;
                    }
                    let mut lens: Vec<u32> = (0..b.len() as u32 + 16).collect();
                    for p in 8..32 {
                        lens.extend([(1u32 << p) - 1, 1 << p, (1 << p) + 1]);
                    }
                    lens.extend([u32::MAX - 9, u32::MAX - 8, u32::MAX - 1, u32::MAX]);
                    for l in lens {
                        let mut f = b.clone();
                        f[at..at + 4].copy_from_slice(&l.to_le_bytes());
                        n += 1;
                        check_bytes(ctx, &f);
                    }
                }
                if ctx.thorough && b.len() <= 40 {
                    // Two substitutions.
                    let vals = [0u8, 1, 2, 5, 6, 251, 252, 255];
                    let mut f = b.clone();
                    for i in 4..b.len() {
                        for j in i + 1..b.len() {
                            for x in vals {
                                for y in vals {
                                    f[i] = x;
                                    f[j] = y;
                                    n += 1;
                                    check_bytes(ctx, &f);
                                }
                            }
                            f[j] = b[j];
                        }
                        f[i] = b[i];
                    }
                }
            });
            ctx.add_states(n);
            ctx.unmark();
        });
    }

    // All short frames.
    if ctx.only("short") {
        ctx.par(256, |k| {
            let kind = k as u8;
            let mut n = 0u64;
            ctx.mark(&[kind]);
            let mut go = |b: &mut Vec<u8>| {
                fix_len(b);
                n += 1;
                check_bytes(ctx, b);
            };
            for l in 0..5 {
                let mut b = vec![kind; l];
                go(&mut b);
                check_bytes(ctx, &vec![kind; l]);
            }
            let max = if kind < 64 { 2 } else { 1 };
            go(&mut vec![0, 0, 0, 0, kind]);
            for x in 0..=255u8 {
                go(&mut vec![0, 0, 0, 0, kind, x]);
                if max == 2 {
                    for y in 0..=255u8 {
                        go(&mut vec![0, 0, 0, 0, kind, x, y]);
                    }
                }
            }
            // Longer tails over the bytes that matter.
            let alpha: &[u8] = if ctx.thorough {
                &[0, 1, 2, 3, 4, 5, 6, 8, 251, 252, 253, 254, 255]
            } else {
                &[0, 1, 2, 6, 252, 255]
            };
            let depth = if ctx.thorough { 6 } else { 5 };
            if kind < 64 {
                let mut idx = vec![0usize; depth];
                'outer: loop {
                    let mut b = vec![0, 0, 0, 0, kind];
                    b.extend(idx.iter().map(|i| alpha[*i]));
                    go(&mut b);
                    // For kinds with a value, put a consistent one-byte value in front.
                    if usize::from(kind) < 63 && KINDS[k].1 {
                        let mut b = vec![0, 0, 0, 0, kind, 1, 0, 0, 0, 0];
                        b.extend(idx.iter().map(|i| alpha[*i]));
                        go(&mut b);
                    }
                    if ctx.stopped() {
                        break;
                    }
                    for i in 0.. {
                        if i == depth {
                            break 'outer;
                        }
                        idx[i] += 1;
                        if idx[i] < alpha.len() {
                            break;
                        }
                        idx[i] = 0;
                    }
                }
            }
            ctx.add_states(n);
            ctx.unmark();
        });
    }
}
