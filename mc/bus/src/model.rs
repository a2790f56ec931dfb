//! Reference model of the bus protocol: what every connection must receive in reaction to every
//! message and every connection loss. Written from the protocol, not from the broker's data
//! structures: plain vectors and sets, no mirrors, no deferred work.
//!
//! All cookies in the model are synthetic (`cookie(tok)`), as are the serials the broker assigns.

use aldrin_core::message::*;
use aldrin_core::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use uuid::Uuid;

pub type Tok = u32;
pub type ConnIx = usize;

pub const COOKIE_BASE: u128 = 0xC00C_1E00_0000_4000_8000_0000_0000_0000;
/// A cookie nobody ever got.
pub const BOGUS: Tok = 0x00FF_FFFF;
pub const OBJ_BASE: u128 = 0x0B1E_C700_0000_4000_8000_0000_0000_0000;
pub const SVC_BASE: u128 = 0x5E27_1CE0_0000_4000_8000_0000_0000_0000;
pub const TYPE_BASE: u128 = 0x7159_E1D0_0000_4000_8000_0000_0000_0000;
/// Synthetic serials assigned by the broker start here.
pub const BSERIAL: u32 = 0x4000_0000;
pub const BOGUS_SERIAL: u32 = 0x7fff_fff0;

pub fn cookie(t: Tok) -> Uuid {
    Uuid::from_u128(COOKIE_BASE + t as u128)
}

pub fn tok(u: Uuid) -> Option<Tok> {
    let v = u.as_u128();
    (v >= COOKIE_BASE && v - COOKIE_BASE <= BOGUS as u128).then(|| (v - COOKIE_BASE) as Tok)
}

pub fn obj_uuid(n: u8) -> ObjectUuid {
    ObjectUuid(Uuid::from_u128(OBJ_BASE + n as u128))
}

pub fn svc_uuid(n: u8) -> ServiceUuid {
    ServiceUuid(Uuid::from_u128(SVC_BASE + n as u128))
}

pub fn type_id(n: u8) -> TypeId {
    TypeId(Uuid::from_u128(TYPE_BASE + n as u128))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obj {
    pub tok: Tok,
    pub uuid: ObjectUuid,
    pub owner: ConnIx,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Svc {
    pub tok: Tok,
    pub obj: Tok,
    pub uuid: ServiceUuid,
    pub info: ServiceInfo,
    pub owner: ConnIx,
    pub ev: BTreeSet<(u32, ConnIx)>,
    pub all: BTreeSet<ConnIx>,
    pub subs: BTreeSet<ConnIx>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub caller: ConnIx,
    pub serial: u32,
    pub svc: Tok,
    /// Synthetic serial seen by the callee.
    pub bserial: u32,
    pub aborted: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Unclaimed,
    Claimed(ConnIx, u32),
    Closed,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Chan {
    pub tok: Tok,
    /// Capacity: credit announced to the sender.
    pub tx: End,
    /// Capacity: credit granted by the receiver and not used up.
    pub rx: End,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Listener {
    pub tok: Tok,
    pub owner: ConnIx,
    pub filters: BTreeSet<BusListenerFilter>,
    pub scope: Option<BusListenerScope>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Intro {
    pub conns: BTreeSet<ConnIx>,
    pub value: Option<SerializedValue>,
    pub queried: Option<(ConnIx, u32)>,
    pub pending: Vec<(ConnIx, u32)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    /// Negotiated minor version per connection slot.
    pub version: Vec<u32>,
    pub alive: Vec<bool>,
    /// The task of the connection was dropped, which the broker only notices when it next sends
    /// something to it.
    pub zombie: Vec<bool>,
    pub objs: Vec<Obj>,
    pub svcs: Vec<Svc>,
    pub calls: Vec<Call>,
    pub chans: Vec<Chan>,
    pub listeners: Vec<Listener>,
    pub intro: BTreeMap<TypeId, Intro>,
    pub next_tok: Tok,
    pub next_bserial: u32,
    /// Most recently ended cookie per kind (object, service, channel, listener).
    pub stale: [Option<Tok>; 4],
    /// Most recently finished callee serial with its callee.
    pub stale_call: Option<(ConnIx, u32)>,
    pub broker_up: bool,
    /// Asked to stop once the last connection is gone.
    pub idle: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Exp {
    pub out: Vec<Vec<Message>>,
    /// Allowed but not required.
    pub opt: Vec<Vec<Message>>,
    /// Connections the broker closes in this step.
    pub closed: BTreeSet<ConnIx>,
    /// Connections whose incoming messages are not judged in this step.
    pub unjudged: BTreeSet<ConnIx>,
    /// Zombies the broker has tried to send something to.
    pub doomed: BTreeSet<ConnIx>,
    /// Zombies the broker may have noticed.
    pub maybe: BTreeSet<ConnIx>,
}

impl Exp {
    pub fn new(n: usize) -> Self {
        Self {
            out: vec![Vec::new(); n],
            opt: vec![Vec::new(); n],
            ..Default::default()
        }
    }

    pub fn merge(&mut self, o: Exp) {
        for (i, m) in o.out.into_iter().enumerate() {
            self.out[i].extend(m);
        }
        for (i, m) in o.opt.into_iter().enumerate() {
            self.opt[i].extend(m);
        }
        self.closed.extend(o.closed);
        self.unjudged.extend(o.unjudged);
        self.doomed.extend(o.doomed);
        self.maybe.extend(o.maybe);
    }
}

/// How a connection ends.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Term {
    /// The client sends `Shutdown`.
    Clean,
    /// The transport fails.
    Drop,
    /// `BrokerHandle::shutdown_connection`.
    Forced,
    /// The task running the connection is dropped.
    TaskDropped,
}

pub const TERMS: [Term; 4] = [Term::Clean, Term::Drop, Term::Forced, Term::TaskDropped];

/// Lowest minor version in which a message kind exists.
pub fn kind_min_version(k: MessageKind) -> u32 {
    use MessageKind::*;
    match k {
        Connect2 | ConnectReply2 => 15,
        AbortFunctionCall => 16,
        RegisterIntrospection | QueryIntrospection | QueryIntrospectionReply | CreateService2
        | QueryServiceInfo | QueryServiceInfoReply => 17,
        SubscribeService | SubscribeServiceReply | UnsubscribeService | SubscribeAllEvents
        | SubscribeAllEventsReply | UnsubscribeAllEvents | UnsubscribeAllEventsReply => 18,
        CallFunction2 => 19,
        _ => 14,
    }
}

fn filter_obj(f: &BusListenerFilter, o: ObjectUuid) -> bool {
    match f {
        BusListenerFilter::Object(None) => true,
        BusListenerFilter::Object(Some(u)) => *u == o,
        BusListenerFilter::Service(_) => false,
    }
}

fn filter_svc(f: &BusListenerFilter, o: ObjectUuid, s: ServiceUuid) -> bool {
    match f {
        BusListenerFilter::Object(_) => false,
        BusListenerFilter::Service(f) => {
            f.object.is_none_or(|u| u == o) && f.service.is_none_or(|u| u == s)
        }
    }
}

impl Model {
    pub fn new(versions: &[u32]) -> Self {
        Self {
            version: versions.to_vec(),
            alive: vec![false; versions.len()],
            zombie: vec![false; versions.len()],
            objs: vec![],
            svcs: vec![],
            calls: vec![],
            chans: vec![],
            listeners: vec![],
            intro: BTreeMap::new(),
            next_tok: 1,
            next_bserial: BSERIAL,
            stale: [None; 4],
            stale_call: None,
            broker_up: true,
            idle: false,
        }
    }

    pub fn n(&self) -> usize {
        self.version.len()
    }

    fn new_tok(&mut self) -> Tok {
        let t = self.next_tok;
        self.next_tok += 1;
        t
    }

    fn new_bserial(&mut self) -> u32 {
        let t = self.next_bserial;
        self.next_bserial += 1;
        t
    }

    pub fn obj(&self, c: ObjectCookie) -> Option<&Obj> {
        self.objs.iter().find(|o| cookie(o.tok) == c.0)
    }

    pub fn svc(&self, c: ServiceCookie) -> Option<&Svc> {
        self.svcs.iter().find(|o| cookie(o.tok) == c.0)
    }

    fn svc_mut(&mut self, c: ServiceCookie) -> Option<&mut Svc> {
        self.svcs.iter_mut().find(|o| cookie(o.tok) == c.0)
    }

    pub fn obj_id(&self, t: Tok) -> ObjectId {
        let o = self.objs.iter().find(|o| o.tok == t).unwrap();
        ObjectId::new(o.uuid, ObjectCookie(cookie(t)))
    }

    fn svc_id(&self, s: &Svc) -> ServiceId {
        ServiceId::new(self.obj_id(s.obj), s.uuid, ServiceCookie(cookie(s.tok)))
    }

    fn send(&self, e: &mut Exp, c: ConnIx, m: impl Into<Message>) {
        let m = m.into();
        if self.zombie[c] {
            use MessageKind::*;
            if matches!(m.kind(), SubscribeEvent | SubscribeAllEvents | UnsubscribeAllEvents) {
                e.maybe.insert(c);
            } else {
                e.doomed.insert(c);
            }
        } else if self.alive[c] {
            e.out[c].push(m);
        }
    }

    fn bus_event(&self, e: &mut Exp, ev: BusEvent) {
        for c in 0..self.n() {
            let hit = self.listeners.iter().any(|l| {
                l.owner == c
                    && matches!(
                        l.scope,
                        Some(BusListenerScope::New) | Some(BusListenerScope::All)
                    )
                    && l.filters.iter().any(|f| match ev {
                        BusEvent::ObjectCreated(o) | BusEvent::ObjectDestroyed(o) => {
                            filter_obj(f, o.uuid)
                        }
                        BusEvent::ServiceCreated(s) | BusEvent::ServiceDestroyed(s) => {
                            filter_svc(f, s.object_id.uuid, s.uuid)
                        }
                    })
            });
            if hit {
                self.send(
                    e,
                    c,
                    EmitBusEvent {
                        cookie: None,
                        event: ev,
                    },
                );
            }
        }
    }

    pub fn connect(&mut self, c: ConnIx) {
        assert!(!self.alive[c]);
        self.alive[c] = true;
    }

    fn remove_service(&mut self, e: &mut Exp, t: Tok) {
        let ix = self.svcs.iter().position(|s| s.tok == t).unwrap();
        let id = self.svc_id(&self.svcs[ix]);
        let s = self.svcs.remove(ix);
        self.stale[1] = Some(t);
        let (gone, keep): (Vec<_>, Vec<_>) = self.calls.drain(..).partition(|c| c.svc == t);
        self.calls = keep;
        for c in gone {
            self.stale_call = Some((s.owner, c.bserial));
            if !c.aborted {
                self.send(
                    e,
                    c.caller,
                    CallFunctionReply {
                        serial: c.serial,
                        result: CallFunctionResult::InvalidService,
                    },
                );
            }
        }
        let mut told: BTreeSet<ConnIx> = s.ev.iter().map(|x| x.1).collect();
        told.extend(&s.subs);
        let m = ServiceDestroyed {
            service_cookie: ServiceCookie(cookie(t)),
        };
        for c in &told {
            self.send(e, *c, m.clone());
        }
        for c in s.all.difference(&told) {
            if self.alive[*c] && !self.zombie[*c] {
                e.opt[*c].push(m.clone().into());
            }
        }
        self.bus_event(e, BusEvent::ServiceDestroyed(id));
    }

    fn remove_object(&mut self, e: &mut Exp, t: Tok) {
        let id = self.obj_id(t);
        let svcs: Vec<Tok> = self
            .svcs
            .iter()
            .filter(|s| s.obj == t)
            .map(|s| s.tok)
            .collect();
        for s in svcs {
            self.remove_service(e, s);
        }
        self.objs.retain(|o| o.tok != t);
        self.stale[0] = Some(t);
        self.bus_event(e, BusEvent::ObjectDestroyed(id));
    }

    fn remove_listener(&mut self, t: Tok) {
        self.listeners.retain(|l| l.tok != t);
        self.stale[3] = Some(t);
    }

    /// Ends one end of a channel.
    fn close_end(&mut self, e: &mut Exp, t: Tok, end: ChannelEnd) {
        let Some(ix) = self.chans.iter().position(|c| c.tok == t) else {
            return;
        };
        let ch = &mut self.chans[ix];
        let (mine, other) = match end {
            ChannelEnd::Sender => (&mut ch.tx, ch.rx),
            ChannelEnd::Receiver => (&mut ch.rx, ch.tx),
        };
        assert!(*mine != End::Closed);
        *mine = End::Closed;
        match other {
            End::Claimed(c, _) if self.alive[c] => self.send(
                e,
                c,
                ChannelEndClosed {
                    cookie: ChannelCookie(cookie(t)),
                    end,
                },
            ),
            _ => {
                self.chans.remove(ix);
                self.stale[2] = Some(t);
            }
        }
    }

    fn unsub_event(&mut self, e: &mut Exp, t: Tok, ev: u32, c: ConnIx) {
        let s = self.svcs.iter_mut().find(|s| s.tok == t).unwrap();
        if s.ev.remove(&(ev, c)) && !s.ev.iter().any(|x| x.0 == ev) {
            let o = s.owner;
            self.send(
                e,
                o,
                UnsubscribeEvent {
                    service_cookie: ServiceCookie(cookie(t)),
                    event: ev,
                },
            );
        }
    }

    fn unsub_all(&mut self, e: &mut Exp, t: Tok, c: ConnIx) {
        let s = self.svcs.iter_mut().find(|s| s.tok == t).unwrap();
        if s.all.remove(&c) && s.all.is_empty() {
            let o = s.owner;
            self.send(
                e,
                o,
                UnsubscribeAllEvents {
                    serial: None,
                    service_cookie: ServiceCookie(cookie(t)),
                },
            );
        }
    }

    /// The connection is gone.
    pub fn terminate(&mut self, e: &mut Exp, c: ConnIx) {
        self.end_conn(e, c);
        self.settle(e);
    }

    /// The task of the connection is gone, but the broker does not know.
    pub fn make_zombie(&mut self, c: ConnIx) {
        if self.alive[c] {
            self.zombie[c] = true;
        }
    }

    fn settle(&mut self, e: &mut Exp) {
        while let Some(c) = e.doomed.pop_first() {
            self.end_conn(e, c);
        }
    }

    fn end_conn(&mut self, e: &mut Exp, c: ConnIx) {
        if !self.alive[c] {
            return;
        }
        self.alive[c] = false;
        self.zombie[c] = false;
        for t in self
            .listeners
            .iter()
            .filter(|l| l.owner == c)
            .map(|l| l.tok)
            .collect::<Vec<_>>()
        {
            self.remove_listener(t);
        }
        for t in self
            .objs
            .iter()
            .filter(|o| o.owner == c)
            .map(|o| o.tok)
            .collect::<Vec<_>>()
        {
            self.remove_object(e, t);
        }
        for s in self.svcs.clone() {
            for (ev, x) in &s.ev {
                if *x == c {
                    self.unsub_event(e, s.tok, *ev, c);
                }
            }
            if s.all.contains(&c) {
                self.unsub_all(e, s.tok, c);
            }
            self.svcs
                .iter_mut()
                .find(|x| x.tok == s.tok)
                .unwrap()
                .subs
                .remove(&c);
        }
        for ch in self.chans.clone() {
            if matches!(ch.tx, End::Claimed(o, _) if o == c) {
                self.close_end(e, ch.tok, ChannelEnd::Sender);
            }
            if matches!(ch.rx, End::Claimed(o, _) if o == c) {
                self.close_end(e, ch.tok, ChannelEnd::Receiver);
            }
        }
        for i in 0..self.calls.len() {
            if self.calls[i].caller == c && !self.calls[i].aborted {
                self.abort(e, i);
            }
        }
        let types: Vec<TypeId> = self.intro.keys().copied().collect();
        for t in types {
            self.intro_conn_gone(e, t, c, true);
        }
    }

    fn intro_conn_gone(&mut self, e: &mut Exp, t: TypeId, c: ConnIx, drop_pending: bool) {
        let Some(mut i) = self.intro.remove(&t) else {
            return;
        };
        let was = i.queried;
        if matches!(i.queried, Some((q, _)) if q == c) {
            i.queried = None;
        }
        if drop_pending {
            i.pending.retain(|p| p.0 != c);
        }
        i.conns.remove(&c);
        if i.conns.is_empty() {
            for (p, serial) in i.pending.drain(..) {
                self.send(
                    e,
                    p,
                    QueryIntrospectionReply {
                        serial,
                        result: QueryIntrospectionResult::Unavailable,
                    },
                );
            }
        } else {
            if was.is_some() && i.queried.is_none() {
                self.intro_query(e, t, &mut i);
            }
            self.intro.insert(t, i);
        }
    }

    /// Only ever one candidate in the histories explored with introspection, or any (the harness
    /// accepts whichever candidate was asked, see `Sys`).
    fn intro_query(&mut self, e: &mut Exp, t: TypeId, i: &mut Intro) {
        let serial = self.new_bserial();
        let c = *i.conns.iter().next().unwrap();
        i.queried = Some((c, serial));
        self.send(e, c, QueryIntrospection { serial, type_id: t });
    }

    fn abort(&mut self, e: &mut Exp, i: usize) {
        self.calls[i].aborted = true;
        let c = self.calls[i].clone();
        let owner = self.svcs.iter().find(|s| s.tok == c.svc).unwrap().owner;
        if self.version[owner] >= 16 {
            self.send(e, owner, AbortFunctionCall { serial: c.bserial });
        }
        self.send(
            e,
            c.caller,
            CallFunctionReply {
                serial: c.serial,
                result: CallFunctionResult::Aborted,
            },
        );
    }

    /// Whether a client may send this kind to a broker at all.
    pub fn to_broker(k: MessageKind) -> bool {
        use MessageKind::*;
        matches!(
            k,
            Shutdown
                | CreateObject
                | DestroyObject
                | CreateService
                | DestroyService
                | CallFunction
                | CallFunctionReply
                | SubscribeEvent
                | UnsubscribeEvent
                | EmitEvent
                | QueryServiceVersion
                | CreateChannel
                | CloseChannelEnd
                | ClaimChannelEnd
                | AddChannelCapacity
                | SendItem
                | Sync
                | CreateBusListener
                | DestroyBusListener
                | AddBusListenerFilter
                | RemoveBusListenerFilter
                | ClearBusListenerFilters
                | StartBusListener
                | StopBusListener
                | AbortFunctionCall
                | RegisterIntrospection
                | QueryIntrospection
                | QueryIntrospectionReply
                | CreateService2
                | QueryServiceInfo
                | SubscribeService
                | UnsubscribeService
                | SubscribeAllEvents
                | UnsubscribeAllEvents
                | CallFunction2
        )
    }

    /// Connection `c` sends `m`.
    pub fn apply(&mut self, c: ConnIx, m: &Message) -> Exp {
        let mut e = Exp::new(self.n());
        if !self.alive[c] {
            return e;
        }
        if !self.handle(&mut e, c, m) {
            e.closed.insert(c);
            e.unjudged.insert(c);
            self.end_conn(&mut e, c);
        }
        self.settle(&mut e);
        e
    }

    /// False: the connection is closed.
    fn handle(&mut self, e: &mut Exp, c: ConnIx, m: &Message) -> bool {
        let v = self.version[c];
        if !Self::to_broker(m.kind()) {
            return false;
        }
        if v < kind_min_version(m.kind()) {
            return false;
        }
        match m.clone() {
            Message::CreateObject(r) => {
                let result = if self.objs.iter().any(|o| o.uuid == r.uuid) {
                    CreateObjectResult::DuplicateObject
                } else {
                    CreateObjectResult::Ok(ObjectCookie(cookie(self.next_tok)))
                };
                let ok = matches!(result, CreateObjectResult::Ok(_));
                self.send(
                    e,
                    c,
                    CreateObjectReply {
                        serial: r.serial,
                        result,
                    },
                );
                if ok {
                    let t = self.new_tok();
                    self.objs.push(Obj {
                        tok: t,
                        uuid: r.uuid,
                        owner: c,
                    });
                    self.bus_event(e, BusEvent::ObjectCreated(self.obj_id(t)));
                }
            }

            Message::DestroyObject(r) => {
                let (result, t) = match self.obj(r.cookie) {
                    None => (DestroyObjectResult::InvalidObject, None),
                    Some(o) if o.owner != c => (DestroyObjectResult::ForeignObject, None),
                    Some(o) => (DestroyObjectResult::Ok, Some(o.tok)),
                };
                self.send(
                    e,
                    c,
                    DestroyObjectReply {
                        serial: r.serial,
                        result,
                    },
                );
                if let Some(t) = t {
                    self.remove_object(e, t);
                }
            }

            Message::CreateService(r) => {
                return self.create_service(
                    e,
                    c,
                    r.serial,
                    r.object_cookie,
                    r.uuid,
                    Ok(ServiceInfo::new(r.version)),
                );
            }

            Message::CreateService2(r) => {
                let info = r.value.deserialize::<ServiceInfo>().map_err(|_| ());
                let info = info.map(|i| if v < 18 { i.set_subscribe_all(false) } else { i });
                return self.create_service(e, c, r.serial, r.object_cookie, r.uuid, info);
            }

            Message::DestroyService(r) => {
                let (result, t) = match self.svc(r.cookie) {
                    None => (DestroyServiceResult::InvalidService, None),
                    Some(o) if o.owner != c => (DestroyServiceResult::ForeignObject, None),
                    Some(o) => (DestroyServiceResult::Ok, Some(o.tok)),
                };
                self.send(
                    e,
                    c,
                    DestroyServiceReply {
                        serial: r.serial,
                        result,
                    },
                );
                if let Some(t) = t {
                    self.remove_service(e, t);
                }
            }

            Message::CallFunction(r) => {
                return self.call(e, c, r.serial, r.service_cookie, r.function, None, r.value);
            }

            Message::CallFunction2(r) => {
                return self.call(
                    e,
                    c,
                    r.serial,
                    r.service_cookie,
                    r.function,
                    r.version,
                    r.value,
                );
            }

            Message::CallFunctionReply(r) => {
                let Some(ix) = self.calls.iter().position(|x| x.bserial == r.serial) else {
                    return true;
                };
                let owner = self
                    .svcs
                    .iter()
                    .find(|s| s.tok == self.calls[ix].svc)
                    .unwrap()
                    .owner;
                if owner != c {
                    return true;
                }
                let call = self.calls.remove(ix);
                self.stale_call = Some((c, call.bserial));
                if !call.aborted {
                    self.send(
                        e,
                        call.caller,
                        CallFunctionReply {
                            serial: call.serial,
                            result: r.result,
                        },
                    );
                }
            }

            Message::AbortFunctionCall(r) => {
                if let Some(ix) = self
                    .calls
                    .iter()
                    .position(|x| x.caller == c && x.serial == r.serial && !x.aborted)
                {
                    self.abort(e, ix);
                }
            }

            Message::SubscribeEvent(r) => {
                let Some(serial) = r.serial else {
                    return false;
                };
                let Some(s) = self.svc_mut(r.service_cookie) else {
                    self.send(
                        e,
                        c,
                        SubscribeEventReply {
                            serial,
                            result: SubscribeEventResult::InvalidService,
                        },
                    );
                    return true;
                };
                let first = !s.ev.iter().any(|x| x.0 == r.event);
                s.ev.insert((r.event, c));
                let owner = s.owner;
                self.send(
                    e,
                    c,
                    SubscribeEventReply {
                        serial,
                        result: SubscribeEventResult::Ok,
                    },
                );
                if first {
                    self.send(
                        e,
                        owner,
                        SubscribeEvent {
                            serial: None,
                            service_cookie: r.service_cookie,
                            event: r.event,
                        },
                    );
                }
            }

            Message::UnsubscribeEvent(r) => {
                if let Some(t) = self.svc(r.service_cookie).map(|s| s.tok) {
                    self.unsub_event(e, t, r.event, c);
                }
            }

            Message::EmitEvent(r) => {
                if let Some(s) = self.svc(r.service_cookie) {
                    if s.owner == c {
                        let mut to: BTreeSet<ConnIx> = s.all.clone();
                        to.extend(s.ev.iter().filter(|x| x.0 == r.event).map(|x| x.1));
                        for t in to {
                            self.send(e, t, r.clone());
                        }
                    }
                }
            }

            Message::QueryServiceVersion(r) => {
                let result = match self.svc(r.cookie) {
                    Some(s) => QueryServiceVersionResult::Ok(s.info.version()),
                    None => QueryServiceVersionResult::InvalidService,
                };
                self.send(
                    e,
                    c,
                    QueryServiceVersionReply {
                        serial: r.serial,
                        result,
                    },
                );
            }

            Message::QueryServiceInfo(r) => {
                let result = match self.svc(r.cookie) {
                    Some(s) => {
                        QueryServiceInfoResult::Ok(SerializedValue::serialize(s.info).unwrap())
                    }
                    None => QueryServiceInfoResult::InvalidService,
                };
                self.send(
                    e,
                    c,
                    QueryServiceInfoReply {
                        serial: r.serial,
                        result,
                    },
                );
            }

            Message::SubscribeService(r) => {
                let result = match self.svc_mut(r.service_cookie) {
                    Some(s) => {
                        s.subs.insert(c);
                        SubscribeServiceResult::Ok
                    }
                    None => SubscribeServiceResult::InvalidService,
                };
                self.send(
                    e,
                    c,
                    SubscribeServiceReply {
                        serial: r.serial,
                        result,
                    },
                );
            }

            Message::UnsubscribeService(r) => {
                if let Some(s) = self.svc_mut(r.service_cookie) {
                    s.subs.remove(&c);
                }
            }

            Message::SubscribeAllEvents(r) => {
                let Some(serial) = r.serial else {
                    return false;
                };
                let versions = self.version.clone();
                let (result, first) = match self.svc_mut(r.service_cookie) {
                    None => (SubscribeAllEventsResult::InvalidService, None),
                    Some(s)
                        if s.info.subscribe_all() != Some(true) || versions[s.owner] < 18 =>
                    {
                        (SubscribeAllEventsResult::NotSupported, None)
                    }
                    Some(s) => {
                        let first = s.all.is_empty();
                        s.all.insert(c);
                        (SubscribeAllEventsResult::Ok, first.then_some(s.owner))
                    }
                };
                self.send(e, c, SubscribeAllEventsReply { serial, result });
                if let Some(o) = first {
                    self.send(
                        e,
                        o,
                        SubscribeAllEvents {
                            serial: None,
                            service_cookie: r.service_cookie,
                        },
                    );
                }
            }

            Message::UnsubscribeAllEvents(r) => {
                let (result, t) = match self.svc(r.service_cookie) {
                    None => (UnsubscribeAllEventsResult::InvalidService, None),
                    Some(s) if self.version[s.owner] < 18 => {
                        (UnsubscribeAllEventsResult::NotSupported, None)
                    }
                    Some(s) => (UnsubscribeAllEventsResult::Ok, Some(s.tok)),
                };
                if let Some(serial) = r.serial {
                    self.send(e, c, UnsubscribeAllEventsReply { serial, result });
                }
                if let Some(t) = t {
                    self.unsub_all(e, t, c);
                }
            }

            Message::CreateChannel(r) => {
                let t = self.new_tok();
                let (tx, rx) = match r.end {
                    ChannelEndWithCapacity::Sender => (End::Claimed(c, 0), End::Unclaimed),
                    ChannelEndWithCapacity::Receiver(cap) => {
                        (End::Unclaimed, End::Claimed(c, cap))
                    }
                };
                self.chans.push(Chan { tok: t, tx, rx });
                self.send(
                    e,
                    c,
                    CreateChannelReply {
                        serial: r.serial,
                        cookie: ChannelCookie(cookie(t)),
                    },
                );
            }

            Message::CloseChannelEnd(r) => {
                let ch = self.chans.iter().find(|x| cookie(x.tok) == r.cookie.0);
                let end = ch.map(|x| match r.end {
                    ChannelEnd::Sender => x.tx,
                    ChannelEnd::Receiver => x.rx,
                });
                let t = ch.map(|x| x.tok);
                let result = match end {
                    None | Some(End::Closed) => CloseChannelEndResult::InvalidChannel,
                    Some(End::Claimed(o, _)) if o != c => CloseChannelEndResult::ForeignChannel,
                    Some(_) => CloseChannelEndResult::Ok,
                };
                self.send(
                    e,
                    c,
                    CloseChannelEndReply {
                        serial: r.serial,
                        result,
                    },
                );
                if result == CloseChannelEndResult::Ok {
                    self.close_end(e, t.unwrap(), r.end);
                }
            }

            Message::ClaimChannelEnd(r) => {
                let ch = self.chans.iter_mut().find(|x| cookie(x.tok) == r.cookie.0);
                let mut other = None;
                let result = match ch {
                    None => ClaimChannelEndResult::InvalidChannel,
                    Some(ch) => match r.end {
                        ChannelEndWithCapacity::Sender => match (ch.tx, ch.rx) {
                            (End::Claimed(..), _) => ClaimChannelEndResult::AlreadyClaimed,
                            (End::Unclaimed, End::Claimed(o, cap)) => {
                                ch.tx = End::Claimed(c, cap);
                                other = Some(o);
                                ClaimChannelEndResult::SenderClaimed(cap)
                            }
                            _ => ClaimChannelEndResult::InvalidChannel,
                        },
                        ChannelEndWithCapacity::Receiver(cap) => match (ch.rx, ch.tx) {
                            (End::Claimed(..), _) => ClaimChannelEndResult::AlreadyClaimed,
                            (End::Unclaimed, End::Claimed(o, _)) => {
                                ch.rx = End::Claimed(c, cap);
                                ch.tx = End::Claimed(o, cap);
                                other = Some(o);
                                ClaimChannelEndResult::ReceiverClaimed
                            }
                            _ => ClaimChannelEndResult::InvalidChannel,
                        },
                    },
                };
                self.send(
                    e,
                    c,
                    ClaimChannelEndReply {
                        serial: r.serial,
                        result,
                    },
                );
                if let Some(o) = other {
                    self.send(
                        e,
                        o,
                        ChannelEndClaimed {
                            cookie: r.cookie,
                            end: r.end,
                        },
                    );
                }
            }

            Message::AddChannelCapacity(r) => {
                let Some(ch) = self.chans.iter_mut().find(|x| cookie(x.tok) == r.cookie.0) else {
                    return true;
                };
                let End::Claimed(o, rcap) = ch.rx else {
                    return true;
                };
                if o != c || r.capacity == 0 {
                    return true;
                }
                let Some(rcap) = rcap.checked_add(r.capacity) else {
                    let t = ch.tok;
                    self.close_end(e, t, ChannelEnd::Receiver);
                    return true;
                };
                ch.rx = End::Claimed(o, rcap);
                if let End::Claimed(s, scap) = ch.tx {
                    if scap <= 4 {
                        ch.tx = End::Claimed(s, rcap);
                        self.send(
                            e,
                            s,
                            AddChannelCapacity {
                                cookie: r.cookie,
                                capacity: rcap - scap,
                            },
                        );
                    }
                }
            }

            Message::SendItem(r) => {
                let Some(ch) = self.chans.iter_mut().find(|x| cookie(x.tok) == r.cookie.0) else {
                    return true;
                };
                let t = ch.tok;
                let End::Claimed(s, scap) = ch.tx else {
                    return true;
                };
                if s != c {
                    return true;
                }
                match ch.rx {
                    End::Closed => {}
                    End::Unclaimed => {
                        self.close_end(e, t, ChannelEnd::Receiver);
                        self.close_end(e, t, ChannelEnd::Sender);
                    }
                    End::Claimed(..) if scap == 0 => self.close_end(e, t, ChannelEnd::Sender),
                    End::Claimed(o, rcap) => {
                        let (mut scap, rcap) = (scap - 1, rcap - 1);
                        let mut add = None;
                        if scap <= 4 && rcap > scap {
                            add = Some(rcap - scap);
                            scap = rcap;
                        }
                        ch.tx = End::Claimed(s, scap);
                        ch.rx = End::Claimed(o, rcap);
                        self.send(
                            e,
                            o,
                            ItemReceived {
                                cookie: r.cookie,
                                value: r.value,
                            },
                        );
                        if let Some(capacity) = add {
                            self.send(
                                e,
                                s,
                                AddChannelCapacity {
                                    cookie: r.cookie,
                                    capacity,
                                },
                            );
                        }
                    }
                }
            }

            Message::Sync(r) => self.send(e, c, SyncReply { serial: r.serial }),

            Message::CreateBusListener(r) => {
                let t = self.new_tok();
                self.listeners.push(Listener {
                    tok: t,
                    owner: c,
                    filters: BTreeSet::new(),
                    scope: None,
                });
                self.send(
                    e,
                    c,
                    CreateBusListenerReply {
                        serial: r.serial,
                        cookie: BusListenerCookie(cookie(t)),
                    },
                );
            }

            Message::DestroyBusListener(r) => {
                let t = self.listener(c, r.cookie).map(|l| l.tok);
                self.send(
                    e,
                    c,
                    DestroyBusListenerReply {
                        serial: r.serial,
                        result: if t.is_some() {
                            DestroyBusListenerResult::Ok
                        } else {
                            DestroyBusListenerResult::InvalidBusListener
                        },
                    },
                );
                if let Some(t) = t {
                    self.remove_listener(t);
                }
            }

            Message::AddBusListenerFilter(r) => {
                if let Some(l) = self.listener(c, r.cookie) {
                    l.filters.insert(r.filter);
                }
            }

            Message::RemoveBusListenerFilter(r) => {
                if let Some(l) = self.listener(c, r.cookie) {
                    l.filters.remove(&r.filter);
                }
            }

            Message::ClearBusListenerFilters(r) => {
                if let Some(l) = self.listener(c, r.cookie) {
                    l.filters.clear();
                }
            }

            Message::StartBusListener(r) => {
                let result = match self.listener(c, r.cookie) {
                    None => StartBusListenerResult::InvalidBusListener,
                    Some(l) if l.scope.is_some() => StartBusListenerResult::AlreadyStarted,
                    Some(l) => {
                        l.scope = Some(r.scope);
                        StartBusListenerResult::Ok
                    }
                };
                self.send(
                    e,
                    c,
                    StartBusListenerReply {
                        serial: r.serial,
                        result,
                    },
                );
                if result == StartBusListenerResult::Ok && r.scope != BusListenerScope::New {
                    let l = self.listener(c, r.cookie).unwrap().clone();
                    for o in &self.objs {
                        if l.filters.iter().any(|f| filter_obj(f, o.uuid)) {
                            self.send(
                                e,
                                c,
                                EmitBusEvent {
                                    cookie: Some(r.cookie),
                                    event: BusEvent::ObjectCreated(self.obj_id(o.tok)),
                                },
                            );
                        }
                    }
                    for s in &self.svcs {
                        let id = self.svc_id(s);
                        if l.filters
                            .iter()
                            .any(|f| filter_svc(f, id.object_id.uuid, s.uuid))
                        {
                            self.send(
                                e,
                                c,
                                EmitBusEvent {
                                    cookie: Some(r.cookie),
                                    event: BusEvent::ServiceCreated(id),
                                },
                            );
                        }
                    }
                    self.send(e, c, BusListenerCurrentFinished { cookie: r.cookie });
                }
            }

            Message::StopBusListener(r) => {
                let result = match self.listener(c, r.cookie) {
                    None => StopBusListenerResult::InvalidBusListener,
                    Some(l) if l.scope.is_none() => StopBusListenerResult::NotStarted,
                    Some(l) => {
                        l.scope = None;
                        StopBusListenerResult::Ok
                    }
                };
                self.send(
                    e,
                    c,
                    StopBusListenerReply {
                        serial: r.serial,
                        result,
                    },
                );
            }

            Message::RegisterIntrospection(r) => {
                let Ok(ids) = r.value.deserialize::<std::collections::HashSet<TypeId>>() else {
                    return false;
                };
                for t in ids {
                    self.intro.entry(t).or_default().conns.insert(c);
                }
            }

            Message::QueryIntrospection(r) => {
                let Some(mut i) = self.intro.remove(&r.type_id) else {
                    self.send(
                        e,
                        c,
                        QueryIntrospectionReply {
                            serial: r.serial,
                            result: QueryIntrospectionResult::Unavailable,
                        },
                    );
                    return true;
                };
                if let Some(v) = &i.value {
                    self.send(
                        e,
                        c,
                        QueryIntrospectionReply {
                            serial: r.serial,
                            result: QueryIntrospectionResult::Ok(v.clone()),
                        },
                    );
                } else {
                    i.pending.push((c, r.serial));
                    if i.queried.is_none() {
                        self.intro_query(e, r.type_id, &mut i);
                    }
                }
                self.intro.insert(r.type_id, i);
            }

            Message::QueryIntrospectionReply(r) => {
                let Some((&t, _)) = self
                    .intro
                    .iter()
                    .find(|(_, i)| i.queried == Some((c, r.serial)))
                else {
                    return false;
                };
                match r.result {
                    QueryIntrospectionResult::Ok(v) => {
                        let i = self.intro.get_mut(&t).unwrap();
                        i.queried = None;
                        i.value = Some(v.clone());
                        let p = std::mem::take(&mut i.pending);
                        for (p, serial) in p {
                            self.send(
                                e,
                                p,
                                QueryIntrospectionReply {
                                    serial,
                                    result: QueryIntrospectionResult::Ok(v.clone()),
                                },
                            );
                        }
                    }
                    // A connection that does not know a type it has registered does not get an
                    // answer to its own query either.
                    QueryIntrospectionResult::Unavailable => {
                        self.intro_conn_gone(e, t, c, true)
                    }
                }
            }

            Message::Shutdown(_) => unreachable!("terminations are a separate operation"),

            _ => return false,
        }
        true
    }

    pub fn listener(&mut self, c: ConnIx, k: BusListenerCookie) -> Option<&mut Listener> {
        self.listeners
            .iter_mut()
            .find(|l| l.owner == c && cookie(l.tok) == k.0)
    }

    fn create_service(
        &mut self,
        e: &mut Exp,
        c: ConnIx,
        serial: u32,
        obj: ObjectCookie,
        uuid: ServiceUuid,
        info: Result<ServiceInfo, ()>,
    ) -> bool {
        let o = self.obj(obj).cloned();
        let result = match &o {
            None => CreateServiceResult::InvalidObject,
            Some(o) if self.svcs.iter().any(|s| s.obj == o.tok && s.uuid == uuid) => {
                CreateServiceResult::DuplicateService
            }
            Some(o) if o.owner != c => CreateServiceResult::ForeignObject,
            Some(_) => CreateServiceResult::Ok(ServiceCookie(cookie(self.next_tok))),
        };
        if let CreateServiceResult::Ok(_) = result {
            let Ok(info) = info else { return false };
            let t = self.new_tok();
            let o = o.unwrap();
            self.svcs.push(Svc {
                tok: t,
                obj: o.tok,
                uuid,
                info,
                owner: c,
                ev: BTreeSet::new(),
                all: BTreeSet::new(),
                subs: BTreeSet::new(),
            });
            self.send(e, c, CreateServiceReply { serial, result });
            let id = self.svc_id(self.svcs.last().unwrap());
            self.bus_event(e, BusEvent::ServiceCreated(id));
        } else {
            self.send(e, c, CreateServiceReply { serial, result });
        }
        true
    }

    #[allow(clippy::too_many_arguments)]
    fn call(
        &mut self,
        e: &mut Exp,
        c: ConnIx,
        serial: u32,
        svc: ServiceCookie,
        function: u32,
        version: Option<u32>,
        value: SerializedValue,
    ) -> bool {
        let Some(s) = self.svc(svc) else {
            self.send(
                e,
                c,
                CallFunctionReply {
                    serial,
                    result: CallFunctionResult::InvalidService,
                },
            );
            return true;
        };
        let (owner, st) = (s.owner, s.tok);
        if self
            .calls
            .iter()
            .any(|x| x.caller == c && x.serial == serial && !x.aborted)
        {
            return false;
        }
        let b = self.new_bserial();
        self.calls.push(Call {
            caller: c,
            serial,
            svc: st,
            bserial: b,
            aborted: false,
        });
        if self.version[owner] >= 19 {
            self.send(
                e,
                owner,
                CallFunction2 {
                    serial: b,
                    service_cookie: svc,
                    function,
                    version,
                    value,
                },
            );
        } else {
            self.send(
                e,
                owner,
                CallFunction {
                    serial: b,
                    service_cookie: svc,
                    function,
                    value,
                },
            );
        }
        true
    }

    /// Smallest call serial of `c` that is not pending.
    pub fn free_serial(&self, c: ConnIx) -> u32 {
        (0..)
            .map(|k| (c as u32) * 16 + k)
            .find(|s| !self.calls.iter().any(|x| x.caller == c && x.serial == *s && !x.aborted))
            .unwrap()
    }

    /// Canonical text: tokens and broker serials replaced by ranks.
    pub fn key(&self, out: &mut String) {
        let live = self.live_toks();
        let r = |t: Tok| live.iter().position(|x| *x == t).unwrap_or(99);
        let mut bs: Vec<u32> = self.calls.iter().map(|c| c.bserial).collect();
        bs.extend(self.intro.values().filter_map(|i| i.queried.map(|q| q.1)));
        bs.sort();
        let b = |s: u32| bs.iter().position(|x| *x == s).unwrap_or(99);
        let _ = write!(out, "a{:?}{:?}", self.alive, self.zombie);
        for o in &self.objs {
            let _ = write!(out, "|o{},{},{}", r(o.tok), o.uuid.0.as_u128() as u8, o.owner);
        }
        for s in &self.svcs {
            let _ = write!(
                out,
                "|s{},{},{},{:?},{:?},{:?},{:?}",
                r(s.tok),
                r(s.obj),
                s.uuid.0.as_u128() as u8,
                s.info,
                s.ev,
                s.all,
                s.subs
            );
        }
        for c in &self.calls {
            let _ = write!(
                out,
                "|c{},{},{},{},{}",
                c.caller,
                c.serial,
                r(c.svc),
                b(c.bserial),
                c.aborted
            );
        }
        for c in &self.chans {
            let _ = write!(out, "|h{},{:?},{:?}", r(c.tok), c.tx, c.rx);
        }
        for l in &self.listeners {
            let _ = write!(out, "|l{},{},{:?},{:?}", r(l.tok), l.owner, l.filters, l.scope);
        }
        for (t, i) in &self.intro {
            let _ = write!(
                out,
                "|i{},{:?},{},{:?},{:?}",
                t.0.as_u128() as u8,
                i.conns,
                i.value.is_some(),
                i.queried.map(|q| (q.0, b(q.1))),
                i.pending
            );
        }
        let _ = write!(
            out,
            "|S{:?},{}",
            self.stale.map(|s| s.is_some()),
            self.stale_call.map(|s| s.0 + 1).unwrap_or(0)
        );
    }

    pub fn live_toks(&self) -> Vec<Tok> {
        let mut v: Vec<Tok> = self.objs.iter().map(|o| o.tok).collect();
        v.extend(self.svcs.iter().map(|o| o.tok));
        v.extend(self.chans.iter().map(|o| o.tok));
        v.extend(self.listeners.iter().map(|o| o.tok));
        v.sort();
        v
    }

    pub fn live_bserials(&self) -> Vec<u32> {
        let mut bs: Vec<u32> = self.calls.iter().map(|c| c.bserial).collect();
        bs.extend(self.intro.values().filter_map(|i| i.queried.map(|q| q.1)));
        bs.sort();
        bs
    }
}
