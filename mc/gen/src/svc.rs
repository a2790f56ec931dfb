//! Generated clients and servers against hand-driven ones over a real broker: ids, payloads,
//! replies, fallbacks and errors of every function and event.

use crate::c16::Corpus;
use crate::refcodec::{decode, encode, RV, STYLES};
use crate::schema::*;
use crate::units::Unit;
use crate::ENTRIES;
use aldrin::core::tags;
use aldrin::core::{ObjectUuid, ServiceUuid};
use aldrin::low_level::{Proxy, Service as LowService, ServiceInfo};
use aldrin::{Client as AldrinClient, Handle, Object};
use aldrin_broker::Broker;
use aldrin_core::channel;
use mc_common::{hex, Ctx};
use mc_gen_rt::{bytes, slice, Client, Obs, Plan, Server, SvcEntry};
use serde_json::{json, Value as Json};
use std::cell::Cell;
use std::future::Future;
use std::time::Duration;
use uuid::Uuid;

/// Something that may be absent, i.e. the unit type or (for errors) no type at all.
#[derive(Clone, Debug)]
enum PT {
    Ty(Ty),
    Never,
}

struct T<'a> {
    ctx: &'a Ctx,
    u: &'a Unit,
    e: &'a SvcEntry,
    s: &'a Service,
    n: Cell<usize>,
    bad: Cell<bool>,
}

const TIMEOUT: Duration = Duration::from_secs(20);

impl T<'_> {
    fn here(&self) -> &Schema {
        self.u.world.schema(self.e.schema)
    }

    fn fail(&self, class: &str, item: &str, what: String) {
        self.bad.set(true);
        self.ctx.violation(
            &format!("C16/service/{class}/{}/{}/{item}", self.e.unit, self.e.name),
            &format!("service {}, {item}: {what}\n{}", self.e.name, self.here().src()),
            json!({"kind": "service", "unit": self.e.unit, "name": self.e.name}),
        );
    }

    async fn within<R>(&self, item: &str, what: &str, f: impl Future<Output = R>) -> Option<R> {
        match tokio::time::timeout(TIMEOUT, f).await {
            Ok(r) => Some(r),
            Err(_) => {
                self.fail("stuck", item, format!("nothing happens: {what}"));
                None
            }
        }
    }

    fn values(&self, t: &PT, max: usize) -> Vec<RV> {
        let v = match t {
            PT::Never => vec![],
            PT::Ty(t) => self.u.world.values(self.here(), t, 2),
        };
        let step = v.len().div_ceil(max).max(1);
        v.into_iter().step_by(step).collect()
    }

    /// Values that may or may not conform.
    fn mixed(&self, t: &PT) -> Vec<RV> {
        let atoms = [RV::None, RV::U8(1), RV::Str("x".into()), RV::U64(1 << 40), RV::Bytes(vec![3]), RV::Bool(true)];
        let mut out = vec![];
        match t {
            PT::Never => out.extend(atoms),
            _ => {
                let max = if self.ctx.quick() { 3 } else { 12 };
                for v in self.values(t, max) {
                    mutations(&v, &atoms, &mut out);
                }
            }
        }
        let max = if self.ctx.quick() { 60 } else { 600 };
        let step = out.len().div_ceil(max).max(1);
        out.into_iter().step_by(step).collect()
    }

    fn decode(&self, t: &PT, v: &RV) -> Option<RV> {
        match t {
            PT::Never => None,
            PT::Ty(t) => self.u.world.decode(self.here(), t, v),
        }
    }

    fn enc(&self, v: &RV) -> Vec<u8> {
        let n = self.n.get();
        self.n.set(n + 1);
        self.ctx.add_transitions(1);
        let b = encode(v, STYLES[n % STYLES.len()]);
        self.ctx.mark(&b);
        b
    }

    fn ty(&self, item: &str, suffix: &str, p: &Option<Part>) -> PT {
        match p {
            Some(p) => PT::Ty(self.s.part_ty(item, suffix, p)),
            None if suffix == "Error" => PT::Never,
            None => PT::Ty(Ty::Unit),
        }
    }

    fn same(&self, item: &str, what: &str, got: &Result<Vec<u8>, String>, want: &RV) {
        let ok = matches!(got, Ok(b) if decode(b, true).is_ok_and(|(v, n)| n == b.len() && v == *want));
        if !ok {
            let g = got.as_ref().map(|b| decode(b, true));
            self.fail("payload", item, format!("{what}: got {g:?}, expected {want:?}"));
        }
    }
}

struct Conns {
    server: Handle,
    client: Handle,
}

async fn connect() -> Conns {
    let broker = Broker::new();
    let mut handle = broker.handle().clone();
    tokio::spawn(broker.run());
    let mut l = vec![];
    for _ in 0..2 {
        let (a, b) = channel::unbounded();
        let (conn, client) = tokio::join!(handle.connect(a), AldrinClient::connect(b));
        let client = client.expect("harness: connect");
        tokio::spawn(conn.expect("harness: connect").run());
        l.push(client.handle().clone());
        tokio::spawn(client.run());
    }
    Conns { client: l.pop().unwrap(), server: l.pop().unwrap() }
}

async fn object(h: &Handle) -> Object {
    h.create_object(ObjectUuid(Uuid::from_u128(77))).await.expect("harness: object")
}

fn err_is(o: &Obs, name: &str) -> bool {
    matches!(o, Obs::Error(e) if e.starts_with(name))
}

/// Generated client, hand-driven server.
async fn client(t: &T<'_>) {
    let Some(make) = t.e.client else { return };
    let c = connect().await;
    let ob = object(&c.server).await;
    let uuid = Uuid::parse_str(&t.s.uuid).unwrap();
    // The id of another service is refused.
    let other = ob.create_service(ServiceUuid(Uuid::from_u128(uuid.as_u128() ^ 1)), ServiceInfo::new(t.s.version)).await.expect("harness: service");
    match t.within("new", "creating a proxy", make(&c.client, other.id())).await {
        Some(Err(aldrin::Error::InvalidService)) | None => {}
        Some(Err(e)) => t.fail("uuid", "new", format!("a proxy for another service is refused with {e:?}")),
        Some(Ok(_)) => t.fail("uuid", "new", "a proxy for a service with another uuid is created".into()),
    }
    let mut sv = ob.create_service(ServiceUuid(uuid), ServiceInfo::new(t.s.version)).await.expect("harness: service");
    let mut px = match t.within("new", "creating a proxy", make(&c.client, sv.id())).await {
        Some(Ok(p)) => p,
        Some(Err(e)) => return t.fail("uuid", "new", format!("creating a proxy failed: {e:?}")),
        None => return,
    };
    if px.consts() != (*uuid.as_bytes(), t.s.version) {
        t.fail("consts", "client", format!("UUID and VERSION are {:?}", px.consts()));
    }
    for (i, f) in t.s.funcs.iter().enumerate() {
        let args = t.ty(&f.name, "Args", &f.args);
        let (ok, err) = (t.ty(&f.name, "Ok", &f.ok), t.ty(&f.name, "Error", &f.err));
        // What is sent.
        let modes = if f.args.is_some() { 4 } else { 1 };
        for v in t.values(&args, 8) {
            for mode in 0..modes {
                let want = t.decode(&args, &v).expect("harness: args");
                if call(t, &mut sv, &*px, i, mode, &t.enc(&v), Some(&want), &Plan::Abort).await.is_none() {
                    return;
                }
            }
        }
        let a = t.values(&args, 1).remove(0);
        // What is received.
        let mut plans: Vec<(Plan, Option<RV>)> = vec![(Plan::Abort, None), (Plan::InvalidFunction, None), (Plan::InvalidArgs, None)];
        for (t_, is_ok) in [(&ok, true), (&err, false)] {
            let mut vs = t.values(t_, 10);
            vs.extend(t.mixed(t_));
            for v in vs {
                let b = t.enc(&v);
                plans.push((if is_ok { Plan::Ok(b, 0) } else { Plan::Err(b, 0) }, t.decode(t_, &v)));
            }
        }
        for (p, want) in plans {
            let Some(o) = call(t, &mut sv, &*px, i, 0, &t.enc(&a), None, &p).await else { return };
            let id = f.id;
            let good = match (&p, &o) {
                (Plan::Abort, o) => err_is(o, "CallAborted"),
                (Plan::InvalidFunction, o) => err_is(o, &format!("InvalidFunction(InvalidFunction {{ id: {id} }})")),
                (Plan::InvalidArgs, o) => err_is(o, &format!("InvalidArguments(InvalidArguments {{ id: {id}")),
                (Plan::Ok(..), Obs::Ok(g, r)) | (Plan::Err(..), Obs::Err(g, r)) if want.is_some() => {
                    t.same(&f.name, "reply", r, want.as_ref().unwrap());
                    *g == id
                }
                (_, o) => want.is_none() && err_is(o, "InvalidReply"),
            };
            if !good {
                t.fail("reply", &f.name, format!("the server replied {p:?} ({want:?}) and the client sees {o:?}"));
            }
        }
    }
    events(t, &mut sv, &mut *px).await;
}

/// One call by the generated client, answered as planned.
#[allow(clippy::too_many_arguments)]
async fn call(t: &T<'_>, sv: &mut LowService, px: &dyn Client, i: usize, mode: u8, args: &[u8], want: Option<&RV>, plan: &Plan) -> Option<Obs> {
    let f = &t.s.funcs[i];
    let reply = px.call(i, mode, args);
    let serve = async {
        let c = sv.next_call().await.expect("harness: call");
        let (id, version) = (c.id(), c.version());
        let (a, p) = c.into_args_and_promise();
        if id != f.id || version != Some(t.s.version) {
            t.fail("call", &f.name, format!("calls function {id} of version {version:?}"));
        }
        if let Some(w) = want {
            t.same(&f.name, &format!("arguments (mode {mode})"), &Ok(bytes(&a)), w);
        }
        match plan {
            Plan::Ok(b, _) => p.ok_as::<tags::Value>(slice(b)),
            Plan::Err(b, _) => p.err_as::<tags::Value>(slice(b)),
            Plan::Abort => p.abort(),
            Plan::InvalidFunction => p.invalid_function(),
            Plan::InvalidArgs => p.invalid_args(),
        }
        .expect("harness: reply");
    };
    // A client that refuses to send would leave the server waiting.
    let both = async {
        let serve = std::pin::pin!(serve);
        let mut reply = reply;
        let mut serve = Some(serve);
        std::future::poll_fn(|cx| {
            if let Some(s) = &mut serve {
                if s.as_mut().poll(cx).is_ready() {
                    serve = None;
                }
            }
            reply.as_mut().poll(cx)
        })
        .await
    };
    t.within(&f.name, &format!("a call (mode {mode}) answered with {plan:?}"), both).await
}

/// Events of a hand-driven server at the generated client.
async fn events(t: &T<'_>, sv: &mut LowService, px: &mut dyn Client) {
    let ids: Vec<u32> = t.s.events.iter().map(|e| e.id).collect();
    let unknown: Vec<u32> = [0, 1, 5, 252, 70000, u32::MAX].into_iter().filter(|i| !ids.contains(i)).collect();
    let emit = |id: u32, b: &[u8]| sv.emit_as::<tags::Value>(id, slice(b)).expect("harness: emit");
    // The last event emitted marks the end.
    let fallback = t.s.ev_fallback.is_some();
    for sub in 0..t.s.events.len() + 1 {
        let all = sub == t.s.events.len();
        let ev = (!all).then_some(sub);
        let name = ev.map_or("all events".to_string(), |e| t.s.events[e].name.clone());
        if t.s.events.is_empty() && !fallback {
            break;
        }
        match t.within(&name, "subscribing", px.subscribe(ev)).await {
            Some(Obs::Done) => {}
            None => return,
            o => return t.fail("subscribe", &name, format!("{o:?}")),
        }
        if all {
            // This is about the events the schema has. The others are subscribed to by id.
            for id in &unknown {
                match t.within(&name, "subscribing", px.low().subscribe(*id)).await {
                    Some(Ok(())) => {}
                    _ => return,
                }
            }
        }
        for dispatch in [false, true] {
            // Every event and some more, in one go.
            let mut want: Vec<(Obs, Option<RV>)> = vec![];
            for (i, e) in t.s.events.iter().enumerate() {
                let ty = t.ty(&e.name, "Args", &e.ty);
                let mut vs = t.values(&ty, 8);
                vs.extend(t.mixed(&ty));
                for v in vs {
                    let b = t.enc(&v);
                    emit(e.id, &b);
                    if all || sub == i {
                        match t.decode(&ty, &v) {
                            Some(w) => want.push((Obs::Arm(Some(i), e.id, Ok(vec![])), Some(w))),
                            None => want.push((Obs::Error(format!("InvalidArguments(InvalidArguments {{ id: {}", e.id)), None)),
                        }
                    }
                }
                for id in &unknown {
                    let v = RV::Str(format!("unknown {id}"));
                    emit(*id, &t.enc(&v));
                    if all && fallback {
                        want.push((Obs::Arm(None, *id, Ok(vec![])), Some(v)));
                    }
                }
            }
            for (k, (w, v)) in want.iter().enumerate() {
                let Some(o) = t.within(&name, &format!("event {k} of {}: {w:?} {v:?}", want.len()), px.next(dispatch)).await else { return };
                let good = match (w, &o) {
                    (Obs::Arm(i, id, _), Obs::Arm(j, jd, r)) => {
                        t.same(&name, "event", r, v.as_ref().unwrap());
                        i == j && id == jd
                    }
                    (Obs::Error(p), Obs::Error(e)) => e.starts_with(p),
                    _ => false,
                };
                if !good {
                    t.fail("event", &name, format!("received {o:?}, expected {w:?} {v:?} (dispatch {dispatch}, subscribed {ev:?})"));
                    return;
                }
            }
        }
        match t.within(&name, "unsubscribing", px.unsubscribe(ev)).await {
            Some(Obs::Done) => {}
            None => return,
            o => return t.fail("subscribe", &name, format!("unsubscribing: {o:?}")),
        }
        // Not subscribed any more: whatever is received next is not this.
        for e in &t.s.events {
            emit(e.id, &t.enc(&RV::Str("late".into())));
        }
        let _ = t.within(&name, "sync", sv.client().sync_broker()).await;
    }
}

/// Generated server, hand-driven client.
async fn server(t: &T<'_>) {
    let Some(make) = t.e.server else { return };
    let c = connect().await;
    let ob = object(&c.server).await;
    let uuid = Uuid::parse_str(&t.s.uuid).unwrap();
    let mut sv: Box<dyn Server> = match t.within("new", "creating the service", make(&ob)).await {
        Some(Ok(s)) => s,
        Some(Err(e)) => return t.fail("server-new", "new", format!("{e:?}")),
        None => return,
    };
    if sv.consts() != (*uuid.as_bytes(), t.s.version) {
        t.fail("consts", "server", format!("UUID and VERSION are {:?}", sv.consts()));
    }
    if sv.id().uuid != ServiceUuid(uuid) {
        return t.fail("consts", "server", format!("the service has the uuid {}", sv.id().uuid));
    }
    let mut px = match t.within("proxy", "creating a proxy", Proxy::new(&c.client, sv.id())).await {
        Some(Ok(p)) => p,
        o => return t.fail("server-new", "proxy", format!("{:?}", o.map(|r| r.map(|_| ())))),
    };
    if px.version() != t.s.version {
        t.fail("consts", "server", format!("the service has version {}", px.version()));
    }
    for (i, f) in t.s.funcs.iter().enumerate() {
        let args = t.ty(&f.name, "Args", &f.args);
        let (ok, err) = (t.ty(&f.name, "Ok", &f.ok), t.ty(&f.name, "Error", &f.err));
        let mut vs = t.values(&args, 8);
        vs.extend(t.mixed(&args));
        for dispatch in [false, true] {
            for v in &vs {
                let want = t.decode(&args, v).map(|w| (Some(i), w));
                if !serve(t, &mut *sv, &px, &f.name, f.id, v, want, dispatch, Plan::Abort, None).await {
                    return;
                }
            }
            let a = t.values(&args, 1).remove(0);
            let w = t.decode(&args, &a).unwrap();
            let mut plans = vec![(Plan::InvalidFunction, None), (Plan::InvalidArgs, None)];
            for m in 0..4 {
                for v in t.values(&ok, 8) {
                    plans.push((Plan::Ok(t.enc(&v), m), t.decode(&ok, &v)));
                }
                for v in t.values(&err, 8) {
                    plans.push((Plan::Err(t.enc(&v), m), t.decode(&err, &v)));
                }
            }
            for (p, r) in plans {
                if !serve(t, &mut *sv, &px, &f.name, f.id, &a, Some((Some(i), w.clone())), dispatch, p, r).await {
                    return;
                }
            }
        }
    }
    // Functions there are not.
    for id in [0, 1, 5, 20, 252, 70000, u32::MAX] {
        if t.s.funcs.iter().any(|f| f.id == id) {
            continue;
        }
        for dispatch in [false, true] {
            for v in [RV::None, RV::U8(1), RV::Struct([(0, RV::Str("x".into()))].into())] {
                let fb = t.s.fn_fallback.is_some();
                let want = fb.then(|| (None, v.clone()));
                let plan = if fb { Plan::Ok(t.enc(&v), 0) } else { Plan::Abort };
                if !serve(t, &mut *sv, &px, &format!("function {id}"), id, &v, want, dispatch, plan, fb.then(|| v.clone())).await {
                    return;
                }
            }
        }
    }
    // Events.
    for e in &t.s.events {
        match t.within(&e.name, "subscribing", px.subscribe(e.id)).await {
            Some(Ok(())) => {}
            _ => return,
        }
    }
    for (i, e) in t.s.events.iter().enumerate() {
        let ty = t.ty(&e.name, "Args", &e.ty);
        let modes = if e.ty.is_some() { 4 } else { 1 };
        for v in t.values(&ty, 12) {
            for m in 0..modes {
                let o = sv.emit(i, m, &t.enc(&v));
                if o != Obs::Done {
                    t.fail("emit", &e.name, format!("emitting {v:?} fails with {o:?}"));
                    continue;
                }
                let Some(got) = t.within(&e.name, "the event emitted", px.next_event()).await else { return };
                let Some(got) = got else { return t.fail("emit", &e.name, "the stream of events ends".into()) };
                if got.id() != e.id {
                    t.fail("emit", &e.name, format!("emitted with id {} instead of {}", got.id(), e.id));
                }
                t.same(&e.name, &format!("event (mode {m})"), &Ok(bytes(got.args())), &t.decode(&ty, &v).unwrap());
            }
        }
    }
}

/// One call at the generated server; `want`: arm and arguments it must see, or None if it is
/// refused.
#[allow(clippy::too_many_arguments)]
async fn serve(
    t: &T<'_>,
    sv: &mut dyn Server,
    px: &Proxy,
    item: &str,
    id: u32,
    v: &RV,
    want: Option<(Option<usize>, RV)>,
    dispatch: bool,
    plan: Plan,
    reply: Option<RV>,
) -> bool {
    let b = t.enc(v);
    let known = t.s.funcs.iter().any(|f| f.id == id);
    let pending = px.call_as::<tags::Value>(id, slice(&b), Some(t.s.version));
    let both = async { tokio::join!(sv.next(dispatch, plan.clone()), pending) };
    let Some(((obs, answered), got)) = t.within(item, &format!("a call with {v:?} (dispatch {dispatch}, {plan:?})"), both).await else {
        return false;
    };
    if let Err(e) = answered {
        t.fail("answer", item, format!("answering with {plan:?} failed: {e}"));
        return false;
    }
    let seen = match (&want, &obs) {
        (Some((arm, w)), Obs::Arm(a, i, r)) => {
            t.same(item, "arguments", r, w);
            a == arm && *i == id
        }
        (None, Obs::Error(e)) if known => e.starts_with(&format!("InvalidArguments(InvalidArguments {{ id: {id}")),
        (None, Obs::Error(e)) => e.starts_with(&format!("InvalidFunction(InvalidFunction {{ id: {id}")),
        _ => false,
    };
    if !seen {
        t.fail("call", item, format!("called with {v:?}, the server sees {obs:?}, expected {want:?} (dispatch {dispatch})"));
        return false;
    }
    let (want_err, plan) = match (&want, plan) {
        (None, _) if known => (Some("InvalidArguments"), Plan::Abort),
        (None, _) => (Some("InvalidFunction"), Plan::Abort),
        (_, Plan::Abort) => (Some("CallAborted"), Plan::Abort),
        (_, Plan::InvalidFunction) => (Some("InvalidFunction"), Plan::Abort),
        (_, Plan::InvalidArgs) => (Some("InvalidArguments"), Plan::Abort),
        (_, p) => (None, p),
    };
    let good = match (want_err, &got) {
        (Some(n), Err(e)) => format!("{e:?}").starts_with(n),
        (None, Ok(r)) => match (&plan, r.args()) {
            (Plan::Ok(..), Ok(b)) | (Plan::Err(..), Err(b)) => {
                t.same(item, "reply", &Ok(bytes(b)), reply.as_ref().unwrap());
                true
            }
            _ => false,
        },
        _ => false,
    };
    if !good {
        t.fail("reply", item, format!("the caller sees {:?}, expected {want_err:?} / {plan:?}", got.map(|r| r.args().map(hex_).map_err(hex_))));
        return false;
    }
    true
}

fn hex_(b: &aldrin::core::SerializedValueSlice) -> String {
    hex(b)
}

fn one(ctx: &Ctx, c: &Corpus, e: &SvcEntry, part: usize) {
    let u = &c.units[e.unit];
    let s = u.world.schema(e.schema).services().find(|s| s.name == e.name).expect("harness: service");
    let t = T { ctx, u, e, s, n: Cell::new(0), bad: Cell::new(false) };
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async {
        if part == 0 {
            client(&t).await;
        } else {
            server(&t).await;
        }
    });
    ctx.add_states(1);
    ctx.add_traces(t.n.get() as u64);
}

pub fn run(ctx: &Ctx, c: &Corpus) {
    let l = &ENTRIES.get().unwrap().services;
    ctx.par(l.len() * 2, |i| {
        if ctx.stopped() {
            return;
        }
        let r = mc_common::catch(|| one(ctx, c, &l[i / 2], i % 2));
        if let Err(p) = r {
            if p.contains("harness") {
                panic!("{p}");
            }
            let e = &l[i / 2];
            ctx.violation(&format!("C16/service/panic/{}/{}", e.unit, e.name), &p, json!({"kind": "service", "unit": e.unit, "name": e.name}));
        }
    });
    ctx.extra("services", l.len());
}

pub fn replay(ctx: &Ctx, c: &Corpus, r: &Json) {
    let l = &ENTRIES.get().unwrap().services;
    let e = l.iter().find(|e| e.unit == r["unit"] && e.name == r["name"]).expect("service");
    one(ctx, c, e, 0);
    one(ctx, c, e, 1);
}
