//! Version negotiation, feature gates, and payloads between peers of different versions.

use crate::alpha::*;
use crate::bfs::*;
use crate::c11::{attack, busy_prelude, is_ill_formed};
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::refcodec::*;
use crate::sys::*;
use aldrin::error::ConnectError;
use aldrin_broker::{AcceptError, Acceptor, Broker};
use aldrin_core::channel::{unbounded, Unbounded};
use aldrin_core::message::*;
use aldrin_core::transport::AsyncTransport;
use aldrin_core::{
    BusListenerFilter, BusListenerScope, ChannelEndWithCapacity as Cap, ProtocolVersion, SerializedValue,
    SerializedValueSlice,
};
use mc_common::Ctx;
use serde_json::json;
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

fn put(t: &mut Unbounded, m: Message) {
    let mut t = Pin::new(t);
    let mut cx = Context::from_waker(Waker::noop());
    if let Poll::Ready(Ok(())) = t.as_mut().send_poll_ready(&mut cx) {
        let _ = t.as_mut().send_start(m);
        let _ = t.send_poll_flush(&mut cx);
    }
}

/// Everything there is to receive and whether the other side is gone.
fn take(t: &mut Unbounded) -> (Vec<Message>, bool) {
    let mut v = Vec::new();
    loop {
        match Pin::new(&mut *t).receive_poll(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(Ok(m)) => v.push(m),
            Poll::Ready(Err(_)) => return (v, true),
            Poll::Pending => return (v, false),
        }
    }
}

fn rv(v: &SerializedValueSlice) -> Option<(RV, bool)> {
    let mut d = Dec::new(v, false);
    let r = d.value(1).ok()?;
    (d.pos == v.len()).then_some((r, d.saw_v2))
}

fn sv(v: &RV, st: Style) -> SerializedValue {
    raw_value(&encode(v, st))
}

/// The value is the one expected, in an encoding the version knows.
fn same(got: &SerializedValueSlice, want: &RV, version: u32) -> Result<(), String> {
    match rv(got) {
        None => Err(format!("a value that does not decode: {:?}", &got[..])),
        Some((g, _)) if g != *want => Err(format!("another value: {g:?}")),
        Some((_, true)) if version < 20 => Err("a container encoding of 1.20".into()),
        Some(_) => Ok(()),
    }
}

// ---------------------------------------------------------------------------------------------
// Handshakes

#[derive(Clone, Copy, Debug, PartialEq)]
enum Hello {
    V1(u32),
    V2(u32, u32),
}

/// What the statement says.
fn negotiated(h: Hello) -> Option<u32> {
    match h {
        Hello::V1(14) => Some(14),
        Hello::V2(1, x) if x >= 14 => Some(x.min(20)),
        _ => None,
    }
}

fn user_data() -> Vec<Option<RV>> {
    let mut v: Vec<Option<RV>> = vec![None];
    v.extend(
        [
            RV::None,
            RV::U32(70000),
            RV::Str("é".into()),
            RV::Vec(vec![RV::Bytes(vec![1, 2, 3]), RV::some(RV::Vec(vec![]))]),
            RV::Struct([(0, RV::U8(1)), (7, RV::Vec(vec![RV::None]))].into()),
            chain(&[1, 2, 0, 3, 4, 9], RV::Set(KK::U16, few_keys(KK::U16).into_iter().collect())),
        ]
        .map(Some),
    );
    v
}

/// `ConnectData` and `ConnectReplyData`: a struct with an optional field 0.
fn data_value(user: &Option<RV>) -> RV {
    RV::Struct(match user {
        None => Default::default(),
        Some(v) => [(0, RV::some(v.clone()))].into(),
    })
}

fn data_user(v: &RV) -> Result<Option<RV>, String> {
    let RV::Struct(m) = v else { return Err(format!("not a struct: {v:?}")) };
    match m.get(&0) {
        None | Some(RV::None) => Ok(None),
        Some(RV::Some(v)) => Ok(Some((**v).clone())),
        Some(v) => Err(format!("user data is {v:?}")),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
    Accept,
    Reject,
}

fn handshake(hello: Hello, data: &Option<RV>, reply: &Option<RV>, answer: Answer) -> Result<(), String> {
    let broker = Broker::new();
    let mut bh = broker.handle().clone();
    let mut exec = Exec::new();
    exec.spawn(broker.run());
    let (mut client, server) = unbounded();
    put(
        &mut client,
        match hello {
            Hello::V1(version) => {
                Connect { version, value: sv(data.as_ref().unwrap_or(&RV::None), Style::V1) }.into()
            }
            Hello::V2(major_version, minor_version) => Connect2 {
                major_version,
                minor_version,
                value: sv(&data_value(data), Style::V1),
            }
            .into(),
        },
    );
    let out: Rc<RefCell<Option<Result<(), String>>>> = Rc::default();
    let want = negotiated(hello);
    let (o, r) = (out.clone(), reply.clone());
    let is_v1 = matches!(hello, Hello::V1(_));
    let want_data = if is_v1 { Some(data.clone().unwrap_or(RV::None)) } else { data.clone() };
    let task = exec.spawn(async move {
        let run = async {
            let mut a = match (Acceptor::new(server).await, want) {
                (Ok(a), Some(v)) if a.version() == ProtocolVersion::new(1, v) => a,
                (Ok(a), _) => return Err(format!("accepted with version {}", a.version())),
                (Err(AcceptError::IncompatibleVersion(_)), None) => return Ok(()),
                (Err(e), _) => return Err(format!("failed with {e:?}")),
            };
            let got = match a.client_data() {
                None => None,
                Some(d) => match rv(d) {
                    Some((v, _)) => Some(v),
                    None => return Err(format!("client data do not decode: {d:?}")),
                },
            };
            if got != want_data {
                return Err(format!("client data arrived as {got:?}"));
            }
            if let Some(r) = &r {
                a.set_reply_data(sv(r, Style::V2));
            }
            match answer {
                Answer::Reject => a.reject().await.map_err(|e| format!("reject: {e:?}")),
                Answer::Accept => {
                    let conn = a.accept(&mut bh).await.map_err(|e| format!("accept: {e:?}"))?;
                    drop(bh);
                    let _ = conn.run().await;
                    Ok(())
                }
            }
        };
        let res = run.await;
        *o.borrow_mut() = Some(res);
    });
    if !exec.quiesce(POLL_BOUND) {
        return Err("no quiescence".into());
    }
    let (mut got, closed) = take(&mut client);
    let connected = want.is_some() && answer == Answer::Accept;
    if let Some(Err(e)) = out.borrow_mut().take() {
        return Err(e);
    }
    if got.len() != 1 {
        return Err(format!("the client received {got:?}"));
    }
    let got = got.remove(0);
    match (&got, hello, want) {
        (Message::ConnectReply(ConnectReply::IncompatibleVersion(_)), Hello::V1(_), None) => {}
        (Message::ConnectReply2(r), Hello::V2(..), None)
            if r.result == ConnectResult::IncompatibleVersion => {}
        (Message::ConnectReply(ConnectReply::Ok(v)), Hello::V1(_), Some(_)) if connected => {
            same(v, reply.as_ref().unwrap_or(&RV::None), 14)?
        }
        (Message::ConnectReply(ConnectReply::Rejected(v)), Hello::V1(_), Some(_)) if !connected => {
            same(v, reply.as_ref().unwrap_or(&RV::None), 14)?
        }
        (Message::ConnectReply2(r), Hello::V2(..), Some(v))
            if (connected && r.result == ConnectResult::Ok(v))
                || (!connected && r.result == ConnectResult::Rejected) =>
        {
            let (d, v2) = rv(&r.value).ok_or("reply data do not decode")?;
            if v2 && v < 20 {
                return Err(format!("reply data in the encoding of 1.20: {got:?}"));
            }
            if data_user(&d)? != *reply {
                return Err(format!("reply data arrived as {d:?}"));
            }
        }
        _ => return Err(format!("the client was told {got:?}")),
    }
    if connected == closed {
        return Err(format!("connection closed: {closed}"));
    }
    if connected {
        // It works, and in exactly this version.
        put(&mut client, Sync { serial: 3 }.into());
        if !exec.quiesce(POLL_BOUND) {
            return Err("no quiescence".into());
        }
        if take(&mut client) != (vec![SyncReply { serial: 3 }.into()], false) {
            return Err("no answer to Sync".into());
        }
        let v = want.unwrap();
        for (min, m) in gate_samples() {
            if min <= v {
                put(&mut client, m);
                if !exec.quiesce(POLL_BOUND) {
                    return Err("no quiescence".into());
                }
                if take(&mut client).1 {
                    return Err(format!("negotiated {v}, but a message of version {min} closes the connection"));
                }
            }
        }
        if let Some((min, m)) = gate_samples().into_iter().find(|(min, _)| *min > v) {
            put(&mut client, m);
            if !exec.quiesce(POLL_BOUND) {
                return Err("no quiescence".into());
            }
            if !take(&mut client).1 {
                return Err(format!("negotiated {v}, but a message of version {min} is accepted"));
            }
        }
    }
    drop(client);
    if !exec.quiesce(POLL_BOUND) {
        return Err("no quiescence".into());
    }
    if !exec.done(task) {
        return Err("the connection task does not end".into());
    }
    Ok(())
}

fn gate_samples() -> Vec<(u32, Message)> {
    vec![
        (16, AbortFunctionCall { serial: 5 }.into()),
        (17, QueryServiceInfo { serial: 5, cookie: sc(BOGUS) }.into()),
        (18, SubscribeService { serial: 5, service_cookie: sc(BOGUS) }.into()),
        (
            19,
            CallFunction2 {
                serial: 5,
                service_cookie: sc(BOGUS),
                function: 1,
                version: Some(1),
                value: val(1),
            }
            .into(),
        ),
    ]
}

/// First messages that are no handshake.
fn no_handshake(m: Message) -> Result<(), String> {
    let broker = Broker::new();
    let mut bh = broker.handle().clone();
    let mut exec = Exec::new();
    exec.spawn(broker.run());
    let (mut client, server) = unbounded();
    let dbg = format!("{m:?}");
    put(&mut client, m);
    let ok = Rc::new(RefCell::new(None));
    let o = ok.clone();
    exec.spawn(async move {
        let r = bh.connect(server).await;
        *o.borrow_mut() = Some(r.is_ok());
    });
    if !exec.quiesce(POLL_BOUND) {
        return Err("no quiescence".into());
    }
    let (got, closed) = take(&mut client);
    if *ok.borrow() != Some(false) || !closed || !got.is_empty() {
        return Err(format!("{dbg} as first message: connected {:?}, received {got:?}, closed {closed}", ok.borrow()));
    }
    Ok(())
}

/// The real client's side of the handshake.
fn client_handshake(legacy: bool, data: &Option<RV>, reply: Message) -> Result<(), String> {
    let (mut server, client) = unbounded();
    let mut exec = Exec::new();
    let out: Rc<RefCell<Option<Result<(ProtocolVersion, Option<RV>), String>>>> = Rc::default();
    let (o, d) = (out.clone(), data.clone());
    exec.spawn(async move {
        let mut b = aldrin::Client::builder(client);
        if let Some(d) = &d {
            b.set_data(sv(d, Style::V2));
        }
        let conv = |v: Option<SerializedValue>| v.map(|v| rv(&v).expect("reply data do not decode").0);
        let r = if legacy {
            b.connect1_with_data().await.map(|(c, d)| (c.version(), conv(Some(d))))
        } else {
            b.connect_with_data().await.map(|(c, d)| (c.version(), conv(d)))
        };
        *o.borrow_mut() = Some(match r {
            Ok(r) => Ok(r),
            Err(ConnectError::IncompatibleVersion) => Err("incompatible".to_string()),
            Err(ConnectError::Rejected(d)) => Err(format!("rejected {:?}", conv(d))),
            Err(ConnectError::UnexpectedMessageReceived(_)) => Err("unexpected".to_string()),
            Err(e) => Err(format!("error {e:?}")),
        });
    });
    if !exec.quiesce(POLL_BOUND) {
        return Err("no quiescence".into());
    }
    let (got, _) = take(&mut server);
    match &got[..] {
        [Message::Connect(m)] if legacy && m.version == 14 => {
            same(&m.value, data.as_ref().unwrap_or(&RV::None), 14)?
        }
        [Message::Connect2(m)] if !legacy && (m.major_version, m.minor_version) == (1, 20) => {
            let (v, v2) = rv(&m.value).ok_or("data do not decode")?;
            if v2 {
                return Err("handshake data in the encoding of 1.20".into());
            }
            if data_user(&v)? != *data {
                return Err(format!("handshake data are {v:?}"));
            }
        }
        _ => return Err(format!("the client sent {got:?}")),
    }
    let want = match (&reply, legacy) {
        (Message::ConnectReply2(r), false) => {
            let u = data_user(&rv(&r.value).unwrap().0)?;
            match r.result {
                ConnectResult::Ok(v) if v <= 20 => Ok((ProtocolVersion::new(1, v), u)),
                ConnectResult::Ok(_) | ConnectResult::IncompatibleVersion => Err("incompatible".to_string()),
                ConnectResult::Rejected => Err(format!("rejected {u:?}")),
            }
        }
        (Message::ConnectReply(r), true) => match r {
            ConnectReply::Ok(v) => Ok((ProtocolVersion::V1_14, Some(rv(v).unwrap().0))),
            ConnectReply::IncompatibleVersion(_) => Err("incompatible".to_string()),
            ConnectReply::Rejected(v) => Err(format!("rejected {:?}", Some(rv(v).unwrap().0))),
        },
        _ => Err("unexpected".to_string()),
    };
    put(&mut server, reply.clone());
    if !exec.quiesce(POLL_BOUND) {
        return Err("no quiescence".into());
    }
    let got = out.borrow_mut().take();
    if got != Some(want.clone()) {
        return Err(format!("expected {want:?}, the client says {got:?} to {reply:?}"));
    }
    Ok(())
}

fn handshakes(ctx: &Ctx) {
    let mut minors: Vec<u32> = (0..=40).collect();
    minors.extend([114, 128, 255, 256, 270, 0x10e, 65535, 65536 + 14, 65536 + 20, 1 << 24 | 14, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX]);
    let mut hellos: Vec<Hello> = minors.iter().map(|v| Hello::V1(*v)).collect();
    for major in [0, 1, 2, 3, 14, 255, 256, 257, 65536, 65537, 1 << 31, u32::MAX] {
        hellos.extend(minors.iter().map(|v| Hello::V2(major, *v)));
    }
    let data = user_data();
    let mut n = 0u64;
    for h in &hellos {
        for (i, d) in data.iter().enumerate() {
            for (j, r) in data.iter().enumerate() {
                // All data in both directions where there is a connection.
                if negotiated(*h).is_none() && (i + j) % 5 != 0 {
                    continue;
                }
                for answer in [Answer::Accept, Answer::Reject] {
                    ctx.mark(format!("{h:?} {d:?} {r:?} {answer:?}").as_bytes());
                    n += 1;
                    let res = mc_common::catch(|| handshake(*h, d, r, answer)).unwrap_or_else(|p| Err(format!("panic: {p}")));
                    if let Err(e) = res {
                        ctx.violation(
                            &format!("C12/handshake/{h:?}"),
                            &format!("{h:?} with data {d:?}, reply data {r:?}, {answer:?}: {e}"),
                            json!({"hello": format!("{h:?}")}),
                        );
                    }
                }
            }
        }
    }
    let firsts: Vec<Message> = vec![
        Sync { serial: 0 }.into(),
        Shutdown.into(),
        CreateObject { serial: 0, uuid: obj_uuid(0) }.into(),
        ConnectReply::Ok(val(0)).into(),
        ConnectReply2 { result: ConnectResult::Ok(20), value: sv(&data_value(&None), Style::V1) }.into(),
    ];
    for m in &firsts {
        n += 1;
        if let Err(e) = mc_common::catch(|| no_handshake(m.clone())).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
            ctx.violation(&format!("C12/no-handshake/{:?}", m.kind()), &e, json!({}));
        }
    }
    // The client.
    let mut replies: Vec<Message> = vec![ConnectReply::IncompatibleVersion(14).into(), firsts[0].clone(), firsts[1].clone()];
    for u in user_data() {
        let w = sv(u.as_ref().unwrap_or(&RV::None), Style::V1);
        replies.push(ConnectReply::Ok(w.clone()).into());
        replies.push(ConnectReply::Rejected(w).into());
        let mut results: Vec<ConnectResult> =
            minors.iter().filter(|m| **m >= 14).map(|m| ConnectResult::Ok(*m)).collect();
        results.extend([ConnectResult::Rejected, ConnectResult::IncompatibleVersion]);
        for result in results {
            replies.push(ConnectReply2 { result, value: sv(&data_value(&u), Style::V1) }.into());
        }
    }
    for legacy in [false, true] {
        for d in user_data() {
            for r in &replies {
                ctx.mark(format!("client {legacy} {d:?} {r:?}").as_bytes());
                n += 1;
                let res = mc_common::catch(|| client_handshake(legacy, &d, r.clone())).unwrap_or_else(|p| Err(format!("panic: {p}")));
                if let Err(e) = res {
                    ctx.violation(
                        &format!("C12/client-handshake/{legacy}/{:?}", r.kind()),
                        &format!("client (legacy: {legacy}) with data {d:?}: {e}"),
                        json!({"reply": format!("{r:?}")}),
                    );
                }
            }
        }
    }
    ctx.unmark();
    ctx.add_states(n);
    ctx.add_transitions(n);
    ctx.extra("handshakes", json!({"cases": n, "requested_versions": hellos.len()}));
}

// ---------------------------------------------------------------------------------------------
// Payloads between all pairs of versions

struct Duo {
    sys: Sys<'static>,
    va: u32,
    vb: u32,
    svc: aldrin_core::ServiceCookie,
    /// A sends on the first and receives on the second.
    ab: aldrin_core::ChannelCookie,
    ba: aldrin_core::ChannelCookie,
    serial: u32,
}

const A: ConnIx = 0;
const B: ConnIx = 1;

impl Duo {
    fn new(va: u32, vb: u32) -> Result<Self, String> {
        let mut sys = Sys::new(&[va, vb], None);
        let max = Cap::Receiver(u32::MAX);
        let m = Model::new(&[va, vb]);
        for op in [
            Op::Connect(A),
            Op::Connect(B),
            create_object(B, 0),
            create_service_any(&m, B, 1, 0, true),
            subscribe(A, 2, 7),
            create_channel(A, Cap::Sender),
            claim_end(B, 3, max),
            create_channel(A, max),
            claim_end(B, 4, Cap::Sender),
        ] {
            sys.step(&op, &mut None).map_err(|m| m.what)?;
        }
        Ok(Self {
            va,
            vb,
            svc: aldrin_core::ServiceCookie(sys.real(2)),
            ab: aldrin_core::ChannelCookie(sys.real(3)),
            ba: aldrin_core::ChannelCookie(sys.real(4)),
            sys,
            serial: 10,
        })
    }

    /// Sends and returns the one message `to` receives; the other side receives nothing.
    fn pass(&mut self, from: ConnIx, m: impl Into<Message>, to: ConnIx) -> Result<Message, String> {
        let m = m.into();
        let kind = m.kind();
        self.sys.wire.clear();
        self.sys.raw_send(from, m);
        self.sys.quiesce().map_err(|m| m.what)?;
        let (mut rec, closed) = self.sys.receive();
        if closed.contains(&true) {
            return Err(format!("{kind:?}: connections closed: {closed:?}"));
        }
        if let Some(w) = self.sys.wire.first() {
            return Err(w.what.clone());
        }
        if rec[to].len() != 1 || !rec[1 - to].is_empty() {
            return Err(format!("{kind:?}: received {rec:?}"));
        }
        Ok(rec[to].remove(0))
    }

    fn call(&mut self, v: &RV, st: Style, version: Option<u32>) -> Result<u32, String> {
        self.serial += 1;
        let (serial, value) = (self.serial, sv(v, st));
        let m: Message = if self.va >= 19 {
            CallFunction2 { serial, service_cookie: self.svc, function: 9, version, value }.into()
        } else {
            CallFunction { serial, service_cookie: self.svc, function: 9, value }.into()
        };
        self.got_call(m, v, if self.va >= 19 { version } else { None })
    }

    fn got_call(&mut self, m: Message, v: &RV, version: Option<u32>) -> Result<u32, String> {
        match self.pass(A, m, B)? {
            Message::CallFunction(c) if self.vb < 19 => {
                if (c.service_cookie, c.function) != (self.svc, 9) {
                    return Err(format!("call arrived as {c:?}"));
                }
                same(&c.value, v, self.vb)?;
                Ok(c.serial)
            }
            Message::CallFunction2(c) if self.vb >= 19 => {
                if (c.service_cookie, c.function, c.version) != (self.svc, 9, version) {
                    return Err(format!("call arrived as {c:?}"));
                }
                same(&c.value, v, self.vb)?;
                Ok(c.serial)
            }
            m => Err(format!("a call arrived as {m:?}")),
        }
    }

    fn value(&mut self, v: &RV, st: Style) -> Result<(), String> {
        let (to_b, to_a) = (st == Style::V1 || self.va >= 20, st == Style::V1 || self.vb >= 20);
        if to_b {
            for version in [None, Some(5)] {
                let s = self.call(v, st, version)?;
                let r = CallFunctionReply { serial: s, result: CallFunctionResult::Aborted };
                match self.pass(B, r, A)? {
                    Message::CallFunctionReply(r)
                        if r.serial == self.serial && r.result == CallFunctionResult::Aborted => {}
                    m => return Err(format!("reply arrived as {m:?}")),
                }
            }
            // The legacy message is available to everyone.
            self.serial += 1;
            let m = CallFunction {
                serial: self.serial,
                service_cookie: self.svc,
                function: 9,
                value: sv(v, st),
            };
            let s = self.got_call(m.into(), v, None)?;
            let r = CallFunctionReply { serial: s, result: CallFunctionResult::InvalidArgs };
            match self.pass(B, r, A)? {
                Message::CallFunctionReply(r) if r.result == CallFunctionResult::InvalidArgs => {}
                m => return Err(format!("reply arrived as {m:?}")),
            }
            match self.pass(A, SendItem { cookie: self.ab, value: sv(v, st) }, B)? {
                Message::ItemReceived(i) if i.cookie == self.ab => same(&i.value, v, self.vb)?,
                m => return Err(format!("an item arrived as {m:?}")),
            }
        }
        if to_a {
            for err in [false, true] {
                let s = self.call(&RV::None, Style::V1, None)?;
                let result = if err {
                    CallFunctionResult::Err(sv(v, st))
                } else {
                    CallFunctionResult::Ok(sv(v, st))
                };
                match self.pass(B, CallFunctionReply { serial: s, result }, A)? {
                    Message::CallFunctionReply(r) if r.serial == self.serial => match r.result {
                        CallFunctionResult::Ok(x) if !err => same(&x, v, self.va)?,
                        CallFunctionResult::Err(x) if err => same(&x, v, self.va)?,
                        x => return Err(format!("a reply arrived as {x:?}")),
                    },
                    m => return Err(format!("a reply arrived as {m:?}")),
                }
            }
            match self.pass(B, EmitEvent { service_cookie: self.svc, event: 7, value: sv(v, st) }, A)? {
                Message::EmitEvent(e) if (e.service_cookie, e.event) == (self.svc, 7) => same(&e.value, v, self.va)?,
                m => return Err(format!("an event arrived as {m:?}")),
            }
            match self.pass(B, SendItem { cookie: self.ba, value: sv(v, st) }, A)? {
                Message::ItemReceived(i) if i.cookie == self.ba => same(&i.value, v, self.va)?,
                m => return Err(format!("an item arrived as {m:?}")),
            }
        }
        Ok(())
    }

    /// Aborts reach the callee if it knows them.
    fn abort(&mut self) -> Result<(), String> {
        if self.va < 16 {
            return Ok(());
        }
        let s = self.call(&RV::U8(1), Style::V1, None)?;
        self.sys.wire.clear();
        self.sys.raw_send(A, AbortFunctionCall { serial: self.serial }.into());
        self.sys.quiesce().map_err(|m| m.what)?;
        let (rec, closed) = self.sys.receive();
        let a: Vec<Message> =
            vec![CallFunctionReply { serial: self.serial, result: CallFunctionResult::Aborted }.into()];
        let b: Vec<Message> =
            if self.vb >= 16 { vec![AbortFunctionCall { serial: s }.into()] } else { vec![] };
        if closed.contains(&true) || rec[A] != a || rec[B] != b {
            return Err(format!("abort: received {rec:?}, closed {closed:?}"));
        }
        Ok(())
    }
}

fn payloads(ctx: &Ctx) {
    let small = corpus(1);
    let mut large = corpus(2);
    for kk in KKS {
        for k in keys(kk) {
            large.push(RV::Map(kk, [(k.clone(), RV::Vec(vec![RV::None]))].into()));
            large.push(RV::Vec(vec![RV::Set(kk, [k].into()), RV::U8(1)]));
        }
    }
    // Down to the nesting limit.
    for s in 0..NUM_STEPS {
        for d in [30, 31] {
            large.push(chain(&vec![s; d], RV::U8(3)));
            large.push(chain(&vec![s; d], RV::Vec(vec![])));
            large.push(chain(&vec![s; d], RV::Bytes(vec![1])));
        }
    }
    large.extend(all_atoms());
    let full = [(20, 14), (14, 20), (20, 19), (19, 20), (20, 20), (17, 18)];
    let mut jobs = Vec::new();
    for va in 14..=20 {
        for vb in 14..=20 {
            let big = ctx.thorough || full.contains(&(va, vb));
            let vals = if big { &large } else { &small };
            for chunk in vals.chunks(200) {
                jobs.push((va, vb, chunk));
            }
        }
    }
    let total = std::sync::atomic::AtomicU64::new(0);
    ctx.par(jobs.len(), |i| {
        let (va, vb, vals) = &jobs[i];
        let mut duo = match Duo::new(*va, *vb) {
            Ok(d) => d,
            Err(e) => {
                ctx.violation(&format!("C12/payload/setup/{va}-{vb}"), &format!("1.{va} <-> 1.{vb}: {e}"), json!({}));
                return;
            }
        };
        let mut n = 0;
        for v in vals.iter() {
            let mut done: Vec<Vec<u8>> = Vec::new();
            for st in STYLES {
                let e = encode(v, st);
                if done.contains(&e) {
                    continue;
                }
                done.push(e.clone());
                if st != Style::V1 && *va < 20 && *vb < 20 {
                    continue;
                }
                ctx.mark(&e);
                n += 1;
                let r = mc_common::catch(|| duo.value(v, st)).unwrap_or_else(|p| Err(format!("panic: {p}")));
                if let Err(e) = r {
                    let s = format!("{v:?}");
                    ctx.violation(
                        &format!("C12/payload/{va}-{vb}/{st:?}"),
                        &format!("1.{va} <-> 1.{vb}, encoded {st:?}, {}: {e}", s.chars().take(300).collect::<String>()),
                        json!({"caller_version": va, "callee_version": vb, "payload": mc_common::hex(&encode(v, st))}),
                    );
                    return;
                }
            }
        }
        if let Err(e) = mc_common::catch(|| duo.abort()).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
            ctx.violation(&format!("C12/abort/{va}-{vb}"), &format!("1.{va} <-> 1.{vb}: {e}"), json!({}));
        }
        total.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        ctx.unmark();
    });
    let n = total.into_inner();
    ctx.add_states(n);
    ctx.add_transitions(8 * n);
    ctx.extra("payloads", json!({"version_pairs": 49, "values": large.len(), "encoded_values_delivered": n}));
}

// ---------------------------------------------------------------------------------------------
// Gates

fn gates(ctx: &Ctx) {
    use MessageKind::*;
    let judge = |m: &Mismatch| {
        matches!(m.class, "closed" | "not-closed")
            || kinds(
                m,
                &[
                    CallFunction, CallFunction2, AbortFunctionCall, QueryServiceInfoReply, QueryIntrospection,
                    QueryIntrospectionReply, SubscribeServiceReply, SubscribeAllEvents, SubscribeAllEventsReply,
                    UnsubscribeAllEvents, UnsubscribeAllEventsReply,
                ],
            )
    };
    let run = |name: &str, versions: &[u32], who: &[ConnIx], depth: usize| {
        if !ctx.only(name) {
            return;
        }
        let alphabet = |m: &Model| {
            let mut v = Vec::new();
            for c in alive(m) {
                if who.contains(&c) {
                    v.extend(attack(m, c, false));
                }
            }
            v.retain(|o| !matches!(o, Op::Send(_, m) if is_ill_formed(m)));
            v
        };
        explore(
            ctx,
            &Cfg {
                name: name.into(),
                versions: versions.to_vec(),
                prelude: busy_prelude(versions),
                alphabet: &alphabet,
                depth,
                max_states: 400_000,
                judge: &judge,
                probe: None,
                stats: false,
                lenient: None,
                finding: None,
            },
        );
    };
    for v in 14..=20 {
        // All against everyone, one step.
        for w in 14..=20 {
            for x in [14, 20] {
                run(&format!("gates-{v}-{w}-{x}"), &[v, w, x, 20], &[0, 1, 2], 1);
            }
        }
    }
    for v in 14..=20 {
        run(&format!("gates2-{v}"), &[v, 14, 20, 20], &[0], if ctx.thorough { 3 } else { 2 });
        if ctx.thorough {
            run(&format!("gates2-all-{v}"), &[v, 14, 20, 20], &[0, 1, 2], 2);
        }
    }
    // Subscriptions and who is told about them, for all versions of owner and subscribers.
    for o in 14..=20 {
        let name = format!("subscriptions-{o}");
        if !ctx.only(&name) {
            continue;
        }
        let versions = [o, 16, 20];
        let m = Model::new(&versions);
        explore(
            ctx,
            &Cfg {
                name,
                versions: versions.to_vec(),
                prelude: vec![
                    Op::Connect(0),
                    Op::Connect(1),
                    Op::Connect(2),
                    create_object(0, 0),
                    create_service_any(&m, 0, 1, 0, true),
                    create_listener(1),
                    add_filter(1, 3, BusListenerFilter::any_object()),
                    start_listener(1, 3, BusListenerScope::New),
                ],
                alphabet: &|m| {
                    let mut v = Vec::new();
                    for c in alive(m) {
                        for t in svc_toks(m) {
                            if c != 0 {
                                v.extend([subscribe(c, t, 0), unsubscribe(c, t, 0)]);
                                v.push(query_version(c, t));
                                v.push(Op::Term(c, Term::Clean));
                                if m.version[c] >= 18 {
                                    v.extend([subscribe_all(c, t), unsubscribe_all(c, t, true), subscribe_service(c, t), unsubscribe_service(c, t)]);
                                }
                                if m.version[c] >= 17 {
                                    v.push(query_info(c, t));
                                }
                                if m.calls.iter().filter(|x| x.caller == c).count() < 1 {
                                    v.push(call_any(m, c, m.free_serial(c), t, 0, 1));
                                }
                            } else {
                                v.push(emit(c, t, 0, 4));
                                v.push(destroy_service(c, t));
                            }
                        }
                        for x in m.calls.iter().filter(|x| x.caller == c && m.version[c] >= 16) {
                            v.push(abort(c, x.serial));
                        }
                    }
                    v
                },
                depth: if ctx.thorough { 10 } else { 6 },
                max_states: 400_000,
                judge: &|m| judge(m) || kinds(m, &[SubscribeEvent, UnsubscribeEvent, EmitEvent, ServiceDestroyed, QueryServiceVersionReply]),
                probe: None,
                stats: false,
                lenient: None,
                finding: None,
            },
        );
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("Requested versions, messages and payload values are drawn from the enumerated pools; a broker that answers with a version below 1.14 is not considered.");
    if ctx.only("handshakes") {
        handshakes(ctx);
    }
    if ctx.only("payloads") {
        payloads(ctx);
    }
    gates(ctx);
}
