//! The real broker with real connections, driven message by message, and the comparison of what
//! comes out with the reference model.

use crate::exec::*;
use crate::model::*;
use crate::snap;
use aldrin_broker::{Broker, BrokerHandle, ConnectionHandle};
use aldrin_core::channel::{unbounded, Unbounded};
use aldrin_core::message::*;
use aldrin_core::transport::AsyncTransport;
use aldrin_core::*;
use bytes::BytesMut;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

/// Calls and introspection queries may be numbered independently of each other.
type SerKey = (ConnIx, bool, u32);

pub const POLL_BOUND: u64 = 20_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Send(ConnIx, Message),
    Connect(ConnIx),
    Term(ConnIx, Term),
    /// No quiescence in between: all of these are queued before the broker runs.
    Burst(Vec<Op>),
    ShutdownBroker,
    /// Stop as soon as there are no connections.
    ShutdownIdle,
}

/// The broker's end of a transport. What is sent is delivered at once, but flushing takes until the
/// harness says so, such that everything else also happens while a flush is outstanding.
pub struct Slow {
    inner: Unbounded,
    flush: Rc<RefCell<Flush>>,
}

#[derive(Default)]
pub struct Flush {
    dirty: bool,
    waker: Option<Waker>,
}

impl Flush {
    fn release(&mut self) {
        self.dirty = false;
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
}

impl AsyncTransport for Slow {
    type Error = aldrin_core::channel::Disconnected;

    fn receive_poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message, Self::Error>> {
        Pin::new(&mut self.inner).receive_poll(cx)
    }

    fn send_poll_ready(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), Self::Error>> {
        Pin::new(&mut self.inner).send_poll_ready(cx)
    }

    fn send_start(mut self: Pin<&mut Self>, msg: Message) -> Result<(), Self::Error> {
        self.flush.borrow_mut().dirty = true;
        Pin::new(&mut self.inner).send_start(msg)
    }

    fn send_poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), Self::Error>> {
        {
            let mut f = self.flush.borrow_mut();
            if f.dirty {
                f.waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
        }
        Pin::new(&mut self.inner).send_poll_flush(cx)
    }
}

fn ends(op: &Op) -> bool {
    match op {
        Op::Send(..) | Op::Connect(_) => false,
        Op::Term(..) | Op::ShutdownBroker | Op::ShutdownIdle => true,
        Op::Burst(v) => v.iter().any(ends),
    }
}

pub struct Slot {
    pub flush: Rc<RefCell<Flush>>,
    pub client: Option<Unbounded>,
    pub task: Option<TaskId>,
    pub handle: Rc<RefCell<Option<ConnectionHandle>>>,
    pub result: Rc<RefCell<Option<String>>>,
    pub reply: Option<Message>,
}

pub type Judge<'j> = dyn Fn(&Mismatch) -> bool + std::marker::Sync + 'j;

pub struct Sys<'j> {
    /// What counts here. A message too many, too few or out of order that belongs to another
    /// property does not end a history: what it leads to may well belong to this one.
    pub judge: Option<&'j Judge<'j>>,
    /// Number of such messages.
    pub tolerated: u64,
    /// The broker may as well ignore or close this connection.
    pub lenient: Option<ConnIx>,
    pub exec: Exec,
    pub broker_task: TaskId,
    pub handle: Option<BrokerHandle>,
    pub conns: Vec<Slot>,
    pub model: Model,
    /// Messages no connection of its version may be sent.
    pub wire: Vec<Mismatch>,
    real2syn: HashMap<[u8; 16], [u8; 16]>,
    syn2real: HashMap<[u8; 16], [u8; 16]>,
    ever: HashSet<[u8; 16]>,
    /// (callee, is an introspection query, real serial) -> synthetic serial
    ser2syn: HashMap<SerKey, u32>,
    syn2ser: HashMap<u32, SerKey>,
}

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub conn: ConnIx,
    /// None: not about a message
    pub kind: Option<MessageKind>,
    pub class: &'static str,
    pub what: String,
}

pub type Received = Vec<Vec<Message>>;

fn cx() -> Context<'static> {
    Context::from_waker(Waker::noop())
}

fn subst(m: Message, map: &HashMap<[u8; 16], [u8; 16]>) -> Message {
    if map.is_empty() {
        return m;
    }
    let kind = m.kind();
    let Ok(mut buf) = m.clone().serialize_message() else {
        return m;
    };
    // Only the fixed part can contain cookies; payloads start after the header of the kind.
    let (mut i, end) = if kind.has_value() {
        let n = u32::from_le_bytes(buf[5..9].try_into().unwrap()) as usize;
        (9 + n, buf.len())
    } else {
        (5, buf.len())
    };
    let mut changed = false;
    while i + 16 <= end {
        let w: [u8; 16] = buf[i..i + 16].try_into().unwrap();
        if let Some(r) = map.get(&w) {
            buf[i..i + 16].copy_from_slice(r);
            changed = true;
            i += 16;
        } else {
            i += 1;
        }
    }
    if !changed {
        return m;
    }
    Message::deserialize_message(BytesMut::from(&buf[..])).unwrap_or(m)
}

/// Payloads are compared in the encoding of 1.14.
fn norm(mut m: Message) -> Message {
    let _ = m.convert_value(None, ProtocolVersion::V1_14);
    m
}

fn new_cookie(m: &Message) -> Option<(u32, [u8; 16])> {
    match m {
        Message::CreateObjectReply(CreateObjectReply {
            serial,
            result: CreateObjectResult::Ok(c),
        }) => Some((*serial, *c.0.as_bytes())),
        Message::CreateServiceReply(CreateServiceReply {
            serial,
            result: CreateServiceResult::Ok(c),
        }) => Some((*serial, *c.0.as_bytes())),
        Message::CreateChannelReply(r) => Some((r.serial, *r.cookie.0.as_bytes())),
        Message::CreateBusListenerReply(r) => Some((r.serial, *r.cookie.0.as_bytes())),
        _ => None,
    }
}

fn bserial_mut(m: &mut Message) -> Option<&mut u32> {
    match m {
        Message::CallFunction(m) => Some(&mut m.serial),
        Message::CallFunction2(m) => Some(&mut m.serial),
        Message::AbortFunctionCall(m) => Some(&mut m.serial),
        Message::QueryIntrospection(m) => Some(&mut m.serial),
        _ => None,
    }
}

/// The kind and the payload encoding of a message for a connection of this minor version.
pub fn check_wire(c: ConnIx, version: u32, m: &Message) -> Option<Mismatch> {
    let bad = |class, what| Mismatch { conn: c, kind: Some(m.kind()), class, what };
    if kind_min_version(m.kind()) > version && m.kind() != MessageKind::ConnectReply2 {
        return Some(bad("wire-kind", format!("a connection of version 1.{version} was sent {m:?}")));
    }
    if version < 20 {
        if let Some(v) = m.value() {
            let mut d = crate::refcodec::Dec::new(v, true);
            let ok = d.value(1).is_ok() && d.pos == v.len();
            if ok && d.saw_v2 {
                return Some(bad(
                    "wire-encoding",
                    format!("a connection of version 1.{version} was sent a container in the encoding of 1.20: {m:?}"),
                ));
            }
        }
    }
    None
}

pub fn connect_msg(minor: u32) -> Message {
    if minor == 14 {
        Connect {
            version: 14,
            value: SerializedValue::serialize(()).unwrap(),
        }
        .into()
    } else {
        connect2_msg(minor)
    }
}

pub fn connect2_msg(minor: u32) -> Message {
    Connect2 {
        major_version: 1,
        minor_version: minor,
        value: {
            let mut v = SerializedValue::serialize(ConnectData::new()).unwrap();
            v.convert(None, ProtocolVersion::V1_14).unwrap();
            v
        },
    }
    .into()
}

impl<'j> Sys<'j> {
    pub fn new(versions: &[u32], judge: Option<&'j Judge<'j>>) -> Self {
        let broker = Broker::new();
        let handle = broker.handle().clone();
        let mut exec = Exec::new();
        let broker_task = exec.spawn(broker.run());
        Self {
            judge,
            tolerated: 0,
            lenient: None,
            wire: Vec::new(),
            exec,
            broker_task,
            handle: Some(handle),
            conns: versions
                .iter()
                .map(|_| Slot {
                    flush: Rc::default(),
                    client: None,
                    task: None,
                    handle: Rc::default(),
                    result: Rc::default(),
                    reply: None,
                })
                .collect(),
            model: Model::new(versions),
            real2syn: HashMap::new(),
            syn2real: HashMap::new(),
            ever: HashSet::new(),
            ser2syn: HashMap::new(),
            syn2ser: HashMap::new(),
        }
    }

    /// The real cookie behind a synthetic one.
    pub fn real(&self, t: Tok) -> uuid::Uuid {
        uuid::Uuid::from_bytes(self.syn2real[cookie(t).as_bytes()])
    }

    /// Lets outstanding flushes complete.
    fn release(&self, all: bool) -> bool {
        let mut any = false;
        for c in &self.conns {
            if (all || c.handle.borrow().is_none()) && c.flush.borrow().dirty {
                any |= c.flush.borrow().waker.is_some();
                c.flush.borrow_mut().release();
            }
        }
        any
    }

    pub fn quiesce(&mut self) -> Result<(), Mismatch> {
        self.quiesce_once()?;
        // A handshake waits for its flush.
        while self.release(false) {
            self.quiesce_once()?;
        }
        Ok(())
    }

    /// Nothing is left to be done, not even flushing.
    pub fn settle(&mut self) -> Result<(), Mismatch> {
        self.quiesce()?;
        while self.release(true) {
            self.quiesce()?;
        }
        Ok(())
    }

    fn quiesce_once(&mut self) -> Result<(), Mismatch> {
        match mc_common::catch(|| self.exec.quiesce(POLL_BOUND)) {
            Ok(true) => Ok(()),
            Ok(false) => Err(Mismatch {
                conn: 0,
                kind: None,
                class: "hang",
                what: format!("no quiescence within {POLL_BOUND} task polls"),
            }),
            Err(e) => Err(Mismatch {
                conn: 0,
                kind: None,
                class: "panic",
                what: format!("panic: {e}"),
            }),
        }
    }

    fn poll_conn(&mut self, c: ConnIx) -> Result<(), Mismatch> {
        let Some(t) = self.conns[c].task else {
            return Ok(());
        };
        mc_common::catch(|| {
            while self.exec.runnable(t) {
                self.exec.poll(t);
            }
        })
        .map_err(|e| Mismatch {
            conn: c,
            kind: None,
            class: "panic",
            what: format!("panic: {e}"),
        })
    }

    pub fn raw_send(&mut self, c: ConnIx, m: Message) {
        if let Some(t) = self.conns[c].client.as_mut() {
            let mut t = Pin::new(t);
            if let Poll::Ready(Ok(())) = t.as_mut().send_poll_ready(&mut cx()) {
                let _ = t.as_mut().send_start(m);
                let _ = t.send_poll_flush(&mut cx());
            }
        }
    }

    /// Synthetic -> real, and payloads in the encoding of the sender's version.
    fn to_real(&self, c: ConnIx, m: &Message) -> Message {
        let mut m = subst(m.clone(), &self.syn2real);
        let _ = m.convert_value(None, ProtocolVersion::new(1, self.model.version[c]));
        match &mut m {
            Message::CallFunctionReply(CallFunctionReply { serial, .. })
            | Message::QueryIntrospectionReply(QueryIntrospectionReply { serial, .. }) => {
                if let Some((_, _, s)) = self.syn2ser.get(serial) {
                    *serial = *s;
                }
            }
            _ => {}
        }
        m
    }

    /// A number may name another entry of another connection or of the other table as well.
    ///
    /// Not so a number the broker has given to the same connection before in the same table: a
    /// reply to the earlier call that is still on its way would then answer the later one, which
    /// no owner can avoid.
    fn canonical(&self, c: ConnIx, m: &Message) -> Message {
        // And what is sent as a reply to a query may hit a call's number and vice versa.
        let fix = |c: ConnIx, intro: bool, s: &mut u32| {
            if let Some((sc, si, real)) = self.syn2ser.get(s) {
                if *sc == c && *si == intro {
                    return;
                }
                let find = |own: bool| {
                    self.ser2syn
                        .iter()
                        .find(|((o, i, r), _)| (!own || *o == c) && *i == intro && r == real)
                        .map(|(_, syn)| *syn)
                };
                *s = find(true).or_else(|| find(false)).unwrap_or(BOGUS_SERIAL);
            }
        };
        let mut m = m.clone();
        match &mut m {
            Message::CallFunctionReply(r) => fix(c, false, &mut r.serial),
            Message::QueryIntrospectionReply(r) => fix(c, true, &mut r.serial),
            _ => {}
        }
        m
    }

    fn start_conn(&mut self, c: ConnIx) {
        let (mut client, server) = unbounded();
        let flush = Rc::<RefCell<Flush>>::default();
        let server = Slow { inner: server, flush: flush.clone() };
        let m = connect_msg(self.model.version[c]);
        let _ = Pin::new(&mut client).send_start(m);
        let slot = &mut self.conns[c];
        slot.client = Some(client);
        slot.flush = flush;
        slot.handle = Rc::default();
        slot.result = Rc::default();
        slot.reply = None;
        let (h, r) = (slot.handle.clone(), slot.result.clone());
        let mut bh = self.handle.clone().expect("broker handle");
        slot.task = Some(self.exec.spawn(async move {
            match bh.connect(server).await {
                Ok(conn) => {
                    drop(bh);
                    *h.borrow_mut() = Some(conn.handle().clone());
                    let res = conn.run().await;
                    *r.borrow_mut() = Some(format!("run: {res:?}"));
                }
                Err(e) => *r.borrow_mut() = Some(format!("connect: {e:?}")),
            }
        }));
    }

    fn issue(&mut self, op: &Op, burst: bool) -> Result<(), Mismatch> {
        match op {
            Op::Send(c, m) => {
                let m = self.to_real(*c, m);
                self.raw_send(*c, m);
                if burst {
                    self.poll_conn(*c)?;
                }
            }
            Op::Connect(c) => {
                self.start_conn(*c);
                if burst {
                    self.poll_conn(*c)?;
                }
            }
            Op::Term(c, Term::Clean) => {
                self.raw_send(*c, Shutdown.into());
                if burst {
                    self.poll_conn(*c)?;
                }
            }
            Op::Term(c, Term::Drop) => {
                self.conns[*c].client = None;
                if burst {
                    self.poll_conn(*c)?;
                }
            }
            Op::Term(c, Term::Forced) => {
                let h = self.conns[*c].handle.borrow().clone();
                if let (Some(h), Some(mut bh)) = (h, self.handle.clone()) {
                    let mut f = Box::pin(async move {
                        let _ = bh.shutdown_connection(&h).await;
                    });
                    let _ = poll_once(&mut f);
                }
            }
            Op::Term(c, Term::TaskDropped) => {
                if let Some(t) = self.conns[*c].task {
                    self.exec.drop_task(t);
                }
            }
            Op::ShutdownBroker => {
                if let Some(mut bh) = self.handle.clone() {
                    let mut f = Box::pin(async move { bh.shutdown().await });
                    let _ = poll_once(&mut f);
                }
            }
            Op::ShutdownIdle => {
                if let Some(mut bh) = self.handle.clone() {
                    let mut f = Box::pin(async move { bh.shutdown_idle().await });
                    let _ = poll_once(&mut f);
                }
            }
            Op::Burst(v) => {
                for o in v {
                    self.issue(o, true)?;
                }
            }
        }
        Ok(())
    }

    pub fn receive(&mut self) -> (Received, Vec<bool>) {
        let n = self.conns.len();
        let mut rec = vec![Vec::new(); n];
        let mut closed = vec![false; n];
        for c in 0..n {
            if let Some(t) = self.conns[c].client.as_mut() {
                loop {
                    match Pin::new(&mut *t).receive_poll(&mut cx()) {
                        Poll::Ready(Ok(m)) => {
                            if let Some(w) = check_wire(c, self.model.version[c], &m) {
                                self.wire.push(w);
                            }
                            rec[c].push(m)
                        }
                        Poll::Ready(Err(_)) => {
                            closed[c] = true;
                            break;
                        }
                        Poll::Pending => break,
                    }
                }
            }
        }
        (rec, closed)
    }

    /// Every way the model allows this operation to come out.
    fn outcomes(&self, op: &Op) -> Vec<(Model, Exp, BTreeSet<ConnIx>)> {
        match op {
            Op::Burst(v) => {
                let terms: Vec<ConnIx> = v
                    .iter()
                    .filter_map(|o| match o {
                        Op::Term(c, _) => Some(*c),
                        _ => None,
                    })
                    .collect();
                let mut res = Vec::new();
                let last = terms
                    .iter()
                    .filter_map(|c| v.iter().rposition(|o| matches!(o, Op::Term(x, _) if x == c)))
                    .collect::<Vec<_>>();
                let dropped: Vec<bool> = terms
                    .iter()
                    .map(|c| v.contains(&Op::Term(*c, Term::TaskDropped)))
                    .collect();
                // Position at which the broker notices the end of each connection; one more for a
                // dropped task means that it does not notice it directly.
                let last: Vec<usize> = last
                    .iter()
                    .zip(&dropped)
                    .map(|(l, d)| if *d { l + 1 } else { *l })
                    .collect();
                let mut pos = last.clone();
                loop {
                    let mut m = self.model.clone();
                    let mut e = Exp::new(m.n());
                    let mut ended = BTreeSet::new();
                    for (k, c) in terms.iter().enumerate() {
                        if dropped[k] && pos[k] == last[k] {
                            m.make_zombie(*c);
                            ended.insert(*c);
                            e.unjudged.insert(*c);
                        }
                    }
                    for (i, o) in v.iter().enumerate() {
                        for (k, c) in terms.iter().enumerate() {
                            if pos[k] == i && !(dropped[k] && pos[k] == last[k]) {
                                let mut x = Exp::new(m.n());
                                m.terminate(&mut x, *c);
                                x.unjudged.insert(*c);
                                ended.insert(*c);
                                e.merge(x);
                            }
                        }
                        match o {
                            Op::Send(c, msg) => e.merge(m.apply(*c, &self.canonical(*c, msg))),
                            Op::Connect(c) => m.connect(*c),
                            _ => {}
                        }
                    }
                    res.push((m, e, ended));
                    let mut k = 0;
                    loop {
                        if k == pos.len() {
                            return res;
                        }
                        if pos[k] > 0 {
                            pos[k] -= 1;
                            break;
                        }
                        pos[k] = last[k];
                        k += 1;
                    }
                }
            }
            op => {
                let mut m = self.model.clone();
                let mut ended = BTreeSet::new();
                let mut zombie = None;
                let e = match op {
                    Op::Send(c, msg) => m.apply(*c, &self.canonical(*c, msg)),
                    Op::Connect(c) => {
                        m.connect(*c);
                        Exp::new(m.n())
                    }
                    Op::Term(c, how) => {
                        let mut e = Exp::new(m.n());
                        if *how == Term::TaskDropped && m.alive[*c] && !m.zombie[*c] {
                            let mut m = m.clone();
                            m.make_zombie(*c);
                            zombie = Some((m, Exp::new(self.model.n()), BTreeSet::from([*c])));
                        }
                        if m.alive[*c] {
                            let was_zombie = m.zombie[*c];
                            m.terminate(&mut e, *c);
                            if was_zombie {
                                ended.insert(*c);
                                return vec![(m, e, ended)];
                            }
                            if matches!(how, Term::Forced | Term::Clean) {
                                e.out[*c].push(Shutdown.into());
                            }
                        }
                        ended.insert(*c);
                        e
                    }
                    Op::ShutdownIdle => {
                        m.idle = true;
                        Exp::new(m.n())
                    }
                    Op::ShutdownBroker => {
                        // What else is sent while connections go down one after the other depends
                        // on the order; only the shutdown message itself is judged.
                        let mut e = Exp::new(m.n());
                        for c in 0..m.n() {
                            if m.alive[c] && !m.zombie[c] {
                                e.out[c].push(Shutdown.into());
                                ended.insert(c);
                                e.unjudged.insert(c);
                            }
                        }
                        for c in 0..m.n() {
                            let mut x = Exp::new(m.n());
                            m.terminate(&mut x, c);
                        }
                        m.broker_up = false;
                        e
                    }
                    Op::Burst(_) => unreachable!(),
                };
                let mut v = vec![(m, e, ended)];
                v.extend(zombie);
                v
            }
        }
    }

    /// Performs an operation on the real system and the model and compares.
    pub fn step(&mut self, op: &Op, log: &mut Option<String>) -> Result<(), Mismatch> {
        let op = match op {
            Op::Send(c, m) => Op::Send(*c, self.canonical(*c, m)),
            o => o.clone(),
        };
        let mut outcomes = self.outcomes(&op);
        for o in &mut outcomes {
            if o.0.idle && !o.0.alive.contains(&true) {
                o.0.broker_up = false;
            }
        }
        for i in 0..outcomes.len() {
            let (m, e, ended) = &outcomes[i];
            if e.maybe.iter().any(|c| m.zombie[*c]) {
                let (mut m, mut e, ended) = (m.clone(), e.clone(), ended.clone());
                for c in std::mem::take(&mut e.maybe) {
                    m.terminate(&mut e, c);
                }
                if m.idle && !m.alive.contains(&true) {
                    m.broker_up = false;
                }
                outcomes.push((m, e, ended));
            }
        }
        if let (Op::Send(c, _), Some(l)) = (&op, self.lenient) {
            if *c == l && self.model.alive[l] {
                for o in &mut outcomes {
                    o.1.unjudged.insert(l);
                }
                let mut e = Exp::new(self.model.n());
                e.unjudged.insert(l);
                outcomes.push((self.model.clone(), e, BTreeSet::new()));
                let mut m = self.model.clone();
                let mut e = Exp::new(m.n());
                m.terminate(&mut e, l);
                e.unjudged.insert(l);
                e.closed.insert(l);
                outcomes.push((m, e, BTreeSet::new()));
            }
        }
        let before: Vec<bool> = self.model.alive.clone();
        let ends = ends(&op);
        if !ends {
            self.settle()?;
        }
        self.issue(&op, false)?;
        if ends {
            self.settle()?;
        } else {
            self.quiesce()?;
        }
        let (mut rec, mut closed) = self.receive();
        if let Op::Connect(c) = &op {
            self.take_connect_reply(*c, &mut rec);
        }
        if let Op::Burst(v) = &op {
            for o in v {
                if let Op::Connect(c) = o {
                    self.take_connect_reply(*c, &mut rec);
                }
            }
        }
        // A client that was told to shut down answers.
        for c in 0..self.conns.len() {
            if rec[c].iter().any(|m| matches!(m, Message::Shutdown(_))) {
                self.raw_send(c, Shutdown.into());
                self.settle()?;
                let (r2, c2) = self.receive();
                for (i, r) in r2.into_iter().enumerate() {
                    rec[i].extend(r);
                    closed[i] |= c2[i];
                }
            }
        }
        // How many connections the broker itself believes to have tells whether it has noticed that
        // a task was dropped.
        let ambiguous = outcomes.len() > 1
            && outcomes.iter().any(|o| o.0.broker_up) != outcomes.iter().all(|o| o.0.broker_up);
        let believed = if outcomes.iter().any(|o| o.0.zombie.contains(&true)) {
            self.stats()?.1.and_then(|s| snap::field_len(&s, "conns"))
        } else {
            None
        };
        let mut first = None;
        let attempts = if self.judge.is_some() { 2 } else { 1 };
        for (k, (model, exp, ended)) in (0..attempts).flat_map(|k| outcomes.iter().map(move |o| (k, o))) {
            let tolerant = k == 1;
            if ambiguous && model.broker_up == self.exec.done(self.broker_task) {
                continue;
            }
            if believed.is_some_and(|b| b != model.alive.iter().filter(|a| **a).count()) {
                first.get_or_insert(Mismatch {
                    conn: 0,
                    kind: None,
                    class: "conns",
                    what: format!("the broker believes to have {believed:?} connections"),
                });
                continue;
            }
            match self.compare(model.clone(), exp, ended, &rec, &closed, &before, tolerant) {
                Ok(st) => {
                    self.tolerated += u64::from(tolerant);
                    if let Some(l) = log {
                        use std::fmt::Write as _;
                        let _ = writeln!(l, "{op:?}");
                        for (c, r) in rec.iter().enumerate() {
                            for m in r {
                                let _ = writeln!(l, "   -> conn {c}: {m:?}");
                            }
                        }
                    }
                    let (model, r2s, s2r, ever, a, b) = st;
                    self.model = model;
                    self.real2syn = r2s;
                    self.syn2real = s2r;
                    self.ever = ever;
                    self.ser2syn = a;
                    self.syn2ser = b;
                    for c in 0..self.conns.len() {
                        if !self.model.alive[c] || self.model.zombie[c] {
                            self.conns[c].client = None;
                        }
                    }
                    self.quiesce()?;
                    self.check_tasks(ended, exp)?;
                    return Ok(());
                }
                Err(m) => {
                    let better = |f: &Mismatch| {
                        f.class == "conns" || tolerant && self.judge.is_some_and(|j| j(&m) && !j(f))
                    };
                    if first.as_ref().is_none_or(better) {
                        first = Some(m);
                    }
                }
            }
        }
        let mut m = first.unwrap_or(Mismatch {
            conn: 0,
            kind: None,
            class: "conns",
            what: "no allowed outcome".into(),
        });
        if let Some(l) = log {
            use std::fmt::Write as _;
            let _ = writeln!(l, "{op:?}");
            for (c, r) in rec.iter().enumerate() {
                for m in r {
                    let _ = writeln!(l, "   -> conn {c}: {m:?}");
                }
            }
            let _ = writeln!(l, "   closed: {closed:?}");
        }
        m.what = format!("after {op:?}: {}", m.what);
        Err(m)
    }

    fn take_connect_reply(&mut self, c: ConnIx, rec: &mut Received) {
        if !rec[c].is_empty() {
            self.conns[c].reply = Some(rec[c].remove(0));
        }
    }

    fn check_tasks(&self, ended: &BTreeSet<ConnIx>, exp: &Exp) -> Result<(), Mismatch> {
        for c in ended.iter().chain(&exp.closed) {
            if let Some(t) = self.conns[*c].task {
                if !self.exec.done(t) {
                    return Err(Mismatch {
                        conn: *c,
                        kind: None,
                        class: "conn-run",
                        what: format!("the run future of ended connection {c} does not complete"),
                    });
                }
            }
        }
        if self.model.broker_up == self.exec.done(self.broker_task) {
            return Err(Mismatch {
                conn: 0,
                kind: None,
                class: "broker-run",
                what: format!(
                    "broker run future {}",
                    if self.model.broker_up {
                        "completed although nobody stopped the broker"
                    } else {
                        "does not complete after shutdown"
                    }
                ),
            });
        }
        Ok(())
    }

    #[allow(clippy::type_complexity)]
    fn compare(
        &self,
        mut model: Model,
        exp: &Exp,
        ended: &BTreeSet<ConnIx>,
        rec: &Received,
        closed: &[bool],
        before: &[bool],
        tolerant: bool,
    ) -> Result<
        (
            Model,
            HashMap<[u8; 16], [u8; 16]>,
            HashMap<[u8; 16], [u8; 16]>,
            HashSet<[u8; 16]>,
            HashMap<SerKey, u32>,
            HashMap<u32, SerKey>,
        ),
        Mismatch,
    > {
        let mut r2s = self.real2syn.clone();
        let mut s2r = self.syn2real.clone();
        let mut ever = self.ever.clone();
        let mut ser2syn = self.ser2syn.clone();
        let mut syn2ser = self.syn2ser.clone();
        let mut exp = exp.clone();

        // The broker asks any of the connections that registered a type.
        for c in 0..rec.len() {
            for m in &rec[c] {
                let Message::QueryIntrospection(q) = m else {
                    continue;
                };
                let want = (0..rec.len()).find_map(|x| {
                    exp.out[x]
                        .iter()
                        .position(|m| matches!(m, Message::QueryIntrospection(e) if e.type_id == q.type_id))
                        .map(|p| (x, p))
                });
                if let Some((x, p)) = want {
                    if x != c {
                        if let Some(i) = model.intro.get_mut(&q.type_id) {
                            if i.conns.contains(&c) && i.queried.is_some_and(|q| q.0 == x) {
                                i.queried = Some((c, i.queried.unwrap().1));
                                let m = exp.out[x].remove(p);
                                exp.out[c].push(m);
                            }
                        }
                    }
                }
            }
        }

        // New cookies first: other connections may be told about them.
        for c in 0..rec.len() {
            for m in &rec[c] {
                let Some((serial, real)) = new_cookie(m) else {
                    continue;
                };
                let want = exp.out[c].iter().find_map(|e| {
                    (e.kind() == m.kind())
                        .then(|| new_cookie(e))
                        .flatten()
                        .filter(|(s, syn)| *s == serial && !s2r.contains_key(syn))
                });
                if !ever.insert(real) {
                    return Err(Mismatch {
                        conn: c,
                        kind: Some(m.kind()),
                        class: "cookie",
                        what: format!("{m:?} carries a cookie that was used before"),
                    });
                }
                if let Some((_, syn)) = want {
                    r2s.insert(real, syn);
                    s2r.insert(syn, real);
                }
            }
        }

        // Things whose creator did not live to see the reply become known through bus events.
        let bus_ids = |e: BusEvent| -> Vec<([u8; 16], [u8; 16])> {
            match e {
                BusEvent::ObjectCreated(o) | BusEvent::ObjectDestroyed(o) => {
                    vec![(*o.uuid.0.as_bytes(), *o.cookie.0.as_bytes())]
                }
                BusEvent::ServiceCreated(s) | BusEvent::ServiceDestroyed(s) => vec![
                    (*s.object_id.uuid.0.as_bytes(), *s.object_id.cookie.0.as_bytes()),
                    (*s.uuid.0.as_bytes(), *s.cookie.0.as_bytes()),
                ],
            }
        };
        for c in 0..rec.len() {
            for m in &rec[c] {
                let Message::EmitBusEvent(g) = m else { continue };
                let got = bus_ids(g.event);
                for e in &exp.out[c] {
                    let Message::EmitBusEvent(x) = e else { continue };
                    let want = bus_ids(x.event);
                    if want.len() != got.len() {
                        continue;
                    }
                    let fits = want.iter().zip(&got).all(|((wu, wc), (gu, gc))| {
                        wu == gu
                            && match (s2r.get(wc), r2s.get(gc)) {
                                (Some(r), _) => r == gc,
                                (None, None) => true,
                                (None, Some(_)) => false,
                            }
                    });
                    if fits {
                        for ((_, wc), (_, gc)) in want.iter().zip(&got) {
                            s2r.insert(*wc, *gc);
                            r2s.insert(*gc, *wc);
                            ever.insert(*gc);
                        }
                        break;
                    }
                }
            }
        }

        let mut out: Vec<Vec<Message>> = Vec::new();
        for c in 0..rec.len() {
            let mut v = Vec::new();
            for m in &rec[c] {
                let mut m = norm(subst(m.clone(), &r2s));
                let intro = matches!(m, Message::QueryIntrospection(_));
                if let Some(s) = bserial_mut(&mut m) {
                    let real = *s;
                    let k = (c, intro, real);
                    if let Some(syn) = ser2syn.get(&k) {
                        *s = *syn;
                    } else {
                        // Find the expected message this is.
                        let hit = exp.out[c].iter().find_map(|e| {
                            let mut e = norm(e.clone());
                            let es = *bserial_mut(&mut e)?;
                            if syn2ser.contains_key(&es) {
                                return None;
                            }
                            *bserial_mut(&mut e)? = real;
                            (e == m).then_some(es)
                        });
                        if let Some(es) = hit {
                            ser2syn.insert(k, es);
                            syn2ser.insert(es, k);
                            *bserial_mut(&mut m).unwrap() = es;
                        }
                    }
                }
                v.push(m);
            }
            out.push(v);
        }

        for c in 0..rec.len() {
            let was_closed = closed[c] && before[c] && self.conns[c].client.is_some();
            if was_closed && !exp.closed.contains(&c) && !ended.contains(&c) {
                return Err(Mismatch {
                    conn: c,
                    kind: None,
                    class: "closed",
                    what: format!(
                        "connection {c} was closed; result {:?}; received before: {:?}",
                        self.conns[c].result.borrow(),
                        out[c]
                    ),
                });
            }
            if exp.closed.contains(&c) && !closed[c] {
                return Err(Mismatch {
                    conn: c,
                    kind: None,
                    class: "not-closed",
                    what: format!("connection {c} was not closed; received {:?}", out[c]),
                });
            }
            if exp.unjudged.contains(&c) {
                // Except for the shutdown message itself.
                let want = exp.out[c].iter().filter(|m| matches!(m, Message::Shutdown(_))).count();
                let got = out[c].iter().filter(|m| matches!(m, Message::Shutdown(_))).count();
                if want > got {
                    return Err(Mismatch {
                        conn: c,
                        kind: Some(MessageKind::Shutdown),
                        class: "missing",
                        what: format!("connection {c} did not receive Shutdown"),
                    });
                }
                continue;
            }
            // A connection whose client side is gone receives nothing.
            if self.conns[c].client.is_none() {
                continue;
            }
            if ended.contains(&c) && self.conns[c].task.is_some_and(|t| self.exec.done(t)) && rec[c].is_empty()
                && !exp.out[c].iter().any(|m| matches!(m, Message::Shutdown(_)))
            {
                continue;
            }
            let mut left: std::collections::VecDeque<Message> = out[c].iter().cloned().collect();
            let mut missing = Vec::new();
            for e in &exp.out[c] {
                let e = norm(e.clone());
                match left.iter().position(|m| *m == e) {
                    Some(p) => {
                        left.remove(p);
                    }
                    None => missing.push(e),
                }
            }
            for e in &exp.opt[c] {
                let e = norm(e.clone());
                if let Some(p) = left.iter().position(|m| *m == e) {
                    left.remove(p);
                }
            }
            let found = missing
                .iter()
                .map(|m| Mismatch {
                    conn: c,
                    kind: Some(m.kind()),
                    class: "missing",
                    what: format!("connection {c} did not receive {m:?}; unexpected instead: {left:?}"),
                })
                .zip(missing.iter().map(|m| new_cookie(m).is_none() && !matches!(m, Message::Shutdown(_))))
                .chain(left.iter().map(|m| {
                    (
                        Mismatch {
                            conn: c,
                            kind: Some(m.kind()),
                            class: "extra",
                            what: format!("connection {c} received unexpected {m:?}"),
                        },
                        !matches!(m, Message::Shutdown(_)),
                    )
                }));
            for (m, harmless) in found {
                if !tolerant || !harmless || self.judge.is_some_and(|j| j(&m)) {
                    return Err(m);
                }
            }
            if !missing.is_empty() || !left.is_empty() {
                continue;
            }
            if let Err(what) = order(&exp.out[c], &out[c]) {
                let m = Mismatch {
                    conn: c,
                    kind: Some(what.1),
                    class: "order",
                    what: format!("connection {c}: {}; received {:?}", what.0, out[c]),
                };
                if !tolerant || self.judge.is_some_and(|j| j(&m)) {
                    return Err(m);
                }
            }
        }

        // Forget serials that ended; remember the most recent one as stale.
        let live: HashSet<u32> = model.live_bserials().into_iter().collect();
        ser2syn.retain(|_, s| live.contains(s));
        let stale = model.stale_call.map(|s| s.1);
        syn2ser.retain(|s, _| live.contains(s) || Some(*s) == stale);
        Ok((model, r2s, s2r, ever, ser2syn, syn2ser))
    }

    /// Broker statistics and a state snapshot.
    pub fn stats(&mut self) -> Result<(Option<[usize; 5]>, Option<snap::Node>), Mismatch> {
        let Some(mut bh) = self.handle.clone() else {
            return Ok((None, None));
        };
        aldrin_broker::verif_hooks::request_snapshot();
        let mut fut = Box::pin(async move { bh.take_statistics().await });
        if poll_once(&mut fut).is_ready() {
            return Ok((None, None));
        }
        self.quiesce()?;
        let s = match poll_once(&mut fut) {
            Poll::Ready(Ok(s)) => Some([
                s.num_connections(),
                s.num_objects(),
                s.num_services(),
                s.num_channels(),
                s.num_bus_listeners(),
            ]),
            _ => None,
        };
        let snap = aldrin_broker::verif_hooks::take_snapshot();
        Ok((s, snap.and_then(|s| snap::parse(&s))))
    }

    pub fn model_stats(&self) -> [usize; 5] {
        [
            self.model.alive.iter().filter(|a| **a).count(),
            self.model.objs.len(),
            self.model.svcs.len(),
            self.model.chans.len(),
            self.model.listeners.len(),
        ]
    }

    /// Cookies of objects, services, channels and listeners that have ended, but which the broker
    /// still holds.
    pub fn dangling(&self, s: &snap::Node) -> Result<(), Mismatch> {
        let live: HashSet<[u8; 16]> =
            self.model.live_toks().into_iter().map(|t| *cookie(t).as_bytes()).collect();
        let mut found = None;
        snap::leaves(s, "Broker", &mut |path, l| {
            if found.is_some() || l.len() != 36 {
                return;
            }
            let Ok(u) = l.parse::<uuid::Uuid>() else { return };
            if let Some(syn) = self.real2syn.get(u.as_bytes()) {
                if !live.contains(syn) {
                    found = Some(format!("{path}: {}", uuid::Uuid::from_bytes(*syn)));
                }
            }
        });
        if found.is_none() {
            // Calls outlive their caller.
            found = snap::gone_connections(s).into_iter().find(|p| !p.contains("call"));
        }
        match found {
            None => Ok(()),
            Some(f) => Err(Mismatch {
                conn: 0,
                kind: None,
                class: "dangling",
                what: format!("the broker still refers to something that has ended: {f}"),
            }),
        }
    }

    /// Canonical text of (model, implementation).
    pub fn key(&self, snap: Option<&snap::Node>) -> String {
        let mut k = String::new();
        self.model.key(&mut k);
        if let Some(s) = snap {
            let mut words = HashMap::new();
            for (i, t) in self.model.live_toks().into_iter().enumerate() {
                if let Some(r) = self.syn2real.get(cookie(t).as_bytes()) {
                    words.insert(uuid::Uuid::from_bytes(*r).to_string(), format!("k{i}"));
                }
            }
            for (i, s) in self.model.live_bserials().into_iter().enumerate() {
                if let Some((_, _, r)) = self.syn2ser.get(&s) {
                    words.insert(r.to_string(), format!("cs{i}"));
                }
            }
            k.push_str("##");
            k.push_str(&snap::Canon { words: &words }.text(s));
        }
        k
    }
}

/// The order in which messages of one step arrive, as far as the protocol defines it.
fn order(exp: &[Message], got: &[Message]) -> Result<(), (String, MessageKind)> {
    // Items of a channel arrive in the order they were sent.
    let items = |v: &[Message]| -> Vec<Message> {
        v.iter()
            .filter(|m| matches!(m, Message::ItemReceived(_)))
            .cloned()
            .map(norm)
            .collect()
    };
    let cookies: BTreeSet<ChannelCookie> = got
        .iter()
        .filter_map(|m| match m {
            Message::ItemReceived(i) => Some(i.cookie),
            _ => None,
        })
        .collect();
    for c in cookies {
        let f = |v: Vec<Message>| -> Vec<Message> {
            v.into_iter()
                .filter(|m| matches!(m, Message::ItemReceived(i) if i.cookie == c))
                .collect()
        };
        if f(items(exp)) != f(items(got)) {
            return Err(("items arrive out of order".into(), MessageKind::ItemReceived));
        }
    }

    let k = MessageKind::EmitBusEvent;
    for i in 0..got.len() {
        let Message::EmitBusEvent(a) = &got[i] else {
            continue;
        };
        for j in i + 1..got.len() {
            let Message::EmitBusEvent(b) = &got[j] else {
                continue;
            };
            if a.cookie != b.cookie {
                continue;
            }
            let bad = match (a.event, b.event) {
                (BusEvent::ObjectDestroyed(x), BusEvent::ObjectCreated(y)) => x == y,
                (BusEvent::ServiceDestroyed(x), BusEvent::ServiceCreated(y)) => x == y,
                (BusEvent::ObjectDestroyed(x), BusEvent::ServiceCreated(y))
                | (BusEvent::ObjectDestroyed(x), BusEvent::ServiceDestroyed(y)) => {
                    x == y.object_id
                }
                (BusEvent::ServiceCreated(x), BusEvent::ObjectCreated(y))
                | (BusEvent::ServiceDestroyed(x), BusEvent::ObjectCreated(y)) => x.object_id == y,
                _ => false,
            };
            if bad {
                return Err((format!("{:?} before {:?}", a.event, b.event), k));
            }
        }
    }
    for (i, m) in got.iter().enumerate() {
        match m {
            Message::EmitBusEvent(EmitBusEvent {
                cookie: Some(c), ..
            }) => {
                if !got[..i]
                    .iter()
                    .any(|m| matches!(m, Message::StartBusListenerReply(_)))
                {
                    return Err(("current event before the start reply".into(), k));
                }
                if !got[i..]
                    .iter()
                    .any(|m| matches!(m, Message::BusListenerCurrentFinished(f) if f.cookie == *c))
                {
                    return Err(("current event after the end-of-current marker".into(), k));
                }
            }
            Message::BusListenerCurrentFinished(_) => {
                if !got[..i]
                    .iter()
                    .any(|m| matches!(m, Message::StartBusListenerReply(_)))
                {
                    return Err((
                        "end-of-current marker before the start reply".into(),
                        MessageKind::BusListenerCurrentFinished,
                    ));
                }
            }
            _ => {}
        }
    }
    Ok(())
}
