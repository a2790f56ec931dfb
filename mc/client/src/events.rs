//! Subscriptions and events through the client API.
//!
//! One or two services, several proxies (two of them on the same client). An event that is emitted
//! while the subscription of a proxy is settled must arrive there exactly once and in order, or
//! must not arrive; in between it may.

use crate::explore::*;
use crate::sim::*;
use aldrin::low_level::{Proxy, Service, ServiceInfo};
use aldrin::{Error, Object};
use aldrin_core::{ObjectUuid, ServiceId, ServiceUuid};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

const EVENTS: [u32; 2] = [0, 7];
/// Index of the subscription to all events.
const ALL: usize = 2;

struct Svc {
    owner: usize,
    id: ServiceId,
    obj: Option<Object>,
    svc: Option<Service>,
    /// Sequence number and phase of its destruction.
    gone: Option<(u64, u32)>,
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Sub {
    on: bool,
    /// The phase of the latest change.
    changed: Option<u32>,
}

struct Prx {
    client: usize,
    svc: usize,
    proxy: Option<Proxy>,
    busy: Option<usize>,
    /// By event, and to all events.
    subs: [Sub; 3],
    gone: Option<u32>,
    got: Vec<u32>,
    ended: bool,
    created: u32,
    /// Number of events that have been judged.
    judged: usize,
}

struct Emission {
    svc: usize,
    event: usize,
    seq: u64,
    phase: u32,
    /// For each proxy: must, may, must not arrive.
    want: Vec<Want>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Must,
    May,
    Not,
}

#[derive(Default)]
struct St {
    /// How many proxies and emissions there are at most.
    most: usize,
    emissions: usize,
    svcs: Vec<Svc>,
    creating: usize,
    proxying: usize,
    prx: Vec<Prx>,
    emitted: Vec<Emission>,
    seq: u64,
    phase: u32,
}

impl St {
    fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }

    fn destroyed(&mut self, i: usize) {
        let s = self.tick();
        let p = self.phase;
        self.svcs[i].gone.get_or_insert((s, p));
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Create(usize),
    Proxy(usize),
    Sub(usize, usize),
    Unsub(usize, usize),
    SubAll(usize),
    UnsubAll(usize),
    DropProxy(usize),
    Next(usize),
    Emit(usize),
    DropService,
    DropObject,
    DestroyService,
    Cancel,
}

pub struct Events {
    env: Rc<Env>,
    st: Rc<RefCell<St>>,
    ops: Vec<Op>,
}

impl Events {
    pub fn make(env: Rc<Env>, p: &Params) -> Box<dyn Area> {
        if p.size == 3 {
            // Three proxies of one client.
            let mut ops = vec![Op::Create(0), Op::Proxy(1)];
            for k in 0..3 {
                ops.extend([Op::Sub(k, 0), Op::Unsub(k, 0), Op::SubAll(k), Op::UnsubAll(k), Op::DropProxy(k)]);
                ops.extend([Op::Sub(k, 1), Op::Unsub(k, 1)]);
            }
            ops.extend([Op::Emit(0), Op::DropService]);
            return Box::new(Self { env, st: Rc::new(RefCell::new(St { most: 3, emissions: 1, ..Default::default() })), ops });
        }
        let mut ops = vec![Op::Create(0), Op::Proxy(1), Op::Proxy(0)];
        for k in 0..2 {
            ops.extend([Op::Sub(k, 0), Op::Unsub(k, 0), Op::SubAll(k), Op::UnsubAll(k), Op::DropProxy(k), Op::Next(k)]);
            if p.size > 1 {
                ops.extend([Op::Sub(k, 1), Op::Unsub(k, 1)]);
            }
        }
        ops.push(Op::Emit(0));
        if p.size > 1 {
            ops.push(Op::Emit(1));
        }
        ops.extend([Op::DropService, Op::DropObject, Op::DestroyService, Op::Cancel]);
        Box::new(Self { env, st: Rc::new(RefCell::new(St { most: 2, emissions: 3, ..Default::default() })), ops })
    }

    fn create(&self, client: usize) -> bool {
        if self.st.borrow().svcs.len() + self.st.borrow().creating > 0 {
            return false;
        }
        let Some(h) = self.env.handle(client) else { return false };
        self.st.borrow_mut().creating += 1;
        let g = Guard(self.st.clone(), |s| s.creating -= 1);
        let (st, env) = (self.st.clone(), self.env.clone());
        self.env.op(client, "create service", "never", async move {
            let _g = g;
            let n = st.borrow_mut().tick() as u128;
            let res = async {
                let o = h.create_object(ObjectUuid(uuid::Uuid::from_u128(1000 + n))).await?;
                let s = o.create_service(ServiceUuid(uuid::Uuid::from_u128(78)), ServiceInfo::new(5)).await?;
                Ok::<_, Error>((o, s))
            }
            .await;
            match res {
                Ok((o, s)) => {
                    let id = s.id();
                    st.borrow_mut().svcs.push(Svc { owner: client, id, obj: Some(o), svc: Some(s), gone: None });
                    "Ok".into()
                }
                Err(e) => {
                    if !(e == Error::Shutdown && env.dead(client)) {
                        env.fail("create", format!("creating an object with a service failed with {e:?}"));
                    }
                    format!("Err({e:?})")
                }
            }
        });
        true
    }

    fn proxy(&self, c: usize) -> bool {
        {
            let st = self.st.borrow();
            if st.svcs.is_empty() || st.prx.len() + st.proxying >= st.most {
                return false;
            }
        }
        let Some(h) = self.env.handle(c) else { return false };
        let (env, st) = (self.env.clone(), self.st.clone());
        let id = self.st.borrow().svcs[0].id;
        self.st.borrow_mut().proxying += 1;
        let g = Guard(st.clone(), |s| s.proxying -= 1);
        let at = self.st.borrow().phase;
        self.env.op(c, "create proxy", "never", async move {
            let _g = g;
            let r = h.create_proxy(id).await;
            let mut s = st.borrow_mut();
            let (gone, owner) = (s.svcs[0].gone, s.svcs[0].owner);
            match r {
                Ok(p) => {
                    if gone.is_some_and(|g| g.1 < at) {
                        env.fail("proxy", "a proxy was created for a destroyed service".into());
                    }
                    let created = s.phase;
                    s.prx.push(Prx {
                        client: c,
                        svc: 0,
                        proxy: Some(p),
                        busy: None,
                        subs: Default::default(),
                        gone: None,
                        got: vec![],
                        ended: false,
                        created,
                        judged: 0,
                    });
                    "Ok".into()
                }
                Err(e) => {
                    if !(e == Error::InvalidService && (gone.is_some() || env.dead(owner)) || e == Error::Shutdown && env.dead(c)) {
                        env.fail("proxy", format!("creating a proxy failed with {e:?}"));
                    }
                    format!("Err({e:?})")
                }
            }
        });
        true
    }

    fn change(&self, k: usize, which: &[usize], on: bool) {
        let mut st = self.st.borrow_mut();
        let ph = st.phase;
        for &w in which {
            let s = &mut st.prx[k].subs[w];
            if s.on != on {
                s.on = on;
                s.changed = Some(ph);
            }
        }
    }

    fn on_proxy(
        &self,
        k: usize,
        name: &'static str,
        f: impl FnOnce(Proxy) -> Pin<Box<dyn Future<Output = (Proxy, String)>>>,
    ) -> bool {
        let (p, client) = {
            let mut st = self.st.borrow_mut();
            let Some(x) = st.prx.get_mut(k) else { return false };
            let Some(p) = x.proxy.take() else { return false };
            (p, x.client)
        };
        let fut = f(p);
        let st = self.st.clone();
        let op = self.env.op(client, name, format!("{name} {k}"), async move {
            let (p, r) = fut.await;
            let mut st = st.borrow_mut();
            st.prx[k].proxy = Some(p);
            st.prx[k].busy = None;
            r
        });
        self.st.borrow_mut().prx[k].busy = Some(op);
        true
    }

    fn judge(env: &Env, st: &St, k: usize, what: &str, r: &Result<(), Error>, off: bool) {
        let p = &st.prx[k];
        let s = &st.svcs[p.svc];
        let over = s.gone.is_some() || env.dead(s.owner);
        match r {
            Ok(()) => {}
            Err(Error::InvalidService) if over => {}
            Err(Error::Shutdown) if env.dead(p.client) => {}
            Err(e) => env.fail(what, format!("{what} failed with {e:?}{}", if off { " (unsubscribing)" } else { "" })),
        }
    }

    fn sub(&self, k: usize, e: usize, on: bool) -> bool {
        let (env, st) = (self.env.clone(), self.st.clone());
        let name = if on { "subscribe" } else { "unsubscribe" };
        let ok = self.on_proxy(k, name, |p| {
            Box::pin(async move {
                let r = if on { p.subscribe(EVENTS[e]).await } else { p.unsubscribe(EVENTS[e]).await };
                Self::judge(&env, &st.borrow(), k, name, &r, !on);
                (p, format!("{r:?}"))
            })
        });
        if ok {
            self.change(k, &[e], on);
        }
        ok
    }

    fn sub_all(&self, k: usize, on: bool) -> bool {
        let (env, st) = (self.env.clone(), self.st.clone());
        let name = if on { "subscribe all" } else { "unsubscribe all" };
        let can = match self.st.borrow().prx.get(k) {
            Some(Prx { proxy: Some(_), client, svc, .. }) => {
                self.env.minor(*client) >= 18 && self.env.minor(self.st.borrow().svcs[*svc].owner) >= 18
            }
            _ => return false,
        };
        let ok = self.on_proxy(k, name, |p| {
            Box::pin(async move {
                let r = if on { p.subscribe_all().await } else { p.unsubscribe_all().await };
                if on && !can {
                    if r != Err(Error::NotSupported) {
                        env.fail(name, format!("{r:?} although it is not supported"));
                    }
                } else {
                    Self::judge(&env, &st.borrow(), k, name, &r, !on);
                }
                (p, format!("{r:?}"))
            })
        });
        if ok && on && can {
            self.change(k, &[ALL], true);
        } else if ok && !on {
            self.change(k, &[0, 1, ALL], false);
        }
        ok
    }

    fn took(env: &Env, st: &mut St, k: usize, ev: aldrin::low_level::Event) {
        let svc = st.prx[k].svc;
        match ev.deserialize::<u32>() {
            Ok(n) if (n as usize) < st.emitted.len() => {
                let e = &st.emitted[n as usize];
                if e.svc != svc || EVENTS[e.event] != ev.id() || ev.service() != st.svcs[svc].id {
                    env.fail("event", format!("emission {n} arrived as event {} of {:?}", ev.id(), ev.service()));
                }
                if st.prx[k].got.last().is_some_and(|&l| l >= n) {
                    env.fail("event", format!("emission {n} arrived after {:?}", st.prx[k].got));
                }
                st.prx[k].got.push(n);
            }
            x => env.fail("event", format!("an event arrived with arguments {x:?}")),
        }
    }

    fn ended(env: &Env, st: &mut St, k: usize) {
        let p = &st.prx[k];
        let s = &st.svcs[p.svc];
        if s.gone.is_none() && !env.dead(s.owner) && !env.dead(p.client) {
            env.fail("event", "the events ended although the service exists".into());
        }
        st.prx[k].ended = true;
    }

    fn next(&self, k: usize) -> bool {
        let (env, st) = (self.env.clone(), self.st.clone());
        self.on_proxy(k, "next event", |mut p| {
            Box::pin(async move {
                let r = p.next_event().await;
                let mut s = st.borrow_mut();
                let r = match r {
                    Some(ev) => {
                        Self::took(&env, &mut s, k, ev);
                        "Some"
                    }
                    None => {
                        Self::ended(&env, &mut s, k);
                        "None"
                    }
                };
                drop(s);
                (p, r.into())
            })
        })
    }

    fn drop_proxy(&self, k: usize) -> bool {
        let p = {
            let mut st = self.st.borrow_mut();
            let ph = st.phase;
            let Some(x) = st.prx.get_mut(k) else { return false };
            let Some(p) = x.proxy.take() else { return false };
            x.gone.get_or_insert(ph);
            p
        };
        self.change(k, &[0, 1, ALL], false);
        drop(p);
        true
    }

    fn emit(&self, e: usize) -> bool {
        let mut st = self.st.borrow_mut();
        if st.emitted.len() >= st.emissions || st.svcs.is_empty() {
            return false;
        }
        let n = st.emitted.len() as u32;
        let seq = st.tick();
        let s = &st.svcs[0];
        let Some(svc) = &s.svc else { return false };
        let owner = s.owner;
        match svc.emit(EVENTS[e], n) {
            Ok(()) => {}
            Err(Error::Shutdown) if self.env.dead(owner) => {}
            Err(x) => self.env.fail("emit", format!("emitting failed with {x:?}")),
        }
        let phase = st.phase;
        st.emitted.push(Emission { svc: 0, event: e, seq, phase, want: vec![] });
        true
    }

    /// Judges the emissions of the phase that has ended: everything has arrived.
    fn judge_phase(&self, st: &mut St) {
        let ph = st.phase;
        for i in 0..st.emitted.len() {
            let done = st.emitted[i].want.len();
            for k in done..st.prx.len() {
                let p = &st.prx[k];
                let e = &st.emitted[i];
                let s = &st.svcs[e.svc];
                let subs = [&p.subs[e.event], &p.subs[ALL]];
                // Judged at the end of the phase in which it was emitted or the proxy was made.
                let later = e.phase < ph;
                let settled = subs.iter().all(|s| s.changed != Some(ph)) && p.created < ph;
                let on = subs.iter().any(|s| s.on && s.changed != Some(ph)) && p.created < ph && p.gone.is_none();
                let dead = self.env.dead(s.owner) || self.env.dead(p.client);
                let want = if later {
                    // The proxy is newer than the emission.
                    Want::Not
                } else if s.gone.is_some_and(|g| g.1 < ph) {
                    Want::Not
                } else if s.gone.is_some_and(|g| g.0 < e.seq) || dead {
                    Want::May
                } else if on {
                    Want::Must
                } else if settled && (p.gone.is_none() || p.gone != Some(ph)) {
                    if subs.iter().any(|s| s.on) && p.gone.is_none() { Want::Must } else { Want::Not }
                } else {
                    Want::May
                };
                st.emitted[i].want.push(want);
            }
        }
    }

    fn drain(&self, st: &mut St) {
        for k in 0..st.prx.len() {
            let Some(mut p) = st.prx[k].proxy.take() else { continue };
            while !st.prx[k].ended {
                match p.poll_next_event(&mut Context::from_waker(std::task::Waker::noop())) {
                    Poll::Ready(Some(ev)) => Self::took(&self.env, st, k, ev),
                    Poll::Ready(None) => Self::ended(&self.env, st, k),
                    Poll::Pending => break,
                }
            }
            st.prx[k].proxy = Some(p);
        }
    }

    /// Whether the proxy must have learnt about the end of its service.
    fn told(&self, st: &St, p: &Prx) -> bool {
        let s = &st.svcs[p.svc];
        let over = s.gone.is_some() || self.env.dead(s.owner);
        let sub = |x: &Sub| x.on && x.changed.is_none_or(|c| c < st.phase) && s.gone.is_none_or(|g| x.changed.is_none_or(|c| c < g.1));
        over && (self.env.minor(p.client) >= 18 || sub(&p.subs[0]) || sub(&p.subs[1]))
    }

    fn give_up(&self, id: usize) {
        let mut st = self.st.borrow_mut();
        let p = st.phase;
        for k in 0..st.prx.len() {
            if st.prx[k].busy == Some(id) {
                st.prx[k].busy = None;
                st.prx[k].gone.get_or_insert(p);
                for s in &mut st.prx[k].subs {
                    s.on = false;
                    s.changed = Some(p);
                }
            }
        }
        drop(st);
        self.env.cancel(id);
    }
}

struct Guard(Rc<RefCell<St>>, fn(&mut St));

impl Drop for Guard {
    fn drop(&mut self) {
        self.1(&mut self.0.borrow_mut());
    }
}

impl Area for Events {
    fn names(&self) -> Vec<String> {
        self.ops.iter().map(|o| format!("{o:?}")).collect()
    }

    fn issue(&self, op: usize) -> bool {
        match self.ops[op] {
            Op::Create(c) => self.create(c),
            Op::Proxy(c) => self.proxy(c),
            Op::Sub(k, e) => self.sub(k, e, true),
            Op::Unsub(k, e) => self.sub(k, e, false),
            Op::SubAll(k) => self.sub_all(k, true),
            Op::UnsubAll(k) => self.sub_all(k, false),
            Op::DropProxy(k) => self.drop_proxy(k),
            Op::Next(k) => self.next(k),
            Op::Emit(e) => self.emit(e),
            Op::DropService => {
                let s = {
                    let mut st = self.st.borrow_mut();
                    let Some(s) = st.svcs.get_mut(0).and_then(|s| s.svc.take()) else { return false };
                    st.destroyed(0);
                    s
                };
                drop(s);
                true
            }
            Op::DropObject => {
                let o = {
                    let mut st = self.st.borrow_mut();
                    let Some(o) = st.svcs.get_mut(0).and_then(|s| s.obj.take()) else { return false };
                    st.destroyed(0);
                    o
                };
                drop(o);
                true
            }
            Op::DestroyService => {
                let (s, owner) = {
                    let mut st = self.st.borrow_mut();
                    let Some(x) = st.svcs.get_mut(0) else { return false };
                    let Some(s) = x.svc.take() else { return false };
                    (s, x.owner)
                };
                let (st, env) = (self.st.clone(), self.env.clone());
                // From here on the service may be gone at any time, at the latest by dropping it.
                st.borrow_mut().destroyed(0);
                self.env.op(owner, "destroy service", "never", async move {
                    let r = s.destroy().await;
                    match &r {
                        Ok(()) | Err(Error::InvalidService) => {}
                        Err(Error::Shutdown) if env.dead(owner) => {}
                        Err(e) => env.fail("destroy", format!("destroying a service failed with {e:?}")),
                    }
                    format!("{r:?}")
                });
                true
            }
            Op::Cancel => {
                let Some(id) = self.env.last_pending() else { return false };
                self.give_up(id);
                true
            }
        }
    }

    fn sig(&self) -> String {
        let st = self.st.borrow();
        let mut v = vec![];
        for s in &st.svcs {
            v.push(format!("@{} obj{} svc{} gone{}", s.owner, s.obj.is_some(), s.svc.is_some(), s.gone.is_some()));
        }
        for p in &st.prx {
            v.push(format!(
                "p{} {} {} {:?} {} {}",
                p.client,
                p.proxy.is_some(),
                p.busy.is_some(),
                p.subs.map(|s| s.on),
                p.gone.is_some(),
                p.ended
            ));
        }
        v.push(format!("{}", st.emitted.len()));
        v.push(format!("{:?}", self.env.pending_ops().iter().map(|&i| self.env.ops.borrow()[i].name.clone()).collect::<Vec<_>>()));
        v.join(";")
    }

    fn quiet(&self) {
        let mut st = self.st.borrow_mut();
        self.drain(&mut st);
        self.judge_phase(&mut st);
        for k in 0..st.prx.len() {
            for n in 0..st.emitted.len() {
                let p = &st.prx[k];
                let got = p.got.contains(&(n as u32));
                let readable = p.proxy.is_some();
                match st.emitted[n].want[k] {
                    // A pending next_event() takes one event at a time.
                    Want::Must if !got && readable && p.gone.is_none() => {
                        self.env.fail("event", format!("proxy {k} did not receive emission {n}"))
                    }
                    Want::Not if got => self.env.fail("event", format!("proxy {k} received emission {n}")),
                    _ => {}
                }
            }
        }
        // Whoever waits for the next event has none waiting.
        for i in self.env.pending_ops() {
            let ops = self.env.ops.borrow();
            let o = &ops[i];
            let mut w = o.tag.rsplitn(2, ' ');
            let num = w.next().and_then(|n| n.parse::<usize>().ok());
            let what = w.next().unwrap_or("");
            let legit = !self.env.dead(o.client)
                && match (what, num) {
                    ("next event", Some(k)) => {
                        let p = &st.prx[k];
                        let missing = (0..st.emitted.len())
                            .any(|n| st.emitted[n].want[k] == Want::Must && !p.got.contains(&(n as u32)));
                        !missing && !self.told(&st, p)
                    }
                    _ => false,
                };
            if !legit {
                let name = o.name.clone();
                drop(ops);
                self.env.fail(&format!("stuck/{name}"), format!("{name} does not complete"));
            }
        }
        for k in 0..st.prx.len() {
            let p = &st.prx[k];
            if p.proxy.is_some() && !p.ended && self.told(&st, p) && !self.env.dead(p.client) {
                self.env.fail("event", format!("the events of proxy {k} do not end although its service does"));
            }
        }
        st.phase += 1;
    }

    fn wind(&self) -> bool {
        let n = self.st.borrow().prx.len();
        if (0..n).any(|k| self.drop_proxy(k)) {
            return true;
        }
        let s = {
            let mut st = self.st.borrow_mut();
            if st.svcs.is_empty() {
                None
            } else {
                st.destroyed(0);
                let x = &mut st.svcs[0];
                match (x.svc.take(), x.obj.take()) {
                    (None, None) => None,
                    y => Some(y),
                }
            }
        };
        if let Some(s) = s {
            drop(s);
            return true;
        }
        // Before 1.18, a proxy without subscriptions does not learn about the end of its service.
        let wait = self.env.pending_ops().into_iter().find(|&i| self.env.ops.borrow()[i].name == "next event");
        if let Some(id) = wait {
            self.give_up(id);
            return true;
        }
        false
    }

    fn poke(&self, client: usize) {
        let n = self.st.borrow().prx.len();
        for k in 0..n {
            let p = {
                let mut st = self.st.borrow_mut();
                if st.prx[k].client != client {
                    continue;
                }
                st.prx[k].gone.get_or_insert(0);
                st.prx[k].proxy.take()
            };
            let Some(mut p) = p else { continue };
            self.env.op(client, "proxy operations on a stopped client", "poke", async move {
                let s = p.subscribe(1).await.map(|_| 1);
                let u = p.unsubscribe(0).await.map(|_| 1);
                let v = p.subscribe_all().await.map(|_| 1);
                let a = p.unsubscribe_all().await.map(|_| 1);
                while p.next_event().await.is_some() {}
                let c = p.call(1, 1u32, None).await.map(|_| 1);
                format!("{c:?}{s:?}{u:?}{v:?}{a:?}")
            });
        }
        let (s, o, id) = {
            let mut st = self.st.borrow_mut();
            if st.svcs.is_empty() {
                return;
            }
            let id = st.svcs[0].id;
            if st.svcs[0].owner == client {
                (st.svcs[0].svc.take(), st.svcs[0].obj.take(), id)
            } else {
                (None, None, id)
            }
        };
        if let Some(mut s) = s {
            self.env.op(client, "service operations on a stopped client", "poke", async move {
                while s.next_call().await.is_some() {}
                let e = s.emit(1, 1u32);
                let d = s.destroy().await;
                format!("{e:?}{d:?}")
            });
        }
        drop(o);
        if let Some(h) = self.env.handle(client) {
            self.env.op(client, "create proxy on a stopped client", "poke", async move {
                format!("{:?}", h.create_proxy(id).await.map(|_| 1))
            });
        }
    }

    fn truth(&self, snapshot: &str) {
        // The broker's subscriptions are those of the applications.
        let st = self.st.borrow();
        if st.proxying + st.creating > 0 || st.svcs.is_empty() {
            return;
        }
        let snap = crate::snap::parse(snapshot).expect("harness: snapshot");
        let live = st.svcs.iter().filter(|s| s.gone.is_none() && !self.env.dead(s.owner)).count();
        if let Some(n) = crate::snap::field_len(&snap, "svcs") {
            if n != live {
                self.env.fail("broker-services", format!("the broker has {n} services, the applications {live}"));
            }
        }
        if live == 0 {
            return;
        }
        let mut ids = std::collections::HashSet::new();
        let mut any = false;
        for p in &st.prx {
            if p.gone.is_some() || self.env.dead(p.client) {
                continue;
            }
            for e in 0..2 {
                if p.subs[e].on {
                    any = true;
                    ids.insert(e);
                }
            }
            any |= p.subs[ALL].on;
        }
        if let Some(n) = crate::snap::service_events(&snap) {
            if n != ids.len() {
                self.env.fail("broker-subscriptions", format!("the broker has subscribers for {n} events, the applications for {}", ids.len()));
            }
        }
        let _ = any;
    }
}
