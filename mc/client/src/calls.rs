//! Objects, services, proxies and function calls through the client API.

use crate::explore::*;
use crate::sim::*;
use aldrin::low_level::{Call, Promise, Proxy, Service, ServiceInfo};
use aldrin::{Error, Object};
use aldrin_core::{ObjectUuid, ServiceId, ServiceUuid};
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ans {
    Ok,
    Err,
    Done,
    Abort,
    Drop,
    InvalidFunction,
    InvalidArgs,
}

struct Svc {
    owner: usize,
    /// The service whose object this one is on as well.
    parent: Option<usize>,
    id: ServiceId,
    obj: Option<Rc<Object>>,
    svc: Option<Service>,
    /// The service is in use by a pending operation.
    busy: Option<usize>,
    /// When its destruction was requested, in terms of `seq`, and the phase.
    gone: Option<(u64, u32)>,
    /// Calls in the order in which they arrived.
    arrived: Vec<u32>,
}

struct Prx {
    client: usize,
    svc: usize,
    proxy: Proxy,
}

struct Rec {
    svc: usize,
    caller: usize,
    op: usize,
    at: (u64, u32),
    cancelled: Option<u32>,
    answer: Option<(Ans, u64)>,
    held: bool,
}

#[derive(Default)]
struct St {
    svcs: Vec<Svc>,
    creating: usize,
    proxying: usize,
    proxies: Vec<Prx>,
    calls: Vec<Rec>,
    /// Calls the callee has taken but not answered.
    held: Vec<(u32, Option<Promise>)>,
    /// Objects (by their first service) that were destroyed or dropped.
    objs_gone: Vec<usize>,
    seq: u64,
    phase: u32,
}

impl St {
    fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }

    fn destroyed(&mut self, i: usize) {
        let s = self.tick();
        let p = self.phase;
        self.svcs[i].gone.get_or_insert((s, p));
    }

    fn object_destroyed(&mut self, i: usize) {
        self.destroyed(i);
        for j in 0..self.svcs.len() {
            if self.svcs[j].parent == Some(i) {
                self.destroyed(j);
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Create(usize),
    DropService,
    DropObject,
    DestroyService,
    DestroyObject,
    Proxy(usize),
    DropProxy,
    Call(usize),
    NextCall,
    Answer(Ans),
    AnswerLast,
    WaitAborted,
    WaitLast,
    AbortCall,
    AbortLast,
    /// Another service on the object of the first one.
    More,
    /// The operations on the last service instead of the first one.
    NextLast,
    DestroyLast,
    DropLast,
    CallLast(usize),
    ProxyLast(usize),
    Cancel,
}

pub struct Calls {
    env: Rc<Env>,
    st: Rc<RefCell<St>>,
    ops: Vec<Op>,
    max: usize,
}

const FUNCTION: u32 = 3;

impl Calls {
    pub fn make(env: Rc<Env>, p: &Params) -> Box<dyn Area> {
        let mut ops = vec![
            Op::Create(0),
            Op::DropService,
            Op::DropObject,
            Op::DestroyService,
            Op::DestroyObject,
            Op::Proxy(0),
            Op::Proxy(1),
            Op::DropProxy,
            Op::Call(0),
            Op::Call(1),
            Op::NextCall,
        ];
        for a in [Ans::Ok, Ans::Err, Ans::Done, Ans::Abort, Ans::Drop, Ans::InvalidFunction, Ans::InvalidArgs] {
            ops.push(Op::Answer(a));
        }
        ops.extend([Op::AnswerLast, Op::WaitAborted, Op::AbortCall, Op::Cancel]);
        if p.size > 1 {
            ops.extend([
                Op::Create(1),
                Op::More,
                Op::NextLast,
                Op::DestroyLast,
                Op::DropLast,
                Op::ProxyLast(1),
                Op::CallLast(1),
                Op::AbortLast,
                Op::WaitLast,
            ]);
        }
        Box::new(Self { env, st: Default::default(), ops, max: p.size.max(1) })
    }

    fn create(&self, client: usize) -> bool {
        {
            let st = self.st.borrow();
            if st.svcs.len() + st.creating >= self.max {
                return false;
            }
        }
        let Some(h) = self.env.handle(client) else { return false };
        self.st.borrow_mut().creating += 1;
        let st = self.st.clone();
        let env = self.env.clone();
        let g = Guard(st.clone(), |s| s.creating -= 1);
        self.env.op(client, "create service", "never", async move {
            let _g = g;
            let n = st.borrow_mut().tick() as u128;
            let res = async {
                let o = h.create_object(ObjectUuid(uuid::Uuid::from_u128(1000 + client as u128 * 100 + n))).await?;
                let s = o.create_service(ServiceUuid(uuid::Uuid::from_u128(77)), ServiceInfo::new(5)).await?;
                Ok::<_, Error>((o, s))
            }
            .await;
            match res {
                Ok((o, s)) => {
                    st.borrow_mut().svcs.push(Svc {
                        owner: client,
                        parent: None,
                        id: s.id(),
                        obj: Some(Rc::new(o)),
                        svc: Some(s),
                        busy: None,
                        gone: None,
                        arrived: vec![],
                    });
                    "Ok".into()
                }
                Err(Error::Shutdown) if env.dead(client) => "Err(Shutdown)".into(),
                Err(e) => {
                    env.fail("create", format!("creating an object with a service failed with {e:?}"));
                    format!("Err({e:?})")
                }
            }
        });
        true
    }

    fn more(&self) -> bool {
        let (o, i, owner) = {
            let st = self.st.borrow();
            if st.svcs.len() + st.creating >= self.max {
                return false;
            }
            let Some(i) = st.svcs.iter().position(|s| s.obj.is_some()) else { return false };
            (st.svcs[i].obj.clone().unwrap(), i, st.svcs[i].owner)
        };
        self.st.borrow_mut().creating += 1;
        let (st, env) = (self.st.clone(), self.env.clone());
        let g = Guard(st.clone(), |s| s.creating -= 1);
        self.env.op(owner, "create another service", "never", async move {
            let _g = g;
            let r = o.create_service(ServiceUuid(uuid::Uuid::from_u128(78)), ServiceInfo::new(5)).await;
            drop(o);
            let mut st = st.borrow_mut();
            let gone = st.svcs[i].obj.is_none() || st.objs_gone.contains(&i);
            match r {
                Ok(s) => {
                    st.svcs.push(Svc {
                        owner,
                        parent: Some(i),
                        id: s.id(),
                        obj: None,
                        svc: Some(s),
                        busy: None,
                        gone: None,
                        arrived: vec![],
                    });
                    if gone {
                        let j = st.svcs.len() - 1;
                        st.destroyed(j);
                    }
                    "Ok".into()
                }
                Err(Error::InvalidObject) if gone => "Err(InvalidObject)".into(),
                Err(Error::Shutdown) if env.dead(owner) => "Err(Shutdown)".into(),
                Err(e) => {
                    env.fail("create", format!("creating another service failed with {e:?}"));
                    format!("Err({e:?})")
                }
            }
        });
        true
    }

    fn with_service(
        &self,
        i: usize,
        name: &'static str,
        f: impl FnOnce(Service) -> std::pin::Pin<Box<dyn Future<Output = (Option<Service>, String)>>> + 'static,
    ) -> bool {
        let (svc, owner) = {
            let mut st = self.st.borrow_mut();
            let s = &mut st.svcs[i];
            let Some(svc) = s.svc.take() else { return false };
            (svc, s.owner)
        };
        let st = self.st.clone();
        let op = self.env.op(owner, name, format!("{name} {i}"), async move {
            let (svc, r) = f(svc).await;
            let mut st = st.borrow_mut();
            st.svcs[i].svc = svc;
            st.svcs[i].busy = None;
            r
        });
        self.st.borrow_mut().svcs[i].busy = Some(op);
        true
    }

    fn judge_reply(env: &Env, st: &St, n: usize, res: &Result<aldrin::low_level::Reply, Error>) {
        let c = &st.calls[n];
        let s = &st.svcs[c.svc];
        let owner_dead = env.dead(s.owner);
        let answered = c.answer.filter(|a| s.gone.is_none_or(|g| a.1 < g.0)).map(|a| a.0);
        let got = match res {
            Ok(r) => match r.deserialize::<u32, u32>() {
                Ok(Ok(v)) => {
                    if v != n as u32 * 10 + 1 {
                        env.fail("reply-value", format!("call {n} was answered with {v}"));
                    }
                    Ans::Ok
                }
                Ok(Err(v)) => {
                    if v != n as u32 * 10 + 2 {
                        env.fail("reply-value", format!("call {n} was answered with error {v}"));
                    }
                    Ans::Err
                }
                Err(_) => match r.deserialize::<(), u32>() {
                    Ok(Ok(())) => Ans::Done,
                    x => {
                        env.fail("reply-value", format!("call {n} was answered with {x:?}"));
                        return;
                    }
                },
            },
            Err(Error::CallAborted) => Ans::Abort,
            Err(Error::InvalidFunction(f)) => {
                if f.id() != FUNCTION {
                    env.fail("reply-value", format!("invalid function {f:?}"));
                }
                Ans::InvalidFunction
            }
            Err(Error::InvalidArguments(f)) => {
                if f.id() != FUNCTION {
                    env.fail("reply-value", format!("invalid arguments {f:?}"));
                }
                Ans::InvalidArgs
            }
            Err(Error::InvalidService) => {
                if s.gone.is_none() && !owner_dead {
                    env.fail("reply", format!("call {n} fails with InvalidService although the service exists"));
                } else if answered.is_some() && !owner_dead {
                    env.fail("reply", format!("call {n} fails with InvalidService although it had been answered before"));
                }
                return;
            }
            Err(Error::Shutdown) => {
                if !env.dead(c.caller) {
                    env.fail("reply", format!("call {n} fails with Shutdown although the client is running"));
                }
                return;
            }
            Err(e) => {
                env.fail("reply", format!("call {n} fails with {e:?}"));
                return;
            }
        };
        let want = answered.map(|a| if a == Ans::Drop { Ans::Abort } else { a });
        if want != Some(got) {
            // What a dying owner still holds counts as aborted.
            if !(owner_dead && got == Ans::Abort) {
                env.fail("reply", format!("call {n} got {got:?}, but the callee's answer was {want:?}"));
            }
        }
    }

    fn answer(st: &mut St, n: u32, p: Promise, a: Ans) -> Result<(), Error> {
        let seq = st.tick();
        st.calls[n as usize].answer = Some((a, seq));
        st.calls[n as usize].held = false;
        match a {
            Ans::Ok => p.ok(n * 10 + 1),
            Ans::Err => p.err(n * 10 + 2),
            Ans::Done => p.done(),
            Ans::Abort => p.abort(),
            Ans::Drop => {
                drop(p);
                Ok(())
            }
            Ans::InvalidFunction => p.invalid_function(),
            Ans::InvalidArgs => p.invalid_args(),
        }
    }

    fn on_answer(&self, a: Ans, last: bool) -> bool {
        let mut st = self.st.borrow_mut();
        let i = if last {
            if st.held.len() < 2 {
                return false;
            }
            st.held.iter().rposition(|h| h.1.is_some())
        } else {
            st.held.iter().position(|h| h.1.is_some())
        };
        let Some(i) = i else { return false };
        let (n, p) = st.held.remove(i);
        let owner = st.svcs[st.calls[n as usize].svc].owner;
        if let Err(e) = Self::answer(&mut st, n, p.unwrap(), a) {
            if !(e == Error::Shutdown && self.env.dead(owner)) {
                self.env.fail("answer", format!("answering call {n} failed with {e:?}"));
            }
        }
        true
    }

    fn on(&self, i: usize, op: Op) -> bool {
        let env = self.env.clone();
        let st = self.st.clone();
        match op {
            Op::DropService => {
                let s = {
                    let mut st = self.st.borrow_mut();
                    let Some(s) = st.svcs[i].svc.take() else { return false };
                    st.destroyed(i);
                    s
                };
                drop(s);
                true
            }
            Op::DropObject => {
                let o = {
                    let mut st = self.st.borrow_mut();
                    let Some(o) = st.svcs[i].obj.take() else { return false };
                    if Rc::strong_count(&o) > 1 {
                        st.svcs[i].obj = Some(o);
                        return false;
                    }
                    st.object_destroyed(i);
                    st.objs_gone.push(i);
                    o
                };
                drop(o);
                true
            }
            Op::DestroyService => self.with_service(i, "destroy service", move |s| {
                Box::pin(async move {
                    let was = st.borrow().svcs[i].gone;
                    let own = { st.borrow_mut().destroyed(i); was.is_none() };
                    let r = s.destroy().await;
                    let owner = st.borrow().svcs[i].owner;
                    match &r {
                        Ok(()) if !own => env.fail("destroy", "a service was destroyed twice".into()),
                        Ok(()) => {}
                        Err(Error::InvalidService) if !own => {}
                        Err(Error::Shutdown) if env.dead(owner) => {}
                        Err(e) => env.fail("destroy", format!("destroying a service failed with {e:?}")),
                    }
                    (Some(s), format!("{r:?}"))
                })
            }),
            Op::DestroyObject => {
                let (o, owner) = {
                    let st = self.st.borrow();
                    let Some(o) = st.svcs[i].obj.clone() else { return false };
                    if Rc::strong_count(&o) > 2 {
                        return false;
                    }
                    (o, st.svcs[i].owner)
                };
                self.env.op(owner, "destroy object", "never", async move {
                    {
                        let mut st = st.borrow_mut();
                        st.object_destroyed(i);
                        st.objs_gone.push(i);
                    }
                    let r = o.destroy().await;
                    match &r {
                        Ok(()) | Err(Error::InvalidObject) => {}
                        Err(Error::Shutdown) if env.dead(owner) => {}
                        Err(e) => env.fail("destroy", format!("destroying an object failed with {e:?}")),
                    }
                    format!("{r:?}")
                });
                true
            }
            Op::Proxy(c) => {
                {
                    let st = self.st.borrow();
                    let have = st.proxies.iter().filter(|p| p.client == c && p.svc == i).count();
                    if have + st.proxying > 0 {
                        return false;
                    }
                }
                let Some(h) = self.env.handle(c) else { return false };
                let id = self.st.borrow().svcs[i].id;
                self.st.borrow_mut().proxying += 1;
                let g = Guard(st.clone(), |s| s.proxying -= 1);
                let at = self.st.borrow().phase;
                self.env.op(c, "create proxy", "never", async move {
                    let _g = g;
                    let r = h.create_proxy(id).await;
                    let mut s = st.borrow_mut();
                    let (gone, owner) = (s.svcs[i].gone, s.svcs[i].owner);
                    match r {
                        Ok(p) => {
                            if gone.is_some_and(|g| g.1 < at) {
                                env.fail("proxy", "a proxy was created for a destroyed service".into());
                            }
                            if p.version() != 5 || p.id() != id {
                                env.fail("proxy", format!("the proxy has version {} and id {:?}", p.version(), p.id()));
                            }
                            s.proxies.push(Prx { client: c, svc: i, proxy: p });
                            "Ok".into()
                        }
                        Err(e) => {
                            if !(e == Error::InvalidService && (gone.is_some() || env.dead(owner))
                                || e == Error::Shutdown && env.dead(c))
                            {
                                env.fail("proxy", format!("creating a proxy failed with {e:?}"));
                            }
                            format!("Err({e:?})")
                        }
                    }
                });
                true
            }
            Op::NextCall => self.with_service(i, "next call", move |mut s| {
                Box::pin(async move {
                    let r = s.next_call().await;
                    let mut g = st.borrow_mut();
                    let owner = g.svcs[i].owner;
                    let r = match r {
                        None => {
                            if g.svcs[i].gone.is_none() && !env.dead(owner) {
                                env.fail("next-call", "calls ended although the service exists".into());
                            }
                            "None".into()
                        }
                        Some(c) => {
                            Self::took(&env, &mut g, i, c);
                            "Some".into()
                        }
                    };
                    drop(g);
                    (Some(s), r)
                })
            }),
            _ => unreachable!(),
        }
    }

    fn took(env: &Env, g: &mut St, i: usize, c: Call) {
        match c.deserialize::<u32>() {
            Ok(n) if (n as usize) < g.calls.len() => {
                let r = &g.calls[n as usize];
                if r.svc != i {
                    env.fail("next-call", format!("call {n} arrived at another service"));
                }
                if c.id() != FUNCTION || c.service() != g.svcs[i].id {
                    env.fail("next-call", format!("call {n} arrived as function {} of {:?}", c.id(), c.service()));
                }
                let want = (env.minor(r.caller) >= 19 && env.minor(g.svcs[i].owner) >= 19).then_some(2);
                if c.version() != want {
                    env.fail("next-call", format!("call {n} arrived with version {:?} instead of {want:?}", c.version()));
                }
                if g.svcs[i].arrived.contains(&n) {
                    env.fail("next-call", format!("call {n} arrived twice"));
                }
                let caller = r.caller;
                if let Some(&p) = g.svcs[i].arrived.iter().rev().find(|&&p| g.calls[p as usize].caller == caller) {
                    if p > n {
                        env.fail("next-call", format!("call {n} arrived after call {p} of the same client"));
                    }
                }
                g.svcs[i].arrived.push(n);
                g.calls[n as usize].held = true;
                g.held.push((n, Some(c.into_promise())));
            }
            x => env.fail("next-call", format!("a call arrived with arguments {x:?}")),
        }
    }

    fn call(&self, client: usize, last: bool) -> bool {
        let (reply, i, n) = {
            let mut st = self.st.borrow_mut();
            if st.calls.len() >= 3 {
                return false;
            }
            let n = st.calls.len();
            let mut mine = st.proxies.iter().filter(|p| p.client == client);
            let p = if last {
                if st.proxies.len() < 2 {
                    return false;
                }
                mine.next_back()
            } else {
                mine.next()
            };
            let Some(p) = p else { return false };
            let i = p.svc;
            let reply = p.proxy.call(FUNCTION, n as u32, Some(2));
            let at = (st.tick(), st.phase);
            st.calls.push(Rec { svc: i, caller: client, op: 0, at, cancelled: None, answer: None, held: false });
            (reply, i, n)
        };
        let (env, st) = (self.env.clone(), self.st.clone());
        let op = self.env.op(client, "call", format!("call {n} {i}"), async move {
            let r = reply.await;
            let s = st.borrow();
            Self::judge_reply(&env, &s, n, &r);
            format!("{:?}", r.map(|r| r.id()))
        });
        self.st.borrow_mut().calls[n].op = op;
        true
    }

    fn give_up(&self, id: usize) {
        let mut st = self.st.borrow_mut();
        let p = st.phase;
        for c in &mut st.calls {
            if c.op == id {
                c.cancelled.get_or_insert(p);
            }
        }
        // Giving up an operation that has taken the service destroys the service. This happens only
        // once the task is actually dropped, but then nothing else is in between.
        for i in 0..st.svcs.len() {
            if st.svcs[i].busy == Some(id) {
                st.svcs[i].busy = None;
                st.destroyed(i);
            }
        }
        let wait = self.env.ops.borrow()[id].tag.strip_prefix("aborted ").map(|n| n.parse::<u32>().unwrap());
        if let Some(n) = wait {
            // The promise goes with it.
            let seq = st.tick();
            st.calls[n as usize].answer = Some((Ans::Drop, seq));
            st.calls[n as usize].held = false;
            st.held.retain(|h| h.0 != n);
        }
        drop(st);
        self.env.cancel(id);
    }

    fn wait_aborted(&self, last: bool) -> bool {
        let (n, mut p, owner) = {
            let mut st = self.st.borrow_mut();
            let mut free = st.held.iter_mut().filter(|h| h.1.is_some());
            let h = if last {
                if free.next().is_none() {
                    return false;
                }
                free.next_back()
            } else {
                free.next()
            };
            let Some(h) = h else { return false };
            let (n, p) = (h.0, h.1.take().unwrap());
            (n, p, st.svcs[st.calls[n as usize].svc].owner)
        };
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(owner, "aborted", format!("aborted {n}"), async move {
            p.aborted().await;
            let mut s = st.borrow_mut();
            let c = &s.calls[n as usize];
            if c.cancelled.is_none() && !env.dead(c.caller) && !env.dead(owner) {
                env.fail("aborted", format!("call {n} is reported as aborted, but it is not"));
            }
            if !p.is_aborted() {
                env.fail("aborted", format!("is_aborted() disagrees with aborted() on call {n}"));
            }
            if let Some(h) = s.held.iter_mut().find(|h| h.0 == n) {
                h.1 = Some(p);
            }
            "()".into()
        });
        true
    }
}

struct Guard(Rc<RefCell<St>>, fn(&mut St));

impl Drop for Guard {
    fn drop(&mut self) {
        self.1(&mut self.0.borrow_mut());
    }
}

impl Area for Calls {
    fn names(&self) -> Vec<String> {
        self.ops.iter().map(|o| format!("{o:?}")).collect()
    }

    fn issue(&self, op: usize) -> bool {
        match self.ops[op] {
            Op::Create(c) => self.create(c),
            Op::Call(c) => self.call(c, false),
            Op::CallLast(c) => self.call(c, true),
            Op::More => self.more(),
            Op::Answer(a) => self.on_answer(a, false),
            Op::AnswerLast => self.on_answer(Ans::Ok, true),
            Op::WaitAborted => self.wait_aborted(false),
            Op::WaitLast => self.wait_aborted(true),
            Op::DropProxy => {
                let mut st = self.st.borrow_mut();
                if st.proxies.is_empty() {
                    return false;
                }
                let p = st.proxies.remove(0);
                drop(st);
                drop(p);
                true
            }
            Op::AbortCall | Op::AbortLast => {
                let ids = self.env.pending_ops().into_iter();
                let mut ids = ids.filter(|&i| self.env.ops.borrow()[i].tag.starts_with("call "));
                let id = if self.ops[op] == Op::AbortCall { ids.next() } else { ids.by_ref().skip(1).last() };
                let Some(id) = id else { return false };
                self.give_up(id);
                true
            }
            Op::Cancel => {
                let Some(id) = self.env.last_pending() else { return false };
                if self.env.ops.borrow()[id].name == "call" {
                    return false;
                }
                self.give_up(id);
                true
            }
            o => {
                let n = self.st.borrow().svcs.len();
                let last = match o {
                    Op::NextLast => Op::NextCall,
                    Op::DestroyLast => Op::DestroyService,
                    Op::DropLast => Op::DropService,
                    Op::ProxyLast(c) => Op::Proxy(c),
                    _ => return (0..n).any(|i| self.on(i, o)),
                };
                n >= 2 && self.on(n - 1, last)
            }
        }
    }

    fn sig(&self) -> String {
        let st = self.st.borrow();
        let mut v = vec![];
        for s in &st.svcs {
            v.push(format!("@{} obj{} svc{} busy{} gone{}", s.owner, s.obj.is_some(), s.svc.is_some(), s.busy.is_some(), s.gone.is_some()));
        }
        for p in &st.proxies {
            v.push(format!("p{}>{}", p.client, p.svc));
        }
        for c in &st.calls {
            let pend = self.env.ops.borrow()[c.op].state == OpState::Pending;
            v.push(format!("c{}>{} {pend} {} {:?} {}", c.caller, c.svc, c.cancelled.is_some(), c.answer.map(|a| a.0), c.held));
        }
        if self.max > 1 {
            let par: Vec<_> = st.svcs.iter().map(|s| s.parent).collect();
            let heard: Vec<_> = st.svcs.iter().map(|s| s.arrived.len()).collect();
            v.push(format!("par{par:?} gone{:?} {heard:?}", st.objs_gone));
        }
        v.push(format!("held{:?}", st.held.iter().map(|h| (h.0, h.1.is_some())).collect::<Vec<_>>()));
        v.push(format!("{:?}", self.env.pending_ops().iter().map(|&i| self.env.ops.borrow()[i].name.clone()).collect::<Vec<_>>()));
        v.join(";")
    }

    fn quiet(&self) {
        let mut st = self.st.borrow_mut();
        let st = &mut *st;
        st.phase += 1;
        for (n, p) in &mut st.held {
            let Some(p) = p else { continue };
            let c = &st.calls[*n as usize];
            let s = &st.svcs[c.svc];
            let told = self.env.minor(s.owner) >= 16
                && (c.cancelled.is_some() && self.env.minor(c.caller) >= 16 || self.env.dead(c.caller));
            if told && s.gone.is_none() && !self.env.dead(s.owner) && !p.is_aborted() {
                self.env.fail("not-aborted", format!("call {n} was given up, but the callee's promise does not say so"));
            }
        }
        let st = &*st;
        for i in self.env.pending_ops() {
            let ops = self.env.ops.borrow();
            let o = &ops[i];
            let mut w = o.tag.rsplitn(2, ' ');
            let num = w.next().and_then(|n| n.parse::<usize>().ok());
            let what = w.next().unwrap_or("");
            let dead = |s: &Svc| self.env.dead(s.owner);
            let legit = !self.env.dead(o.client)
                && match (what.split(' ').next().unwrap(), num) {
                    ("call", Some(i)) => {
                        let n: usize = what[5..].parse().unwrap();
                        let c = &st.calls[n];
                        c.answer.is_none() && st.svcs[i].gone.is_none() && !dead(&st.svcs[i])
                    }
                    ("next", Some(i)) => {
                        let s = &st.svcs[i];
                        let missing = (0..st.calls.len()).any(|n| {
                            let c = &st.calls[n];
                            c.svc == i && c.cancelled.is_none() && !s.arrived.contains(&(n as u32)) && !self.env.dead(c.caller)
                        });
                        !missing && s.gone.is_none()
                    }
                    ("aborted", Some(n)) => {
                        let c = &st.calls[n];
                        let s = &st.svcs[c.svc];
                        let told = self.env.minor(s.owner) >= 16
                            && (c.cancelled.is_some() && self.env.minor(c.caller) >= 16 || self.env.dead(c.caller));
                        !told || s.gone.is_some()
                    }
                    _ => false,
                };
            if !legit {
                let name = o.name.clone();
                drop(ops);
                self.env.fail(&format!("stuck/{name}"), format!("{name} does not complete"));
            }
        }
    }

    fn wind(&self) -> bool {
        if self.st.borrow().proxies.len() > 0 {
            let p = self.st.borrow_mut().proxies.remove(0);
            drop(p);
            return true;
        }
        if self.on_answer(Ans::Ok, false) {
            return true;
        }
        let wait = self.env.pending_ops().into_iter().find(|&i| self.env.ops.borrow()[i].tag.starts_with("aborted"));
        if let Some(id) = wait {
            self.give_up(id);
            return true;
        }
        let n = self.st.borrow().svcs.len();
        (0..n).any(|i| self.on(i, Op::DropObject) || self.on(i, Op::DropService))
    }

    fn poke(&self, client: usize) {
        let svcs = self.st.borrow().svcs.len();
        for i in 0..svcs {
            if self.st.borrow().svcs[i].owner != client {
                continue;
            }
            let (s, o) = {
                let mut st = self.st.borrow_mut();
                (st.svcs[i].svc.take(), st.svcs[i].obj.take())
            };
            if let Some(mut s) = s {
                self.env.op(client, "service operations on a stopped client", "poke", async move {
                    let mut n = 0;
                    while let Some(c) = s.next_call().await {
                        let _ = c.ok(1u32);
                        n += 1;
                    }
                    let _ = s.emit(1, 1u32);
                    let d = s.destroy().await;
                    format!("{n}{d:?}")
                });
            }
            if let Some(o) = o {
                self.env.op(client, "object operations on a stopped client", "poke", async move {
                    let a = o.create_service(ServiceUuid::new_v4(), ServiceInfo::new(1)).await.map(|_| 1);
                    let d = o.destroy().await;
                    format!("{a:?}{d:?}")
                });
            }
        }
        let held: Vec<(u32, Option<Promise>)> = {
            let mut st = self.st.borrow_mut();
            let st = &mut *st;
            let mine = |n: u32| st.svcs[st.calls[n as usize].svc].owner == client;
            let (a, b) = std::mem::take(&mut st.held).into_iter().partition(|h| mine(h.0) && h.1.is_some());
            st.held = b;
            a
        };
        for (_, p) in held {
            let mut p = p.unwrap();
            self.env.op(client, "promise operations on a stopped client", "poke", async move {
                p.aborted().await;
                format!("{:?}", p.ok(1u32))
            });
        }
        let mut k = 0;
        loop {
            let p = {
                let mut st = self.st.borrow_mut();
                let Some(j) = st.proxies.iter().position(|p| p.client == client) else { break };
                st.proxies.remove(j)
            };
            k += 1;
            let mut p = p.proxy;
            self.env.op(client, "proxy operations on a stopped client", "poke", async move {
                let c = p.call(1, 1u32, None).await.map(|_| 1);
                let s = p.subscribe(1).await.map(|_| 1);
                let u = p.unsubscribe(1).await.map(|_| 1);
                let a = p.unsubscribe_all().await.map(|_| 1);
                while p.next_event().await.is_some() {}
                format!("{k}{c:?}{s:?}{u:?}{a:?}")
            });
        }
    }

    fn truth(&self, snapshot: &str) {
        let st = self.st.borrow();
        if st.creating > 0 {
            return;
        }
        let snap = crate::snap::parse(snapshot).expect("harness: snapshot");
        let live = |s: &&Svc| s.gone.is_none() && !self.env.dead(s.owner);
        let svcs = st.svcs.iter().filter(live).count();
        let objs = st.svcs.iter().filter(|s| s.obj.is_some() && !self.env.dead(s.owner)).count();
        if let Some(n) = crate::snap::field_len(&snap, "svcs") {
            if n != svcs {
                self.env.fail("broker-services", format!("the broker has {n} services, the applications {svcs}"));
            }
        }
        if let Some(n) = crate::snap::field_len(&snap, "objs") {
            // An object may have been destroyed without being dropped.
            let own = st.svcs.iter().filter(|s| live(s) && s.parent.is_none()).count();
            if n > objs || n < own {
                self.env.fail("broker-objects", format!("the broker has {n} objects, the applications {objs}"));
            }
        }
        if let Some(n) = crate::snap::field_len(&snap, "function_calls") {
            let open = st
                .calls
                .iter()
                .filter(|c| {
                    let s = &st.svcs[c.svc];
                    live(&s) && c.answer.is_none()
                })
                .count();
            // A call of a client that stopped at once may have been lost.
            let sure = st
                .calls
                .iter()
                .filter(|c| {
                    let s = &st.svcs[c.svc];
                    live(&s) && c.answer.is_none() && c.cancelled.is_none() && !self.env.dead(c.caller)
                })
                .count();
            if n > open || n < sure {
                self.env.fail("broker-calls", format!("the broker has {n} pending calls, the applications {open}"));
            }
        }
    }
}
