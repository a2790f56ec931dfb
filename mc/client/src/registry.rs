//! Objects and services through the client API; two clients compete for the same UUIDs. Further,
//! introspection (size 7).
//!
//! Only what is certain is required: an object exists for sure between the completion of its
//! creation and the start of its destruction, and it is gone for sure once its destruction has
//! completed, once a later `sync_broker()` of its owner has, for later requests of its owner, and
//! for everybody when the system has come to rest.

use crate::explore::*;
use crate::sim::*;
use aldrin::low_level::{Service, ServiceInfo};
use aldrin::{Error, Object};
use aldrin_core::introspection::{DynIntrospectable, Introspection};
use aldrin_core::{ObjectUuid, ProtocolVersion, ServiceUuid, TypeId};
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Pending,
    Live,
    /// The creation has failed, at that time.
    Failed(u64),
    /// Given up before its completion.
    Lost,
}

#[derive(Clone, Debug)]
struct Try {
    owner: usize,
    /// The object, if it is a service.
    parent: Option<usize>,
    lo: u64,
    at: At,
    gone_from: Option<u64>,
    gone_by: Option<u64>,
    /// What destroy() has returned Ok.
    destroyed: bool,
}

#[derive(Default)]
struct St {
    tick: u64,
    tries: Vec<Try>,
    objs: Vec<(usize, Option<Rc<Object>>)>,
    svcs: Vec<(usize, Option<Rc<Service>>)>,
    cookies: HashSet<uuid::Uuid>,
    made: usize,
    // Introspection: registered types and when they were submitted.
    registered: [[bool; 2]; 2],
    submitted: [[Option<u64>; 2]; 2],
    sure: [[bool; 2]; 2],
}

impl St {
    fn now(&mut self) -> u64 {
        self.tick += 1;
        self.tick
    }

    /// Asked to go, itself or its parent.
    fn leaving(&self, i: usize) -> bool {
        let t = &self.tries[i];
        t.gone_from.is_some() || t.parent.is_some_and(|p| self.tries[p].gone_from.is_some())
    }

    fn gone_before(&self, i: usize, lo: u64, by: usize) -> bool {
        let t = &self.tries[i];
        let own = |t: &Try| {
            t.gone_by.is_some_and(|g| g < lo) || t.owner == by && t.at == At::Live && t.gone_from.is_some_and(|g| g < lo)
        };
        own(t) || t.parent.is_some_and(|p| own(&self.tries[p]))
    }

    fn rivals(&self, i: usize) -> Vec<usize> {
        let t = &self.tries[i];
        (0..self.tries.len()).filter(|&k| k != i && self.tries[k].parent == t.parent).collect()
    }

    fn certain(&self, i: usize, env: &Env) -> bool {
        self.tries[i].at == At::Live && !self.leaving(i) && !env.dead(self.tries[i].owner)
    }

    fn possible(&self, i: usize, lo: u64, by: usize) -> bool {
        !matches!(self.tries[i].at, At::Failed(t) if t < lo) && !self.gone_before(i, lo, by)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    New(usize),
    Destroy(usize),
    DropFirst(usize),
    DropLast(usize),
    Svc(usize),
    SvcFirst(usize),
    SvcDestroy(usize),
    SvcDropFirst(usize),
    SvcDropLast(usize),
    SyncC(usize),
    SyncB(usize),
    Version(usize),
    Reg(usize, usize),
    Submit(usize),
    Query(usize, usize),
    Cancel,
}

pub struct Registry {
    env: Rc<Env>,
    st: Rc<RefCell<St>>,
    ops: Vec<Op>,
}

fn ty(i: usize) -> DynIntrospectable {
    if i == 0 {
        DynIntrospectable::new::<Option<u32>>()
    } else {
        DynIntrospectable::new::<u32>()
    }
}

fn type_id(i: usize) -> TypeId {
    Introspection::from_dyn(ty(i)).type_id()
}

/// Marks a creation that is given up.
struct Lost(Rc<RefCell<St>>, usize);

impl Drop for Lost {
    fn drop(&mut self) {
        let mut st = self.0.borrow_mut();
        let now = st.now();
        let t = &mut st.tries[self.1];
        if t.at == At::Pending {
            t.at = At::Lost;
            t.gone_from = Some(now);
        }
    }
}

impl Registry {
    pub fn make(env: Rc<Env>, p: &Params) -> Box<dyn Area> {
        let ops = match p.size {
            7 => vec![
                Op::Reg(0, 0),
                Op::Reg(0, 1),
                Op::Reg(1, 1),
                Op::Submit(0),
                Op::Submit(1),
                Op::Query(0, 0),
                Op::Query(1, 0),
                Op::Query(0, 1),
                Op::Query(1, 1),
                Op::SyncB(0),
                Op::Cancel,
            ],
            _ => vec![
                Op::New(0),
                Op::New(1),
                Op::Destroy(0),
                Op::Destroy(1),
                Op::DropFirst(0),
                Op::DropLast(0),
                Op::DropLast(1),
                Op::Svc(0),
                Op::SvcFirst(0),
                Op::SvcDestroy(0),
                Op::SvcDropFirst(0),
                Op::SvcDropLast(0),
                Op::SyncC(0),
                Op::SyncB(0),
                Op::SyncB(1),
                Op::Version(1),
                Op::Cancel,
            ],
        };
        Box::new(Self { env, st: Default::default(), ops })
    }

    fn begin(st: &Rc<RefCell<St>>, owner: usize, parent: Option<usize>) -> (usize, u64) {
        let mut s = st.borrow_mut();
        let lo = s.now();
        s.tries.push(Try { owner, parent, lo, at: At::Pending, gone_from: None, gone_by: None, destroyed: false });
        (s.tries.len() - 1, lo)
    }

    /// Judges the result of a creation.
    fn judge(env: &Env, st: &Rc<RefCell<St>>, i: usize, r: Result<uuid::Uuid, &Error>) {
        let mut s = st.borrow_mut();
        let now = s.now();
        let (owner, lo, parent) = (s.tries[i].owner, s.tries[i].lo, s.tries[i].parent);
        let what = if parent.is_some() { "service" } else { "object" };
        let rivals = s.rivals(i);
        match r {
            Ok(cookie) => {
                s.tries[i].at = At::Live;
                if !s.cookies.insert(cookie) {
                    env.fail("cookie", format!("the cookie of a new {what} has been used before"));
                }
                if !env.dead(owner) && rivals.iter().any(|&k| s.certain(k, env)) && !s.leaving(i) {
                    env.fail("unique", format!("a second {what} with the same UUID was created"));
                }
                if parent.is_some_and(|p| s.gone_before(p, lo, owner)) {
                    env.fail("parent", "a service was created on a destroyed object".into());
                }
                return;
            }
            Err(Error::Shutdown) if env.dead(owner) => {}
            Err(Error::DuplicateObject) if parent.is_none() => {
                if !rivals.iter().any(|&k| s.possible(k, lo, owner)) {
                    env.fail("duplicate", "DuplicateObject although there is no object with the UUID".into());
                }
            }
            Err(Error::DuplicateService) if parent.is_some() => {
                let gone = parent.is_some_and(|p| s.gone_before(p, lo, owner));
                if gone || !rivals.iter().any(|&k| s.possible(k, lo, owner)) {
                    env.fail("duplicate", "DuplicateService although there is no such service".into());
                }
            }
            Err(Error::InvalidObject) if parent.is_some_and(|p| s.leaving(p)) => {}
            Err(e) => env.fail("create", format!("creating the {what} failed with {e:?}")),
        }
        s.tries[i].at = At::Failed(now);
    }

    fn new(&self, c: usize) -> bool {
        if self.st.borrow().made >= 5 {
            return false;
        }
        let Some(h) = self.env.handle(c) else { return false };
        self.st.borrow_mut().made += 1;
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, "create object", "", async move {
            let (i, _) = Self::begin(&st, c, None);
            let _lost = Lost(st.clone(), i);
            let r = h.create_object(ObjectUuid(uuid::Uuid::from_u128(11))).await;
            Self::judge(&env, &st, i, r.as_ref().map(|o| o.id().cookie.0));
            match r {
                Ok(o) => {
                    st.borrow_mut().objs.push((i, Some(Rc::new(o))));
                    "Ok".into()
                }
                Err(e) => format!("{e:?}"),
            }
        });
        true
    }

    /// An object in somebody's hand that no operation uses.
    fn object(&self, c: usize, first: bool) -> Option<usize> {
        let st = self.st.borrow();
        let mut it = (0..st.objs.len()).filter(|&k| {
            let (i, o) = &st.objs[k];
            st.tries[*i].owner == c && o.as_ref().is_some_and(|o| Rc::strong_count(o) == 1)
        });
        if first {
            it.next()
        } else {
            it.last()
        }
    }

    fn service(&self, c: usize, first: bool) -> Option<usize> {
        let st = self.st.borrow();
        let mut it = (0..st.svcs.len()).filter(|&k| {
            let (i, o) = &st.svcs[k];
            st.tries[*i].owner == c && o.as_ref().is_some_and(|o| Rc::strong_count(o) == 1)
        });
        if first {
            it.next()
        } else {
            it.last()
        }
    }

    fn svc(&self, c: usize, first: bool) -> bool {
        let Some(k) = self.object(c, first) else { return false };
        if self.st.borrow().svcs.iter().filter(|s| s.1.is_some()).count() >= 3 {
            return false;
        }
        let (p, o) = {
            let st = self.st.borrow();
            (st.objs[k].0, st.objs[k].1.clone().unwrap())
        };
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, "create service", "", async move {
            let (i, _) = Self::begin(&st, c, Some(p));
            let _lost = Lost(st.clone(), i);
            let r = o.create_service(ServiceUuid(uuid::Uuid::from_u128(12)), ServiceInfo::new(i as u32)).await;
            Self::judge(&env, &st, i, r.as_ref().map(|s| s.id().cookie.0));
            match r {
                Ok(s) => {
                    if s.version() != i as u32 || s.id().object_id != o.id() {
                        env.fail("service", "the service is not what was asked for".into());
                    }
                    st.borrow_mut().svcs.push((i, Some(Rc::new(s))));
                    "Ok".into()
                }
                Err(e) => format!("{e:?}"),
            }
        });
        true
    }

    /// Starts the destruction; whether it may already be gone and whether it must be.
    fn leave(st: &Rc<RefCell<St>>, i: usize) -> (u64, bool, bool) {
        let mut s = st.borrow_mut();
        let now = s.now();
        let may = s.leaving(i);
        let must = s.gone_before(i, now, s.tries[i].owner);
        s.tries[i].gone_from.get_or_insert(now);
        (now, may, must)
    }

    fn left(env: &Env, st: &Rc<RefCell<St>>, i: usize, may: bool, must: bool, r: &Result<(), Error>, invalid: Error) {
        let mut s = st.borrow_mut();
        let now = s.now();
        let owner = s.tries[i].owner;
        // An object that is destroyed takes its services with it.
        let may = may || s.tries[i].parent.is_some_and(|p| s.tries[p].gone_from.is_some());
        match r {
            Ok(()) => {
                if must || s.tries[i].destroyed {
                    env.fail("destroy", "destroy() succeeded although it is gone".into());
                }
                s.tries[i].destroyed = true;
            }
            Err(Error::Shutdown) if env.dead(owner) => return,
            Err(e) if *e == invalid && may => {}
            Err(e) => env.fail("destroy", format!("destroy() failed with {e:?}")),
        }
        s.tries[i].gone_by.get_or_insert(now);
    }

    fn destroy(&self, c: usize) -> bool {
        let Some(k) = self.object(c, false) else { return false };
        let (i, o) = {
            let st = self.st.borrow();
            (st.objs[k].0, st.objs[k].1.clone().unwrap())
        };
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, "destroy object", "", async move {
            let (_, may, must) = Self::leave(&st, i);
            let r = o.destroy().await;
            Self::left(&env, &st, i, may, must, &r, Error::InvalidObject);
            format!("{r:?}")
        });
        true
    }

    fn svc_destroy(&self, c: usize) -> bool {
        let Some(k) = self.service(c, false) else { return false };
        let (i, o) = {
            let st = self.st.borrow();
            (st.svcs[k].0, st.svcs[k].1.clone().unwrap())
        };
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, "destroy service", "", async move {
            let (_, may, must) = Self::leave(&st, i);
            let r = o.destroy().await;
            Self::left(&env, &st, i, may, must, &r, Error::InvalidService);
            format!("{r:?}")
        });
        true
    }

    fn drop_obj(&self, c: usize, first: bool) -> bool {
        let Some(k) = self.object(c, first) else { return false };
        let i = self.st.borrow().objs[k].0;
        Self::leave(&self.st, i);
        let o = self.st.borrow_mut().objs[k].1.take();
        drop(o);
        true
    }

    fn drop_svc(&self, c: usize, first: bool) -> bool {
        let Some(k) = self.service(c, first) else { return false };
        let i = self.st.borrow().svcs[k].0;
        Self::leave(&self.st, i);
        let o = self.st.borrow_mut().svcs[k].1.take();
        drop(o);
        true
    }

    fn sync(&self, c: usize, broker: bool) -> bool {
        let Some(h) = self.env.handle(c) else { return false };
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, if broker { "sync broker" } else { "sync client" }, "", async move {
            let lo = st.borrow_mut().now();
            let r = if broker { h.sync_broker().await } else { h.sync_client().await };
            match r {
                Ok(_) if broker => {
                    // Everything the client has asked for before has happened.
                    let mut s = st.borrow_mut();
                    let now = s.now();
                    for t in &mut s.tries {
                        if t.owner == c && t.at == At::Live && t.gone_from.is_some_and(|g| g < lo) {
                            t.gone_by.get_or_insert(now);
                        }
                    }
                }
                Ok(_) => {}
                Err(Error::Shutdown) if env.dead(c) => {}
                Err(e) => env.fail("sync", format!("synchronizing failed with {e:?}")),
            }
            "done".into()
        });
        true
    }

    fn version(&self, c: usize) -> bool {
        let Some(h) = self.env.handle(c) else { return false };
        let env = self.env.clone();
        self.env.op(c, "version", "", async move {
            let r = h.version().await;
            match &r {
                Ok(v) if *v == ProtocolVersion::new(1, env.minor(c)) => {}
                Err(Error::Shutdown) if env.dead(c) => {}
                r => env.fail("version", format!("version() is {r:?} instead of 1.{}", env.minor(c))),
            }
            format!("{:?}", r.map(|_| ()))
        });
        true
    }

    fn register(&self, c: usize, t: usize) -> bool {
        let Some(h) = self.env.handle(c) else { return false };
        let mut st = self.st.borrow_mut();
        if st.registered[c][t] {
            return false;
        }
        match h.register_introspection_dyn(ty(t)) {
            Ok(()) => {}
            Err(Error::Shutdown) if self.env.dead(c) => {}
            Err(e) => self.env.fail("register", format!("registering a type failed with {e:?}")),
        }
        // Registers the types that are referred to as well.
        for k in t..2 {
            st.registered[c][k] = true;
        }
        true
    }

    fn submit(&self, c: usize) -> bool {
        let Some(h) = self.env.handle(c) else { return false };
        let mut st = self.st.borrow_mut();
        match h.submit_introspection() {
            Ok(()) => {}
            Err(Error::Shutdown) if self.env.dead(c) => {}
            Err(e) => self.env.fail("submit", format!("submitting the types failed with {e:?}")),
        }
        let now = st.now();
        for t in 0..2 {
            if st.registered[c][t] && self.env.minor(c) >= 17 {
                st.submitted[c][t].get_or_insert(now);
            }
        }
        true
    }

    fn query(&self, c: usize, t: usize) -> bool {
        let Some(h) = self.env.handle(c) else { return false };
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, "query introspection", "", async move {
            let (local, sure) = {
                let s = st.borrow();
                let other = 1 - c;
                // Known when asking, and still known afterwards.
                (s.registered[c][t], s.sure[other][t] && !env.dead(other))
            };
            let r = h.query_introspection(type_id(t)).await;
            let s = st.borrow();
            let new = env.minor(c) >= 17;
            let other = 1 - c;
            match &r {
                Ok(Some(i)) => {
                    if i.type_id() != type_id(t) {
                        env.fail("introspection", "the introspection is of another type".into());
                    }
                    if *i != Introspection::from_dyn(ty(t)) {
                        env.fail("introspection", "the introspection differs from what was registered".into());
                    }
                    if !(s.registered[c][t] || new && s.submitted[other][t].is_some()) {
                        env.fail("introspection", "there is introspection of a type that nobody has submitted".into());
                    }
                }
                Ok(None) => {
                    if local {
                        env.fail("introspection", "a type that the client itself has registered is unknown".into());
                    } else if new && sure && !env.dead(other) && !env.dead(c) {
                        env.fail("introspection", "a type that has been submitted is unknown".into());
                    }
                }
                Err(Error::Shutdown) if env.dead(c) => {}
                Err(e) => env.fail("introspection", format!("the query failed with {e:?}")),
            }
            format!("{}", matches!(r, Ok(Some(_))))
        });
        true
    }
}

impl Area for Registry {
    fn names(&self) -> Vec<String> {
        self.ops.iter().map(|o| format!("{o:?}")).collect()
    }

    fn issue(&self, op: usize) -> bool {
        match self.ops[op] {
            Op::New(c) => self.new(c),
            Op::Destroy(c) => self.destroy(c),
            Op::DropFirst(c) => self.object(c, true) != self.object(c, false) && self.drop_obj(c, true),
            Op::DropLast(c) => self.drop_obj(c, false),
            Op::Svc(c) => self.svc(c, false),
            Op::SvcFirst(c) => self.object(c, true) != self.object(c, false) && self.svc(c, true),
            Op::SvcDestroy(c) => self.svc_destroy(c),
            Op::SvcDropFirst(c) => self.service(c, true) != self.service(c, false) && self.drop_svc(c, true),
            Op::SvcDropLast(c) => self.drop_svc(c, false),
            Op::SyncC(c) => self.sync(c, false),
            Op::SyncB(c) => self.sync(c, true),
            Op::Version(c) => self.version(c),
            Op::Reg(c, t) => self.register(c, t),
            Op::Submit(c) => self.submit(c),
            Op::Query(c, t) => self.query(c, t),
            Op::Cancel => match self.env.last_pending() {
                Some(i) => {
                    self.env.cancel(i);
                    true
                }
                None => false,
            },
        }
    }

    fn sig(&self) -> String {
        let st = self.st.borrow();
        let mut v = vec![format!("{} {:?} {:?} {:?}", st.made, st.registered, st.submitted.map(|s| s.map(|s| s.is_some())), st.sure)];
        let at = |i: usize| {
            let t = &st.tries[i];
            format!("{} {} {}", t.owner, st.leaving(i), t.destroyed)
        };
        for (i, o) in &st.objs {
            if o.is_some() {
                v.push(format!("o{} {}", i, at(*i)));
            }
        }
        for (i, s) in &st.svcs {
            if s.is_some() {
                v.push(format!("s{:?} {}", st.tries[*i].parent, at(*i)));
            }
        }
        let pending: Vec<_> = self.env.pending_ops().iter().map(|&i| self.env.ops.borrow()[i].name.clone()).collect();
        v.push(format!("{pending:?}"));
        v.join(";")
    }

    fn quiet(&self) {
        for i in self.env.pending_ops() {
            let name = self.env.ops.borrow()[i].name.clone();
            self.env.fail(&format!("stuck/{name}"), format!("{name} does not complete"));
        }
        let mut s = self.st.borrow_mut();
        let now = s.now();
        for i in 0..s.tries.len() {
            let dead = self.env.dead(s.tries[i].owner);
            let t = &mut s.tries[i];
            if dead || t.gone_from.is_some() {
                t.gone_from.get_or_insert(now);
                t.gone_by.get_or_insert(now);
            }
        }
        for c in 0..2 {
            for t in 0..2 {
                s.sure[c][t] = s.submitted[c][t].is_some() && !self.env.dead(c);
            }
        }
    }

    fn wind(&self) -> bool {
        // Objects first, then what is left of their services.
        (0..2).any(|c| self.drop_obj(c, true)) || (0..2).any(|c| self.drop_svc(c, true))
    }

    fn poke(&self, client: usize) {
        let (objs, svcs) = {
            let mut s = self.st.borrow_mut();
            let St { tries, objs, svcs, .. } = &mut *s;
            let mut o = vec![];
            for (i, x) in objs {
                if tries[*i].owner == client {
                    o.extend(x.take());
                }
            }
            let mut v = vec![];
            for (i, x) in svcs {
                if tries[*i].owner == client {
                    v.extend(x.take());
                }
            }
            (o, v)
        };
        for o in objs {
            self.env.op(client, "object operations on a stopped client", "poke", async move {
                let s = o.create_service(ServiceUuid(uuid::Uuid::from_u128(13)), ServiceInfo::new(1)).await.map(|_| 1);
                let d = o.destroy().await.map(|_| 1);
                format!("{s:?}{d:?}")
            });
        }
        for s in svcs {
            self.env.op(client, "service operations on a stopped client", "poke", async move {
                let d = s.destroy().await.map(|_| 1);
                let q = s.query_introspection().await.map(|_| ());
                let mut n = 0;
                if let Ok(mut s) = Rc::try_unwrap(s) {
                    while s.next_call().await.is_some() {
                        n += 1;
                    }
                }
                format!("{d:?}{q:?}{n}")
            });
        }
        if let Some(h) = self.env.handle(client) {
            self.env.op(client, "introspection of a stopped client", "poke", async move {
                let q = h.query_introspection(type_id(0)).await.map(|_| 1);
                let r = h.register_introspection::<u8>();
                let s = h.submit_introspection();
                let _ = (r, s);
                format!("{q:?}")
            });
        }
    }

    fn truth(&self, snapshot: &str) {
        let st = self.st.borrow();
        let snap = crate::snap::parse(snapshot).expect("harness: snapshot");
        let live = |svc: bool| {
            (0..st.tries.len()).filter(|&i| st.tries[i].parent.is_some() == svc && st.certain(i, &self.env)).count()
        };
        for (field, svc) in [("objs", false), ("svcs", true)] {
            if let Some(n) = crate::snap::field_len(&snap, field) {
                if n != live(svc) {
                    self.env.fail("broker-registry", format!("the broker has {n} {field}, the applications {}", live(svc)));
                }
            }
        }
    }
}
