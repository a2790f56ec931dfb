//! Discoverers, lifetimes, finding and waiting for objects.
//!
//! The last client only observes: its bus listener has every creation and destruction in the
//! broker's order. What a discoverer reports must be what it would have reported had it started at
//! some point of that history within the phase in which it was started.

use crate::explore::*;
use crate::sim::*;
use aldrin::low_level::{Service, ServiceInfo};
use aldrin::{Discoverer, Error, Lifetime, LifetimeId, Object};
use aldrin_core::{BusEvent, BusListenerFilter, BusListenerScope, ObjectId, ObjectUuid, ServiceId, ServiceUuid};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

/// A, B and lifetime scopes.
pub fn obj_uuid(i: usize) -> ObjectUuid {
    ObjectUuid(uuid::Uuid::from_u128(1000 + i as u128))
}

pub fn svc_uuid(i: usize) -> ServiceUuid {
    ServiceUuid(uuid::Uuid::from_u128(500 + i as u128))
}

/// Key, specific object, required services.
type Shape = (u8, Option<usize>, &'static [usize]);

const SHAPES: [Shape; 7] = [
    (0, Some(0), &[]),
    (1, Some(0), &[0]),
    (2, Some(0), &[0, 1]),
    (3, None, &[]),
    (4, None, &[0]),
    (5, None, &[0, 1]),
    (6, Some(1), &[1]),
];

/// Which entries a discoverer has.
const SETS: [&[usize]; 9] = [&[0], &[1], &[2], &[3], &[4], &[5], &[0, 1, 2, 3, 4, 5, 6], &[2, 4], &[0, 5, 6]];

#[derive(Clone, Default, Debug, PartialEq)]
pub struct ObjState {
    pub id: Option<ObjectId>,
    pub svcs: BTreeMap<ServiceUuid, ServiceId>,
}

pub type State = BTreeMap<ObjectUuid, ObjState>;

/// An object that matches an entry, with the services in the order of the entry.
type Match = (ObjectId, Vec<ServiceId>);

fn matches(state: &State, shape: &Shape) -> BTreeMap<ObjectUuid, Match> {
    let mut v = BTreeMap::new();
    for (u, o) in state {
        if shape.1.is_some_and(|i| obj_uuid(i) != *u) {
            continue;
        }
        let ids: Option<Vec<ServiceId>> = shape.2.iter().map(|&s| o.svcs.get(&svc_uuid(s)).copied()).collect();
        if let (Some(id), Some(ids)) = (o.id, ids) {
            v.insert(*u, (id, ids));
        }
    }
    v
}

/// The bus, from the beginning on.
#[derive(Default)]
pub struct History {
    pub events: Vec<BusEvent>,
    /// The state before the n-th event.
    pub states: Vec<State>,
}

impl History {
    fn new() -> Self {
        Self { events: vec![], states: vec![State::new()] }
    }

    fn now(&self) -> usize {
        self.events.len()
    }

    fn push(&mut self, ev: BusEvent) -> Result<(), String> {
        let mut s = self.states.last().unwrap().clone();
        match ev {
            BusEvent::ObjectCreated(id) => {
                if s.insert(id.uuid, ObjState { id: Some(id), svcs: Default::default() }).is_some() {
                    return Err(format!("{ev:?}, which exists already"));
                }
            }
            BusEvent::ObjectDestroyed(id) => match s.remove(&id.uuid) {
                Some(o) if o.id == Some(id) && o.svcs.is_empty() => {}
                x => return Err(format!("{ev:?}, but there was {x:?}")),
            },
            BusEvent::ServiceCreated(id) => {
                let ok = s.get_mut(&id.object_id.uuid).is_some_and(|o| {
                    o.id == Some(id.object_id) && o.svcs.insert(id.uuid, id).is_none()
                });
                if !ok {
                    return Err(format!("{ev:?} is out of order"));
                }
            }
            BusEvent::ServiceDestroyed(id) => {
                let ok = s.get_mut(&id.object_id.uuid).is_some_and(|o| {
                    o.id == Some(id.object_id) && o.svcs.remove(&id.uuid) == Some(id)
                });
                if !ok {
                    return Err(format!("{ev:?} is out of order"));
                }
            }
        }
        self.events.push(ev);
        self.states.push(s);
        Ok(())
    }

    /// What an entry reports from the n-th state on: initially (unordered) and later.
    fn expect(&self, shape: &Shape, start: usize, all: bool) -> (BTreeMap<ObjectUuid, Match>, Vec<(bool, ObjectId, Vec<ServiceId>)>) {
        let first = matches(&self.states[start], shape);
        let mut prev = first.clone();
        let mut log = vec![];
        if all {
            for s in &self.states[start + 1..] {
                let m = matches(s, shape);
                // One event changes one object only.
                for (u, x) in &prev {
                    if !m.contains_key(u) {
                        log.push((false, x.0, vec![]));
                    }
                }
                for (u, x) in &m {
                    if !prev.contains_key(u) {
                        log.push((true, x.0, x.1.clone()));
                    }
                }
                prev = m;
            }
        }
        (first, log)
    }
}

struct Svc {
    which: usize,
    id: ServiceId,
    svc: Option<Service>,
    gone: bool,
}

struct Obj {
    owner: usize,
    id: ObjectId,
    obj: Option<Rc<Object>>,
    /// Its destruction has been asked for.
    gone: bool,
    /// What asked for it has been given up, so it may exist after all.
    maybe: bool,
    asked: u32,
    destroyed: u32,
    svcs: Vec<Svc>,
}

struct Disc {
    client: usize,
    set: usize,
    d: Option<Discoverer<u8>>,
    all: bool,
    /// The start lies in this part of the history.
    lo: usize,
    hi: Option<usize>,
    /// By key: created or destroyed, id, services.
    log: BTreeMap<u8, Vec<(bool, ObjectId, Vec<ServiceId>)>>,
    ended: bool,
    /// Its operation has been given up.
    lost: bool,
}

struct Life {
    client: usize,
    id: ObjectId,
    l: Option<Lifetime>,
}

/// What find or wait came back with.
struct Found {
    client: usize,
    shape: usize,
    wait: bool,
    lo: usize,
    /// None while it is running.
    res: Option<Option<Match>>,
    phase: u32,
    op: usize,
    judged: bool,
}

#[derive(Default)]
struct St {
    hist: Option<History>,
    observer: Option<aldrin::BusListener>,
    objs: Vec<Obj>,
    discs: Vec<Disc>,
    lives: Vec<Life>,
    found: Vec<Found>,
    /// Refused creations: start and uuid.
    dups: Vec<(usize, ObjectUuid, Option<ServiceUuid>)>,
    busy: usize,
    phase: u32,
    /// The observer has been cut off.
    blind: bool,
}

impl St {
    fn now(&self) -> usize {
        self.hist.as_ref().map_or(0, History::now)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    New(usize, usize),
    Drop(usize),
    Destroy(usize),
    NewSvc(usize, usize),
    DropSvc(usize, usize),
    Disc(usize, usize),
    DiscCur(usize, usize),
    Restart,
    RestartCur,
    Next,
    DropDisc,
    Find(usize, usize),
    Wait(usize, usize),
    /// Bind the lifetime of the n-th object with this uuid, counted backwards.
    Bind(usize, usize, usize),
    BindNil,
    Ended,
    DropLife,
    Scope,
    EndScope,
    Cancel,
}

pub struct Bus {
    env: Rc<Env>,
    st: Rc<RefCell<St>>,
    ops: Vec<Op>,
    watch: usize,
    /// Bus listeners that somebody else looks after.
    pub extra: std::cell::Cell<usize>,
}

/// Sizes up to 8 select a set of entries, 10 lifetimes, 11 to 17 finding and waiting.
impl Bus {
    pub fn make(env: Rc<Env>, p: &Params) -> Box<dyn Area> {
        let watch = env.cl.borrow().len() - 1;
        let mut ops = vec![Op::New(0, 0), Op::Drop(0)];
        match p.size {
            10 => {
                ops.extend([Op::Destroy(0), Op::New(0, 1), Op::Bind(0, 0, 0), Op::Bind(1, 0, 0), Op::Bind(1, 0, 1), Op::BindNil]);
                ops.extend([Op::Ended, Op::DropLife, Op::Scope, Op::EndScope, Op::Bind(1, 2, 0)]);
            }
            n => {
                let shapes: Vec<Shape> = match n {
                    11..=17 => vec![SHAPES[n - 11]],
                    n => SETS[n].iter().map(|&s| SHAPES[s]).collect(),
                };
                let mut svcs: Vec<usize> = shapes.iter().flat_map(|s| s.2.iter().copied()).collect();
                svcs.sort();
                svcs.dedup();
                ops.push(if n == 0 || n == 3 || n == 11 { Op::New(0, 1) } else { Op::Destroy(0) });
                for &s in &svcs {
                    ops.extend([Op::NewSvc(0, s), Op::DropSvc(0, s)]);
                }
                if shapes.iter().any(|s| s.1 != Some(0)) {
                    ops.extend([Op::New(1, 1), Op::Drop(1)]);
                    for &s in &svcs {
                        ops.extend([Op::NewSvc(1, s), Op::DropSvc(1, s)]);
                    }
                }
                match n {
                    11..=17 => ops.extend([Op::Find(0, n - 11), Op::Find(1, n - 11), Op::Wait(0, n - 11), Op::Wait(1, n - 11)]),
                    n => ops.extend([Op::Disc(1, n), Op::DiscCur(1, n), Op::Restart, Op::RestartCur, Op::Next, Op::DropDisc]),
                }
            }
        }
        ops.push(Op::Cancel);
        Box::new(Self::with(env, ops, watch))
    }

    /// An area with other operations.
    pub fn with(env: Rc<Env>, ops: Vec<Op>, watch: usize) -> Self {
        let st: Rc<RefCell<St>> = Default::default();
        st.borrow_mut().hist = Some(History::new());
        let h = env.handle(watch).unwrap();
        let s = st.clone();
        env.op(watch, "observe", "never", async move {
            let mut l = h.create_bus_listener().await.unwrap();
            l.add_filter(BusListenerFilter::any_object()).unwrap();
            l.add_filter(BusListenerFilter::any_object_any_service()).unwrap();
            l.start(BusListenerScope::All).await.unwrap();
            s.borrow_mut().observer = Some(l);
            "Ok".into()
        });
        Self { env, st, ops, watch, extra: Default::default() }
    }

    pub fn now(&self) -> usize {
        self.st.borrow().now()
    }

    pub fn blind(&self) -> bool {
        self.st.borrow().blind
    }

    pub fn history(&self, f: impl FnOnce(Option<&History>) -> bool) -> bool {
        f(self.st.borrow().hist.as_ref())
    }

    /// Takes what the observer has seen.
    pub fn observe(&self) {
        let mut st = self.st.borrow_mut();
        let Some(mut l) = st.observer.take() else { return };
        loop {
            match l.poll_next_event(&mut Context::from_waker(Waker::noop())) {
                Poll::Ready(Some(ev)) => {
                    if let Err(e) = st.hist.as_mut().unwrap().push(ev) {
                        self.env.fail("history", format!("a bus listener reports {e}"));
                    }
                }
                Poll::Ready(None) => {
                    st.blind = true;
                    break;
                }
                Poll::Pending => break,
            }
        }
        if self.env.dead(self.watch) {
            st.blind = true;
        }
        st.observer = Some(l);
    }

    /// The newest object handle with this uuid.
    fn obj(&self, u: usize) -> Option<usize> {
        self.st.borrow().objs.iter().rposition(|o| o.id.uuid == obj_uuid(u) && o.obj.is_some())
    }

    fn new_obj(&self, u: usize, c: usize) -> bool {
        let n = self.st.borrow().objs.iter().filter(|o| o.obj.is_some() && o.id.uuid == obj_uuid(u)).count();
        if n + self.st.borrow().busy >= 2 || self.st.borrow().objs.len() >= 6 {
            return false;
        }
        let Some(h) = self.env.handle(c) else { return false };
        self.observe();
        self.st.borrow_mut().busy += 1;
        let g = Guard(self.st.clone(), |s| s.busy -= 1);
        let lo = self.st.borrow().now();
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, "create object", "never", async move {
            let r = h.create_object(obj_uuid(u)).await;
            drop(g);
            match r {
                Ok(o) => {
                    let id = o.id();
                    st.borrow_mut().objs.push(Obj { owner: c, id, obj: Some(Rc::new(o)), gone: false, maybe: false, asked: 0, destroyed: 0, svcs: vec![] });
                    "Ok".into()
                }
                Err(Error::DuplicateObject) => {
                    st.borrow_mut().dups.push((lo, obj_uuid(u), None));
                    "Duplicate".into()
                }
                Err(e) => {
                    if !(e == Error::Shutdown && env.dead(c)) {
                        env.fail("create", format!("creating an object failed with {e:?}"));
                    }
                    format!("Err({e:?})")
                }
            }
        });
        true
    }

    fn new_scope(&self) -> bool {
        if self.st.borrow().objs.iter().any(|o| o.id.uuid == obj_uuid(2)) || self.st.borrow().busy > 0 {
            return false;
        }
        self.new_obj(2, 0)
    }

    fn drop_obj(&self, u: usize) -> bool {
        let Some(i) = self.obj(u) else { return false };
        let o = {
            let mut st = self.st.borrow_mut();
            if Rc::strong_count(st.objs[i].obj.as_ref().unwrap()) > 1 {
                return false;
            }
            st.objs[i].gone = true;
            st.objs[i].maybe = false;
            st.objs[i].obj.take()
        };
        drop(o);
        true
    }

    fn destroy(&self, u: usize) -> bool {
        let Some(i) = self.obj(u) else { return false };
        let (o, owner, was) = {
            let mut st = self.st.borrow_mut();
            let x = &mut st.objs[i];
            x.asked += 1;
            (x.obj.clone().unwrap(), x.owner, std::mem::replace(&mut x.gone, true) && x.asked == 1)
        };
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(owner, "destroy object", format!("destroy {i}"), async move {
            let r = o.destroy().await;
            let mut s = st.borrow_mut();
            let x = &mut s.objs[i];
            match r {
                Ok(()) if !was && x.destroyed == 0 => x.destroyed += 1,
                Err(Error::InvalidObject) if was || x.asked > 1 => {}
                Err(Error::Shutdown) if env.dead(owner) => {}
                _ => env.fail("destroy", format!("destroying an object gave {r:?}")),
            }
            x.maybe = false;
            format!("{r:?}")
        });
        true
    }

    fn new_svc(&self, u: usize, w: usize) -> bool {
        let Some(i) = self.obj(u) else { return false };
        let (o, owner) = {
            let st = self.st.borrow();
            if st.objs[i].svcs.len() >= 3 || Rc::strong_count(st.objs[i].obj.as_ref().unwrap()) > 1 {
                return false;
            }
            (st.objs[i].obj.clone().unwrap(), st.objs[i].owner)
        };
        self.observe();
        let lo = self.st.borrow().now();
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(owner, "create service", "never", async move {
            let r = o.create_service(svc_uuid(w), ServiceInfo::new(1)).await;
            let mut s = st.borrow_mut();
            match r {
                Ok(x) => {
                    let id = x.id();
                    s.objs[i].svcs.push(Svc { which: w, id, svc: Some(x), gone: false });
                    "Ok".into()
                }
                Err(Error::DuplicateService) => {
                    s.dups.push((lo, obj_uuid(u), Some(svc_uuid(w))));
                    "Duplicate".into()
                }
                Err(e) => {
                    if !(e == Error::Shutdown && env.dead(owner) || e == Error::InvalidObject && s.objs[i].gone) {
                        env.fail("create", format!("creating a service failed with {e:?}"));
                    }
                    format!("Err({e:?})")
                }
            }
        });
        true
    }

    fn drop_svc(&self, u: usize, w: usize) -> bool {
        let s = {
            let mut st = self.st.borrow_mut();
            let Some(i) = st.objs.iter().rposition(|o| {
                o.id.uuid == obj_uuid(u) && o.svcs.iter().any(|s| s.which == w && s.svc.is_some())
            }) else {
                return false;
            };
            let s = st.objs[i].svcs.iter_mut().rfind(|s| s.which == w && s.svc.is_some()).unwrap();
            s.gone = true;
            s.svc.take()
        };
        drop(s);
        true
    }

    fn disc(&self, c: usize, set: usize, all: bool) -> bool {
        if self.st.borrow().discs.iter().any(|d| d.d.is_some() || d.hi.is_none() && !d.lost) {
            return false;
        }
        let Some(h) = self.env.handle(c) else { return false };
        self.observe();
        let n = {
            let mut st = self.st.borrow_mut();
            let lo = st.now();
            st.discs.push(Disc {
                client: c,
                set,
                d: None,
                all,
                lo,
                hi: None,
                log: Default::default(),
                ended: false,
                lost: false,
            });
            st.discs.len() - 1
        };
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, "discoverer", format!("disc {n}"), async move {
            let mut b = Discoverer::builder(&h);
            for &s in SETS[set] {
                let (k, o, v) = SHAPES[s];
                b = b.add(k, o.map(obj_uuid), v.iter().map(|&i| svc_uuid(i)));
            }
            let r = if all { b.build().await } else { b.build_current_only().await };
            match r {
                Ok(d) => {
                    st.borrow_mut().discs[n].d = Some(d);
                    "Ok".into()
                }
                Err(e) => {
                    st.borrow_mut().discs[n].lost = true;
                    if !(e == Error::Shutdown && env.dead(c)) {
                        env.fail("discoverer", format!("creating a discoverer failed with {e:?}"));
                    }
                    format!("Err({e:?})")
                }
            }
        });
        true
    }

    fn with_disc(&self) -> Option<usize> {
        self.st.borrow().discs.iter().position(|d| d.d.is_some())
    }

    fn restart(&self, all: bool) -> bool {
        let Some(n) = self.with_disc() else { return false };
        self.observe();
        let (mut d, c) = {
            let mut st = self.st.borrow_mut();
            let lo = st.now();
            let x = &mut st.discs[n];
            x.lo = lo;
            x.hi = None;
            x.all = all;
            x.log.clear();
            (x.d.take().unwrap(), x.client)
        };
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, "restart", format!("disc {n}"), async move {
            let r = if all { d.restart().await } else { d.restart_current_only().await };
            match &r {
                Ok(()) => {}
                Err(Error::Shutdown) if env.dead(c) => {}
                Err(e) => env.fail("restart", format!("restarting a discoverer failed with {e:?}")),
            }
            st.borrow_mut().discs[n].d = Some(d);
            format!("{r:?}")
        });
        true
    }

    fn took(env: &Env, x: &mut Disc, d: &Discoverer<u8>, ev: aldrin::DiscovererEvent<u8>) {
        let shape = &SHAPES[ev.key() as usize];
        if !SETS[x.set].contains(&(ev.key() as usize)) {
            env.fail("discoverer", format!("an event for entry {}", ev.key()));
            return;
        }
        let ids: Vec<ServiceId> = if ev.is_created() {
            let want: Vec<ServiceUuid> = shape.2.iter().map(|&i| svc_uuid(i)).collect();
            let v = ev.service_ids(d, want.clone());
            let one: Vec<ServiceId> = want.iter().map(|&s| ev.service_id(d, s)).collect();
            if v != one {
                env.fail("discoverer", format!("service_ids() {v:?}, service_id() {one:?}"));
            }
            v
        } else {
            vec![]
        };
        x.log.entry(ev.key()).or_default().push((ev.is_created(), ev.object_id(), ids));
    }

    fn next(&self) -> bool {
        let Some(n) = self.with_disc() else { return false };
        let (mut d, c) = {
            let mut st = self.st.borrow_mut();
            let x = &mut st.discs[n];
            (x.d.take().unwrap(), x.client)
        };
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, "next discoverer event", format!("next {n}"), async move {
            let r = d.next_event().await;
            let mut s = st.borrow_mut();
            let x = &mut s.discs[n];
            let t = match r {
                Some(ev) => {
                    Self::took(&env, x, &d, ev);
                    "Some"
                }
                None => {
                    x.ended = x.all;
                    if x.all && !env.dead(c) {
                        env.fail("discoverer", "the events ended".into());
                    }
                    "None"
                }
            };
            x.d = Some(d);
            t.into()
        });
        true
    }

    fn drop_disc(&self) -> bool {
        let Some(n) = self.with_disc() else { return false };
        let d = {
            let mut st = self.st.borrow_mut();
            st.discs[n].lost = true;
            st.discs[n].d.take()
        };
        drop(d);
        true
    }

    fn find(&self, c: usize, shape: usize, wait: bool) -> bool {
        let running = self.st.borrow().found.iter().filter(|f| f.res.is_none() && !f.judged).count();
        if running >= 2 {
            return false;
        }
        let Some(h) = self.env.handle(c) else { return false };
        self.observe();
        let n = self.st.borrow().found.len();
        let (env, st) = (self.env.clone(), self.st.clone());
        let name = if wait { "wait for object" } else { "find object" };
        let f = Found {
            client: c,
            shape,
            wait,
            lo: self.st.borrow().now(),
            res: None,
            phase: self.st.borrow().phase,
            op: 0,
            judged: false,
        };
        self.st.borrow_mut().found.push(f);
        let op = self.env.op(c, name, format!("found {n}"), async move {
            let (_, o, v) = SHAPES[shape];
            let v: Vec<ServiceUuid> = v.iter().map(|&i| svc_uuid(i)).collect();
            // The three families of methods, by turns.
            let r = match (wait, o, v.len()) {
                (false, Some(o), 0) => h.find_bare_object(obj_uuid(o)).await.map(|x| x.map(|i| (i, vec![]))),
                (false, Some(o), 1) => {
                    h.find_object_with_services_n(obj_uuid(o), &[v[0]]).await.map(|x| x.map(|i| (i.0, i.1.to_vec())))
                }
                (false, Some(o), _) => h.find_object_with_services(obj_uuid(o), v).await,
                (false, None, 1) => h.find_any_object_with_services_n(&[v[0]]).await.map(|x| x.map(|i| (i.0, i.1.to_vec()))),
                (false, None, _) => h.find_any_object_with_services(v).await,
                (true, Some(o), 0) => h.wait_for_bare_object(obj_uuid(o)).await.map(|i| Some((i, vec![]))),
                (true, Some(o), 1) => {
                    h.wait_for_object_with_services_n(obj_uuid(o), &[v[0]]).await.map(|i| Some((i.0, i.1.to_vec())))
                }
                (true, Some(o), _) => h.wait_for_object_with_services(obj_uuid(o), v).await.map(Some),
                (true, None, 1) => h.wait_for_any_object_with_services_n(&[v[0]]).await.map(|i| Some((i.0, i.1.to_vec()))),
                (true, None, _) => h.wait_for_any_object_with_services(v).await.map(Some),
            };
            let mut s = st.borrow_mut();
            match r {
                Ok(m) => {
                    let t = if m.is_some() { "Some" } else { "None" };
                    s.found[n].res = Some(m);
                    t.into()
                }
                Err(e) => {
                    s.found[n].judged = true;
                    if !(e == Error::Shutdown && env.dead(c)) {
                        env.fail(name, format!("{name} failed with {e:?}"));
                    }
                    format!("Err({e:?})")
                }
            }
        });
        self.st.borrow_mut().found[n].op = op;
        true
    }

    fn bind(&self, c: usize, id: ObjectId) -> bool {
        let st = self.st.borrow();
        if st.lives.len() >= 2 {
            return false;
        }
        drop(st);
        let Some(h) = self.env.handle(c) else { return false };
        let n = self.st.borrow().lives.len();
        self.st.borrow_mut().lives.push(Life { client: c, id, l: None });
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, "bind lifetime", format!("bind {n}"), async move {
            match LifetimeId(id).bind(&h).await {
                Ok(l) => {
                    st.borrow_mut().lives[n].l = Some(l);
                    "Ok".into()
                }
                Err(e) => {
                    if !(e == Error::Shutdown && env.dead(c)) {
                        env.fail("bind", format!("binding a lifetime failed with {e:?}"));
                    }
                    format!("Err({e:?})")
                }
            }
        });
        true
    }

    /// Whether the object may have ended by now.
    fn over(env: &Env, st: &St, id: ObjectId) -> bool {
        st.objs.iter().find(|o| o.id == id).is_none_or(|o| o.gone || env.dead(o.owner))
    }

    fn ended(&self) -> bool {
        let n = self.st.borrow().lives.iter().position(|l| l.l.is_some());
        let Some(n) = n else { return false };
        let (mut l, c, id) = {
            let mut st = self.st.borrow_mut();
            let x = &mut st.lives[n];
            (x.l.take().unwrap(), x.client, x.id)
        };
        let (env, st) = (self.env.clone(), self.st.clone());
        self.env.op(c, "lifetime ended", format!("ended {n}"), async move {
            l.ended().await;
            let over = Self::over(&env, &st.borrow(), id) || env.dead(c);
            if !over {
                env.fail("lifetime", format!("the lifetime {id:?} has ended although its scope is alive"));
            }
            if !l.has_ended() {
                env.fail("lifetime", "has_ended() after the end is false".into());
            }
            // Again.
            l.ended().await;
            "Ok".into()
        });
        true
    }

    /// Finds out what has become of destructions that have been given up.
    fn resolve(&self) {
        let mut st = self.st.borrow_mut();
        if st.blind {
            return;
        }
        let St { hist, objs, .. } = &mut *st;
        let now = hist.as_ref().unwrap().states.last().unwrap();
        for o in objs {
            if o.maybe {
                o.gone = now.get(&o.id.uuid).and_then(|x| x.id) != Some(o.id);
                o.maybe = false;
                o.asked = o.gone as u32;
                o.destroyed = o.gone as u32;
            }
        }
    }

    /// Consumes all events of idle discoverers.
    fn drain(&self) {
        let mut st = self.st.borrow_mut();
        for n in 0..st.discs.len() {
            let Some(mut d) = st.discs[n].d.take() else { continue };
            let client = st.discs[n].client;
            let x = &mut st.discs[n];
            loop {
                match d.poll_next_event(&mut Context::from_waker(Waker::noop())) {
                    Poll::Ready(Some(ev)) => Self::took(&self.env, x, &d, ev),
                    Poll::Ready(None) => {
                        if x.all && !self.env.dead(client) {
                            self.env.fail("discoverer", "the events ended".into());
                        }
                        if !d.is_finished() && !self.env.dead(client) {
                            self.env.fail("discoverer", "is_finished() is false after the last event".into());
                        }
                        break;
                    }
                    Poll::Pending => {
                        if !x.all {
                            self.env.fail("discoverer", "a discoverer of current objects does not finish".into());
                        }
                        break;
                    }
                }
            }
            x.d = Some(d);
        }
        for n in 0..st.lives.len() {
            let Some(mut l) = st.lives[n].l.take() else { continue };
            let id = st.lives[n].id;
            let done = l.poll_ended(&mut Context::from_waker(Waker::noop())).is_ready();
            let client = st.lives[n].client;
            if !self.env.dead(client) {
                let over = Self::over(&self.env, &st, id);
                if done != over {
                    self.env.fail("lifetime", format!("lifetime of {id:?}: ended is {done}, its scope's end {over}"));
                }
            }
            if done != l.has_ended() {
                self.env.fail("lifetime", format!("has_ended() is {}", !done));
            }
            st.lives[n].l = Some(l);
        }
    }

    /// Whether the log is what some start would have given, and the state behind it.
    fn judge_disc(&self, st: &St, n: usize, idle: bool) -> bool {
        let h = st.hist.as_ref().unwrap();
        let x = &st.discs[n];
        let hi = x.hi.unwrap_or(h.now());
        let mut why = String::new();
        for s in x.lo..=hi {
            let mut ok = true;
            for &i in SETS[x.set] {
                let shape = &SHAPES[i];
                let (first, rest) = h.expect(shape, s, x.all);
                let empty = vec![];
                let log = x.log.get(&shape.0).unwrap_or(&empty);
                let k = first.len();
                // A discoverer with a pending next_event() may be about to take more.
                let mut init: BTreeMap<ObjectUuid, Match> = Default::default();
                for e in log.iter().take(k) {
                    if e.0 {
                        init.insert(e.1.uuid, (e.1, e.2.clone()));
                    }
                }
                ok &= log.len() == k + rest.len() && init == first && log[k..] == rest[..];
                if !ok {
                    why = format!("entry {}: {log:?}, but from state {s} on {first:?} and then {rest:?}", shape.0);
                    break;
                }
            }
            if ok {
                return true;
            }
        }
        self.env.fail(
            "discoverer",
            format!("{why}\nhistory {:?}, start in {}..={hi}{}", h.events, x.lo, if idle { "" } else { ", waiting" }),
        );
        false
    }

    fn judge_view(&self, st: &St, n: usize) {
        let x = &st.discs[n];
        let d = x.d.as_ref().unwrap();
        // What follows from the log.
        for &i in SETS[x.set] {
            let shape = &SHAPES[i];
            let mut cur: BTreeMap<ObjectUuid, Match> = Default::default();
            for e in x.log.get(&shape.0).into_iter().flatten() {
                if e.0 {
                    cur.insert(e.1.uuid, (e.1, e.2.clone()));
                } else {
                    cur.remove(&e.1.uuid);
                }
            }
            let want: Vec<ServiceUuid> = shape.2.iter().map(|&s| svc_uuid(s)).collect();
            let view: BTreeMap<ObjectUuid, Match> = d
                .entry_iter(shape.0)
                .map(|e| {
                    // Entries without services have no services to ask for.
                    let ids = if want.is_empty() { vec![] } else { e.service_ids(want.clone()) };
                    (e.object_id().uuid, (e.object_id(), ids))
                })
                .collect();
            let mut bad = view != cur || d.contains_any(shape.0) == cur.is_empty();
            let objs: Vec<usize> = match shape.1 {
                Some(o) => vec![o],
                None => vec![0, 1],
            };
            for o in objs {
                let u = obj_uuid(o);
                bad |= d.contains(shape.0, u) != cur.contains_key(&u);
                bad |= d.object_id(shape.0, u) != cur.get(&u).map(|m| m.0);
                if !want.is_empty() {
                    bad |= d.service_ids(shape.0, u, want.clone()) != cur.get(&u).map(|m| m.1.clone());
                    for (k, &w) in want.iter().enumerate() {
                        bad |= d.service_id(shape.0, u, w) != cur.get(&u).map(|m| m.1[k]);
                    }
                }
            }
            if bad {
                self.env.fail("discoverer-view", format!("entry {} shows {view:?} after {:?}", shape.0, x.log.get(&shape.0)));
            }
        }
    }

    fn give_up(&self, id: usize) {
        {
            let mut st = self.st.borrow_mut();
            let tag = self.env.ops.borrow()[id].tag.clone();
            let mut w = tag.split(' ');
            let (what, num) = (w.next().unwrap_or("").to_string(), w.next().and_then(|n| n.parse::<usize>().ok()));
            match (what.as_str(), num) {
                ("disc" | "next", Some(n)) => st.discs[n].lost = true,
                ("found", Some(n)) => st.found[n].judged = true,
                ("destroy", Some(n)) => st.objs[n].maybe = true,
                _ => {}
            }
        }
        self.env.cancel(id);
    }
}

struct Guard(Rc<RefCell<St>>, fn(&mut St));

impl Drop for Guard {
    fn drop(&mut self) {
        self.1(&mut self.0.borrow_mut());
    }
}

impl Area for Bus {
    fn names(&self) -> Vec<String> {
        self.ops.iter().map(|o| format!("{o:?}")).collect()
    }

    fn issue(&self, op: usize) -> bool {
        let nth = |u: usize, back: usize| {
            let st = self.st.borrow();
            st.objs.iter().rev().filter(|o| o.id.uuid == obj_uuid(u)).nth(back).map(|o| o.id)
        };
        match self.ops[op] {
            Op::New(u, c) => self.new_obj(u, c),
            Op::Drop(u) => self.drop_obj(u),
            Op::Destroy(u) => self.destroy(u),
            Op::NewSvc(u, w) => self.new_svc(u, w),
            Op::DropSvc(u, w) => self.drop_svc(u, w),
            Op::Disc(c, s) => self.disc(c, s, true),
            Op::DiscCur(c, s) => self.disc(c, s, false),
            Op::Restart => self.restart(true),
            Op::RestartCur => self.restart(false),
            Op::Next => self.next(),
            Op::DropDisc => self.drop_disc(),
            Op::Find(c, s) => self.find(c, s, false),
            Op::Wait(c, s) => self.find(c, s, true),
            Op::Bind(c, u, back) => match nth(u, back) {
                Some(id) => self.bind(c, id),
                None => false,
            },
            Op::BindNil => self.bind(0, ObjectId::NIL),
            Op::Ended => self.ended(),
            Op::DropLife => {
                let l = {
                    let mut st = self.st.borrow_mut();
                    match st.lives.iter_mut().find(|l| l.l.is_some()) {
                        Some(x) => x.l.take(),
                        None => return false,
                    }
                };
                drop(l);
                true
            }
            Op::Scope => self.new_scope(),
            Op::EndScope => self.destroy(2),
            Op::Cancel => {
                let Some(id) = self.env.last_pending() else { return false };
                self.give_up(id);
                true
            }
        }
    }

    fn sig(&self) -> String {
        let st = self.st.borrow();
        let mut v = vec![];
        for o in &st.objs {
            if o.obj.is_none() && !st.lives.iter().any(|l| l.id == o.id) {
                continue;
            }
            v.push(format!(
                "o{:?}@{} {} {}{:?}",
                o.id.uuid,
                o.owner,
                o.obj.is_some(),
                o.gone,
                o.svcs.iter().filter(|s| s.svc.is_some()).map(|s| (s.which, s.gone)).collect::<Vec<_>>()
            ));
        }
        for d in &st.discs {
            if d.d.is_some() || !d.lost {
                v.push(format!("d{} {} {} {:?}", d.d.is_some(), d.all, d.ended, d.log.keys()));
                if let Some(x) = &d.d {
                    v.push(format!("{:?}", x.iter().map(|e| (e.key(), e.object_id().uuid)).collect::<std::collections::BTreeSet<_>>()));
                }
            }
        }
        for l in &st.lives {
            let which = st.objs.iter().position(|o| o.id == l.id);
            v.push(format!("l{} {which:?} {:?}", l.client, l.l.as_ref().map(|l| l.has_ended())));
        }
        v.push(format!("{} {}", st.objs.len().min(4), st.busy));
        v.push(format!(
            "{:?}",
            self.env
                .pending_ops()
                .iter()
                .map(|&i| (self.env.ops.borrow()[i].name.clone(), self.env.ops.borrow()[i].client))
                .collect::<Vec<_>>()
        ));
        v.join(";")
    }

    fn quiet(&self) {
        self.observe();
        self.resolve();
        self.drain();
        let mut st = self.st.borrow_mut();
        let blind = st.blind;
        let now = st.now();
        for d in &mut st.discs {
            d.hi.get_or_insert(now);
        }
        if !blind {
            // The bus is what the applications made it.
            let mut want = State::new();
            for o in &st.objs {
                if !o.gone && !self.env.dead(o.owner) {
                    let x = ObjState {
                        id: Some(o.id),
                        svcs: o.svcs.iter().filter(|s| !s.gone).map(|s| (s.id.uuid, s.id)).collect(),
                    };
                    if want.insert(o.id.uuid, x).is_some() {
                        self.env.fail("create", format!("two objects {:?} exist", o.id.uuid));
                    }
                }
            }
            let h = st.hist.as_ref().unwrap();
            if h.states[now] != want {
                self.env.fail("observer", format!("a bus listener reports {:?}, but there is {want:?}", h.states[now]));
            }
            for (lo, u, s) in &st.dups {
                let any = h.states[*lo..].iter().any(|x| match (x.get(u), s) {
                    (Some(_), None) => true,
                    (Some(o), Some(s)) => o.svcs.contains_key(s),
                    _ => false,
                });
                if !any {
                    self.env.fail("create", format!("creating {u:?} {s:?} was refused as a duplicate"));
                }
            }
            st.dups.clear();
            for n in 0..st.discs.len() {
                let x = &st.discs[n];
                if x.lost || self.env.dead(x.client) {
                    continue;
                }
                if !self.judge_disc(&st, n, x.d.is_some()) {
                    break;
                }
                if st.discs[n].d.is_some() {
                    self.judge_view(&st, n);
                }
            }
            for n in 0..st.found.len() {
                let f = &st.found[n];
                if f.judged {
                    continue;
                }
                let h = st.hist.as_ref().unwrap();
                let shape = &SHAPES[f.shape];
                let Some(res) = &f.res else { continue };
                let ok = h.states[f.lo..].iter().any(|s| match res {
                    Some(m) => matches(s, shape).values().any(|x| x == m),
                    None => matches(s, shape).is_empty(),
                });
                if !ok {
                    self.env.fail("find", format!("{shape:?}: {res:?} is wrong at any time; {:?}", h.events));
                }
                st.found[n].judged = true;
            }
        }
        let phase = st.phase;
        for i in self.env.pending_ops() {
            let ops = self.env.ops.borrow();
            let o = &ops[i];
            let mut w = o.tag.split(' ');
            let (what, num) = (w.next().unwrap_or(""), w.next().and_then(|n| n.parse::<usize>().ok()));
            if what == "listen" {
                continue;
            }
            let legit = !self.env.dead(o.client)
                && match (what, num) {
                    // The log has been judged to be complete.
                    ("next", Some(n)) => st.discs[n].all,
                    ("found", Some(n)) => {
                        let f = &st.found[n];
                        let h = st.hist.as_ref().unwrap();
                        let cur = !blind && !matches(&h.states[now], &SHAPES[f.shape]).is_empty();
                        let later = !blind
                            && f.phase < phase
                            && h.states[st.found[n].lo..].iter().any(|s| !matches(s, &SHAPES[f.shape]).is_empty());
                        f.wait && !cur && !later
                    }
                    ("ended", Some(n)) => !Self::over(&self.env, &st, st.lives[n].id),
                    _ => false,
                };
            if !legit {
                let name = o.name.clone();
                drop(ops);
                self.env.fail(&format!("stuck/{name}"), format!("{name} does not complete"));
            }
        }
        // From now on a waiting operation listens for sure.
        for f in &mut st.found {
            if f.res.is_none() && f.phase == phase {
                f.lo = now;
            }
        }
        st.phase += 1;
    }

    fn wind(&self) -> bool {
        if self.drop_disc() {
            return true;
        }
        let wait = self.env.pending_ops().into_iter().find(|&i| {
            matches!(self.env.ops.borrow()[i].name.as_str(), "next discoverer event" | "wait for object")
        });
        if let Some(id) = wait {
            self.give_up(id);
            return true;
        }
        for u in 0..3 {
            if self.drop_obj(u) {
                return true;
            }
        }
        let n = self.st.borrow().objs.len();
        for i in 0..n {
            let v: Vec<Svc> = std::mem::take(&mut self.st.borrow_mut().objs[i].svcs);
            if !v.is_empty() {
                drop(v);
                return true;
            }
        }
        let l = self.st.borrow_mut().lives.iter_mut().find(|l| l.l.is_some()).and_then(|l| l.l.take());
        if let Some(l) = l {
            drop(l);
            return true;
        }
        let o = {
            let mut st = self.st.borrow_mut();
            st.blind = true;
            st.observer.take()
        };
        o.is_some()
    }

    fn poke(&self, client: usize) {
        let n = self.with_disc().filter(|&n| self.st.borrow().discs[n].client == client);
        if let Some(n) = n {
            let mut d = self.st.borrow_mut().discs[n].d.take().unwrap();
            self.st.borrow_mut().discs[n].lost = true;
            self.env.op(client, "discoverer operations on a stopped client", "poke", async move {
                while d.next_event().await.is_some() {}
                d.wait_finished().await;
                let a = d.restart().await.map(|_| 1);
                let b = d.restart_current_only().await.map(|_| 1);
                format!("{a:?}{b:?}")
            });
        }
        let lives: Vec<Lifetime> = {
            let mut st = self.st.borrow_mut();
            st.lives.iter_mut().filter(|l| l.client == client).filter_map(|l| l.l.take()).collect()
        };
        for mut l in lives {
            self.env.op(client, "lifetime on a stopped client", "poke", async move {
                l.ended().await;
                String::new()
            });
        }
        let objs: Vec<Rc<Object>> = {
            let st = self.st.borrow();
            st.objs.iter().filter(|o| o.owner == client).filter_map(|o| o.obj.clone()).collect()
        };
        for o in objs {
            self.env.op(client, "object operations on a stopped client", "poke", async move {
                let a = o.create_service(svc_uuid(7), ServiceInfo::new(1)).await.map(|_| 1);
                let b = o.destroy().await.map(|_| 1);
                format!("{a:?}{b:?}")
            });
        }
        let Some(h) = self.env.handle(client) else { return };
        self.env.op(client, "looking for objects on a stopped client", "poke", async move {
            let a = h.find_bare_object(obj_uuid(0)).await.map(|_| 1);
            let b = h.wait_for_bare_object(obj_uuid(0)).await.map(|_| 1);
            let c = h.create_bus_listener().await.map(|_| 1);
            let d = LifetimeId::NIL.bind(&h).await.map(|_| 1);
            let e = Discoverer::builder(&h).bare_object(1u8, obj_uuid(0)).build().await.map(|_| 1);
            let f = Discoverer::<u8>::builder(&h).build().await.map(|_| 1);
            format!("{a:?}{b:?}{c:?}{d:?}{e:?}{f:?}")
        });
    }

    fn truth(&self, snapshot: &str) {
        let st = self.st.borrow();
        let snap = crate::snap::parse(snapshot).expect("harness: snapshot");
        if st.busy > 0 {
            return;
        }
        let live: Vec<&Obj> = st.objs.iter().filter(|o| !o.gone && !self.env.dead(o.owner)).collect();
        let svcs: usize = live.iter().map(|o| o.svcs.iter().filter(|s| !s.gone).count()).sum();
        for (f, want) in [("obj_uuids", live.len()), ("objs", live.len()), ("svcs", svcs), ("svc_uuids", svcs)] {
            if let Some(n) = crate::snap::field_len(&snap, f) {
                if n != want {
                    self.env.fail("broker-truth", format!("the broker has {n} {f}, the applications {want}"));
                }
            }
        }
        // Lost listeners are not kept.
        let pending = self.env.pending_ops().len();
        let max = 1 + st.discs.iter().filter(|d| d.d.is_some()).count() + st.lives.iter().filter(|l| l.l.is_some()).count() + pending + self.extra.get();
        if let Some(n) = crate::snap::field_len(&snap, "bus_listeners") {
            if n > max {
                self.env.fail("broker-listeners", format!("the broker has {n} bus listeners, the applications {max}"));
            }
        }
    }
}
