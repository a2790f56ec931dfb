//! Bus listeners: filters, scopes, starting and stopping, over a changing bus.
//!
//! The last client observes the bus. What a listener reports must be what the history gives for
//! some placement of its requests within it: each request takes effect between the moment it was
//! issued and the next moment of rest, all of them in order, and a filter takes effect at the
//! client before (or when) it does at the broker.

use crate::bus::*;
use crate::explore::*;
use crate::sim::*;
use aldrin::{BusListener, Error};
use aldrin_core::{BusEvent, BusListenerFilter, BusListenerScope, ObjectId, ObjectUuid, ServiceId, ServiceUuid};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashSet};
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

const SCOPES: [BusListenerScope; 3] = [BusListenerScope::All, BusListenerScope::New, BusListenerScope::Current];

fn filter(f: usize) -> BusListenerFilter {
    match f {
        0 => BusListenerFilter::any_object(),
        1 => BusListenerFilter::any_object_any_service(),
        2 => BusListenerFilter::object(obj_uuid(0)),
        3 => BusListenerFilter::specific_object_any_service(obj_uuid(0)),
        4 => BusListenerFilter::any_object_specific_service(svc_uuid(0)),
        5 => BusListenerFilter::specific_object_and_service(obj_uuid(0), svc_uuid(0)),
        6 => BusListenerFilter::object(obj_uuid(1)),
        7 => BusListenerFilter::specific_object_and_service(obj_uuid(1), svc_uuid(1)),
        _ => unreachable!(),
    }
}

/// What the documentation says a filter means.
fn object_matches(f: usize, o: ObjectUuid) -> bool {
    match f {
        0 => true,
        2 => o == obj_uuid(0),
        6 => o == obj_uuid(1),
        _ => false,
    }
}

fn service_matches(f: usize, o: ObjectUuid, s: ServiceUuid) -> bool {
    match f {
        1 => true,
        3 => o == obj_uuid(0),
        4 => s == svc_uuid(0),
        5 => o == obj_uuid(0) && s == svc_uuid(0),
        7 => o == obj_uuid(1) && s == svc_uuid(1),
        _ => false,
    }
}

fn event_matches(fs: &BTreeSet<usize>, ev: &BusEvent) -> bool {
    fs.iter().any(|&f| match ev {
        BusEvent::ObjectCreated(id) | BusEvent::ObjectDestroyed(id) => object_matches(f, id.uuid),
        BusEvent::ServiceCreated(id) | BusEvent::ServiceDestroyed(id) => service_matches(f, id.object_id.uuid, id.uuid),
    })
}

fn current(state: &State, fs: &BTreeSet<usize>) -> Vec<BusEvent> {
    let mut v = vec![];
    for (u, o) in state {
        let id: ObjectId = o.id.unwrap();
        if fs.iter().any(|&f| object_matches(f, *u)) {
            v.push(BusEvent::ObjectCreated(id));
        }
        for (s, sid) in &o.svcs {
            let sid: ServiceId = *sid;
            if fs.iter().any(|&f| service_matches(f, *u, *s)) {
                v.push(BusEvent::ServiceCreated(sid));
            }
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Req {
    Add(usize),
    Rem(usize),
    Clear,
    Start(BusListenerScope),
    Stop,
    Destroy,
}

/// The broker's view of a listener.
#[derive(Clone, Debug, PartialEq)]
struct View {
    filters: BTreeSet<usize>,
    scope: Option<BusListenerScope>,
    alive: bool,
}

impl View {
    fn new_events(&self) -> bool {
        self.alive && self.scope.is_some_and(|s| s != BusListenerScope::Current)
    }

    fn apply(&mut self, r: Req) -> Option<Error> {
        match r {
            Req::Add(f) => {
                if self.alive {
                    self.filters.insert(f);
                }
            }
            Req::Rem(f) => {
                self.filters.remove(&f);
            }
            Req::Clear => self.filters.clear(),
            _ if !self.alive => return Some(Error::InvalidBusListener),
            Req::Start(s) => {
                if self.scope.is_some() {
                    return Some(Error::BusListenerAlreadyStarted);
                }
                self.scope = Some(s);
            }
            Req::Stop => {
                if self.scope.is_none() {
                    return Some(Error::BusListenerNotStarted);
                }
                self.scope = None;
            }
            Req::Destroy => {
                self.alive = false;
                self.scope = None;
            }
        }
        None
    }
}

struct Request {
    req: Req,
    lo: usize,
    hi: Option<usize>,
    /// Events up to here had been delivered when it was issued.
    rest: usize,
    /// Before it.
    view: View,
    effect: bool,
    sent: Rc<Cell<bool>>,
    cancelled: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Event(BusEvent),
    /// There was no further event; all of these requests had been answered.
    End(usize),
}

struct Lst {
    client: usize,
    l: Option<BusListener>,
    made: bool,
    dropped: bool,
    /// What the application believes.
    filters: BTreeSet<usize>,
    /// The broker's view after the last request.
    view: View,
    base: View,
    base_h: usize,
    reqs: Vec<Request>,
    log: Vec<Seen>,
    /// Destroyed, and the application knows it: what has been queued may or may not come.
    loose: bool,
    /// All requests that count have been answered.
    waiting: bool,
}

#[derive(Default)]
struct Ls {
    v: Vec<Lst>,
}

/// The listener while an operation uses it.
struct Held(Rc<RefCell<Ls>>, usize, Option<BusListener>);

impl Drop for Held {
    fn drop(&mut self) {
        let mut s = self.0.borrow_mut();
        s.v[self.1].l = self.2.take();
        s.v[self.1].waiting = false;
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Bus(usize),
    LNew(usize),
    LAdd(usize, usize),
    LRem(usize, usize),
    LClear(usize),
    LStart(usize, usize),
    LStop(usize),
    LNext(usize),
    LDestroy(usize),
    LDrop(usize),
    LCancel,
}

pub struct Listeners {
    bus: Bus,
    names: Vec<String>,
    env: Rc<Env>,
    ls: Rc<RefCell<Ls>>,
    ops: Vec<Op>,
    watch: usize,
    owner: usize,
    max: usize,
    /// Events are consumed whenever the system is at rest.
    drains: bool,
    /// The length of the history at the last moment of rest.
    rest: Cell<usize>,
}

/// Sizes: which filters and objects; from 10 on queues are left alone.
impl Listeners {
    pub fn make(env: Rc<Env>, p: &Params) -> Box<dyn Area> {
        use crate::bus::Op as B;
        let watch = env.cl.borrow().len() - 1;
        let (fs, bus, owner, max): (&[usize], Vec<B>, usize, usize) = match p.size % 10 {
            0 => (&[0, 1], vec![B::New(0, 0), B::Drop(0), B::NewSvc(0, 0), B::DropSvc(0, 0)], 1, 1),
            1 => (&[2, 3], vec![B::New(0, 0), B::Drop(0), B::NewSvc(0, 0), B::New(1, 0), B::Drop(1), B::NewSvc(1, 0)], 1, 1),
            2 => (
                &[4, 5],
                vec![B::New(0, 0), B::Drop(0), B::NewSvc(0, 0), B::DropSvc(0, 0), B::NewSvc(0, 1), B::New(1, 0), B::NewSvc(1, 0), B::Drop(1)],
                1,
                1,
            ),
            3 => (&[0, 2], vec![B::New(0, 0), B::Drop(0), B::New(1, 0), B::Drop(1)], 1, 2),
            4 => (&[0, 1], vec![B::New(0, 0), B::Drop(0), B::NewSvc(0, 0), B::DropSvc(0, 0)], 0, 1),
            5 => (
                &[2, 6, 5, 7],
                vec![B::New(0, 0), B::NewSvc(0, 0), B::NewSvc(0, 1), B::Drop(0), B::New(1, 0), B::NewSvc(1, 0), B::NewSvc(1, 1), B::Drop(1)],
                1,
                1,
            ),
            _ => unreachable!(),
        };
        let mut ops: Vec<Op> = (0..bus.len()).map(Op::Bus).collect();
        for n in 0..max {
            ops.push(Op::LNew(n));
            for &f in fs {
                ops.extend([Op::LAdd(n, f), Op::LRem(n, f)]);
            }
            ops.push(Op::LClear(n));
            for s in 0..3 {
                ops.push(Op::LStart(n, s));
            }
            ops.extend([Op::LStop(n), Op::LNext(n), Op::LDestroy(n), Op::LDrop(n)]);
        }
        ops.push(Op::LCancel);
        let names = ops
            .iter()
            .map(|o| match o {
                Op::Bus(n) => format!("{:?}", bus[*n]),
                o => format!("{o:?}"),
            })
            .collect();
        let bus = Bus::with(env.clone(), bus, watch);
        Box::new(Self { bus, names, env, ls: Default::default(), ops, watch, owner, max, drains: p.size < 10, rest: Cell::new(0) })
    }

    /// The n-th slot's listener.
    fn slot(&self, n: usize) -> Option<usize> {
        let ls = self.ls.borrow();
        let live: Vec<usize> = (0..ls.v.len()).filter(|&i| !ls.v[i].dropped).collect();
        live.get(n).copied()
    }

    fn idle(&self, n: usize) -> Option<usize> {
        self.slot(n).filter(|&i| self.ls.borrow().v[i].l.is_some())
    }

    fn new(&self, n: usize) -> bool {
        {
            let ls = self.ls.borrow();
            if ls.v.iter().filter(|l| !l.dropped).count() != n || ls.v.len() >= self.max + 1 {
                return false;
            }
        }
        let c = self.owner;
        let Some(h) = self.env.handle(c) else { return false };
        self.bus.observe();
        let i = {
            let mut ls = self.ls.borrow_mut();
            let view = View { filters: Default::default(), scope: None, alive: true };
            ls.v.push(Lst {
                client: c,
                l: None,
                made: false,
                dropped: false,
                filters: Default::default(),
                view: view.clone(),
                base: view,
                base_h: self.bus.now(),
                reqs: vec![],
                log: vec![],
                loose: false,
                waiting: false,
            });
            ls.v.len() - 1
        };
        let (env, ls) = (self.env.clone(), self.ls.clone());
        self.env.op(c, "create bus listener", format!("listen new {i}"), async move {
            match h.create_bus_listener().await {
                Ok(l) => {
                    let bad = l.scope().is_some() || !l.is_finished() || l.has_any_filters() || l.num_filters() != 0;
                    if bad {
                        env.fail("listener", format!("a new bus listener is {l:?}"));
                    }
                    let mut ls = ls.borrow_mut();
                    ls.v[i].made = true;
                    ls.v[i].l = Some(l);
                    "Ok".into()
                }
                Err(e) => {
                    if !(e == Error::Shutdown && env.dead(c)) {
                        env.fail("listener", format!("creating a bus listener failed with {e:?}"));
                    }
                    ls.borrow_mut().v[i].dropped = true;
                    format!("Err({e:?})")
                }
            }
        });
        true
    }

    fn request(&self, i: usize, req: Req) -> (Rc<Cell<bool>>, Option<Error>) {
        self.bus.observe();
        let lo = self.bus.now();
        let mut ls = self.ls.borrow_mut();
        let x = &mut ls.v[i];
        let before = x.view.clone();
        let err = x.view.apply(req);
        let sent = Rc::new(Cell::new(false));
        x.reqs.push(Request { req, lo, hi: None, rest: self.rest.get(), view: before, effect: err.is_none(), sent: sent.clone(), cancelled: false });
        (sent, err)
    }

    fn filters(&self, n: usize, req: Req) -> bool {
        let Some(i) = self.idle(n) else { return false };
        let mut l = self.ls.borrow_mut().v[i].l.take().unwrap();
        let change = {
            let mut ls = self.ls.borrow_mut();
            let x = &mut ls.v[i];
            match req {
                Req::Add(f) => x.filters.insert(f),
                Req::Rem(f) => x.filters.remove(&f),
                _ => {
                    let c = !x.filters.is_empty();
                    x.filters.clear();
                    c
                }
            }
        };
        if change {
            self.request(i, req).0.set(true);
        }
        let r = match req {
            Req::Add(f) => l.add_filter(filter(f)),
            Req::Rem(f) => l.remove_filter(filter(f)),
            _ => l.clear_filters(),
        };
        if r.is_err() && !self.env.dead(self.owner) {
            self.env.fail("listener", format!("{req:?} gave {r:?}"));
        }
        let mut ls = self.ls.borrow_mut();
        let want: HashSet<BusListenerFilter> = ls.v[i].filters.iter().map(|&f| filter(f)).collect();
        let got: HashSet<BusListenerFilter> = l.filters().collect();
        let ok = want == got
            && l.num_filters() == want.len()
            && l.has_any_filters() != want.is_empty()
            && l.has_no_filters() == want.is_empty()
            && (0..8).all(|f| l.has_filter(filter(f)) == want.contains(&filter(f)));
        if !ok {
            self.env.fail("listener-filters", format!("{got:?} instead of {want:?}"));
        }
        ls.v[i].l = Some(l);
        true
    }

    fn ask(&self, n: usize, req: Req) -> bool {
        let Some(i) = self.idle(n) else { return false };
        let l = self.ls.borrow_mut().v[i].l.take().unwrap();
        let (sent, want) = self.request(i, req);
        let c = self.owner;
        let (env, ls) = (self.env.clone(), self.ls.clone());
        let name = match req {
            Req::Start(_) => "start bus listener",
            Req::Stop => "stop bus listener",
            _ => "destroy bus listener",
        };
        let held = Held(ls.clone(), i, Some(l));
        self.env.op(c, name, format!("listen ask {i}"), async move {
            let mut held = held;
            let l = held.2.as_mut().unwrap();
            sent.set(true);
            let r = match req {
                Req::Start(s) => l.start(s).await,
                Req::Stop => l.stop().await,
                _ => l.destroy().await,
            };
            let got = r.err();
            if got == Some(Error::Shutdown) && env.dead(c) {
            } else if got != want {
                env.fail("listener-result", format!("{name} ({req:?}) gave {got:?} instead of {want:?}"));
            } else if req == Req::Destroy && got.is_none() {
                ls.borrow_mut().v[i].loose = true;
            }
            drop(held);
            format!("{got:?}")
        });
        true
    }

    fn next(&self, n: usize) -> bool {
        let Some(i) = self.idle(n) else { return false };
        let l = self.ls.borrow_mut().v[i].l.take().unwrap();
        self.ls.borrow_mut().v[i].waiting = true;
        let held = Held(self.ls.clone(), i, Some(l));
        let (env, ls) = (self.env.clone(), self.ls.clone());
        let c = self.owner;
        self.env.op(c, "next bus event", format!("listen next {i}"), async move {
            let mut held = held;
            let l = held.2.as_mut().unwrap();
            let r = l.next_event().await;
            if r.is_none() && !l.is_finished() {
                env.fail("listener", "is_finished() is false after the last event".into());
            }
            drop(held);
            Self::took(&mut ls.borrow_mut().v[i], r);
            format!("{:?}", r.is_some())
        });
        true
    }

    fn took(x: &mut Lst, ev: Option<BusEvent>) {
        let n = x.reqs.iter().rposition(|r| !r.cancelled && matches!(r.req, Req::Start(_) | Req::Stop | Req::Destroy)).map_or(0, |i| i + 1);
        x.log.push(match ev {
            Some(ev) => Seen::Event(ev),
            None => Seen::End(n),
        });
    }

    fn drop_one(&self, n: usize) -> bool {
        let Some(i) = self.idle(n) else { return false };
        let l = {
            let mut ls = self.ls.borrow_mut();
            ls.v[i].dropped = true;
            ls.v[i].l.take()
        };
        drop(l);
        true
    }

    fn give_up(&self, op: usize) {
        let tag = self.env.ops.borrow()[op].tag.clone();
        let mut w = tag.split(' ').skip(1);
        let (what, i) = (w.next().unwrap_or("").to_string(), w.next().and_then(|n| n.parse::<usize>().ok()).unwrap());
        let mut ls = self.ls.borrow_mut();
        match what.as_str() {
            "new" => ls.v[i].dropped = true,
            "ask" => {
                let x = &mut ls.v[i];
                let r = x.reqs.last_mut().unwrap();
                if r.sent.get() {
                    r.cancelled = true;
                } else {
                    // It never began.
                    let r = x.reqs.pop().unwrap();
                    x.view = r.view;
                }
            }
            _ => {}
        }
        drop(ls);
        self.env.cancel(op);
    }

    fn mine(&self) -> Vec<usize> {
        let ops = self.env.ops.borrow();
        self.env.pending_ops().into_iter().filter(|&i| ops[i].tag.starts_with("listen ")).collect()
    }

    /// Takes everything from an idle listener; whether the queue is known to be empty.
    fn drain(&self, i: usize) -> bool {
        let Some(mut l) = self.ls.borrow_mut().v[i].l.take() else { return false };
        let mut ls = self.ls.borrow_mut();
        let x = &mut ls.v[i];
        for _ in 0..200 {
            match l.poll_next_event(&mut Context::from_waker(Waker::noop())) {
                Poll::Ready(Some(ev)) => Self::took(x, Some(ev)),
                Poll::Ready(None) => {
                    Self::took(x, None);
                    if !l.is_finished() {
                        self.env.fail("listener", "is_finished() is false after the last event".into());
                    }
                    if x.view.new_events() && !x.loose && !self.env.dead(x.client) {
                        self.env.fail("listener-ends", format!("the events end, although the listener is {:?}", x.view));
                    }
                    break;
                }
                Poll::Pending => {
                    if l.is_finished() {
                        self.env.fail("listener", "is_finished() is true while waiting".into());
                    }
                    if !x.view.new_events() || self.env.dead(x.client) {
                        self.env.fail("listener-waits", format!("the events do not end, although the listener is {:?}", x.view));
                    }
                    break;
                }
            }
        }
        let want = if x.view.alive { x.view.scope } else { l.scope() };
        if l.scope() != want && !self.env.dead(x.client) {
            self.env.fail("listener-scope", format!("scope() is {:?} instead of {want:?}", l.scope()));
        }
        x.l = Some(l);
        true
    }

    /// Whether the log is possible.
    fn judge(&self, i: usize, full: bool) {
        let ls = self.ls.borrow();
        let x = &ls.v[i];
        let others = ls.v.iter().enumerate().any(|(k, y)| k != i && y.client == x.client);
        let end = self.bus.now();
        let full = full && !x.loose;
        let mut seen = HashSet::new();
        let mut todo = vec![(x.base_h, 0usize, 0usize, 0usize)];
        let mut best = 0;
        let n = x.reqs.len();
        let view = |i: usize| if i < n { &x.reqs[i].view } else { &x.view };
        self.bus.history(|h| {
            let h = h.unwrap();
            while let Some((p, i, j, k)) = todo.pop() {
                if !seen.insert((p, i, j, k)) {
                    continue;
                }
                best = best.max(k);
                if k == x.log.len() && (!full || p == end && i == n) {
                    return true;
                }
                let v = view(i);
                if let Some(Seen::End(m)) = x.log.get(k) {
                    if i >= *m && !v.new_events() || x.loose {
                        todo.push((p, i, j, k + 1));
                    }
                }
                // The broker's next event.
                if p < end {
                    let ev = h.events[p];
                    let (fi, fj) = (event_matches(&v.filters, &ev), event_matches(&view(j).filters, &ev));
                    let may = v.new_events() && fj && (fi || others);
                    let must = v.new_events() && fi && fj && !x.loose;
                    if may && x.log.get(k) == Some(&Seen::Event(ev)) {
                        todo.push((p + 1, i, j, k + 1));
                    }
                    if !must {
                        todo.push((p + 1, i, j, k));
                    } else if k == x.log.len() && !full {
                        // Not taken yet.
                        todo.push((p + 1, i, j, k));
                    }
                }
                // The client hears of the next request.
                if j < n && x.reqs[j].rest <= p {
                    todo.push((p, i, j + 1, k));
                }
                // The broker does.
                if i < n && j > i {
                    let r = &x.reqs[i];
                    if r.lo <= p && r.hi.is_none_or(|hi| p <= hi) {
                        match r.req {
                            Req::Start(s) if r.effect && s != BusListenerScope::New => {
                                let want = current(&h.states[p], &r.view.filters);
                                let m = want.len().min(x.log.len() - k);
                                let got = &x.log[k..k + m];
                                let all = want.len() == m && want.iter().all(|e| got.contains(&Seen::Event(*e)));
                                let part = (!full && k + m == x.log.len() || x.loose)
                                    && got
                                        .iter()
                                        .enumerate()
                                        .take_while(|(_, g)| matches!(g, Seen::Event(_)))
                                        .all(|(a, g)| want.iter().any(|e| Seen::Event(*e) == *g) && !got[..a].contains(g));
                                if all {
                                    todo.push((p, i + 1, j, k + m));
                                }
                                if part {
                                    let t = got.iter().take_while(|g| matches!(g, Seen::Event(_))).count();
                                    todo.push((p, i + 1, j, k + t));
                                }
                            }
                            _ => todo.push((p, i + 1, j, k)),
                        }
                    }
                }
            }
            let evs: Vec<_> = h.events[x.base_h..].iter().collect();
            self.env.fail(
                "listener-log",
                format!(
                    "{:?} is impossible from entry {best} on; at first {:?} with {:?}, then {:?} meanwhile {evs:?}",
                    x.log,
                    x.base,
                    current(&h.states[x.base_h], &x.base.filters),
                    x.reqs.iter().map(|r| (r.req, r.effect, r.lo, r.hi)).collect::<Vec<_>>()
                ),
            );
            false
        });
    }

    fn judged(&self) -> Vec<usize> {
        let ls = self.ls.borrow();
        (0..ls.v.len()).filter(|&i| ls.v[i].made && !ls.v[i].dropped && !self.env.dead(ls.v[i].client)).collect()
    }

    fn check(&self, drain: bool) {
        let now = self.bus.now();
        self.rest.set(now);
        for l in &mut self.ls.borrow_mut().v {
            for r in &mut l.reqs {
                r.hi.get_or_insert(now);
            }
        }
        if self.bus.blind() {
            return;
        }
        let waiting: Vec<usize> = self
            .mine()
            .into_iter()
            .filter_map(|o| self.env.ops.borrow()[o].tag.strip_prefix("listen next ").map(|n| n.parse().unwrap()))
            .collect();
        for i in self.judged() {
            let full = waiting.contains(&i) || drain && self.drain(i);
            self.judge(i, full);
            let mut ls = self.ls.borrow_mut();
            let x = &mut ls.v[i];
            if full && !x.loose {
                x.base = x.view.clone();
                x.base_h = now;
                x.reqs.clear();
                x.log.clear();
            }
        }
        for o in self.mine() {
            let (tag, name, c) = {
                let ops = self.env.ops.borrow();
                (ops[o].tag.clone(), ops[o].name.clone(), ops[o].client)
            };
            let ok = match tag.strip_prefix("listen next ") {
                Some(i) => self.ls.borrow().v[i.parse::<usize>().unwrap()].view.new_events() && !self.env.dead(c),
                None => false,
            };
            if !ok {
                self.env.fail(&format!("stuck/{name}"), format!("{name} does not complete"));
            }
        }
    }
}

impl Area for Listeners {
    fn names(&self) -> Vec<String> {
        self.names.clone()
    }

    fn issue(&self, op: usize) -> bool {
        match self.ops[op] {
            Op::Bus(n) => self.bus.issue(n),
            Op::LNew(n) => self.new(n),
            Op::LAdd(n, f) => self.filters(n, Req::Add(f)),
            Op::LRem(n, f) => self.filters(n, Req::Rem(f)),
            Op::LClear(n) => self.filters(n, Req::Clear),
            Op::LStart(n, s) => self.ask(n, Req::Start(SCOPES[s])),
            Op::LStop(n) => self.ask(n, Req::Stop),
            Op::LNext(n) => self.next(n),
            Op::LDestroy(n) => self.ask(n, Req::Destroy),
            Op::LDrop(n) => self.drop_one(n),
            Op::LCancel => match self.mine().last() {
                Some(&o) => {
                    self.give_up(o);
                    true
                }
                None => false,
            },
        }
    }

    fn sig(&self) -> String {
        let mut v = vec![self.bus.sig()];
        let ls = self.ls.borrow();
        v.push(format!("{}", ls.v.len()));
        for l in ls.v.iter().filter(|l| !l.dropped) {
            v.push(format!("{:?} {:?} {:?} {}", l.view, l.filters, l.l.as_ref().map(|l| (l.scope(), l.is_finished())), l.loose));
            for r in &l.reqs {
                v.push(format!("{:?} {}", r.req, r.lo - l.base_h.min(r.lo)));
            }
            let name = |e: &BusEvent| match e {
                BusEvent::ObjectCreated(i) => format!("+{:?}", i.uuid),
                BusEvent::ObjectDestroyed(i) => format!("-{:?}", i.uuid),
                BusEvent::ServiceCreated(i) => format!("+{:?}{:?}", i.object_id.uuid, i.uuid),
                BusEvent::ServiceDestroyed(i) => format!("-{:?}{:?}", i.object_id.uuid, i.uuid),
            };
            if !l.reqs.is_empty() || l.base.new_events() {
                self.bus.history(|h| {
                    v.push(h.unwrap().events[l.base_h..].iter().map(name).collect::<Vec<_>>().join(""));
                    true
                });
            }
            for e in &l.log {
                v.push(match e {
                    Seen::Event(e) => name(e),
                    e => format!("{e:?}"),
                });
            }
        }
        v.join(";")
    }

    fn quiet(&self) {
        self.bus.quiet();
        self.check(self.drains);
    }

    fn wind(&self) -> bool {
        if let Some(&o) = self.mine().last() {
            self.give_up(o);
            return true;
        }
        for n in 0..self.max {
            if self.idle(n).is_some() {
                self.check(true);
                self.drop_one(n);
                return true;
            }
        }
        self.bus.wind()
    }

    fn poke(&self, client: usize) {
        for n in 0..self.max {
            let Some(i) = self.idle(n) else { continue };
            if self.ls.borrow().v[i].client != client {
                continue;
            }
            let mut l = self.ls.borrow_mut().v[i].l.take().unwrap();
            self.ls.borrow_mut().v[i].dropped = true;
            self.env.op(client, "bus listener operations on a stopped client", "poke", async move {
                let a = l.start(BusListenerScope::All).await.map(|_| 1);
                let b = l.stop().await.map(|_| 1);
                while l.next_event().await.is_some() {}
                let c = l.add_filter(BusListenerFilter::object(ObjectUuid(uuid::Uuid::from_u128(77)))).map(|_| 1);
                let d = l.destroy().await.map(|_| 1);
                while l.next_event().await.is_some() {}
                format!("{a:?}{b:?}{c:?}{d:?}")
            });
        }
        self.bus.poke(client);
    }

    fn truth(&self, snapshot: &str) {
        let pending = self.mine().len();
        let n = {
            let ls = self.ls.borrow();
            ls.v.iter().filter(|l| !l.dropped && l.view.alive && !self.env.dead(l.client)).count()
        };
        self.bus.extra.set(n + pending);
        self.bus.truth(snapshot);
        if pending == 0 && !self.bus.blind() {
            let snap = crate::snap::parse(snapshot).expect("harness: snapshot");
            if let Some(k) = crate::snap::field_len(&snap, "bus_listeners") {
                let base = usize::from(!self.env.dead(self.watch));
                if k != n + base {
                    self.env.fail("broker-listeners", format!("the broker has {k} bus listeners, the applications {}", n + base));
                }
            }
        }
    }
}
