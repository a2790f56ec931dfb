//! Deterministic simulation of a broker, its connections, clients and the application's tasks on
//! one thread. The scheduler decides which woken task is polled next; nothing else runs.

use crate::net::*;
use aldrin::{Client, Handle};
use aldrin_broker::{Broker, BrokerHandle, Connection, ConnectionHandle};

use mc_common::choice::Choices;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Class {
    Broker,
    Conn(usize),
    Client(usize),
    App(usize),
    Ctl,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Fifo,
    Lifo,
    /// Tasks of the class run only when nothing else can.
    Starve(Class),
}

type Fut = Pin<Box<dyn Future<Output = ()>>>;

struct W {
    id: usize,
    queued: AtomicBool,
    ready: Arc<Mutex<VecDeque<usize>>>,
}

impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }

    fn wake_by_ref(self: &Arc<Self>) {
        if !self.queued.swap(true, Ordering::Relaxed) {
            self.ready.lock().unwrap().push_back(self.id);
        }
    }
}

struct Task {
    fut: Option<Fut>,
    class: Class,
    w: Arc<W>,
    waker: Waker,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OpState {
    Pending,
    Done,
    Cancelled,
}

pub struct Op {
    pub task: usize,
    pub client: usize,
    pub name: String,
    /// What the operation is waiting for, for the area's oracle.
    pub tag: String,
    pub state: OpState,
    pub result: String,
    /// Issued after the client had been asked to stop.
    pub late: bool,
}

pub struct ClientState {
    pub handle: Option<Handle>,
    pub run: Option<Result<(), String>>,
    pub conn: Option<Result<(), String>>,
    pub conn_handle: Option<ConnectionHandle>,
    pub port: Rc<RefCell<Port>>,
    pub broker_port: Rc<RefCell<Port>>,
    pub client_task: usize,
    pub conn_task: usize,
    pub minor: u32,
    /// A termination of this client has been started.
    pub dying: bool,
}

/// What applications and oracles share.
pub struct Env {
    spawn: RefCell<Vec<(usize, Class, Fut)>>,
    next_task: Cell<usize>,
    kill: RefCell<Vec<usize>>,
    pub ops: RefCell<Vec<Op>>,
    pub fails: RefCell<Vec<(String, String)>>,
    pub cl: RefCell<Vec<ClientState>>,
    pub broker: RefCell<Option<BrokerHandle>>,
    pub broker_done: Cell<bool>,
    pub log: RefCell<Vec<String>>,
}

impl Env {
    pub fn fail(&self, class: &str, text: String) {
        self.fails.borrow_mut().push((class.into(), text));
    }

    pub fn spawn(&self, class: Class, f: impl Future<Output = ()> + 'static) -> usize {
        let id = self.next_task.get();
        self.next_task.set(id + 1);
        self.spawn.borrow_mut().push((id, class, Box::pin(f)));
        id
    }

    /// Runs an application's operation as a task of its own.
    pub fn op(
        self: &Rc<Self>,
        client: usize,
        name: impl Into<String>,
        tag: impl Into<String>,
        f: impl Future<Output = String> + 'static,
    ) -> usize {
        let idx = self.ops.borrow().len();
        let env = self.clone();
        let task = self.spawn(Class::App(client), async move {
            let r = f.await;
            let mut ops = env.ops.borrow_mut();
            ops[idx].state = OpState::Done;
            ops[idx].result = r;
        });
        let late = self.cl.borrow()[client].dying;
        self.ops.borrow_mut().push(Op {
            task,
            client,
            name: name.into(),
            tag: tag.into(),
            state: OpState::Pending,
            result: String::new(),
            late,
        });
        idx
    }

    pub fn cancel(&self, op: usize) {
        let mut ops = self.ops.borrow_mut();
        if ops[op].state == OpState::Pending {
            ops[op].state = OpState::Cancelled;
            self.kill.borrow_mut().push(ops[op].task);
        }
    }

    pub fn kill_task(&self, task: usize) {
        self.kill.borrow_mut().push(task);
    }

    pub fn handle(&self, c: usize) -> Option<Handle> {
        self.cl.borrow()[c].handle.clone()
    }

    pub fn pending_ops(&self) -> Vec<usize> {
        let ops = self.ops.borrow();
        (0..ops.len()).filter(|&i| ops[i].state == OpState::Pending).collect()
    }

    pub fn last_pending(&self) -> Option<usize> {
        self.pending_ops().last().copied()
    }

    pub fn dead(&self, c: usize) -> bool {
        self.cl.borrow()[c].dying
    }

    /// Whether the broker can still do anything.
    pub fn minor(&self, c: usize) -> u32 {
        self.cl.borrow()[c].minor
    }
}

pub struct Sim {
    tasks: Vec<Task>,
    ready: Arc<Mutex<VecDeque<usize>>>,
    pub env: Rc<Env>,
    pub steps: u64,
    pub policy: Policy,
}

pub const STEP_BOUND: u64 = 20_000;

impl Sim {
    pub fn new() -> Self {
        Self {
            tasks: Vec::new(),
            ready: Default::default(),
            env: Rc::new(Env {
                spawn: Default::default(),
                next_task: Cell::new(0),
                kill: Default::default(),
                ops: Default::default(),
                fails: Default::default(),
                cl: Default::default(),
                broker: Default::default(),
                broker_done: Cell::new(false),
                log: Default::default(),
            }),
            steps: 0,
            policy: Policy::Fifo,
        }
    }

    /// A broker and one client per entry of `minors`, all connected and running.
    pub fn setup(minors: &[u32], cap: Option<usize>) -> Self {
        let mut sim = Self::new();
        let env = sim.env.clone();
        let broker = Broker::new();
        *env.broker.borrow_mut() = Some(broker.handle().clone());
        let e = env.clone();
        env.spawn(Class::Broker, async move {
            broker.run().await;
            e.broker_done.set(true);
        });
        for (i, &minor) in minors.iter().enumerate() {
            let (a, b) = Raw::pair(cap);
            let bp = Rc::new(RefCell::new(Port::default()));
            let cp = Rc::new(RefCell::new(Port::default()));
            let bt = Net { raw: a, port: bp.clone(), minor: None };
            let ct = Net { raw: b, port: cp.clone(), minor: (minor != 20).then_some(minor) };
            let mut bh = env.broker.borrow().clone().unwrap();
            let got: Rc<RefCell<Option<(Connection<Net>, Client<Net>)>>> = Default::default();
            let g = got.clone();
            env.spawn(Class::Ctl, async move {
                let (conn, client) = futures_util::future::join(bh.connect(bt), Client::connect(ct)).await;
                *g.borrow_mut() = Some((conn.expect("connect"), client.expect("connect")));
            });
            sim.settle();
            let (conn, client) = got.borrow_mut().take().expect("harness: handshake stuck");
            let conn_handle = conn.handle().clone();
            let handle = client.handle().clone();
            let e = env.clone();
            let conn_task = env.spawn(Class::Conn(i), async move {
                let r = conn.run().await;
                e.cl.borrow_mut()[i].conn = Some(r.map_err(|e| format!("{e:?}")));
            });
            let e = env.clone();
            let client_task = env.spawn(Class::Client(i), async move {
                let r = client.run().await;
                e.cl.borrow_mut()[i].run = Some(r.map_err(|e| format!("{e:?}")));
            });
            env.cl.borrow_mut().push(ClientState {
                handle: Some(handle),
                run: None,
                conn: None,
                conn_handle: Some(conn_handle),
                port: cp,
                broker_port: bp,
                client_task,
                conn_task,
                minor,
                dying: false,
            });
            sim.settle();
        }
        sim
    }

    /// Applies what has been requested since the last step.
    pub fn absorb(&mut self) {
        loop {
            let new = std::mem::take(&mut *self.env.spawn.borrow_mut());
            let kill = std::mem::take(&mut *self.env.kill.borrow_mut());
            if new.is_empty() && kill.is_empty() {
                return;
            }
            for (id, class, fut) in new {
                assert_eq!(id, self.tasks.len());
                let w = Arc::new(W { id, queued: AtomicBool::new(true), ready: self.ready.clone() });
                self.ready.lock().unwrap().push_back(id);
                let waker = Waker::from(w.clone());
                self.tasks.push(Task { fut: Some(fut), class, w, waker });
            }
            for id in kill {
                let f = self.tasks[id].fut.take();
                if let Err(m) = mc_common::catch(move || drop(f)) {
                    self.env.fail("panic", format!("dropping {:?}: {m}", self.tasks[id].class));
                }
            }
        }
    }

    fn clean_ready(&mut self) -> Vec<usize> {
        let mut r = self.ready.lock().unwrap();
        let tasks = &self.tasks;
        r.retain(|&i| tasks[i].fut.is_some());
        r.iter().copied().collect()
    }

    pub fn idle(&mut self) -> bool {
        self.absorb();
        self.clean_ready().is_empty()
    }

    /// Polls one task; false if none is woken.
    pub fn step(&mut self, ch: &mut Choices) -> bool {
        self.absorb();
        let ready = self.clean_ready();
        if ready.is_empty() {
            return false;
        }
        let starved = |i: usize| matches!(self.policy, Policy::Starve(c) if self.tasks[i].class == c);
        // Candidate order: default first.
        let mut order: Vec<usize> = ready.clone();
        match self.policy {
            Policy::Fifo => {}
            Policy::Lifo => order.reverse(),
            Policy::Starve(_) => order.sort_by_key(|&i| starved(i)),
        }
        let pick = order[ch.pick(order.len()).min(order.len() - 1)];
        self.poll(pick);
        true
    }

    fn poll(&mut self, id: usize) {
        self.ready.lock().unwrap().retain(|&i| i != id);
        let t = &mut self.tasks[id];
        t.w.queued.store(false, Ordering::Relaxed);
        self.steps += 1;
        let Some(mut fut) = t.fut.take() else { return };
        let waker = t.waker.clone();
        let r = mc_common::catch(|| fut.as_mut().poll(&mut Context::from_waker(&waker)));
        match r {
            Ok(Poll::Pending) => self.tasks[id].fut = Some(fut),
            Ok(Poll::Ready(())) => {
                if let Err(m) = mc_common::catch(move || drop(fut)) {
                    self.env.fail("panic", format!("dropping {:?}: {m}", self.tasks[id].class));
                }
            }
            Err(m) => {
                if m.contains("harness:") {
                    panic!("{m}");
                }
                self.env.fail("panic", format!("{:?}: {m}", self.tasks[id].class));
                let _ = mc_common::catch(move || drop(fut));
            }
        }
        self.absorb();
    }

    /// Runs to quiescence without choices.
    pub fn settle(&mut self) -> u64 {
        let p = std::mem::replace(&mut self.policy, Policy::Fifo);
        let n = self.quiesce(&mut Choices::new(vec![]));
        self.policy = p;
        n
    }

    /// Runs to quiescence; the number of steps taken.
    pub fn quiesce(&mut self, ch: &mut Choices) -> u64 {
        let start = self.steps;
        while self.step(ch) {
            if self.steps - start > STEP_BOUND {
                self.env.fail("livelock", "the system does not come to rest".into());
                break;
            }
        }
        self.steps - start
    }

    /// At quiescence: polls every task although it has not been woken. Any progress is a wake-up
    /// that was lost.
    pub fn spurious(&mut self) {
        for id in 0..self.tasks.len() {
            if self.tasks[id].fut.is_none() {
                continue;
            }
            let class = self.tasks[id].class;
            let name = {
                let ops = self.env.ops.borrow();
                ops.iter().find(|o| o.task == id).map(|o| o.name.clone())
            };
            self.poll(id);
            if self.tasks[id].fut.is_none() {
                self.env.fail(
                    "lost-wakeup",
                    format!("{class:?} {name:?} could finish, but was never woken"),
                );
                return;
            }
            if !self.clean_ready().is_empty() {
                self.env.fail(
                    "lost-wakeup",
                    format!("{class:?} {name:?} could make progress, but was never woken"),
                );
                return;
            }
        }
    }

    /// The broker's own view of its state. Only at quiescence.
    pub fn snapshot(&mut self) -> Option<String> {
        let mut bh = self.env.broker.borrow().clone()?;
        aldrin_broker::verif_hooks::request_snapshot();
        self.env.spawn(Class::Ctl, async move {
            let _ = bh.take_statistics().await;
        });
        self.settle();
        aldrin_broker::verif_hooks::take_snapshot()
    }
}
