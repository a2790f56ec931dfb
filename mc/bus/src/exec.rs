//! Deterministic single-threaded executor. Nothing runs unless the harness polls it; every wake-up
//! is recorded, so a task that lost its wake-up simply never runs again.

use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(AtomicBool);

impl Flag {
    pub fn new(v: bool) -> Arc<Self> {
        Arc::new(Self(AtomicBool::new(v)))
    }

    pub fn get(&self) -> bool {
        self.0.load(Ordering::Relaxed)
    }

    pub fn set(&self, v: bool) {
        self.0.store(v, Ordering::Relaxed)
    }
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.set(true)
    }

    fn wake_by_ref(self: &Arc<Self>) {
        self.set(true)
    }
}

pub struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    woken: Arc<Flag>,
    waker: Waker,
}

#[derive(Default)]
pub struct Exec {
    tasks: Vec<Task>,
    pub polls: u64,
}

pub type TaskId = usize;

impl Exec {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn spawn(&mut self, fut: impl Future<Output = ()> + 'static) -> TaskId {
        let woken = Flag::new(true);
        let waker = Waker::from(woken.clone());
        self.tasks.push(Task {
            fut: Some(Box::pin(fut)),
            woken,
            waker,
        });
        self.tasks.len() - 1
    }

    pub fn len(&self) -> usize {
        self.tasks.len()
    }

    pub fn done(&self, id: TaskId) -> bool {
        self.tasks[id].fut.is_none()
    }

    pub fn runnable(&self, id: TaskId) -> bool {
        self.tasks[id].fut.is_some() && self.tasks[id].woken.get()
    }

    pub fn wake(&self, id: TaskId) {
        self.tasks[id].woken.set(true);
    }

    pub fn runnable_tasks(&self) -> Vec<TaskId> {
        (0..self.tasks.len()).filter(|&i| self.runnable(i)).collect()
    }

    /// Polls one task.
    pub fn poll(&mut self, id: TaskId) {
        self.polls += 1;
        let t = &mut self.tasks[id];
        t.woken.set(false);
        let Some(fut) = t.fut.as_mut() else { return };
        let mut cx = Context::from_waker(&t.waker);
        if let Poll::Ready(()) = fut.as_mut().poll(&mut cx) {
            t.fut = None;
        }
    }

    /// Drops a task without completing it.
    pub fn drop_task(&mut self, id: TaskId) {
        self.tasks[id].fut = None;
    }

    /// Polls runnable tasks in index order until none is left. False if the bound is exceeded.
    pub fn quiesce(&mut self, bound: u64) -> bool {
        let start = self.polls;
        loop {
            let mut any = false;
            for i in 0..self.tasks.len() {
                if self.runnable(i) {
                    any = true;
                    self.poll(i);
                }
            }
            if !any {
                return true;
            }
            if self.polls - start > bound {
                return false;
            }
        }
    }

}

/// Polls a future once with a no-op waker.
pub fn poll_once<T>(fut: &mut (impl Future<Output = T> + Unpin)) -> Poll<T> {
    Pin::new(fut).poll(&mut Context::from_waker(Waker::noop()))
}
