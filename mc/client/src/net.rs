//! The transport between a client and the broker: one of the library's in-process transports with
//! a version override, a cut switch and a fault at a chosen call.

use aldrin_core::channel::{self, Bounded, Unbounded};
use aldrin_core::message::Message;
use aldrin_core::transport::{AsyncTransport, AsyncTransportExt, Buffered};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub enum Raw {
    B(Bounded),
    U(Unbounded),
    /// Nothing moves before a flush.
    F(Buffered<Bounded>),
}

impl Raw {
    /// Capacities of `BUFFERED` and more mean a buffer in front of a bounded transport.
    pub fn pair(cap: Option<usize>) -> (Self, Self) {
        match cap {
            None => {
                let (a, b) = channel::unbounded();
                (Raw::U(a), Raw::U(b))
            }
            Some(n) if n >= BUFFERED => {
                let (a, b) = channel::bounded(n - BUFFERED);
                (Raw::F(a.buffered()), Raw::F(b.buffered()))
            }
            Some(n) => {
                let (a, b) = channel::bounded(n);
                (Raw::B(a), Raw::B(b))
            }
        }
    }
}

pub const BUFFERED: usize = 100;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum NetErr {
    Disconnected,
    Fault,
}

/// Control of one endpoint.
#[derive(Default)]
pub struct Port {
    pub cut: bool,
    pub calls: u64,
    pub fault_at: Option<u64>,
    pub wakers: Vec<Waker>,
    pub sent: u64,
    pub received: u64,
}

impl Port {
    pub fn cut(&mut self) {
        self.cut = true;
        for w in self.wakers.drain(..) {
            w.wake();
        }
    }
}

pub struct Net {
    pub raw: Raw,
    pub port: Rc<RefCell<Port>>,
    pub minor: Option<u32>,
}

impl Net {
    fn gate(&self) -> Result<(), NetErr> {
        let mut p = self.port.borrow_mut();
        if p.fault_at == Some(p.calls) {
            p.cut = true;
        }
        p.calls += 1;
        if p.cut {
            Err(NetErr::Fault)
        } else {
            Ok(())
        }
    }

    fn pending(&self, cx: &mut Context) {
        let mut p = self.port.borrow_mut();
        if !p.wakers.iter().any(|w| w.will_wake(cx.waker())) {
            p.wakers.push(cx.waker().clone());
        }
    }
}

impl AsyncTransport for Net {
    type Error = NetErr;

    fn receive_poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message, NetErr>> {
        self.gate()?;
        let r = match &mut self.raw {
            Raw::B(t) => Pin::new(t).receive_poll(cx),
            Raw::U(t) => Pin::new(t).receive_poll(cx),
            Raw::F(t) => Pin::new(t).receive_poll(cx),
        };
        match &r {
            Poll::Pending => self.pending(cx),
            Poll::Ready(Ok(_)) => self.port.borrow_mut().received += 1,
            _ => {}
        }
        r.map_err(|_| NetErr::Disconnected)
    }

    fn send_poll_ready(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), NetErr>> {
        self.gate()?;
        let r = match &mut self.raw {
            Raw::B(t) => Pin::new(t).send_poll_ready(cx),
            Raw::U(t) => Pin::new(t).send_poll_ready(cx),
            Raw::F(t) => Pin::new(t).send_poll_ready(cx),
        };
        if r.is_pending() {
            self.pending(cx);
        }
        r.map_err(|_| NetErr::Disconnected)
    }

    fn send_start(mut self: Pin<&mut Self>, mut msg: Message) -> Result<(), NetErr> {
        self.gate()?;
        if let (Message::Connect2(c), Some(v)) = (&mut msg, self.minor) {
            c.minor_version = v;
        }
        self.port.borrow_mut().sent += 1;
        match &mut self.raw {
            Raw::B(t) => Pin::new(t).send_start(msg),
            Raw::U(t) => Pin::new(t).send_start(msg),
            Raw::F(t) => Pin::new(t).send_start(msg),
        }
        .map_err(|_| NetErr::Disconnected)
    }

    fn send_poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), NetErr>> {
        self.gate()?;
        let r = match &mut self.raw {
            Raw::B(t) => Pin::new(t).send_poll_flush(cx),
            Raw::U(t) => Pin::new(t).send_poll_flush(cx),
            Raw::F(t) => Pin::new(t).send_poll_flush(cx),
        };
        if r.is_pending() {
            self.pending(cx);
        }
        r.map_err(|_| NetErr::Disconnected)
    }
}
