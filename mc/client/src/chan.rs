//! Channels through the client API: creation, binding, claiming, establishing, sending, closing,
//! dropping and cancelling, from two clients.

use crate::explore::*;
use crate::sim::*;
use aldrin::low_level::*;
use aldrin::Error;
use aldrin_core::ChannelCookie;
use futures_core::stream::{FusedStream, Stream};
use futures_sink::Sink;
use std::cell::RefCell;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

const S: usize = 0;
const R: usize = 1;

enum Slot {
    Unbound,
    Us(UnclaimedSender),
    Ur(UnclaimedReceiver),
    Ps(PendingSender),
    Pr(PendingReceiver),
    Snd(Sender),
    Rcv(Receiver),
    Busy(&'static str),
    /// Closed or dropped by the application, or found to be closed.
    Gone,
}

impl Slot {
    fn name(&self) -> &'static str {
        match self {
            Slot::Unbound => "unbound",
            Slot::Us(_) | Slot::Ur(_) => "unclaimed",
            Slot::Ps(_) | Slot::Pr(_) => "pending",
            Slot::Snd(_) | Slot::Rcv(_) => "live",
            Slot::Busy(b) => b,
            Slot::Gone => "gone",
        }
    }
}

struct Chan {
    cookie: ChannelCookie,
    slot: [Slot; 2],
    /// Which client holds the end.
    loc: [usize; 2],
    /// The end has been (or may have been) claimed by somebody.
    claimed: [bool; 2],
    /// Something that closes the end has been started; the number of the phase.
    closed: [Option<u32>; 2],
    /// Somebody else may also be claiming the end.
    contested: [bool; 2],
    cap: u32,
    sent: u32,
    recvd: u32,
    /// An item may be lost because an operation was cancelled or a client died.
    lossy: bool,
    busy_op: [Option<usize>; 2],
    /// Whatever was polled for, and when; a poll may change the state that is not seen here.
    peeks: String,
}

#[derive(Default)]
struct St {
    ch: Vec<Chan>,
    creating: usize,
    phase: u32,
    /// Winners of duplicate claims.
    extra: Vec<(usize, Box<dyn std::any::Any>)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    CreateS(usize),
    CreateR(usize, u32),
    Bind(usize, usize),
    Unbind(usize),
    Claim(usize, u32),
    Establish(usize),
    Close(usize),
    Drop(usize),
    DupClaim(usize, usize),
    DupDrop(usize, usize),
    Send(u32),
    Recv(u32),
    WaitClosed,
    /// Polls for something once and goes on with other things.
    PeekClosed,
    PeekReady,
    PeekRecv,
    PeekEstablished(usize),
    /// Through the typed wrappers and `Sink` and `Stream`.
    SinkSend(u32),
    StreamRecv(u32),
    SinkClose,
    Cancel,
}

pub struct Channels {
    env: Rc<Env>,
    st: Rc<RefCell<St>>,
    ops: Vec<Op>,
    max: usize,
}

impl Channels {
    pub fn make(env: Rc<Env>, p: &Params) -> Box<dyn Area> {
        let mut ops = vec![Op::CreateS(0), Op::CreateR(0, 1), Op::CreateR(0, 6)];
        for e in [S, R] {
            ops.extend([Op::Bind(e, 0), Op::Bind(e, 1), Op::Unbind(e), Op::Claim(e, 1)]);
            if e == R {
                ops.push(Op::Claim(e, 6));
            }
            ops.extend([
                Op::Establish(e),
                Op::Close(e),
                Op::Drop(e),
                Op::DupClaim(e, 0),
                Op::DupClaim(e, 1),
                Op::DupDrop(e, 0),
                Op::DupDrop(e, 1),
            ]);
        }
        ops.extend([Op::Send(1), Op::Send(7), Op::Recv(1), Op::Recv(7), Op::WaitClosed, Op::Cancel]);
        if p.size == 3 {
            // What can be done with the ends of one channel besides the above.
            ops.retain(|o| {
                matches!(o, Op::CreateS(_) | Op::CreateR(..) | Op::Bind(..) | Op::Unbind(_) | Op::Claim(..) | Op::Establish(_))
                    || matches!(o, Op::Send(_) | Op::Recv(_) | Op::Drop(_) | Op::Close(_) | Op::Cancel)
            });
            ops.extend([
                Op::PeekClosed,
                Op::PeekReady,
                Op::PeekRecv,
                Op::PeekEstablished(S),
                Op::PeekEstablished(R),
                Op::SinkSend(2),
                Op::SinkSend(7),
                Op::StreamRecv(2),
                Op::StreamRecv(7),
                Op::SinkClose,
            ]);
        }
        Box::new(Self { env, st: Default::default(), ops, max: if p.size == 3 { 1 } else { p.size.max(1) } })
    }

    fn start(
        &self,
        ci: usize,
        e: usize,
        name: &'static str,
        client: usize,
        f: impl Future<Output = (Slot, String)> + 'static,
    ) {
        let st = self.st.clone();
        let tag = format!("{name} {ci} {e}");
        let op = self.env.op(client, format!("{name}({})", ["sender", "receiver"][e]), tag, async move {
            let (slot, res) = f.await;
            let mut st = st.borrow_mut();
            let phase = st.phase;
            let c = &mut st.ch[ci];
            if matches!(slot, Slot::Gone) {
                c.closed[e].get_or_insert(phase);
            }
            c.slot[e] = slot;
            c.busy_op[e] = None;
            res
        });
        let mut st = self.st.borrow_mut();
        st.ch[ci].slot[e] = Slot::Busy(name);
        st.ch[ci].busy_op[e] = Some(op);
    }

    fn take(&self, ci: usize, e: usize) -> Slot {
        std::mem::replace(&mut self.st.borrow_mut().ch[ci].slot[e], Slot::Gone)
    }

    fn closing(&self, ci: usize, e: usize) {
        let mut st = self.st.borrow_mut();
        let p = st.phase;
        st.ch[ci].closed[e].get_or_insert(p);
    }

    /// The end can never be used again.
    fn end_over(&self, c: &Chan, e: usize) -> bool {
        c.closed[e].is_some()
            || (!matches!(c.slot[e], Slot::Unbound) && self.env.dead(c.loc[e]))
    }

    /// Drops an operation that is still pending.
    fn give_up(&self, id: usize) {
        let mut st = self.st.borrow_mut();
        let p = st.phase;
        for c in &mut st.ch {
            for e in [S, R] {
                if c.busy_op[e] == Some(id) {
                    c.busy_op[e] = None;
                    c.slot[e] = Slot::Gone;
                    c.closed[e].get_or_insert(p);
                    c.lossy = true;
                }
            }
        }
        if self.env.ops.borrow()[id].name == "create channel" {
            st.creating -= 1;
        }
        drop(st);
        self.env.cancel(id);
    }

    fn create(&self, client: usize, sender: bool, cap: u32) -> bool {
        {
            let st = self.st.borrow();
            if st.ch.len() + st.creating >= self.max {
                return false;
            }
        }
        let Some(h) = self.env.handle(client) else { return false };
        self.st.borrow_mut().creating += 1;
        let st = self.st.clone();
        self.env.op(client, "create channel", "never", async move {
            let res = if sender {
                h.create_low_level_channel()
                    .claim_sender()
                    .await
                    .map(|(s, r)| (s.cookie(), Slot::Ps(s), Slot::Ur(r)))
            } else {
                h.create_low_level_channel()
                    .claim_receiver(cap)
                    .await
                    .map(|(s, r)| (r.cookie(), Slot::Us(s), Slot::Pr(r)))
            };
            let mut st = st.borrow_mut();
            st.creating -= 1;
            match res {
                Ok((cookie, s, r)) => {
                    st.ch.push(Chan {
                        cookie,
                        slot: [s, r],
                        loc: [client; 2],
                        claimed: [sender, !sender],
                        closed: [None; 2],
                        contested: [false; 2],
                        cap,
                        sent: 0,
                        recvd: 0,
                        lossy: false,
                        busy_op: [None; 2],
                        peeks: String::new(),
                    });
                    "Ok".into()
                }
                Err(e) => format!("Err({e:?})"),
            }
        });
        true
    }

    /// Whether a claim of end `e` must have failed, must have succeeded, or neither.
    fn judge_claim(env: &Rc<Env>, st: &Rc<RefCell<St>>, ci: usize, e: usize, res: &Result<(), Error>, at: u32) {
        let st = st.borrow();
        let c = &st.ch[ci];
        let other = 1 - e;
        let dead = env.dead(c.loc[0]) || env.dead(c.loc[1]);
        match res {
            Ok(()) => {
                for x in [e, other] {
                    if c.closed[x].is_some_and(|p| p < at) {
                        env.fail("claim", format!("an end was claimed although the {} had been closed", ["sender", "receiver"][x]));
                    }
                }
            }
            Err(Error::InvalidChannel) => {
                if c.closed[other].is_none() && c.closed[e].is_none() && !c.contested[e] && !dead {
                    env.fail("claim", "claiming an end failed although nobody closed or claimed it".into());
                }
            }
            Err(Error::Shutdown) if env.dead(c.loc[e]) => {}
            Err(x) => env.fail("claim", format!("claiming an end failed with {x:?}")),
        }
    }

    fn on(&self, ci: usize, op: Op) -> bool {
        let env = self.env.clone();
        let st = self.st.clone();
        let at = self.st.borrow().phase;
        match op {
            Op::Bind(e, client) => {
                let mut s = self.st.borrow_mut();
                let c = &mut s.ch[ci];
                if !matches!(c.slot[e], Slot::Unbound) {
                    return false;
                }
                let Some(h) = self.env.handle(client) else { return false };
                c.loc[e] = client;
                c.slot[e] = if e == S {
                    Slot::Us(UnboundSender::new(c.cookie).bind(h))
                } else {
                    Slot::Ur(UnboundReceiver::new(c.cookie).bind(h))
                };
                true
            }
            Op::Unbind(e) => {
                if !matches!(self.st.borrow().ch[ci].slot[e], Slot::Us(_) | Slot::Ur(_)) {
                    return false;
                }
                match self.take(ci, e) {
                    Slot::Us(s) => drop(s.unbind()),
                    Slot::Ur(r) => drop(r.unbind()),
                    _ => unreachable!(),
                }
                self.st.borrow_mut().ch[ci].slot[e] = Slot::Unbound;
                true
            }
            Op::Claim(e, cap) => {
                if !matches!(self.st.borrow().ch[ci].slot[e], Slot::Us(_) | Slot::Ur(_)) {
                    return false;
                }
                let client = self.st.borrow().ch[ci].loc[e];
                let slot = self.take(ci, e);
                self.start(ci, e, "claim", client, async move {
                    let res = match slot {
                        Slot::Us(s) => s.claim().await.map(Slot::Snd),
                        Slot::Ur(r) => r.claim(cap).await.map(Slot::Rcv),
                        _ => unreachable!(),
                    };
                    let (slot, res) = match res {
                        Ok(s) => (s, Ok(())),
                        Err(x) => (Slot::Gone, Err(x)),
                    };
                    Self::judge_claim(&env, &st, ci, e, &res, at);
                    if res.is_ok() {
                        let mut st = st.borrow_mut();
                        st.ch[ci].claimed[e] = true;
                        if e == R {
                            st.ch[ci].cap = cap;
                        }
                    }
                    (slot, format!("{res:?}"))
                });
                true
            }
            Op::Establish(e) => {
                if !matches!(self.st.borrow().ch[ci].slot[e], Slot::Ps(_) | Slot::Pr(_)) {
                    return false;
                }
                let client = self.st.borrow().ch[ci].loc[e];
                let slot = self.take(ci, e);
                self.start(ci, e, "establish", client, async move {
                    let res = match slot {
                        Slot::Ps(s) => s.establish().await.map(Slot::Snd),
                        Slot::Pr(r) => r.establish().await.map(Slot::Rcv),
                        _ => unreachable!(),
                    };
                    let s = st.borrow();
                    let c = &s.ch[ci];
                    match res {
                        Ok(slot) => {
                            if !c.claimed[1 - e] && !matches!(c.slot[1 - e], Slot::Busy(_)) && !c.contested[1 - e] && c.closed[1 - e].is_none() {
                                env.fail("establish", "established although the other end is unclaimed".into());
                            }
                            (slot, "Ok".into())
                        }
                        Err(x) => {
                            if !(x == Error::InvalidChannel && (c.closed[1 - e].is_some() || c.contested[1 - e] || env.dead(c.loc[1 - e]))
                                || x == Error::Shutdown && env.dead(c.loc[e]))
                            {
                                env.fail("establish", format!("establishing failed with {x:?}"));
                            }
                            (Slot::Gone, format!("Err({x:?})"))
                        }
                    }
                });
                true
            }
            Op::Close(e) => {
                let ok = !matches!(self.st.borrow().ch[ci].slot[e], Slot::Unbound | Slot::Busy(_) | Slot::Gone);
                if !ok {
                    return false;
                }
                let client = self.st.borrow().ch[ci].loc[e];
                self.closing(ci, e);
                let slot = self.take(ci, e);
                self.start(ci, e, "close", client, async move {
                    let mut slot = slot;
                    let res = match &mut slot {
                        Slot::Us(x) => x.close().await,
                        Slot::Ur(x) => x.close().await,
                        Slot::Ps(x) => x.close().await,
                        Slot::Pr(x) => x.close().await,
                        Slot::Snd(x) => x.close().await,
                        Slot::Rcv(x) => x.close().await,
                        _ => unreachable!(),
                    };
                    let s = st.borrow();
                    let c = &s.ch[ci];
                    match &res {
                        Ok(()) => {}
                        Err(Error::InvalidChannel) if c.closed[1 - e].is_some() || c.contested[e] || c.contested[1 - e] || env.dead(c.loc[1 - e]) => {}
                        Err(Error::Shutdown) if env.dead(c.loc[e]) => {}
                        Err(x) => env.fail("close", format!("closing an open end failed with {x:?}")),
                    }
                    drop(s);
                    drop(slot);
                    (Slot::Gone, format!("{res:?}"))
                });
                true
            }
            Op::Drop(e) => {
                let ok = !matches!(self.st.borrow().ch[ci].slot[e], Slot::Unbound | Slot::Busy(_) | Slot::Gone);
                if ok {
                    self.closing(ci, e);
                    drop(self.take(ci, e));
                }
                ok
            }
            Op::DupClaim(e, client) => {
                let Some(h) = self.env.handle(client) else { return false };
                let cookie = {
                    let mut s = self.st.borrow_mut();
                    let c = &mut s.ch[ci];
                    // Only ends that somebody has, had or is about to have; one duplicate at a time.
                    if matches!(c.slot[e], Slot::Unbound | Slot::Us(_) | Slot::Ur(_)) || c.contested[e] {
                        return false;
                    }
                    c.contested[e] = true;
                    c.cookie
                };
                self.env.op(client, "claim again", "never", async move {
                    let res: Result<Box<dyn std::any::Any>, Error> = if e == S {
                        UnboundSender::new(cookie).claim(h).await.map(|s| Box::new(s) as _)
                    } else {
                        UnboundReceiver::new(cookie).claim(h, 3).await.map(|s| Box::new(s) as _)
                    };
                    let mut s = st.borrow_mut();
                    let c = &mut s.ch[ci];
                    match res {
                        Ok(x) => {
                            if c.claimed[e] {
                                env.fail("claim", "an end was claimed twice".into());
                            }
                            c.claimed[e] = true;
                            c.cap = c.cap.max(3);
                            s.extra.push((client, x));
                            "Ok".into()
                        }
                        Err(x) => {
                            if !(x == Error::InvalidChannel || x == Error::Shutdown && env.dead(client)) {
                                env.fail("claim", format!("claiming again failed with {x:?}"));
                            }
                            format!("Err({x:?})")
                        }
                    }
                });
                true
            }
            Op::DupDrop(e, client) => {
                let Some(h) = self.env.handle(client) else { return false };
                let mut s = self.st.borrow_mut();
                let c = &mut s.ch[ci];
                // Closing one's own end behind one's own back is the application's fault.
                if (c.loc[e] == client && !matches!(c.slot[e], Slot::Unbound | Slot::Gone)) || c.contested[e] {
                    return false;
                }
                if !c.claimed[e] {
                    // May win against a claim in flight.
                    c.contested[e] = true;
                    let p = at;
                    if !matches!(c.slot[e], Slot::Busy(_)) {
                        c.closed[e].get_or_insert(p);
                    }
                    c.lossy = true;
                }
                if e == S {
                    drop(UnboundSender::new(c.cookie).bind(h));
                } else {
                    drop(UnboundReceiver::new(c.cookie).bind(h));
                }
                true
            }
            Op::Send(n) => {
                if !matches!(self.st.borrow().ch[ci].slot[S], Slot::Snd(_)) {
                    return false;
                }
                let client = self.st.borrow().ch[ci].loc[S];
                let Slot::Snd(mut tx) = self.take(ci, S) else { unreachable!() };
                self.start(ci, S, "send", client, async move {
                    let mut res = Ok(());
                    for _ in 0..n {
                        res = tx.send_ready().await;
                        if res.is_ok() {
                            let mut s = st.borrow_mut();
                            let c = &mut s.ch[ci];
                            c.sent += 1;
                            res = tx.start_send_item(c.sent);
                            if c.sent - c.recvd > c.cap && !c.lossy {
                                env.fail("capacity", format!("{} items are outstanding with a capacity of {}", c.sent - c.recvd, c.cap));
                            }
                        }
                        match &res {
                            Ok(()) => {}
                            Err(x) => {
                                let s = st.borrow();
                                let c = &s.ch[ci];
                                if !(*x == Error::InvalidChannel && (c.closed[R].is_some() || c.contested[R] || env.dead(c.loc[R]))
                                    || (*x == Error::Shutdown || *x == Error::InvalidChannel) && env.dead(c.loc[S]))
                                {
                                    env.fail("send", format!("sending failed with {x:?}"));
                                }
                                break;
                            }
                        }
                    }
                    (Slot::Snd(tx), format!("{res:?}"))
                });
                true
            }
            Op::Recv(n) => {
                if !matches!(self.st.borrow().ch[ci].slot[R], Slot::Rcv(_)) {
                    return false;
                }
                let client = self.st.borrow().ch[ci].loc[R];
                let Slot::Rcv(mut rx) = self.take(ci, R) else { unreachable!() };
                self.start(ci, R, "recv", client, async move {
                    let mut got = 0;
                    for _ in 0..n {
                        let r = rx.next_item::<u32>().await;
                        let mut s = st.borrow_mut();
                        let c = &mut s.ch[ci];
                        if !Self::received(&env, c, r) {
                            break;
                        }
                        got += 1;
                    }
                    (Slot::Rcv(rx), format!("{got} items"))
                });
                true
            }
            Op::WaitClosed => {
                if !matches!(self.st.borrow().ch[ci].slot[S], Slot::Snd(_)) {
                    return false;
                }
                let client = self.st.borrow().ch[ci].loc[S];
                let Slot::Snd(mut tx) = self.take(ci, S) else { unreachable!() };
                self.start(ci, S, "receiver_closed", client, async move {
                    tx.receiver_closed().await;
                    let s = st.borrow();
                    let c = &s.ch[ci];
                    if c.closed[R].is_none() && !env.dead(c.loc[R]) && !env.dead(c.loc[S]) {
                        env.fail("receiver_closed", "reported although the receiver is open".into());
                    }
                    drop(s);
                    (Slot::Snd(tx), "()".into())
                });
                true
            }
            Op::PeekClosed | Op::PeekReady => {
                let mut s = self.st.borrow_mut();
                let c = &mut s.ch[ci];
                let client = c.loc[S];
                let Slot::Snd(tx) = &mut c.slot[S] else { return false };
                c.peeks += &format!("{}{}{} ", if op == Op::PeekClosed { 'c' } else { 's' }, c.sent, c.recvd);
                let cx = &mut Context::from_waker(Waker::noop());
                let gone = c.closed[R].is_some() || c.contested[R] || env.dead(c.loc[R]) || env.dead(client);
                if op == Op::PeekClosed {
                    if tx.poll_receiver_closed(cx).is_ready() && !gone {
                        env.fail("receiver_closed", "reported although the receiver is open".into());
                    }
                } else {
                    match tx.poll_send_ready(cx) {
                        Poll::Ready(Err(x)) if !(x == Error::InvalidChannel && gone || x == Error::Shutdown && env.dead(client)) => {
                            env.fail("send", format!("polling for capacity failed with {x:?}"));
                        }
                        _ => {}
                    }
                }
                true
            }
            Op::PeekEstablished(e) => {
                let mut s = self.st.borrow_mut();
                let c = &mut s.ch[ci];
                let cx = &mut Context::from_waker(Waker::noop());
                let ready = match &mut c.slot[e] {
                    Slot::Ps(x) => x.poll_wait_established(cx).is_ready(),
                    Slot::Pr(x) => x.poll_wait_established(cx).is_ready(),
                    _ => return false,
                };
                c.peeks += &format!("e{e}");
                let o = 1 - e;
                if ready && !c.claimed[o] && !matches!(c.slot[o], Slot::Busy(_)) && c.closed[o].is_none() && !env.dead(c.loc[o]) && !env.dead(c.loc[e]) {
                    env.fail("establish", "reported although the other end is unclaimed".into());
                }
                true
            }
            Op::PeekRecv => {
                let mut s = self.st.borrow_mut();
                let c = &mut s.ch[ci];
                let Slot::Rcv(rx) = &mut c.slot[R] else { return false };
                c.peeks += &format!("r{}{} ", c.sent, c.recvd);
                let cx = &mut Context::from_waker(Waker::noop());
                match rx.poll_next_item::<u32>(cx) {
                    Poll::Ready(r) => {
                        Self::received(&env, c, r);
                    }
                    Poll::Pending => {}
                }
                true
            }
            Op::SinkSend(n) => {
                if !matches!(self.st.borrow().ch[ci].slot[S], Slot::Snd(_)) {
                    return false;
                }
                let client = self.st.borrow().ch[ci].loc[S];
                let Slot::Snd(tx) = self.take(ci, S) else { unreachable!() };
                self.start(ci, S, "send", client, async move {
                    let mut tx = tx.cast::<u32>();
                    let mut res = Ok(());
                    for _ in 0..n {
                        res = poll_fn(|cx| Sink::<u32>::poll_ready(Pin::new(&mut tx), cx)).await;
                        if res.is_ok() {
                            let mut s = st.borrow_mut();
                            let c = &mut s.ch[ci];
                            c.sent += 1;
                            res = Sink::<u32>::start_send(Pin::new(&mut tx), c.sent);
                            if c.sent - c.recvd > c.cap && !c.lossy {
                                env.fail("capacity", format!("{} items are outstanding with a capacity of {}", c.sent - c.recvd, c.cap));
                            }
                        }
                        if res.is_ok() {
                            res = poll_fn(|cx| Sink::<u32>::poll_flush(Pin::new(&mut tx), cx)).await;
                        }
                        if let Err(x) = &res {
                            let s = st.borrow();
                            let c = &s.ch[ci];
                            if !(*x == Error::InvalidChannel && (c.closed[R].is_some() || c.contested[R] || env.dead(c.loc[R]))
                                || (*x == Error::Shutdown || *x == Error::InvalidChannel) && env.dead(c.loc[S]))
                            {
                                env.fail("send", format!("sending failed with {x:?}"));
                            }
                            break;
                        }
                    }
                    (Slot::Snd(tx.into_lowlevel()), format!("{res:?}"))
                });
                true
            }
            Op::StreamRecv(n) => {
                if !matches!(self.st.borrow().ch[ci].slot[R], Slot::Rcv(_)) {
                    return false;
                }
                let client = self.st.borrow().ch[ci].loc[R];
                let Slot::Rcv(rx) = self.take(ci, R) else { unreachable!() };
                self.start(ci, R, "recv", client, async move {
                    let mut rx = rx.cast::<u32>();
                    let mut got = 0;
                    for _ in 0..n {
                        let over = rx.is_terminated();
                        let r = poll_fn(|cx| Pin::new(&mut rx).poll_next(cx)).await;
                        if over && r.is_some() {
                            env.fail("items", "an item was received after the stream had reported its end".into());
                        }
                        let mut s = st.borrow_mut();
                        if !Self::received(&env, &mut s.ch[ci], r.transpose()) {
                            break;
                        }
                        got += 1;
                    }
                    (Slot::Rcv(rx.into_lowlevel()), format!("{got} items"))
                });
                true
            }
            Op::SinkClose => {
                if !matches!(self.st.borrow().ch[ci].slot[S], Slot::Snd(_)) {
                    return false;
                }
                let client = self.st.borrow().ch[ci].loc[S];
                self.closing(ci, S);
                let Slot::Snd(tx) = self.take(ci, S) else { unreachable!() };
                self.start(ci, S, "close", client, async move {
                    let mut tx = tx.cast::<u32>();
                    let res = poll_fn(|cx| Sink::<u32>::poll_close(Pin::new(&mut tx), cx)).await;
                    let s = st.borrow();
                    let c = &s.ch[ci];
                    match &res {
                        Ok(()) => {}
                        Err(Error::InvalidChannel) if c.closed[R].is_some() || c.contested[S] || c.contested[R] || env.dead(c.loc[R]) => {}
                        Err(Error::Shutdown) if env.dead(client) => {}
                        Err(x) => env.fail("close", format!("closing an open end failed with {x:?}")),
                    }
                    drop(s);
                    drop(tx);
                    (Slot::Gone, format!("{res:?}"))
                });
                true
            }
            Op::CreateS(_) | Op::CreateR(..) | Op::Cancel => unreachable!(),
        }
    }

    /// Judges what a receiver returned; `false` when there is nothing more to come.
    fn received(env: &Rc<Env>, c: &mut Chan, r: Result<Option<u32>, Error>) -> bool {
        match r {
            Ok(Some(x)) => {
                if x != c.recvd + 1 {
                    env.fail("items", format!("item {} was received after item {}", x, c.recvd));
                }
                c.recvd = x;
                if x > c.sent {
                    env.fail("items", format!("item {x} was received but never sent"));
                }
                true
            }
            Ok(None) => {
                let dead = env.dead(c.loc[R]) || env.dead(c.loc[S]);
                if c.closed[S].is_none() && !dead {
                    env.fail("items", "the stream ended although the sender is open".into());
                } else if c.recvd != c.sent && !dead && !c.lossy {
                    env.fail("items", format!("the stream ended after {} of {} items", c.recvd, c.sent));
                }
                false
            }
            Err(e) => {
                env.fail("items", format!("an item does not decode: {e:?}"));
                false
            }
        }
    }
}

impl Area for Channels {
    fn names(&self) -> Vec<String> {
        self.ops.iter().map(|o| format!("{o:?}")).collect()
    }

    fn issue(&self, op: usize) -> bool {
        match self.ops[op] {
            Op::CreateS(c) => self.create(c, true, 0),
            Op::CreateR(c, cap) => self.create(c, false, cap),
            Op::Cancel => {
                let Some(id) = self.env.last_pending() else { return false };
                let mut st = self.st.borrow_mut();
                if self.env.ops.borrow()[id].name == "claim again" {
                    // Giving up a claim closes the end; if the same client already has the end,
                    // the application closes it behind its own back.
                    let client = self.env.ops.borrow()[id].client;
                    if st.ch.iter().any(|c| (0..2).any(|e| c.contested[e] && c.loc[e] == client)) {
                        return false;
                    }
                    let p = st.phase;
                    for c in &mut st.ch {
                        for e in [S, R] {
                            if c.contested[e] && !c.claimed[e] {
                                c.closed[e].get_or_insert(p);
                                c.lossy = true;
                            }
                        }
                    }
                }
                drop(st);
                self.give_up(id);
                true
            }
            o => {
                // The first channel the operation applies to.
                let n = self.st.borrow().ch.len();
                (0..n).any(|ci| self.on(ci, o))
            }
        }
    }

    fn sig(&self) -> String {
        let st = self.st.borrow();
        let mut v: Vec<String> = st
            .ch
            .iter()
            .map(|c| {
                format!(
                    "{}@{} {}@{} claimed{:?} closed{:?} cont{:?} cap{} {}/{} lossy{} {}",
                    c.slot[S].name(),
                    c.loc[S],
                    c.slot[R].name(),
                    c.loc[R],
                    c.claimed,
                    c.closed.map(|x| x.is_some()),
                    c.contested,
                    c.cap,
                    c.sent,
                    c.recvd,
                    c.lossy,
                    c.peeks
                )
            })
            .collect();
        v.push(format!("creating{} extra{}", st.creating, st.extra.len()));
        v.join(";")
    }

    fn quiet(&self) {
        let mut st = self.st.borrow_mut();
        st.phase += 1;
        for c in &mut st.ch {
            for e in [S, R] {
                // Duplicate claims that lost leave no trace.
                if c.claimed[e] && c.slot[e].name() == "live" {
                    c.contested[e] = false;
                }
            }
        }
        let st = &*st;
        for i in self.env.pending_ops() {
            let ops = self.env.ops.borrow();
            let o = &ops[i];
            let mut p = o.tag.split(' ');
            let what = p.next().unwrap().to_string();
            let legit = if let (Some(ci), Some(e)) = (p.next(), p.next()) {
                let c = &st.ch[ci.parse::<usize>().unwrap()];
                let e: usize = e.parse().unwrap();
                let over = self.end_over(c, 1 - e);
                !self.env.dead(o.client)
                    && match &*what {
                        // A second holder that has died may not have got round to closing the end.
                        "establish" => {
                            (!over || c.contested[1 - e] && (0..2).any(|x| self.env.dead(x))) && !c.claimed[1 - e]
                        }
                        "send" => !over && c.sent > c.recvd,
                        "recv" => !over && c.sent == c.recvd,
                        "receiver_closed" => !over,
                        _ => false,
                    }
            } else {
                false
            };
            if !legit {
                let (name, state) = (o.name.clone(), st.ch.iter().map(|c| format!("{}/{}", c.slot[S].name(), c.slot[R].name())).collect::<Vec<_>>());
                drop(ops);
                self.env.fail(&format!("stuck/{what}"), format!("{name} does not complete; ends are {state:?}"));
            }
        }
    }

    fn wind(&self) -> bool {
        let n = self.st.borrow().ch.len();
        if let Some(x) = {
            let x = self.st.borrow_mut().extra.pop();
            x
        } {
            drop(x);
            // A duplicate that won is an end like any other.
            let mut st = self.st.borrow_mut();
            let p = st.phase;
            for c in &mut st.ch {
                for e in [S, R] {
                    if c.claimed[e] {
                        c.closed[e].get_or_insert(p);
                        c.lossy = true;
                    }
                }
            }
            return true;
        }
        for ci in 0..n {
            for e in [S, R] {
                if matches!(self.st.borrow().ch[ci].slot[e], Slot::Unbound) {
                    // Nobody holds the end; the application binds and drops it.
                    let h = (0..2).find(|&c| !self.env.dead(c)).and_then(|c| self.env.handle(c));
                    let (cookie, p) = {
                        let mut st = self.st.borrow_mut();
                        let p = st.phase;
                        st.ch[ci].slot[e] = Slot::Gone;
                        (st.ch[ci].cookie, p)
                    };
                    self.st.borrow_mut().ch[ci].closed[e].get_or_insert(p);
                    if let Some(h) = h {
                        if e == S {
                            drop(UnboundSender::new(cookie).bind(h));
                        } else {
                            drop(UnboundReceiver::new(cookie).bind(h));
                        }
                    }
                    return true;
                }
                if self.on(ci, Op::Drop(e)) {
                    return true;
                }
            }
        }
        // An application that waits for its peer's end to be closed while that peer waits for an
        // item is stuck through its own fault; it gives up waiting.
        let wait = self.env.pending_ops().into_iter().find(|&i| self.env.ops.borrow()[i].tag.starts_with("receiver_closed"));
        if let Some(id) = wait {
            self.give_up(id);
            return true;
        }
        false
    }

    fn poke(&self, client: usize) {
        let n = self.st.borrow().ch.len();
        for ci in 0..n {
            for e in [S, R] {
                if self.st.borrow().ch[ci].loc[e] != client {
                    continue;
                }
                let slot = self.take(ci, e);
                type F = Pin<Box<dyn Future<Output = String>>>;
                let f: Option<(&str, F)> = match slot {
                    Slot::Us(s) => Some(("claim", Box::pin(async move { format!("{:?}", s.claim().await.map(|_| ())) }))),
                    Slot::Ur(s) => Some(("claim", Box::pin(async move { format!("{:?}", s.claim(2).await.map(|_| ())) }))),
                    Slot::Ps(s) => Some(("establish", Box::pin(async move { format!("{:?}", s.establish().await.map(|_| ())) }))),
                    Slot::Pr(s) => Some(("establish", Box::pin(async move { format!("{:?}", s.establish().await.map(|_| ())) }))),
                    Slot::Snd(mut s) => Some((
                        "send",
                        Box::pin(async move {
                            s.receiver_closed().await;
                            let a = s.send_item(1u32).await;
                            let b = s.close().await;
                            format!("{a:?}{b:?}")
                        }),
                    )),
                    Slot::Rcv(mut r) => Some((
                        "recv",
                        Box::pin(async move {
                            while let Ok(Some(_)) = r.next_item::<u32>().await {}
                            let b = r.close().await;
                            format!("{b:?}")
                        }),
                    )),
                    s => {
                        self.st.borrow_mut().ch[ci].slot[e] = s;
                        None
                    }
                };
                if let Some((n, f)) = f {
                    self.env.op(client, format!("{n} on a stopped client"), format!("poke {n}"), f);
                }
            }
        }
        if let Some(h) = self.env.handle(client) {
            self.env.op(client, "create channel on a stopped client", "poke", async move {
                let a = h.create_low_level_channel().claim_sender().await.map(|_| ());
                let b = h.create_low_level_channel().claim_receiver(1).await.map(|_| ());
                format!("{a:?}{b:?}")
            });
        }
    }
}
