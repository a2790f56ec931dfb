//! C14: byte-stream framing is independent of fragmentation and backpressure.

use crate::util::slice;
use aldrin_core::message::{
    CreateObject, Message, MessageOps, Packetizer, SendItem, Shutdown, Sync,
};
use aldrin_core::tokio::{TokioTransport, TokioTransportError};
use aldrin_core::transport::{AsyncTransport, AsyncTransportExt};
use aldrin_core::{ChannelCookie, ObjectUuid};
use mc_common::choice::{successors, Choices};
use mc_common::{catch, hex, Ctx};
use serde_json::{json, Value as Json};
use std::collections::HashMap;
use std::future::Future;
use std::io::{Error as IoError, ErrorKind};
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use uuid::Uuid;

/// A message whose frame has exactly `n` bytes and whose content depends on `seed`.
pub fn msg(n: usize, seed: u8) -> Message {
    let id = Uuid::from_bytes([seed; 16]);
    match n {
        5 => Shutdown.into(),
        6 => Sync { serial: u32::from(seed % 200) }.into(),
        7..=10 => Sync { serial: 0xfe23_4567 >> (8 * (10 - n)) }.into(),
        22 => CreateObject { serial: u32::from(seed % 200), uuid: ObjectUuid(id) }.into(),
        n if n >= 26 => {
            let mut v = vec![0u8; n - 25];
            for (i, b) in v.iter_mut().enumerate() {
                *b = (i as u8).wrapping_mul(31).wrapping_add((i >> 8) as u8).wrapping_add(seed);
            }
            SendItem { cookie: ChannelCookie(id), value: slice(&v).to_owned() }.into()
        }
        n => panic!("harness: no message of {n} bytes"),
    }
}

fn frame(n: usize, seed: u8) -> Vec<u8> {
    let f = msg(n, seed).serialize_message().unwrap().to_vec();
    assert_eq!(f.len(), n, "harness: frame size");
    f
}

// ---------------------------------------------------------------------------------------------
// Packetizer

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Extend,
    Spare,
    /// Alternates, starting with the slice interface.
    Alt,
}

/// When finished frames are taken out of the packetizer.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Drain {
    All,
    One,
    End,
    /// Everything, but only after every second piece.
    Second,
    /// Ask once at the first piece, then only at the end.
    FirstThenEnd,
}

const VIAS: [Via; 3] = [Via::Extend, Via::Spare, Via::Alt];
const DRAINS: [Drain; 5] = [Drain::All, Drain::One, Drain::End, Drain::Second, Drain::FirstThenEnd];

struct Feed<'a> {
    p: Packetizer,
    stream: &'a [u8],
    /// End offsets of all frames.
    ends: &'a [usize],
    fed: usize,
    taken: usize,
}

impl<'a> Feed<'a> {
    fn new(stream: &'a [u8], ends: &'a [usize]) -> Self {
        Self { p: Packetizer::new(), stream, ends, fed: 0, taken: 0 }
    }

    fn feed(&mut self, to: usize, spare: bool) -> Result<(), String> {
        if !spare {
            self.p.extend_from_slice(&self.stream[self.fed..to]);
            self.fed = to;
            return Ok(());
        }
        while self.fed < to {
            let n = self.feed_spare(to)?;
            self.fed += n;
        }
        Ok(())
    }

    /// One write through the spare capacity, of at most up to `to`.
    fn feed_spare(&mut self, to: usize) -> Result<usize, String> {
        let s = self.p.spare_capacity_mut();
        if s.is_empty() {
            return Err(format!("spare_capacity_mut returned an empty slice after {} bytes", self.fed));
        }
        let n = s.len().min(to - self.fed);
        for (d, s) in s.iter_mut().zip(&self.stream[self.fed..self.fed + n]) {
            d.write(*s);
        }
        unsafe { self.p.bytes_written(n) };
        Ok(n)
    }

    /// Takes one frame, if there is one.
    fn take(&mut self) -> Result<bool, String> {
        let start = if self.taken == 0 { 0 } else { self.ends[self.taken - 1] };
        let complete = self.ends.get(self.taken).is_some_and(|e| *e <= self.fed);
        match self.p.next_message() {
            Some(f) => {
                if !complete {
                    return Err(format!("frame {} was yielded after only {} bytes: {} bytes", self.taken, self.fed, f.len()));
                }
                let want = &self.stream[start..self.ends[self.taken]];
                if *f != *want {
                    return Err(format!(
                        "frame {} differs: {} bytes {}.., expected {} bytes {}..",
                        self.taken,
                        f.len(),
                        hex(&f[..f.len().min(24)]),
                        want.len(),
                        hex(&want[..want.len().min(24)])
                    ));
                }
                self.taken += 1;
                Ok(true)
            }
            None if complete => Err(format!("frame {} is complete after {} bytes but wasn't yielded", self.taken, self.fed)),
            None => Ok(false),
        }
    }

    fn drain(&mut self) -> Result<(), String> {
        while self.take()? {}
        Ok(())
    }

    fn finish(mut self) -> Result<(), String> {
        self.drain()?;
        if self.fed == self.stream.len() && self.taken != self.ends.len() {
            return Err(format!("{} of {} frames yielded", self.taken, self.ends.len()));
        }
        Ok(())
    }
}

fn stream(sizes: &[usize]) -> (Vec<u8>, Vec<usize>) {
    let mut s = Vec::new();
    let mut e = Vec::new();
    for (i, n) in sizes.iter().enumerate() {
        s.extend_from_slice(&frame(*n, i as u8 * 3 + 1));
        e.push(s.len());
    }
    (s, e)
}

fn run_cuts(s: &[u8], ends: &[usize], cuts: &[usize], via: Via, drain: Drain) -> Result<(), String> {
    let mut f = Feed::new(s, ends);
    for (i, c) in cuts.iter().chain([&s.len()]).enumerate() {
        f.feed(*c, via == Via::Spare || (via == Via::Alt && i % 2 == 1))?;
        match drain {
            Drain::All => f.drain()?,
            Drain::One => {
                f.take()?;
            }
            Drain::End => {}
            Drain::Second if i % 2 == 1 => f.drain()?,
            Drain::FirstThenEnd if i == 0 => {
                f.take()?;
            }
            _ => {}
        }
    }
    f.finish()
}

fn fail_p(ctx: &Ctx, sizes: &[usize], what: &str, steps: Json, e: String) {
    ctx.violation(
        &format!("packetizer:{sizes:?}:{steps}"),
        &format!("packetizer fed frames of {sizes:?} bytes, {what} {steps}: {e}"),
        json!({"part": "packetizer", "sizes": sizes, "what": what, "steps": steps}),
    );
}

fn check_cuts(ctx: &Ctx, sizes: &[usize], s: &[u8], ends: &[usize], cuts: &[usize], via: Via, drain: Drain) {
    ctx.add_transitions(cuts.len() as u64 + 1);
    ctx.mark(format!("{sizes:?} {cuts:?} {via:?} {drain:?}").as_bytes());
    let r = catch(|| run_cuts(s, ends, cuts, via, drain)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
    if let Err(e) = r {
        let steps = json!({"cuts": cuts, "via": format!("{via:?}"), "drain": format!("{drain:?}")});
        fail_p(ctx, sizes, "cut at", steps, e);
    }
}

/// Per byte position one of: no cut, or a cut with one of two interfaces and three ways to drain.
fn run_free(s: &[u8], ends: &[usize], code: &[u8]) -> Result<(), String> {
    let mut f = Feed::new(s, ends);
    for (i, c) in code.iter().enumerate() {
        if *c == 0 {
            continue;
        }
        f.feed(i + 1, (c - 1) % 2 == 1)?;
        match (c - 1) / 2 {
            0 => f.drain()?,
            1 => {
                f.take()?;
            }
            _ => {}
        }
    }
    f.feed(s.len(), code.first().is_some_and(|c| *c == 0))?;
    f.finish()
}

fn check_free(ctx: &Ctx, sizes: &[usize], s: &[u8], ends: &[usize], code: &[u8]) {
    ctx.add_transitions(code.len() as u64);
    ctx.mark(code);
    let r = catch(|| run_free(s, ends, code)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
    if let Err(e) = r {
        fail_p(ctx, sizes, "with per-byte actions", json!({"code": code}), e);
    }
}

/// Reads the way a transport does: always fills as much of the offered slice as `pat` says.
fn check_greedy(ctx: &Ctx, sizes: &[usize], s: &[u8], ends: &[usize], pat: &[usize], drain_every: usize) {
    ctx.add_transitions(1);
    ctx.mark(format!("{sizes:?} {pat:?} {drain_every}").as_bytes());
    let r = catch(|| {
        let mut f = Feed::new(s, ends);
        let mut i = 0;
        while f.fed < s.len() {
            let max = pat[i % pat.len()];
            let to = if max == 0 { s.len() } else { (f.fed + max).min(s.len()) };
            let n = f.feed_spare(to)?;
            f.fed += n;
            if drain_every > 0 && i % drain_every == 0 {
                f.drain()?;
            }
            i += 1;
        }
        f.finish()
    })
    .unwrap_or_else(|p| Err(format!("panicked: {p}")));
    if let Err(e) = r {
        fail_p(ctx, sizes, "filling spare capacity", json!({"pat": pat, "drain_every": drain_every}), e);
    }
}

fn packetizer(ctx: &Ctx) {
    // Every chunking of short streams with every interface and drain choice per cut.
    let free: &[&[usize]] = if ctx.thorough {
        &[&[5], &[6], &[7], &[8], &[5, 5]]
    } else {
        &[&[5], &[6], &[7], &[8]]
    };
    for sizes in free {
        let (s, ends) = stream(sizes);
        let n = s.len() - 1;
        ctx.par(49, |first| {
            let mut code = vec![0u8; n];
            code[0] = (first % 7) as u8;
            code[1] = (first / 7) as u8;
            let mut runs = 0u64;
            loop {
                check_free(ctx, sizes, &s, &ends, &code);
                runs += 1;
                let mut i = 2;
                while i < n {
                    code[i] += 1;
                    if code[i] < 7 {
                        break;
                    }
                    code[i] = 0;
                    i += 1;
                }
                if i >= n || ctx.stopped() {
                    break;
                }
            }
            ctx.add_states(runs);
        });
    }

    // Every chunking of several frames, uniform interface and drain policies.
    let many: &[&[usize]] = if ctx.thorough {
        &[&[5, 5], &[5, 6], &[6, 5], &[5, 5, 5], &[6, 6, 5], &[5, 10], &[10, 6], &[7, 5, 8], &[5, 5, 5, 5], &[22]]
    } else {
        &[&[5, 5], &[5, 6], &[6, 5], &[5, 5, 5], &[6, 6, 5], &[5, 10], &[10, 6]]
    };
    for sizes in many {
        let (s, ends) = stream(sizes);
        let n = s.len() - 1;
        ctx.sample(json!({"part": "packetizer", "sizes": sizes, "chunkings": 1u64 << n}));
        ctx.par(256, |lo| {
            let mut cuts = Vec::new();
            let mut runs = 0;
            for hi in 0..1u32 << (n.saturating_sub(8)) {
                let m = hi << 8 | lo as u32;
                cuts.clear();
                cuts.extend((1..=n).filter(|i| m >> (i - 1) & 1 == 1));
                for via in VIAS {
                    for drain in DRAINS {
                        check_cuts(ctx, sizes, &s, &ends, &cuts, via, drain);
                        runs += 1;
                    }
                }
                if ctx.stopped() {
                    break;
                }
            }
            ctx.add_states(runs);
        });
    }

    // Large frames around the buffer sizes, cut at all critical offsets.
    const K: usize = 64 * 1024;
    let mut big: Vec<Vec<usize>> = Vec::new();
    for d in [-6i64, -5, -4, -1, 0, 1, 4, 5] {
        let n = (K as i64 + d) as usize;
        big.push(vec![n, 5]);
        big.push(vec![5, n, 6]);
        big.push(vec![22, n, n]);
        big.push(vec![K - 40, n, 5]);
    }
    big.push(vec![2 * K - 1, 5, 2 * K + 1]);
    big.push(vec![300, 3 * K, 5]);
    big.push(vec![K / 2, K / 2, K / 2 + 1, 5]);
    let kmax = if ctx.thorough { 3 } else { 2 };
    ctx.par(big.len(), |i| {
        let sizes = &big[i];
        let (s, ends) = stream(sizes);
        let mut crit = std::collections::BTreeSet::new();
        let mut start = 0;
        for e in &ends {
            for d in [0usize, 1, 3, 4, 5] {
                crit.insert(start + d);
            }
            crit.insert(e - 1);
            start = *e;
        }
        for k in (K..s.len() + 2).step_by(K) {
            for d in [-1i64, 0, 1] {
                crit.insert((k as i64 + d) as usize);
            }
        }
        let crit: Vec<usize> = crit.into_iter().filter(|c| *c > 0 && *c < s.len()).collect();
        let mut runs = 0;
        let mut sets: Vec<Vec<usize>> = vec![vec![]];
        let mut todo: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..kmax {
            let mut next = Vec::new();
            for t in &todo {
                for c in crit.iter().filter(|c| t.last().is_none_or(|l| *c > l)) {
                    let mut n = t.clone();
                    n.push(*c);
                    next.push(n);
                }
            }
            sets.extend(next.iter().cloned());
            todo = next;
        }
        for cuts in &sets {
            for via in VIAS {
                for drain in DRAINS {
                    check_cuts(ctx, sizes, &s, &ends, cuts, via, drain);
                    runs += 1;
                }
            }
            if ctx.stopped() {
                break;
            }
        }
        for pat in [&[0usize][..], &[1, 0], &[4, 0], &[5, 0], &[3, 1, 0], &[1000], &[K], &[K - 1], &[K - 5, 5], &[0, 1], &[4096, 1]] {
            for drain_every in [1, 2, 3, 0] {
                check_greedy(ctx, sizes, &s, &ends, pat, drain_every);
                runs += 1;
            }
        }
        ctx.add_states(runs);
    });

    // Frames beyond the biggest single reservation.
    let huge: &[&[usize]] = if ctx.thorough {
        &[&[5, 4 * 1024 * 1024 + 1, 5], &[9 * 1024 * 1024, 5], &[4 * 1024 * 1024, 5, 6]]
    } else {
        &[&[5, 4 * 1024 * 1024 + 1, 5], &[9 * 1024 * 1024, 5]]
    };
    ctx.par(huge.len(), |i| {
        let sizes = huge[i];
        let (s, ends) = stream(sizes);
        for (pat, de) in [(&[0usize][..], 1), (&[0][..], 0), (&[4, 0], 1), (&[1 << 20], 1), (&[1 << 20, 1], 3), (&[5, K + 1], 1)] {
            check_greedy(ctx, sizes, &s, &ends, pat, de);
        }
        for via in VIAS {
            for cuts in [&[1usize][..], &[5], &[9], &[5, 9], &[4 << 20], &[5, 4 << 20]] {
                check_cuts(ctx, sizes, &s, &ends, cuts, via, Drain::All);
                check_cuts(ctx, sizes, &s, &ends, cuts, via, Drain::End);
            }
        }
        ctx.add_states(42);
    });

    // A huge announced length must not make it misbehave while the frame isn't complete.
    for len in [1u32 << 16, 1 << 22, 1 << 30, u32::MAX] {
        for first in [4usize, 5, 100] {
            let r = catch(|| {
                let mut p = Packetizer::new();
                let mut b = vec![0u8; first];
                b[..4].copy_from_slice(&len.to_le_bytes());
                p.extend_from_slice(&b);
                if p.next_message().is_some() {
                    return Err("yielded an incomplete frame".to_string());
                }
                for _ in 0..20 {
                    let s = p.spare_capacity_mut();
                    if s.is_empty() {
                        return Err("spare_capacity_mut returned an empty slice".into());
                    }
                    let n = s.len().min(1000);
                    for b in &mut s[..n] {
                        b.write(7);
                    }
                    unsafe { p.bytes_written(n) };
                    if p.next_message().is_some() {
                        return Err("yielded an incomplete frame".into());
                    }
                }
                Ok(())
            })
            .unwrap_or_else(|p| Err(format!("panicked: {p}")));
            ctx.add_states(1);
            if let Err(e) = r {
                fail_p(ctx, &[len as usize], "first bytes", json!({"first": first}), e);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Stream transport

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Eof,
    Err,
}

struct State {
    ch: Choices,
    input: Arc<Vec<u8>>,
    pos: usize,
    end: End,
    written: Vec<u8>,
    /// How many bytes had been written at the last successful flush.
    flushed: usize,
    read_waker: Option<Waker>,
    write_waker: Option<Waker>,
    /// What the last failing I/O call returned.
    read_err: Option<ErrorKind>,
    write_err: Option<ErrorKind>,
    bad: Option<String>,
    faults: bool,
    calls: u64,
}

impl State {
    /// Counts a call into the I/O object. Every scenario needs a few thousand of them at most, so a
    /// transport that makes this many never comes to an end (it would otherwise record choices
    /// until the memory runs out).
    fn called(&mut self) {
        self.calls += 1;
        if self.calls > 200_000 {
            panic!("the transport goes on polling the I/O object without end");
        }
    }
}

#[derive(Clone)]
struct Io(Arc<Mutex<State>>);

impl AsyncRead for Io {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context, buf: &mut ReadBuf) -> Poll<std::io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        let s = &mut *s;
        s.called();
        if buf.remaining() == 0 {
            s.bad = Some("the transport tried to read into an empty buffer".into());
            return Poll::Ready(Ok(()));
        }
        if s.read_err.is_some() {
            s.bad = Some("the transport went on reading after an error".into());
        }
        let avail = (s.input.len() - s.pos).min(buf.remaining());
        if avail == 0 {
            if s.ch.pick(2) == 1 {
                s.read_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            return match s.end {
                End::Eof => {
                    s.read_err = Some(ErrorKind::UnexpectedEof);
                    Poll::Ready(Ok(()))
                }
                End::Err => {
                    s.read_err = Some(ErrorKind::ConnectionReset);
                    Poll::Ready(Err(ErrorKind::ConnectionReset.into()))
                }
            };
        }
        let mut sizes = vec![avail];
        for n in [1, 3, 4, avail / 2, avail - 1] {
            if n > 0 && n < avail && !sizes.contains(&n) {
                sizes.push(n);
            }
        }
        let c = s.ch.pick(sizes.len() + 1 + usize::from(s.faults));
        if c == sizes.len() {
            s.read_waker = Some(cx.waker().clone());
            return Poll::Pending;
        } else if c > sizes.len() {
            s.read_err = Some(ErrorKind::ConnectionAborted);
            return Poll::Ready(Err(ErrorKind::ConnectionAborted.into()));
        }
        buf.put_slice(&s.input[s.pos..s.pos + sizes[c]]);
        s.pos += sizes[c];
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Io {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<Result<usize, IoError>> {
        let mut s = self.0.lock().unwrap();
        let s = &mut *s;
        s.called();
        if s.write_err.is_some() {
            s.bad = Some("the transport went on writing after an error".into());
        }
        if buf.is_empty() {
            s.bad = Some("the transport wrote an empty buffer".into());
            return Poll::Ready(Ok(0));
        }
        let mut sizes = vec![buf.len()];
        for n in [1, 4, buf.len() / 2, buf.len() - 1] {
            if n > 0 && n < buf.len() && !sizes.contains(&n) {
                sizes.push(n);
            }
        }
        let c = s.ch.pick(sizes.len() + 1 + if s.faults { 2 } else { 0 });
        if c == sizes.len() {
            s.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        } else if c == sizes.len() + 1 {
            s.write_err = Some(ErrorKind::WriteZero);
            return Poll::Ready(Ok(0));
        } else if c > sizes.len() {
            s.write_err = Some(ErrorKind::BrokenPipe);
            return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
        }
        s.written.extend_from_slice(&buf[..sizes[c]]);
        Poll::Ready(Ok(sizes[c]))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), IoError>> {
        let mut s = self.0.lock().unwrap();
        s.called();
        let f = usize::from(s.faults);
        match s.ch.pick(2 + f) {
            0 => {
                s.flushed = s.written.len();
                Poll::Ready(Ok(()))
            }
            1 => {
                s.write_waker = Some(cx.waker().clone());
                Poll::Pending
            }
            _ => {
                s.write_err = Some(ErrorKind::TimedOut);
                Poll::Ready(Err(ErrorKind::TimedOut.into()))
            }
        }
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), IoError>> {
        Poll::Ready(Ok(()))
    }
}

struct CountWaker(AtomicU64);

impl Wake for CountWaker {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// One step of the sending application.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Send(usize),
    Flush,
    SendFlush(usize),
}
use Op::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Wrap {
    Plain,
    Buffered,
    BoxedMap,
    Ref,
    BoxedBuffered,
}

const WRAPS: [Wrap; 5] = [Wrap::Plain, Wrap::Buffered, Wrap::BoxedMap, Wrap::Ref, Wrap::BoxedBuffered];

#[derive(Clone, Debug)]
struct Scenario {
    wrap: Wrap,
    ops: Vec<Op>,
    input: Vec<usize>,
    /// The incoming stream ends here.
    cut: usize,
    end: End,
    faults: bool,
}

trait Kind {
    fn io_kind(&self) -> Option<ErrorKind>;
}

impl Kind for TokioTransportError {
    fn io_kind(&self) -> Option<ErrorKind> {
        match self {
            Self::Io(e) => Some(e.kind()),
            _ => None,
        }
    }
}

struct Mapped(TokioTransportError);

impl Kind for Mapped {
    fn io_kind(&self) -> Option<ErrorKind> {
        self.0.io_kind()
    }
}

/// Drives one side each: receiving until the stream ends, and the list of send operations.
fn drive<T>(mut t: T, st: &Arc<Mutex<State>>, sc: &Scenario, msgs: &HashMap<usize, Message>) -> Result<(), String>
where
    T: AsyncTransport + Unpin,
    T::Error: Kind,
{
    let mut ends = Vec::new();
    let mut want_in = Vec::new();
    let mut pos = 0;
    for (i, n) in sc.input.iter().enumerate() {
        pos += n;
        ends.push(pos);
        want_in.push(msg(*n, i as u8 * 3 + 1));
    }
    let complete = ends.iter().filter(|e| **e <= sc.cut).count();

    let rw = Arc::new(CountWaker(AtomicU64::new(0)));
    let sw = Arc::new(CountWaker(AtomicU64::new(0)));
    let (rwk, swk) = (Waker::from(rw.clone()), Waker::from(sw.clone()));
    let mut received = 0usize;
    let mut recv_done = sc.input.is_empty();
    let mut out: Vec<u8> = Vec::new();
    let mut op = 0usize;
    let mut step_send_started = false;
    let mut send_done = sc.ops.is_empty();

    // The two directions are polled in turns; which one goes first is a choice.
    let mut turn = if !recv_done && !send_done { st.lock().unwrap().ch.pick(2) } else { usize::from(recv_done) };
    let mut guard = 0;
    while !(recv_done && send_done) {
        guard += 1;
        if guard > 100_000 {
            return Err("no progress".into());
        }
        if turn == 0 && !recv_done {
            st.lock().unwrap().read_waker = None;
            let r = {
                let mut cx = Context::from_waker(&rwk);
                pin!(t.receive()).poll(&mut cx)
            };
            let s = st.lock().unwrap();
            match r {
                Poll::Pending => match &s.read_waker {
                    Some(w) if w.will_wake(&rwk) => {}
                    _ => return Err(format!("receiving message {received} is pending, but nothing is going to wake it")),
                },
                Poll::Ready(Ok(m)) => {
                    if received >= complete {
                        return Err(format!("received {m:?} although only {complete} messages are complete"));
                    }
                    if m != want_in[received] {
                        return Err(format!("message {received} differs"));
                    }
                    received += 1;
                }
                Poll::Ready(Err(e)) => {
                    match (e.io_kind(), s.read_err) {
                        (Some(k), Some(w)) if k == w => {}
                        (k, w) => return Err(format!("receiving failed with {k:?}, but the I/O gave {w:?}")),
                    }
                    if s.pos == sc.cut && s.read_err != Some(ErrorKind::ConnectionAborted) && received != complete {
                        return Err(format!("only {received} of {complete} messages received before the end of the stream"));
                    }
                    recv_done = true;
                }
            }
            if s.read_err.is_some() && !recv_done {
                return Err(format!("the I/O gave {:?}, which wasn't reported", s.read_err));
            }
        } else if turn == 1 && !send_done {
            st.lock().unwrap().write_waker = None;
            let mut cx = Context::from_waker(&swk);
            let cur = sc.ops[op];
            let mut flushing = false;
            let r = match cur {
                Send(i) => match t.send_poll_ready_unpin(&mut cx) {
                    Poll::Ready(Ok(())) => {
                        let r = t.send_start_unpin(msgs[&i].clone());
                        if r.is_ok() {
                            out.extend_from_slice(&msgs[&i].clone().serialize_message().unwrap());
                        }
                        Poll::Ready(r)
                    }
                    p => p,
                },
                Flush => {
                    flushing = true;
                    pin!(t.flush()).poll(&mut cx)
                }
                SendFlush(i) => {
                    // The future is driven to completion here, because it borrows the transport.
                    flushing = true;
                    let mut f = pin!(t.send_and_flush(msgs[&i].clone()));
                    if !step_send_started {
                        out.extend_from_slice(&msgs[&i].clone().serialize_message().unwrap());
                        step_send_started = true;
                    }
                    loop {
                        st.lock().unwrap().write_waker = None;
                        let mut cx = Context::from_waker(&swk);
                        match f.as_mut().poll(&mut cx) {
                            Poll::Pending => {
                                let s = st.lock().unwrap();
                                match &s.write_waker {
                                    Some(w) if w.will_wake(&swk) => {}
                                    _ => return Err(format!("{cur:?} is pending, but nothing is going to wake it")),
                                }
                            }
                            r => break r,
                        }
                    }
                }
            };
            let s = st.lock().unwrap();
            if s.written.len() > out.len() || s.written != out[..s.written.len()] {
                return Err(format!("after {cur:?}: {} bytes written, which aren't the first of the {} bytes sent", s.written.len(), out.len()));
            }
            match r {
                Poll::Pending => match &s.write_waker {
                    Some(w) if w.will_wake(&swk) => {}
                    _ => return Err(format!("{cur:?} is pending, but nothing is going to wake it")),
                },
                Poll::Ready(Ok(())) => {
                    if flushing && s.written.len() != out.len() {
                        return Err(format!("{cur:?} returned, but only {} of {} bytes were written", s.written.len(), out.len()));
                    }
                    if flushing && s.flushed != out.len() {
                        return Err(format!("{cur:?} returned, but the I/O was flushed only up to {} of {} bytes", s.flushed, out.len()));
                    }
                    op += 1;
                    step_send_started = false;
                    send_done = op == sc.ops.len();
                }
                Poll::Ready(Err(e)) => {
                    match (e.io_kind(), s.write_err) {
                        (Some(k), Some(w)) if k == w => {}
                        (k, w) => return Err(format!("{cur:?} failed with {k:?}, but the I/O gave {w:?}")),
                    }
                    send_done = true;
                }
            }
            if s.write_err.is_some() && !send_done {
                return Err(format!("{cur:?}: the I/O gave {:?}, which wasn't reported", s.write_err));
            }
            if s.write_err.is_some() && s.written.len() < out.len() && op == sc.ops.len() {
                return Err(format!("{cur:?}: an I/O error went unreported"));
            }
        }
        if let Some(b) = &st.lock().unwrap().bad {
            return Err(b.clone());
        }
        turn = 1 - turn;
    }
    Ok(())
}

fn run_scenario(sc: &Scenario, input: &Arc<Vec<u8>>, msgs: &HashMap<usize, Message>, ch: &mut Choices) -> (Result<(), String>, u64) {
    let st = Arc::new(Mutex::new(State {
        ch: std::mem::take(ch),
        input: input.clone(),
        pos: 0,
        end: sc.end,
        written: Vec::new(),
        flushed: 0,
        read_waker: None,
        write_waker: None,
        read_err: None,
        write_err: None,
        bad: None,
        faults: sc.faults,
        calls: 0,
    }));
    let r = catch(|| {
        let t = TokioTransport::new(Io(st.clone()));
        match sc.wrap {
            Wrap::Plain => drive(t, &st, sc, msgs),
            Wrap::Buffered => drive(t.buffered(), &st, sc, msgs),
            Wrap::BoxedMap => drive(t.map_err(Mapped).boxed(), &st, sc, msgs),
            Wrap::Ref => {
                let mut t = Box::new(t);
                drive(&mut t, &st, sc, msgs)
            }
            Wrap::BoxedBuffered => drive(t.boxed().buffered().boxed(), &st, sc, msgs),
        }
    })
    .unwrap_or_else(|p| Err(format!("panicked: {p}")));
    let mut s = match st.lock() {
        Ok(s) => s,
        Err(p) => p.into_inner(),
    };
    *ch = std::mem::take(&mut s.ch);
    (r, s.calls)
}

fn ops(wrap: Wrap) -> Vec<Vec<Op>> {
    let mut v = vec![
        vec![Send(5), Flush],
        vec![SendFlush(6), SendFlush(22)],
        vec![Flush, Send(6), Send(5), Send(22), Flush, Flush],
        vec![Send(8192), Send(5), Flush],
        vec![Send(8191), Send(6), Send(5), Flush],
        vec![Send(8186), Send(6), Send(22), Flush, Send(5), SendFlush(9000)],
        vec![Send(3000), Send(3001), Send(3002), Send(3003), Send(5), Flush],
        vec![Send(9000), Send(8192), Send(20000), SendFlush(5)],
        vec![SendFlush(8192), Send(70000), Send(5), Flush],
    ];
    if wrap == Wrap::Buffered {
        v.push(vec![Send(8192), Send(8193), Send(5), Send(8192), Send(6), Flush, Send(22), Flush]);
    }
    v
}

fn scenarios(thorough: bool) -> Vec<(Scenario, u32)> {
    let mut out = Vec::new();
    let d = if thorough { 6 } else { 4 };
    for wrap in WRAPS {
        for ops in ops(wrap) {
            for faults in [false, true] {
                out.push((
                    Scenario { wrap, ops: ops.clone(), input: vec![], cut: 0, end: End::Eof, faults },
                    d,
                ));
            }
        }
    }
    // Many messages before the flush.
    for wrap in WRAPS {
        for n in [10usize, 17, 33, 70, 300] {
            let sizes = [5usize, 6, 22, 5, 3000, 6, 5, 8191, 22, 22, 6];
            let mut ops: Vec<Op> = (0..n).map(|i| Send(sizes[(i + i / sizes.len()) % sizes.len()])).collect();
            ops.push(Flush);
            ops.extend([Send(6), Send(5), Flush]);
            let dev = if n > 100 { 1 } else { 2 };
            out.push((Scenario { wrap, ops, input: vec![], cut: 0, end: End::Eof, faults: n < 20 }, dev));
        }
    }
    for wrap in [Wrap::Plain, Wrap::BoxedBuffered] {
        for input in [&[5usize][..], &[5, 6], &[6, 22, 5], &[5, 300, 6]] {
            let total: usize = input.iter().sum();
            for cut in (0..=total).filter(|c| total < 100 || *c < 12 || total - c < 12 || c % 64 == 0) {
                for end in [End::Eof, End::Err] {
                    let faults = cut == total && end == End::Eof;
                    out.push((
                        Scenario { wrap, ops: vec![], input: input.to_vec(), cut, end, faults },
                        if cut == total { d } else { d - 1 },
                    ));
                }
            }
        }
        for input in [&[65536usize, 5][..], &[5, 65532, 6], &[65535, 65541, 5], &[200_000, 5]] {
            let total: usize = input.iter().sum();
            out.push((Scenario { wrap, ops: vec![], input: input.to_vec(), cut: total, end: End::Eof, faults: false }, d));
        }
        // Both directions.
        for ops in [vec![Send(5), Send(8192), Send(6), Flush], vec![SendFlush(22), Send(5), Flush]] {
            out.push((Scenario { wrap, ops, input: vec![6, 22, 5], cut: 33, end: End::Eof, faults: true }, d - 1));
        }
    }
    out
}

fn all_msgs() -> HashMap<usize, Message> {
    let mut m: HashMap<usize, Message> = HashMap::new();
    for (i, n) in [5usize, 6, 22, 3000, 3001, 3002, 3003, 8186, 8191, 8192, 8193, 9000, 20000, 70000].into_iter().enumerate() {
        m.insert(n, msg(n, i as u8 * 5 + 1));
    }
    m
}

fn input_of(sc: &Scenario) -> Arc<Vec<u8>> {
    let (mut s, _) = stream(&sc.input);
    s.truncate(sc.cut);
    Arc::new(s)
}

fn transport(ctx: &Ctx) {
    let msgs = all_msgs();
    let scs = scenarios(ctx.thorough);
    ctx.extra("transport_scenarios", scs.len());
    let points = AtomicU64::new(0);
    ctx.par(scs.len(), |i| {
        let (sc, dev) = &scs[i];
        let input = input_of(sc);
        let mut todo = vec![Vec::new()];
        let mut runs = 0u64;
        while let Some(p) = todo.pop() {
            let mut ch = Choices::new(p.clone());
            ctx.mark(format!("{sc:?} {p:?}").as_bytes());
            let (r, calls) = run_scenario(sc, &input, &msgs, &mut ch);
            runs += 1;
            ctx.add_transitions(calls);
            if let Err(e) = r {
                ctx.violation(
                    &format!("transport:{sc:?}:{:?}", ch.taken()),
                    &format!("stream transport in {sc:?}, I/O behaviour {:?}: {e}", ch.taken()),
                    json!({"part": "transport", "scenario": i, "dev": ctx.thorough, "choices": ch.taken()}),
                );
            }
            points.fetch_max(ch.trace.len() as u64, Ordering::Relaxed);
            todo.extend(successors(p.len(), &ch, *dev, 60));
            if ctx.stopped() {
                break;
            }
        }
        ctx.add_traces(runs);
        ctx.add_states(runs);
        if i % 37 == 0 {
            ctx.sample(json!({"part": "transport", "scenario": format!("{sc:?}"), "schedules": runs}));
        }
    });
    ctx.extra("transport_max_choice_points", points.load(Ordering::Relaxed));
    ctx.extra("transport_max_deviations", if ctx.thorough { 6 } else { 4 });
}

pub fn run(ctx: &Ctx) {
    if let Some(r) = &ctx.replay {
        return replay(ctx, r);
    }
    if ctx.only("packetizer") {
        packetizer(ctx);
    }
    if ctx.only("transport") {
        transport(ctx);
    }
    ctx.assume("I/O objects follow the AsyncRead/AsyncWrite contracts; the choices per call are full, partial (1, 3, 4 bytes, half, all but one), pending, and error");
}

fn replay(ctx: &Ctx, r: &Json) {
    let nums = |j: &Json| -> Vec<usize> { j.as_array().unwrap().iter().map(|n| n.as_u64().unwrap() as usize).collect() };
    if r["part"] == "transport" {
        let (sc, _) = scenarios(r["dev"].as_bool().unwrap())[r["scenario"].as_u64().unwrap() as usize].clone();
        let mut ch = Choices::new(nums(&r["choices"]).into_iter().map(|c| c as u32).collect());
        let (res, _) = run_scenario(&sc, &input_of(&sc), &all_msgs(), &mut ch);
        if let Err(e) = res {
            ctx.violation("replay", &format!("{sc:?}: {e}"), r.clone());
        }
        return;
    }
    let sizes = nums(&r["sizes"]);
    let st = &r["steps"];
    if st["first"].is_u64() {
        return packetizer(ctx);
    }
    let (s, ends) = stream(&sizes);
    if st["code"].is_array() {
        let code: Vec<u8> = nums(&st["code"]).into_iter().map(|c| c as u8).collect();
        check_free(ctx, &sizes, &s, &ends, &code);
    } else if st["pat"].is_array() {
        check_greedy(ctx, &sizes, &s, &ends, &nums(&st["pat"]), st["drain_every"].as_u64().unwrap() as usize);
    } else {
        let via = VIAS.into_iter().find(|v| format!("{v:?}") == st["via"].as_str().unwrap()).unwrap();
        let drain = DRAINS.into_iter().find(|v| format!("{v:?}") == st["drain"].as_str().unwrap()).unwrap();
        check_cuts(ctx, &sizes, &s, &ends, &nums(&st["cuts"]), via, drain);
    }
}
