//! Channels: in-order exactly-once delivery under capacity flow control (broker level).

use crate::alpha::*;
use crate::bfs::*;
use crate::model::*;
use crate::sys::*;
use aldrin_core::message::*;
use aldrin_core::{ChannelEnd, ChannelEndWithCapacity as Cap};
use mc_common::Ctx;

pub fn judge(m: &Mismatch) -> bool {
    use MessageKind::*;
    matches!(m.class, "closed" | "cookie" | "order")
        || kinds(
            m,
            &[
                CreateChannelReply,
                ClaimChannelEndReply,
                CloseChannelEndReply,
                ChannelEndClaimed,
                ChannelEndClosed,
                ItemReceived,
                AddChannelCapacity,
            ],
        )
}

#[derive(Clone, Copy)]
struct P {
    max_chans: usize,
    /// Capacities at creation and claim.
    caps: &'static [u32],
    adds: &'static [u32],
    /// Everyone tries everything, also on ended channels.
    strangers: bool,
    closes: bool,
    item_runs: bool,
    /// Use up the whole announced credit in one go, and exceed it by one.
    exhaust: bool,
    bursts: bool,
    terms: &'static [Term],
    create: bool,
    connect: bool,
}

fn owner(e: End) -> Option<ConnIx> {
    match e {
        End::Claimed(c, _) => Some(c),
        _ => None,
    }
}

fn alphabet(m: &Model, p: P) -> Vec<Op> {
    let mut v = Vec::new();
    let mut reqs = Vec::new();
    for c in alive(m) {
        if p.create && m.chans.len() < p.max_chans {
            v.push(create_channel(c, Cap::Sender));
            for cap in p.caps {
                v.push(create_channel(c, Cap::Receiver(*cap)));
            }
        }
        for t in with_stale(chan_toks(m), m, 2, false) {
            let ch = m.chans.iter().find(|x| x.tok == t);
            let (tx, rx) = ch.map(|c| (c.tx, c.rx)).unwrap_or((End::Closed, End::Closed));
            let live = ch.is_some();
            if tx == End::Unclaimed || (p.strangers && c == 0) {
                reqs.push(claim_end(c, t, Cap::Sender));
            }
            if rx == End::Unclaimed || (p.strangers && c == 0) {
                for cap in if live { p.caps } else { &p.caps[..1] } {
                    reqs.push(claim_end(c, t, Cap::Receiver(*cap)));
                }
            }
            if p.closes {
                if owner(tx) == Some(c) || tx == End::Unclaimed || p.strangers {
                    reqs.push(close_end(c, t, ChannelEnd::Sender));
                }
                if owner(rx) == Some(c) || rx == End::Unclaimed || p.strangers {
                    reqs.push(close_end(c, t, ChannelEnd::Receiver));
                }
            }
            if owner(tx) == Some(c) || p.strangers {
                let n = match rx {
                    End::Claimed(_, n) => n % 1000,
                    _ => 0,
                };
                reqs.push(send_item(c, t, n));
                if p.item_runs && owner(tx) == Some(c) {
                    for k in [2, 5] {
                        v.push(Op::Burst((0..k).map(|i| send_item(c, t, 5000 + n * 10 + i)).collect()));
                    }
                }
            }
            if let (true, End::Claimed(o, n @ 1..=200_000)) = (p.exhaust, tx) {
                if o == c {
                    for k in [n, n + 1] {
                        v.push(Op::Burst((0..k).map(|i| send_item(c, t, i)).collect()));
                    }
                }
            }
            if owner(rx) == Some(c) || p.strangers {
                for a in if live { p.adds } else { &p.adds[..1] } {
                    reqs.push(add_capacity(c, t, *a));
                }
            }
        }
        for t in p.terms {
            v.push(Op::Term(c, *t));
        }
    }
    for c in 0..m.n() {
        if p.connect && !m.alive[c] {
            v.push(Op::Connect(c));
        }
    }
    if p.bursts {
        let ends: Vec<Op> = alive(m).into_iter().map(|c| Op::Term(c, Term::Drop)).collect();
        v.extend(queued_with_end(&reqs, &ends));
    }
    v.extend(reqs);
    v
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let d = |q: usize, t: usize| if th { t } else { q };
    let base = P {
        max_chans: 1,
        caps: &[0, 1, 4, 5, u32::MAX],
        adds: &[1, 5, u32::MAX],
        strangers: false,
        closes: true,
        item_runs: false,
        exhaust: false,
        bursts: false,
        terms: &[Term::Drop],
        create: true,
        connect: false,
    };
    let run = |name: &str, versions: &[u32], prelude: Vec<Op>, p: P, depth: usize| {
        if !ctx.only(name) {
            return;
        }
        let mut pre = connect_all(versions.len());
        pre.extend(prelude);
        explore(
            ctx,
            &Cfg {
                name: name.into(),
                versions: versions.to_vec(),
                prelude: pre,
                alphabet: &|m| alphabet(m, p),
                depth,
                max_states: if th { 400_000 } else { 60_000 },
                judge: &judge,
                probe: None,
                stats: false,
                lenient: None,
                finding: None,
            },
        );
    };
    // The state machine of the ends.
    run("ends", &[20, 20], vec![], base, d(10, 14));
    run("ends3", &[20, 20, 14], vec![], P { caps: &[0, 2], adds: &[1], strangers: true, ..base }, d(9, 13));
    run("two-channels", &[20, 20], vec![], P { max_chans: 2, caps: &[1], adds: &[1], ..base }, d(9, 13));
    run("terminations", &[20, 20], vec![], P { terms: &TERMS, caps: &[0, 5], connect: true, ..base }, d(9, 13));
    run("queued", &[20, 20], vec![], P { bursts: true, caps: &[0, 2], ..base }, d(8, 12));
    // Credit arithmetic on an established channel, for many initial capacities.
    let est = |cap: u32, sender_first: bool| {
        if sender_first {
            vec![create_channel(0, Cap::Sender), claim_end(1, 1, Cap::Receiver(cap))]
        } else {
            vec![create_channel(1, Cap::Receiver(cap)), claim_end(0, 1, Cap::Sender)]
        }
    };
    for cap in [0, 1, 3, 4, 5, 6, 9, u32::MAX - 1, u32::MAX] {
        for sf in [false, true] {
            run(
                &format!("credit-{cap}-{}", if sf { "sender" } else { "receiver" }),
                &[20, 20],
                est(cap, sf),
                P {
                    closes: false,
                    create: false,
                    item_runs: true,
                    terms: &[],
                    adds: &[0, 1, 2, 3, 4, 5, 6, u32::MAX - 1, u32::MAX],
                    ..base
                },
                d(9, 13),
            );
        }
    }
    // All of a large credit is really usable, one more is not: the initial one and grants, at widths
    // where a narrower counter would show.
    let big: &[u32] = if th { &[0, 3, 255, 256, 32_768, 65_535, 65_536, 70_000] } else { &[0, 70_000] };
    for cap in big {
        run(
            &format!("exhaust-{cap}"),
            &[20, 20],
            est(*cap, true),
            P {
                closes: false,
                create: false,
                exhaust: true,
                terms: &[],
                adds: if th { &[256, 32_768, 65_536, 70_000] } else { &[256, 70_000] },
                ..base
            },
            d(3, 4),
        );
    }
    // Long histories of single steps: credit is used up and granted again and again.
    run(
        "long",
        &[20, 20],
        est(6, false),
        P { closes: false, create: false, terms: &[], adds: &[1, 3], ..base },
        d(30, 60),
    );
    run(
        "self",
        &[20],
        vec![create_channel(0, Cap::Receiver(2)), claim_end(0, 1, Cap::Sender)],
        P { caps: &[1], ..base },
        d(11, 15),
    );
    crate::bulk::run(ctx, &[crate::bulk::CHANNELS, crate::bulk::ITEMS], &judge, false);
}
