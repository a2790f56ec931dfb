//! The client side of properties whose broker side is explored elsewhere.

use crate::c06::*;
use crate::calls::Calls;
use crate::chan::Channels;
use crate::events::Events;
use crate::explore::*;
use crate::listener::Listeners;
use crate::registry::Registry;
use crate::sim::Policy;
use mc_common::Ctx;

fn small(ctx: &Ctx, name: &str, make: Make, depth: usize, versions: &[(u32, u32)]) {
    let deep = usize::from(ctx.thorough);
    let params = Params { size: 1 };
    let mut sc = Scenario::new(format!("client-{name}"), make);
    sc.params = params;
    sc.depth = depth + deep;
    explore(ctx, &sc);
    let mut sc = Scenario::new(format!("client-{name}-b1"), make);
    sc.params = params;
    sc.cap = Some(1);
    sc.depth = (depth + deep - 1).max(1);
    sc.policies = all_policies(2);
    explore(ctx, &sc);
    let mut sc = Scenario::new(format!("client-{name}-deep"), make);
    sc.params = params;
    sc.from = seeds(name);
    sc.depth = 2;
    explore(ctx, &sc);
    sc.name = format!("client-{name}-deep-policies");
    sc.depth = deep;
    sc.policies = all_policies(2);
    explore(ctx, &sc);
    // One operation at a time, but many.
    let mut sc = Scenario::new(format!("client-{name}-sequential"), make);
    sc.params = Params { size: 2 };
    sc.from = seeds(name);
    sc.depth = match name {
        "registry" => 7,
        "channels" => 6,
        _ => 5,
    } + deep;
    sc.burst = 0;
    explore(ctx, &sc);
    for &(a, b) in versions {
        let mut sc = Scenario::new(format!("client-{name}-v{a}-{b}"), make);
        sc.params = params;
        sc.minors = vec![a, b];
        sc.depth = (depth + deep - 1).max(1);
        if ctx.quick() {
            sc.burst = 0;
        }
        explore(ctx, &sc);
        sc.name += "-deep";
        sc.from = seeds(name);
        sc.depth = 4 + deep;
        sc.burst = 0;
        explore(ctx, &sc);
    }
}

const MIXED: [(u32, u32); 7] = [(14, 20), (20, 14), (17, 18), (18, 17), (20, 16), (16, 20), (14, 14)];

pub fn c02(ctx: &Ctx) {
    small(ctx, "calls", Calls::make, 4, &MIXED);
}

pub fn c03(ctx: &Ctx) {
    small(ctx, "registry", Registry::make, 4, &[(14, 20), (20, 14), (17, 18)]);
}

pub fn c04(ctx: &Ctx) {
    small(ctx, "events", Events::make, 3, &MIXED);
    // Three proxies of the same client, which share its subscriptions.
    for (a, b) in [(20, 20), (14, 20), (20, 17)] {
        let mut sc = Scenario::new(format!("client-events-three-v{a}-{b}"), Events::make);
        sc.params = Params { size: 3 };
        sc.minors = vec![a, b];
        sc.from = vec![vec!["Create(0)", "Proxy(1)", "Proxy(1)", "Proxy(1)"]];
        sc.depth = 5 + usize::from(ctx.thorough);
        sc.burst = 0;
        explore(ctx, &sc);
    }
}

pub fn c05(ctx: &Ctx) {
    small(ctx, "channels", Channels::make, 2, &[]);
    let deep = usize::from(ctx.thorough);
    for (suffix, cap, burst, depth) in [("", None, 0, 5), ("-b1", Some(1), 0, 4), ("-pairs", None, 1, 4)] {
        let mut sc = Scenario::new(format!("client-channels-polls{suffix}"), Channels::make);
        sc.params = Params { size: 3 };
        sc.from = seeds("channels").into_iter().chain([vec!["CreateS(0)"], vec!["CreateR(0, 6)"]]).collect();
        sc.cap = cap;
        sc.burst = burst;
        sc.depth = depth + deep;
        explore(ctx, &sc);
    }
}

/// Every pair of versions.
pub fn c12(ctx: &Ctx) {
    for (name, make, params, depth) in areas() {
        for a in 14..=20 {
            for b in 14..=20 {
                let mut sc = Scenario::new(format!("client-{name}-v{a}-{b}"), make);
                sc.params = params;
                sc.minors = vec![a, b];
                sc.depth = depth + usize::from(ctx.thorough);
                sc.burst = 0;
                explore(ctx, &sc);
                if a != b && (a.abs_diff(b) == 1 || ctx.thorough) {
                    sc.name += "-pairs";
                    sc.depth = 1 + usize::from(ctx.thorough);
                    sc.burst = 2;
                    explore(ctx, &sc);
                }
            }
        }
    }
}

pub fn c10(ctx: &Ctx) {
    listeners(ctx, true);
}

/// Bus listeners; the third client watches.
pub fn listeners(ctx: &Ctx, all: bool) {
    let d = usize::from(ctx.thorough);
    let sc = |name: String, size: usize| {
        let mut sc = Scenario::new(name, Listeners::make);
        sc.params = Params { size };
        sc.minors = vec![20, 20, 20];
        sc
    };
    for n in [0, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15] {
        let mut sc = sc(format!("listeners-{n}"), n);
        sc.depth = if all && n < 10 { 6 } else { 5 } + d;
        sc.burst = 0;
        explore(ctx, &sc);
    }
    for n in if all { vec![0, 1, 2, 3, 4, 5, 10, 13] } else { vec![0, 3, 10] } {
        let mut sc = sc(format!("listeners-{n}-pairs"), n);
        sc.depth = 3 + d;
        explore(ctx, &sc);
    }
    // From a running listener.
    for n in if all { vec![0, 3, 10] } else { vec![0, 10] } {
        let mut sc = sc(format!("listeners-{n}-running"), n);
        let f = if n % 10 == 3 { "LAdd(0, 2)" } else { "LAdd(0, 1)" };
        sc.from = vec![vec!["New(0, 0)", "LNew(0)", "LAdd(0, 0)", f, "LStart(0, 0)"]];
        if n % 10 == 3 {
            sc.from.push(vec!["LNew(0)", "LNew(1)", "LAdd(0, 0)", "LAdd(1, 2)", "LStart(0, 0)", "LStart(1, 0)"]);
        }
        sc.depth = 1 + d;
        sc.policies = if n == 3 && ctx.quick() { vec![Policy::Fifo, Policy::Lifo] } else { all_policies(3) };
        explore(ctx, &sc);
        sc.name += "-b1";
        sc.cap = Some(1);
        explore(ctx, &sc);
    }
    for v in if all { vec![[14, 20, 20], [20, 14, 20], [14, 14, 14], [20, 20, 17]] } else { vec![[14, 14, 20]] } {
        let mut sc = sc(format!("listeners-v{}-{}-{}", v[0], v[1], v[2]), 0);
        sc.minors = v.to_vec();
        sc.depth = 5 + d;
        sc.burst = 0;
        explore(ctx, &sc);
    }
}
