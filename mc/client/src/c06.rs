use crate::calls::Calls;
use crate::chan::Channels;
use crate::events::Events;
use crate::explore::*;
use crate::net::BUFFERED;
use crate::registry::Registry;
use mc_common::Ctx;

/// The parts of the client API that are explored on their own.
pub fn areas() -> Vec<(&'static str, Make, Params, usize)> {
    vec![
        ("channels", Channels::make, Params { size: 1 }, 2),
        ("calls", Calls::make, Params { size: 1 }, 5),
        ("events", Events::make, Params { size: 1 }, 4),
        ("registry", Registry::make, Params { size: 1 }, 4),
        ("introspection", Registry::make, Params { size: 7 }, 4),
    ]
}

/// States that are too deep to be reached step by step.
pub fn seeds(name: &str) -> Vec<Vec<&'static str>> {
    match name {
        "channels" => vec![
            vec!["CreateS(0)", "Unbind(1)", "Bind(1, 1)", "Claim(1, 6)", "Establish(0)"],
            vec!["CreateR(0, 6)", "Unbind(0)", "Bind(0, 1)", "Claim(0, 1)", "Establish(1)"],
            vec!["CreateR(0, 1)", "Unbind(0)", "Bind(0, 0)", "Claim(0, 1)", "Establish(1)"],
        ],
        "calls" => vec![
            vec!["Create(0)", "Proxy(1)", "Call(1)", "NextCall"],
            vec!["Create(0)", "Proxy(1)", "Call(1)", "Call(1)", "NextCall"],
        ],
        "events" => vec![
            vec!["Create(0)", "Proxy(1)", "Sub(0, 0)", "Proxy(1)", "Sub(1, 0)"],
            vec!["Create(0)", "Proxy(1)", "SubAll(0)", "Proxy(0)", "Sub(1, 0)"],
            vec!["Create(0)", "Proxy(1)", "Sub(0, 0)", "Next(0)"],
        ],
        "registry" => vec![
            vec!["New(0)", "Svc(0)"],
            vec!["New(0)", "Destroy(0)", "New(0)", "Svc(0)", "SvcDestroy(0)", "Svc(0)"],
        ],
        "introspection" => vec![vec!["Reg(0, 0)", "Submit(0)"], vec!["Reg(0, 1)", "Reg(1, 1)", "Submit(0)", "Submit(1)"]],
        _ => vec![],
    }
}

/// Two overlapping operations at every point of each other's execution.
pub fn pairs(ctx: &Ctx, name: &'static str, make: Make, params: Params, depth: usize) {
    let deep = if ctx.thorough { 1 } else { 0 };
    let scenario = |suffix: &str, minors: [u32; 2], cap: Option<usize>, less: usize| {
        let mut sc = Scenario::new(format!("{name}{suffix}"), make);
        sc.params = params;
        sc.minors = minors.to_vec();
        sc.cap = cap;
        sc.depth = (depth + deep).saturating_sub(less).max(1);
        sc
    };
    explore(ctx, &scenario("", [20, 20], None, 0));
    for (a, b) in [(14, 14), (14, 20), (20, 14), (15, 20), (16, 18), (18, 16), (19, 17), (17, 19)] {
        let mut sc = scenario(&format!("-v{a}-{b}"), [a, b], None, 1);
        if ctx.quick() && (a, b) != (14, 20) && (a, b) != (20, 14) {
            sc.burst = 0;
        }
        explore(ctx, &sc);
        if !sc.name.contains("channels") {
            sc.name += "-deep";
            sc.from = seeds(name);
            sc.depth = 2;
            sc.burst = 0;
            explore(ctx, &sc);
        }
    }
    for cap in [1, 2] {
        let mut sc = scenario(&format!("-b{cap}"), [20, 20], Some(cap), 1);
        if ctx.thorough || cap == 1 {
            sc.policies = all_policies(2);
        }
        explore(ctx, &sc);
    }
    let mut sc = scenario("-buffered", [20, 20], Some(BUFFERED + 1), 1);
    if ctx.thorough {
        sc.policies = all_policies(2);
    }
    explore(ctx, &sc);
    let less = if name == "registry" && ctx.quick() { 2 } else { 1 };
    let mut sc = scenario("-policies", [20, 20], None, less);
    sc.policies = all_policies(2);
    explore(ctx, &sc);
    let mut sc = scenario("-deep", [20, 20], None, 0);
    sc.from = seeds(name);
    sc.depth = 1 + deep;
    explore(ctx, &sc);
    let mut sc = scenario("-dev", [20, 20], None, if ctx.quick() { 2 } else { 1 });
    sc.dev = 1;
    explore(ctx, &sc);
    if ctx.thorough {
        let mut sc = scenario("-three", [20, 20], None, 2);
        sc.burst = 3;
        explore(ctx, &sc);
    }
}

pub fn run(ctx: &Ctx) {
    for (name, make, params, depth) in areas() {
        pairs(ctx, name, make, params, depth);
    }
    two_services(ctx);
    crate::more::listeners(ctx, false);
}

/// Two services, on one object or on two, and several calls at once.
pub fn two_services(ctx: &Ctx) {
    let deep = usize::from(ctx.thorough);
    for (suffix, cap, minors) in [
        ("", None, [20, 20]),
        ("-b1", Some(1), [20, 20]),
        ("-v14-20", None, [14, 20]),
        ("-v20-16", None, [20, 16]),
        ("-settled", None, [20, 20]),
    ] {
        let mut sc = Scenario::new(format!("calls-two{suffix}"), Calls::make);
        sc.params = Params { size: 2 };
        sc.minors = minors.to_vec();
        sc.cap = cap;
        sc.from = vec![
            vec!["Create(0)", "More"],
            vec!["Create(0)", "Create(0)", "Proxy(1)", "ProxyLast(1)"],
            vec!["Create(0)", "More", "Proxy(1)", "ProxyLast(1)", "Call(1)", "CallLast(1)"],
            vec!["Create(0)", "Proxy(1)", "Call(1)", "Call(1)", "NextCall", "NextCall"],
            vec!["Create(0)", "More", "NextCall", "NextLast"],
        ];
        sc.depth = 1 + deep;
        if minors != [20, 20] || suffix == "-settled" {
            sc.burst = 0;
            sc.depth += if suffix == "-settled" { 2 } else { 1 };
        }
        if suffix == "-b1" {
            sc.depth -= 1;
        }
        explore(ctx, &sc);
    }
}
