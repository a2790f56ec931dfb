use crate::bus::Bus;
use crate::explore::*;
use mc_common::Ctx;

/// Object A with all services, seen by a discoverer.
const SEEDS: [&[&[&str]]; 9] = [
    &[&["New(0, 0)", "Disc(1, 0)"]],
    &[&["New(0, 0)", "NewSvc(0, 0)", "Disc(1, 1)"]],
    &[&["New(0, 0)", "NewSvc(0, 0)", "NewSvc(0, 1)", "Disc(1, 2)"]],
    &[&["New(0, 0)", "New(1, 1)", "Disc(1, 3)"]],
    &[&["New(0, 0)", "NewSvc(0, 0)", "New(1, 1)", "Disc(1, 4)"]],
    &[&["New(0, 0)", "NewSvc(0, 0)", "NewSvc(0, 1)", "Disc(1, 5)"]],
    &[&["New(0, 0)", "NewSvc(0, 0)", "NewSvc(0, 1)", "New(1, 1)", "NewSvc(1, 1)", "Disc(1, 6)"]],
    &[&["New(0, 0)", "NewSvc(0, 0)", "NewSvc(0, 1)", "Disc(1, 7)"]],
    &[&["New(0, 0)", "NewSvc(0, 0)", "New(1, 1)", "Disc(1, 8)"]],
];

fn scenario(name: String, size: usize) -> Scenario {
    let mut sc = Scenario::new(name, Bus::make);
    sc.params = Params { size };
    sc.minors = vec![20, 20, 20];
    sc
}

pub fn run(ctx: &Ctx) {
    let d = if ctx.thorough { 1 } else { 0 };
    for n in 0..9 {
        // All sequences of settled operations.
        let mut sc = scenario(format!("entries-{n}"), n);
        sc.from = vec![vec![]];
        sc.from.extend(SEEDS[n].iter().map(|s| s.to_vec()));
        sc.depth = 5 + 2 * d;
        sc.burst = 0;
        explore(ctx, &sc);
        // From there on with overlapping operations.
        let mut sc = scenario(format!("entries-{n}-deep"), n);
        sc.from = vec![vec![]];
        sc.from.extend(SEEDS[n].iter().map(|s| s.to_vec()));
        sc.depth = 1 + d;
        explore(ctx, &sc);
        let mut sc = scenario(format!("entries-{n}-bounded"), n);
        sc.from = SEEDS[n].iter().map(|s| s.to_vec()).collect();
        sc.depth = d;
        sc.cap = Some(1);
        sc.policies = all_policies(2);
        explore(ctx, &sc);
    }
    let mut sc = scenario("lifetimes".into(), 10);
    sc.depth = 5 + 2 * d;
    sc.burst = 0;
    explore(ctx, &sc);
    let mut sc = scenario("lifetimes-bursts".into(), 10);
    sc.depth = 2 + d;
    explore(ctx, &sc);
    let mut sc = scenario("lifetimes-policies".into(), 10);
    sc.from = vec![vec!["New(0, 0)", "Bind(1, 0, 0)"], vec!["New(0, 0)", "Drop(0)", "New(0, 1)"]];
    sc.depth = d;
    sc.policies = all_policies(2);
    explore(ctx, &sc);
    for n in 11..17 {
        let mut sc = scenario(format!("finding-{}", n - 11), n);
        sc.depth = 5 + 2 * d;
        sc.burst = 0;
        explore(ctx, &sc);
        let mut sc = scenario(format!("finding-{}-bursts", n - 11), n);
        sc.from = vec![vec![], vec!["New(0, 0)"]];
        if n != 11 && n != 14 {
            sc.from.push(vec!["New(0, 0)", "NewSvc(0, 0)"]);
        }
        sc.depth = 1 + d;
        explore(ctx, &sc);
    }
    // The owner's end.
    for (n, size) in [(6, 6), (10, 10)] {
        for cap in [None, Some(1)] {
            let mut sc = scenario(format!("ends-{n}{}", if cap.is_some() { "-bounded" } else { "" }), size);
            sc.cap = cap;
            sc.from = if n == 6 { vec![SEEDS[6][0].to_vec()] } else { vec![vec!["New(0, 0)", "Bind(1, 0, 0)"]] };
            sc.depth = d;
            sc.burst = 0;
            sc.policies = all_policies(2);
            sc.terms = vec![
                Term::Shutdown(0),
                Term::Shutdown(1),
                Term::ConnShutdown(0),
                Term::Cut(0),
                Term::CutBroker(0),
                Term::BrokerShutdown,
            ];
            sc.second_terms = vec![Term::Shutdown(1)];
            explore(ctx, &sc);
        }
    }
}
