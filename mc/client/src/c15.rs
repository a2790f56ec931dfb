use crate::c06::{areas, seeds};
use crate::explore::*;
use crate::listener::Listeners;
use crate::net::BUFFERED;
use mc_common::Ctx;

pub fn run(ctx: &Ctx) {
    for (name, make, params, depth) in areas() {
        for (cap, suffix) in [(None, ""), (Some(1), "-b1"), (Some(BUFFERED + 1), "-buffered")] {
            let mut sc = Scenario::new(format!("{name}{suffix}"), make);
            sc.params = params;
            sc.cap = cap;
            sc.burst = 0;
            sc.depth = if ctx.quick() { depth - 1 } else { depth + 1 };
            let small = cap.is_some() && matches!(name, "registry" | "introspection");
            if ctx.quick() && (cap == Some(BUFFERED + 1) || small) {
                sc.depth = 2.min(sc.depth);
            }
            sc.policies = if ctx.quick() {
                all_policies(2).into_iter().take(3).collect()
            } else {
                all_policies(2)
            };
            sc.terms = vec![
                Term::Shutdown(0),
                Term::Shutdown(1),
                Term::BrokerShutdown,
                Term::ConnShutdown(0),
                Term::ConnShutdown(1),
                Term::Cut(0),
                Term::Cut(1),
                Term::CutBroker(0),
                Term::CutBroker(1),
                Term::KillBroker,
                Term::Release(0),
                Term::Release(1),
            ];
            sc.second_terms = vec![Term::Shutdown(0), Term::BrokerShutdown, Term::ConnShutdown(0)];
            sc.faults = true;
            explore(ctx, &sc);
            sc.name += "-deep";
            sc.from = seeds(name);
            sc.depth = usize::from(ctx.thorough);
            explore(ctx, &sc);
        }
    }
    // Bus listeners; the third client watches.
    for (n, cap) in [(0, None), (0, Some(1)), (10, None), (4, Some(1))] {
        let mut sc = Scenario::new(format!("listeners-{n}{}", if cap.is_none() { "" } else { "-b1" }), Listeners::make);
        sc.params = Params { size: n };
        sc.minors = vec![20, 20, 20];
        sc.cap = cap;
        sc.burst = 0;
        sc.from = vec![vec![], vec!["New(0, 0)", "LNew(0)", "LAdd(0, 0)", "LAdd(0, 1)", "LStart(0, 0)"]];
        sc.depth = if ctx.thorough { 3 } else if n == 0 && cap.is_none() { 2 } else { 1 };
        sc.policies = all_policies(2).into_iter().take(3).collect();
        let own = if n == 4 { 0 } else { 1 };
        sc.terms = vec![
            Term::Shutdown(own),
            Term::BrokerShutdown,
            Term::ConnShutdown(own),
            Term::Cut(own),
            Term::CutBroker(own),
            Term::KillBroker,
            Term::Shutdown(0),
        ];
        if own == 1 {
            sc.terms.push(Term::Release(own));
        }
        sc.second_terms = vec![Term::Shutdown(own)];
        sc.faults = true;
        explore(ctx, &sc);
    }
}
