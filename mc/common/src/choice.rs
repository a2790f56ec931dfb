//! Exhaustive exploration of a tree of nondeterministic choices by replay.
//!
//! A program under test asks `Choices::pick(n)` at every nondeterministic point. Alternative 0 is
//! the default; every other alternative costs one deviation. `explore` enumerates every choice
//! sequence with at most `max_dev` deviations, depth first, by re-running the program.

use std::collections::VecDeque;

#[derive(Debug, Clone, Default)]
pub struct Choices {
    prefix: Vec<u32>,
    /// (number of alternatives, alternative taken, cost of the non-default alternatives)
    pub trace: Vec<(u32, u32, u32)>,
}

impl Choices {
    pub fn new(prefix: Vec<u32>) -> Self {
        Self {
            prefix,
            trace: Vec::new(),
        }
    }

    /// Picks one of `n` alternatives; non-default alternatives cost one deviation.
    pub fn pick(&mut self, n: usize) -> usize {
        self.pick_cost(n, 1)
    }

    /// Picks one of `n` alternatives without costing a deviation.
    pub fn pick_free(&mut self, n: usize) -> usize {
        self.pick_cost(n, 0)
    }

    pub fn pick_cost(&mut self, n: usize, cost: u32) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.trace.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        assert!(c < n as u32, "harness: divergence while replaying a schedule prefix");
        self.trace.push((n as u32, c, cost));
        c as usize
    }

    pub fn taken(&self) -> Vec<u32> {
        self.trace.iter().map(|t| t.1).collect()
    }
}

/// Successor prefixes of an executed prefix: every point after the forced prefix where a different
/// alternative could have been taken without exceeding the deviation budget. Each choice sequence
/// within the budget is generated exactly once.
pub fn successors(prefix_len: usize, ch: &Choices, max_dev: u32, max_points: usize) -> Vec<Vec<u32>> {
    let mut out = Vec::new();
    let mut dev: u32 = ch.trace[..prefix_len.min(ch.trace.len())]
        .iter()
        .map(|t| if t.1 != 0 { t.2 } else { 0 })
        .sum();
    for i in prefix_len..ch.trace.len().min(max_points) {
        let (n, c, cost) = ch.trace[i];
        debug_assert_eq!(c, 0);
        if dev + cost <= max_dev {
            for alt in 1..n {
                let mut p: Vec<u32> = ch.trace[..i].iter().map(|t| t.1).collect();
                p.push(alt);
                out.push(p);
            }
        }
        dev += if c != 0 { cost } else { 0 };
    }
    out
}

/// Sequential exploration. `run` executes the program; returning false stops. Returns the number
/// of executions.
pub fn explore(
    max_dev: u32,
    max_points: usize,
    max_runs: u64,
    mut run: impl FnMut(&mut Choices) -> bool,
) -> (u64, bool) {
    let mut todo: VecDeque<Vec<u32>> = VecDeque::new();
    todo.push_back(Vec::new());
    let mut n = 0;
    while let Some(p) = todo.pop_back() {
        if n >= max_runs {
            return (n, false);
        }
        let mut ch = Choices::new(p.clone());
        n += 1;
        if !run(&mut ch) {
            return (n, false);
        }
        todo.extend(successors(p.len(), &ch, max_dev, max_points));
    }
    (n, true)
}
