use aldrin_parser::{MemoryResolver, Parser};
use mc_common::choice::{successors, Choices};
use mc_common::Ctx;
use serde_json::{json, Value as Json};
use std::collections::VecDeque;
use std::io;
use std::sync::atomic::{AtomicU64, Ordering};

/// A set of schema files; `None` is an I/O error.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Files {
    pub main: String,
    pub src: Option<String>,
    pub others: Vec<(String, Option<String>)>,
}

impl Files {
    pub fn one(src: impl Into<String>) -> Self {
        Self { main: "main".into(), src: Some(src.into()), others: vec![] }
    }

    pub fn with(mut self, name: &str, src: &str) -> Self {
        self.others.push((name.into(), Some(src.into())));
        self
    }

    pub fn parse(&self) -> Parser {
        let get = |s: &Option<String>| s.clone().ok_or_else(|| io::Error::new(io::ErrorKind::Other, "unreadable"));
        let mut r = MemoryResolver::new(&self.main, get(&self.src));
        for (n, s) in &self.others {
            r.add(n, get(s));
        }
        Parser::parse(r)
    }

    pub fn json(&self) -> Json {
        let o: Vec<Json> = self.others.iter().map(|(n, s)| json!([n, s])).collect();
        json!({"main": self.main, "src": self.src, "others": o})
    }

    pub fn from_json(j: &Json) -> Self {
        let s = |j: &Json| j.as_str().map(|s| s.to_string());
        Self {
            main: s(&j["main"]).unwrap(),
            src: s(&j["src"]),
            others: j["others"].as_array().unwrap().iter().map(|o| (s(&o[0]).unwrap(), s(&o[1]))).collect(),
        }
    }

    pub fn mark(&self, ctx: &Ctx) {
        match (&self.src, self.others.is_empty()) {
            (Some(s), true) => ctx.mark(s.as_bytes()),
            _ => ctx.mark(self.json().to_string().as_bytes()),
        }
    }
}

/// Enumerates, in parallel, every choice sequence of `run` with at most `dev` deviations. `run`
/// returning false stops its thread's share.
pub fn par_explore(ctx: &Ctx, dev: u32, run: impl Fn(&mut Choices) + Sync) -> u64 {
    let total = AtomicU64::new(0);
    // Breadth first until there is enough to share.
    let mut todo: VecDeque<Vec<u32>> = VecDeque::from([vec![]]);
    while todo.len() < 4000 {
        let Some(p) = todo.pop_front() else { break };
        let mut ch = Choices::new(p.clone());
        run(&mut ch);
        total.fetch_add(1, Ordering::Relaxed);
        todo.extend(successors(p.len(), &ch, dev, usize::MAX));
    }
    ctx.unmark();
    let todo: Vec<_> = todo.into();
    ctx.par(todo.len(), |i| {
        let mut st = vec![todo[i].clone()];
        let mut n = 0;
        while let Some(p) = st.pop() {
            if ctx.stopped() {
                break;
            }
            let mut ch = Choices::new(p.clone());
            run(&mut ch);
            n += 1;
            st.extend(successors(p.len(), &ch, dev, usize::MAX));
        }
        total.fetch_add(n, Ordering::Relaxed);
    });
    total.into_inner()
}

/// Every sequence of `0..=max` items of `n` kinds, shared among the threads; `run` gets the kinds.
pub fn par_strings(ctx: &Ctx, n: usize, max: usize, run: impl Fn(&[usize]) + Sync) -> u64 {
    let total = AtomicU64::new(0);
    // Tasks: all sequences of length <= 2 (as prefixes of the longer ones).
    let mut tasks: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..n {
        tasks.push(vec![i]);
        for j in 0..n {
            tasks.push(vec![i, j]);
        }
    }
    tasks.retain(|t| t.len() <= max);
    ctx.par(tasks.len(), |i| {
        let mut s = tasks[i].clone();
        let base = s.len();
        let mut c = 0;
        loop {
            if ctx.stopped() {
                break;
            }
            run(&s);
            c += 1;
            if base < 2 {
                break;
            }
            // Next in depth-first order.
            if s.len() < max {
                s.push(0);
                continue;
            }
            loop {
                if s.len() == base {
                    break;
                }
                let l = s.last_mut().unwrap();
                *l += 1;
                if *l < n {
                    break;
                }
                s.pop();
            }
            if s.len() == base {
                break;
            }
        }
        total.fetch_add(c, Ordering::Relaxed);
    });
    total.into_inner()
}

pub fn others(f: Files) -> Files {
    f.with("other", "const LEN = u32(12);\nstruct Foo {\n    required a @ 1 = u8;\n}\n")
        .with("another", "//! Another\nenum Foo {\n    A @ 1;\n}\n")
        .with("aa", "import bb;\nstruct Foo {}\n")
}
