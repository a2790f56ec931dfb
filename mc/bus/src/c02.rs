//! Every accepted call gets exactly one correctly routed reply.

use crate::alpha::*;
use crate::bfs::*;
use crate::model::*;
use crate::sys::*;
use aldrin_core::message::*;
use mc_common::Ctx;

fn judge(m: &Mismatch) -> bool {
    use MessageKind::*;
    // A caller that is cut off loses its reply; so does a callee.
    matches!(m.class, "closed") || kinds(m, &[CallFunction, CallFunction2, CallFunctionReply, AbortFunctionCall])
}

#[derive(Clone, Copy)]
struct P {
    callers: usize,
    per_caller: usize,
    total: usize,
    /// Every kind of result, wrong repliers, duplicate serials.
    rich: bool,
    recreate: bool,
    bursts: bool,
    terms: &'static [Term],
}

fn results(i: u32) -> Vec<CallFunctionResult> {
    vec![
        CallFunctionResult::Ok(val(1000 + i)),
        CallFunctionResult::Err(val(2000 + i)),
        CallFunctionResult::Aborted,
        CallFunctionResult::InvalidService,
        CallFunctionResult::InvalidFunction,
        CallFunctionResult::InvalidArgs,
    ]
}

fn alphabet(m: &Model, p: P) -> Vec<Op> {
    let mut v = Vec::new();
    let mut reqs = Vec::new();
    for c in alive(m) {
        let mine = m.calls.iter().filter(|x| x.caller == c && !x.aborted).count();
        if c < p.callers && mine < p.per_caller && m.calls.len() < p.total {
            let s = m.free_serial(c);
            for t in with_stale(svc_toks(m), m, 1, false) {
                reqs.push(call_any(m, c, s, t, 1, 10 + s));
                if p.rich && m.version[c] >= 19 {
                    v.push(call(c, s, t, 2, 11 + s));
                }
            }
            if p.rich {
                v.push(call_any(m, c, s, BOGUS, 1, 9));
            }
        }
        for x in m.calls.iter().filter(|x| x.caller == c) {
            if !x.aborted && m.version[c] >= 16 {
                reqs.push(abort(c, x.serial));
            }
            if p.rich && !x.aborted {
                // A serial that is in use.
                if let Some(t) = svc_toks(m).first() {
                    v.push(call_any(m, c, x.serial, *t, 1, 77));
                }
            }
            if p.rich && m.version[c] >= 16 {
                // The serial the callee sees is not the caller's.
                v.push(abort(c, x.bserial));
            }
        }
        for x in &m.calls {
            let owner = m.svcs.iter().find(|s| s.tok == x.svc).unwrap().owner;
            if owner == c {
                let r = results(x.bserial % 16);
                reqs.push(reply(c, x.bserial, r[0].clone()));
                if p.rich {
                    for r in &r[1..] {
                        v.push(reply(c, x.bserial, r.clone()));
                    }
                }
            } else {
                // Someone else answers; someone else aborts.
                v.push(reply(c, x.bserial, CallFunctionResult::Ok(val(666))));
                if p.rich && m.version[c] >= 16 && x.caller != c {
                    v.push(abort(c, x.serial));
                }
            }
        }
        if let Some((_, s)) = m.stale_call {
            v.push(reply(c, s, CallFunctionResult::Ok(val(667))));
        }
        if p.rich {
            v.push(reply(c, BOGUS_SERIAL, CallFunctionResult::Ok(val(668))));
        }
        for s in &m.svcs {
            if s.owner == c {
                reqs.push(destroy_service(c, s.tok));
            }
        }
        for o in &m.objs {
            if o.owner == c {
                reqs.push(destroy_object(c, o.tok));
                if p.recreate && m.svcs.iter().filter(|s| s.obj == o.tok).count() == 0 {
                    v.push(create_service_any(m, c, o.tok, 0, false));
                }
            }
        }
        for t in p.terms {
            v.push(Op::Term(c, *t));
        }
    }
    for c in 0..m.n() {
        if !m.alive[c] && p.recreate {
            v.push(Op::Connect(c));
        }
    }
    if p.bursts {
        let ends: Vec<Op> = alive(m).into_iter().map(|c| Op::Term(c, Term::Drop)).collect();
        v.extend(queued_with_end(&reqs, &ends));
    }
    v.extend(reqs);
    v
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let base = P {
        callers: 9,
        per_caller: 2,
        total: 3,
        rich: false,
        recreate: false,
        bursts: false,
        terms: &[Term::Drop],
    };
    // Owner is connection 0; connection 0 also calls itself.
    let pre = |versions: &[u32]| {
        let m = Model::new(versions);
        let mut v = connect_all(versions.len());
        v.push(create_object(0, 0));
        v.push(create_service_any(&m, 0, 1, 0, false));
        v
    };
    let two = |versions: &[u32]| {
        let m = Model::new(versions);
        let mut v = pre(versions);
        v.push(create_object(1, 1));
        v.push(create_service_any(&m, 1, 3, 0, false));
        v
    };
    let d = |q: usize, t: usize| if th { t } else { q };
    let run = |name: &str, versions: Vec<u32>, prelude: Vec<Op>, p: P, depth: usize| {
        if !ctx.only(name) {
            return;
        }
        explore(
            ctx,
            &Cfg {
                name: name.into(),
                versions,
                prelude,
                alphabet: &|m| alphabet(m, p),
                depth,
                max_states: if th { 400_000 } else { 60_000 },
                judge: &judge,
                probe: None,
                stats: false,
                lenient: None,
                finding: None,
            },
        );
    };
    // One service, two callers and the owner: the deepest histories.
    run("one-service", vec![20, 20, 20], pre(&[20, 20, 20]), P { callers: 3, ..base }, d(9, 13));
    // Every result, wrong repliers, serials in use, stale and made-up identifiers.
    run("rich", vec![20, 20, 20], pre(&[20, 20, 20]), P { rich: true, total: 2, ..base }, d(6, 9));
    // Mixed versions: 1.14 can neither abort nor be told about aborts, 1.19 gets CallFunction2.
    for (i, vs) in [vec![14, 20, 16], vec![20, 14, 16], vec![15, 19, 18], vec![19, 15, 17]].iter().enumerate() {
        run(&format!("mixed{i}"), vs.clone(), pre(vs), base, d(6, 9));
    }
    // Services on two connections calling each other, destruction and re-creation.
    run("mutual", vec![20, 20, 16], two(&[20, 20, 16]), P { recreate: true, ..base }, d(5, 7));
    // Reconnects: serials and connection state start over.
    run("reconnect", vec![20, 20], pre(&[20, 20]), P { recreate: true, terms: &TERMS, ..base }, d(8, 11));
    // Requests queued in the broker together with the end of a connection.
    run("queued", vec![20, 20, 20], pre(&[20, 20, 20]), P { bursts: true, total: 2, ..base }, d(6, 9));
    // Four connections.
    run("four", vec![20, 20, 18, 14], two(&[20, 20, 18, 14]), P { total: 4, per_caller: 1, ..base }, d(5, 7));
    crate::bulk::run(ctx, &[crate::bulk::CALLS], &judge, false);
}
