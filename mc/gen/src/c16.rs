//! C16: generated code compiles and types, clients and servers keep to the wire contract of the
//! schema.

use crate::gen::atoms;
use crate::refcodec::{decode, encode, RV, STYLES};
use crate::schema::*;
use crate::units::{self, Unit};
use crate::{prepare, svc, ENTRIES};
use mc_common::{catch, hex, unhex, Ctx};
use mc_gen_rt::{Entry, Out};
use serde_json::{json, Value as Json};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Corpus {
    pub units: BTreeMap<String, Unit>,
    pub build: Json,
}

pub fn corpus(ctx: &Ctx) -> Corpus {
    let build: Json = serde_json::from_str(&std::fs::read_to_string(prepare::dir().join("build.json")).unwrap()).unwrap();
    let thorough = build["thorough"] == true;
    assert_eq!(thorough, ctx.thorough, "harness: tier");
    Corpus { units: units::all(thorough).into_iter().map(|u| (u.name.clone(), u)).collect(), build }
}

/// What the compiler (or the generator) did not accept.
fn builds(ctx: &Ctx, c: &Corpus) {
    for f in c.build["failed"].as_array().unwrap() {
        let (unit, phase) = (f["unit"].as_str().unwrap(), f["phase"].as_str().unwrap());
        if phase == "rejected" {
            // Whether the parser is right is up to C17. A unit meant to be valid has to be looked
            // at, though.
            let u = &c.units[unit];
            assert!(!u.glue, "harness: {unit} rejected: {}", f["message"]);
            continue;
        }
        let key = format!("C16/{phase}/{unit}");
        ctx.violation(
            &key,
            &format!(
                "{} for a schema that parses without errors: {}\n{}",
                if phase == "compile" { "generated code does not compile" } else { "the generator failed" },
                f["message"].as_str().unwrap(),
                f["schemas"].as_array().unwrap().iter().map(|s| format!("--- {}.aldrin\n{}", s[0].as_str().unwrap(), s[1].as_str().unwrap())).collect::<String>(),
            ),
            json!({"kind": "build", "unit": unit, "schemas": f["schemas"]}),
        );
    }
}

fn fail(ctx: &Ctx, class: &str, e: &Entry, u: &Unit, enc: &[u8], what: String) {
    ctx.violation(
        &format!("C16/{class}/{}/{}", e.unit, e.ty),
        &format!("type {} of\n{}\n{what}\nencoded value: {}", e.ty, u.world.schema(e.schema).src(), hex(enc)),
        json!({"kind": "value", "unit": e.unit, "schema": e.schema, "ty": e.ty, "bytes": hex(enc)}),
    );
}

/// One value through one generated type.
pub fn check(ctx: &Ctx, u: &Unit, e: &Entry, d: &Def, v: &RV, enc: &[u8]) -> Option<RV> {
    let here = u.world.schema(e.schema);
    let want = u.world.decode_def(here, d, v);
    let out = match catch(|| (e.run)(enc)) {
        Ok(o) => o,
        Err(p) => {
            fail(ctx, "panic", e, u, enc, format!("panicked: {p}"));
            return None;
        }
    };
    match (&want, out) {
        (None, Out::Reject(_)) => {}
        (None, Out::Ok(o)) => {
            let o = o[0].1.as_ref().ok().map(|b| decode(b, true));
            fail(ctx, "accepts", e, u, enc, format!("{v:?} does not conform to the schema but deserialized (as {o:?})"));
        }
        (Some(_), Out::Reject(err)) => fail(ctx, "rejects", e, u, enc, format!("{v:?} conforms to the schema but did not deserialize: {err}")),
        (Some(w), Out::Ok(o)) => {
            ctx.add_transitions(o.len() as u64);
            for (how, r) in o {
                match r {
                    Err(err) => fail(ctx, "serialize", e, u, enc, format!("serializing ({how}) failed: {err}")),
                    Ok(b) => match decode(&b, true) {
                        Ok((g, n)) if n == b.len() && g == *w => {}
                        Ok((g, _)) => fail(ctx, "encodes", e, u, enc, format!("serializing ({how}) yields {g:?}\nexpected {w:?}")),
                        Err(x) => fail(ctx, "encodes", e, u, enc, format!("serializing ({how}) yields {} which is not well-formed: {x:?}", hex(&b))),
                    },
                }
            }
        }
    }
    want
}

fn types(ctx: &Ctx, c: &Corpus) {
    let entries = &ENTRIES.get().unwrap().types;
    let (conf, mutated, rejected) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let at = atoms();
    let depth = if ctx.quick() { 2 } else { 3 };
    let bases = if ctx.quick() { 6 } else { 30 };
    ctx.par(entries.len(), |i| {
        if ctx.stopped() {
            return;
        }
        let e = &entries[i];
        let u = &c.units[e.unit];
        let here = u.world.schema(e.schema);
        let d = here.defs().into_iter().find(|d| d.name == e.ty).expect("harness: def");
        if let Some(new) = e.new {
            let r = catch(new);
            let ok = matches!(&r, Ok(Ok(b)) if decode(b, true) == Ok((RV::Struct(BTreeMap::new()), b.len())));
            if !ok {
                fail(ctx, "new", e, u, &[], format!("new() yields {r:?}"));
            }
        }
        let vals = u.world.values_def(here, &d, depth);
        ctx.add_states(1);
        for v in &vals {
            for st in STYLES {
                let enc = encode(v, st);
                ctx.mark(&enc);
                let w = check(ctx, u, e, &d, v, &enc);
                assert!(w.is_some() || ctx.num_violations() > 0 || matches!(&d.body, Body::Enum(vs, None) if vs.is_empty()), "harness: {v:?} of {} {}", e.unit, e.ty);
            }
            conf.fetch_add(STYLES.len() as u64, Ordering::Relaxed);
        }
        // From small and large ones alike.
        let mut muts = vec![];
        let step = (vals.len() / bases).max(1);
        for v in vals.iter().step_by(step) {
            mutations(v, &at, &mut muts);
        }
        for (k, v) in muts.iter().enumerate() {
            if ctx.stopped() {
                return;
            }
            let enc = encode(v, STYLES[k % STYLES.len()]);
            ctx.mark(&enc);
            if check(ctx, u, e, &d, v, &enc).is_none() {
                rejected.fetch_add(1, Ordering::Relaxed);
            }
        }
        mutated.fetch_add(muts.len() as u64, Ordering::Relaxed);
        if i % 400 == 7 {
            ctx.sample(json!({"unit": e.unit, "type": e.ty, "schema": here.src(), "values": vals.len(), "mutations": muts.len()}));
        }
    });
    ctx.extra("types", entries.len());
    ctx.extra("conforming_values", conf.into_inner());
    ctx.extra("mutated_values", mutated.into_inner());
    ctx.extra("mutated_values_that_do_not_conform", rejected.into_inner());
}

/// Every value of every shape through every other shape: old and new schema versions. What an old
/// version passes on is read by the new one.
fn versions(ctx: &Ctx, c: &Corpus) {
    let entries = &ENTRIES.get().unwrap().types;
    let shapes: Vec<(&Entry, &Unit, Def)> = entries
        .iter()
        .filter(|e| e.unit.starts_with("bs") || e.unit.starts_with("be"))
        .map(|e| {
            let u = &c.units[e.unit];
            let d = u.world.main().defs().into_iter().find(|d| d.name == e.ty).unwrap();
            (e, u, d)
        })
        .collect();
    let n = AtomicU64::new(0);
    ctx.par(shapes.len(), |i| {
        let (ne, nu, nd) = &shapes[i];
        let vals = nu.world.values_def(nu.world.main(), nd, 2);
        for (oe, ou, od) in &shapes {
            if ctx.stopped() {
                return;
            }
            if oe.unit[..2] != ne.unit[..2] || (oe.unit == ne.unit && oe.ty == ne.ty) {
                continue;
            }
            for (k, v) in vals.iter().enumerate() {
                let enc = encode(v, STYLES[k % STYLES.len()]);
                ctx.mark(&enc);
                if let Some(w) = check(ctx, ou, oe, od, v, &enc) {
                    // With a fallback nothing is lost on the way.
                    let back = encode(&w, STYLES[0]);
                    let r = check(ctx, nu, ne, nd, &w, &back);
                    let keeps = matches!(&od.body, Body::Struct(_, Some(_)) | Body::Enum(_, Some(_)));
                    let orig = nu.world.decode_def(nu.world.main(), nd, v);
                    // Except that an optional field does not tell absent and none apart.
                    let none = matches!(v, RV::Struct(m) if m.values().any(|v| *v == RV::None));
                    assert!(!keeps || none || r == orig, "harness: {v:?} through {} {}", oe.unit, oe.ty);
                }
                n.fetch_add(1, Ordering::Relaxed);
            }
        }
    });
    ctx.extra("old_new_pairs", shapes.len() * shapes.len());
    ctx.extra("values_across_versions", n.into_inner());
}

pub fn run(ctx: &Ctx) {
    let c = corpus(ctx);
    if let Some(r) = &ctx.replay {
        replay(ctx, &c, r);
        return;
    }
    ctx.assume("schemas are those of the corpus (mc/gen/src/units.rs); conformance of a value is judged by a reference model of the schema language (mc/gen/src/schema.rs)");
    ctx.assume("which schemas are accepted is up to the parser: schemas it rejects are not generated");
    ctx.extra("schemas", c.units.len());
    ctx.extra("build_seconds", c.build["seconds"].clone());
    if ctx.only("build") {
        builds(ctx, &c);
        ctx.add_states(c.units.len() as u64);
    }
    if ctx.only("types") {
        types(ctx, &c);
    }
    if ctx.only("versions") {
        versions(ctx, &c);
    }
    if ctx.only("services") {
        svc::run(ctx, &c);
    }
}

fn replay(ctx: &Ctx, c: &Corpus, r: &Json) {
    match r["kind"].as_str().unwrap() {
        "build" => builds(ctx, c),
        "value" => {
            let e = ENTRIES.get().unwrap().types.iter().find(|e| e.unit == r["unit"] && e.ty == r["ty"] && e.schema == r["schema"]).expect("unit");
            let u = &c.units[e.unit];
            let d = u.world.schema(e.schema).defs().into_iter().find(|d| d.name == e.ty).unwrap();
            let enc = unhex(r["bytes"].as_str().unwrap());
            if enc.is_empty() {
                types(ctx, c);
                return;
            }
            let (v, _) = decode(&enc, true).expect("value");
            check(ctx, u, e, &d, &v, &enc);
        }
        _ => svc::replay(ctx, c, r),
    }
}
