//! C01: value codec round trip and nesting limit.

use crate::gen::*;
use crate::refcodec::*;
use crate::util::{slice, Styled};
use aldrin_core::{tags, DeserializeError, SerializeError, SerializedValue};
use mc_common::{catch, hex, Ctx};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

fn short(b: &[u8]) -> String {
    if b.len() > 400 {
        format!("{}... ({} bytes)", hex(&b[..400]), b.len())
    } else {
        hex(b)
    }
}

fn fail(ctx: &Ctx, class: &str, rv: &RV, style: &str, what: String) {
    let enc = encode(rv, Style::V2);
    let key = format!("{class}:{style}:{}", short(&enc));
    ctx.violation(
        &key,
        &format!("{what}\nvalue (reference encoding): {}", short(&enc)),
        json!({"value": hex(&enc[..enc.len().min(200_000)]), "style": style}),
    );
}

/// Decodes `bytes` with the real decoder and expects `rv`, or a nesting error.
fn check_decode(ctx: &Ctx, rv: &RV, level: u32, bytes: &[u8], style: &str) {
    ctx.add_transitions(1);
    let got = catch(|| slice(bytes).deserialize_as_value());
    match got {
        Err(p) => fail(ctx, "decode-panic", rv, style, format!("decoding panicked: {p}")),
        Ok(Ok(v)) => {
            if level > MAX_DEPTH {
                fail(ctx, "decode-deep", rv, style,
                    format!("decoding accepted a value nested {level} levels deep"));
            } else {
                let back = from_value(&v);
                if back != *rv {
                    fail(ctx, "decode-value", rv, style,
                        format!("decoding {} yields {back:?}, expected {rv:?}", short(bytes)));
                }
            }
        }
        Ok(Err(DeserializeError::TooDeeplyNested)) if level > MAX_DEPTH => {}
        Ok(Err(e)) => fail(ctx, "decode-error", rv, style,
            format!("decoding {} (nested {level} levels) failed with {e:?}", short(bytes))),
    }
}

pub fn check(ctx: &Ctx, rv: &RV) {
    let level = rv.level();
    let deep = level > MAX_DEPTH;
    let value = to_value(rv);
    let v2 = encode(rv, Style::V2);
    ctx.mark(&v2);
    ctx.add_states(1);

    let check_encoded = |res: Result<Result<SerializedValue, SerializeError>, String>, style: &str| {
        ctx.add_transitions(1);
        match res {
            Err(p) => fail(ctx, "encode-panic", rv, style, format!("serializing panicked: {p}")),
            Ok(Err(SerializeError::TooDeeplyNested)) if deep => {}
            Ok(Err(e)) => fail(ctx, "encode-error", rv, style,
                format!("serializing a value nested {level} levels failed with {e:?}")),
            Ok(Ok(_)) if deep => fail(ctx, "encode-deep", rv, style,
                format!("serializing accepted a value nested {level} levels deep")),
            Ok(Ok(ser)) => {
                let b: &[u8] = &ser;
                match decode(b, false) {
                    Ok((r, n)) if r == *rv && n == b.len() => {}
                    r => fail(ctx, "encode-bytes", rv, style,
                        format!("serialized to {}, which the reference decodes as {r:?}", short(b))),
                }
                check_decode(ctx, rv, level, b, style);
                // All bytes are consumed: one byte more or less is noticed.
                for extra in [0u8, 1, 255] {
                    let mut t = b.to_vec();
                    t.push(extra);
                    if !matches!(catch(|| slice(&t).deserialize_as_value()), Ok(Err(_))) {
                        fail(ctx, "trailing", rv, style,
                            format!("decoding accepted a trailing byte after {}", short(b)));
                    }
                }
                if !matches!(catch(|| slice(&b[..b.len() - 1]).deserialize_as_value()), Ok(Err(_))) {
                    fail(ctx, "truncated", rv, style,
                        format!("decoding accepted {} without its last byte", short(b)));
                }
            }
        }
    };

    check_encoded(catch(|| SerializedValue::serialize(&value)), "value");
    for style in [Style::V1, Style::V2, Style::AltEven, Style::AltOdd] {
        check_encoded(
            catch(|| SerializedValue::serialize_as::<tags::Value>(Styled(rv, style, 1))),
            &format!("{style:?}"),
        );
    }
    for style in STYLES {
        let b = encode(rv, style);
        check_decode(ctx, rv, level, &b, &format!("ref-{style:?}"));
    }
}

fn run_list(ctx: &Ctx, name: &str, vals: &[RV]) {
    let chunk = (vals.len() / 4096).clamp(1, 64);
    ctx.par(vals.len().div_ceil(chunk), |i| {
        for rv in &vals[i * chunk..((i + 1) * chunk).min(vals.len())] {
            check(ctx, rv);
        }
    });
    ctx.extra(&format!("family_{name}"), vals.len());
    if let Some(v) = vals.get(vals.len() / 2) {
        ctx.sample(json!({"family": name, "value": short(&encode(v, Style::V2))}));
    }
}

fn sizes(thorough: bool) -> Vec<RV> {
    let mut v = vec![];
    let mut ns: Vec<usize> = vec![1, 2, 3, 17, 250, 251, 252, 253, 254, 255, 256, 257, 300, 65535, 65536];
    if thorough {
        ns.extend([65537, 70000, 1 << 24]);
    }
    for n in ns {
        if n <= 1 << 24 {
            v.push(RV::Bytes((0..n).map(|i| (i * 7) as u8).collect()));
            v.push(RV::Str("z".repeat(n)));
        }
        if n > 70000 {
            continue;
        }
        v.push(RV::Vec((0..n).map(|i| RV::U16(i as u16)).collect()));
        v.push(RV::Vec((0..n).map(|_| RV::None).collect()));
        v.push(RV::Struct((0..n as u32).map(|i| (i, RV::U32(i * 3))).collect()));
        for kk in KKS {
            let keys: BTreeSet<Key> = (0..n as u64)
                .filter_map(|i| {
                    Some(match kk {
                        KK::U8 if i < 256 => Key::U(i),
                        KK::I8 if i < 256 => Key::I(i as i64 - 128),
                        KK::U16 if i < 65536 => Key::U(i),
                        KK::I16 if i < 65536 => Key::I(i as i64 - 32768),
                        KK::U8 | KK::I8 | KK::U16 | KK::I16 => return None,
                        KK::U32 => Key::U(i * 65537 & 0xffff_ffff),
                        KK::I32 => Key::I((i as i64 - 32768) * 32768),
                        KK::U64 => Key::U(i << 40 | i),
                        KK::I64 => Key::I((i as i64) << 40),
                        KK::Str => Key::Str(format!("k{i}")),
                        KK::Uuid => Key::Uuid((u128::from(i) << 64 | 5).to_le_bytes()),
                    })
                })
                .collect();
            v.push(RV::Map(kk, keys.iter().map(|k| (k.clone(), RV::Bool(true))).collect()));
            v.push(RV::Set(kk, keys));
        }
    }
    v
}

fn leaves() -> Vec<RV> {
    vec![
        RV::None,
        RV::U64(u64::MAX),
        RV::Str("s".into()),
        RV::Bytes(vec![1]),
        RV::Vec(vec![]),
        RV::Struct(BTreeMap::new()),
        RV::Map(KK::U16, BTreeMap::new()),
        RV::Map(KK::Str, BTreeMap::new()),
        RV::Set(KK::U32, few_keys(KK::U32).into_iter().collect()),
        RV::Set(KK::Uuid, BTreeSet::new()),
    ]
}

fn nesting(thorough: bool) -> Vec<RV> {
    let mut v = vec![];
    // Uniform chains of every step kind, every depth and leaf.
    for s in 0..NUM_STEPS {
        for d in 0..=45 {
            for leaf in leaves() {
                v.push(chain(&vec![s; d], leaf));
            }
        }
    }
    for s in 0..NUM_STEPS {
        for d in [100, 255, 256, 257, 288, 300] {
            v.push(chain(&vec![s; d], RV::None));
        }
    }
    // Chains around the limit where one position has another kind.
    for s in 0..NUM_STEPS {
        for t in 0..NUM_STEPS {
            if s == t {
                continue;
            }
            for d in [31, 32] {
                for p in 0..d {
                    let mut st = vec![s; d];
                    st[p] = t;
                    v.push(chain(&st, RV::None));
                }
            }
            for d in 29..=34 {
                let st: Vec<usize> = (0..d).map(|i| if i % 2 == 0 { s } else { t }).collect();
                v.push(chain(&st, RV::U8(1)));
            }
        }
    }
    // Siblings around deep elements: the limit is per path.
    for s2 in 0..NUM_STEPS2 {
        for s in 0..NUM_STEPS {
            for d in [30, 31, 32] {
                let deep = chain(&vec![s; d], RV::None);
                v.push(wrap2(s2, deep.clone(), RV::U8(1)));
                v.push(wrap2(s2, RV::U8(1), deep.clone()));
                v.push(wrap2(s2, deep.clone(), deep.clone()));
                v.push(wrap2(s2, chain(&[s; 3], RV::None), deep.clone()));
            }
        }
    }
    if thorough {
        // All mixtures of three kinds in the last three steps around the limit.
        for a in 0..NUM_STEPS {
            for b in 0..NUM_STEPS {
                for c in 0..NUM_STEPS {
                    for d in [28, 29, 30] {
                        for base in [0, 1, 2, 3, 9, 13] {
                            let mut st = vec![base; d];
                            st.extend([a, b, c]);
                            v.push(chain(&st, RV::None));
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn run(ctx: &Ctx) {
    if let Some(r) = &ctx.replay {
        if let Some(s) = r["shape"].as_array() {
            let s: Vec<u8> = s.iter().map(|v| v.as_u64().unwrap() as u8).collect();
            crate::typed::check(ctx, &s);
            return;
        }
        let b = mc_common::unhex(r["value"].as_str().unwrap());
        // The reference decoder limits the depth, too; decode without limit by hand is not needed
        // for values up to the limit. Deeper ones are rebuilt level by level.
        let mut d = Dec::new(&b, false);
        match d.value(1) {
            Ok(v) => check(ctx, &v),
            Err(_) => {
                let mut d = Dec::new(&b, false);
                if let Ok(v) = d.value_unlimited() {
                    check(ctx, &v)
                }
            }
        }
        return;
    }

    run_list(ctx, "scalars", &all_atoms());
    crate::typed::run(ctx);

    if ctx.thorough {
        // Every 32-bit pattern.
        let n = 1usize << 16;
        ctx.par(n, |i| {
            for lo in 0..1u32 << 16 {
                let x = (i as u32) << 16 | lo;
                if i % 16 == 0 && lo == 0 {
                    ctx.mark(&x.to_le_bytes());
                }
                for rv in [RV::U32(x), RV::I32(x as i32), RV::F32(x)] {
                    let ser = SerializedValue::serialize(to_value(&rv));
                    let ok = match &ser {
                        Ok(s) => {
                            decode(s, false) == Ok((rv.clone(), s.len()))
                                && s.deserialize_as_value().is_ok_and(|v| from_value(&v) == rv)
                        }
                        Err(_) => false,
                    };
                    if !ok {
                        check(ctx, &rv);
                        fail(ctx, "all32", &rv, "value", "round trip failed".into());
                    }
                }
            }
            ctx.add_states(3 << 16);
        });
        ctx.extra("family_all_u32_i32_f32", 3u64 << 32);
    }

    // Every key of every kind on its own and all keys together, for maps and sets.
    let mut v = vec![];
    for kk in KKS {
        let ks = keys(kk);
        for k in &ks {
            v.push(RV::Map(kk, BTreeMap::from([(k.clone(), RV::U16(254))])));
            v.push(RV::Set(kk, BTreeSet::from([k.clone()])));
            v.push(RV::Vec(vec![
                RV::Map(kk, BTreeMap::from([(k.clone(), RV::None)])),
                RV::Set(kk, BTreeSet::from([k.clone()])),
                RV::U8(9),
            ]));
        }
        v.push(RV::Map(kk, ks.iter().map(|k| (k.clone(), RV::U8(1))).collect()));
        v.push(RV::Set(kk, ks.into_iter().collect()));
    }
    for id in uints(32) {
        v.push(RV::Struct(BTreeMap::from([(id as u32, RV::Bool(true))])));
        v.push(RV::en(id as u32, RV::None));
        v.push(RV::en(id as u32, RV::Struct(BTreeMap::from([(id as u32, RV::U8(1))]))));
    }
    run_list(ctx, "keys_and_ids", &v);

    // Every container kind over every atom, nested.
    let depth = if ctx.thorough { 4 } else { 3 };
    let mut v = vec![];
    let base = atoms();
    for a in &base {
        for s in 0..NUM_STEPS {
            for t in 0..NUM_STEPS {
                v.push(chain(&[s, t], a.clone()));
            }
            v.push(wrap(s, a.clone()));
        }
    }
    let few: Vec<RV> = base.iter().step_by(if depth == 4 { 5 } else { 7 }).cloned().collect();
    for a in &few {
        for s in 0..NUM_STEPS {
            for t in 0..NUM_STEPS {
                for u in 0..NUM_STEPS {
                    v.push(chain(&[s, t, u], a.clone()));
                    if depth == 4 {
                        for w in 0..NUM_STEPS {
                            v.push(chain(&[s, t, u, w], a.clone()));
                        }
                    }
                }
            }
        }
    }
    run_list(ctx, "container_nesting", &v);

    // Pairs and triples of neighbours.
    let mut v = vec![];
    let mut elems = base.clone();
    for s in 0..NUM_STEPS {
        elems.push(wrap(s, RV::U16(300)));
    }
    for (i, a) in elems.iter().enumerate() {
        for (j, b) in elems.iter().enumerate() {
            v.push(wrap2((i * 7 + j) % NUM_STEPS2, a.clone(), b.clone()));
            v.push(wrap2(0, a.clone(), b.clone()));
            if ctx.thorough {
                for s in 1..NUM_STEPS2 {
                    v.push(wrap2(s, a.clone(), b.clone()));
                }
            }
        }
    }
    run_list(ctx, "neighbours", &v);

    run_list(ctx, "sizes", &sizes(ctx.thorough));
    run_list(ctx, "nesting", &nesting(ctx.thorough));

    // Way too deep input must be refused without exhausting even a small stack.
    let mut deep = vec![];
    for s in 0..NUM_STEPS {
        for style in [Style::V1, Style::V2] {
            let unit = encode(&wrap(s, RV::None), style);
            // The bytes in front of the innermost `None`.
            let pre = match (s, style) {
                (0 | 3, _) | (_, Style::V1) => &unit[..unit.len() - 1],
                _ => &unit[..unit.len() - 2],
            };
            for n in [33usize, 1000, 200_000] {
                deep.push(pre.repeat(n));
            }
        }
    }
    ctx.par_stack(deep.len(), 512 << 10, |i| {
        let b = &deep[i];
        ctx.mark(&b[..b.len().min(4000)]);
        ctx.add_states(1);
        ctx.add_transitions(1);
        match catch(|| slice(b).deserialize_as_value()) {
            Ok(Err(DeserializeError::TooDeeplyNested)) => {}
            r => ctx.violation(
                &format!("deep-input:{}", short(&b[..b.len().min(64)])),
                &format!("decoding an endlessly nested input of {} bytes gave {r:?}", b.len()),
                json!({"hex": hex(&b[..b.len().min(4000)])}),
            ),
        }
    });
    ctx.extra("family_deep_inputs", deep.len());

    ctx.add_traces(ctx.states.load(std::sync::atomic::Ordering::Relaxed));
    ctx.extra("exhaustive", true);
    ctx.extra("bounds", "all 8/16-bit scalars, boundary sets of wider ones (thorough: all 32-bit patterns), every container kind x every atom nested twice (every kind nested three/four times over representative atoms), every key kind x boundary keys, all neighbour pairs, sizes at length-encoding boundaries, nesting depth 1..45 for every step kind and every single-kind deviation at the limit; current, legacy and alternating encodings");
    ctx.assume("values outside the enumerated domains behave like an enumerated value of the same kind and encoded size");
}
