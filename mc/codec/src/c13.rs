//! C13: value epoch conversion.

use crate::c07::{mutations, short, small_corpus};
use crate::gen::*;
use crate::refcodec::*;
use crate::util::slice;
use aldrin_core::message::{MessageOps, SendItem};
use aldrin_core::{ChannelCookie, ProtocolVersion, SerializedValueSlice, ValueConversionError};
use mc_common::{catch, hex, Ctx};
use serde_json::json;
use std::borrow::Cow;

fn versions() -> Vec<ProtocolVersion> {
    let mut v: Vec<_> = (12..=23).map(|m| ProtocolVersion::new(1, m)).collect();
    for (a, b) in [(0, 0), (0, 14), (0, 20), (1, 0), (1, u32::MAX), (2, 0), (2, 14), (2, 20), (u32::MAX, 17)] {
        v.push(ProtocolVersion::new(a, b));
    }
    v
}

fn epoch(v: ProtocolVersion) -> Option<u8> {
    if v.major() != 1 {
        return None;
    }
    match v.minor() {
        14..=19 => Some(1),
        20 => Some(2),
        _ => None,
    }
}

fn fail(ctx: &Ctx, class: &str, b: &[u8], from: Option<ProtocolVersion>, to: ProtocolVersion, what: String) {
    ctx.violation(
        &format!("{class}:{:?}-{to}:{}", from.map(|f| f.to_string()), short(b)),
        &format!("converting from {from:?} to {to}: {what}\nvalue: {}", short(b)),
        json!({"hex": hex(b)}),
    );
}

/// Checks one conversion. `wf` is the reference's reading of the input, if well-formed.
fn check_one(ctx: &Ctx, b: &[u8], from: Option<ProtocolVersion>, to: ProtocolVersion, wf: &Option<RV>, wf_lenient: bool, v2: bool) {
    ctx.add_transitions(1);
    let s = slice(b);
    let r = match catch(|| s.convert(from, to)) {
        Ok(r) => r,
        Err(p) => return fail(ctx, "panic", b, from, to, format!("panicked: {p}")),
    };
    let (ef, et) = (epoch(from.unwrap_or(ProtocolVersion::V1_20)), epoch(to));
    let (Some(ef), Some(et)) = (ef, et) else {
        if !matches!(r, Err(ValueConversionError::InvalidVersion)) {
            fail(ctx, "version", b, from, to, format!("gave {:?}, expected InvalidVersion", r.map(|c| short(&c))));
        }
        return;
    };
    if et >= ef {
        match r {
            Ok(c) if **c == *b => {}
            r => fail(ctx, "same", b, from, to, format!("expected the input back, got {:?}", r.map(|c| short(&c)))),
        }
        return;
    }
    let out: Cow<SerializedValueSlice> = match r {
        Ok(o) => o,
        Err(e) => {
            if wf_lenient {
                fail(ctx, "fails", b, from, to, format!("failed with {e:?} for a well-formed value"));
            }
            return;
        }
    };
    if let Some(want) = wf {
        let mut d = Dec::new(&out, false);
        match d.value(1) {
            Ok(got) if got == *want && d.pos == out.len() => {
                if d.saw_v2 {
                    fail(ctx, "new-encoding", b, from, to, format!("the result {} contains a container encoding of 1.20", short(&out)));
                }
            }
            r => fail(ctx, "meaning", b, from, to, format!("the result {} means {r:?}, expected {want:?}", short(&out))),
        }
        if !v2 && !matches!(&out, o if decode(o, false).is_ok()) {
            fail(ctx, "meaning", b, from, to, "ill-formed".into());
        }
        let back = catch(|| out.deserialize_as_value().map(|v| from_value(&v)));
        if !matches!(&back, Ok(Ok(v)) if v == want) {
            fail(ctx, "decode", b, from, to, format!("the result {} decodes to {back:?}", short(&out)));
        }
    } else if wf_lenient {
        let mut d = Dec::new(&out, true);
        if d.value(1).is_err() || d.pos != out.len() || d.saw_v2 {
            fail(ctx, "lenient", b, from, to, format!("the result {} is ill-formed or new-style", short(&out)));
        }
    }
    // Converting twice equals converting once.
    for from2 in [None, Some(to), from] {
        match catch(|| out.convert(from2, to).map(|c| c.to_vec())) {
            Ok(Ok(t)) if *t == **out => {}
            r => {
                if wf_lenient {
                    fail(ctx, "twice", b, from, to, format!("converting the result {} again gives {r:?}", short(&out)));
                }
            }
        }
    }
    // The other two interfaces agree.
    let mut owned = s.to_owned();
    let r = catch(|| owned.convert(from, to));
    if !matches!(r, Ok(Ok(()))) || **owned != **out {
        fail(ctx, "owned", b, from, to, format!("in-place conversion gives {r:?} {}", short(&owned)));
    }
    let mut msg = SendItem { cookie: ChannelCookie(uuid::Uuid::nil()), value: s.to_owned() };
    let r = catch(|| msg.convert_value(from, to));
    if !matches!(r, Ok(Ok(()))) || **msg.value != **out {
        fail(ctx, "message", b, from, to, format!("conversion within a message gives {r:?} {}", short(&msg.value)));
    }
}

/// All version pairs for one byte string.
fn check(ctx: &Ctx, b: &[u8], all: bool, vers: &[ProtocolVersion]) {
    ctx.add_states(1);
    let n = b.len();
    let mut d = Dec::new(b, false);
    let wf = d.value(1).ok().filter(|_| d.pos == n);
    let (v2, v1) = (d.saw_v2, d.saw_v1);
    let _ = v1;
    let lenient = wf.is_some() || decode(b, true).is_ok_and(|(_, c)| c == n);
    let targets = [ProtocolVersion::V1_14, ProtocolVersion::V1_17, ProtocolVersion::V1_19];
    if all {
        for to in vers {
            check_one(ctx, b, None, *to, &wf, lenient, v2);
            for from in vers {
                check_one(ctx, b, Some(*from), *to, &wf, lenient, v2);
            }
        }
    } else {
        for to in targets {
            check_one(ctx, b, None, to, &wf, lenient, v2);
        }
        check_one(ctx, b, Some(ProtocolVersion::V1_20), ProtocolVersion::V1_19, &wf, lenient, v2);
        check_one(ctx, b, Some(ProtocolVersion::V1_19), ProtocolVersion::V1_20, &wf, lenient, v2);
    }
}

pub fn run(ctx: &Ctx) {
    let vers = versions();
    if let Some(r) = &ctx.replay {
        check(ctx, &mc_common::unhex(r["hex"].as_str().unwrap()), true, &vers);
        return;
    }
    // Well-formed values in every encoding style, all version pairs.
    let mut vals = corpus(2);
    for kk in KKS {
        for k in keys(kk) {
            vals.push(RV::Map(kk, [(k.clone(), RV::Vec(vec![RV::None]))].into()));
            vals.push(RV::Vec(vec![RV::Set(kk, [k].into()), RV::U8(1)]));
        }
    }
    for id in uints(32) {
        vals.push(RV::Struct([(id as u32, RV::Vec(vec![RV::U8(1)]))].into()));
        vals.push(RV::en(id as u32, RV::Vec(vec![])));
    }
    let pairs = corpus(1);
    for (i, a) in pairs.iter().enumerate() {
        for (j, b) in pairs.iter().enumerate() {
            if ctx.thorough || (i + j) % 3 == 0 {
                vals.push(wrap2((i + j) % NUM_STEPS2, a.clone(), b.clone()));
            }
        }
    }
    ctx.extra("values", vals.len());
    ctx.par(vals.len(), |i| {
        let v = &vals[i];
        let mut done: Vec<Vec<u8>> = vec![];
        for (k, st) in STYLES.into_iter().chain([Style::V2Chunk(2)]).enumerate() {
            let e = encode(v, st);
            if done.contains(&e) {
                continue;
            }
            ctx.mark(&e);
            check(ctx, &e, k == 1 || i % 16 == 0, &vers);
            done.push(e);
        }
    });
    ctx.sample(json!(vals.iter().step_by(vals.len() / 6).map(|v| short(&encode(v, Style::AltOdd))).collect::<Vec<_>>()));

    // Sizes around length encodings.
    let mut vals = vec![];
    for n in [0usize, 1, 2, 250, 251, 252, 253, 254, 255, 256, 257, 65535, 65536] {
        vals.push(RV::Bytes(vec![7; n]));
        vals.push(RV::Str("q".repeat(n)));
        vals.push(RV::Vec(vec![RV::Bytes(vec![1]); n]));
        vals.push(RV::Struct((0..n as u32).map(|i| (i, RV::U32(i))).collect()));
        vals.push(RV::Map(KK::U32, (0..n as u64).map(|i| (Key::U(i * 60000), RV::Vec(vec![]))).collect()));
        vals.push(RV::Map(KK::Str, (0..n as u64).map(|i| (Key::Str(i.to_string()), RV::None)).collect()));
        vals.push(RV::Set(KK::I64, (0..n as i64).map(|i| Key::I(-i << 20)).collect()));
        vals.push(RV::Set(KK::Uuid, (0..n as u128).map(|i| Key::Uuid(i.to_le_bytes())).collect()));
    }
    ctx.extra("size_values", vals.len());
    ctx.par(vals.len(), |i| {
        for st in [Style::V1, Style::V2, Style::AltEven, Style::AltOdd, Style::V2Chunk(1), Style::V2Chunk(251), Style::V2Chunk(252)] {
            let e = encode(&vals[i], st);
            ctx.mark(&e[..e.len().min(1000)]);
            check(ctx, &e, false, &vers);
        }
    });

    // Nesting at the limit and beyond it.
    let mut deep = vec![];
    for s in 0..NUM_STEPS {
        for d in (0..=36).chain([64, 1000]) {
            for st in [Style::V1, Style::V2, Style::AltEven, Style::AltOdd] {
                for leaf in [RV::None, RV::Vec(vec![]), RV::Bytes(vec![1, 2]), RV::Set(KK::I32, few_keys(KK::I32).into_iter().collect()), RV::Map(KK::U64, [].into()), RV::Struct([].into())] {
                    deep.push(encode(&chain(&vec![s; d], leaf), st));
                }
            }
        }
        for t in 0..NUM_STEPS {
            for d in 30..=33 {
                let st: Vec<usize> = (0..d).map(|i| if i % 2 == 0 { s } else { t }).collect();
                for style in [Style::V1, Style::V2, Style::AltEven] {
                    deep.push(encode(&chain(&st, RV::U16(300)), style));
                }
                for p in [0, d / 2, d - 1] {
                    let mut st = vec![s; d];
                    st[p] = t;
                    deep.push(encode(&chain(&st, RV::None), Style::V2));
                }
            }
        }
        for s2 in 0..NUM_STEPS2 {
            for d in 29..=32 {
                let c = chain(&vec![s; d], RV::None);
                deep.push(encode(&wrap2(s2, c.clone(), c.clone()), Style::V2));
                deep.push(encode(&wrap2(s2, c, RV::U8(1)), Style::AltOdd));
            }
        }
    }
    // Far too deep.
    for s in 0..NUM_STEPS {
        for st in [Style::V1, Style::V2] {
            let unit = encode(&wrap(s, RV::None), st);
            let pre = match (s, st) {
                (0 | 3, _) | (_, Style::V1) => &unit[..unit.len() - 1],
                _ => &unit[..unit.len() - 2],
            };
            deep.push(pre.repeat(100_000));
        }
    }
    ctx.extra("nesting_values", deep.len());
    ctx.par_stack(deep.len(), 1 << 20, |i| {
        ctx.mark(&deep[i][..deep[i].len().min(2000)]);
        check(ctx, &deep[i], i % 64 == 0, &vers);
    });

    // Ill-formed input: mutation closure and short strings.
    let corpus = small_corpus(false);
    let max = if ctx.thorough { 100 } else { 40 };
    let corpus: Vec<_> = corpus.into_iter().filter(|e| e.len() <= max).collect();
    ctx.extra("mutated_encodings", corpus.len());
    ctx.par(corpus.len(), |i| {
        let e = &corpus[corpus.len() - 1 - i];
        let mut k = 0u32;
        mutations(e, |m| {
            if k % 64 == 0 {
                ctx.mark(m);
            }
            k += 1;
            if !ctx.stopped() {
                check(ctx, m, false, &vers);
            }
        });
    });
    let alpha: &[u8] = &[0, 1, 3, 5, 13, 17, 43, 44, 65, 252, 254, 255];
    ctx.par(66 * alpha.len(), |i| {
        let (kind, first) = ((i / alpha.len()) as u8, alpha[i % alpha.len()]);
        ctx.mark(&[kind, first]);
        check(ctx, &[kind], false, &vers);
        for x in 0..=255u8 {
            check(ctx, &[kind, first, x], false, &vers);
            for &y in alpha {
                check(ctx, &[kind, first, x, y], false, &vers);
                if ctx.thorough {
                    for &z in alpha {
                        check(ctx, &[kind, first, x, y, z], false, &vers);
                    }
                }
            }
        }
    });

    ctx.add_traces(ctx.states.load(std::sync::atomic::Ordering::Relaxed));
    ctx.extra("exhaustive", true);
    ctx.extra("bounds", "corpus values x 6 encoding styles x all ordered pairs of 21 versions (and unknown origin); nesting 0..36, 64, 1000, 100000; length boundaries; mutation closure and short strings for ill-formed input");
    ctx.assume("the reference decoder in mc/codec/src/refcodec.rs states the wire format");
}
