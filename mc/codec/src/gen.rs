//! Bounded enumeration of reference values.

use crate::refcodec::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn uints(bits: u32) -> Vec<u64> {
    let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let mut s = BTreeSet::new();
    for k in 0..=bits {
        let p = if k == 64 { 0 } else { 1u64 << k };
        for d in 0..3u64 {
            s.insert(p.wrapping_add(d));
            s.insert(p.wrapping_sub(d));
        }
    }
    for k in (0..bits).step_by(8) {
        for v in 245..=260u64 {
            s.insert(v << k);
            s.insert((v << k).wrapping_sub(1));
        }
    }
    s.insert(max);
    s.into_iter().filter(|v| *v <= max).collect()
}

pub fn ints(bits: u32) -> Vec<i64> {
    let (min, max) = (
        if bits == 64 { i64::MIN } else { -(1 << (bits - 1)) },
        if bits == 64 { i64::MAX } else { (1 << (bits - 1)) - 1 },
    );
    let mut s = BTreeSet::new();
    // The zigzag images of the interesting unsigned values, and their neighbours.
    for u in uints(bits) {
        let v = ((u >> 1) as i64) ^ -((u & 1) as i64);
        s.insert(v);
        s.insert(v.wrapping_neg());
        s.insert(v.wrapping_add(1));
    }
    s.insert(min);
    s.insert(max);
    s.into_iter().filter(|v| *v >= min && *v <= max).collect()
}

pub fn floats32() -> Vec<u32> {
    let mut s = BTreeSet::new();
    for sign in [0u32, 1 << 31] {
        for exp in 0..=255u32 {
            for man in [0u32, 1, 2, 0x3fffff, 0x400000, 0x400001, 0x7fffff, 0x2aaaaa, 0x00ff00] {
                s.insert(sign | exp << 23 | man);
            }
        }
        for b in 0..23 {
            s.insert(sign | 0x7f800000 | 1 << b);
            s.insert(sign | 1 << b);
        }
    }
    s.into_iter().collect()
}

pub fn floats64() -> Vec<u64> {
    let mut s = BTreeSet::new();
    for sign in [0u64, 1 << 63] {
        for exp in 0..=2047u64 {
            for man in [0u64, 1, (1 << 51) - 1, 1 << 51, (1 << 51) + 1, (1 << 52) - 1, 0xff00ff00ff] {
                s.insert(sign | exp << 52 | man);
            }
        }
        for b in 0..52 {
            s.insert(sign | 0x7ff << 52 | 1 << b);
            s.insert(sign | 1 << b);
        }
    }
    s.into_iter().collect()
}

pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "a", "\0", "ab", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}",
        "\u{10ffff}", "é😀\n", "a\u{300}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [3, 250, 251, 252, 253, 254, 255, 256, 257] {
        v.push("x".repeat(n));
    }
    v
}

pub fn uuids() -> Vec<[u8; 16]> {
    let mut inc = [0u8; 16];
    for (i, b) in inc.iter_mut().enumerate() {
        *b = i as u8;
    }
    let mut hi = [0u8; 16];
    hi[0] = 0x80;
    let mut lo = [0u8; 16];
    lo[15] = 1;
    vec![[0; 16], [0xff; 16], inc, hi, lo]
}

fn ids<const N: usize>() -> Vec<[u8; N]> {
    let mut inc = [0u8; N];
    for (i, b) in inc.iter_mut().enumerate() {
        *b = i as u8 + 1;
    }
    let mut v = vec![[0; N], [0xff; N], inc];
    for i in (0..N).step_by(16) {
        let mut x = [0; N];
        x[i] = 1;
        x[i + 15] = 2;
        v.push(x);
    }
    v
}

pub fn keys(kk: KK) -> Vec<Key> {
    match kk {
        KK::U8 => (0..=255).map(Key::U).collect(),
        KK::I8 => (-128..=127).map(Key::I).collect(),
        KK::U16 => uints(16).into_iter().map(Key::U).collect(),
        KK::U32 => uints(32).into_iter().map(Key::U).collect(),
        KK::U64 => uints(64).into_iter().map(Key::U).collect(),
        KK::I16 => ints(16).into_iter().map(Key::I).collect(),
        KK::I32 => ints(32).into_iter().map(Key::I).collect(),
        KK::I64 => ints(64).into_iter().map(Key::I).collect(),
        KK::Str => strings().into_iter().map(Key::Str).collect(),
        KK::Uuid => uuids().into_iter().map(Key::Uuid).collect(),
    }
}

/// A few keys of each encoded size.
pub fn few_keys(kk: KK) -> Vec<Key> {
    match kk {
        KK::U8 => vec![Key::U(0), Key::U(255)],
        KK::I8 => vec![Key::I(0), Key::I(-128)],
        KK::U16 => [0, 253, 254, 0xffff].map(Key::U).to_vec(),
        KK::U32 => [1, 251, 252, 0xffff, 0x1_0000, u64::from(u32::MAX)].map(Key::U).to_vec(),
        KK::U64 => [2, 247, 248, 0x1_0000_0000, u64::MAX].map(Key::U).to_vec(),
        KK::I16 => [0, -127, 127, i64::from(i16::MIN)].map(Key::I).to_vec(),
        KK::I32 => [-1, 126, -40000, i64::from(i32::MIN)].map(Key::I).to_vec(),
        KK::I64 => [1, 124, -124, i64::MIN, i64::MAX].map(Key::I).to_vec(),
        KK::Str => ["", "k", "ключ"].map(|s| Key::Str(s.into())).to_vec(),
        KK::Uuid => vec![Key::Uuid([0; 16]), Key::Uuid([0xff; 16])],
    }
}

/// Every scalar value worth distinguishing.
pub fn all_atoms() -> Vec<RV> {
    let mut v = vec![RV::None, RV::Bool(false), RV::Bool(true)];
    v.extend((0..=255).map(RV::U8));
    v.extend((-128..=127).map(RV::I8));
    v.extend((0..=u16::MAX).map(RV::U16));
    v.extend((i16::MIN..=i16::MAX).map(RV::I16));
    v.extend(uints(32).into_iter().map(|x| RV::U32(x as u32)));
    v.extend(ints(32).into_iter().map(|x| RV::I32(x as i32)));
    v.extend(uints(64).into_iter().map(RV::U64));
    v.extend(ints(64).into_iter().map(RV::I64));
    v.extend(floats32().into_iter().map(RV::F32));
    v.extend(floats64().into_iter().map(RV::F64));
    v.extend(strings().into_iter().map(RV::Str));
    v.extend(uuids().into_iter().map(RV::Uuid));
    v.extend(ids::<32>().into_iter().map(RV::ObjectId));
    v.extend(ids::<64>().into_iter().map(RV::ServiceId));
    v.extend(uuids().into_iter().map(RV::Sender));
    v.extend(uuids().into_iter().map(RV::Receiver));
    v
}

/// One or a few representatives of every kind (incl. empty containers).
pub fn atoms() -> Vec<RV> {
    let mut v = vec![
        RV::None,
        RV::Bool(true),
        RV::Bool(false),
        RV::U8(0),
        RV::U8(255),
        RV::I8(-1),
        RV::U16(253),
        RV::U16(254),
        RV::U16(u16::MAX),
        RV::I16(-127),
        RV::I16(i16::MIN),
        RV::U32(251),
        RV::U32(252),
        RV::U32(u32::MAX),
        RV::I32(-126),
        RV::I32(i32::MIN),
        RV::U64(247),
        RV::U64(248),
        RV::U64(u64::MAX),
        RV::I64(-124),
        RV::I64(i64::MIN),
        RV::F32(0x7fc00001),
        RV::F32(0x8000_0000),
        RV::F64(0xfff0_0000_0000_0001),
        RV::Str(String::new()),
        RV::Str("aé".into()),
        RV::Uuid([7; 16]),
        RV::ObjectId([8; 32]),
        RV::ServiceId([9; 64]),
        RV::Sender([10; 16]),
        RV::Receiver([11; 16]),
        RV::Vec(vec![]),
        RV::Bytes(vec![]),
        RV::Bytes(vec![0, 1, 255]),
        RV::Struct(BTreeMap::new()),
    ];
    for kk in KKS {
        v.push(RV::Map(kk, BTreeMap::new()));
        v.push(RV::Set(kk, BTreeSet::new()));
        v.push(RV::Set(kk, few_keys(kk).into_iter().collect()));
    }
    v
}

pub const NUM_STEPS: usize = 15;

/// Wraps `v` into the container kind `step` as only or last element.
pub fn wrap(step: usize, v: RV) -> RV {
    match step {
        0 => RV::some(v),
        1 => RV::Vec(vec![v]),
        2 => RV::Struct(BTreeMap::from([(300, v)])),
        3 => RV::en(252, v),
        4 => RV::Struct(BTreeMap::from([(0, RV::U8(1)), (70000, v)])),
        n => {
            let kk = KKS[n - 5];
            let k = few_keys(kk).pop().unwrap();
            RV::Map(kk, BTreeMap::from([(k, v)]))
        }
    }
}

/// Wraps two values.
pub fn wrap2(step: usize, a: RV, b: RV) -> RV {
    match step {
        0 => RV::Vec(vec![a, b]),
        1 => RV::Struct(BTreeMap::from([(1, a), (2, b)])),
        n => {
            let kk = KKS[(n - 2) % 10];
            let ks = few_keys(kk);
            RV::Map(kk, BTreeMap::from([(ks[0].clone(), a), (ks[1].clone(), b)]))
        }
    }
}
pub const NUM_STEPS2: usize = 12;

pub fn chain(steps: &[usize], leaf: RV) -> RV {
    steps.iter().rev().fold(leaf, |v, s| wrap(*s, v))
}

/// A compact corpus covering every kind, every container, both key sizes, small nesting.
pub fn corpus(depth: usize) -> Vec<RV> {
    let mut v = atoms();
    let mut level: Vec<RV> = vec![
        RV::None,
        RV::U8(7),
        RV::U32(70000),
        RV::Str("é".into()),
        RV::Bytes(vec![1, 2, 3]),
        RV::Vec(vec![]),
        RV::Set(KK::U16, few_keys(KK::U16).into_iter().collect()),
    ];
    for _ in 0..depth {
        let mut next = Vec::new();
        for s in 0..NUM_STEPS {
            for x in &level {
                next.push(wrap(s, x.clone()));
            }
        }
        v.extend(next.iter().cloned());
        level = next;
    }
    for kk in KKS {
        v.push(RV::Map(
            kk,
            few_keys(kk).into_iter().map(|k| (k, RV::U16(1000))).collect(),
        ));
    }
    for s in 0..NUM_STEPS2 {
        v.push(wrap2(s, RV::U16(999), RV::some(RV::None)));
        v.push(wrap2(s, RV::Vec(vec![RV::None]), RV::Bytes(vec![4])));
    }
    v.push(RV::Vec(vec![RV::U8(1), RV::None, RV::Str("x".into())]));
    v.push(RV::Bytes((0..=255).collect()));
    v
}
