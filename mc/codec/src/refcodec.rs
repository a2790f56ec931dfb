//! Independent reference model of the value wire format.

use aldrin_core::{
    Bytes, ChannelCookie, Enum, ObjectCookie, ObjectId, ObjectUuid, ServiceCookie, ServiceId,
    ServiceUuid, Struct, Value,
};
use std::collections::{BTreeMap, BTreeSet};
use uuid::Uuid;

pub const MAX_DEPTH: u32 = 32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum KK {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    Str,
    Uuid,
}

pub const KKS: [KK; 10] = [
    KK::U8,
    KK::I8,
    KK::U16,
    KK::I16,
    KK::U32,
    KK::I32,
    KK::U64,
    KK::I64,
    KK::Str,
    KK::Uuid,
];

impl KK {
    fn idx(self) -> u8 {
        self as u8
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Key {
    U(u64),
    I(i64),
    Str(String),
    Uuid([u8; 16]),
}

/// Reference value: floats are bit patterns, maps and sets are ordered.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum RV {
    None,
    Some(Box<RV>),
    Bool(bool),
    U8(u8),
    I8(i8),
    U16(u16),
    I16(i16),
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F32(u32),
    F64(u64),
    Str(String),
    Uuid([u8; 16]),
    ObjectId([u8; 32]),
    ServiceId([u8; 64]),
    Vec(Vec<RV>),
    Bytes(Vec<u8>),
    Map(KK, BTreeMap<Key, RV>),
    Set(KK, BTreeSet<Key>),
    Struct(BTreeMap<u32, RV>),
    Enum(u32, Box<RV>),
    Sender([u8; 16]),
    Receiver([u8; 16]),
}

impl RV {
    pub fn some(v: RV) -> RV {
        RV::Some(Box::new(v))
    }
    pub fn en(id: u32, v: RV) -> RV {
        RV::Enum(id, Box::new(v))
    }

    /// Nesting level: 1 for a leaf.
    pub fn level(&self) -> u32 {
        match self {
            RV::Some(v) | RV::Enum(_, v) => 1 + v.level(),
            RV::Vec(v) => 1 + v.iter().map(RV::level).max().unwrap_or(0),
            RV::Map(_, m) => 1 + m.values().map(RV::level).max().unwrap_or(0),
            RV::Struct(m) => 1 + m.values().map(RV::level).max().unwrap_or(0),
            _ => 1,
        }
    }
}

/// How containers are encoded.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    V1,
    V2,
    /// V2 on even levels.
    AltEven,
    /// V2 on odd levels.
    AltOdd,
    /// V2 with byte strings split into chunks of this many bytes.
    V2Chunk(usize),
}

pub const STYLES: [Style; 5] = [
    Style::V1,
    Style::V2,
    Style::AltEven,
    Style::AltOdd,
    Style::V2Chunk(1),
];

impl Style {
    pub fn v2(self, level: u32) -> bool {
        match self {
            Style::V1 => false,
            Style::V2 | Style::V2Chunk(_) => true,
            Style::AltEven => level % 2 == 0,
            Style::AltOdd => level % 2 == 1,
        }
    }
}

pub fn put_varint(out: &mut Vec<u8>, v: u64, n: u8) {
    // Number of significant bytes.
    let mut k = 8u8;
    while k > 1 && v >> (8 * (u32::from(k) - 1)) == 0 {
        k -= 1;
    }
    if k == 1 && v <= u64::from(255 - n) {
        out.push(v as u8);
    } else {
        out.push(255 - n + k);
        out.extend_from_slice(&v.to_le_bytes()[..k as usize]);
    }
}

fn zz16(v: i16) -> u64 {
    u64::from(((v as u16) << 1) ^ (if v < 0 { u16::MAX } else { 0 }))
}
fn zz32(v: i32) -> u64 {
    u64::from(((v as u32) << 1) ^ (if v < 0 { u32::MAX } else { 0 }))
}
fn zz64(v: i64) -> u64 {
    ((v as u64) << 1) ^ (if v < 0 { u64::MAX } else { 0 })
}
fn unzz(v: u64) -> i64 {
    ((v >> 1) as i64) ^ -((v & 1) as i64)
}

fn put_key(out: &mut Vec<u8>, kk: KK, key: &Key) {
    match (kk, key) {
        (KK::U8, Key::U(v)) => out.push(*v as u8),
        (KK::I8, Key::I(v)) => out.push(*v as i8 as u8),
        (KK::U16, Key::U(v)) => put_varint(out, *v, 2),
        (KK::U32, Key::U(v)) => put_varint(out, *v, 4),
        (KK::U64, Key::U(v)) => put_varint(out, *v, 8),
        (KK::I16, Key::I(v)) => put_varint(out, zz16(*v as i16), 2),
        (KK::I32, Key::I(v)) => put_varint(out, zz32(*v as i32), 4),
        (KK::I64, Key::I(v)) => put_varint(out, zz64(*v), 8),
        (KK::Str, Key::Str(s)) => {
            put_varint(out, s.len() as u64, 4);
            out.extend_from_slice(s.as_bytes());
        }
        (KK::Uuid, Key::Uuid(u)) => out.extend_from_slice(u),
        _ => panic!("harness: key kind mismatch"),
    }
}

pub fn encode(v: &RV, style: Style) -> Vec<u8> {
    let mut out = Vec::new();
    enc(v, style, 1, &mut out);
    out
}

fn enc(v: &RV, style: Style, level: u32, out: &mut Vec<u8>) {
    let v2 = style.v2(level);
    match v {
        RV::None => out.push(0),
        RV::Some(v) => {
            out.push(1);
            enc(v, style, level + 1, out);
        }
        RV::Bool(b) => out.extend_from_slice(&[2, u8::from(*b)]),
        RV::U8(v) => out.extend_from_slice(&[3, *v]),
        RV::I8(v) => out.extend_from_slice(&[4, *v as u8]),
        RV::U16(v) => {
            out.push(5);
            put_varint(out, u64::from(*v), 2);
        }
        RV::I16(v) => {
            out.push(6);
            put_varint(out, zz16(*v), 2);
        }
        RV::U32(v) => {
            out.push(7);
            put_varint(out, u64::from(*v), 4);
        }
        RV::I32(v) => {
            out.push(8);
            put_varint(out, zz32(*v), 4);
        }
        RV::U64(v) => {
            out.push(9);
            put_varint(out, *v, 8);
        }
        RV::I64(v) => {
            out.push(10);
            put_varint(out, zz64(*v), 8);
        }
        RV::F32(v) => {
            out.push(11);
            out.extend_from_slice(&v.to_le_bytes());
        }
        RV::F64(v) => {
            out.push(12);
            out.extend_from_slice(&v.to_le_bytes());
        }
        RV::Str(s) => {
            out.push(13);
            put_varint(out, s.len() as u64, 4);
            out.extend_from_slice(s.as_bytes());
        }
        RV::Uuid(u) => {
            out.push(14);
            out.extend_from_slice(u);
        }
        RV::ObjectId(u) => {
            out.push(15);
            out.extend_from_slice(u);
        }
        RV::ServiceId(u) => {
            out.push(16);
            out.extend_from_slice(u);
        }
        RV::Vec(v) => {
            if v2 {
                out.push(43);
                for e in v {
                    out.push(1);
                    enc(e, style, level + 1, out);
                }
                out.push(0);
            } else {
                out.push(17);
                put_varint(out, v.len() as u64, 4);
                for e in v {
                    enc(e, style, level + 1, out);
                }
            }
        }
        RV::Bytes(b) => {
            if v2 {
                out.push(44);
                let chunk = match style {
                    Style::V2Chunk(n) => n,
                    _ => b.len().max(1),
                };
                for c in b.chunks(chunk) {
                    put_varint(out, c.len() as u64, 4);
                    out.extend_from_slice(c);
                }
                put_varint(out, 0, 4);
            } else {
                out.push(18);
                put_varint(out, b.len() as u64, 4);
                out.extend_from_slice(b);
            }
        }
        RV::Map(kk, m) => {
            if v2 {
                out.push(45 + kk.idx());
                for (k, e) in m {
                    out.push(1);
                    put_key(out, *kk, k);
                    enc(e, style, level + 1, out);
                }
                out.push(0);
            } else {
                out.push(19 + kk.idx());
                put_varint(out, m.len() as u64, 4);
                for (k, e) in m {
                    put_key(out, *kk, k);
                    enc(e, style, level + 1, out);
                }
            }
        }
        RV::Set(kk, s) => {
            if v2 {
                out.push(55 + kk.idx());
                for k in s {
                    out.push(1);
                    put_key(out, *kk, k);
                }
                out.push(0);
            } else {
                out.push(29 + kk.idx());
                put_varint(out, s.len() as u64, 4);
                for k in s {
                    put_key(out, *kk, k);
                }
            }
        }
        RV::Struct(m) => {
            if v2 {
                out.push(65);
                for (k, e) in m {
                    out.push(1);
                    put_varint(out, u64::from(*k), 4);
                    enc(e, style, level + 1, out);
                }
                out.push(0);
            } else {
                out.push(39);
                put_varint(out, m.len() as u64, 4);
                for (k, e) in m {
                    put_varint(out, u64::from(*k), 4);
                    enc(e, style, level + 1, out);
                }
            }
        }
        RV::Enum(id, v) => {
            out.push(40);
            put_varint(out, u64::from(*id), 4);
            enc(v, style, level + 1, out);
        }
        RV::Sender(u) => {
            out.push(41);
            out.extend_from_slice(u);
        }
        RV::Receiver(u) => {
            out.push(42);
            out.extend_from_slice(u);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RefErr {
    TooDeep,
    Malformed,
}

pub struct Dec<'a> {
    pub buf: &'a [u8],
    pub pos: usize,
    /// Accept invalid UTF-8.
    pub lenient: bool,
    /// A container encoding introduced in 1.20 was seen.
    pub saw_v2: bool,
    /// A counted container encoding was seen.
    pub saw_v1: bool,
    limit: u32,
}

type R<T> = Result<T, RefErr>;

impl<'a> Dec<'a> {
    pub fn new(buf: &'a [u8], lenient: bool) -> Self {
        Self {
            buf,
            pos: 0,
            lenient,
            saw_v2: false,
            saw_v1: false,
            limit: MAX_DEPTH,
        }
    }

    fn byte(&mut self) -> R<u8> {
        let b = *self.buf.get(self.pos).ok_or(RefErr::Malformed)?;
        self.pos += 1;
        Ok(b)
    }

    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.buf.len() - self.pos < n {
            return Err(RefErr::Malformed);
        }
        let s = &self.buf[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }

    fn arr<const N: usize>(&mut self) -> R<[u8; N]> {
        Ok(self.take(N)?.try_into().unwrap())
    }

    fn varint(&mut self, n: u8) -> R<u64> {
        let b = self.byte()?;
        if b <= 255 - n {
            return Ok(u64::from(b));
        }
        let k = (b - (255 - n)) as usize;
        let mut a = [0u8; 8];
        a[..k].copy_from_slice(self.take(k)?);
        Ok(u64::from_le_bytes(a))
    }

    fn string(&mut self) -> R<String> {
        let n = self.varint(4)? as usize;
        let b = self.take(n)?;
        if self.lenient {
            Ok(String::from_utf8_lossy(b).into_owned())
        } else {
            String::from_utf8(b.to_vec()).map_err(|_| RefErr::Malformed)
        }
    }

    fn key(&mut self, kk: KK) -> R<Key> {
        Ok(match kk {
            KK::U8 => Key::U(u64::from(self.byte()?)),
            KK::I8 => Key::I(i64::from(self.byte()? as i8)),
            KK::U16 => Key::U(self.varint(2)?),
            KK::U32 => Key::U(self.varint(4)?),
            KK::U64 => Key::U(self.varint(8)?),
            KK::I16 => Key::I(unzz(self.varint(2)?)),
            KK::I32 => Key::I(unzz(self.varint(4)?)),
            KK::I64 => Key::I(unzz(self.varint(8)?)),
            KK::Str => Key::Str(self.string()?),
            KK::Uuid => Key::Uuid(self.arr()?),
        })
    }

    /// Another element of a terminated container?
    fn more(&mut self) -> R<bool> {
        match self.byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(RefErr::Malformed),
        }
    }

    /// For a struct at the start of the input: the number of encoded fields and of distinct ids.
    pub fn value_fields(&mut self) -> Option<(usize, usize)> {
        let mut n = 0;
        let mut ids = BTreeSet::new();
        match self.byte().ok()? {
            39 => {
                for _ in 0..self.varint(4).ok()? {
                    ids.insert(self.varint(4).ok()?);
                    self.value(2).ok()?;
                    n += 1;
                }
            }
            65 => {
                while self.more().ok()? {
                    ids.insert(self.varint(4).ok()?);
                    self.value(2).ok()?;
                    n += 1;
                }
            }
            _ => return None,
        }
        Some((n, ids.len()))
    }

    pub fn value_unlimited(&mut self) -> R<RV> {
        self.limit = u32::MAX;
        self.value(1)
    }

    pub fn value(&mut self, level: u32) -> R<RV> {
        if level > self.limit {
            return Err(RefErr::TooDeep);
        }
        let kind = self.byte()?;
        match kind {
            17..=39 => self.saw_v1 = true,
            43..=65 => self.saw_v2 = true,
            _ => {}
        }
        Ok(match kind {
            0 => RV::None,
            1 => RV::some(self.value(level + 1)?),
            2 => RV::Bool(self.byte()? != 0),
            3 => RV::U8(self.byte()?),
            4 => RV::I8(self.byte()? as i8),
            5 => RV::U16(self.varint(2)? as u16),
            6 => RV::I16(unzz(self.varint(2)?) as i16),
            7 => RV::U32(self.varint(4)? as u32),
            8 => RV::I32(unzz(self.varint(4)?) as i32),
            9 => RV::U64(self.varint(8)?),
            10 => RV::I64(unzz(self.varint(8)?)),
            11 => RV::F32(u32::from_le_bytes(self.arr()?)),
            12 => RV::F64(u64::from_le_bytes(self.arr()?)),
            13 => RV::Str(self.string()?),
            14 => RV::Uuid(self.arr()?),
            15 => RV::ObjectId(self.arr()?),
            16 => RV::ServiceId(self.arr()?),
            17 => {
                let n = self.varint(4)?;
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(self.value(level + 1)?);
                }
                RV::Vec(v)
            }
            18 => {
                let n = self.varint(4)? as usize;
                RV::Bytes(self.take(n)?.to_vec())
            }
            19..=28 => {
                let kk = KKS[usize::from(kind - 19)];
                let n = self.varint(4)?;
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    let k = self.key(kk)?;
                    let v = self.value(level + 1)?;
                    m.insert(k, v);
                }
                RV::Map(kk, m)
            }
            29..=38 => {
                let kk = KKS[usize::from(kind - 29)];
                let n = self.varint(4)?;
                let mut m = BTreeSet::new();
                for _ in 0..n {
                    m.insert(self.key(kk)?);
                }
                RV::Set(kk, m)
            }
            39 => {
                let n = self.varint(4)?;
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    let k = self.varint(4)? as u32;
                    let v = self.value(level + 1)?;
                    m.insert(k, v);
                }
                RV::Struct(m)
            }
            40 => {
                let id = self.varint(4)? as u32;
                RV::en(id, self.value(level + 1)?)
            }
            41 => RV::Sender(self.arr()?),
            42 => RV::Receiver(self.arr()?),
            43 => {
                let mut v = Vec::new();
                while self.more()? {
                    v.push(self.value(level + 1)?);
                }
                RV::Vec(v)
            }
            44 => {
                let mut b = Vec::new();
                loop {
                    let n = self.varint(4)? as usize;
                    if n == 0 {
                        break RV::Bytes(b);
                    }
                    b.extend_from_slice(self.take(n)?);
                }
            }
            45..=54 => {
                let kk = KKS[usize::from(kind - 45)];
                let mut m = BTreeMap::new();
                while self.more()? {
                    let k = self.key(kk)?;
                    let v = self.value(level + 1)?;
                    m.insert(k, v);
                }
                RV::Map(kk, m)
            }
            55..=64 => {
                let kk = KKS[usize::from(kind - 55)];
                let mut m = BTreeSet::new();
                while self.more()? {
                    m.insert(self.key(kk)?);
                }
                RV::Set(kk, m)
            }
            65 => {
                let mut m = BTreeMap::new();
                while self.more()? {
                    let k = self.varint(4)? as u32;
                    let v = self.value(level + 1)?;
                    m.insert(k, v);
                }
                RV::Struct(m)
            }
            _ => return Err(RefErr::Malformed),
        })
    }
}

/// Decodes a prefix of `buf`; returns the value and the number of bytes consumed.
pub fn decode(buf: &[u8], lenient: bool) -> Result<(RV, usize), RefErr> {
    let mut d = Dec::new(buf, lenient);
    let v = d.value(1)?;
    Ok((v, d.pos))
}

fn uid(b: &[u8]) -> Uuid {
    Uuid::from_slice(b).unwrap()
}

pub fn object_id(b: &[u8; 32]) -> ObjectId {
    ObjectId::new(ObjectUuid(uid(&b[..16])), ObjectCookie(uid(&b[16..])))
}

pub fn service_id(b: &[u8; 64]) -> ServiceId {
    ServiceId::new(
        ObjectId::new(ObjectUuid(uid(&b[..16])), ObjectCookie(uid(&b[16..32]))),
        ServiceUuid(uid(&b[32..48])),
        ServiceCookie(uid(&b[48..])),
    )
}

macro_rules! to_map {
    ($m:expr, $p:ident, $t:ty) => {
        $m.iter()
            .map(|(k, v)| match k {
                Key::$p(k) => (*k as $t, to_value(v)),
                _ => panic!("harness: key kind"),
            })
            .collect()
    };
}
macro_rules! to_set {
    ($m:expr, $p:ident, $t:ty) => {
        $m.iter()
            .map(|k| match k {
                Key::$p(k) => *k as $t,
                _ => panic!("harness: key kind"),
            })
            .collect()
    };
}

pub fn to_value(v: &RV) -> Value {
    match v {
        RV::None => Value::None,
        RV::Some(v) => Value::Some(Box::new(to_value(v))),
        RV::Bool(v) => Value::Bool(*v),
        RV::U8(v) => Value::U8(*v),
        RV::I8(v) => Value::I8(*v),
        RV::U16(v) => Value::U16(*v),
        RV::I16(v) => Value::I16(*v),
        RV::U32(v) => Value::U32(*v),
        RV::I32(v) => Value::I32(*v),
        RV::U64(v) => Value::U64(*v),
        RV::I64(v) => Value::I64(*v),
        RV::F32(v) => Value::F32(f32::from_bits(*v)),
        RV::F64(v) => Value::F64(f64::from_bits(*v)),
        RV::Str(v) => Value::String(v.clone()),
        RV::Uuid(v) => Value::Uuid(uid(v)),
        RV::ObjectId(v) => Value::ObjectId(object_id(v)),
        RV::ServiceId(v) => Value::ServiceId(service_id(v)),
        RV::Vec(v) => Value::Vec(v.iter().map(to_value).collect()),
        RV::Bytes(v) => Value::Bytes(Bytes(v.clone())),
        RV::Map(kk, m) => match kk {
            KK::U8 => Value::U8Map(to_map!(m, U, u8)),
            KK::I8 => Value::I8Map(to_map!(m, I, i8)),
            KK::U16 => Value::U16Map(to_map!(m, U, u16)),
            KK::I16 => Value::I16Map(to_map!(m, I, i16)),
            KK::U32 => Value::U32Map(to_map!(m, U, u32)),
            KK::I32 => Value::I32Map(to_map!(m, I, i32)),
            KK::U64 => Value::U64Map(to_map!(m, U, u64)),
            KK::I64 => Value::I64Map(to_map!(m, I, i64)),
            KK::Str => Value::StringMap(
                m.iter()
                    .map(|(k, v)| match k {
                        Key::Str(k) => (k.clone(), to_value(v)),
                        _ => panic!("harness: key kind"),
                    })
                    .collect(),
            ),
            KK::Uuid => Value::UuidMap(
                m.iter()
                    .map(|(k, v)| match k {
                        Key::Uuid(k) => (uid(k), to_value(v)),
                        _ => panic!("harness: key kind"),
                    })
                    .collect(),
            ),
        },
        RV::Set(kk, m) => match kk {
            KK::U8 => Value::U8Set(to_set!(m, U, u8)),
            KK::I8 => Value::I8Set(to_set!(m, I, i8)),
            KK::U16 => Value::U16Set(to_set!(m, U, u16)),
            KK::I16 => Value::I16Set(to_set!(m, I, i16)),
            KK::U32 => Value::U32Set(to_set!(m, U, u32)),
            KK::I32 => Value::I32Set(to_set!(m, I, i32)),
            KK::U64 => Value::U64Set(to_set!(m, U, u64)),
            KK::I64 => Value::I64Set(to_set!(m, I, i64)),
            KK::Str => Value::StringSet(
                m.iter()
                    .map(|k| match k {
                        Key::Str(k) => k.clone(),
                        _ => panic!("harness: key kind"),
                    })
                    .collect(),
            ),
            KK::Uuid => Value::UuidSet(
                m.iter()
                    .map(|k| match k {
                        Key::Uuid(k) => uid(k),
                        _ => panic!("harness: key kind"),
                    })
                    .collect(),
            ),
        },
        RV::Struct(m) => Value::Struct(Struct(
            m.iter().map(|(k, v)| (*k, to_value(v))).collect(),
        )),
        RV::Enum(id, v) => Value::Enum(Box::new(Enum {
            id: *id,
            value: to_value(v),
        })),
        RV::Sender(v) => Value::Sender(ChannelCookie(uid(v))),
        RV::Receiver(v) => Value::Receiver(ChannelCookie(uid(v))),
    }
}

fn oid_bytes(id: &ObjectId) -> [u8; 32] {
    let mut b = [0; 32];
    b[..16].copy_from_slice(id.uuid.0.as_bytes());
    b[16..].copy_from_slice(id.cookie.0.as_bytes());
    b
}

fn sid_bytes(id: &ServiceId) -> [u8; 64] {
    let mut b = [0; 64];
    b[..32].copy_from_slice(&oid_bytes(&id.object_id));
    b[32..48].copy_from_slice(id.uuid.0.as_bytes());
    b[48..].copy_from_slice(id.cookie.0.as_bytes());
    b
}

macro_rules! fr_map {
    ($kk:ident, $m:expr, $p:ident, $t:ty) => {
        RV::Map(
            KK::$kk,
            $m.iter()
                .map(|(k, v)| (Key::$p(<$t>::from(*k)), from_value(v)))
                .collect(),
        )
    };
}
macro_rules! fr_set {
    ($kk:ident, $m:expr, $p:ident, $t:ty) => {
        RV::Set(
            KK::$kk,
            $m.iter().map(|k| Key::$p(<$t>::from(*k))).collect(),
        )
    };
}

pub fn from_value(v: &Value) -> RV {
    match v {
        Value::None => RV::None,
        Value::Some(v) => RV::some(from_value(v)),
        Value::Bool(v) => RV::Bool(*v),
        Value::U8(v) => RV::U8(*v),
        Value::I8(v) => RV::I8(*v),
        Value::U16(v) => RV::U16(*v),
        Value::I16(v) => RV::I16(*v),
        Value::U32(v) => RV::U32(*v),
        Value::I32(v) => RV::I32(*v),
        Value::U64(v) => RV::U64(*v),
        Value::I64(v) => RV::I64(*v),
        Value::F32(v) => RV::F32(v.to_bits()),
        Value::F64(v) => RV::F64(v.to_bits()),
        Value::String(v) => RV::Str(v.clone()),
        Value::Uuid(v) => RV::Uuid(*v.as_bytes()),
        Value::ObjectId(v) => RV::ObjectId(oid_bytes(v)),
        Value::ServiceId(v) => RV::ServiceId(sid_bytes(v)),
        Value::Vec(v) => RV::Vec(v.iter().map(from_value).collect()),
        Value::Bytes(v) => RV::Bytes(v.0.clone()),
        Value::U8Map(m) => fr_map!(U8, m, U, u64),
        Value::I8Map(m) => fr_map!(I8, m, I, i64),
        Value::U16Map(m) => fr_map!(U16, m, U, u64),
        Value::I16Map(m) => fr_map!(I16, m, I, i64),
        Value::U32Map(m) => fr_map!(U32, m, U, u64),
        Value::I32Map(m) => fr_map!(I32, m, I, i64),
        Value::U64Map(m) => fr_map!(U64, m, U, u64),
        Value::I64Map(m) => fr_map!(I64, m, I, i64),
        Value::StringMap(m) => RV::Map(
            KK::Str,
            m.iter()
                .map(|(k, v)| (Key::Str(k.clone()), from_value(v)))
                .collect(),
        ),
        Value::UuidMap(m) => RV::Map(
            KK::Uuid,
            m.iter()
                .map(|(k, v)| (Key::Uuid(*k.as_bytes()), from_value(v)))
                .collect(),
        ),
        Value::U8Set(m) => fr_set!(U8, m, U, u64),
        Value::I8Set(m) => fr_set!(I8, m, I, i64),
        Value::U16Set(m) => fr_set!(U16, m, U, u64),
        Value::I16Set(m) => fr_set!(I16, m, I, i64),
        Value::U32Set(m) => fr_set!(U32, m, U, u64),
        Value::I32Set(m) => fr_set!(I32, m, I, i64),
        Value::U64Set(m) => fr_set!(U64, m, U, u64),
        Value::I64Set(m) => fr_set!(I64, m, I, i64),
        Value::StringSet(m) => {
            RV::Set(KK::Str, m.iter().map(|k| Key::Str(k.clone())).collect())
        }
        Value::UuidSet(m) => {
            RV::Set(KK::Uuid, m.iter().map(|k| Key::Uuid(*k.as_bytes())).collect())
        }
        Value::Struct(s) => RV::Struct(s.0.iter().map(|(k, v)| (*k, from_value(v))).collect()),
        Value::Enum(e) => RV::en(e.id, from_value(&e.value)),
        Value::Sender(c) => RV::Sender(*c.0.as_bytes()),
        Value::Receiver(c) => RV::Receiver(*c.0.as_bytes()),
    }
}
