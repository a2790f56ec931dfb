//! C07: decoding untrusted bytes is total; skipping agrees with decoding.

use crate::alloc;
use crate::gen::*;
use crate::refcodec::*;
use crate::util::slice;
use aldrin_core::tags::{self, KeyTag};
use aldrin_core::{
    Bytes, Deserialize, DeserializeError, Deserializer, SerializedValue, SerializedValueSlice,
    UnknownFields, UnknownVariant, Value, ValueKind,
};
use mc_common::{catch, hex, Ctx};
use serde_json::json;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use uuid::Uuid;

thread_local! {
    static LEN: Cell<Option<Result<usize, DeserializeError>>> = const { Cell::new(None) };
    static KIND: Cell<Option<Result<ValueKind, DeserializeError>>> = const { Cell::new(None) };
}

/// Measures, peeks at and then skips a value.
struct Probe;

impl Deserialize<tags::Value> for Probe {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        KIND.set(Some(d.peek_value_kind()));
        LEN.set(Some(d.len()));
        d.skip()?;
        Ok(Self)
    }
}

/// Reads the length and kind through a chain of `Some`.
struct SomeProbe(SerializedValue);

impl Deserialize<tags::Value> for SomeProbe {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        d.deserialize_some::<tags::Value, SerializedValue>().map(Self)
    }
}

struct Fields(UnknownFields);

impl Deserialize<tags::Value> for Fields {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let mut d = d.deserialize_struct()?;
        while let Some(f) = d.deserialize()? {
            f.add_to_unknown_fields()?;
        }
        d.finish_with(|u| Ok(Self(u)))
    }
}

/// A struct reader that looks at the first field only and skips the others.
struct FirstField(Option<(u32, SerializedValue)>);

impl Deserialize<tags::Value> for FirstField {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let mut d = d.deserialize_struct()?;
        let first = match d.deserialize()? {
            Some(f) => Some((f.id(), f.deserialize::<tags::Value, _>()?)),
            None => None,
        };
        d.skip_and_finish(Self(first))
    }
}

struct Variant(UnknownVariant);

impl Deserialize<tags::Value> for Variant {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        d.deserialize_enum()?.into_unknown_variant().map(Self)
    }
}

struct Elems(Vec<SerializedValue>);

impl Deserialize<tags::Value> for Elems {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        d.deserialize_vec_extend_new::<tags::Value, SerializedValue, Vec<_>>()
            .map(Self)
    }
}

/// Byte strings piece by piece.
struct Pieces(Vec<u8>);

impl Deserialize<tags::Value> for Pieces {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let mut d = d.deserialize_bytes()?;
        let mut out = Vec::new();
        loop {
            let s = d.as_slice()?;
            if s.is_empty() {
                break;
            }
            // Take it in two uneven steps.
            let n = s.len().div_ceil(3);
            out.extend_from_slice(&s[..n]);
            d.advance(n)?;
        }
        d.finish(Self(out))
    }
}

macro_rules! key_probe {
    ($kind:expr, $s:expr, $f:ident) => {
        match $kind {
            KK::U8 => $f::<tags::U8, u8>($s).map(|m| m.into_iter().map(|(k, v)| (Key::U(k.into()), v)).collect()),
            KK::I8 => $f::<tags::I8, i8>($s).map(|m| m.into_iter().map(|(k, v)| (Key::I(k.into()), v)).collect()),
            KK::U16 => $f::<tags::U16, u16>($s).map(|m| m.into_iter().map(|(k, v)| (Key::U(k.into()), v)).collect()),
            KK::I16 => $f::<tags::I16, i16>($s).map(|m| m.into_iter().map(|(k, v)| (Key::I(k.into()), v)).collect()),
            KK::U32 => $f::<tags::U32, u32>($s).map(|m| m.into_iter().map(|(k, v)| (Key::U(k.into()), v)).collect()),
            KK::I32 => $f::<tags::I32, i32>($s).map(|m| m.into_iter().map(|(k, v)| (Key::I(k.into()), v)).collect()),
            KK::U64 => $f::<tags::U64, u64>($s).map(|m| m.into_iter().map(|(k, v)| (Key::U(k), v)).collect()),
            KK::I64 => $f::<tags::I64, i64>($s).map(|m| m.into_iter().map(|(k, v)| (Key::I(k), v)).collect()),
            KK::Str => $f::<tags::String, String>($s).map(|m| m.into_iter().map(|(k, v)| (Key::Str(k), v)).collect()),
            KK::Uuid => $f::<tags::Uuid, Uuid>($s).map(|m| m.into_iter().map(|(k, v)| (Key::Uuid(*k.as_bytes()), v)).collect()),
        }
    };
}

fn map_of<K, L>(s: &SerializedValueSlice) -> Result<HashMap<L, SerializedValue>, DeserializeError>
where
    K: KeyTag,
    L: aldrin_core::DeserializeKey<K> + std::hash::Hash + Eq,
{
    s.deserialize_as::<tags::Map<K, tags::Value>, _>()
}

fn map_pieces(
    kk: KK,
    s: &SerializedValueSlice,
) -> Result<BTreeMap<Key, SerializedValue>, DeserializeError> {
    key_probe!(kk, s, map_of)
}

fn set_of<K, L>(s: &SerializedValueSlice) -> Result<BTreeMap<L, ()>, DeserializeError>
where
    K: KeyTag,
    L: aldrin_core::DeserializeKey<K> + std::hash::Hash + Eq + Ord,
{
    s.deserialize_as::<tags::Set<K>, HashSet<L>>()
        .map(|s| s.into_iter().map(|k| (k, ())).collect())
}

fn set_pieces(kk: KK, s: &SerializedValueSlice) -> Result<BTreeMap<Key, ()>, DeserializeError> {
    key_probe!(kk, s, set_of)
}

pub fn short(b: &[u8]) -> String {
    if b.len() > 200 {
        format!("{}...({} bytes)", hex(&b[..200]), b.len())
    } else {
        hex(b)
    }
}

pub struct Checker<'a> {
    pub ctx: &'a Ctx,
    pub typed: bool,
}

impl Checker<'_> {
    fn fail(&self, class: &str, b: &[u8], what: String) {
        self.ctx.violation(
            &format!("{class}:{}", short(b)),
            &format!("{what}\ninput: {}", short(b)),
            json!({"hex": hex(b)}),
        );
    }

    fn go<T>(&self, class: &str, b: &[u8], f: impl FnOnce() -> T) -> Option<T> {
        self.ctx.add_transitions(1);
        let limit = 1024 * b.len() + 16 * 1024;
        let (r, peak) = alloc::peak(|| catch(f));
        if peak > limit {
            self.fail(
                &format!("alloc-{class}"),
                b,
                format!("{class} of {} bytes allocated {peak} bytes", b.len()),
            );
        }
        match r {
            Ok(v) => Some(v),
            Err(p) => {
                self.fail(&format!("panic-{class}"), b, format!("{class} panicked: {p}"));
                None
            }
        }
    }

    fn child_eq(&self, what: &str, b: &[u8], got: &SerializedValueSlice, want: &RV) {
        let ok = catch(|| got.deserialize_as_value().map(|v| from_value(&v)));
        if !matches!(&ok, Ok(Ok(v)) if v == want) {
            self.fail(
                &format!("carry-{what}"),
                b,
                format!("{what}: the carried value {} re-decodes to {ok:?}, expected {want:?}", short(got)),
            );
        }
    }

    pub fn check(&self, b: &[u8]) {
        self.ctx.add_states(1);
        let s = slice(b);
        let n = b.len();
        let strict = decode(b, false);
        let lenient = match &strict {
            Ok((_, c)) => Ok(*c),
            Err(_) => decode(b, true).map(|(_, c)| c),
        };
        let full = strict.as_ref().is_ok_and(|(_, c)| *c == n);
        let lfull = lenient == Ok(n);

        // Full decoding.
        let Some(v) = self.go("decode", b, || s.deserialize_as_value()) else { return };
        match (&v, &strict) {
            (Ok(v), Ok((want, c))) if *c == n => {
                let got = from_value(v);
                if got != *want {
                    self.fail("value", b, format!("decoded {got:?}, expected {want:?}"));
                }
            }
            (Ok(v), _) => self.fail("accepts", b, format!("decoding accepts ill-formed input as {v:?}")),
            (Err(e), _) if full => self.fail("rejects", b, format!("decoding rejects well-formed input: {e:?}")),
            _ => {}
        }

        // Kind.
        let Some(k) = self.go("kind", b, || s.kind()) else { return };
        let want_kind = n >= 1 && b[0] <= 65;
        if k.is_ok() != want_kind || k.is_ok_and(|k| u8::from(k) != b[0]) {
            self.fail("kind", b, format!("kind() gives {k:?}"));
        }

        // Measuring and skipping.
        LEN.set(None);
        KIND.set(None);
        let Some(p) = self.go("skip", b, || s.deserialize_as::<tags::Value, Probe>().map(|_| ())) else { return };
        if KIND.get() != Some(k) {
            self.fail("peek", b, format!("peek_value_kind() gives {:?}, kind() {k:?}", KIND.get()));
        }
        match (LEN.get(), &lenient) {
            (Some(Ok(l)), Ok(c)) if l == *c => {}
            (Some(Err(_)), Err(_)) => {}
            (l, r) => self.fail("len", b, format!("len() gives {l:?}, the reference {r:?}")),
        }
        let want = match &lenient {
            Ok(c) if *c == n => "Ok",
            Ok(_) => "Trailing",
            Err(_) => "Err",
        };
        let got = match &p {
            Ok(()) => "Ok",
            Err(DeserializeError::TrailingData) => "Trailing",
            Err(_) => "Err",
        };
        if want != got {
            self.fail("skip", b, format!("skip() gives {p:?}, the reference {lenient:?} of {n} bytes"));
        }

        // Splitting off.
        let Some(sv) = self.go("split", b, || s.deserialize_as::<tags::Value, SerializedValue>()) else { return };
        match &sv {
            Ok(v) if lfull && ***v == *b => {}
            Err(_) if !lfull => {}
            r => self.fail("split", b, format!("splitting off gives {r:?}, the reference {lenient:?} of {n} bytes")),
        }

        // Carrying sub-values.
        match (b.first(), &strict) {
            (Some(1), r) => {
                if let Some(x) = self.go("some", b, || s.deserialize_as::<tags::Value, SomeProbe>()) {
                    if x.is_ok() != lfull {
                        self.fail("some", b, format!("reading Some as an opaque value: ok={}, expected {lfull}", x.is_ok()));
                    }
                    if let (Ok(x), Ok((RV::Some(w), _))) = (x, r) {
                        self.child_eq("some", b, &x.0, w);
                    }
                }
            }
            (Some(39 | 65), r) => {
                if let Some(x) = self.go("fields", b, || s.deserialize_as::<tags::Value, Fields>()) {
                    if x.is_ok() != lfull {
                        self.fail("fields", b, format!("capturing unknown fields: {:?}, expected ok={lfull}", x.as_ref().map(|_| ()).err()));
                    }
                    if let (Ok(x), Ok((RV::Struct(w), c))) = (&x, r) {
                        if *c == n {
                            let got: BTreeSet<u32> = x.0.keys().copied().collect();
                            let want: BTreeSet<u32> = w.keys().copied().collect();
                            if got != want {
                                self.fail("fields", b, format!("captured fields {got:?}, expected {want:?}"));
                            }
                            for (id, v) in &x.0 {
                                if let Some(w) = w.get(&id) {
                                    self.child_eq("field", b, v, w);
                                }
                            }
                            // Re-encoding the captured fields.
                            for round in 0..2 {
                                let again = catch(|| {
                                    if round == 0 {
                                        SerializedValue::serialize_as::<tags::Value>(Refields(&x.0, true))
                                    } else {
                                        SerializedValue::serialize_as::<tags::Value>(Refields(&x.0, false))
                                    }
                                });
                                let ok = matches!(&again, Ok(Ok(a)) if matches!(decode(a, false), Ok((RV::Struct(r), c)) if r == *w && c == a.len()));
                                if !ok {
                                    self.fail("fields-again", b, format!("re-encoding the captured fields gives {again:?}"));
                                }
                            }
                        }
                    }
                }
                if let Some(x) = self.go("first-field", b, || s.deserialize_as::<tags::Value, FirstField>()) {
                    if x.is_ok() != lfull {
                        self.fail("first-field", b, format!("skipping the other fields: ok={}, expected {lfull}", x.is_ok()));
                    }
                    if let (Ok(FirstField(None)), Ok((RV::Struct(w), _))) = (&x, r) {
                        if !w.is_empty() {
                            self.fail("first-field", b, "no field seen".into());
                        }
                    }
                    if let (Ok(FirstField(Some((id, v)))), Ok((RV::Struct(w), _))) = (&x, r) {
                        match w.get(id) {
                            Some(w1) if w.len() == 1 || n < 64 => {
                                // A later duplicate of the field id replaces the first one.
                                let dup = catch(|| v.deserialize_as_value().map(|v| from_value(&v)));
                                if !matches!(&dup, Ok(Ok(g)) if g == w1) && !has_dup_fields(b) {
                                    self.fail("first-field", b, format!("first field reads as {dup:?}"));
                                }
                            }
                            Some(_) => {}
                            None => self.fail("first-field", b, format!("unexpected field {id}")),
                        }
                    }
                }
            }
            (Some(40), r) => {
                if let Some(x) = self.go("variant", b, || s.deserialize_as::<tags::Value, Variant>()) {
                    if x.is_ok() != lfull {
                        self.fail("variant", b, format!("capturing an unknown variant: ok={}, expected {lfull}", x.is_ok()));
                    }
                    if let (Ok(x), Ok((RV::Enum(id, w), c))) = (&x, r) {
                        if *c == n {
                            if x.0.id() != *id {
                                self.fail("variant", b, format!("variant id {}, expected {id}", x.0.id()));
                            }
                            self.child_eq("variant", b, x.0.value(), w);
                            let again = catch(|| SerializedValue::serialize_as::<tags::Value>(Revariant(&x.0)));
                            let ok = matches!(&again, Ok(Ok(a)) if matches!(decode(a, false), Ok((RV::Enum(i, r), c)) if r == *w && i == *id && c == a.len()));
                            if !ok {
                                self.fail("variant-again", b, format!("re-encoding the captured variant gives {again:?}"));
                            }
                        }
                    }
                }
            }
            (Some(17 | 43), r) => {
                if let Some(x) = self.go("elems", b, || s.deserialize_as::<tags::Value, Elems>()) {
                    if x.is_ok() != lfull {
                        self.fail("elems", b, format!("reading elements as opaque values: ok={}, expected {lfull}", x.is_ok()));
                    }
                    if let (Ok(x), Ok((RV::Vec(w), c))) = (&x, r) {
                        if *c == n {
                            if x.0.len() != w.len() {
                                self.fail("elems", b, format!("{} elements, expected {}", x.0.len(), w.len()));
                            }
                            for (v, w) in x.0.iter().zip(w) {
                                self.child_eq("elem", b, v, w);
                            }
                        }
                    }
                }
            }
            (Some(18 | 44), r) => {
                if let Some(x) = self.go("bytes", b, || s.deserialize_as::<tags::Value, Pieces>()) {
                    match (&x, r) {
                        (Ok(x), Ok((RV::Bytes(w), c))) if *c == n && x.0 == *w => {}
                        (Err(_), _) if !full => {}
                        (x, _) => self.fail("bytes", b, format!("reading bytes piecewise gives {:?}, the reference {r:?}", x.as_ref().map(|x| hex(&x.0)))),
                    }
                }
            }
            (Some(k @ (19..=28 | 45..=54)), r) => {
                let kk = KKS[usize::from(if *k < 45 { *k - 19 } else { *k - 45 })];
                if let Some(x) = self.go("map", b, || map_pieces(kk, s)) {
                    let tolerant = lfull && !full; // invalid UTF-8 somewhere: keys are validated
                    if x.is_ok() != lfull && !tolerant {
                        self.fail("map", b, format!("reading map values as opaque values: ok={}, expected {lfull}", x.is_ok()));
                    }
                    if let (Ok(x), Ok((RV::Map(_, w), c))) = (&x, r) {
                        if *c == n {
                            if x.keys().ne(w.keys()) {
                                self.fail("map", b, format!("keys {:?}, expected {:?}", x.keys(), w.keys()));
                            }
                            for (v, w) in x.values().zip(w.values()) {
                                self.child_eq("map-value", b, v, w);
                            }
                        }
                    }
                }
            }
            (Some(k @ (29..=38 | 55..=64)), r) => {
                let kk = KKS[usize::from(if *k < 55 { *k - 29 } else { *k - 55 })];
                if let Some(x) = self.go("set", b, || set_pieces(kk, s)) {
                    if x.is_ok() != full {
                        self.fail("set", b, format!("reading a set: ok={}, expected {full}", x.is_ok()));
                    }
                    if let (Ok(x), Ok((RV::Set(_, w), c))) = (&x, r) {
                        if *c == n && x.keys().ne(w.iter()) {
                            self.fail("set", b, format!("keys {:?}, expected {w:?}", x.keys()));
                        }
                    }
                }
            }
            _ => {}
        }

        if self.typed {
            self.typed(b);
        }
    }

    /// Decoding as other Rust types must be total and must not accept ill-formed input.
    fn typed(&self, b: &[u8]) {
        let s = slice(b);
        let full = decode(b, true).is_ok_and(|(_, c)| c == b.len());
        macro_rules! t {
            ($($t:ty),* $(,)?) => { $(
                if let Some(Ok(_)) = self.go(stringify!($t), b, || s.deserialize::<$t>().map(|_| ())) {
                    if !full {
                        self.fail(concat!("typed-", stringify!($t)), b,
                            concat!("decoding as ", stringify!($t), " accepts ill-formed input").into());
                    }
                }
            )* };
        }
        t!(
            Option<SerializedValue>,
            Option<Option<String>>,
            Vec<String>,
            VecDeque<u32>,
            LinkedList<Option<u8>>,
            [SerializedValue; 2],
            [String; 3],
            [u16; 0],
            Bytes,
            String,
            HashMap<u16, Vec<u8>>,
            BTreeMap<String, SerializedValue>,
            BTreeMap<i64, Bytes>,
            HashSet<i32>,
            BTreeSet<Uuid>,
            (u8, String),
            (SerializedValue, SerializedValue, SerializedValue),
            Result<SerializedValue, String>,
            Result<(), u8>,
            (),
            bool,
            f64,
            Uuid,
            Box<Value>,
        );
        if let Some(Ok(_)) = self.go("[u8;3]", b, || s.deserialize_as::<tags::Bytes, [u8; 3]>().map(|_| ())) {
            if !full {
                self.fail("typed-[u8;3]", b, "decoding as [u8; 3] accepts ill-formed input".into());
            }
        }
    }
}

fn has_dup_fields(b: &[u8]) -> bool {
    // Counted or terminated struct: number of encoded fields vs distinct ids.
    let mut d = Dec::new(b, true);
    matches!(d.value_fields(), Some((n, m)) if n != m)
}

struct Refields<'a>(&'a UnknownFields, bool);

impl aldrin_core::Serialize<tags::Value> for Refields<'_> {
    fn serialize(self, s: aldrin_core::Serializer) -> Result<(), aldrin_core::SerializeError> {
        if self.1 {
            s.serialize_struct2_with_unknown_fields(self.0)?.finish()
        } else {
            s.serialize_struct1_with_unknown_fields(0, self.0)?.finish()
        }
    }
}

struct Revariant<'a>(&'a UnknownVariant);

impl aldrin_core::Serialize<tags::Value> for Revariant<'_> {
    fn serialize(self, s: aldrin_core::Serializer) -> Result<(), aldrin_core::SerializeError> {
        s.serialize_unknown_variant(self.0)
    }
}

/// All inputs derived from `e` by one mutation.
pub fn mutations(e: &[u8], mut f: impl FnMut(&[u8])) {
    f(e);
    for n in 0..e.len() {
        f(&e[..n]);
    }
    let mut m = e.to_vec();
    for i in 0..e.len() {
        for x in 0..=255u8 {
            if x != e[i] {
                m[i] = x;
                f(&m);
            }
        }
        m[i] = e[i];
    }
    for i in 0..e.len() {
        let mut m = e.to_vec();
        m.remove(i);
        f(&m);
    }
    for i in 0..=e.len() {
        for x in [0u8, 1, 2, 0x7f, 0x80, 250, 251, 252, 253, 254, 255] {
            let mut m = e.to_vec();
            m.insert(i, x);
            f(&m);
        }
    }
}

pub fn small_corpus(thorough: bool) -> Vec<Vec<u8>> {
    let mut out = BTreeSet::new();
    for v in corpus(if thorough { 2 } else { 1 }) {
        for st in STYLES {
            let e = encode(&v, st);
            if e.len() <= 100 {
                out.insert(e);
            }
        }
    }
    let mut out: Vec<_> = out.into_iter().collect();
    out.sort_by_key(|e| e.len());
    out
}

pub fn run(ctx: &Ctx) {
    let c = Checker { ctx, typed: true };
    if let Some(r) = &ctx.replay {
        c.check(&mc_common::unhex(r["hex"].as_str().unwrap()));
        return;
    }

    // All byte strings up to 3 bytes.
    for b in [vec![]] {
        ctx.mark(&b);
        c.check(&b);
    }
    ctx.par(256, |a| {
        let a = a as u8;
        let c = Checker { ctx, typed: true };
        let c3 = Checker { ctx, typed: ctx.thorough };
        c.check(&[a]);
        for x in 0..=255u8 {
            ctx.mark(&[a, x]);
            c.check(&[a, x]);
            // Kinds above 65 are refused at the first byte.
            if a <= 66 || a == 255 {
                for y in 0..=255u8 {
                    c3.check(&[a, x, y]);
                }
            }
            if ctx.stopped() {
                break;
            }
        }
    });
    ctx.extra("all_strings_up_to", 3);

    // Longer strings over reduced alphabets, for every leading kind.
    let alpha: &[u8] = &[0, 1, 2, 3, 5, 13, 17, 43, 44, 65, 251, 252, 253, 255];
    let len = if ctx.thorough { 5 } else { 4 };
    let total = alpha.len().pow(len as u32);
    ctx.par(66 * alpha.len(), |i| {
        let c = Checker { ctx, typed: false };
        let kind = (i / alpha.len()) as u8;
        let first = i % alpha.len();
        let mut b = vec![kind; len + 1];
        for j in 0..total / alpha.len() {
            let mut x = j;
            b[1] = alpha[first];
            for p in b.iter_mut().skip(2) {
                *p = alpha[x % alpha.len()];
                x /= alpha.len();
            }
            if j % 256 == 0 {
                ctx.mark(&b);
                if ctx.stopped() {
                    return;
                }
            }
            c.check(&b);
        }
    });
    ctx.extra("alphabet_strings", json!({"length": len + 1, "alphabet": alpha.len(), "first_byte": "every kind"}));

    // Mutation closure of encodings.
    let corpus = small_corpus(ctx.thorough);
    ctx.extra("mutated_encodings", corpus.len());
    ctx.sample(json!(corpus.iter().step_by(corpus.len() / 5).map(|e| hex(e)).collect::<Vec<_>>()));
    ctx.par(corpus.len(), |i| {
        let e = &corpus[corpus.len() - 1 - i];
        let c = Checker { ctx, typed: e.len() <= 12 };
        let mut k = 0u32;
        mutations(e, |m| {
            if k % 64 == 0 {
                ctx.mark(m);
            }
            k += 1;
            if !ctx.stopped() {
                c.check(m);
            }
        });
    });

    // Two simultaneous byte changes in short encodings.
    let two: Vec<_> = corpus.iter().filter(|e| e.len() <= if ctx.thorough { 20 } else { 9 }).collect();
    let vals: &[u8] = if ctx.thorough {
        &[0, 1, 2, 3, 4, 13, 17, 18, 27, 40, 43, 44, 53, 65, 66, 127, 128, 250, 251, 252, 253, 254, 255]
    } else {
        &[0, 1, 2, 13, 17, 40, 44, 65, 128, 251, 252, 253, 255]
    };
    ctx.extra("doubly_mutated_encodings", two.len());
    ctx.par(two.len(), |i| {
        let e = two[i];
        let c = Checker { ctx, typed: false };
        let mut m = e.clone();
        for p in 0..e.len() {
            for q in p + 1..e.len() {
                for &x in vals {
                    for &y in vals {
                        m[p] = x;
                        m[q] = y;
                        c.check(&m);
                    }
                }
                m[q] = e[q];
                ctx.mark(&m);
                if ctx.stopped() {
                    return;
                }
            }
            m[p] = e[p];
        }
    });

    // Length bombs: huge announced lengths with little behind them.
    let mut bombs = vec![];
    for kind in [13u8, 17, 18, 39].into_iter().chain(19..=38).chain([44]) {
        for len in [
            vec![251], vec![252, 252], vec![252, 255], vec![253, 255, 255], vec![254, 255, 255, 255],
            vec![255, 255, 255, 255, 255], vec![255, 0, 0, 0, 128], vec![255, 255, 255, 255, 127],
            vec![254, 0, 0, 1], vec![253, 0, 16],
        ] {
            for tail in [vec![], vec![0], vec![0; 8], vec![1; 40], vec![0; 300], vec![13; 20]] {
                for pre in [vec![], vec![1], vec![17, 2], vec![43, 1], vec![65, 1, 3], vec![40, 5], vec![45, 1, 9]] {
                    let mut b: Vec<u8> = pre;
                    b.push(kind);
                    b.extend(&len);
                    b.extend(&tail);
                    bombs.push(b);
                }
            }
        }
    }
    ctx.extra("length_bombs", bombs.len());
    ctx.par(bombs.len(), |i| {
        let c = Checker { ctx, typed: true };
        ctx.mark(&bombs[i]);
        c.check(&bombs[i]);
    });

    // Nesting around the limit (also truncated) and far beyond it, on a small stack.
    let mut deep: Vec<Vec<u8>> = vec![];
    for s in 0..NUM_STEPS {
        for d in (28..=36).chain([64]) {
            for st in [Style::V1, Style::V2, Style::AltEven] {
                for leaf in [RV::None, RV::Vec(vec![]), RV::Set(KK::U16, few_keys(KK::U16).into_iter().collect())] {
                    let e = encode(&chain(&vec![s; d], leaf), st);
                    for cut in 0..4.min(e.len()) {
                        deep.push(e[..e.len() - cut].to_vec());
                    }
                    let mut t = e.clone();
                    t.push(0);
                    deep.push(t);
                }
            }
        }
        for st in [Style::V1, Style::V2] {
            let unit = encode(&wrap(s, RV::None), st);
            let pre = match (s, st) {
                (0 | 3, _) | (_, Style::V1) => &unit[..unit.len() - 1],
                _ => &unit[..unit.len() - 2],
            };
            deep.push(pre.repeat(100_000));
        }
    }
    for s in 0..NUM_STEPS {
        for t in 0..NUM_STEPS {
            for d in 29..=34 {
                let st: Vec<usize> = (0..d).map(|i| if i % 2 == 0 { s } else { t }).collect();
                deep.push(encode(&chain(&st, RV::U16(300)), Style::V2));
                deep.push(encode(&chain(&st, RV::U16(300)), Style::V1));
            }
        }
    }
    ctx.extra("deep_inputs", deep.len());
    ctx.par_stack(deep.len(), 512 << 10, |i| {
        let c = Checker { ctx, typed: true };
        ctx.mark(&deep[i][..deep[i].len().min(4000)]);
        c.check(&deep[i]);
    });

    ctx.add_traces(ctx.states.load(std::sync::atomic::Ordering::Relaxed));
    ctx.extra("exhaustive", true);
    ctx.extra("bounds", "every byte string of length <= 3 (for length 3: first byte any kind, 66 or 255), every string of the stated length over the stated alphabet behind every kind byte, every single mutation (truncate, replace by any byte, delete, insert) of every corpus encoding in 5 encoding styles, all double byte replacements in short ones, length bombs, nesting 28..36/64/100000; allocation bound 1024 x input + 16 KiB");
    ctx.assume("the reference decoder in mc/codec/src/refcodec.rs states the wire format");
}
