//! C01 for values of other Rust types than the dynamic one: typed containers in each other.

use crate::refcodec::*;
use crate::util::slice;
use aldrin_core::tags::{self, Map};
use aldrin_core::{Deserialize, DeserializeError, Deserializer, Serialize, SerializeError, SerializedValue, Serializer};
use mc_common::{catch, hex, Ctx};
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, LinkedList, VecDeque};

pub const KINDS: u8 = 12;
const LEAF: u8 = 77;

thread_local! {
    /// The containers from the outermost to the innermost one.
    static SHAPE: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static POS: Cell<usize> = const { Cell::new(0) };
}

fn next() -> Option<u8> {
    let i = POS.get();
    POS.set(i + 1);
    SHAPE.with(|s| s.borrow().get(i).copied())
}

#[derive(PartialEq, Eq, Hash, PartialOrd, Ord)]
struct T;

type V = tags::Value;

impl Serialize<V> for T {
    fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
        match next() {
            None => s.serialize_u8(LEAF),
            Some(0) => Serialize::<tags::Option<V>>::serialize(Some(T), s),
            Some(1) => Serialize::<tags::Vec<V>>::serialize(vec![T], s),
            Some(2) => Serialize::<tags::Vec<V>>::serialize(VecDeque::from([T]), s),
            Some(3) => Serialize::<tags::Vec<V>>::serialize(LinkedList::from([T]), s),
            Some(4) => Serialize::<tags::Vec<V>>::serialize([T], s),
            Some(5) => Serialize::<Map<tags::U16, V>>::serialize(HashMap::from([(300u16, T)]), s),
            Some(6) => Serialize::<Map<tags::String, V>>::serialize(BTreeMap::from([("k".to_owned(), T)]), s),
            Some(7) => Serialize::<Result<V, V>>::serialize(Ok::<T, T>(T), s),
            Some(8) => Serialize::<Result<V, V>>::serialize(Err::<T, T>(T), s),
            Some(9) => Serialize::<(V,)>::serialize((T,), s),
            Some(10) => Serialize::<(tags::U8, V)>::serialize((5u8, T), s),
            Some(_) => Serialize::<tags::Option<V>>::serialize(Some(Box::new(T)), s),
        }
    }
}

fn one(n: usize) -> Result<T, DeserializeError> {
    assert_eq!(n, 1, "a container with another number of elements");
    Ok(T)
}

impl Deserialize<V> for T {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        match next() {
            None => d.deserialize_u8().map(|v| {
                assert_eq!(v, LEAF, "another value");
                T
            }),
            Some(0) => one(<Option<T> as Deserialize<tags::Option<V>>>::deserialize(d)?.iter().len()),
            Some(1) => one(<Vec<T> as Deserialize<tags::Vec<V>>>::deserialize(d)?.len()),
            Some(2) => one(<VecDeque<T> as Deserialize<tags::Vec<V>>>::deserialize(d)?.len()),
            Some(3) => one(<LinkedList<T> as Deserialize<tags::Vec<V>>>::deserialize(d)?.len()),
            Some(4) => one(<[T; 1] as Deserialize<tags::Vec<V>>>::deserialize(d)?.len()),
            Some(5) => one(<HashMap<u16, T> as Deserialize<Map<tags::U16, V>>>::deserialize(d)?.len()),
            Some(6) => one(<BTreeMap<String, T> as Deserialize<Map<tags::String, V>>>::deserialize(d)?.len()),
            Some(7) => one(usize::from(<Result<T, T> as Deserialize<Result<V, V>>>::deserialize(d)?.is_ok())),
            Some(8) => one(usize::from(<Result<T, T> as Deserialize<Result<V, V>>>::deserialize(d)?.is_err())),
            Some(9) => <(T,) as Deserialize<(V,)>>::deserialize(d).map(|v| v.0),
            Some(10) => <(u8, T) as Deserialize<(tags::U8, V)>>::deserialize(d).map(|v| v.1),
            Some(_) => one(<Option<Box<T>> as Deserialize<tags::Option<V>>>::deserialize(d)?.iter().len()),
        }
    }
}

fn rv(shape: &[u8]) -> RV {
    shape.iter().rev().fold(RV::U8(LEAF), |v, k| match k {
        0 => RV::some(v),
        1..=4 => RV::Vec(vec![v]),
        5 => RV::Map(KK::U16, BTreeMap::from([(Key::U(300), v)])),
        6 => RV::Map(KK::Str, BTreeMap::from([(Key::Str("k".into()), v)])),
        7 => RV::en(0, v),
        8 => RV::en(1, v),
        9 => RV::Struct(BTreeMap::from([(0, v)])),
        10 => RV::Struct(BTreeMap::from([(0, RV::U8(5)), (1, v)])),
        _ => RV::some(v),
    })
}

fn set(shape: &[u8]) {
    SHAPE.with(|s| s.replace(shape.to_vec()));
    POS.set(0);
}

pub fn check(ctx: &Ctx, shape: &[u8]) {
    ctx.mark(shape);
    ctx.add_states(1);
    let rv = rv(shape);
    let level = rv.level();
    let deep = level > MAX_DEPTH;
    let fail = |class: &str, style: &str, what: String| {
        ctx.violation(
            &format!("typed-{class}:{style}:{shape:?}"),
            &format!("{what}; typed containers {shape:?}"),
            json!({"shape": shape}),
        );
    };
    ctx.add_transitions(1);
    set(shape);
    match catch(|| SerializedValue::serialize_as::<V>(T)) {
        Err(p) => fail("encode-panic", "", format!("serializing panicked: {p}")),
        Ok(Err(SerializeError::TooDeeplyNested)) if deep => {}
        Ok(Err(e)) => fail("encode-error", "", format!("serializing a value nested {level} levels failed with {e:?}")),
        Ok(Ok(_)) if deep => fail("encode-deep", "", format!("serializing accepted a value nested {level} levels deep")),
        Ok(Ok(v)) => {
            let b: &[u8] = &v;
            if decode(b, false) != Ok((rv.clone(), b.len())) {
                fail("encode-bytes", "", format!("serialized to {}", hex(b)));
            }
        }
    }
    for style in STYLES {
        ctx.add_transitions(1);
        let b = encode(&rv, style);
        set(shape);
        let style = format!("{style:?}");
        match catch(|| slice(&b).deserialize_as::<V, T>()) {
            Err(p) => fail("decode-panic", &style, format!("deserializing panicked: {p}")),
            Ok(Err(DeserializeError::TooDeeplyNested)) if deep => {}
            Ok(Err(e)) => fail("decode-error", &style, format!("deserializing a value nested {level} levels failed with {e:?}")),
            Ok(Ok(_)) if deep => fail("decode-deep", &style, format!("deserializing accepted a value nested {level} levels deep")),
            Ok(Ok(_)) => {}
        }
    }
}

pub fn run(ctx: &Ctx) {
    let mut shapes = vec![];
    for a in 0..KINDS {
        for d in (0..=45).chain([100, 255, 256, 257, 300]) {
            shapes.push(vec![a; d]);
        }
        for b in 0..KINDS {
            if a != b {
                for d in [31, 32] {
                    for p in 0..d {
                        let mut s = vec![a; d];
                        s[p] = b;
                        shapes.push(s);
                    }
                }
                for d in 29..=34 {
                    shapes.push((0..d).map(|i| if i % 2 == 0 { a } else { b }).collect());
                }
                for c in 0..KINDS {
                    shapes.push(vec![a, b, c]);
                }
            }
        }
    }
    ctx.par_stack(shapes.len(), 64 << 20, |i| check(ctx, &shapes[i]));
    ctx.extra("family_typed_containers", shapes.len());
}
