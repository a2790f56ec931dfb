use crate::refcodec::{Key, Style, KK, RV};
use aldrin_core::tags;
use aldrin_core::{
    ChannelCookie, Serialize, SerializeError, SerializedValueSlice, Serializer,
};
use uuid::Uuid;

/// Views raw bytes as a serialized value (which is a transparent wrapper around them).
pub fn slice(b: &[u8]) -> &SerializedValueSlice {
    unsafe { &*(b as *const [u8] as *const SerializedValueSlice) }
}

/// Serializes a reference value through the public serializer API, choosing the encoding of each
/// container by `style`.
#[derive(Clone, Copy)]
pub struct Styled<'a>(pub &'a RV, pub Style, pub u32);

macro_rules! map {
    ($s:expr, $v2:expr, $m:expr, $tag:ty, $p:ident, $t:ty, $st:expr, $l:expr) => {{
        if $v2 {
            let mut s = $s.serialize_map2::<$tag>()?;
            for (k, v) in $m {
                let Key::$p(k) = k else { panic!("harness") };
                s.serialize(&(*k as $t), Styled(v, $st, $l + 1))?;
            }
            s.finish()
        } else {
            let mut s = $s.serialize_map1::<$tag>($m.len())?;
            for (k, v) in $m {
                let Key::$p(k) = k else { panic!("harness") };
                s.serialize(&(*k as $t), Styled(v, $st, $l + 1))?;
            }
            s.finish()
        }
    }};
}
macro_rules! set {
    ($s:expr, $v2:expr, $m:expr, $tag:ty, $p:ident, $t:ty) => {{
        if $v2 {
            let mut s = $s.serialize_set2::<$tag>()?;
            for k in $m {
                let Key::$p(k) = k else { panic!("harness") };
                s.serialize(&(*k as $t))?;
            }
            s.finish()
        } else {
            let mut s = $s.serialize_set1::<$tag>($m.len())?;
            for k in $m {
                let Key::$p(k) = k else { panic!("harness") };
                s.serialize(&(*k as $t))?;
            }
            s.finish()
        }
    }};
}

fn u(b: &[u8]) -> Uuid {
    Uuid::from_slice(b).unwrap()
}

impl Serialize<tags::Value> for Styled<'_> {
    fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
        let Styled(v, st, l) = self;
        let v2 = st.v2(l);
        match v {
            RV::None => s.serialize_none(),
            RV::Some(v) => s.serialize_some(Styled(v, st, l + 1)),
            RV::Bool(v) => s.serialize_bool(*v),
            RV::U8(v) => s.serialize_u8(*v),
            RV::I8(v) => s.serialize_i8(*v),
            RV::U16(v) => s.serialize_u16(*v),
            RV::I16(v) => s.serialize_i16(*v),
            RV::U32(v) => s.serialize_u32(*v),
            RV::I32(v) => s.serialize_i32(*v),
            RV::U64(v) => s.serialize_u64(*v),
            RV::I64(v) => s.serialize_i64(*v),
            RV::F32(v) => s.serialize_f32(f32::from_bits(*v)),
            RV::F64(v) => s.serialize_f64(f64::from_bits(*v)),
            RV::Str(v) => s.serialize_string(v),
            RV::Uuid(v) => s.serialize_uuid(u(v)),
            RV::ObjectId(v) => s.serialize_object_id(crate::refcodec::object_id(v)),
            RV::ServiceId(v) => s.serialize_service_id(crate::refcodec::service_id(v)),
            RV::Sender(v) => s.serialize_sender(ChannelCookie(u(v))),
            RV::Receiver(v) => s.serialize_receiver(ChannelCookie(u(v))),
            RV::Enum(id, v) => s.serialize_enum(*id, Styled(v, st, l + 1)),
            RV::Vec(v) if v2 => {
                let mut s = s.serialize_vec2()?;
                for e in v {
                    s.serialize(Styled(e, st, l + 1))?;
                }
                s.finish()
            }
            RV::Vec(v) => {
                let mut s = s.serialize_vec1(v.len())?;
                for e in v {
                    s.serialize(Styled(e, st, l + 1))?;
                }
                s.finish()
            }
            RV::Bytes(b) if v2 => {
                let chunk = match st {
                    Style::V2Chunk(n) => n,
                    _ => b.len().max(1),
                };
                let mut s = s.serialize_bytes2()?;
                for c in b.chunks(chunk) {
                    s.serialize(c)?;
                }
                s.finish()
            }
            RV::Bytes(b) => {
                let mut s = s.serialize_bytes1(b.len())?;
                s.serialize(b)?;
                s.finish()
            }
            RV::Struct(m) if v2 => {
                let mut s = s.serialize_struct2()?;
                for (k, v) in m {
                    s.serialize(*k, Styled(v, st, l + 1))?;
                }
                s.finish()
            }
            RV::Struct(m) => {
                let mut s = s.serialize_struct1(m.len())?;
                for (k, v) in m {
                    s.serialize(*k, Styled(v, st, l + 1))?;
                }
                s.finish()
            }
            RV::Map(kk, m) => match kk {
                KK::U8 => map!(s, v2, m, tags::U8, U, u8, st, l),
                KK::I8 => map!(s, v2, m, tags::I8, I, i8, st, l),
                KK::U16 => map!(s, v2, m, tags::U16, U, u16, st, l),
                KK::I16 => map!(s, v2, m, tags::I16, I, i16, st, l),
                KK::U32 => map!(s, v2, m, tags::U32, U, u32, st, l),
                KK::I32 => map!(s, v2, m, tags::I32, I, i32, st, l),
                KK::U64 => map!(s, v2, m, tags::U64, U, u64, st, l),
                KK::I64 => map!(s, v2, m, tags::I64, I, i64, st, l),
                KK::Str if v2 => {
                    let mut s = s.serialize_map2::<tags::String>()?;
                    for (k, v) in m {
                        let Key::Str(k) = k else { panic!("harness") };
                        s.serialize(&**k, Styled(v, st, l + 1))?;
                    }
                    s.finish()
                }
                KK::Str => {
                    let mut s = s.serialize_map1::<tags::String>(m.len())?;
                    for (k, v) in m {
                        let Key::Str(k) = k else { panic!("harness") };
                        s.serialize(&**k, Styled(v, st, l + 1))?;
                    }
                    s.finish()
                }
                KK::Uuid if v2 => {
                    let mut s = s.serialize_map2::<tags::Uuid>()?;
                    for (k, v) in m {
                        let Key::Uuid(k) = k else { panic!("harness") };
                        s.serialize(&u(k), Styled(v, st, l + 1))?;
                    }
                    s.finish()
                }
                KK::Uuid => {
                    let mut s = s.serialize_map1::<tags::Uuid>(m.len())?;
                    for (k, v) in m {
                        let Key::Uuid(k) = k else { panic!("harness") };
                        s.serialize(&u(k), Styled(v, st, l + 1))?;
                    }
                    s.finish()
                }
            },
            RV::Set(kk, m) => match kk {
                KK::U8 => set!(s, v2, m, tags::U8, U, u8),
                KK::I8 => set!(s, v2, m, tags::I8, I, i8),
                KK::U16 => set!(s, v2, m, tags::U16, U, u16),
                KK::I16 => set!(s, v2, m, tags::I16, I, i16),
                KK::U32 => set!(s, v2, m, tags::U32, U, u32),
                KK::I32 => set!(s, v2, m, tags::I32, I, i32),
                KK::U64 => set!(s, v2, m, tags::U64, U, u64),
                KK::I64 => set!(s, v2, m, tags::I64, I, i64),
                KK::Str if v2 => {
                    let mut s = s.serialize_set2::<tags::String>()?;
                    for k in m {
                        let Key::Str(k) = k else { panic!("harness") };
                        s.serialize(&**k)?;
                    }
                    s.finish()
                }
                KK::Str => {
                    let mut s = s.serialize_set1::<tags::String>(m.len())?;
                    for k in m {
                        let Key::Str(k) = k else { panic!("harness") };
                        s.serialize(&**k)?;
                    }
                    s.finish()
                }
                KK::Uuid if v2 => {
                    let mut s = s.serialize_set2::<tags::Uuid>()?;
                    for k in m {
                        let Key::Uuid(k) = k else { panic!("harness") };
                        s.serialize(&u(k))?;
                    }
                    s.finish()
                }
                KK::Uuid => {
                    let mut s = s.serialize_set1::<tags::Uuid>(m.len())?;
                    for k in m {
                        let Key::Uuid(k) = k else { panic!("harness") };
                        s.serialize(&u(k))?;
                    }
                    s.finish()
                }
            },
        }
    }
}
