//! What the glue of generated types is written against.

use aldrin::core::introspection::{DynIntrospectable, Introspectable};
use aldrin::core::tags::{PrimaryTag, Tag};
use aldrin::core::{
    Deserialize, DeserializePrimary, SerializedValue, SerializedValueSlice, Serialize, SerializePrimary, ServiceId,
};
use aldrin::{Error, Handle, Object, PendingReply, Promise, UnknownCall, UnknownEvent};
use std::future::Future;
use std::pin::Pin;

pub use aldrin;

pub type R = Result<Vec<u8>, String>;
pub type LBox<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
pub type Dyn = fn() -> DynIntrospectable;

pub enum Out {
    Reject(String),
    Ok(Vec<(&'static str, R)>),
}

pub struct Entry {
    pub unit: &'static str,
    pub schema: &'static str,
    pub ty: &'static str,
    pub run: fn(&[u8]) -> Out,
    /// `T::new()`.
    pub new: Option<fn() -> R>,
    pub dynt: Option<Dyn>,
}

/// Result of one operation through generated service code.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Obs {
    /// Function or event arm (None: fallback) and id, value and value by other means.
    Arm(Option<usize>, u32, R),
    Ok(u32, R),
    Err(u32, R),
    Error(String),
    End,
    Done,
}

#[derive(Debug, Clone)]
pub enum Plan {
    Ok(Vec<u8>, u8),
    Err(Vec<u8>, u8),
    Abort,
    InvalidFunction,
    InvalidArgs,
}

pub trait Client {
    fn call(&self, func: usize, mode: u8, args: &[u8]) -> LBox<'static, Obs>;
    fn subscribe(&self, ev: Option<usize>) -> LBox<'_, Obs>;
    fn unsubscribe(&self, ev: Option<usize>) -> LBox<'_, Obs>;
    fn next(&mut self, dispatch: bool) -> LBox<'_, Obs>;
    fn low(&self) -> &aldrin::low_level::Proxy;
    fn consts(&self) -> ([u8; 16], u32);
}

pub trait Server {
    fn next(&mut self, dispatch: bool, plan: Plan) -> LBox<'_, (Obs, Result<(), String>)>;
    fn emit(&self, ev: usize, mode: u8, args: &[u8]) -> Obs;
    fn consts(&self) -> ([u8; 16], u32);
    fn id(&self) -> ServiceId;
}

pub struct SvcEntry {
    pub unit: &'static str,
    pub schema: &'static str,
    pub name: &'static str,
    pub client: Option<for<'a> fn(&'a Handle, ServiceId) -> LBox<'a, Result<Box<dyn Client>, Error>>>,
    pub server: Option<for<'a> fn(&'a Object) -> LBox<'a, Result<Box<dyn Server>, Error>>>,
    pub dynts: Vec<(&'static str, Dyn)>,
}

#[derive(Default)]
pub struct Entries {
    pub types: Vec<Entry>,
    pub services: Vec<SvcEntry>,
}

pub fn slice(b: &[u8]) -> &SerializedValueSlice {
    unsafe { &*(b as *const [u8] as *const SerializedValueSlice) }
}

fn r<E: std::fmt::Debug>(r: Result<SerializedValue, E>) -> R {
    match r {
        Ok(v) => Ok(bytes(&v)),
        Err(e) => Err(format!("{e:?}")),
    }
}

pub fn bytes(v: &SerializedValueSlice) -> Vec<u8> {
    let b: &[u8] = v;
    b.to_vec()
}

pub fn ser<T: SerializePrimary>(v: T) -> R {
    r(SerializedValue::serialize(v))
}

pub fn ser_as<T: Tag>(v: impl Serialize<T>) -> R {
    r(SerializedValue::serialize_as::<T>(v))
}

/// Serializes as the type the second argument has.
pub fn ser_like<T: PrimaryTag>(v: impl Serialize<T::Tag>, _: &T) -> R {
    r(SerializedValue::serialize_as::<T::Tag>(v))
}

pub fn de<T: DeserializePrimary>(b: &[u8]) -> Result<T, String> {
    slice(b).deserialize::<T>().map_err(|e| format!("{e:?}"))
}

pub fn run<T>(b: &[u8], alt: fn(&T) -> Vec<(&'static str, R)>) -> Out
where
    T: PrimaryTag + Deserialize<T::Tag> + Serialize<T::Tag> + Clone + std::fmt::Debug,
    for<'a> &'a T: Serialize<T::Tag>,
{
    match slice(b).deserialize::<T>() {
        Err(e) => Out::Reject(format!("{e:?}")),
        Ok(x) => {
            let _ = format!("{x:?}");
            let mut v = vec![("ref", ser_as::<T::Tag>(&x)), ("clone", ser_as::<T::Tag>(x.clone()))];
            v.extend(alt(&x));
            v.push(("owned", ser_as::<T::Tag>(x)));
            Out::Ok(v)
        }
    }
}

pub fn dynt<T: Introspectable + ?Sized + 'static>() -> DynIntrospectable {
    DynIntrospectable::new::<T>()
}

/// Ties the type of a value to a function taking it.
pub fn hint<A, B>(_: &A, _: impl Fn(A) -> B) {}

pub async fn reply<T, E>(p: PendingReply<T, E>) -> Obs
where
    T: DeserializePrimary + SerializePrimary,
    E: DeserializePrimary + SerializePrimary,
{
    match p.await {
        Ok(r) => {
            let id = r.id();
            match r.into_args() {
                Ok(v) => Obs::Ok(id, ser(v)),
                Err(v) => Obs::Err(id, ser(v)),
            }
        }
        Err(e) => Obs::Error(format!("{e:?}")),
    }
}

pub fn answer<T, E>(p: Promise<T, E>, plan: &Plan) -> Result<(), String>
where
    T: PrimaryTag + Deserialize<T::Tag> + Serialize<T::Tag>,
    for<'a> &'a T: Serialize<T::Tag>,
    E: PrimaryTag + Deserialize<E::Tag> + Serialize<E::Tag>,
    for<'a> &'a E: Serialize<E::Tag>,
{
    let r = match plan {
        Plan::Ok(b, m) => {
            let v = de::<T>(b)?;
            match m {
                0 => p.ok_val(v),
                1 => p.ok(v),
                2 => p.set_val(Ok(v)),
                _ => p.ok(&v),
            }
        }
        Plan::Err(b, m) => {
            let v = de::<E>(b)?;
            match m {
                0 => p.err_val(v),
                1 => p.err(v),
                2 => p.set_val(Err(v)),
                _ => p.err(&v),
            }
        }
        Plan::Abort => p.abort(),
        Plan::InvalidFunction => p.invalid_function(),
        Plan::InvalidArgs => p.invalid_args(),
    };
    r.map_err(|e| format!("{e:?}"))
}

pub fn unknown_call(c: UnknownCall, plan: &Plan) -> (Obs, Result<(), String>) {
    let obs = Obs::Arm(None, c.id(), Ok(bytes(c.args())));
    let r = match plan {
        Plan::Ok(b, _) => c.ok_as::<aldrin::core::tags::Value>(slice(b)),
        Plan::Err(b, _) => c.err_as::<aldrin::core::tags::Value>(slice(b)),
        Plan::Abort => c.abort(),
        Plan::InvalidFunction => c.invalid_function(),
        Plan::InvalidArgs => c.invalid_args(),
    };
    (obs, r.map_err(|e| format!("{e:?}")))
}

pub fn unknown_event(mut e: UnknownEvent) -> Obs {
    Obs::Arm(None, e.id(), Ok(bytes(&e.take_args())))
}

pub fn done<T>(r: Result<T, Error>) -> Obs {
    match r {
        Ok(_) => Obs::Done,
        Err(e) => Obs::Error(format!("{e:?}")),
    }
}

pub fn error(e: Error) -> Obs {
    Obs::Error(format!("{e:?}"))
}
