//! Model of schemas: source text, wire contract and structural description.

use crate::refcodec::{KK, RV};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ty {
    Bool,
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    F32,
    F64,
    Str,
    Uuid,
    ObjectId,
    ServiceId,
    Value,
    Bytes,
    Lifetime,
    Unit,
    Opt(Box<Ty>),
    Box(Box<Ty>),
    Vec(Box<Ty>),
    Set(Box<Ty>),
    Sender(Box<Ty>),
    Receiver(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Result(Box<Ty>, Box<Ty>),
    Array(Box<Ty>, u32),
    /// Length by a constant.
    ArrayC(Box<Ty>, String, u32),
    /// Schema (None: this one) and name.
    Ref(Option<String>, String),
}

pub const LEAVES: [Ty; 19] = [
    Ty::Bool,
    Ty::U8,
    Ty::I8,
    Ty::U16,
    Ty::I16,
    Ty::U32,
    Ty::I32,
    Ty::U64,
    Ty::I64,
    Ty::F32,
    Ty::F64,
    Ty::Str,
    Ty::Uuid,
    Ty::ObjectId,
    Ty::ServiceId,
    Ty::Value,
    Ty::Bytes,
    Ty::Lifetime,
    Ty::Unit,
];

pub const KEYS: [Ty; 10] = [
    Ty::U8,
    Ty::I8,
    Ty::U16,
    Ty::I16,
    Ty::U32,
    Ty::I32,
    Ty::U64,
    Ty::I64,
    Ty::Str,
    Ty::Uuid,
];

pub fn b(t: Ty) -> Box<Ty> {
    Box::new(t)
}
pub fn opt(t: Ty) -> Ty {
    Ty::Opt(b(t))
}
pub fn vec_(t: Ty) -> Ty {
    Ty::Vec(b(t))
}
pub fn refr(n: &str) -> Ty {
    Ty::Ref(None, n.into())
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Doc(pub Vec<String>);

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Field {
    pub id: u32,
    pub name: String,
    pub required: bool,
    pub ty: Ty,
    pub doc: Doc,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Variant {
    pub id: u32,
    pub name: String,
    pub ty: Option<Ty>,
    pub doc: Doc,
}

pub type Fallback = Option<(String, Doc)>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Body {
    Struct(Vec<Field>, Fallback),
    Enum(Vec<Variant>, Fallback),
    Newtype(Ty),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Def {
    pub name: String,
    pub doc: Doc,
    pub attrs: Vec<String>,
    pub body: Body,
}

/// Type of a function part or event.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Part {
    Ty(Ty),
    Inline(Body),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub doc: Doc,
    pub args: Option<Part>,
    pub ok: Option<Part>,
    pub err: Option<Part>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Ev {
    pub id: u32,
    pub name: String,
    pub doc: Doc,
    pub ty: Option<Part>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Service {
    pub name: String,
    pub doc: Doc,
    pub uuid: String,
    pub version: u32,
    pub funcs: Vec<Func>,
    pub events: Vec<Ev>,
    pub fn_fallback: Fallback,
    pub ev_fallback: Fallback,
    /// Events before functions.
    pub events_first: bool,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Item {
    Def(Def),
    Service(Service),
    /// name, type keyword, literal, value
    Const(String, String, String),
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Schema {
    pub name: String,
    pub imports: Vec<String>,
    pub doc: Doc,
    pub items: Vec<Item>,
}

/// Main schema first.
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct World(pub Vec<Schema>);

impl Ty {
    /// Schema syntax.
    pub fn src(&self) -> String {
        match self {
            Ty::Bool => "bool".into(),
            Ty::U8 => "u8".into(),
            Ty::I8 => "i8".into(),
            Ty::U16 => "u16".into(),
            Ty::I16 => "i16".into(),
            Ty::U32 => "u32".into(),
            Ty::I32 => "i32".into(),
            Ty::U64 => "u64".into(),
            Ty::I64 => "i64".into(),
            Ty::F32 => "f32".into(),
            Ty::F64 => "f64".into(),
            Ty::Str => "string".into(),
            Ty::Uuid => "uuid".into(),
            Ty::ObjectId => "object_id".into(),
            Ty::ServiceId => "service_id".into(),
            Ty::Value => "value".into(),
            Ty::Bytes => "bytes".into(),
            Ty::Lifetime => "lifetime".into(),
            Ty::Unit => "unit".into(),
            Ty::Opt(t) => format!("option<{}>", t.src()),
            Ty::Box(t) => format!("box<{}>", t.src()),
            Ty::Vec(t) => format!("vec<{}>", t.src()),
            Ty::Set(t) => format!("set<{}>", t.src()),
            Ty::Sender(t) => format!("sender<{}>", t.src()),
            Ty::Receiver(t) => format!("receiver<{}>", t.src()),
            Ty::Map(k, v) => format!("map<{} -> {}>", k.src(), v.src()),
            Ty::Result(o, e) => format!("result<{}, {}>", o.src(), e.src()),
            Ty::Array(t, n) => format!("[{}; {}]", t.src(), n),
            Ty::ArrayC(t, c, _) => format!("[{}; {}]", t.src(), c),
            Ty::Ref(None, n) => n.clone(),
            Ty::Ref(Some(s), n) => format!("{s}::{n}"),
        }
    }

    pub fn kk(&self) -> Option<KK> {
        Some(match self {
            Ty::U8 => KK::U8,
            Ty::I8 => KK::I8,
            Ty::U16 => KK::U16,
            Ty::I16 => KK::I16,
            Ty::U32 => KK::U32,
            Ty::I32 => KK::I32,
            Ty::U64 => KK::U64,
            Ty::I64 => KK::I64,
            Ty::Str => KK::Str,
            Ty::Uuid => KK::Uuid,
            _ => return None,
        })
    }

    /// Directly contained types.
    pub fn parts(&self) -> Vec<&Ty> {
        match self {
            Ty::Opt(t) | Ty::Box(t) | Ty::Set(t) | Ty::Sender(t) | Ty::Receiver(t) | Ty::Array(t, _) | Ty::ArrayC(t, _, _) => {
                vec![t]
            }
            Ty::Vec(t) if **t == Ty::U8 => vec![],
            Ty::Vec(t) => vec![t],
            Ty::Map(a, b) | Ty::Result(a, b) => vec![a, b],
            _ => vec![],
        }
    }
}

fn doc(out: &mut String, d: &Doc, ind: &str, style: &str) {
    for l in &d.0 {
        if l.is_empty() {
            let _ = writeln!(out, "{ind}{style}");
        } else {
            let _ = writeln!(out, "{ind}{style} {l}");
        }
    }
}

fn fields(out: &mut String, fs: &[Field], fb: &Fallback, ind: &str) {
    for f in fs {
        doc(out, &f.doc, ind, "///");
        let r = if f.required { "required " } else { "" };
        let _ = writeln!(out, "{ind}{r}{} @ {} = {};", f.name, f.id, f.ty.src());
    }
    if let Some((n, d)) = fb {
        doc(out, d, ind, "///");
        let _ = writeln!(out, "{ind}{n} = fallback;");
    }
}

fn variants(out: &mut String, vs: &[Variant], fb: &Fallback, ind: &str) {
    for v in vs {
        doc(out, &v.doc, ind, "///");
        match &v.ty {
            Some(t) => {
                let _ = writeln!(out, "{ind}{} @ {} = {};", v.name, v.id, t.src());
            }
            None => {
                let _ = writeln!(out, "{ind}{} @ {};", v.name, v.id);
            }
        }
    }
    if let Some((n, d)) = fb {
        doc(out, d, ind, "///");
        let _ = writeln!(out, "{ind}{n} = fallback;");
    }
}

fn part(out: &mut String, p: &Part) {
    match p {
        Part::Ty(t) => {
            let _ = writeln!(out, "{};", t.src());
        }
        Part::Inline(Body::Struct(f, fb)) => {
            let _ = writeln!(out, "struct {{");
            fields(out, f, fb, "            ");
            let _ = writeln!(out, "        }}");
        }
        Part::Inline(Body::Enum(v, fb)) => {
            let _ = writeln!(out, "enum {{");
            variants(out, v, fb, "            ");
            let _ = writeln!(out, "        }}");
        }
        Part::Inline(Body::Newtype(_)) => panic!("harness"),
    }
}

impl Service {
    fn write(&self, out: &mut String) {
        doc(out, &self.doc, "", "///");
        let _ = writeln!(out, "service {} {{\n    uuid = {};\n    version = {};", self.name, self.uuid, self.version);
        let funcs = |out: &mut String| {
            for f in &self.funcs {
                doc(out, &f.doc, "    ", "///");
                let _ = write!(out, "    fn {} @ {}", f.name, f.id);
                match (&f.args, &f.ok, &f.err) {
                    (None, None, None) => {
                        let _ = writeln!(out, ";");
                    }
                    (None, Some(ok), None) => {
                        let _ = write!(out, " = ");
                        part(out, ok);
                    }
                    (a, o, e) => {
                        let _ = writeln!(out, " {{");
                        for (n, p) in [("args", a), ("ok", o), ("err", e)] {
                            if let Some(p) = p {
                                let _ = write!(out, "        {n} = ");
                                part(out, p);
                            }
                        }
                        let _ = writeln!(out, "    }}");
                    }
                }
            }
        };
        let events = |out: &mut String| {
            for e in &self.events {
                doc(out, &e.doc, "    ", "///");
                let _ = write!(out, "    event {} @ {}", e.name, e.id);
                match &e.ty {
                    None => {
                        let _ = writeln!(out, ";");
                    }
                    Some(p) => {
                        let _ = write!(out, " = ");
                        part(out, p);
                    }
                }
            }
        };
        if self.events_first {
            events(out);
            funcs(out);
        } else {
            funcs(out);
            events(out);
        }
        for (k, fb) in [("fn", &self.fn_fallback), ("event", &self.ev_fallback)] {
            if let Some((n, d)) = fb {
                doc(out, d, "    ", "///");
                let _ = writeln!(out, "    {k} {n} = fallback;");
            }
        }
        let _ = writeln!(out, "}}\n");
    }
}

impl Schema {
    pub fn new(name: &str) -> Self {
        Schema { name: name.into(), ..Schema::default() }
    }

    pub fn src(&self) -> String {
        let mut o = String::new();
        doc(&mut o, &self.doc, "", "//!");
        for i in &self.imports {
            let _ = writeln!(o, "import {i};");
        }
        for it in &self.items {
            match it {
                Item::Const(n, k, v) => {
                    let _ = writeln!(o, "const {n} = {k}({v});\n");
                }
                Item::Service(s) => s.write(&mut o),
                Item::Def(d) => {
                    doc(&mut o, &d.doc, "", "///");
                    for a in &d.attrs {
                        let _ = writeln!(o, "{a}");
                    }
                    match &d.body {
                        Body::Struct(f, fb) => {
                            let _ = writeln!(o, "struct {} {{", d.name);
                            fields(&mut o, f, fb, "    ");
                            let _ = writeln!(o, "}}\n");
                        }
                        Body::Enum(v, fb) => {
                            let _ = writeln!(o, "enum {} {{", d.name);
                            variants(&mut o, v, fb, "    ");
                            let _ = writeln!(o, "}}\n");
                        }
                        Body::Newtype(t) => {
                            let _ = writeln!(o, "newtype {} = {};\n", d.name, t.src());
                        }
                    }
                }
            }
        }
        o
    }

    /// All types incl. the inline ones of services, by their generated name.
    pub fn defs(&self) -> Vec<Def> {
        let mut v = vec![];
        for it in &self.items {
            match it {
                Item::Def(d) => v.push(d.clone()),
                Item::Service(s) => {
                    let mut add = |name: String, p: &Option<Part>| {
                        if let Some(Part::Inline(body)) = p {
                            v.push(Def { name, doc: Doc::default(), attrs: vec![], body: body.clone() });
                        }
                    };
                    for f in &s.funcs {
                        let c = camel(&f.name);
                        add(format!("{}{c}Args", s.name), &f.args);
                        add(format!("{}{c}Ok", s.name), &f.ok);
                        add(format!("{}{c}Error", s.name), &f.err);
                    }
                    for e in &s.events {
                        add(format!("{}{}Args", s.name, camel(&e.name)), &e.ty);
                    }
                }
                Item::Const(..) => {}
            }
        }
        v
    }

    pub fn services(&self) -> impl Iterator<Item = &Service> {
        self.items.iter().filter_map(|i| match i {
            Item::Service(s) => Some(s),
            _ => None,
        })
    }
}

/// CamelCase of the (simple snake case) names the generator uses.
pub fn camel(s: &str) -> String {
    s.split('_')
        .filter(|p| !p.is_empty())
        .map(|p| p[..1].to_uppercase() + &p[1..])
        .collect()
}

impl Service {
    /// The type of a part, inline types by their generated name.
    pub fn part_ty(&self, item: &str, suffix: &str, p: &Part) -> Ty {
        match p {
            Part::Ty(t) => t.clone(),
            Part::Inline(_) => refr(&format!("{}{}{suffix}", self.name, camel(item))),
        }
    }
}

/// A type in the context of the schema it occurs in.
pub type At<'a> = (&'a Schema, &'a Ty);

impl World {
    pub fn main(&self) -> &Schema {
        &self.0[0]
    }

    pub fn schema(&self, name: &str) -> &Schema {
        self.0.iter().find(|s| s.name == name).expect("harness: schema")
    }

    pub fn lookup<'a>(&'a self, here: &'a Schema, schema: &Option<String>, name: &str) -> (&'a Schema, Def) {
        let s = match schema {
            Some(s) => self.schema(s),
            None => here,
        };
        let d = s.defs().into_iter().find(|d| d.name == name).unwrap_or_else(|| panic!("harness: no {name}"));
        (s, d)
    }

    fn key_kind(&self, here: &Schema, t: &Ty) -> Option<KK> {
        match t {
            Ty::Ref(s, n) => match self.lookup(here, s, n) {
                (s, Def { body: Body::Newtype(t), .. }) => self.key_kind(s, &t),
                _ => None,
            },
            t => t.kk(),
        }
    }

    /// The wire contract: the value as the generated type sees and re-encodes it, or None if it
    /// has to be rejected.
    pub fn decode(&self, here: &Schema, t: &Ty, v: &RV) -> Option<RV> {
        match (t, v) {
            (Ty::Bool, RV::Bool(_))
            | (Ty::U8, RV::U8(_))
            | (Ty::I8, RV::I8(_))
            | (Ty::U16, RV::U16(_))
            | (Ty::I16, RV::I16(_))
            | (Ty::U32, RV::U32(_))
            | (Ty::I32, RV::I32(_))
            | (Ty::U64, RV::U64(_))
            | (Ty::I64, RV::I64(_))
            | (Ty::F32, RV::F32(_))
            | (Ty::F64, RV::F64(_))
            | (Ty::Str, RV::Str(_))
            | (Ty::Uuid, RV::Uuid(_))
            | (Ty::ObjectId, RV::ObjectId(_))
            | (Ty::ServiceId, RV::ServiceId(_))
            | (Ty::Value, _)
            | (Ty::Bytes, RV::Bytes(_))
            | (Ty::Lifetime, RV::ObjectId(_))
            | (Ty::Unit, RV::None)
            | (Ty::Opt(_), RV::None)
            | (Ty::Sender(_), RV::Sender(_))
            | (Ty::Receiver(_), RV::Receiver(_)) => Some(v.clone()),
            (Ty::Opt(t), RV::Some(v)) => self.decode(here, t, v).map(RV::some),
            (Ty::Box(t), v) => self.decode(here, t, v),
            (Ty::Vec(t), v) if **t == Ty::U8 => self.decode(here, &Ty::Bytes, v),
            (Ty::Vec(t), RV::Vec(v)) => v.iter().map(|v| self.decode(here, t, v)).collect::<Option<_>>().map(RV::Vec),
            (Ty::Array(t, n) | Ty::ArrayC(t, _, n), RV::Vec(v)) => {
                if v.len() != *n as usize {
                    return None;
                }
                v.iter().map(|v| self.decode(here, t, v)).collect::<Option<_>>().map(RV::Vec)
            }
            (Ty::Set(k), RV::Set(kk, _)) => (self.key_kind(here, k) == Some(*kk)).then(|| v.clone()),
            (Ty::Map(k, t), RV::Map(kk, m)) => {
                if self.key_kind(here, k) != Some(*kk) {
                    return None;
                }
                let m = m
                    .iter()
                    .map(|(k, v)| self.decode(here, t, v).map(|v| (k.clone(), v)))
                    .collect::<Option<BTreeMap<_, _>>>()?;
                Some(RV::Map(*kk, m))
            }
            (Ty::Result(o, e), RV::Enum(id, v)) => {
                let t = match id {
                    0 => o,
                    1 => e,
                    _ => return None,
                };
                self.decode(here, t, v).map(|v| RV::en(*id, v))
            }
            (Ty::Ref(s, n), v) => {
                let (s, d) = self.lookup(here, s, n);
                self.decode_def(s, &d, v)
            }
            _ => None,
        }
    }

    pub fn decode_def(&self, here: &Schema, d: &Def, v: &RV) -> Option<RV> {
        match (&d.body, v) {
            (Body::Newtype(t), v) => self.decode(here, t, v),
            (Body::Struct(fs, fb), RV::Struct(m)) => {
                let mut out = BTreeMap::new();
                for f in fs {
                    match m.get(&f.id) {
                        None if f.required => return None,
                        None => {}
                        Some(v) if f.required => {
                            out.insert(f.id, self.decode(here, &f.ty, v)?);
                        }
                        Some(RV::None) => {}
                        Some(RV::Some(v)) => {
                            out.insert(f.id, RV::some(self.decode(here, &f.ty, v)?));
                        }
                        Some(_) => return None,
                    }
                }
                if fb.is_some() {
                    for (id, v) in m {
                        if fs.iter().all(|f| f.id != *id) {
                            out.insert(*id, v.clone());
                        }
                    }
                }
                Some(RV::Struct(out))
            }
            (Body::Enum(vs, fb), RV::Enum(id, v)) => match vs.iter().find(|x| x.id == *id) {
                Some(x) => match &x.ty {
                    Some(t) => self.decode(here, t, v).map(|v| RV::en(*id, v)),
                    None => (**v == RV::None).then(|| RV::en(*id, RV::None)),
                },
                None => fb.is_some().then(|| RV::en(*id, (**v).clone())),
            },
            _ => None,
        }
    }

    /// Conforming values.
    pub fn values(&self, here: &Schema, t: &Ty, depth: u32) -> Vec<RV> {
        use crate::gen::few_keys;
        if depth == 0 {
            return vec![self.least(here, t)];
        }
        let few = |t: &Ty| {
            let mut v = self.values(here, t, depth - 1);
            v.truncate(4);
            v
        };
        match t {
            Ty::Bool => vec![RV::Bool(true), RV::Bool(false)],
            Ty::U8 => vec![RV::U8(255), RV::U8(0)],
            Ty::I8 => vec![RV::I8(-128), RV::I8(1)],
            Ty::U16 => vec![RV::U16(u16::MAX), RV::U16(0), RV::U16(254)],
            Ty::I16 => vec![RV::I16(i16::MIN), RV::I16(1)],
            Ty::U32 => vec![RV::U32(u32::MAX), RV::U32(0), RV::U32(252)],
            Ty::I32 => vec![RV::I32(i32::MIN), RV::I32(1)],
            Ty::U64 => vec![RV::U64(u64::MAX), RV::U64(0), RV::U64(248)],
            Ty::I64 => vec![RV::I64(i64::MIN), RV::I64(1)],
            Ty::F32 => vec![RV::F32(1.5f32.to_bits()), RV::F32(0x7fc0_0001)],
            Ty::F64 => vec![RV::F64(1.5f64.to_bits()), RV::F64(0x8000_0000_0000_0000)],
            Ty::Str => vec![RV::Str("aé".into()), RV::Str(String::new())],
            Ty::Uuid => vec![RV::Uuid([7; 16])],
            Ty::ObjectId | Ty::Lifetime => vec![RV::ObjectId([8; 32])],
            Ty::ServiceId => vec![RV::ServiceId([9; 64])],
            Ty::Bytes => vec![RV::Bytes(vec![1, 2, 255]), RV::Bytes(vec![])],
            Ty::Unit => vec![RV::None],
            Ty::Sender(_) => vec![RV::Sender([10; 16])],
            Ty::Receiver(_) => vec![RV::Receiver([11; 16])],
            Ty::Value => vec![
                RV::U8(3),
                RV::None,
                RV::some(RV::U8(1)),
                RV::Struct(BTreeMap::from([(300, RV::Vec(vec![RV::Bytes(vec![1]), RV::None])), (0, RV::en(1, RV::U8(2)))])),
                RV::Map(KK::U16, few_keys(KK::U16).into_iter().map(|k| (k, RV::Set(KK::Str, BTreeSet::new()))).collect()),
            ],
            Ty::Opt(t) => {
                let mut v: Vec<_> = few(t).into_iter().map(RV::some).collect();
                v.push(RV::None);
                v
            }
            Ty::Box(t) => self.values(here, t, depth - 1),
            Ty::Vec(t) if **t == Ty::U8 => self.values(here, &Ty::Bytes, depth),
            Ty::Vec(t) => {
                let f = few(t);
                let mut v = vec![RV::Vec(f.clone()), RV::Vec(vec![])];
                v.extend(f.into_iter().map(|x| RV::Vec(vec![x])));
                v
            }
            Ty::Array(t, n) | Ty::ArrayC(t, _, n) => {
                let f = few(t);
                (0..f.len()).map(|i| RV::Vec((0..*n as usize).map(|j| f[(i + j) % f.len()].clone()).collect())).collect()
            }
            Ty::Set(k) => {
                let kk = self.key_kind(here, k).expect("harness: key");
                let ks = few_keys(kk);
                vec![
                    RV::Set(kk, ks.iter().cloned().collect()),
                    RV::Set(kk, BTreeSet::new()),
                    RV::Set(kk, BTreeSet::from([ks[0].clone()])),
                ]
            }
            Ty::Map(k, t) => {
                let kk = self.key_kind(here, k).expect("harness: key");
                let ks = few_keys(kk);
                let f = few(t);
                let all = ks.iter().enumerate().map(|(i, k)| (k.clone(), f[i % f.len()].clone())).collect();
                vec![
                    RV::Map(kk, all),
                    RV::Map(kk, BTreeMap::new()),
                    RV::Map(kk, BTreeMap::from([(ks[0].clone(), f[f.len() - 1].clone())])),
                ]
            }
            Ty::Result(o, e) => {
                let mut v: Vec<_> = few(o).into_iter().map(|v| RV::en(0, v)).collect();
                v.extend(few(e).into_iter().map(|v| RV::en(1, v)));
                v
            }
            Ty::Ref(s, n) => {
                let (s, d) = self.lookup(here, s, n);
                self.values_def(s, &d, depth - 1)
            }
        }
    }

    /// A small conforming value (terminates for every inhabited type).
    fn least(&self, here: &Schema, t: &Ty) -> RV {
        match t {
            Ty::Opt(_) => RV::None,
            Ty::Box(t) => self.least(here, t),
            Ty::Vec(t) if **t == Ty::U8 => RV::Bytes(vec![]),
            Ty::Vec(_) => RV::Vec(vec![]),
            Ty::Array(t, n) | Ty::ArrayC(t, _, n) => RV::Vec(vec![self.least(here, t); *n as usize]),
            Ty::Set(k) => RV::Set(self.key_kind(here, k).unwrap(), BTreeSet::new()),
            Ty::Map(k, _) => RV::Map(self.key_kind(here, k).unwrap(), BTreeMap::new()),
            Ty::Result(o, _) => RV::en(0, self.least(here, o)),
            Ty::Ref(s, n) => {
                let (s, d) = self.lookup(here, s, n);
                match &d.body {
                    Body::Newtype(t) => self.least(s, t),
                    Body::Struct(fs, _) => {
                        RV::Struct(fs.iter().filter(|f| f.required).map(|f| (f.id, self.least(s, &f.ty))).collect())
                    }
                    Body::Enum(vs, _) => match vs.iter().min_by_key(|v| v.ty.is_some()) {
                        Some(v) => RV::en(v.id, v.ty.as_ref().map_or(RV::None, |t| self.least(s, t))),
                        None => RV::en(5, RV::None),
                    },
                }
            }
            t => self.values(here, t, 1).pop().unwrap(),
        }
    }

    pub fn values_def(&self, here: &Schema, d: &Def, depth: u32) -> Vec<RV> {
        let unknown = [
            RV::U8(9),
            RV::None,
            RV::Struct(BTreeMap::from([(7, RV::Vec(vec![RV::Str("x".into())])), (300, RV::some(RV::Bytes(vec![1, 2])))])),
        ];
        match &d.body {
            Body::Newtype(t) => self.values(here, t, depth),
            Body::Struct(fs, _) => {
                let per: Vec<Vec<RV>> = fs
                    .iter()
                    .map(|f| {
                        let v = if depth == 0 { vec![self.least(here, &f.ty)] } else { self.values(here, &f.ty, depth) };
                        if f.required {
                            v
                        } else {
                            v.into_iter().map(RV::some).chain([RV::None]).collect()
                        }
                    })
                    .collect();
                let base: BTreeMap<u32, RV> = fs.iter().zip(&per).map(|(f, v)| (f.id, v[0].clone())).collect();
                let mut out = vec![RV::Struct(base.clone())];
                if depth == 0 {
                    return out;
                }
                for (f, vs) in fs.iter().zip(&per) {
                    for v in &vs[1..] {
                        let mut m = base.clone();
                        m.insert(f.id, v.clone());
                        out.push(RV::Struct(m));
                    }
                    if !f.required {
                        let mut m = base.clone();
                        m.remove(&f.id);
                        out.push(RV::Struct(m));
                    }
                }
                // Only what is required.
                out.push(RV::Struct(fs.iter().zip(&per).filter(|x| x.0.required).map(|(f, v)| (f.id, v[0].clone())).collect()));
                // Unknown fields, one and several.
                let ids: Vec<u32> = [0, 1, 2, 251, 252, 70000, u32::MAX].into_iter().filter(|i| fs.iter().all(|f| f.id != *i)).collect();
                for u in &unknown {
                    for id in &ids {
                        let mut m = base.clone();
                        m.insert(*id, u.clone());
                        out.push(RV::Struct(m));
                    }
                }
                let mut m = base.clone();
                for (i, id) in ids.iter().enumerate() {
                    m.insert(*id, unknown[i % 3].clone());
                }
                out.push(RV::Struct(m));
                out
            }
            Body::Enum(vs, fb) => {
                let mut out = vec![];
                for x in vs {
                    match &x.ty {
                        None => out.push(RV::en(x.id, RV::None)),
                        Some(t) => {
                            let v = if depth == 0 { vec![self.least(here, t)] } else { self.values(here, t, depth) };
                            out.extend(v.into_iter().map(|v| RV::en(x.id, v)));
                        }
                    }
                }
                if fb.is_some() || vs.is_empty() {
                    for id in [0, 1, 2, 252, 70000, u32::MAX] {
                        if vs.iter().all(|x| x.id != id) {
                            out.extend(unknown.iter().map(|u| RV::en(id, u.clone())));
                        }
                    }
                }
                out
            }
        }
    }
}

/// Every value that results from one edit at one place: the sub-value replaced by a value of each
/// other kind, a field removed, added or renumbered, a variant renumbered, an element added or
/// removed, a wrapper added or removed.
pub fn mutations(v: &RV, atoms: &[RV], out: &mut Vec<RV>) {
    let mut subs: Vec<RV> = atoms.to_vec();
    subs.push(RV::some(v.clone()));
    subs.push(RV::Vec(vec![v.clone()]));
    subs.push(RV::en(0, v.clone()));
    subs.push(RV::Struct(BTreeMap::from([(0, v.clone())])));
    for s in subs {
        if s != *v {
            out.push(s);
        }
    }
    let at = |out: &mut Vec<RV>, inner: &RV, f: &dyn Fn(RV) -> RV| {
        let mut o = vec![];
        mutations(inner, atoms, &mut o);
        out.extend(o.into_iter().map(f));
    };
    match v {
        RV::Some(i) => {
            at(out, i, &RV::some);
            out.push((**i).clone());
        }
        RV::Enum(id, i) => {
            at(out, i, &|x| RV::en(*id, x));
            for n in [0, 1, 2, 300, u32::MAX, id.wrapping_add(1)] {
                if n != *id {
                    out.push(RV::en(n, (**i).clone()));
                }
            }
        }
        RV::Vec(es) => {
            for i in 0..es.len() {
                at(out, &es[i], &|x| {
                    let mut e = es.clone();
                    e[i] = x;
                    RV::Vec(e)
                });
                let mut e = es.clone();
                e.remove(i);
                out.push(RV::Vec(e));
            }
            if let Some(l) = es.last() {
                let mut e = es.clone();
                e.push(l.clone());
                out.push(RV::Vec(e));
            }
        }
        RV::Map(kk, m) => {
            for k in m.keys() {
                at(out, &m[k], &|x| {
                    let mut e = m.clone();
                    e.insert(k.clone(), x);
                    RV::Map(*kk, e)
                });
            }
        }
        RV::Struct(m) => {
            for k in m.keys() {
                at(out, &m[k], &|x| {
                    let mut e = m.clone();
                    e.insert(*k, x);
                    RV::Struct(e)
                });
                let mut e = m.clone();
                let x = e.remove(k).unwrap();
                out.push(RV::Struct(e.clone()));
                e.insert(k.wrapping_add(1), x.clone());
                out.push(RV::Struct(e));
            }
        }
        _ => {}
    }
}
