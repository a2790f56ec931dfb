//! C20: type ids are structural. Descriptions are graphs of nodes; what the code under test makes
//! of a graph is observed through slots, types whose layout and references come from a table.

use crate::c16::{corpus, Corpus};
use crate::refcodec::{decode, encode, STYLES};
use crate::schema::*;
use crate::units;
use crate::ENTRIES;
use aldrin::core::introspection::ir::*;
use aldrin::core::introspection::{BuiltInType, DynIntrospectable, Introspectable, Introspection, Layout, LexicalId, References};
use aldrin::core::{SerializedValue, ServiceUuid, TypeId};
use mc_common::{catch, hash64, Ctx};
use mc_gen_rt::slice;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

// ---------------------------------------------------------------------------------------------
// Slots
// ---------------------------------------------------------------------------------------------

pub struct SlotDef {
    layout: LayoutIr,
    lex: LexicalId,
    refs: Vec<usize>,
}

thread_local! {
    static TABLE: RefCell<Vec<SlotDef>> = const { RefCell::new(vec![]) };
}

pub struct Slot<const N: usize>;

impl<const N: usize> Introspectable for Slot<N> {
    fn layout() -> LayoutIr {
        TABLE.with(|t| t.borrow()[N].layout.clone())
    }

    fn lexical_id() -> LexicalId {
        TABLE.with(|t| t.borrow()[N].lex)
    }

    fn add_references(references: &mut References) {
        let refs = TABLE.with(|t| t.borrow()[N].refs.clone());
        for r in refs {
            references.add_dyn(slot(r));
        }
    }
}

macro_rules! slots {
    ($($n:literal)*) => { vec![$(DynIntrospectable::new::<Slot<$n>>()),*] };
}

fn slot(i: usize) -> DynIntrospectable {
    static ALL: OnceLock<Vec<DynIntrospectable>> = OnceLock::new();
    ALL.get_or_init(|| slots!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255))[i]
}

// ---------------------------------------------------------------------------------------------
// Graphs
// ---------------------------------------------------------------------------------------------

type Name = String;
/// Text of the documentation, which must not matter.
type D = Option<String>;
pub type Fb = Option<(Name, D)>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Node {
    Leaf(Ty),
    /// option, box, vec, set, sender, receiver
    Wrap(u8, usize),
    Map(usize, usize),
    Result(usize, usize),
    Array(usize, u32),
    Tuple(Vec<usize>),
    Struct { schema: Name, name: Name, doc: D, fields: Vec<(u32, Name, bool, usize, D)>, fb: Fb },
    Enum { schema: Name, name: Name, doc: D, variants: Vec<(u32, Name, Option<usize>, D)>, fb: Fb },
    Newtype { schema: Name, name: Name, doc: D, target: usize },
    Service { schema: Name, name: Name, doc: D, uuid: u128, version: u32, funcs: Vec<(u32, Name, [Option<usize>; 3], D)>, events: Vec<(u32, Name, Option<usize>, D)>, ffb: Fb, efb: Fb },
}

const WRAPS: [&str; 6] = ["option", "box", "vec", "set", "sender", "receiver"];

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Graph {
    pub nodes: Vec<Node>,
}

/// How a graph is written down.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Style {
    /// Which permutation items are declared in.
    perm: usize,
    /// Which permutation references are visited in.
    refs: usize,
    /// Each reference as often.
    times: usize,
    /// 0: as given, 1: no doc at all, 2: everything documented the same, 3: all different
    docs: u8,
}

pub const PLAIN: Style = Style { perm: 0, refs: 0, times: 1, docs: 0 };

/// The k-th permutation.
fn permute<T: Clone>(l: &[T], mut k: usize) -> Vec<T> {
    let mut l = l.to_vec();
    let mut o = vec![];
    while !l.is_empty() {
        let n = l.len();
        o.push(l.remove(k % n));
        k /= n;
    }
    o
}


impl Graph {
    pub fn add(&mut self, n: Node) -> usize {
        match self.nodes.iter().position(|x| *x == n) {
            Some(i) => i,
            None => {
                self.nodes.push(n);
                self.nodes.len() - 1
            }
        }
    }

    fn named(&self, kind_svc: bool, schema: &str, name: &str) -> Option<usize> {
        self.nodes.iter().position(|n| match n {
            Node::Struct { schema: s, name: n, .. } | Node::Enum { schema: s, name: n, .. } | Node::Newtype { schema: s, name: n, .. } => !kind_svc && s == schema && n == name,
            Node::Service { schema: s, name: n, .. } => kind_svc && s == schema && n == name,
            _ => false,
        })
    }

    fn ty(&mut self, here: &str, t: &Ty) -> usize {
        let n = match t {
            Ty::Opt(t) => Node::Wrap(0, self.ty(here, t)),
            Ty::Box(t) => Node::Wrap(1, self.ty(here, t)),
            // What the generator makes of it.
            Ty::Vec(t) if **t == Ty::U8 && !here.is_empty() => Node::Leaf(Ty::Bytes),
            Ty::Vec(t) => Node::Wrap(2, self.ty(here, t)),
            Ty::Set(t) => Node::Wrap(3, self.ty(here, t)),
            Ty::Sender(t) => Node::Wrap(4, self.ty(here, t)),
            Ty::Receiver(t) => Node::Wrap(5, self.ty(here, t)),
            Ty::Map(k, v) => Node::Map(self.ty(here, k), self.ty(here, v)),
            Ty::Result(k, v) => Node::Result(self.ty(here, k), self.ty(here, v)),
            Ty::Array(t, n) | Ty::ArrayC(t, _, n) => Node::Array(self.ty(here, t), *n),
            Ty::Ref(s, n) => return self.named(false, s.as_deref().unwrap_or(here), n).expect("harness: name"),
            t => Node::Leaf(t.clone()),
        };
        self.add(n)
    }

    pub fn of(w: &World) -> Graph {
        let mut g = Graph::default();
        // The names first, references can go anywhere.
        for s in &w.0 {
            for d in s.defs() {
                g.nodes.push(Node::Newtype { schema: s.name.clone(), name: d.name, doc: None, target: 0 });
            }
        }
        let dd = |d: &Doc| (!d.0.is_empty()).then(|| d.0.join("\n"));
        let fbk = |f: &Fallback| f.as_ref().map(|(n, d)| (n.clone(), dd(d)));
        let mut i = 0;
        for s in &w.0 {
            for d in s.defs() {
                let (schema, name, doc) = (s.name.clone(), d.name.clone(), dd(&d.doc));
                g.nodes[i] = match &d.body {
                    Body::Struct(fs, fb) => {
                        let fields = fs.iter().map(|f| (f.id, f.name.clone(), f.required, g.ty(&s.name, &f.ty), dd(&f.doc))).collect();
                        Node::Struct { schema, name, doc, fields, fb: fbk(fb) }
                    }
                    Body::Enum(vs, fb) => {
                        let variants = vs.iter().map(|f| (f.id, f.name.clone(), f.ty.as_ref().map(|t| g.ty(&s.name, t)), dd(&f.doc))).collect();
                        Node::Enum { schema, name, doc, variants, fb: fbk(fb) }
                    }
                    Body::Newtype(t) => Node::Newtype { schema, name, doc, target: g.ty(&s.name, t) },
                };
                i += 1;
            }
            for sv in s.services() {
                let funcs = sv
                    .funcs
                    .iter()
                    .map(|f| {
                        let p = [(&f.args, "Args"), (&f.ok, "Ok"), (&f.err, "Error")].map(|(p, x)| p.as_ref().map(|p| g.ty(&s.name, &sv.part_ty(&f.name, x, p))));
                        (f.id, f.name.clone(), p, dd(&f.doc))
                    })
                    .collect();
                let events = sv
                    .events
                    .iter()
                    .map(|e| (e.id, e.name.clone(), e.ty.as_ref().map(|p| g.ty(&s.name, &sv.part_ty(&e.name, "Args", p))), dd(&e.doc)))
                    .collect();
                g.nodes.push(Node::Service {
                    schema: s.name.clone(),
                    name: sv.name.clone(),
                    doc: dd(&sv.doc),
                    uuid: sv.uuid.parse::<uuid::Uuid>().unwrap().as_u128(),
                    version: sv.version,
                    funcs,
                    events,
                    ffb: fbk(&sv.fn_fallback),
                    efb: fbk(&sv.ev_fallback),
                });
            }
        }
        g
    }

    /// Directly referenced nodes.
    pub fn refs(&self, i: usize) -> Vec<usize> {
        match &self.nodes[i] {
            Node::Leaf(_) => vec![],
            Node::Wrap(_, t) | Node::Array(t, _) => vec![*t],
            Node::Map(a, b) | Node::Result(a, b) => vec![*a, *b],
            Node::Tuple(l) => l.clone(),
            Node::Struct { fields, .. } => fields.iter().map(|f| f.3).collect(),
            Node::Enum { variants, .. } => variants.iter().filter_map(|f| f.2).collect(),
            Node::Newtype { target, .. } => vec![*target],
            Node::Service { funcs, events, .. } => funcs.iter().flat_map(|f| f.2.iter().flatten().copied()).chain(events.iter().filter_map(|e| e.2)).collect(),
        }
    }

    /// Whether everything that refers to something ends at a name.
    fn sane(&self) -> bool {
        fn go(g: &Graph, i: usize, n: usize) -> bool {
            match &g.nodes[i] {
                Node::Struct { .. } | Node::Enum { .. } | Node::Newtype { .. } | Node::Service { .. } => true,
                _ if n == 0 => false,
                _ => g.refs(i).into_iter().all(|r| go(g, r, n - 1)),
            }
        }
        let mut names: HashMap<LexicalId, String> = HashMap::new();
        (0..self.nodes.len()).all(|i| go(self, i, 8))
            && (0..self.nodes.len()).all(|i| {
                let d = self.desc(i);
                names.entry(self.lex(i)).or_insert_with(|| d.clone()) == &d
            })
    }

    fn tstr(&self, i: usize) -> String {
        match &self.nodes[i] {
            Node::Leaf(t) => t.src(),
            Node::Wrap(w, t) => format!("{}<{}>", WRAPS[*w as usize], self.tstr(*t)),
            Node::Map(a, b) => format!("map<{},{}>", self.tstr(*a), self.tstr(*b)),
            Node::Result(a, b) => format!("result<{},{}>", self.tstr(*a), self.tstr(*b)),
            Node::Array(t, n) => format!("array<{};{n}>", self.tstr(*t)),
            Node::Tuple(l) => format!("tuple<{}>", l.iter().map(|t| self.tstr(*t)).collect::<Vec<_>>().join(",")),
            Node::Struct { schema, name, .. } | Node::Enum { schema, name, .. } | Node::Newtype { schema, name, .. } => format!("{schema}::{name}"),
            Node::Service { schema, name, .. } => format!("service {schema}::{name}"),
        }
    }

    /// The description of one node, without anything that must not matter.
    pub fn desc(&self, i: usize) -> String {
        let t = |o: &Option<usize>| o.map_or("-".into(), |t| self.tstr(t));
        let fbs = |f: &Fb| f.as_ref().map_or("-".into(), |f| format!("[{}]", f.0));
        match &self.nodes[i] {
            Node::Struct { schema, name, fields, fb, .. } => {
                let m: BTreeMap<u32, String> = fields.iter().map(|f| (f.0, format!("{} {} {}", f.1, f.2, self.tstr(f.3)))).collect();
                format!("struct {schema}::{name} {m:?} fallback {}", fbs(fb))
            }
            Node::Enum { schema, name, variants, fb, .. } => {
                let m: BTreeMap<u32, String> = variants.iter().map(|f| (f.0, format!("{} {}", f.1, t(&f.2)))).collect();
                format!("enum {schema}::{name} {m:?} fallback {}", fbs(fb))
            }
            Node::Newtype { schema, name, target, .. } => format!("newtype {schema}::{name} = {}", self.tstr(*target)),
            Node::Service { schema, name, uuid, version, funcs, events, ffb, efb, .. } => {
                let f: BTreeMap<u32, String> = funcs.iter().map(|f| (f.0, format!("{} {} {} {}", f.1, t(&f.2[0]), t(&f.2[1]), t(&f.2[2])))).collect();
                let e: BTreeMap<u32, String> = events.iter().map(|f| (f.0, format!("{} {}", f.1, t(&f.2)))).collect();
                format!("service {schema}::{name} {uuid:x} {version} {f:?} {e:?} fallbacks {} {}", fbs(ffb), fbs(efb))
            }
            _ => format!("built-in {}", self.tstr(i)),
        }
    }

    /// The whole description of a type: its own and those of all it references.
    pub fn canon(&self, i: usize) -> (u128, String) {
        let mut seen = vec![false; self.nodes.len()];
        let mut todo = vec![i];
        let mut set = BTreeSet::new();
        while let Some(j) = todo.pop() {
            if !seen[j] {
                seen[j] = true;
                set.insert(self.desc(j));
                todo.extend(self.refs(j));
            }
        }
        let mut s = self.desc(i);
        for d in set {
            let _ = write!(s, "\n  {d}");
        }
        let h = (hash64(s.as_bytes()) as u128) << 64 | hash64(format!("#{s}").as_bytes()) as u128;
        (h, s)
    }

    pub fn lex(&self, i: usize) -> LexicalId {
        match &self.nodes[i] {
            Node::Leaf(t) => leaf(t).1,
            Node::Wrap(w, t) => {
                let t = self.lex(*t);
                match w {
                    0 => LexicalId::option(t),
                    1 => LexicalId::box_ty(t),
                    2 => LexicalId::vec(t),
                    3 => LexicalId::set(t),
                    4 => LexicalId::sender(t),
                    _ => LexicalId::receiver(t),
                }
            }
            Node::Map(a, b) => LexicalId::map(self.lex(*a), self.lex(*b)),
            Node::Result(a, b) => LexicalId::result(self.lex(*a), self.lex(*b)),
            Node::Array(t, n) => LexicalId::array(self.lex(*t), *n),
            Node::Tuple(l) => match l[..] {
                [a] => LexicalId::custom_generic("std", "Tuple1", &[self.lex(a)]),
                [a, b] => LexicalId::custom_generic("std", "Tuple2", &[self.lex(a), self.lex(b)]),
                [a, b, c] => LexicalId::custom_generic("std", "Tuple3", &[self.lex(a), self.lex(b), self.lex(c)]),
                _ => unreachable!(),
            },
            Node::Struct { schema, name, .. } | Node::Enum { schema, name, .. } | Node::Newtype { schema, name, .. } => LexicalId::custom(schema, name),
            Node::Service { schema, name, .. } => LexicalId::service(schema, name),
        }
    }

    fn build(&self, i: usize, st: Style) -> SlotDef {
        let lex = |i: usize| self.lex(i);
        let mut n = 0;
        let mut doc = |d: &D| -> D {
            n += 1;
            match st.docs {
                0 => d.clone(),
                1 => None,
                2 => Some("Documentation.".into()),
                _ => Some(format!(" Node {i}, item {n}\n\"quoted\" \\ ")),
            }
        };
        macro_rules! with {
            ($e:expr, $d:expr) => {
                match doc($d) {
                    None => $e,
                    Some(d) => $e.doc(d),
                }
            };
        }
        let layout: LayoutIr = match &self.nodes[i] {
            Node::Leaf(t) => leaf(t).0.into(),
            Node::Wrap(w, t) => {
                let t = lex(*t);
                match w {
                    0 => BuiltInTypeIr::Option(t),
                    1 => BuiltInTypeIr::Box(t),
                    2 => BuiltInTypeIr::Vec(t),
                    3 => BuiltInTypeIr::Set(t),
                    4 => BuiltInTypeIr::Sender(t),
                    _ => BuiltInTypeIr::Receiver(t),
                }
                .into()
            }
            Node::Map(a, b) => BuiltInTypeIr::Map(MapTypeIr::new(lex(*a), lex(*b))).into(),
            Node::Result(a, b) => BuiltInTypeIr::Result(ResultTypeIr::new(lex(*a), lex(*b))).into(),
            Node::Array(t, n) => BuiltInTypeIr::Array(ArrayTypeIr::new(lex(*t), *n)).into(),
            Node::Tuple(l) => {
                let mut x = StructIr::builder("std", format!("Tuple{}", l.len()));
                for (i, t) in l.iter().enumerate() {
                    x = x.field(FieldIr::builder(i as u32, format!("field{i}"), true, lex(*t)).finish());
                }
                x.finish().into()
            }
            Node::Struct { schema, name, doc: d, fields, fb } => {
                let mut x = with!(StructIr::builder(schema, name), d);
                // Fallbacks do not have to come last.
                for (k, f) in permute(&(0..fields.len() + fb.is_some() as usize).collect::<Vec<_>>(), st.perm).into_iter().enumerate() {
                    let _ = k;
                    if f == fields.len() {
                        let (n, d) = fb.as_ref().unwrap();
                        x = x.fallback(with!(StructFallbackIr::builder(n), d).finish());
                    } else {
                        let f = &fields[f];
                        x = x.field(with!(FieldIr::builder(f.0, &f.1, f.2, lex(f.3)), &f.4).finish());
                    }
                }
                x.finish().into()
            }
            Node::Enum { schema, name, doc: d, variants, fb } => {
                let mut x = with!(EnumIr::builder(schema, name), d);
                for f in permute(&(0..variants.len() + fb.is_some() as usize).collect::<Vec<_>>(), st.perm) {
                    if f == variants.len() {
                        let (n, d) = fb.as_ref().unwrap();
                        x = x.fallback(with!(EnumFallbackIr::builder(n), d).finish());
                    } else {
                        let f = &variants[f];
                        let mut b = with!(VariantIr::builder(f.0, &f.1), &f.3);
                        if let Some(t) = f.2 {
                            b = b.variant_type(lex(t));
                        }
                        x = x.variant(b.finish());
                    }
                }
                x.finish().into()
            }
            Node::Newtype { schema, name, doc: d, target } => with!(NewtypeIr::builder(schema, name, lex(*target)), d).finish().into(),
            Node::Service { schema, name, doc: d, uuid, version, funcs, events, ffb, efb } => {
                let mut x = with!(ServiceIr::builder(schema, name, ServiceUuid(uuid::Uuid::from_u128(*uuid)), *version), d);
                let (nf, ne) = (funcs.len(), events.len());
                for f in permute(&(0..nf + ne + 2).collect::<Vec<_>>(), st.perm) {
                    if f < nf {
                        let f = &funcs[f];
                        let mut b = with!(FunctionIr::builder(f.0, &f.1), &f.3);
                        if let Some(t) = f.2[0] {
                            b = b.args(lex(t));
                        }
                        if let Some(t) = f.2[1] {
                            b = b.ok(lex(t));
                        }
                        if let Some(t) = f.2[2] {
                            b = b.err(lex(t));
                        }
                        x = x.function(b.finish());
                    } else if f < nf + ne {
                        let e = &events[f - nf];
                        let mut b = with!(EventIr::builder(e.0, &e.1), &e.3);
                        if let Some(t) = e.2 {
                            b = b.event_type(lex(t));
                        }
                        x = x.event(b.finish());
                    } else if f == nf + ne {
                        if let Some((n, d)) = ffb {
                            x = x.function_fallback(with!(FunctionFallbackIr::builder(n), d).finish());
                        }
                    } else if let Some((n, d)) = efb {
                        x = x.event_fallback(with!(EventFallbackIr::builder(n), d).finish());
                    }
                }
                x.finish().into()
            }
        };
        let mut refs = permute(&self.refs(i), st.refs);
        for _ in 1..st.times {
            refs.extend(refs.clone());
        }
        SlotDef { layout, lex: self.lex(i), refs }
    }

    /// Makes the slots those of this graph.
    pub fn install(&self, st: Style) {
        assert!(self.nodes.len() <= 256, "harness: {} nodes", self.nodes.len());
        let t = (0..self.nodes.len()).map(|i| self.build(i, st)).collect();
        TABLE.with(|x| *x.borrow_mut() = t);
    }
}

fn leaf(t: &Ty) -> (BuiltInTypeIr, LexicalId) {
    match t {
        Ty::Bool => (BuiltInTypeIr::Bool, LexicalId::BOOL),
        Ty::U8 => (BuiltInTypeIr::U8, LexicalId::U8),
        Ty::I8 => (BuiltInTypeIr::I8, LexicalId::I8),
        Ty::U16 => (BuiltInTypeIr::U16, LexicalId::U16),
        Ty::I16 => (BuiltInTypeIr::I16, LexicalId::I16),
        Ty::U32 => (BuiltInTypeIr::U32, LexicalId::U32),
        Ty::I32 => (BuiltInTypeIr::I32, LexicalId::I32),
        Ty::U64 => (BuiltInTypeIr::U64, LexicalId::U64),
        Ty::I64 => (BuiltInTypeIr::I64, LexicalId::I64),
        Ty::F32 => (BuiltInTypeIr::F32, LexicalId::F32),
        Ty::F64 => (BuiltInTypeIr::F64, LexicalId::F64),
        Ty::Str => (BuiltInTypeIr::String, LexicalId::STRING),
        Ty::Uuid => (BuiltInTypeIr::Uuid, LexicalId::UUID),
        Ty::ObjectId => (BuiltInTypeIr::ObjectId, LexicalId::OBJECT_ID),
        Ty::ServiceId => (BuiltInTypeIr::ServiceId, LexicalId::SERVICE_ID),
        Ty::Value => (BuiltInTypeIr::Value, LexicalId::VALUE),
        Ty::Bytes => (BuiltInTypeIr::Bytes, LexicalId::BYTES),
        Ty::Lifetime => (BuiltInTypeIr::Lifetime, LexicalId::LIFETIME),
        Ty::Unit => (BuiltInTypeIr::Unit, LexicalId::UNIT),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------------------------------------
// Judging
// ---------------------------------------------------------------------------------------------


/// Descriptions and ids seen so far, over the whole run: one has to determine the other.
pub struct Judge<'a> {
    ctx: &'a Ctx,
    by_canon: Vec<Mutex<HashMap<u128, TypeId>>>,
    by_id: Vec<Mutex<HashMap<TypeId, (u128, Box<str>)>>>,
    distinct: AtomicU64,
}

fn show(id: TypeId) -> String {
    id.0.to_string()
}

impl<'a> Judge<'a> {
    fn new(ctx: &'a Ctx) -> Self {
        Judge {
            ctx,
            by_canon: (0..256).map(|_| Mutex::default()).collect(),
            by_id: (0..256).map(|_| Mutex::default()).collect(),
            distinct: AtomicU64::new(0),
        }
    }

    fn fail(&self, part: &str, class: &str, what: String) {
        self.ctx.violation(&format!("C20/{class}/{part}"), &what, json!({"part": part}));
    }

    /// `id` was computed for the description.
    fn id(&self, part: &str, canon: &(u128, String), id: TypeId, how: impl std::fmt::Debug) {
        let (h, s) = canon;
        self.ctx.add_transitions(1);
        {
            let mut m = self.by_canon[(*h & 255) as usize].lock().unwrap();
            let first = *m.entry(*h).or_insert(id);
            if first != id {
                drop(m);
                self.fail(part, "differs", format!("the same description has the ids {} and {}, the latter written as {how:?}\n{s}", show(first), show(id)));
                return;
            }
        }
        let mut m = self.by_id[id.0.as_bytes()[15] as usize].lock().unwrap();
        match m.entry(id) {
            std::collections::hash_map::Entry::Vacant(e) => {
                e.insert((*h, s.as_str().into()));
                self.distinct.fetch_add(1, Ordering::Relaxed);
            }
            std::collections::hash_map::Entry::Occupied(e) => {
                let (h2, s2) = e.get().clone();
                if h2 != *h {
                    drop(m);
                    self.fail(part, "same", format!("two descriptions have the same id {}\nA: {s2}\nB: {s}", show(id)));
                }
            }
        }
    }

    /// Ids of the given nodes (or all) of a graph that is written down in some way.
    fn graph(&self, part: &str, g: &Graph, only: Option<usize>, styles: &[Style]) {
        let list: Vec<usize> = only.map_or_else(|| (0..g.nodes.len()).collect(), |i| vec![i]);
        let canons: Vec<_> = list.iter().map(|i| g.canon(*i)).collect();
        for st in styles {
            g.install(*st);
            for (i, c) in list.iter().zip(&canons) {
                match catch(|| TypeId::compute_from_dyn(slot(*i))) {
                    Ok(id) => self.id(part, c, id, st),
                    Err(p) => self.fail(part, "panic", format!("computing the id panicked: {p}\n{}", c.1)),
                }
            }
        }
        self.ctx.add_states(1);
    }

    /// The record of a node and whether what it says is what the graph says.
    fn record(&self, part: &str, g: &Graph, i: usize, ids: &[TypeId], ty: DynIntrospectable) -> Option<Introspection> {
        let what = |x: String| format!("{x}\n{}", g.canon(i).1);
        let r = match catch(|| Introspection::from_dyn(ty)) {
            Ok(r) => r,
            Err(p) => {
                self.fail(part, "panic", what(format!("making the record panicked: {p}")));
                return None;
            }
        };
        if r.type_id() != ids[i] {
            self.fail(part, "record-id", what(format!("the record has the id {} and not {}", show(r.type_id()), show(ids[i]))));
        }
        let refs: HashSet<TypeId> = g.refs(i).into_iter().map(|r| ids[r]).collect();
        if *r.references() != refs || r.iter_references().collect::<HashSet<_>>() != refs {
            self.fail(part, "record-references", what(format!("the references of the record are {:?}, expected {refs:?}", r.references())));
        }
        let ok = catch(|| same(g, i, ids, r.layout())).unwrap_or(false);
        if !ok {
            self.fail(part, "record-layout", what(format!("the record says {:#?}", r.layout())));
        }
        self.round_trip(part, &r);
        Some(r)
    }

    fn round_trip(&self, part: &str, r: &Introspection) {
        self.ctx.add_traces(1);
        let back = |b: &[u8]| slice(b).deserialize::<Introspection>();
        for v in [SerializedValue::serialize(r), SerializedValue::serialize(r.clone())] {
            let v = match v {
                Ok(v) => v,
                Err(e) => {
                    self.fail(part, "serialize", format!("serializing failed with {e:?}: {r:?}"));
                    return;
                }
            };
            if back(&v).as_ref() != Ok(r) {
                self.fail(part, "round-trip", format!("{r:#?}\ndeserializes as {:#?}", back(&v)));
                return;
            }
            // However it is encoded, as when it passed a peer with another version.
            match decode(&v, false) {
                Ok((rv, n)) if n == v.len() => {
                    for st in STYLES {
                        let b = encode(&rv, st);
                        if back(&b).as_ref() != Ok(r) {
                            self.fail(part, "round-trip", format!("{r:#?}\nencoded in style {st:?} deserializes as {:#?}", back(&b)));
                            return;
                        }
                    }
                }
                x => self.fail(part, "round-trip", format!("not a well-formed value ({x:?}): {r:?}")),
            }
        }
        // The other serialization.
        match serde_json::to_string(r).map(|j| (serde_json::from_str::<Introspection>(&j), j)) {
            Ok((Ok(x), _)) if x == *r => {}
            x => self.fail(part, "serde", format!("{r:#?}\nby serde: {x:?}")),
        }
    }

    /// Everything about a graph, with the records.
    fn full(&self, part: &str, g: &Graph, styles: &[Style]) {
        self.graph(part, g, None, styles);
        for st in [PLAIN, Style { perm: 3, refs: 2, times: 2, docs: 3 }] {
            g.install(st);
            let Ok(ids) = catch(|| (0..g.nodes.len()).map(|i| TypeId::compute_from_dyn(slot(i))).collect::<Vec<_>>()) else { return };
            for i in 0..g.nodes.len() {
                self.record(part, g, i, &ids, slot(i));
            }
        }
    }
}

/// Whether a layout is the resolved one of a node.
fn same(g: &Graph, i: usize, ids: &[TypeId], l: &Layout) -> bool {
    let o = |t: &Option<usize>| t.map(|t| ids[t]);
    let n = |f: &Fb| f.as_ref().map(|f| f.0.clone());
    match (&g.nodes[i], l) {
        (Node::Leaf(t), Layout::BuiltIn(b)) => format!("{:?}", leaf(t).0) == format!("{b:?}"),
        (Node::Wrap(w, t), Layout::BuiltIn(b)) => {
            let t = ids[*t];
            *b == match w {
                0 => BuiltInType::Option(t),
                1 => BuiltInType::Box(t),
                2 => BuiltInType::Vec(t),
                3 => BuiltInType::Set(t),
                4 => BuiltInType::Sender(t),
                _ => BuiltInType::Receiver(t),
            }
        }
        (Node::Map(a, b), Layout::BuiltIn(BuiltInType::Map(m))) => m.key() == ids[*a] && m.value() == ids[*b],
        (Node::Result(a, b), Layout::BuiltIn(BuiltInType::Result(m))) => m.ok() == ids[*a] && m.err() == ids[*b],
        (Node::Array(t, n), Layout::BuiltIn(BuiltInType::Array(a))) => a.elem_type() == ids[*t] && a.len() == *n,
        (Node::Tuple(l), Layout::Struct(s)) => {
            s.schema() == "std"
                && s.name() == format!("Tuple{}", l.len())
                && s.fallback().is_none()
                && s.fields().len() == l.len()
                && l.iter().enumerate().all(|(i, t)| s.fields().get(&(i as u32)).is_some_and(|f| f.field_type() == ids[*t] && f.is_required() && f.id() == i as u32))
        }
        (Node::Struct { schema, name, fields, fb, .. }, Layout::Struct(s)) => {
            s.schema() == schema
                && s.name() == name
                && s.fallback().map(|f| f.name().to_string()) == n(fb)
                && s.fields().len() == fields.len()
                && fields.iter().all(|f| {
                    s.fields().get(&f.0).is_some_and(|x| x.id() == f.0 && x.name() == f.1 && x.is_required() == f.2 && x.field_type() == ids[f.3])
                })
        }
        (Node::Enum { schema, name, variants, fb, .. }, Layout::Enum(s)) => {
            s.schema() == schema
                && s.name() == name
                && s.fallback().map(|f| f.name().to_string()) == n(fb)
                && s.variants().len() == variants.len()
                && variants.iter().all(|f| s.variants().get(&f.0).is_some_and(|x| x.id() == f.0 && x.name() == f.1 && x.variant_type() == o(&f.2)))
        }
        (Node::Newtype { schema, name, target, .. }, Layout::Newtype(s)) => s.schema() == schema && s.name() == name && s.target_type() == ids[*target],
        (Node::Service { schema, name, uuid, version, funcs, events, ffb, efb, .. }, Layout::Service(s)) => {
            s.schema() == schema
                && s.name() == name
                && s.uuid().0.as_u128() == *uuid
                && s.version() == *version
                && s.function_fallback().map(|f| f.name().to_string()) == n(ffb)
                && s.event_fallback().map(|f| f.name().to_string()) == n(efb)
                && s.functions().len() == funcs.len()
                && s.events().len() == events.len()
                && funcs.iter().all(|f| {
                    s.functions().get(&f.0).is_some_and(|x| x.id() == f.0 && x.name() == f.1 && x.args() == o(&f.2[0]) && x.ok() == o(&f.2[1]) && x.err() == o(&f.2[2]))
                })
                && events.iter().all(|f| s.events().get(&f.0).is_some_and(|x| x.id() == f.0 && x.name() == f.1 && x.event_type() == o(&f.2)))
        }
        _ => false,
    }
}

mod parts;
pub use parts::run;
