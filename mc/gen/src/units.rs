//! The corpus: every schema the checks generate code for.

use crate::hand::{self, CORE, IMPLICIT, OTHER, TUPLE};
use crate::schema::*;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Opts {
    pub client: bool,
    pub server: bool,
    pub introspection: bool,
    pub intro_if: Option<&'static str>,
    pub krate: bool,
}

pub const FULL: Opts = Opts { client: true, server: true, introspection: true, intro_if: None, krate: false };

#[derive(Debug, Clone)]
pub struct Unit {
    pub name: String,
    pub world: World,
    /// Source texts by schema name, if not those of the world.
    pub text: Option<Vec<(String, String)>>,
    pub opts: Opts,
    /// Values go through it (otherwise it is only compiled).
    pub glue: bool,
    /// Names that might collide with something; compiled apart from everything else.
    pub odd: bool,
    /// Written by hand, in this style.
    pub hand: Option<u8>,
}

pub fn f(id: u32, name: &str, required: bool, ty: Ty) -> Field {
    Field { id, name: name.into(), required, ty, doc: Doc::default() }
}
pub fn v(id: u32, name: &str, ty: Option<Ty>) -> Variant {
    Variant { id, name: name.into(), ty, doc: Doc::default() }
}
pub fn fb(name: &str) -> Fallback {
    Some((name.into(), Doc::default()))
}
pub fn def(name: &str, body: Body) -> Item {
    Item::Def(Def { name: name.into(), doc: Doc::default(), attrs: vec![], body })
}
pub fn func(id: u32, name: &str, args: Option<Part>, ok: Option<Part>, err: Option<Part>) -> Func {
    Func { id, name: name.into(), doc: Doc::default(), args, ok, err }
}
pub fn ev(id: u32, name: &str, ty: Option<Part>) -> Ev {
    Ev { id, name: name.into(), doc: Doc::default(), ty }
}
pub fn service(name: &str, n: u32, funcs: Vec<Func>, events: Vec<Ev>) -> Service {
    Service {
        name: name.into(),
        doc: Doc::default(),
        uuid: format!("00000000-0000-4000-8000-{n:012x}"),
        version: n % 3,
        funcs,
        events,
        fn_fallback: None,
        ev_fallback: None,
        events_first: false,
    }
}

/// Definitions to refer to.
pub fn targets() -> Vec<Item> {
    vec![
        def("RS", Body::Struct(vec![f(0, "a", true, Ty::U8), f(7, "b", false, Ty::Str)], None)),
        def("RD", Body::Struct(vec![f(0, "a", false, Ty::Str)], fb("rest"))),
        def("RE", Body::Enum(vec![v(0, "A", None), v(1, "B", Some(Ty::U16))], fb("Other"))),
        def("RX", Body::Enum(vec![v(3, "A", None), v(1, "B", Some(Ty::Str))], None)),
        def("RN", Body::Newtype(Ty::U32)),
        def("RK", Body::Newtype(Ty::Str)),
        def("RV", Body::Newtype(vec_(Ty::Str))),
        def("RNN", Body::Newtype(refr("RN"))),
        def("RND", Body::Newtype(refr("RD"))),
        Item::Const("C2".into(), "u8".into(), "2".into()),
        Item::Const("C3".into(), "i64".into(), "3".into()),
    ]
}

fn wrap1(t: &Ty) -> Vec<Ty> {
    vec![
        opt(t.clone()),
        Ty::Box(b(t.clone())),
        vec_(t.clone()),
        Ty::Sender(b(t.clone())),
        Ty::Receiver(b(t.clone())),
        Ty::Array(b(t.clone()), 2),
    ]
}

fn wrap2(t: &Ty) -> Vec<Ty> {
    let mut w = wrap1(t);
    w.push(Ty::Map(b(Ty::Str), b(t.clone())));
    w.push(Ty::Map(b(Ty::U8), b(t.clone())));
    w.push(Ty::Result(b(t.clone()), b(Ty::Unit)));
    w.push(Ty::Result(b(Ty::I64), b(t.clone())));
    w
}

/// Every type the field-by-field family covers, and whether it needs the second schema.
pub fn types(thorough: bool) -> Vec<Ty> {
    let mut o: Vec<Ty> = LEAVES.to_vec();
    for t in &LEAVES {
        o.extend(wrap1(t));
        o.push(Ty::Map(b(Ty::Str), b(t.clone())));
        o.push(Ty::Result(b(t.clone()), b(Ty::U8)));
        o.push(Ty::Result(b(Ty::Str), b(t.clone())));
    }
    for k in &KEYS {
        o.push(Ty::Set(b(k.clone())));
        o.push(Ty::Map(b(k.clone()), b(Ty::U8)));
    }
    let inner_leaves: &[Ty] = if thorough { &[Ty::U8, Ty::Str, Ty::Value, Ty::Unit] } else { &[Ty::U8, Ty::Value] };
    for t in inner_leaves {
        let mut ins = wrap2(t);
        ins.push(Ty::Set(b(Ty::Uuid)));
        for i in ins {
            o.extend(wrap2(&i));
        }
    }
    o.push(opt(opt(opt(Ty::U8))));
    o.push(vec_(vec_(vec_(Ty::U8))));
    o.push(opt(vec_(opt(Ty::Unit))));
    o.push(Ty::Map(b(Ty::I16), b(Ty::Map(b(Ty::Uuid), b(vec_(opt(refr("RS"))))))));
    o.push(Ty::Result(b(Ty::Result(b(Ty::Unit), b(Ty::U8))), b(Ty::Result(b(refr("RE")), b(opt(Ty::Str))))));
    o.push(Ty::Array(b(Ty::Array(b(Ty::Array(b(Ty::U8), 2)), 3)), 1));
    for n in [1, 3, 32, 33, 255] {
        o.push(Ty::Array(b(Ty::U8), n));
    }
    o.push(Ty::ArrayC(b(Ty::U8), "C2".into(), 2));
    o.push(Ty::ArrayC(b(refr("RE")), "C3".into(), 3));
    o.push(Ty::ArrayC(b(Ty::Str), "e::C2".into(), 2));
    o.push(Ty::ArrayC(b(Ty::Str), "e::C3".into(), 3));
    for s in [None, Some("e".to_string())] {
        for n in ["RS", "RD", "RE", "RX", "RN", "RK", "RV", "RNN", "RND"] {
            let r = Ty::Ref(s.clone(), n.into());
            o.extend(wrap2(&r));
            o.push(r);
        }
        for n in ["RN", "RK", "RNN"] {
            let r = Ty::Ref(s.clone(), n.into());
            o.push(Ty::Set(b(r.clone())));
            o.push(Ty::Map(b(r.clone()), b(Ty::Ref(s.clone(), "RS".into()))));
        }
    }
    o.dedup();
    o
}

fn mentions(t: &Ty, ext: &mut bool, loc: &mut bool) {
    match t {
        Ty::Ref(Some(_), _) => *ext = true,
        Ty::Ref(None, _) => *loc = true,
        Ty::ArrayC(_, n, _) if n.contains("::") => *ext = true,
        Ty::ArrayC(..) => *loc = true,
        _ => {}
    }
    match t {
        Ty::Opt(t) | Ty::Box(t) | Ty::Vec(t) | Ty::Set(t) | Ty::Sender(t) | Ty::Receiver(t) | Ty::Array(t, _) | Ty::ArrayC(t, _, _) => {
            mentions(t, ext, loc)
        }
        Ty::Map(a, b) | Ty::Result(a, b) => {
            mentions(a, ext, loc);
            mentions(b, ext, loc);
        }
        _ => {}
    }
}

fn world(items: Vec<Item>, ext: bool) -> World {
    let mut m = Schema::new("m");
    m.items = items;
    let mut w = vec![m];
    if ext {
        w[0].imports.push("e".into());
        let mut e = Schema::new("e");
        e.items = targets();
        w.push(e);
    }
    World(w)
}

fn unit(name: String, world: World) -> Unit {
    Unit { name, world, text: None, opts: FULL, glue: true, odd: false, hand: None }
}

/// A: every type as a required field, an optional field, a variant and a newtype.
fn family_a(out: &mut Vec<Unit>, thorough: bool) {
    for (i, t) in types(thorough).into_iter().enumerate() {
        let (mut ext, mut loc) = (false, false);
        mentions(&t, &mut ext, &mut loc);
        let sfb = if i % 2 == 0 { fb("unknown") } else { None };
        let efb = if i % 2 == 1 { fb("Unknown") } else { None };
        let mut items = vec![
            def("S", Body::Struct(vec![f(0, "a", true, t.clone()), f(1, "b", false, t.clone())], sfb)),
            def("E", Body::Enum(vec![v(0, "A", Some(t.clone())), v(1, "B", None)], efb)),
            def("N", Body::Newtype(t.clone())),
        ];
        if loc {
            items.extend(targets());
        }
        out.push(unit(format!("a{i}"), world(items, ext)));
    }
}

fn perms(ids: &[u32]) -> Vec<Vec<u32>> {
    if ids.len() <= 1 {
        return vec![ids.to_vec()];
    }
    let mut o = vec![];
    for i in 0..ids.len() {
        let mut r = ids.to_vec();
        let x = r.remove(i);
        for mut p in perms(&r) {
            p.insert(0, x);
            o.push(p);
        }
    }
    o
}

/// B: every small shape of structs and enums; the types differ by position so that a mix-up shows.
pub fn shapes(thorough: bool) -> (Vec<Body>, Vec<Body>) {
    let idsets: Vec<Vec<u32>> = if thorough {
        let mut v = vec![vec![]];
        for i in [0, 1, 2, 251, 252, u32::MAX] {
            v.push(vec![i]);
        }
        for s in [[0, 1], [1, 2], [0, u32::MAX], [300, 70000]] {
            v.extend(perms(&s));
        }
        for s in [[0, 1, 2], [0, 5, u32::MAX]] {
            v.extend(perms(&s));
        }
        v
    } else {
        let mut v = vec![vec![], vec![0], vec![1], vec![252], vec![u32::MAX]];
        v.extend(perms(&[0, 1]));
        v.extend([vec![u32::MAX, 1], vec![0, 1, 2], vec![2, 0, 1], vec![u32::MAX, 300, 0]]);
        v
    };
    let tys = [Ty::U8, Ty::Str, opt(Ty::U16)];
    let names = ["a", "b", "c"];
    let vnames = ["A", "B", "C"];
    let mut s = vec![];
    let mut e = vec![];
    for ids in &idsets {
        for fbk in [false, true] {
            for bits in 0..1u32 << ids.len() {
                let fs = ids.iter().enumerate().map(|(i, id)| f(*id, names[i], bits >> i & 1 == 1, tys[i].clone())).collect();
                s.push(Body::Struct(fs, if fbk { fb("rest") } else { None }));
                let vs: Vec<_> = ids
                    .iter()
                    .enumerate()
                    .map(|(i, id)| v(*id, vnames[i], (bits >> i & 1 == 1).then(|| tys[i].clone())))
                    .collect();
                if !vs.is_empty() || fbk {
                    e.push(Body::Enum(vs, if fbk { fb("Rest") } else { None }));
                }
            }
        }
    }
    (s, e)
}

fn family_b(out: &mut Vec<Unit>, thorough: bool) {
    let (s, e) = shapes(thorough);
    for (p, l) in [("bs", s), ("be", e)] {
        for (i, c) in l.chunks(8).enumerate() {
            let items = c.iter().enumerate().map(|(j, b)| def(&format!("T{}", i * 8 + j), b.clone())).collect();
            out.push(unit(format!("{p}{i}"), world(items, false)));
        }
    }
    // Recursion.
    let rec = vec![
        def("L", Body::Struct(vec![f(0, "next", false, Ty::Box(b(refr("L")))), f(1, "v", true, Ty::U8)], fb("rest"))),
        def("T", Body::Enum(vec![v(0, "Leaf", Some(Ty::U8)), v(1, "Node", Some(vec_(refr("T"))))], fb("Rest"))),
        def("A", Body::Struct(vec![f(0, "b", true, opt(Ty::Box(b(refr("B")))))], None)),
        def("B", Body::Enum(vec![v(0, "None", None), v(1, "A", Some(Ty::Box(b(refr("A")))))], None)),
        def("V", Body::Struct(vec![f(0, "v", true, vec_(refr("V")))], None)),
        def("M", Body::Struct(vec![f(3, "m", false, Ty::Map(b(Ty::U8), b(refr("M"))))], None)),
        def("R", Body::Struct(vec![f(0, "r", true, Ty::Result(b(Ty::Unit), b(Ty::Box(b(refr("R"))))))], None)),
        def("C", Body::Struct(vec![f(0, "s", true, Ty::Sender(b(refr("C")))), f(1, "r", false, Ty::Receiver(b(refr("C"))))], None)),
    ];
    out.push(unit("brec".into(), world(rec, false)));
    for (i, t) in [vec_(refr("N")), opt(Ty::Box(b(refr("N")))), Ty::Map(b(Ty::U8), b(refr("N"))), Ty::Sender(b(refr("N")))].into_iter().enumerate() {
        let mut u = unit(format!("brecn{i}"), world(vec![def("N", Body::Newtype(t))], false));
        u.odd = true;
        u.glue = false;
        out.push(u);
    }
    // Nested.
    let nest = vec![
        def("I", Body::Struct(vec![f(0, "a", true, Ty::U8)], None)),
        def("If", Body::Struct(vec![f(0, "a", false, Ty::U8)], fb("rest"))),
        def("E", Body::Enum(vec![v(0, "A", Some(refr("I"))), v(1, "B", Some(refr("If")))], None)),
        def("Ef", Body::Enum(vec![v(0, "A", Some(refr("I"))), v(1, "B", Some(refr("If")))], fb("Rest"))),
        def("O", Body::Struct(vec![f(0, "i", true, refr("I")), f(1, "j", false, refr("If")), f(2, "e", true, refr("E")), f(3, "f", false, refr("Ef"))], fb("rest"))),
        def("P", Body::Struct(vec![f(0, "i", false, refr("If")), f(1, "l", true, vec_(refr("Ef")))], None)),
        def("Q", Body::Struct(vec![f(0, "m", true, Ty::Map(b(Ty::Str), b(refr("If")))), f(1, "r", false, Ty::Result(b(refr("Ef")), b(refr("I"))))], None)),
    ];
    out.push(unit("bnest".into(), world(nest, false)));
    // Other case styles and digits.
    let names = vec![
        def("lower", Body::Struct(vec![f(0, "CamelField", true, Ty::U8), f(1, "UPPER", false, Ty::Str), f(2, "_x", true, Ty::Bool), f(3, "x1", false, Ty::Bool), f(4, "a__b", true, Ty::U16)], fb("Rest"))),
        def("UPPER_CASE", Body::Enum(vec![v(0, "lower", None), v(1, "UPPER", Some(Ty::U8)), v(2, "Mixed_Case", Some(Ty::Str)), v(3, "X1", None), v(4, "_Y", None)], fb("rest"))),
        def("_lead", Body::Newtype(Ty::U8)),
        def("A1B2", Body::Newtype(refr("_lead"))),
    ];
    out.push(unit("bnames".into(), world(names, false)));
}

/// D: the same in every order, with and without documentation.
fn family_d(out: &mut Vec<Unit>) {
    for (k, p) in perms(&[0, 1, 2]).into_iter().enumerate() {
        for docs in 0..3 {
            let mut n = 0;
            let mut doc = || {
                n += 1;
                Doc(match docs {
                    0 => vec![],
                    1 => vec!["Documentation.".into()],
                    _ => vec![format!("Item {n} \"quoted\" \\\\"), String::new(), "struct S {".into()],
                })
            };
            let pick = |l: [usize; 3]| p.iter().map(|i| l[*i as usize]).collect::<Vec<_>>();
            let order = pick([0, 1, 2]);
            let tys = [Ty::U8, refr("E"), opt(refr("N"))];
            let mut fs: Vec<Field> = order.iter().map(|i| f(*i as u32 * 100, ["a", "b", "c"][*i], *i != 1, tys[*i].clone())).collect();
            fs.iter_mut().for_each(|x| x.doc = doc());
            let mut vs: Vec<Variant> = order.iter().map(|i| v(*i as u32 * 100, ["A", "B", "C"][*i], [None, Some(Ty::Box(b(refr("S")))), Some(Ty::Str)][*i].clone())).collect();
            vs.iter_mut().for_each(|x| x.doc = doc());
            let part = |fs: &[Field]| Some(Part::Inline(Body::Struct(fs.to_vec(), None)));
            let mut funcs: Vec<Func> = order
                .iter()
                .map(|i| {
                    let t = |t: Ty| Some(Part::Ty(t));
                    match i {
                        0 => func(0, "fa", t(refr("S")), None, t(refr("N"))),
                        1 => func(1, "fb", part(&fs), t(refr("E")), None),
                        _ => func(7, "fc", None, part(&fs), None),
                    }
                })
                .collect();
            funcs.iter_mut().for_each(|x| x.doc = doc());
            let mut evs: Vec<Ev> = order.iter().map(|i| ev(*i as u32, ["ea", "eb", "ec"][*i], [None, Some(Part::Ty(refr("S"))), part(&fs)][*i].clone())).collect();
            evs.iter_mut().for_each(|x| x.doc = doc());
            let mut s = service("Svc", 1, funcs, evs);
            s.doc = doc();
            s.events_first = k % 2 == 1;
            s.fn_fallback = Some(("any_fn".into(), doc()));
            s.ev_fallback = Some(("any_ev".into(), doc()));
            let mut items = vec![
                Item::Def(Def { name: "S".into(), doc: doc(), attrs: vec![], body: Body::Struct(fs, Some(("rest".into(), doc()))) }),
                Item::Def(Def { name: "E".into(), doc: doc(), attrs: vec![], body: Body::Enum(vs, Some(("Rest".into(), doc()))) }),
                Item::Def(Def { name: "N".into(), doc: doc(), attrs: vec![], body: Body::Newtype(vec_(refr("E"))) }),
                Item::Service(s),
            ];
            if k % 2 == 0 {
                items.reverse();
            }
            let mut w = world(items, false);
            w.0[0].doc = doc();
            out.push(unit(format!("d{k}_{docs}"), w));
        }
    }
}

/// Identifiers that are reserved in Rust.
pub const KEYWORDS: &[&str] = &[
    "as", "async", "await", "break", "const", "continue", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
    "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true", "type", "unsafe", "use",
    "where", "while", "abstract", "become", "box", "do", "final", "gen", "macro", "override", "priv", "try", "typeof", "unsized",
    "virtual", "yield", "union", "auto", "raw", "safe", "default", "macro_rules",
];

/// Words of the schema language.
pub const SCHEMA_WORDS: &[&str] = &[
    "import", "service", "uuid", "version", "args", "ok", "err", "event", "required", "fallback", "newtype", "option", "vec", "map",
    "set", "sender", "receiver", "lifetime", "unit", "result", "value", "bytes", "string", "object_id", "service_id", "bool", "u8", "i64",
    "f32",
];

/// Names the generated code uses itself.
pub const USED: &[&str] = &[
    "_deserializer", "deserializer", "serializer", "_serializer", "_fallback", "fallback", "handler", "call", "ev", "inner", "client",
    "id", "new", "timestamp", "abort", "is_aborted", "aborted", "poll_aborted", "type_id", "introspection", "query_introspection",
    "subscribe_all", "unsubscribe_all", "next_event", "poll_next_event", "dispatch_event", "next_call", "poll_next_call",
    "dispatch_call", "destroy", "inner_mut", "into_inner", "invalid_call", "invalid_event", "object", "info", "references", "types",
    "layout", "lexical_id", "cx", "promise", "e", "f", "x", "client_val", "_field0", "_Field0", "this", "tmp",
    "Ok", "Err", "Some", "None", "Option", "Result", "String", "Vec", "Box", "Copy", "Clone", "Debug", "Default", "Error", "T", "E", "K", "V", "Type",
    "Item", "Tag", "Serialize", "Deserialize", "Introspectable", "RefType", "PrimaryTag", "KeyTag", "UUID", "VERSION", "std", "core",
    "aldrin", "aldrin_core", "alloc", "str", "usize", "drop", "vec_val", "Send", "Sized", "Future", "Iterator", "Fn",
];

/// Names that cannot even be raw identifiers.
pub const NOT_RAW: &[&str] = &["self", "Self", "super", "crate"];

/// Groups of positions a name can be in; each one is a set of items that do not clash on their own.
pub const POSITIONS: usize = 9;

pub fn position(p: usize, n: &str) -> World {
    let u = |n: &str| Some(Part::Inline(Body::Struct(vec![f(0, n, true, Ty::U8), f(1, "zz", false, Ty::Str)], None)));
    match p {
        0 => world(
            vec![
                def("S", Body::Struct(vec![f(0, n, true, Ty::U8), f(1, "zz", true, Ty::Str)], None)),
                def("O", Body::Struct(vec![f(0, n, false, Ty::U8), f(1, "zz", true, Ty::Str)], fb("rest"))),
                def("F", Body::Struct(vec![f(0, "zz", true, Ty::U8)], fb(n))),
            ],
            false,
        ),
        1 => world(
            vec![
                def("E", Body::Enum(vec![v(0, n, None), v(1, "Zz", Some(Ty::Str))], None)),
                def("G", Body::Enum(vec![v(0, n, Some(Ty::U8)), v(1, "Zz", Some(Ty::Str))], fb("Rest"))),
                def("F", Body::Enum(vec![v(0, "Zz", Some(Ty::U8))], fb(n))),
            ],
            false,
        ),
        2 => world(
            vec![
                def(n, Body::Struct(vec![f(0, "a", true, Ty::U8)], fb("rest"))),
                def("Zz", Body::Struct(vec![f(0, "a", true, refr(n)), f(1, "b", false, vec_(opt(refr(n))))], None)),
                def("Ze", Body::Enum(vec![v(0, "A", Some(refr(n)))], None)),
                Item::Service(service("Zs", 1, vec![func(0, "fa", Some(Part::Ty(refr(n))), Some(Part::Ty(Ty::U8)), Some(Part::Ty(refr(n))))], vec![ev(0, "ea", Some(Part::Ty(refr(n))))])),
            ],
            false,
        ),
        3 => world(
            vec![
                def(n, Body::Enum(vec![v(0, "A", None)], fb("Rest"))),
                def("Zz", Body::Struct(vec![f(0, "a", true, refr(n)), f(1, "b", false, vec_(opt(refr(n))))], None)),
            ],
            false,
        ),
        4 => world(
            vec![
                def(n, Body::Newtype(Ty::U32)),
                def("Zz", Body::Struct(vec![f(0, "a", true, refr(n)), f(1, "b", false, Ty::Set(b(refr(n))))], fb("rest"))),
                def("Ze", Body::Enum(vec![v(0, "A", Some(refr(n))), v(1, "B", None)], fb("Rest"))),
                Item::Service(service("Zs", 1, vec![func(0, "fa", Some(Part::Ty(refr(n))), None, Some(Part::Ty(refr(n))))], vec![ev(0, "ea", Some(Part::Ty(refr(n))))])),
            ],
            false,
        ),
        5 => world(
            vec![
                Item::Const(n.into(), "u8".into(), "2".into()),
                def("Zz", Body::Struct(vec![f(0, "a", true, Ty::ArrayC(b(Ty::U8), n.into(), 2)), f(1, "b", false, Ty::Bool)], fb("rest"))),
                def("Ze", Body::Enum(vec![v(0, "A", Some(Ty::U8)), v(1, "B", None)], fb("Rest"))),
                Item::Service(service("Zs", 1, vec![func(0, "fa", None, None, None)], vec![ev(0, "ea", None)])),
            ],
            false,
        ),
        6 => world(
            vec![
                Item::Service(service(n, 1, vec![func(0, "fa", u("a"), u("b"), u("c"))], vec![ev(0, "ea", u("d"))])),
            ],
            false,
        ),
        7 => {
            let mut s = service("Zs", 1, vec![func(0, n, u("a"), u("b"), u("c")), func(1, "zz", None, None, None)], vec![]);
            s.ev_fallback = fb("zy");
            let mut t = service("Zt", 2, vec![], vec![ev(0, n, u("a")), ev(1, "zz", None)]);
            t.fn_fallback = fb("zy");
            let p = service("Zp", 3, vec![func(0, n, None, Some(Part::Ty(Ty::U8)), None)], vec![]);
            let q = service("Zq", 4, vec![], vec![ev(0, n, None)]);
            world(vec![Item::Service(s), Item::Service(t), Item::Service(p), Item::Service(q)], false)
        }
        _ => {
            let mut s = service("Zs", 1, vec![func(0, "zz", None, None, None)], vec![]);
            s.fn_fallback = fb(n);
            let mut t = service("Zt", 2, vec![], vec![ev(0, "zz", None)]);
            t.ev_fallback = fb(n);
            world(vec![Item::Service(s), Item::Service(t)], false)
        }
    }
}

/// The name as that of the schema itself and of an imported one.
fn schema_named(n: &str) -> Vec<World> {
    let mut a = World(vec![Schema::new(n)]);
    a.0[0].items = vec![
        def("S", Body::Struct(vec![f(0, "a", true, Ty::U8)], None)),
        Item::Service(service("Zs", 1, vec![func(0, "fa", None, None, None)], vec![])),
    ];
    let mut e = World(vec![Schema::new("m"), Schema::new(n)]);
    e.0[0].imports.push(n.into());
    e.0[0].items = vec![def("S", Body::Struct(vec![f(0, "a", true, Ty::Ref(Some(n.into()), "T".into()))], None))];
    e.0[1].items = vec![def("T", Body::Struct(vec![f(0, "a", true, Ty::U8)], None))];
    vec![a, e]
}

pub fn has_lower_start(n: &str) -> bool {
    n.chars().next().unwrap().is_ascii_lowercase()
}

fn family_c(out: &mut Vec<Unit>) {
    let mut seen = std::collections::BTreeSet::new();
    let mut add = |name: String, w: World, odd: bool| {
        if !seen.insert(name.clone()) {
            return;
        }
        let mut u = unit(name, w);
        u.glue = false;
        u.odd = odd;
        out.push(u);
    };
    for (list, odd) in [(KEYWORDS, false), (SCHEMA_WORDS, false), (USED, true), (NOT_RAW, true), (&["_", "__"][..], true)] {
        for n in list {
            for p in 0..POSITIONS {
                add(format!("c{p}_{n}"), position(p, n), odd);
            }
            for (i, w) in schema_named(n).into_iter().enumerate() {
                add(format!("c{}_{n}", ["s", "i"][i]), w, odd);
            }
        }
    }
}

/// E: services.
pub fn services() -> Vec<Service> {
    let s = |t: &[Ty]| {
        let names = ["a", "b", "c"];
        Some(Part::Inline(Body::Struct(t.iter().enumerate().map(|(i, t)| f(i as u32, names[i], i % 2 == 0, t.clone())).collect(), None)))
    };
    let e = |t: &[Ty], fbk: bool| {
        let names = ["A", "B", "C"];
        let mut vs: Vec<_> = t.iter().enumerate().map(|(i, t)| v(i as u32 + 1, names[i], Some(t.clone()))).collect();
        vs.push(v(0, "U", None));
        Some(Part::Inline(Body::Enum(vs, if fbk { fb("Rest") } else { None })))
    };
    let t = |t: Ty| Some(Part::Ty(t));
    // Every combination of args, ok and err being there.
    let combos = |f: &dyn Fn(usize) -> Option<Part>| {
        (0..8u32)
            .map(|m| {
                let p = |i: usize| if m >> i & 1 == 1 { f(i) } else { None };
                func(m, &format!("f{m}"), p(0), p(1), p(2))
            })
            .collect::<Vec<_>>()
    };
    let plain = combos(&|i| t([Ty::U8, Ty::Str, opt(Ty::Bool)][i].clone()));
    let refs = combos(&|i| t([refr("RS"), refr("RE"), refr("RN")][i].clone()));
    let inline = combos(&|i| match i {
        0 => s(&[Ty::U8, Ty::Str]),
        1 => e(&[Ty::U8], true),
        _ => e(&[Ty::Str, Ty::U16], false),
    });
    let inline2 = combos(&|i| match i {
        0 => e(&[Ty::Str, Ty::Value], true),
        1 => s(&[vec_(Ty::U8), Ty::Value, Ty::Unit]),
        _ => s(&[]),
    });
    let events = vec![
        ev(0, "e0", None),
        ev(1, "e1", t(Ty::Str)),
        ev(300, "e2", t(refr("RD"))),
        ev(u32::MAX, "e3", s(&[Ty::U8, Ty::U16])),
        ev(7, "e4", e(&[Ty::U8], false)),
        ev(3, "e5", t(Ty::Unit)),
        ev(8, "e6", t(opt(refr("RX")))),
    ];
    let mut out = vec![];
    let mut n = 1;
    for (i, fs) in [plain, refs, inline, inline2].into_iter().enumerate() {
        for (ffb, efb) in [(false, false), (true, true), (true, false), (false, true)] {
            let k = out.len();
            let mut x = service(&format!("Svc{k}"), n, fs.clone(), events.clone());
            if i == 1 {
                // Other ids.
                for (j, f) in x.funcs.iter_mut().enumerate() {
                    f.id = [7, u32::MAX, 300, 0, 252, 1, 70000, 2][j];
                }
            }
            if i == 2 {
                x.events.reverse();
                x.events_first = true;
            }
            if ffb {
                x.fn_fallback = fb("any_call");
            }
            if efb {
                x.ev_fallback = fb("any_event");
            }
            n += 1;
            out.push(x);
        }
    }
    // Every leaf type.
    let leaves = LEAVES.iter().enumerate().map(|(i, l)| func(i as u32, &format!("l{i}"), t(l.clone()), t(l.clone()), t(l.clone()))).collect();
    let evs = LEAVES.iter().enumerate().map(|(i, l)| ev(i as u32, &format!("v{i}"), t(l.clone()))).collect();
    out.push(service("Leaves", 100, leaves, evs));
    let more = [
        Ty::Box(b(Ty::U8)),
        vec_(Ty::Str),
        Ty::Set(b(Ty::U8)),
        Ty::Sender(b(Ty::Str)),
        Ty::Receiver(b(Ty::Str)),
        Ty::Map(b(Ty::U8), b(Ty::Str)),
        Ty::Result(b(Ty::U8), b(Ty::Str)),
        Ty::Array(b(Ty::U8), 2),
        opt(opt(Ty::U8)),
    ];
    let fs = more.iter().enumerate().map(|(i, l)| func(i as u32, &format!("l{i}"), t(l.clone()), t(l.clone()), t(l.clone()))).collect();
    let evs = more.iter().enumerate().map(|(i, l)| ev(i as u32, &format!("v{i}"), t(l.clone()))).collect();
    out.push(service("More", 101, fs, evs));
    let mut empty = service("Empty", 102, vec![], vec![]);
    out.push(empty.clone());
    empty.name = "EmptyF".into();
    empty.uuid = "00000000-0000-4000-8000-ffffffffffff".into();
    empty.fn_fallback = fb("x");
    empty.ev_fallback = fb("y");
    empty.version = u32::MAX;
    out.push(empty);
    out
}

fn family_e(out: &mut Vec<Unit>) {
    for (i, s) in services().into_iter().enumerate() {
        let mut items = vec![Item::Service(s)];
        items.extend(targets());
        out.push(unit(format!("e{i}"), world(items, false)));
    }
}

fn doc_of(l: &[&str]) -> Doc {
    Doc(l.iter().map(|s| s.to_string()).collect())
}

/// Every item with the given documentation.
fn documented(d: &[&str]) -> World {
    let d = doc_of(d);
    let mut s = service(
        "Svc",
        1,
        vec![
            Func { doc: d.clone(), ..func(0, "fa", Some(Part::Inline(Body::Struct(vec![Field { doc: d.clone(), ..f(0, "x", true, Ty::U8) }], Some(("r".into(), d.clone()))))), None, None) },
            func(1, "fb", None, Some(Part::Inline(Body::Enum(vec![Variant { doc: d.clone(), ..v(0, "X", None) }], Some(("R".into(), d.clone()))))), None),
        ],
        vec![Ev { doc: d.clone(), ..ev(0, "ea", Some(Part::Ty(refr("S")))) }],
    );
    s.doc = d.clone();
    s.fn_fallback = Some(("ff".into(), d.clone()));
    s.ev_fallback = Some(("ef".into(), d.clone()));
    let with = |i: Item| match i {
        Item::Def(mut x) => {
            x.doc = d.clone();
            Item::Def(x)
        }
        x => x,
    };
    let mut w = world(
        vec![
            with(def("S", Body::Struct(vec![Field { doc: d.clone(), ..f(0, "a", true, Ty::U8) }, Field { doc: d.clone(), ..f(1, "b", false, Ty::U8) }], Some(("rest".into(), d.clone()))))),
            with(def("E", Body::Enum(vec![Variant { doc: d.clone(), ..v(0, "A", None) }, Variant { doc: d.clone(), ..v(1, "B", Some(Ty::U8)) }], Some(("Rest".into(), d.clone()))))),
            with(def("N", Body::Newtype(Ty::U8))),
            Item::Const("C".into(), "u8".into(), "1".into()),
            Item::Service(s),
        ],
        true,
    );
    w.0[0].doc = d.clone();
    w
}

fn family_f(out: &mut Vec<Unit>) {
    let mut add = |name: String, w: World, opts: Opts, odd: bool| {
        out.push(Unit { name, world: w, text: None, opts, glue: false, odd, hand: None });
    };
    // Documentation.
    let pieces = [
        "plain", "\"", "\\", "\\n", "{", "}", "{}", "*/", "/*", "//", "#", "r#\"", "'", "`x`", "```", "\t", "é", "\u{202e}", "<b>", "*e*", "- l",
        "1. n", "> q", "| a | b |", "[x]", "[x](y)", "![i](u)", "\\\"", "$", "\u{feff}", "\0", "%s", "~~~", "    code", "&amp;", "[^1]", "\r",
    ];
    let links = ["", "[`self::S`]", "[S](self::S)", "[x](S::a)", "[`E::A`] ", "[svc](Svc)", "[f](Svc::fa)", "[p](Svc::fa::args::x)", "[o](Svc::fb::ok::X)", "[e](e)", "[e2](e::RS)", "[ev](Svc::ea)", "[c](C)", "[k](N)"];
    let mut n = 0;
    for p in pieces {
        for l in ["", "[x](S::a)"] {
            let line = format!("{p} {l}");
            add(format!("fd{n}"), documented(&[line.trim_end_matches(' ')]), FULL, true);
            n += 1;
        }
    }
    for l in links {
        for (i, o) in [(true, true), (true, false), (false, true), (false, false)].into_iter().enumerate() {
            add(format!("fl{n}_{i}"), documented(&[l, "", "second line"]), Opts { client: o.0, server: o.1, ..FULL }, false);
        }
        n += 1;
    }
    // Options.
    let full = || {
        let mut items = targets();
        items.push(Item::Service(services()[8].clone()));
        let mut w = world(items, true);
        if let Item::Def(d) = &mut w.0[0].items[0] {
            if let Body::Struct(fs, _) = &mut d.body {
                fs.push(f(9, "ext", false, Ty::Ref(Some("e".into()), "RE".into())));
            }
        }
        w
    };
    for m in 0..32u32 {
        let o = Opts {
            client: m & 1 != 0,
            server: m & 2 != 0,
            introspection: m & 4 != 0,
            intro_if: if m & 8 != 0 { Some("absent") } else { None },
            krate: m & 16 != 0,
        };
        if o.intro_if.is_some() && !o.introspection {
            continue;
        }
        add(format!("fo{m}"), full(), o, false);
    }
    let o = Opts { intro_if: Some("present"), ..FULL };
    add("fop".into(), full(), o, false);
    // Constants.
    let mut items = vec![];
    for (k, vals) in [
        ("u8", &["0", "255"][..]),
        ("i8", &["-128", "127", "0"]),
        ("u16", &["65535"]),
        ("i16", &["-32768", "32767"]),
        ("u32", &["4294967295"]),
        ("i32", &["-2147483648", "2147483647"]),
        ("u64", &["18446744073709551615"]),
        ("i64", &["-9223372036854775808", "9223372036854775807"]),
        ("string", &["\"\"", "\"plain\"", "\"é\"", "\"\\\"\"", "\"\\\\\"", "\"\\n\\r\\t\"", "\"{}\"", "\"'\"", "\"\\u{1F600}\"", "\"\\0\"", "\"\\x7f\""]),
        ("uuid", &["00000000-0000-0000-0000-000000000000", "c1b2a3d4-1111-4222-8333-ABCDEFabcdef"]),
    ] {
        for (i, x) in vals.iter().enumerate() {
            items.push((format!("K_{}_{i}", k.to_uppercase()), k.to_string(), x.to_string()));
        }
    }
    for (i, (n, k, x)) in items.into_iter().enumerate() {
        add(format!("fk{i}"), world(vec![Item::Const(n, k, x)], false), FULL, true);
    }
    // Attributes.
    let all = ["impl_copy", "impl_partial_eq", "impl_eq", "impl_partial_ord", "impl_ord", "impl_hash"];
    for (i, a) in ["", "impl_copy", "impl_partial_eq", "impl_partial_eq, impl_eq", "impl_partial_eq, impl_partial_ord", "all"].iter().enumerate() {
        let a = if *a == "all" { all.join(", ") } else { a.to_string() };
        let at = |it: Item| match it {
            Item::Def(mut d) => {
                if !a.is_empty() {
                    d.attrs = vec![format!("#[rust({a})]")];
                }
                Item::Def(d)
            }
            x => x,
        };
        let w = world(
            vec![
                at(def("S", Body::Struct(vec![f(0, "a", true, Ty::U8)], None))),
                at(def("E", Body::Enum(vec![v(0, "A", Some(Ty::U16)), v(1, "B", None)], None))),
                at(def("N", Body::Newtype(Ty::Bool))),
            ],
            false,
        );
        add(format!("fa{i}"), w, FULL, false);
        let w = world(vec![at(def("N", Body::Newtype(Ty::U8)))], false);
        add(format!("fak{i}"), w, FULL, true);
        if i != 1 && i != 5 {
            let w = world(vec![at(def("N", Body::Newtype(Ty::Str)))], false);
            add(format!("faks{i}"), w, FULL, true);
        }
    }
    // Names that are equal in another case.
    let cases: Vec<(&str, World)> = vec![
        ("fields", world(vec![def("S", Body::Struct(vec![f(0, "ab_c", true, Ty::U8), f(1, "abC", true, Ty::U8)], None))], false)),
        ("fields2", world(vec![def("S", Body::Struct(vec![f(0, "a_b", true, Ty::U8), f(1, "a__b", true, Ty::U8)], None))], false)),
        ("variants", world(vec![def("E", Body::Enum(vec![v(0, "AbC", None), v(1, "ab_c", None)], None))], false)),
        ("variants2", world(vec![def("E", Body::Enum(vec![v(0, "AbC", Some(Ty::U8)), v(1, "ab_c", Some(Ty::U8))], None))], false)),
        ("functions", world(vec![Item::Service(service("S", 1, vec![func(0, "a_b", None, None, None), func(1, "aB", None, None, None)], vec![]))], false)),
        ("events", world(vec![Item::Service(service("S", 1, vec![], vec![ev(0, "a_b", None), ev(1, "aB", None)]))], false)),
        ("fn_val", world(vec![Item::Service(service("S", 1, vec![func(0, "a", Some(Part::Ty(Ty::U8)), None, None), func(1, "a_val", None, None, None)], vec![]))], false)),
        ("ev_val", world(vec![Item::Service(service("S", 1, vec![], vec![ev(0, "a", Some(Part::Ty(Ty::U8))), ev(1, "a_ref", None)]))], false)),
        ("fn_subscribe", world(vec![Item::Service(service("S", 1, vec![func(0, "subscribe_a", None, None, None)], vec![ev(0, "a", None)]))], false)),
    ];
    for (n, w) in cases {
        add(format!("fx_{n}"), w, FULL, true);
    }
    for suffix in ["Ref", "Proxy", "Event", "Call", "EventHandler", "CallHandler", "Introspection", "FaArgs", "FaOk", "FaError", "EaArgs"] {
        let part = || Some(Part::Inline(Body::Struct(vec![f(0, "x", true, Ty::U8)], None)));
        let s = service("Svc", 1, vec![func(0, "fa", part(), part(), part())], vec![ev(0, "ea", part())]);
        let w = world(
            vec![
                def("S", Body::Struct(vec![f(0, "a", true, Ty::U8)], None)),
                def("SRef", Body::Struct(vec![f(0, "a", true, Ty::U8)], None)),
                Item::Service(s.clone()),
            ],
            false,
        );
        if suffix == "Ref" {
            add("fx_Ref".into(), w, FULL, true);
        } else {
            let w = world(vec![Item::Service(s), def(&format!("Svc{suffix}"), Body::Struct(vec![f(0, "a", true, Ty::U8)], None))], false);
            add(format!("fx_{suffix}"), w, FULL, true);
        }
    }
    // Many fields and variants.
    let many = world(
        vec![
            def("S", Body::Struct((0..40).map(|i| f(i, &format!("f{i}"), i % 3 != 0, Ty::U8)).collect(), fb("rest"))),
            def("E", Body::Enum((0..40).map(|i| v(i, &format!("V{i}"), (i % 3 != 0).then_some(Ty::U8))).collect(), fb("Rest"))),
        ],
        false,
    );
    add("fmany".into(), many, FULL, false);
}

/// H: shapes, orders, services and nested types written by hand.
fn family_h(out: &mut Vec<Unit>, thorough: bool) {
    let mut l = vec![];
    for u in out.iter().filter(|u| u.glue && u.opts == FULL && u.text.is_none()) {
        let has = |p: &str| u.name.strip_prefix(p).is_some_and(|r| r.starts_with(|c: char| c.is_ascii_digit()));
        let service = u.world.0.iter().any(|s| s.services().next().is_some());
        let styles: &[u8] = if service && (has("e") || has("d")) {
            &[IMPLICIT | OTHER]
        } else if has("bs") || has("be") || u.name == "brec" || u.name == "bnest" {
            &[TUPLE | IMPLICIT, IMPLICIT | OTHER, CORE, TUPLE | IMPLICIT | CORE | OTHER]
        } else if has("a") {
            if thorough {
                &[TUPLE | OTHER, CORE | OTHER]
            } else {
                &[TUPLE | OTHER]
            }
        } else {
            &[]
        };
        for st in styles {
            if u.world.0.iter().any(|s| s.imports.len() > 0) {
                continue;
            }
            let mut h = unit(format!("h{st}_{}", u.name), hand::world(&u.world, *st));
            h.hand = Some(*st);
            l.push(h);
        }
    }
    out.extend(l);
}

pub fn all(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    family_a(&mut o, thorough);
    family_b(&mut o, thorough);
    family_d(&mut o);
    family_e(&mut o);
    family_c(&mut o);
    family_f(&mut o);
    family_h(&mut o, thorough);
    o
}
