//! Code written with the derive macros and `service!` directly, in forms the code generator does
//! not use: tuple structs, implicit ids, the macros of `aldrin_core`, other ways to write
//! attributes, bodies and documentation.

use crate::schema::*;
use std::fmt::Write;

/// Structs are tuples.
pub const TUPLE: u8 = 1;
/// Ids are left out where they are the next ones.
pub const IMPLICIT: u8 = 2;
/// Derives of `aldrin_core`.
pub const CORE: u8 = 4;
/// Attributes one by one, plain identifiers, `Self`, `V()`, docs in attributes, long bodies, named
/// newtypes.
pub const OTHER: u8 = 8;

/// The description of what is written in a style.
pub fn world(w: &World, st: u8) -> World {
    let mut w = w.clone();
    if st & TUPLE != 0 {
        for s in &mut w.0 {
            for i in &mut s.items {
                if let Item::Def(Def { body: Body::Struct(fs, fb), .. }) = i {
                    fs.iter_mut().enumerate().for_each(|(i, f)| f.name = format!("field{i}"));
                    if let Some(fb) = fb {
                        fb.0 = "fallback".into();
                    }
                }
            }
        }
    }
    w
}

struct W<'a> {
    o: String,
    st: u8,
    w: &'a World,
    s: &'a Schema,
}

fn key(w: &World, s: &Schema, t: &Ty) -> bool {
    match t {
        Ty::Ref(x, n) => {
            let s = x.as_ref().map_or(s, |x| w.0.iter().find(|s| s.name == *x).unwrap());
            s.defs().iter().any(|d| d.name == *n && matches!(&d.body, Body::Newtype(t) if key(w, s, t)))
        }
        t => t.kk().is_some(),
    }
}

impl W<'_> {
    fn other(&self) -> bool {
        self.st & OTHER != 0
    }

    fn id(&self, n: &str) -> String {
        if self.other() {
            n.into()
        } else {
            format!("r#{n}")
        }
    }

    fn ty(&self, t: &Ty, me: &str) -> String {
        const A: &str = "::mc_gen_rt::aldrin";
        let r = |t: &Ty| self.ty(t, me);
        match t {
            Ty::Str if self.other() => "String".into(),
            Ty::Opt(t) => format!("{}<{}>", if self.other() { "Option" } else { "::std::option::Option" }, r(t)),
            Ty::Box(t) => format!("::std::boxed::Box<{}>", r(t)),
            Ty::Vec(t) if **t != Ty::U8 => format!("::std::vec::Vec<{}>", r(t)),
            Ty::Set(t) => format!("::std::collections::HashSet<{}>", r(t)),
            Ty::Sender(t) => format!("{A}::UnboundSender<{}>", r(t)),
            Ty::Receiver(t) => format!("{A}::UnboundReceiver<{}>", r(t)),
            Ty::Map(k, v) => format!("::std::collections::HashMap<{}, {}>", r(k), r(v)),
            Ty::Result(o, e) => format!("::std::result::Result<{}, {}>", r(o), r(e)),
            Ty::Array(t, n) | Ty::ArrayC(t, _, n) => format!("[{}; {n}]", r(t)),
            Ty::Ref(None, n) if n == me && self.other() => "Self".into(),
            Ty::Ref(None, n) => self.id(n),
            Ty::Ref(Some(s), n) => format!("super::r#{s}::r#{n}"),
            t => crate::glue::rust(t, ""),
        }
    }

    fn doc(&mut self, d: &Doc, ind: &str) {
        for l in &d.0 {
            let _ = if self.other() { writeln!(self.o, "{ind}#[aldrin(doc = {l:?})]") } else { writeln!(self.o, "{ind}#[doc = {l:?}]") };
        }
    }

    fn head(&mut self, d: &Def, newtype: Option<&Ty>) {
        let k = if self.st & CORE != 0 { "::aldrin_core" } else { "::aldrin" };
        if !self.other() {
            self.doc(&d.doc, "");
        }
        let mut l = vec!["Debug".to_string(), "Clone".to_string()];
        let is_key = newtype.is_some_and(|t| key(self.w, self.s, t));
        if is_key {
            l.extend(["PartialEq", "Eq", "PartialOrd", "Ord", "Hash"].map(|s| s.to_string()));
            l.extend(["KeyTag", "PrimaryKeyTag", "SerializeKey", "DeserializeKey"].map(|s| format!("{k}::{s}")));
        }
        l.extend(["Tag", "PrimaryTag", "RefType", "Serialize", "Deserialize", "Introspectable"].map(|s| format!("{k}::{s}")));
        if self.other() {
            l.reverse();
        }
        let _ = writeln!(self.o, "#[derive({})]", l.join(", "));
        let nt = newtype.is_some();
        if self.other() {
            let _ = writeln!(self.o, "#[aldrin(schema = {:?})]", self.s.name);
            self.doc(&d.doc, "");
            if nt {
                let _ = writeln!(self.o, "#[aldrin(newtype)]");
            }
            let _ = writeln!(self.o, "#[aldrin(ref_type = {}Ref)]", d.name);
        } else {
            let nt = if nt { "newtype, " } else { "" };
            let _ = writeln!(self.o, "#[aldrin({nt}schema = {:?}, ref_type)]", self.s.name);
        }
    }

    fn attrs(&mut self, id: u32, optional: bool, next: &mut u32) {
        let mut l = vec![];
        if self.st & IMPLICIT == 0 || id != *next {
            l.push(format!("id = {id}"));
        }
        *next = id.wrapping_add(1);
        if optional {
            l.push("optional".into());
        }
        if self.other() {
            l.reverse();
            for a in l {
                let _ = writeln!(self.o, "    #[aldrin({a})]");
            }
        } else if !l.is_empty() {
            let _ = writeln!(self.o, "    #[aldrin({})]", l.join(", "));
        }
    }

    fn def(&mut self, d: &Def) {
        const C: &str = "::mc_gen_rt::aldrin::core";
        let name = self.id(&d.name);
        let mut next = 0;
        match &d.body {
            Body::Newtype(t) => {
                self.head(d, Some(t));
                let t = self.ty(t, &d.name);
                let _ = if self.other() { writeln!(self.o, "pub struct {name} {{ pub inner: {t} }}") } else { writeln!(self.o, "pub struct {name}(pub {t});") };
            }
            Body::Struct(fs, fb) => {
                self.head(d, None);
                let tuple = self.st & TUPLE != 0;
                if fs.is_empty() && fb.is_none() && !tuple {
                    let _ = writeln!(self.o, "pub struct {name};");
                    return;
                }
                let _ = writeln!(self.o, "pub struct {name} {}", ["{", "("][tuple as usize]);
                for f in fs {
                    self.doc(&f.doc, "    ");
                    self.attrs(f.id, !f.required, &mut next);
                    let n = if tuple { String::new() } else { format!("{}: ", self.id(&f.name)) };
                    let mut t = self.ty(&f.ty, &d.name);
                    if !f.required {
                        t = format!("Option<{t}>");
                    }
                    let _ = writeln!(self.o, "    pub {n}{t},");
                }
                if let Some((n, doc)) = fb {
                    self.doc(doc, "    ");
                    let n = if tuple { String::new() } else { format!("{}: ", self.id(n)) };
                    let _ = writeln!(self.o, "    #[aldrin(fallback)]\n    pub {n}{C}::UnknownFields,");
                }
                let _ = writeln!(self.o, "{}", ["}", ");"][tuple as usize]);
            }
            Body::Enum(vs, fb) => {
                self.head(d, None);
                let _ = writeln!(self.o, "pub enum {name} {{");
                for v in vs {
                    self.doc(&v.doc, "    ");
                    self.attrs(v.id, false, &mut next);
                    let n = self.id(&v.name);
                    let _ = match &v.ty {
                        Some(t) => {
                            let t = self.ty(t, &d.name);
                            writeln!(self.o, "    {n}({t}),")
                        }
                        None if self.other() => writeln!(self.o, "    {n}(),"),
                        None => writeln!(self.o, "    {n},"),
                    };
                }
                if let Some((n, doc)) = fb {
                    self.doc(doc, "    ");
                    let n = self.id(n);
                    let _ = writeln!(self.o, "    #[aldrin(fallback)]\n    {n}({C}::UnknownVariant),");
                }
                let _ = writeln!(self.o, "}}");
            }
        }
    }

    fn svc(&mut self, sv: &Service) {
        let s = self.s;
        let _ = writeln!(self.o, "::aldrin::service! {{");
        self.doc(&sv.doc, "    ");
        let _ = if self.other() {
            writeln!(self.o, "    #[aldrin(introspection)]\n    #[aldrin(schema = {:?})]", s.name)
        } else {
            writeln!(self.o, "    #[aldrin(schema = {:?}, introspection)]", s.name)
        };
        let _ = writeln!(self.o, "    pub service {} {{", self.id(&sv.name));
        let _ = writeln!(self.o, "    uuid = ::aldrin::core::ServiceUuid(::aldrin::private::uuid::Uuid::from_u128(0x{}));\n    version = {};", sv.uuid.replace('-', ""), sv.version);
        let funcs = |w: &mut Self| {
            for f in &sv.funcs {
                w.doc(&f.doc, "    ");
                let p = [(&f.args, "Args", "args"), (&f.ok, "Ok", "ok"), (&f.err, "Error", "err")].map(|(p, x, k)| p.as_ref().map(|p| (k, w.ty(&sv.part_ty(&f.name, x, p), ""))));
                let n = w.id(&f.name);
                let _ = write!(w.o, "    fn {n} @ {}", f.id);
                let _ = match &p {
                    [None, None, None] if w.other() => writeln!(w.o, " {{ }}"),
                    [None, None, None] => writeln!(w.o, ";"),
                    [None, Some((_, t)), None] if !w.other() => writeln!(w.o, " = {t};"),
                    p => writeln!(w.o, " {{ {} }}", p.iter().flatten().map(|(k, t)| format!("{k} = {t};")).collect::<Vec<_>>().join(" ")),
                };
            }
        };
        let events = |w: &mut Self| {
            for e in &sv.events {
                w.doc(&e.doc, "    ");
                let n = w.id(&e.name);
                let t = e.ty.as_ref().map_or(String::new(), |p| format!(" = {}", w.ty(&sv.part_ty(&e.name, "Args", p), "")));
                let _ = writeln!(w.o, "    event {n} @ {}{t};", e.id);
            }
        };
        if sv.events_first {
            events(self);
            funcs(self);
        } else {
            funcs(self);
            events(self);
        }
        for (k, fb, t) in [("fn", &sv.fn_fallback, "UnknownCall"), ("event", &sv.ev_fallback, "UnknownEvent")] {
            if let Some((n, d)) = fb {
                self.doc(d, "    ");
                let n = self.id(n);
                let _ = writeln!(self.o, "    {k} {n} = ::aldrin::{t};");
            }
        }
        let _ = writeln!(self.o, "    }}\n}}");
    }
}

/// The modules of the schemas of a description that went through `world`.
pub fn render(w: &World, st: u8) -> Vec<(String, String)> {
    w.0.iter()
        .map(|s| {
            let mut x = W { o: String::new(), st, w, s };
            for sv in s.services() {
                x.svc(sv);
            }
            for d in s.defs() {
                x.def(&d);
            }
            (s.name.clone(), x.o)
        })
        .collect()
}
