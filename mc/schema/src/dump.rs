//! The schema as its accessors report it, positions aside: one canonical text per schema.

use aldrin_parser::ast::*;
use aldrin_parser::{Parser, Schema};
use std::collections::BTreeSet;
use std::fmt::Debug;

#[derive(Debug, Clone, Default)]
pub struct Prel {
    pub c: Vec<String>,
    pub d: Vec<String>,
    pub a: Vec<String>,
}

impl Prel {
    pub fn write(&self, out: &mut String, ind: &str) {
        for (k, l) in [("c", &self.c), ("d", &self.d), ("a", &self.a)] {
            for v in l {
                *out += &format!("{ind}  {k}:{v}\n");
            }
        }
    }
}

fn prel(c: &[Comment], d: &[DocString], a: &[Attribute]) -> Prel {
    Prel {
        c: c.iter().map(|c| c.value_inner().to_string()).collect(),
        d: d.iter().map(|d| d.value_inner().to_string()).collect(),
        a: a.iter()
            .map(|a| {
                let o: Vec<_> = a.options().iter().map(|o| o.value()).collect();
                format!("{}({})", a.name().value(), o.join(","))
            })
            .collect(),
    }
}

pub fn ty(t: &TypeName) -> String {
    use TypeNameKind as K;
    match t.kind() {
        K::Bool => "bool".into(),
        K::U8 => "u8".into(),
        K::I8 => "i8".into(),
        K::U16 => "u16".into(),
        K::I16 => "i16".into(),
        K::U32 => "u32".into(),
        K::I32 => "i32".into(),
        K::U64 => "u64".into(),
        K::I64 => "i64".into(),
        K::F32 => "f32".into(),
        K::F64 => "f64".into(),
        K::String => "string".into(),
        K::Uuid => "uuid".into(),
        K::ObjectId => "object_id".into(),
        K::ServiceId => "service_id".into(),
        K::Value => "value".into(),
        K::Bytes => "bytes".into(),
        K::Lifetime => "lifetime".into(),
        K::Unit => "unit".into(),
        K::Option(t) => format!("option<{}>", ty(t)),
        K::Box(t) => format!("box<{}>", ty(t)),
        K::Vec(t) => format!("vec<{}>", ty(t)),
        K::Map(k, t) => format!("map<{}->{}>", ty(k), ty(t)),
        K::Set(t) => format!("set<{}>", ty(t)),
        K::Sender(t) => format!("sender<{}>", ty(t)),
        K::Receiver(t) => format!("receiver<{}>", ty(t)),
        K::Result(t, e) => format!("result<{},{}>", ty(t), ty(e)),
        K::Array(t, n) => {
            let n = match n.value() {
                ArrayLenValue::Literal(l) => l.value().to_string(),
                ArrayLenValue::Ref(r) => nref(r),
            };
            format!("[{};{}]", ty(t), n)
        }
        K::Ref(r) => nref(r),
    }
}

fn nref(r: &NamedRef) -> String {
    match r.kind() {
        NamedRefKind::Intern(i) => i.value().to_string(),
        NamedRefKind::Extern(s, i) => format!("{}::{}", s.value(), i.value()),
    }
}

fn fields(out: &mut String, ind: &str, f: &[StructField], fb: Option<&StructFallback>) {
    for f in f {
        let req = if f.required() { "required " } else { "" };
        *out += &format!("{ind}field {req}{}@{}={}\n", f.name().value(), f.id().value(), ty(f.field_type()));
        prel(f.comment(), f.doc(), &[]).write(out, ind);
    }
    if let Some(f) = fb {
        *out += &format!("{ind}fallback {}\n", f.name().value());
        prel(f.comment(), f.doc(), &[]).write(out, ind);
    }
}

fn variants(out: &mut String, ind: &str, v: &[EnumVariant], fb: Option<&EnumFallback>) {
    for v in v {
        let t = v.variant_type().map(ty).unwrap_or_default();
        *out += &format!("{ind}var {}@{}={t}\n", v.name().value(), v.id().value());
        prel(v.comment(), v.doc(), &[]).write(out, ind);
    }
    if let Some(f) = fb {
        *out += &format!("{ind}fallback {}\n", f.name().value());
        prel(f.comment(), f.doc(), &[]).write(out, ind);
    }
}

fn inl(out: &mut String, ind: &str, t: &TypeNameOrInline) {
    let ind2 = format!("{ind}  ");
    match t {
        TypeNameOrInline::TypeName(t) => *out += &format!("{ind}type {}\n", ty(t)),
        TypeNameOrInline::Struct(s) => {
            *out += &format!("{ind}struct\n");
            prel(&[], s.doc(), s.attributes()).write(out, ind);
            fields(out, &ind2, s.fields(), s.fallback());
        }
        TypeNameOrInline::Enum(s) => {
            *out += &format!("{ind}enum\n");
            prel(&[], s.doc(), s.attributes()).write(out, ind);
            variants(out, &ind2, s.variants(), s.fallback());
        }
    }
}

fn part(out: &mut String, kind: &str, p: Option<&FunctionPart>) {
    if let Some(p) = p {
        *out += &format!("    {kind}\n");
        prel(p.comment(), &[], &[]).write(out, "    ");
        inl(out, "      ", p.part_type());
    }
}

pub fn constant(v: &ConstValue) -> String {
    use ConstValue as C;
    match v {
        C::U8(i) => format!("u8({})", i.value()),
        C::I8(i) => format!("i8({})", i.value()),
        C::U16(i) => format!("u16({})", i.value()),
        C::I16(i) => format!("i16({})", i.value()),
        C::U32(i) => format!("u32({})", i.value()),
        C::I32(i) => format!("i32({})", i.value()),
        C::U64(i) => format!("u64({})", i.value()),
        C::I64(i) => format!("i64({})", i.value()),
        C::String(s) => format!("string({:?})", s.value_inner()),
        C::Uuid(u) => format!("uuid({})", u.value()),
    }
}

/// A whole schema; imports sorted.
pub fn schema(s: &Schema) -> String {
    let mut out = String::new();
    out += &format!("schema {}\n", s.name());
    prel(s.comment(), s.doc(), &[]).write(&mut out, "");
    let mut imports = BTreeSet::new();
    for i in s.imports() {
        let mut l = format!("import {}\n", i.schema_name().value());
        prel(i.comment(), &[], &[]).write(&mut l, "");
        imports.insert(l);
    }
    out.extend(imports);
    for d in s.definitions() {
        match d {
            Definition::Struct(d) => {
                out += &format!("struct {}\n", d.name().value());
                prel(d.comment(), d.doc(), d.attributes()).write(&mut out, "");
                fields(&mut out, "  ", d.fields(), d.fallback());
            }
            Definition::Enum(d) => {
                out += &format!("enum {}\n", d.name().value());
                prel(d.comment(), d.doc(), d.attributes()).write(&mut out, "");
                variants(&mut out, "  ", d.variants(), d.fallback());
            }
            Definition::Newtype(d) => {
                out += &format!("newtype {}={}\n", d.name().value(), ty(d.target_type()));
                prel(d.comment(), d.doc(), d.attributes()).write(&mut out, "");
            }
            Definition::Const(d) => {
                out += &format!("const {}={}\n", d.name().value(), constant(d.value()));
                prel(d.comment(), d.doc(), &[]).write(&mut out, "");
            }
            Definition::Service(d) => {
                out += &format!("service {}\n", d.name().value());
                prel(d.comment(), d.doc(), &[]).write(&mut out, "");
                out += &format!("  uuid {}\n", d.uuid().value());
                prel(d.uuid_comment(), &[], &[]).write(&mut out, "  ");
                out += &format!("  version {}\n", d.version().value());
                prel(d.version_comment(), &[], &[]).write(&mut out, "  ");
                for i in d.items() {
                    match i {
                        ServiceItem::Function(f) => {
                            out += &format!("  fn {}@{}\n", f.name().value(), f.id().value());
                            prel(f.comment(), f.doc(), &[]).write(&mut out, "  ");
                            part(&mut out, "args", f.args());
                            part(&mut out, "ok", f.ok());
                            part(&mut out, "err", f.err());
                        }
                        ServiceItem::Event(e) => {
                            out += &format!("  event {}@{}\n", e.name().value(), e.id().value());
                            prel(e.comment(), e.doc(), &[]).write(&mut out, "  ");
                            if let Some(t) = e.event_type() {
                                inl(&mut out, "    ", t);
                            }
                        }
                    }
                }
                if let Some(f) = d.function_fallback() {
                    out += &format!("  fn-fallback {}\n", f.name().value());
                    prel(f.comment(), f.doc(), &[]).write(&mut out, "  ");
                }
                if let Some(f) = d.event_fallback() {
                    out += &format!("  event-fallback {}\n", f.name().value());
                    prel(f.comment(), f.doc(), &[]).write(&mut out, "  ");
                }
            }
        }
    }
    out
}

/// The debug form of an issue without positions, suggestions and the text of attached comments
/// (the schema comparison covers those).
fn norm(x: &impl Debug) -> String {
    let s = format!("{x:?}");
    let mut out = String::with_capacity(s.len());
    let mut i = 0;
    // End of the string literal that starts at `i`.
    let lit = |i: usize| {
        let b = s.as_bytes();
        let mut j = i + 1;
        while j < b.len() && b[j] != b'"' {
            j += if b[j] == b'\\' { 2 } else { 1 };
        }
        (j + 1).min(b.len())
    };
    while i < s.len() {
        let r = &s[i..];
        if r.starts_with('"') {
            let e = lit(i);
            out += &s[i..e];
            i = e;
        } else if let Some(k) = ["Span {", "Comment {", "DocString {"].iter().find(|k| r.starts_with(**k)) {
            let mut depth = 1;
            i += k.len();
            while i < s.len() && depth > 0 {
                match s.as_bytes()[i] {
                    b'"' => i = lit(i) - 1,
                    b'{' => depth += 1,
                    b'}' => depth -= 1,
                    _ => {}
                }
                i += 1;
            }
        } else if r.starts_with("candidate: ") {
            while i < s.len() && !matches!(s.as_bytes()[i], b',' | b'}') {
                i = if s.as_bytes()[i] == b'"' { lit(i) } else { i + 1 };
            }
        } else {
            let c = r.chars().next().unwrap();
            out.push(c);
            i += c.len_utf8();
        }
    }
    out
}

pub fn issues(p: &Parser) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    out.extend(p.errors().iter().map(|e| format!("error {}", norm(e))));
    out.extend(p.warnings().iter().map(|e| format!("warning {}", norm(e))));
    out.extend(p.other_warnings().iter().map(|e| format!("other warning {}", norm(e))));
    out
}
