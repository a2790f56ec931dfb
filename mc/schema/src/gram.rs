//! Grammar-directed enumeration of schemas: a nondeterministic writer that produces the source text
//! and, at the same time, the schema it denotes (in the form of `dump`).
//!
//! `free` picks shape the structure and are all enumerated; `dev` picks (layout, preludes, odd
//! names, odd literals) cost one deviation each.

use crate::dump::Prel;
use mc_common::choice::Choices;

/// Kinds of prelude entries.
pub const C: u8 = 0;
pub const D: u8 = 1;
pub const A: u8 = 2;

#[derive(Clone, Copy, PartialEq)]
enum Last {
    Start,
    Word,
    /// A keyword that has to be followed by white space.
    Kw,
    Punct,
    Line,
}

pub struct W<'a> {
    pub ch: &'a mut Choices,
    pub src: String,
    pub exp: String,
    last: Last,
    n: u32,
    /// Index into GAPS used wherever it is possible.
    pub mode: usize,
    pub gaps: bool,
    pub preludes: bool,
    pub names: bool,
    pub weird: bool,
}

pub const MODES: [&str; 4] = [" ", "", "\n", "\r\n\t"];
const GAPS: [&str; 8] = ["", " ", "\n", "\n\n\n", "\t", "\r\n", "\u{a0}\u{2028}", "  \r\n \n "];

const NAMES: [&str; 19] = [
    "Abc", "abc", "a_B", "ABC", "type", "self", "Self", "é", "required", "struct", "import", "fallback", "_", "u8x", "ok",
    "fn", "event", "x\u{30a2}\u{301}", "required_",
];
const INTS: [&str; 6] = ["-1", "007", "4294967296", "99999999999999999999", "-0", "4294967295"];
const COMMENTS: [&str; 9] = ["// %", "//%", "//  %\t ", "//", "//\t%", "// é%é", "// a\r%", "//%\r\n", "// // %"];
const DOCS: [&str; 9] = ["S %", "S%", "S  %\t ", "S", "S\t%", "S é%é", "S a\r%", "S%\r\n", "S /%"];
const ATTRS: [(&str, &str); 5] = [
    ("[a%]", "a%()"),
    ("[ a% ]", "a%()"),
    ("[a%(b)]", "a%(b)"),
    ("[a%(b,c,)]", "a%(b,c)"),
    ("\n[a%\n(\nb\n,\nc\n)\n]", "a%(b,c)"),
];

impl<'a> W<'a> {
    pub fn new(ch: &'a mut Choices) -> Self {
        Self {
            ch,
            src: String::new(),
            exp: String::new(),
            last: Last::Start,
            n: 0,
            mode: 0,
            gaps: true,
            preludes: true,
            names: false,
            weird: false,
        }
    }

    pub fn free(&mut self, n: usize) -> usize {
        self.ch.pick_free(n)
    }

    pub fn dev(&mut self, n: usize) -> usize {
        self.ch.pick(n)
    }

    pub fn e(&mut self, s: &str) {
        self.exp += s;
        self.exp.push('\n');
    }

    fn gap(&mut self, next_word: bool) {
        let must = match self.last {
            Last::Kw => true,
            Last::Word => next_word,
            _ => false,
        };
        let def = match self.last {
            Last::Start | Last::Line => "",
            _ => MODES[self.mode],
        };
        let def = if must && def.is_empty() { " " } else { def };
        let mut pick = def;
        if self.gaps {
            let i = self.ch.pick(GAPS.len() + 1);
            if i > 0 {
                pick = GAPS[i - 1];
                if must && pick.is_empty() {
                    pick = def;
                }
            }
        }
        self.src += pick;
    }

    fn word(&mut self, s: &str) {
        self.gap(true);
        self.src += s;
        self.last = Last::Word;
    }

    fn kw(&mut self, s: &str) {
        self.gap(true);
        self.src += s;
        self.last = Last::Kw;
    }

    fn p(&mut self, s: &str) {
        self.gap(false);
        self.src += s;
        self.last = Last::Punct;
    }

    fn line(&mut self, s: &str) {
        self.gap(false);
        self.src += s;
        if !s.ends_with('\n') {
            self.src.push('\n');
        }
        self.last = Last::Line;
    }

    pub fn name(&mut self, s: &str) -> String {
        if self.names {
            let i = self.dev(NAMES.len() + 1);
            if i > 0 {
                self.weird = true;
                return NAMES[i - 1].to_string();
            }
        }
        s.to_string()
    }

    fn int(&mut self, s: &str) -> String {
        if self.names {
            let i = self.dev(INTS.len() + 1);
            if i > 0 {
                return INTS[i - 1].to_string();
            }
        }
        s.to_string()
    }

    /// A prelude: the given entries, and possibly up to two more.
    pub fn prelude(&mut self, base: &[u8], allowed: &[u8], inline: bool) -> Prel {
        let mut seq = base.to_vec();
        if self.preludes {
            let k = allowed.len();
            let i = self.dev(1 + k + k * k);
            if i > 0 && i <= k {
                seq.push(allowed[i - 1]);
            } else if i > k {
                seq.push(allowed[(i - 1 - k) / k]);
                seq.push(allowed[(i - 1 - k) % k]);
            }
        }
        let mut out = Prel::default();
        for k in seq {
            self.n += 1;
            let n = self.n.to_string();
            match k {
                C => {
                    let v = if self.preludes { self.dev(COMMENTS.len()) } else { 0 };
                    let s = COMMENTS[v].replace('%', &n);
                    self.line(&s);
                    let t = s[2..].trim_end();
                    out.c.push(t.strip_prefix(' ').unwrap_or(t).to_string());
                }
                D => {
                    let v = if self.preludes { self.dev(DOCS.len()) } else { 0 };
                    let s = DOCS[v].replace('%', &n).replace('S', if inline { "//!" } else { "///" });
                    self.line(&s);
                    let t = s[3..].trim_end();
                    out.d.push(t.strip_prefix(' ').unwrap_or(t).to_string());
                }
                _ => {
                    let v = if self.preludes { self.dev(ATTRS.len()) } else { 0 };
                    let (s, x) = ATTRS[v];
                    self.p("#");
                    if inline {
                        self.p("!");
                    }
                    self.p(&s.replace('%', &n));
                    out.a.push(x.replace('%', &n));
                }
            }
        }
        out
    }

    pub fn import(&mut self, name: &str, base: &[u8]) -> String {
        let p = self.prelude(base, &[C], false);
        self.kw("import");
        let name = self.name(name);
        self.word(&name);
        self.p(";");
        let mut l = format!("import {name}\n");
        p.write(&mut l, "");
        l
    }

    /// `base` consists of groups that end with a doc comment each.
    pub fn header(&mut self, base: &[u8]) {
        let keep = self.preludes;
        let mut seq = base.to_vec();
        if keep {
            match self.dev(5) {
                1 => seq.push(D),
                2 => seq.extend([C, D]),
                3 => seq.extend([C, C, D]),
                4 => seq.extend([D, C, D]),
                _ => {}
            }
        }
        let mut all = Prel::default();
        for k in seq {
            self.preludes = false;
            let p = self.prelude(&[k], &[], true);
            all.c.extend(p.c);
            all.d.extend(p.d);
        }
        self.preludes = keep;
        self.e("schema main");
        all.write(&mut self.exp, "");
    }

    /// A type; `toks` are separated by blanks.
    pub fn ty(&mut self, toks: &str) -> String {
        let mut out = String::new();
        for t in toks.split(' ') {
            if t.chars().next().unwrap().is_alphanumeric() || t.starts_with('-') && t.len() > 1 && t != "->" {
                self.word(t);
            } else {
                self.p(t);
            }
            out += t;
        }
        out
    }

    pub fn fields(&mut self, ind: &str, f: &[Field], fb: Option<&[u8]>) {
        for (i, f) in f.iter().enumerate() {
            let p = self.prelude(f.pre, &[C, D], false);
            if f.req {
                self.kw("required");
            }
            let name = self.name(&format!("f{i}"));
            self.word(&name);
            self.p("@");
            let id = self.int(&i.to_string());
            self.word(&id);
            self.p("=");
            let t = self.ty(f.ty);
            self.p(";");
            let r = if f.req { "required " } else { "" };
            self.e(&format!("{ind}field {r}{name}@{id}={t}"));
            p.write(&mut self.exp, ind);
        }
        if let Some(pre) = fb {
            self.fallback(ind, "fallback", "", "fb", pre);
        }
    }

    fn fallback(&mut self, ind: &str, what: &str, kw: &str, name: &str, pre: &[u8]) {
        let p = self.prelude(pre, &[C, D], false);
        if !kw.is_empty() {
            self.kw(kw);
        }
        let name = self.name(name);
        self.word(&name);
        self.p("=");
        self.word("fallback");
        self.p(";");
        self.e(&format!("{ind}{what} {name}"));
        p.write(&mut self.exp, ind);
    }

    pub fn variants(&mut self, ind: &str, v: &[Field], fb: Option<&[u8]>) {
        for (i, f) in v.iter().enumerate() {
            let p = self.prelude(f.pre, &[C, D], false);
            let name = self.name(&format!("V{i}"));
            self.word(&name);
            self.p("@");
            let id = self.int(&i.to_string());
            self.word(&id);
            let mut t = String::new();
            if !f.ty.is_empty() {
                self.p("=");
                t = self.ty(f.ty);
            }
            self.p(";");
            self.e(&format!("{ind}var {name}@{id}={t}"));
            p.write(&mut self.exp, ind);
        }
        if let Some(pre) = fb {
            self.fallback(ind, "fallback", "", "Fb", pre);
        }
    }

    pub fn struct_def(&mut self, name: &str, pre: &[u8], f: &[Field], fb: Option<&[u8]>) {
        let p = self.prelude(pre, &[C, D, A], false);
        self.kw("struct");
        let name = self.name(name);
        self.word(&name);
        self.p("{");
        self.e(&format!("struct {name}"));
        p.write(&mut self.exp, "");
        self.fields("  ", f, fb);
        self.p("}");
    }

    pub fn enum_def(&mut self, name: &str, pre: &[u8], v: &[Field], fb: Option<&[u8]>) {
        let p = self.prelude(pre, &[C, D, A], false);
        self.kw("enum");
        let name = self.name(name);
        self.word(&name);
        self.p("{");
        self.e(&format!("enum {name}"));
        p.write(&mut self.exp, "");
        self.variants("  ", v, fb);
        self.p("}");
    }

    pub fn newtype(&mut self, name: &str, pre: &[u8], ty: &str) {
        let p = self.prelude(pre, &[C, D, A], false);
        self.kw("newtype");
        let name = self.name(name);
        self.word(&name);
        self.p("=");
        let t = self.ty(ty);
        self.p(";");
        self.e(&format!("newtype {name}={t}"));
        p.write(&mut self.exp, "");
    }

    /// `lit` is the literal as written.
    pub fn const_def(&mut self, name: &str, pre: &[u8], ty: &str, lit: &str) {
        let p = self.prelude(pre, &[C, D], false);
        self.kw("const");
        let name = self.name(name);
        self.word(&name);
        self.p("=");
        self.word(ty);
        self.p("(");
        self.word(lit);
        self.p(")");
        self.p(";");
        let shown = if ty == "string" { format!("{:?}", &lit[1..lit.len() - 1]) } else { lit.to_string() };
        self.e(&format!("const {name}={ty}({shown})"));
        p.write(&mut self.exp, "");
    }

    pub fn inl(&mut self, ind: &str, i: &Inl) {
        let ind2 = format!("{ind}  ");
        match i {
            Inl::Ty(t) => {
                let t = self.ty(t);
                self.p(";");
                self.e(&format!("{ind}type {t}"));
            }
            Inl::Struct(pre, f, fb) => {
                self.kw("struct");
                self.p("{");
                let p = self.prelude(pre, &[D, A], true);
                self.e(&format!("{ind}struct"));
                p.write(&mut self.exp, ind);
                self.fields(&ind2, f, *fb);
                self.p("}");
            }
            Inl::Enum(pre, f, fb) => {
                self.kw("enum");
                self.p("{");
                let p = self.prelude(pre, &[D, A], true);
                self.e(&format!("{ind}enum"));
                p.write(&mut self.exp, ind);
                self.variants(&ind2, f, *fb);
                self.p("}");
            }
        }
    }

    pub fn service(&mut self, name: &str, pre: &[u8], items: &[Item], fb: u8, fbpre: &[u8]) {
        let p = self.prelude(pre, &[C, D], false);
        self.kw("service");
        let name = self.name(name);
        self.word(&name);
        self.p("{");
        self.e(&format!("service {name}"));
        p.write(&mut self.exp, "");
        let p = self.prelude(&[], &[C], false);
        self.word("uuid");
        self.p("=");
        // Per service name, so that there are no duplicates.
        let u = format!("0186bb46-fd34-4c0a-9A2f-0000000{:0>5}", name.bytes().map(|b| b as u32).sum::<u32>());
        self.word(&u);
        self.p(";");
        self.e(&format!("  uuid {u}"));
        p.write(&mut self.exp, "  ");
        let p = self.prelude(&[], &[C], false);
        self.word("version");
        self.p("=");
        let v = self.int("1");
        self.word(&v);
        self.p(";");
        self.e(&format!("  version {v}"));
        p.write(&mut self.exp, "  ");
        for (i, it) in items.iter().enumerate() {
            self.item(i, it);
        }
        let at = self.exp.len();
        match fb {
            1 => self.fallback("  ", "fn-fallback", "fn", "fallback_fn", fbpre),
            2 => self.fallback("  ", "event-fallback", "event", "fallback_ev", fbpre),
            3 => {
                self.fallback("  ", "fn-fallback", "fn", "fallback_fn", fbpre);
                self.fallback("  ", "event-fallback", "event", "fallback_ev", fbpre);
            }
            4 => {
                self.fallback("  ", "event-fallback", "event", "fallback_ev", fbpre);
                let ev = self.exp.split_off(at);
                self.fallback("  ", "fn-fallback", "fn", "fallback_fn", fbpre);
                self.exp += &ev;
            }
            _ => {}
        }
        self.p("}");
    }

    pub fn item(&mut self, i: usize, it: &Item) {
        let p = self.prelude(it.pre, &[C, D], false);
        let is_fn = !matches!(it.body, Body::Event(_));
        self.kw(if is_fn { "fn" } else { "event" });
        let name = self.name(&format!("i{i}"));
        self.word(&name);
        self.p("@");
        let id = self.int(&i.to_string());
        self.word(&id);
        self.e(&format!("  {} {name}@{id}", if is_fn { "fn" } else { "event" }));
        p.write(&mut self.exp, "  ");
        match &it.body {
            Body::Event(None) | Body::FnTerm => self.p(";"),
            Body::Event(Some(t)) => {
                self.p("=");
                self.inl("    ", t);
            }
            Body::FnOk(t) => {
                self.p("=");
                self.e("    ok");
                self.inl("      ", t);
            }
            Body::Fn(parts) => {
                self.p("{");
                for (k, t) in ["args", "ok", "err"].iter().zip(parts) {
                    if let Some((pre, t)) = t {
                        let p = self.prelude(pre, &[C], false);
                        self.word(k);
                        self.p("=");
                        self.e(&format!("    {k}"));
                        p.write(&mut self.exp, "    ");
                        self.inl("      ", t);
                    }
                }
                self.p("}");
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct Field {
    pub req: bool,
    pub ty: &'static str,
    pub pre: &'static [u8],
}

pub type Fb = Option<&'static [u8]>;

#[derive(Clone)]
pub enum Inl {
    Ty(&'static str),
    Struct(&'static [u8], Vec<Field>, Fb),
    Enum(&'static [u8], Vec<Field>, Fb),
}

#[derive(Clone)]
pub enum Body {
    Event(Option<Inl>),
    FnTerm,
    FnOk(Inl),
    Fn([Option<(&'static [u8], Inl)>; 3]),
}

#[derive(Clone)]
pub struct Item {
    pub pre: &'static [u8],
    pub body: Body,
}

fn f(req: bool, ty: &'static str, pre: &'static [u8]) -> Field {
    Field { req, ty, pre }
}

pub const TYPES: &[&str] = &[
    "bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "string", "uuid", "object_id", "service_id",
    "value", "bytes", "lifetime", "unit", "Foo", "other :: Foo", "option < u8 >", "box < u8 >", "vec < u8 >", "map < u8 -> u8 >",
    "set < u8 >", "sender < u8 >", "receiver < u8 >", "result < u8 , u8 >", "[ u8 ; 4 ]", "[ u8 ; LEN ]", "[ u8 ; other :: LEN ]",
];

/// Every generic around every type, and every generic around every generic.
pub fn nested() -> Vec<&'static str> {
    let mut out: Vec<String> = vec![];
    for a in TYPES {
        for g in ["option", "box", "vec", "set", "sender", "receiver"] {
            out.push(format!("{g} < {a} >"));
        }
        out.push(format!("map < u8 -> {a} >"));
        out.push(format!("map < {a} -> u8 >"));
        out.push(format!("result < {a} , u8 >"));
        out.push(format!("result < u8 , {a} >"));
        out.push(format!("[ {a} ; 4 ]"));
    }
    let once = out.clone();
    for a in once.iter().skip(21 * 11) {
        out.push(format!("vec < {a} >"));
        out.push(format!("[ {a} ; 4 ]"));
    }
    out.push("vec < ".repeat(30) + "u8" + &" >".repeat(30));
    out.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
}

/// A family: name, number of parameters that are enumerated outside, the writer.
pub struct Family {
    pub name: &'static str,
    pub dev_quick: u32,
    pub dev_thorough: u32,
    pub run: fn(&mut W, bool),
}

const PRES: [&[u8]; 5] = [&[], &[C], &[D], &[A], &[A, D, C, D, A, C]];
const PRES2: [&[u8]; 4] = [&[], &[C], &[D], &[D, C, D]];

fn one_def(w: &mut W, k: usize, name: &str, pre: &[u8]) {
    let pre2: Vec<u8> = pre.iter().copied().filter(|k| *k != A).collect();
    match k {
        0 => w.struct_def(name, pre, &[], None),
        1 => w.struct_def(name, pre, &[f(true, "u8", &[])], None),
        2 => w.enum_def(name, pre, &[f(false, "", &[])], None),
        3 => w.newtype(name, pre, "u8"),
        4 => w.const_def(name, &pre2, "u8", "1"),
        5 => w.service(name, &pre2, &[], 0, &[]),
        _ => w.enum_def(name, pre, &[], Some(&[])),
    }
}

fn defs(w: &mut W, thorough: bool) {
    w.gaps = false;
    w.preludes = false;
    w.header(&[]);
    let n = w.free(4);
    for i in 0..n {
        let k = w.free(7);
        let p = w.free(if thorough { 5 } else { 4 });
        let names = ["Aa", "Bb", "Cc"];
        one_def(w, k, names[i], PRES[p]);
    }
}

fn defs_layout(w: &mut W, _t: bool) {
    w.names = true;
    w.header(&[]);
    w.mode = w.free(4);
    let a = w.free(7);
    let p = w.free(2) * 4;
    one_def(w, a, "Aa", PRES[p]);
    if w.free(2) == 1 {
        one_def(w, 1, "Zz", &[]);
    }
}

fn imports(w: &mut W, t: bool) {
    w.gaps = false;
    let h = w.free(5);
    w.header([&[][..], &[D], &[C, D], &[D, D, C, C, D], &[C, D, D]][h]);
    w.preludes = false;
    let n = w.free(if t { 6 } else { 5 });
    let mut l = vec![];
    for _ in 0..n {
        let name = ["aa", "bb", "ab"][w.free(3)];
        let p = w.free(3);
        l.push(w.import(name, [&[][..], &[C], &[C, C]][p]));
    }
    l.sort();
    l.dedup();
    for l in l {
        w.exp += &l;
    }
    let d = w.free(3);
    if d > 0 {
        one_def(w, 1, "Aa", PRES[d - 1]);
    }
}

fn imports_layout(w: &mut W, _t: bool) {
    w.names = true;
    w.mode = w.free(4);
    let h = w.free(2);
    w.header([&[][..], &[C, D]][h]);
    let mut l = vec![w.import("bb", &[C]), w.import("aa", &[])];
    l.sort();
    l.dedup();
    for l in l {
        w.exp += &l;
    }
    one_def(w, 4, "AA", &[]);
}

fn field_list(w: &mut W, max: usize, en: bool) -> (Vec<Field>, Fb) {
    let n = w.free(max + 1);
    let mut v = vec![];
    for _ in 0..n {
        let k = w.free(2);
        let p = w.free(4);
        let ty = if en && k == 1 { "" } else { "u8" };
        v.push(f(!en && k == 1, ty, PRES2[p]));
    }
    let fb = w.free(5);
    (v, if fb == 0 { None } else { Some(PRES2[fb - 1]) })
}

fn bodies(w: &mut W, t: bool) {
    w.gaps = false;
    w.preludes = false;
    w.header(&[]);
    let en = w.free(2) == 1;
    let (v, fb) = field_list(w, if t { 4 } else { 3 }, en);
    if en {
        w.enum_def("Aa", &[], &v, fb);
    } else {
        w.struct_def("Aa", &[], &v, fb);
    }
    one_def(w, 1, "Zz", &[]);
}

fn bodies_layout(w: &mut W, _t: bool) {
    w.names = true;
    w.header(&[]);
    w.mode = w.free(4);
    let fb = if w.free(2) == 1 { Some(&[C, D][..]) } else { None };
    if w.free(2) == 1 {
        w.enum_def("Aa", &[D], &[f(false, "u8", &[]), f(false, "", &[C])], fb);
    } else {
        w.struct_def("Aa", &[A], &[f(true, "u8", &[]), f(false, "u8", &[D])], fb);
    }
}

fn small_inl(k: usize) -> Inl {
    match k {
        0 => Inl::Ty("u8"),
        1 => Inl::Struct(&[], vec![], None),
        2 => Inl::Struct(&[], vec![f(true, "u8", &[])], None),
        3 => Inl::Enum(&[D], vec![f(true, "u8", &[C])], Some(&[D])),
        4 => Inl::Struct(&[A, D], vec![], Some(&[])),
        5 => Inl::Enum(&[], vec![], None),
        _ => Inl::Enum(&[A], vec![f(false, "", &[])], None),
    }
}

fn body(k: usize) -> Body {
    match k {
        0 => Body::FnTerm,
        1 => Body::FnOk(Inl::Ty("u8")),
        2 => Body::FnOk(small_inl(1)),
        3 => Body::FnOk(small_inl(2)),
        4 => Body::Fn([None, None, None]),
        5 => Body::Fn([Some((&[], Inl::Ty("u8"))), None, None]),
        6 => Body::Fn([Some((&[], small_inl(2))), Some((&[C], small_inl(3))), Some((&[], Inl::Ty("u8")))]),
        7 => Body::Event(None),
        8 => Body::Event(Some(Inl::Ty("u8"))),
        9 => Body::Event(Some(small_inl(1))),
        10 => Body::Event(Some(small_inl(3))),
        _ => Body::Fn([None, Some((&[C], Inl::Ty("u8"))), None]),
    }
}

fn items(w: &mut W, t: bool) {
    w.gaps = false;
    w.preludes = false;
    w.header(&[]);
    let n = w.free(4);
    let mut v = vec![];
    for _ in 0..n {
        let b = body(w.free(12));
        let p = w.free(if t { 4 } else { 2 });
        v.push(Item { pre: PRES2[if t { p } else { p * 3 }], body: b });
    }
    let fb = w.free(5) as u8;
    let p = if fb > 0 { w.free(3) } else { 0 };
    w.service("Aa", &[], &v, fb, PRES2[p]);
}

fn fn_bodies(w: &mut W, _t: bool) {
    w.gaps = false;
    w.preludes = false;
    w.header(&[]);
    let mut parts = [None, None, None];
    for p in &mut parts {
        let k = w.free(8);
        if k > 0 {
            let c = w.free(3);
            *p = Some(([&[][..], &[C], &[C, C]][c], small_inl(k - 1)));
        }
    }
    w.service("Aa", &[], &[Item { pre: &[], body: Body::Fn(parts) }, Item { pre: &[], body: Body::FnTerm }], 0, &[]);
}

fn inline_bodies(w: &mut W, t: bool) {
    w.gaps = false;
    w.preludes = false;
    w.header(&[]);
    let pre = [&[][..], &[D], &[A], &[D, A], &[A, D], &[A, A], &[D, D, A, D]][w.free(7)];
    let en = w.free(2) == 1;
    let (v, fb) = field_list(w, if t { 3 } else { 2 }, en);
    let i = if en { Inl::Enum(pre, v, fb) } else { Inl::Struct(pre, v, fb) };
    let b = match w.free(5) {
        0 => Body::FnOk(i),
        1 => Body::Event(Some(i)),
        2 => Body::Fn([Some((&[], i)), None, None]),
        3 => Body::Fn([None, Some((&[C], i)), None]),
        _ => Body::Fn([None, None, Some((&[], i))]),
    };
    w.service("Aa", &[], &[Item { pre: &[], body: b }, Item { pre: &[], body: Body::FnTerm }], 0, &[]);
}

fn service_layout(w: &mut W, _t: bool) {
    w.names = true;
    w.header(&[]);
    w.mode = w.free(4);
    let b = w.free(12);
    let fb = w.free(5) as u8;
    w.service("Aa", &[], &[Item { pre: &[], body: body(b) }], fb, &[]);
}

fn types(w: &mut W, t: bool) {
    w.preludes = false;
    w.gaps = t;
    w.header(&[]);
    w.mode = w.free(4);
    let all = nested();
    let i = w.free(TYPES.len() + all.len());
    let ty = if i < TYPES.len() { TYPES[i] } else { all[i - TYPES.len()] };
    match w.free(4) {
        0 => w.struct_def("Aa", &[], &[f(true, ty, &[])], None),
        1 => w.enum_def("Aa", &[], &[f(false, ty, &[])], None),
        2 => w.newtype("Aa", &[], ty),
        _ => {
            let b = Body::Fn([Some((&[], Inl::Ty(ty))), Some((&[], Inl::Ty(ty))), Some((&[], Inl::Ty(ty)))]);
            let e = Item { pre: &[], body: Body::Event(Some(Inl::Ty(ty))) };
            w.service("Aa", &[], &[Item { pre: &[], body: b }, e], 0, &[])
        }
    }
}

fn types_layout(w: &mut W, _t: bool) {
    w.preludes = false;
    w.header(&[]);
    w.mode = w.free(4);
    let i = w.free(TYPES.len());
    w.struct_def("Aa", &[], &[f(true, TYPES[i], &[])], None);
}

const STRINGS: &[&str] = &[
    "\"\"", "\"a\"", "\"\\\\\"", "\"\\\"\"", "\"é\"", "\"a\\nb\"", "\"a\rb\"", "\"//\"", "\"/*\"", "\"\t\"", "\"{}\"", "\"\\\"", "\"'\"",
    "\"\u{2028}\"", "\"\\u{1f600}\"",
];

fn consts(w: &mut W, _t: bool) {
    w.header(&[]);
    w.mode = w.free(4);
    let k = w.free(10);
    let t = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "string", "uuid"][k];
    let lit = match t {
        "uuid" => ["01234567-89ab-cdef-0123-456789abcdef", "01234567-89AB-CDEF-0123-456789abcdef"][w.free(2)],
        "string" => STRINGS[w.free(STRINGS.len())],
        _ => [
            "0", "1", "-0", "-1", "00", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "65535", "65536",
            "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807",
            "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
            "99999999999999999999999999999999",
        ][w.free(29)],
    };
    w.const_def("AA", &[], t, lit);
}

fn full(w: &mut W, _t: bool) {
    w.names = true;
    w.header(&[C, D]);
    let mut l = vec![w.import("other", &[])];
    l.push(w.import("another", &[C]));
    l.sort();
    l.dedup();
    for l in l {
        w.exp += &l;
    }
    w.const_def("LEN", &[D], "u32", "12");
    w.const_def("STR", &[], "string", "\"text\"");
    w.struct_def("Foo", &[D, A], &[f(true, "u8", &[D]), f(false, "[ Foo ; LEN ]", &[])], Some(&[]));
    w.enum_def("Bar", &[C], &[f(false, "", &[]), f(false, "other :: Foo", &[C])], Some(&[D]));
    w.newtype("Baz", &[A], "vec < Bar >");
    let it = [
        Item { pre: &[D], body: body(6) },
        Item { pre: &[], body: body(1) },
        Item { pre: &[C], body: body(8) },
        Item { pre: &[], body: body(10) },
    ];
    w.service("Svc", &[D], &it, 3, &[]);
}

pub const FAMILIES: &[Family] = &[
    Family { name: "defs", dev_quick: 0, dev_thorough: 0, run: defs },
    Family { name: "defs-layout", dev_quick: 2, dev_thorough: 2, run: defs_layout },
    Family { name: "imports", dev_quick: 1, dev_thorough: 1, run: imports },
    Family { name: "imports-layout", dev_quick: 2, dev_thorough: 2, run: imports_layout },
    Family { name: "bodies", dev_quick: 0, dev_thorough: 0, run: bodies },
    Family { name: "bodies-layout", dev_quick: 2, dev_thorough: 2, run: bodies_layout },
    Family { name: "items", dev_quick: 0, dev_thorough: 0, run: items },
    Family { name: "fn-bodies", dev_quick: 0, dev_thorough: 0, run: fn_bodies },
    Family { name: "inline-bodies", dev_quick: 0, dev_thorough: 0, run: inline_bodies },
    Family { name: "service-layout", dev_quick: 1, dev_thorough: 2, run: service_layout },
    Family { name: "types", dev_quick: 0, dev_thorough: 1, run: types },
    Family { name: "types-layout", dev_quick: 2, dev_thorough: 3, run: types_layout },
    Family { name: "consts", dev_quick: 1, dev_thorough: 2, run: consts },
    Family { name: "full", dev_quick: 1, dev_thorough: 2, run: full },
];
