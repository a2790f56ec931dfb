//! Rust text that connects generated types to the checks.

use crate::hand::{OTHER, TUPLE};
use crate::schema::*;
use crate::units::Unit;
use std::fmt::Write;

const A: &str = "::mc_gen_rt::aldrin";

/// Rust type as seen next to the modules of the schemas.
pub fn rust(t: &Ty, here: &str) -> String {
    let r = |t: &Ty| rust(t, here);
    match t {
        Ty::Str => "::std::string::String".into(),
        Ty::Uuid => format!("{A}::private::uuid::Uuid"),
        Ty::ObjectId => format!("{A}::core::ObjectId"),
        Ty::ServiceId => format!("{A}::core::ServiceId"),
        Ty::Value => format!("{A}::core::SerializedValue"),
        Ty::Bytes => format!("{A}::core::Bytes"),
        Ty::Lifetime => format!("{A}::LifetimeId"),
        Ty::Unit => "()".into(),
        Ty::Opt(t) => format!("::std::option::Option<{}>", r(t)),
        Ty::Box(t) => format!("::std::boxed::Box<{}>", r(t)),
        Ty::Vec(t) if **t == Ty::U8 => format!("{A}::core::Bytes"),
        Ty::Vec(t) => format!("::std::vec::Vec<{}>", r(t)),
        Ty::Set(t) => format!("::std::collections::HashSet<{}>", r(t)),
        Ty::Sender(t) => format!("{A}::UnboundSender<{}>", r(t)),
        Ty::Receiver(t) => format!("{A}::UnboundReceiver<{}>", r(t)),
        Ty::Map(k, v) => format!("::std::collections::HashMap<{}, {}>", r(k), r(v)),
        Ty::Result(o, e) => format!("::std::result::Result<{}, {}>", r(o), r(e)),
        Ty::Array(t, n) | Ty::ArrayC(t, _, n) => format!("[{}; {n}]", r(t)),
        Ty::Ref(None, n) => format!("r#{here}::r#{n}"),
        Ty::Ref(Some(s), n) => format!("r#{s}::r#{n}"),
        t => t.src(),
    }
}

fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_ascii_uppercase() && i > 0 {
            o.push('_');
        }
        o.push(c.to_ascii_lowercase());
    }
    o
}

fn entry(o: &mut String, u: &Unit, s: &Schema, d: &Def) {
    let m = format!("r#{}", s.name);
    let t = format!("{m}::r#{}", d.name);
    let tr = format!("{m}::r#{}Ref", d.name);
    let mut new = "None".to_string();
    let alt = match &d.body {
        Body::Newtype(_) => {
            let f = if u.hand.is_some_and(|h| h & OTHER != 0) { "inner" } else { "0" };
            format!("|x| vec![(\"ref_type\", rt::ser_like({tr} {{ {f}: &x.{f} }}, x))]")
        }
        Body::Struct(fs, fb) if u.hand.is_some_and(|h| h & TUPLE != 0) => {
            let n = fs.len() + fb.iter().len();
            let l: Vec<String> = (0..n).map(|i| format!("{i}: &x.{i}")).collect();
            format!("|x| vec![(\"ref_type\", rt::ser_like({tr} {{ {} }}, x))]", l.join(", "))
        }
        Body::Struct(fs, fb) => {
            if u.hand.is_none() && fs.iter().all(|f| !f.required) {
                new = format!("Some(|| rt::ser({t}::new()))");
            }
            let mut l: Vec<String> = fs.iter().map(|f| format!("r#{0}: &x.r#{0}", f.name)).collect();
            if let Some((n, _)) = fb {
                l.push(format!("r#{n}: &x.r#{n}"));
            }
            let ctor = if l.is_empty() { tr } else { format!("{tr} {{ {} }}", l.join(", ")) };
            format!("|x| vec![(\"ref_type\", rt::ser_like({ctor}, x))]")
        }
        Body::Enum(vs, fb) => {
            let mut arms: Vec<(String, bool)> = vs.iter().map(|v| (v.name.clone(), v.ty.is_some())).collect();
            if let Some((n, _)) = fb {
                arms.push((n.clone(), true));
            }
            let mut s = "|x| { let mut o = vec![]; let r = match x {".to_string();
            for (n, a) in &arms {
                let p = if *a { "(v)" } else { "" };
                let m = if *a { "(v)" } else { " {}" };
                let _ = write!(s, " {t}::r#{n}{m} => {tr}::r#{n}{p},");
            }
            s.push_str(" }; o.push((\"ref_type\", rt::ser_like(r, x)));");
            // The constructors (only if their names are distinct from each other).
            let plain = arms.iter().all(|a| a.0.chars().all(|c| c.is_ascii_alphanumeric()) && a.0[1..].chars().all(|c| c.is_ascii_lowercase()));
            if plain {
                s.push_str(" o.push((\"ref_ctor\", match x {");
                for (n, a) in &arms {
                    let p = if *a { "(v)" } else { " {}" };
                    let q = if *a { "(v)" } else { "()" };
                    // The other variants are uninhabited, so this type is fully known.
                    let _ = write!(s, " {t}::r#{n}{p} => rt::ser_like({tr}::r#{}{q}, x),", snake(n));
                }
                s.push_str(" }));");
            }
            s.push_str(" o }");
            s
        }
    };
    let dynt = if u.opts.introspection { format!("Some(|| rt::dynt::<{t}>())") } else { "None".into() };
    let _ = writeln!(
        o,
        "    e.types.push(rt::Entry {{ unit: {:?}, schema: {:?}, ty: {:?}, run: |b| rt::run::<{t}>(b, {alt}), new: {new}, dynt: {dynt} }});",
        u.name, s.name, d.name
    );
}

fn part_rust(sv: &Service, s: &Schema, item: &str, suffix: &str, p: &Option<Part>, none: &str) -> String {
    match p {
        None => none.into(),
        Some(p) => rust(&sv.part_ty(item, suffix, p), &s.name),
    }
}

fn svc(o: &mut String, s: &Schema, sv: &Service, n: usize) {
    let m = format!("r#{}", s.name);
    let name = &sv.name;
    let (proxy, service) = (format!("{m}::r#{name}Proxy"), format!("{m}::r#{name}"));
    let (call, event) = (format!("{m}::r#{name}Call"), format!("{m}::r#{name}Event"));
    let never = "::std::convert::Infallible";

    // Client.
    let _ = writeln!(o, "struct Cl{n}({proxy});\nimpl rt::Client for Cl{n} {{");
    let _ = writeln!(o, "    fn consts(&self) -> ([u8; 16], u32) {{ (*{proxy}::UUID.0.as_bytes(), {proxy}::VERSION) }}");
    let _ = writeln!(o, "    fn low(&self) -> &{A}::low_level::Proxy {{ self.0.inner() }}");
    let _ = writeln!(o, "    fn call(&self, func: usize, mode: u8, args: &[u8]) -> rt::LBox<'static, rt::Obs> {{ let _ = (mode, args); match func {{");
    for (i, f) in sv.funcs.iter().enumerate() {
        let n = &f.name;
        if f.args.is_some() {
            let _ = writeln!(
                o,
                "        {i} => {{ let a = match rt::de(args) {{ Ok(a) => a, Err(e) => return Box::pin(async move {{ rt::Obs::Error(e) }}) }}; rt::hint(&a, |a| self.0.r#{n}_val(a)); Box::pin(rt::reply(match mode {{ 0 => self.0.r#{n}_val(a), 1 => self.0.r#{n}_ref(&a), 2 => self.0.r#{n}(a), _ => self.0.r#{n}(&a) }})) }}"
            );
        } else {
            let _ = writeln!(o, "        {i} => Box::pin(rt::reply(self.0.r#{n}())),");
        }
    }
    let _ = writeln!(o, "        _ => unreachable!() }} }}");
    for (k, all) in [("subscribe", "subscribe_all"), ("unsubscribe", "unsubscribe_all")] {
        let _ = writeln!(o, "    fn {k}(&self, ev: Option<usize>) -> rt::LBox<'_, rt::Obs> {{ Box::pin(async move {{ rt::done(match ev {{ None => self.0.{all}().await,");
        for (i, e) in sv.events.iter().enumerate() {
            let _ = writeln!(o, "        Some({i}) => self.0.{k}_{}().await,", e.name);
        }
        let _ = writeln!(o, "        _ => unreachable!() }}) }}) }}");
    }
    let _ = writeln!(o, "    fn next(&mut self, dispatch: bool) -> rt::LBox<'_, rt::Obs> {{ Box::pin(async move {{");
    let _ = writeln!(o, "        let ev = match self.0.next_event().await {{ None => return rt::Obs::End, Some(e) => e }};");
    let _ = writeln!(o, "        if dispatch {{ let mut h = Eh{n}(None); {proxy}::dispatch_event(ev, &mut h).await.unwrap(); return h.0.unwrap(); }}");
    let _ = writeln!(o, "        match ev {{");
    for (i, e) in sv.events.iter().enumerate() {
        let v = camel(&e.name);
        let _ = writeln!(o, "            Ok({event}::r#{v}(e)) => rt::Obs::Arm(Some({i}), e.id(), rt::ser(e.into_args())),");
    }
    if let Some((fb, _)) = &sv.ev_fallback {
        let _ = writeln!(o, "            Ok({event}::r#{}(e)) => rt::unknown_event(e),", camel(fb));
    }
    let _ = writeln!(o, "            Err(e) => rt::error(e),\n        }} }}) }}\n}}");
    let _ = writeln!(o, "struct Eh{n}(Option<rt::Obs>);\n#[{A}::private::async_trait::async_trait]\nimpl {m}::r#{name}EventHandler for Eh{n} {{ type Error = ();");
    for (i, e) in sv.events.iter().enumerate() {
        let ty = part_rust(sv, s, &e.name, "Args", &e.ty, "()");
        let _ = writeln!(
            o,
            "    async fn r#{}(&mut self, event: {A}::Event<{ty}>) -> Result<(), ()> {{ self.0 = Some(rt::Obs::Arm(Some({i}), event.id(), rt::ser(event.into_args()))); Ok(()) }}",
            e.name
        );
    }
    if let Some((fb, _)) = &sv.ev_fallback {
        let _ = writeln!(o, "    async fn r#{fb}(&mut self, event: {A}::UnknownEvent) -> Result<(), ()> {{ self.0 = Some(rt::unknown_event(event)); Ok(()) }}");
    }
    let _ = writeln!(o, "    async fn invalid_event(&mut self, error: {A}::Error) -> Result<(), ()> {{ self.0 = Some(rt::error(error)); Ok(()) }}\n}}");

    // Server.
    let _ = writeln!(o, "struct Sv{n}({service});\nimpl rt::Server for Sv{n} {{");
    let _ = writeln!(o, "    fn consts(&self) -> ([u8; 16], u32) {{ (*{service}::UUID.0.as_bytes(), {service}::VERSION) }}");
    let _ = writeln!(o, "    fn id(&self) -> {A}::core::ServiceId {{ self.0.id() }}");
    let _ = writeln!(o, "    fn next(&mut self, dispatch: bool, plan: rt::Plan) -> rt::LBox<'_, (rt::Obs, Result<(), String>)> {{ Box::pin(async move {{");
    let _ = writeln!(o, "        let call = match self.0.next_call().await {{ None => return (rt::Obs::End, Ok(())), Some(c) => c }};");
    let _ = writeln!(o, "        if dispatch {{ let mut h = Ch{n}(plan, None); {service}::dispatch_call(call, &mut h).await.unwrap(); return h.1.unwrap(); }}");
    let _ = writeln!(o, "        match call {{");
    for (i, f) in sv.funcs.iter().enumerate() {
        let v = camel(&f.name);
        let _ = writeln!(
            o,
            "            Ok({call}::r#{v}(c)) => {{ let id = c.id(); let (a, p) = c.into_args_and_promise(); (rt::Obs::Arm(Some({i}), id, rt::ser(a)), rt::answer(p, &plan)) }}"
        );
    }
    if let Some((fb, _)) = &sv.fn_fallback {
        let _ = writeln!(o, "            Ok({call}::r#{}(c)) => rt::unknown_call(c, &plan),", camel(fb));
    }
    let _ = writeln!(o, "            Err(e) => (rt::error(e), Ok(())),\n        }} }}) }}");
    let _ = writeln!(o, "    fn emit(&self, ev: usize, mode: u8, args: &[u8]) -> rt::Obs {{ let _ = (mode, args); match ev {{");
    for (i, e) in sv.events.iter().enumerate() {
        let n = &e.name;
        if e.ty.is_some() {
            let _ = writeln!(
                o,
                "        {i} => {{ let a = match rt::de(args) {{ Ok(a) => a, Err(e) => return rt::Obs::Error(e) }}; rt::hint(&a, |a| self.0.r#{n}_val(a)); rt::done(match mode {{ 0 => self.0.r#{n}_val(a), 1 => self.0.r#{n}_ref(&a), 2 => self.0.r#{n}(a), _ => self.0.r#{n}(&a) }}) }}"
            );
        } else {
            let _ = writeln!(o, "        {i} => rt::done(self.0.r#{n}()),");
        }
    }
    let _ = writeln!(o, "        _ => unreachable!() }} }}\n}}");
    let _ = writeln!(
        o,
        "struct Ch{n}(rt::Plan, Option<(rt::Obs, Result<(), String>)>);\n#[{A}::private::async_trait::async_trait]\nimpl {m}::r#{name}CallHandler for Ch{n} {{ type Error = ();"
    );
    for (i, f) in sv.funcs.iter().enumerate() {
        let a = f.args.as_ref().map(|_| format!("args: {}, ", part_rust(sv, s, &f.name, "Args", &f.args, "()"))).unwrap_or_default();
        let v = if f.args.is_some() { "rt::ser(args)" } else { "rt::ser(())" };
        let ok = part_rust(sv, s, &f.name, "Ok", &f.ok, "()");
        let err = part_rust(sv, s, &f.name, "Error", &f.err, never);
        let _ = writeln!(
            o,
            "    async fn r#{}(&mut self, {a}promise: {A}::Promise<{ok}, {err}>) -> Result<(), ()> {{ let id = promise.id(); let v = {v}; self.1 = Some((rt::Obs::Arm(Some({i}), id, v), rt::answer(promise, &self.0))); Ok(()) }}",
            f.name
        );
    }
    if let Some((fb, _)) = &sv.fn_fallback {
        let _ = writeln!(o, "    async fn r#{fb}(&mut self, call: {A}::UnknownCall) -> Result<(), ()> {{ self.1 = Some(rt::unknown_call(call, &self.0)); Ok(()) }}");
    }
    let _ = writeln!(o, "    async fn invalid_call(&mut self, error: {A}::Error) -> Result<(), ()> {{ self.1 = Some((rt::error(error), Ok(()))); Ok(()) }}\n}}");
}

/// The module of a unit; the schemas are submodules in files of their own.
pub fn module(u: &Unit, modules: &[String]) -> String {
    let mut o = String::new();
    for m in modules {
        let _ = writeln!(o, "#[path = \"s_{m}.rs\"] pub mod r#{m};");
    }
    if !u.glue {
        return o;
    }
    let _ = writeln!(o, "use ::mc_gen_rt as rt;\n");
    let mut n = 0;
    let mut e = String::new();
    for s in &u.world.0 {
        for d in s.defs() {
            entry(&mut e, u, s, &d);
        }
        for sv in s.services() {
            svc(&mut o, s, sv, n);
            let m = format!("r#{}", s.name);
            let dynts = if u.opts.introspection {
                format!("(\"proxy\", (|| rt::dynt::<{m}::r#{0}Proxy>()) as rt::Dyn), (\"service\", (|| rt::dynt::<{m}::r#{0}>()) as rt::Dyn)", sv.name)
            } else {
                String::new()
            };
            let _ = writeln!(
                e,
                "    e.services.push(rt::SvcEntry {{ unit: {:?}, schema: {:?}, name: {:?}, client: Some(|h, id| Box::pin(async move {{ Ok(Box::new(Cl{n}({m}::r#{}Proxy::new(h, id).await?)) as Box<dyn rt::Client>) }})), server: Some(|ob| Box::pin(async move {{ Ok(Box::new(Sv{n}({m}::r#{}::new(ob).await?)) as Box<dyn rt::Server>) }})), dynts: vec![{dynts}] }});",
                u.name, s.name, sv.name, sv.name, sv.name
            );
            n += 1;
        }
    }
    let _ = writeln!(o, "pub fn entries(e: &mut rt::Entries) {{\n{e}}}");
    o
}
