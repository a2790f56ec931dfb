//! What is enumerated.

use super::*;
use aldrin::Client as AldrinClient;
use aldrin_broker::Broker;

fn some(n: &str) -> Fb {
    Some((n.into(), None))
}

fn strct(schema: &str, name: &str, fields: Vec<(u32, Name, bool, usize, D)>, fb: Fb) -> Node {
    Node::Struct { schema: schema.into(), name: name.into(), doc: None, fields, fb }
}

fn enm(schema: &str, name: &str, variants: Vec<(u32, Name, Option<usize>, D)>, fb: Fb) -> Node {
    Node::Enum { schema: schema.into(), name: name.into(), doc: None, variants, fb }
}

fn newtype(schema: &str, name: &str, target: usize) -> Node {
    Node::Newtype { schema: schema.into(), name: name.into(), doc: None, target }
}

/// The types the definitions of the first parts refer to: the definition itself is node 0.
fn stock() -> Graph {
    let mut g = Graph::default();
    g.nodes.push(Node::Leaf(Ty::Bool)); // replaced
    g.nodes.push(Node::Leaf(Ty::U8)); // 1
    g.nodes.push(Node::Leaf(Ty::Str)); // 2
    g.nodes.push(Node::Wrap(0, 1)); // 3 option<u8>
    g.nodes.push(Node::Wrap(2, 1)); // 4 vec<u8>
    g.nodes.push(Node::Leaf(Ty::Bytes)); // 5
    g.nodes.push(strct("m", "Other", vec![(0, "x".into(), true, 1, None)], None)); // 6
    g.nodes.push(Node::Wrap(0, 6)); // 7 option<Other>
    g.nodes.push(Node::Wrap(1, 0)); // 8 box of itself
    g
}

/// All selections of up to `max` items with ascending ids, each item any of `per`.
fn selections<T: Clone>(ids: &[u32], max: usize, per: &[T]) -> Vec<Vec<(u32, T)>> {
    let mut o = vec![];
    fn go<T: Clone>(ids: &[u32], max: usize, per: &[T], cur: &mut Vec<(u32, T)>, o: &mut Vec<Vec<(u32, T)>>) {
        o.push(cur.clone());
        if max == 0 {
            return;
        }
        for (i, id) in ids.iter().enumerate() {
            for p in per {
                cur.push((*id, p.clone()));
                go(&ids[i + 1..], max - 1, per, cur, o);
                cur.pop();
            }
        }
    }
    go(ids, max, per, &mut vec![], &mut o);
    o
}

const TWO: [Style; 2] = [PLAIN, Style { perm: 1, refs: 1, times: 1, docs: 3 }];

fn structs(j: &Judge) {
    let mut per = vec![];
    for n in ["a", "b"] {
        for r in [true, false] {
            for t in 1..9 {
                per.push((n.to_string(), r, t));
            }
        }
    }
    let ids: &[u32] = if j.ctx.quick() { &[0, 1, 252, u32::MAX] } else { &[0, 1, 2, 127, 128, 251, 252, 255, 256, 65535, 65536, u32::MAX] };
    let mut sel = selections(ids, 2, &per);
    let few: Vec<_> = per.iter().filter(|p| [1, 3, 6, 8].contains(&p.2)).cloned().collect();
    let more = if j.ctx.quick() { &few } else { &per };
    sel.extend(selections(&[0, 1, 2], 3, more).into_iter().filter(|s| s.len() == 3));
    let fbs = [None, some("a"), some("r")];
    let names = [("m", "S"), ("m", "T"), ("n", "S")];
    j.ctx.par(sel.len(), |i| {
        if j.ctx.stopped() {
            return;
        }
        let mut g = stock();
        for fb in &fbs {
            for (s, n) in names {
                let fields = sel[i].iter().map(|(id, (n, r, t))| (*id, n.clone(), *r, *t, None)).collect();
                g.nodes[0] = strct(s, n, fields, fb.clone());
                j.graph("structs", &g, Some(0), &TWO);
            }
        }
        if sel[i].len() <= 1 {
            j.full("structs", &g, &TWO);
        }
    });
}

fn enums(j: &Judge) {
    let mut per = vec![];
    for n in ["A", "B"] {
        for t in 0..9 {
            per.push((n.to_string(), (t > 0).then_some(t)));
        }
    }
    let ids: &[u32] = if j.ctx.quick() { &[0, 1, 252, u32::MAX] } else { &[0, 1, 2, 127, 128, 251, 252, 255, 256, 65535, 65536, u32::MAX] };
    let mut sel = selections(ids, 2, &per);
    let few: Vec<_> = per.iter().filter(|p| [None, Some(1), Some(6), Some(8)].contains(&p.1)).cloned().collect();
    let more = if j.ctx.quick() { &few } else { &per };
    sel.extend(selections(&[0, 1, 2], 3, more).into_iter().filter(|s| s.len() == 3));
    let fbs = [None, some("A"), some("R")];
    let names = [("m", "S"), ("m", "T"), ("n", "S")];
    j.ctx.par(sel.len(), |i| {
        if j.ctx.stopped() {
            return;
        }
        let mut g = stock();
        for fb in &fbs {
            for (s, n) in names {
                let variants = sel[i].iter().map(|(id, (n, t))| (*id, n.clone(), *t, None)).collect();
                g.nodes[0] = enm(s, n, variants, fb.clone());
                j.graph("enums", &g, Some(0), &TWO);
            }
        }
        if sel[i].len() <= 1 {
            j.full("enums", &g, &TWO);
        }
    });
}

fn services(j: &Judge) {
    let mut per = vec![];
    for n in ["f", "g"] {
        for a in [None, Some(1), Some(6)] {
            for b in [None, Some(1), Some(6)] {
                for c in [None, Some(1), Some(6)] {
                    per.push((n.to_string(), [a, b, c]));
                }
            }
        }
    }
    let fsel = selections(&[0, 1], 2, &per);
    let mut per = vec![];
    for n in ["f", "g"] {
        for a in [None, Some(1), Some(2), Some(6)] {
            per.push((n.to_string(), a));
        }
    }
    let esel = selections(&[0, 1], 2, &per);
    let fbs = [None, some("f"), some("r")];
    let svc = |fs: &Vec<(u32, (String, [Option<usize>; 3]))>, es: &Vec<(u32, (String, Option<usize>))>, ffb: &Fb, efb: &Fb, uuid: u128, version: u32, s: &str, n: &str| Node::Service {
        schema: s.into(),
        name: n.into(),
        doc: None,
        uuid,
        version,
        funcs: fs.iter().map(|(id, (n, t))| (*id, n.clone(), *t, None)).collect(),
        events: es.iter().map(|(id, (n, t))| (*id, n.clone(), *t, None)).collect(),
        ffb: ffb.clone(),
        efb: efb.clone(),
    };
    // All functions with some events.
    j.ctx.par(fsel.len(), |i| {
        if j.ctx.stopped() {
            return;
        }
        let mut g = stock();
        g.nodes[8] = Node::Leaf(Ty::Unit);
        for es in [&esel[0], &esel[1], &esel[esel.len() / 2]] {
            for (ffb, efb) in [(0, 0), (1, 0), (0, 1), (2, 2)] {
                g.nodes[0] = svc(&fsel[i], es, &fbs[ffb], &fbs[efb], 1, 1, "m", "S");
                j.graph("services", &g, Some(0), &TWO);
            }
        }
        if fsel[i].len() <= 1 {
            j.full("services", &g, &TWO);
        }
    });
    // All events and everything else with some functions.
    j.ctx.par(esel.len(), |i| {
        if j.ctx.stopped() {
            return;
        }
        let mut g = stock();
        g.nodes[8] = Node::Leaf(Ty::Unit);
        for fs in [&fsel[0], &fsel[1], &fsel[fsel.len() / 2]] {
            for ffb in &fbs {
                for efb in &fbs {
                    for uuid in [1, 2, u128::MAX] {
                        for version in [0, 1, u32::MAX] {
                            for (s, n) in [("m", "S"), ("m", "T"), ("n", "S")] {
                                g.nodes[0] = svc(fs, &esel[i], ffb, efb, uuid, version, s, n);
                                j.graph("services", &g, Some(0), &TWO);
                            }
                        }
                    }
                }
            }
        }
        if esel[i].len() <= 1 {
            j.full("services", &g, &TWO);
        }
    });
}

/// Every built-in type up to some depth, alone and behind a newtype.
fn types(j: &Judge) {
    let l = units::types(true);
    j.ctx.par(l.len(), |i| {
        let mut w = World(vec![Schema::new("m"), Schema::new("e")]);
        w.0[0].items.push(units::def("Target", Body::Newtype(l[i].clone())));
        w.0[0].items.extend(units::targets());
        w.0[1].items.extend(units::targets());
        j.full("types", &Graph::of(&w), &TWO);
    });
    // All of two levels over a few leaves.
    let mut g = Graph::default();
    let leaves: Vec<usize> = [Ty::U8, Ty::I8, Ty::Unit].into_iter().map(|t| g.add(Node::Leaf(t))).collect();
    g.nodes.push(newtype("m", "N", leaves[0]));
    let mut last = leaves;
    last.push(g.nodes.len() - 1);
    let mut list = vec![];
    for a in &last {
        for b in &last {
            list.push(Node::Map(*a, *b));
            list.push(Node::Result(*a, *b));
            list.push(Node::Tuple(vec![*a, *b]));
        }
        for w in 0..6 {
            list.push(Node::Wrap(w, *a));
        }
        for n in [0, 1, 2, 256, 65536, u32::MAX] {
            list.push(Node::Array(*a, n));
        }
        list.push(Node::Tuple(vec![*a]));
    }
    let base = g.nodes.len();
    g.nodes.extend(list);
    let n = g.nodes.len();
    j.full("types", &g, &TWO);
    j.ctx.par(n, |a| {
        if j.ctx.stopped() {
            return;
        }
        let mut g = g.clone();
        g.nodes.push(Node::Leaf(Ty::Bool));
        let mut one = |x: Node| {
            g.nodes[n] = x;
            j.graph("types", &g, Some(n), &[PLAIN, Style { perm: 0, refs: 1, times: 2, docs: 0 }]);
        };
        for b in (0..n).filter(|b| a < base || *b < base || (a + *b) % 3 == 0) {
            one(Node::Map(a, b));
            one(Node::Result(a, b));
            one(Node::Tuple(vec![a, b]));
        }
        for w in 0..6 {
            one(Node::Wrap(w, a));
        }
        for k in [0, 1, 2, 256, 65536, u32::MAX] {
            one(Node::Array(a, k));
        }
    });
}

/// All graphs of up to three definitions that refer to each other.
fn graphs(j: &Judge) {
    // u8, the three definitions, an option of the first and a vec of the second.
    let target = [3, 0, 1, 2, 4, 5];
    let mut shapes: Vec<Box<dyn Fn(&str) -> Node + Sync>> = vec![];
    for t in target {
        shapes.push(Box::new(move |n| newtype("m", n, t)));
    }
    let f = |l: &[usize]| l.iter().enumerate().map(|(i, t)| (i as u32, ["a", "b"][i].to_string(), true, *t, None)).collect::<Vec<_>>();
    let v = |l: &[Option<usize>]| l.iter().enumerate().map(|(i, t)| (i as u32, ["a", "b"][i].to_string(), *t, None)).collect::<Vec<_>>();
    let full = true;
    shapes.push(Box::new(move |n| strct("m", n, vec![], None)));
    shapes.push(Box::new(move |n| enm("m", n, vec![], None)));
    for t in target {
        shapes.push(Box::new(move |n| strct("m", n, f(&[t]), None)));
        shapes.push(Box::new(move |n| enm("m", n, v(&[Some(t)]), None)));
        for u in target {
            if full || (t != 4 && t != 5 && u != 3 && t <= u) {
                shapes.push(Box::new(move |n| strct("m", n, f(&[t, u]), None)));
                shapes.push(Box::new(move |n| enm("m", n, v(&[Some(t), Some(u)]), None)));
            }
        }
    }
    let n = shapes.len();
    let styles = [PLAIN, Style { perm: 1, refs: 1, times: 1, docs: 2 }];
    j.ctx.par(n * n, |i| {
        for k in 0..n {
            if j.ctx.stopped() {
                return;
            }
            let g = Graph {
                nodes: vec![shapes[i / n]("A"), shapes[i % n]("B"), shapes[k]("C"), Node::Leaf(Ty::U8), Node::Wrap(0, 0), Node::Wrap(2, 1)],
            };
            j.graph("graphs", &g, None, if k % 2 == 0 { &styles } else { &styles[..1] });
        }
    });
    j.ctx.extra("graph_shapes", n * n * n);
}

/// Every single change of something that matters.
fn edits(g: &Graph) -> Vec<Graph> {
    let mut o = vec![];
    let n = g.nodes.len();
    let mut put = |i: usize, x: Node| {
        if x != g.nodes[i] {
            let mut h = g.clone();
            h.nodes[i] = x;
            o.push(h);
        }
    };
    let newname = |s: &str| [format!("{s}x"), (if s.len() > 1 { s[..s.len() - 1].to_string() } else { "q".into() }), s.to_uppercase(), s.to_lowercase()];
    let newid = |id: u32| [id.wrapping_add(1), id.wrapping_sub(1), id ^ 0x80, id ^ 0x100, id ^ 0x1_0000, id ^ 0x8000_0000, u32::MAX];
    let newfb = |f: &Fb| match f {
        None => vec![some("rest"), some("fallback")],
        Some((n, _)) => vec![None, some(&format!("{n}x"))],
    };
    for i in 0..n {
        let node = &g.nodes[i];
        match node {
            Node::Leaf(t) => {
                for l in LEAVES {
                    if l != *t {
                        put(i, Node::Leaf(l));
                    }
                }
            }
            Node::Wrap(w, t) => {
                for x in 0..6 {
                    put(i, Node::Wrap(x, *t));
                }
                for x in 0..n {
                    put(i, Node::Wrap(*w, x));
                }
            }
            Node::Map(a, b) => {
                put(i, Node::Map(*b, *a));
                put(i, Node::Result(*a, *b));
                for x in 0..n {
                    put(i, Node::Map(x, *b));
                    put(i, Node::Map(*a, x));
                }
            }
            Node::Result(a, b) => {
                put(i, Node::Result(*b, *a));
                put(i, Node::Map(*a, *b));
                for x in 0..n {
                    put(i, Node::Result(x, *b));
                    put(i, Node::Result(*a, x));
                }
            }
            Node::Array(t, l) => {
                for x in newid(*l) {
                    put(i, Node::Array(*t, x));
                }
                for x in 0..n {
                    put(i, Node::Array(x, *l));
                }
                put(i, Node::Wrap(2, *t));
            }
            Node::Tuple(_) => {}
            Node::Struct { schema, name, doc, fields, fb } => {
                let mk = |schema: &str, name: &str, fields: Vec<_>, fb: Fb| Node::Struct { schema: schema.into(), name: name.into(), doc: doc.clone(), fields, fb };
                for x in newname(name) {
                    put(i, mk(schema, &x, fields.clone(), fb.clone()));
                }
                for x in newname(schema) {
                    put(i, mk(&x, name, fields.clone(), fb.clone()));
                }
                for x in newfb(fb) {
                    put(i, mk(schema, name, fields.clone(), x));
                }
                let vs = fields.iter().map(|f| (f.0, f.1.clone(), Some(f.3), None)).collect();
                put(i, enm(schema, name, vs, fb.clone()));
                let free = |id: u32| !fields.iter().any(|f| f.0 == id);
                for id in [0, 1, 2, 7, u32::MAX] {
                    if free(id) {
                        let mut l = fields.clone();
                        l.push((id, "zz".into(), true, 0, None));
                        put(i, mk(schema, name, l, fb.clone()));
                    }
                }
                for k in 0..fields.len() {
                    let mut with = |f: (u32, Name, bool, usize, D)| {
                        let mut l = fields.clone();
                        l[k] = f;
                        put(i, mk(schema, name, l, fb.clone()));
                    };
                    let f = &fields[k];
                    for x in newid(f.0) {
                        if free(x) {
                            with((x, f.1.clone(), f.2, f.3, None));
                        }
                    }
                    for x in newname(&f.1) {
                        with((f.0, x, f.2, f.3, None));
                    }
                    with((f.0, f.1.clone(), !f.2, f.3, None));
                    for x in 0..n {
                        with((f.0, f.1.clone(), f.2, x, None));
                    }
                    let mut l = fields.clone();
                    l.remove(k);
                    put(i, mk(schema, name, l, fb.clone()));
                    // Two trade everything but their ids.
                    for m in k + 1..fields.len() {
                        let mut l = fields.clone();
                        (l[k].0, l[m].0) = (l[m].0, l[k].0);
                        put(i, mk(schema, name, l.clone(), fb.clone()));
                        (l[k].1, l[m].1) = (l[m].1.clone(), l[k].1.clone());
                        put(i, mk(schema, name, l, fb.clone()));
                    }
                }
            }
            Node::Enum { schema, name, doc, variants, fb } => {
                let mk = |schema: &str, name: &str, variants: Vec<_>, fb: Fb| Node::Enum { schema: schema.into(), name: name.into(), doc: doc.clone(), variants, fb };
                for x in newname(name) {
                    put(i, mk(schema, &x, variants.clone(), fb.clone()));
                }
                for x in newname(schema) {
                    put(i, mk(&x, name, variants.clone(), fb.clone()));
                }
                for x in newfb(fb) {
                    put(i, mk(schema, name, variants.clone(), x));
                }
                let free = |id: u32| !variants.iter().any(|f| f.0 == id);
                for id in [0, 1, 2, 7, u32::MAX] {
                    if free(id) {
                        for t in [None, Some(0)] {
                            let mut l = variants.clone();
                            l.push((id, "Zz".into(), t, None));
                            put(i, mk(schema, name, l, fb.clone()));
                        }
                    }
                }
                for k in 0..variants.len() {
                    let mut with = |f: (u32, Name, Option<usize>, D)| {
                        let mut l = variants.clone();
                        l[k] = f;
                        put(i, mk(schema, name, l, fb.clone()));
                    };
                    let f = &variants[k];
                    for x in newid(f.0) {
                        if free(x) {
                            with((x, f.1.clone(), f.2, None));
                        }
                    }
                    for x in newname(&f.1) {
                        with((f.0, x, f.2, None));
                    }
                    with((f.0, f.1.clone(), None, None));
                    for x in 0..n {
                        with((f.0, f.1.clone(), Some(x), None));
                    }
                    let mut l = variants.clone();
                    l.remove(k);
                    put(i, mk(schema, name, l, fb.clone()));
                    for m in k + 1..variants.len() {
                        let mut l = variants.clone();
                        (l[k].0, l[m].0) = (l[m].0, l[k].0);
                        put(i, mk(schema, name, l.clone(), fb.clone()));
                        (l[k].1, l[m].1) = (l[m].1.clone(), l[k].1.clone());
                        put(i, mk(schema, name, l, fb.clone()));
                    }
                }
            }
            Node::Newtype { schema, name, target, .. } => {
                for x in newname(name) {
                    put(i, newtype(schema, &x, *target));
                }
                for x in newname(schema) {
                    put(i, newtype(&x, name, *target));
                }
                for x in 0..n {
                    put(i, newtype(schema, name, x));
                }
                put(i, strct(schema, name, vec![(0, "field0".into(), true, *target, None)], None));
                put(i, enm(schema, name, vec![(0, "V".into(), Some(*target), None)], None));
            }
            Node::Service { schema, name, uuid, version, funcs, events, ffb, efb, .. } => {
                let mut svc = |f: &dyn Fn(&mut Node)| {
                    let mut x = node.clone();
                    f(&mut x);
                    put(i, x);
                };
                macro_rules! set {
                    ($($field:ident = $v:expr),*) => {{
                        svc(&|s| if let Node::Service { $($field,)* .. } = s { $( *$field = $v.clone(); )* });
                    }};
                }
                for x in newname(name) {
                    set!(name = x);
                }
                for x in newname(schema) {
                    set!(schema = x);
                }
                for x in newid(*version) {
                    set!(version = x);
                }
                for b in [0, 1, 7, 64, 100, 127] {
                    let x = uuid ^ 1 << b;
                    set!(uuid = x);
                }
                for x in newfb(ffb) {
                    set!(ffb = x);
                }
                for x in newfb(efb) {
                    set!(efb = x);
                }
                let (a, b) = (ffb.clone(), efb.clone());
                set!(ffb = b, efb = a);
                let ffree = |id: u32| !funcs.iter().any(|f| f.0 == id);
                let efree = |id: u32| !events.iter().any(|f| f.0 == id);
                for id in [0, 1, 2, 77, u32::MAX] {
                    if ffree(id) {
                        for p in [[None; 3], [Some(0), None, None], [None, Some(0), None], [None, None, Some(0)]] {
                            let mut l = funcs.clone();
                            l.push((id, "zz".into(), p, None));
                            set!(funcs = l);
                        }
                    }
                    if efree(id) {
                        for p in [None, Some(0)] {
                            let mut l = events.clone();
                            l.push((id, "zz".into(), p, None));
                            set!(events = l);
                        }
                    }
                }
                for k in 0..funcs.len() {
                    let f = &funcs[k];
                    let mut l = funcs.clone();
                    l.remove(k);
                    set!(funcs = l);
                    // It becomes an event.
                    if efree(f.0) {
                        let mut e = events.clone();
                        e.push((f.0, f.1.clone(), f.2[0], None));
                        set!(funcs = l, events = e);
                    }
                    let mut alts: Vec<(u32, Name, [Option<usize>; 3], D)> = vec![];
                    for x in newid(f.0) {
                        if ffree(x) {
                            alts.push((x, f.1.clone(), f.2, None));
                        }
                    }
                    for x in newname(&f.1) {
                        alts.push((f.0, x, f.2, None));
                    }
                    for p in 0..3 {
                        for t in (0..n).map(Some).chain([None]) {
                            let mut q = f.2;
                            q[p] = t;
                            alts.push((f.0, f.1.clone(), q, None));
                        }
                        let mut q = f.2;
                        q.swap(p, (p + 1) % 3);
                        alts.push((f.0, f.1.clone(), q, None));
                    }
                    for x in alts {
                        let mut l = funcs.clone();
                        l[k] = x;
                        set!(funcs = l);
                    }
                    for m in k + 1..funcs.len() {
                        let mut l = funcs.clone();
                        (l[k].0, l[m].0) = (l[m].0, l[k].0);
                        set!(funcs = l);
                    }
                }
                for k in 0..events.len() {
                    let f = &events[k];
                    let mut l = events.clone();
                    l.remove(k);
                    set!(events = l);
                    let mut alts: Vec<(u32, Name, Option<usize>, D)> = vec![];
                    for x in newid(f.0) {
                        if efree(x) {
                            alts.push((x, f.1.clone(), f.2, None));
                        }
                    }
                    for x in newname(&f.1) {
                        alts.push((f.0, x, f.2, None));
                    }
                    for t in (0..n).map(Some).chain([None]) {
                        alts.push((f.0, f.1.clone(), t, None));
                    }
                    for x in alts {
                        let mut l = events.clone();
                        l[k] = x;
                        set!(events = l);
                    }
                    for m in k + 1..events.len() {
                        let mut l = events.clone();
                        (l[k].0, l[m].0) = (l[m].0, l[k].0);
                        set!(events = l);
                    }
                }
            }
        }
    }
    o.retain(|g| g.sane());
    o
}

/// Graphs to be edited and to be written down in every order.
fn bases(c: &Corpus, small: bool) -> Vec<Graph> {
    let mut o = vec![];
    // A cycle of all kinds, a service on top and something that nothing refers to.
    let mut g = Graph::default();
    g.nodes = vec![
        strct("m", "Ab", vec![(0, "ff".into(), true, 1, None), (3, "gg".into(), false, 3, None)], some("rest")),
        enm("m", "Bc", vec![(0, "Vv".into(), Some(2), None), (1, "Ww".into(), None, None)], None),
        newtype("n", "Cd", 4),
        Node::Leaf(Ty::U8),
        Node::Wrap(0, 0),
        Node::Service {
            schema: "m".into(),
            name: "Sv".into(),
            doc: None,
            uuid: 0x1234,
            version: 1,
            funcs: vec![(0, "fn".into(), [Some(0), None, Some(3)], None), (5, "go".into(), [None, Some(2), None], None)],
            events: vec![(0, "ev".into(), Some(1), None), (2, "ew".into(), None, None)],
            ffb: some("any"),
            efb: None,
        },
        strct("m", "Lone", vec![], None),
    ];
    o.push(g);
    let mut g = Graph::default();
    g.nodes = vec![
        newtype("m", "Top", 1),
        strct("m", "Mid", vec![(0, "mm".into(), false, 2, None)], None),
        enm("m", "Low", vec![(7, "Vv".into(), Some(3), None)], some("Rest")),
        Node::Map(4, 5),
        Node::Leaf(Ty::Str),
        Node::Array(6, 3),
        Node::Leaf(Ty::Unit),
    ];
    o.push(g);
    if !small {
        for (n, u) in &c.units {
            if n == "brec" || n == "bnest" || (n.starts_with('e') && u.opts.introspection && !u.odd) {
                let g = Graph::of(&u.world);
                if g.nodes.len() <= 256 && g.sane() {
                    o.push(g);
                }
            }
        }
    }
    o
}

fn edited(j: &Judge, c: &Corpus) {
    let all = bases(c, false);
    let n = AtomicU64::new(0);
    for g in &all {
        let e = edits(g);
        n.fetch_add(e.len() as u64, Ordering::Relaxed);
        // What refers to something else than the leaves and the few.
        j.ctx.par(e.len(), |i| {
            if !j.ctx.stopped() {
                let styles = [Style { perm: i % 7, refs: i % 5, times: 1, docs: (i % 4) as u8 }];
                j.graph("edits", &e[i], None, &styles);
            }
        });
    }
    // Pairs.
    for g in bases(c, j.ctx.quick()) {
        let e = edits(&g);
        let step = 1;
        j.ctx.par(e.len() / step, |i| {
            if j.ctx.stopped() {
                return;
            }
            for h in edits(&e[i * step]) {
                n.fetch_add(1, Ordering::Relaxed);
                j.graph("edits", &h, None, &[PLAIN]);
            }
        });
    }
    j.ctx.extra("edits", n.into_inner());
    j.ctx.extra("edit_bases", all.len());
}

fn orders(j: &Judge, c: &Corpus) {
    let l = bases(c, false);
    let max = if j.ctx.quick() { 5040 } else { 40320 };
    j.ctx.par(l.len(), |i| {
        let g = &l[i];
        let longest = (0..g.nodes.len())
            .map(|i| match &g.nodes[i] {
                Node::Struct { fields, .. } => fields.len() + 1,
                Node::Enum { variants, .. } => variants.len() + 1,
                Node::Service { funcs, events, .. } => funcs.len() + events.len() + 2,
                _ => g.refs(i).len(),
            })
            .max()
            .unwrap();
        let n: usize = (1..=longest.min(10)).product::<usize>().min(max);
        for k in 0..n {
            if j.ctx.stopped() {
                return;
            }
            j.graph("orders", g, None, &[Style { perm: k, refs: k * 7 % n, times: 1 + k % 2, docs: (k % 4) as u8 }]);
        }
        j.full("orders", g, &[PLAIN]);
    });
}

/// The ids and records of generated code are those of the schema.
fn generated(j: &Judge, c: &Corpus) {
    let e = ENTRIES.get().unwrap();
    let mut per: BTreeMap<&str, Vec<(bool, &str, &str, DynIntrospectable)>> = BTreeMap::new();
    for t in &e.types {
        if let Some(d) = t.dynt {
            per.entry(t.unit).or_default().push((false, t.schema, t.ty, d()));
        }
    }
    for t in &e.services {
        for (_, d) in &t.dynts {
            per.entry(t.unit).or_default().push((true, t.schema, t.name, d()));
        }
    }
    let l: Vec<_> = per.into_iter().collect();
    let n = AtomicU64::new(0);
    j.ctx.par(l.len(), |i| {
        if j.ctx.stopped() {
            return;
        }
        let (unit, types) = &l[i];
        let g = Graph::of(&c.units[*unit].world);
        g.install(PLAIN);
        let ids: Vec<TypeId> = (0..g.nodes.len()).map(|i| TypeId::compute_from_dyn(slot(i))).collect();
        for (svc, schema, name, d) in types {
            let k = g.named(*svc, schema, name).expect("harness: node");
            let canon = g.canon(k);
            let part = format!("generated/{unit}/{name}");
            n.fetch_add(1, Ordering::Relaxed);
            match catch(|| (TypeId::compute_from_dyn(*d), d.lexical_id())) {
                Err(p) => j.fail(&part, "panic", format!("panicked: {p}\n{}", canon.1)),
                Ok((id, lex)) => {
                    if id != ids[k] {
                        j.fail(&part, "generated", format!("the id of the generated code is {}, that of the description is {}\n{}\n{:#?}", show(id), show(ids[k]), canon.1, d.layout()));
                        continue;
                    }
                    if lex != g.lex(k) {
                        j.fail(&part, "lexical", format!("the lexical id of the generated code is {lex}, that of the description is {}\n{}", g.lex(k), canon.1));
                    }
                    j.id(&part, &canon, id, "generated code");
                    j.record(&part, &g, k, &ids, *d);
                }
            }
        }
        j.ctx.add_states(1);
    });
    j.ctx.extra("generated_types", n.into_inner());
}

/// What the library itself implements.
fn std_types(j: &Judge) {
    use aldrin::core as ac;
    use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
    let u8_ = || Ty::U8;
    let tup = |l: &[Ty]| (l.to_vec(), true);
    let one = |t: Ty| (vec![t], false);
    let v = |t: Ty| Ty::Vec(b(t));
    let bx = |t: Ty| Ty::Box(b(t));
    macro_rules! d {
        ($t:ty) => {
            mc_gen_rt::dynt::<$t>()
        };
    }
    let l: Vec<((Vec<Ty>, bool), DynIntrospectable)> = vec![
        (one(Ty::Bool), d!(bool)),
        (one(Ty::U8), d!(u8)),
        (one(Ty::I8), d!(i8)),
        (one(Ty::U16), d!(u16)),
        (one(Ty::I16), d!(i16)),
        (one(Ty::U32), d!(u32)),
        (one(Ty::I32), d!(i32)),
        (one(Ty::U64), d!(u64)),
        (one(Ty::I64), d!(i64)),
        (one(Ty::F32), d!(f32)),
        (one(Ty::F64), d!(f64)),
        (one(Ty::Str), d!(String)),
        (one(Ty::Str), d!(str)),
        (one(Ty::Uuid), d!(uuid::Uuid)),
        (one(Ty::ObjectId), d!(ac::ObjectId)),
        (one(Ty::ServiceId), d!(ac::ServiceId)),
        (one(Ty::Uuid), d!(ac::ObjectUuid)),
        (one(Ty::Uuid), d!(ac::ObjectCookie)),
        (one(Ty::Uuid), d!(ac::ServiceUuid)),
        (one(Ty::Uuid), d!(ac::ServiceCookie)),
        (one(Ty::Uuid), d!(ac::TypeId)),
        (one(Ty::Uuid), d!(ac::BusListenerCookie)),
        (one(Ty::Uuid), d!(ac::ChannelCookie)),
        (one(Ty::Value), d!(ac::Value)),
        (one(Ty::Value), d!(ac::SerializedValue)),
        (one(Ty::Value), d!(ac::SerializedValueSlice)),
        (one(Ty::Bytes), d!(ac::Bytes)),
        (one(Ty::Bytes), d!(ac::ByteSlice)),
        (one(Ty::Unit), d!(())),
        (one(Ty::Lifetime), d!(aldrin::LifetimeId)),
        (one(Ty::Lifetime), d!(aldrin::LifetimeScope)),
        (one(opt(Ty::Str)), d!(Option<String>)),
        (one(bx(Ty::Str)), d!(Box<str>)),
        (one(bx(Ty::Str)), d!(&'static str)),
        (one(bx(Ty::U8)), d!(&'static mut u8)),
        (one(v(Ty::U8)), d!(Vec<u8>)),
        (one(v(Ty::U8)), d!([u8])),
        (one(v(Ty::U16)), d!(VecDeque<u16>)),
        (one(v(Ty::U16)), d!(LinkedList<u16>)),
        (one(Ty::Set(b(Ty::U8))), d!(HashSet<u8>)),
        (one(Ty::Set(b(Ty::U8))), d!(BTreeSet<u8>)),
        (one(Ty::Map(b(Ty::U8), b(Ty::Str))), d!(HashMap<u8, String>)),
        (one(Ty::Map(b(Ty::U8), b(Ty::Str))), d!(BTreeMap<u8, String>)),
        (one(Ty::Map(b(Ty::Str), b(Ty::U8))), d!(BTreeMap<String, u8>)),
        (one(Ty::Result(b(Ty::U8), b(Ty::Str))), d!(Result<u8, String>)),
        (one(Ty::Result(b(Ty::Str), b(Ty::U8))), d!(Result<String, u8>)),
        (one(Ty::Array(b(Ty::U8), 0)), d!([u8; 0])),
        (one(Ty::Array(b(Ty::U8), 300)), d!([u8; 300])),
        (one(Ty::Array(b(Ty::Array(b(Ty::U8), 2)), 3)), d!([[u8; 2]; 3])),
        (one(Ty::Sender(b(Ty::U8))), d!(aldrin::UnboundSender<u8>)),
        (one(Ty::Receiver(b(Ty::U8))), d!(aldrin::UnboundReceiver<u8>)),
        (one(opt(opt(v(bx(Ty::U8))))), d!(Option<Option<Vec<Box<u8>>>>)),
        (tup(&[u8_()]), d!((u8,))),
        (tup(&[u8_(), Ty::Str]), d!((u8, String))),
        (tup(&[Ty::Str, u8_()]), d!((String, u8))),
        (tup(&[u8_(), u8_(), u8_()]), d!((u8, u8, u8))),
        (tup(&[u8_(), opt(Ty::Str), v(u8_())]), d!((u8, Option<String>, Vec<u8>))),
    ];
    for (i, ((tys, tuple), d)) in l.iter().enumerate() {
        let mut g = Graph::default();
        let ids: Vec<usize> = tys.iter().map(|t| g.ty("", t)).collect();
        let k = if *tuple { g.add(Node::Tuple(ids)) } else { ids[0] };
        g.install(PLAIN);
        let ids: Vec<TypeId> = (0..g.nodes.len()).map(|i| TypeId::compute_from_dyn(slot(i))).collect();
        let part = format!("std/{i}");
        let id = TypeId::compute_from_dyn(*d);
        if id != ids[k] || d.lexical_id() != g.lex(k) {
            j.fail(&part, "std", format!("{} has the id {} ({}), that of the description is {} ({})", g.desc(k), show(id), d.lexical_id(), show(ids[k]), g.lex(k)));
            continue;
        }
        j.id(&part, &g.canon(k), id, "library");
        j.record(&part, &g, k, &ids, *d);
        j.ctx.add_states(1);
    }
    j.ctx.extra("library_types", l.len());
}

/// A client that registered a type answers for it and for all it refers to.
fn clients(j: &Judge) {
    let e = ENTRIES.get().unwrap();
    let mut l: Vec<(&str, &str, DynIntrospectable)> = vec![];
    for t in &e.services {
        for (_, d) in &t.dynts {
            l.push((t.unit, t.name, d()));
        }
    }
    for t in &e.types {
        if let Some(d) = t.dynt {
            if t.unit.starts_with("brec") || t.unit.starts_with("bnest") || t.unit.starts_with('e') || (t.unit.starts_with('a') && t.ty == "S") {
                l.push((t.unit, t.ty, d()));
            }
        }
    }
    let n = AtomicU64::new(0);
    j.ctx.par(l.len(), |i| {
        if j.ctx.stopped() {
            return;
        }
        let (unit, name, d) = l[i];
        let part = format!("client/{unit}/{name}");
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        rt.block_on(async {
            let broker = Broker::new();
            let mut bh = broker.handle().clone();
            tokio::spawn(broker.run());
            let mut h = vec![];
            for _ in 0..2 {
                let (a, b) = aldrin::core::channel::unbounded();
                let (conn, client) = tokio::join!(bh.connect(a), AldrinClient::connect(b));
                let (conn, client) = (conn.expect("harness: connect"), client.expect("harness: connect"));
                tokio::spawn(conn.run());
                h.push(client.handle().clone());
                tokio::spawn(client.run());
            }
            let root = Introspection::from_dyn(d);
            if h[1].query_introspection(root.type_id()).await.ok().flatten().is_some() {
                j.fail(&part, "client", "a type is known that nobody registered".into());
            }
            h[0].register_introspection_dyn(d).unwrap();
            h[0].submit_introspection().unwrap();
            h[0].sync_broker().await.unwrap();
            let mut seen = HashSet::new();
            let mut todo = vec![root.type_id()];
            while let Some(id) = todo.pop() {
                if !seen.insert(id) {
                    continue;
                }
                n.fetch_add(1, Ordering::Relaxed);
                for (who, h) in h.iter().enumerate() {
                    let q = tokio::time::timeout(std::time::Duration::from_secs(60), h.query_introspection(id)).await;
                    let r = match q {
                        Ok(Ok(Some(r))) => r,
                        x => {
                            j.fail(&part, "client", format!("client {who}: querying {} which {} refers to yields {x:?}", show(id), show(root.type_id())));
                            return;
                        }
                    };
                    if r.type_id() != id || (id == root.type_id() && r != root) {
                        j.fail(&part, "client", format!("client {who}: querying {} yields {r:#?}", show(id)));
                        return;
                    }
                    todo.extend(r.iter_references());
                }
            }
        });
        j.ctx.add_states(1);
    });
    j.ctx.extra("records_queried", n.into_inner());
}

pub fn run(ctx: &Ctx) {
    let c = corpus(ctx);
    let j = Judge::new(ctx);
    let replay = ctx.replay.as_ref().map(|r| r["part"].as_str().unwrap().split('/').next().unwrap().to_string());
    let on = |p: &str| ctx.only(p) && replay.as_deref().is_none_or(|r| r == p);
    ctx.assume("no two different types of a graph have the same schema and name");
    ctx.assume("names are identifiers (a schema `a::b` and a type `c` are not told from `a` and `b::c`)");
    ctx.unmark();
    let mut time = std::time::Instant::now();
    macro_rules! part {
        ($n:literal, $e:expr) => {
            if on($n) {
                $e;
                ctx.extra(concat!("seconds_", $n), time.elapsed().as_secs());
                time = std::time::Instant::now();
            }
        };
    }
    part!("structs", structs(&j));
    part!("enums", enums(&j));
    part!("services", services(&j));
    part!("types", types(&j));
    part!("graphs", graphs(&j));
    part!("edits", edited(&j, &c));
    part!("orders", orders(&j, &c));
    part!("generated", generated(&j, &c));
    part!("std", std_types(&j));
    part!("client", clients(&j));
    let _ = time;
    ctx.extra("distinct_descriptions", j.distinct.into_inner());
    ctx.sample(json!({"description": bases(&c, true)[0].canon(0).1}));
}
