//! Generic reading of `{:?}` output: the broker's state snapshot is parsed into a tree without
//! knowing its types, canonicalised and compared.

use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Node {
    Leaf(String),
    /// `Name(a, b)` or `(a, b)`
    Tuple(String, Vec<Node>),
    /// `Name { f: a }`
    Struct(String, Vec<(String, Node)>),
    /// `{k: v}`
    Map(Vec<(Node, Node)>),
    /// `{a, b}`
    Set(Vec<Node>),
    /// `[a, b]`
    List(Vec<Node>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.s.get(self.i) == Some(&b' ') {
            self.i += 1;
        }
    }

    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.s.get(self.i).copied()
    }

    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }

    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        if self.s.get(self.i) == Some(&b'"') {
            self.i += 1;
            while let Some(&c) = self.s.get(self.i) {
                self.i += 1;
                match c {
                    b'\\' => self.i += 1,
                    b'"' => break,
                    _ => {}
                }
            }
        } else {
            while let Some(&c) = self.s.get(self.i) {
                if b"(){}[],: ".contains(&c) {
                    break;
                }
                self.i += 1;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.i.min(self.s.len())]).into_owned()
    }

    fn node(&mut self) -> Option<Node> {
        match self.peek()? {
            b'[' => {
                self.i += 1;
                Some(Node::List(self.list(b']')?))
            }
            b'(' => {
                self.i += 1;
                Some(Node::Tuple(String::new(), self.list(b')')?))
            }
            b'{' => {
                self.i += 1;
                self.braces()
            }
            _ => {
                let mut name = self.word();
                if name.is_empty() {
                    // Something unusual such as `::`; take it literally.
                    self.i += 1;
                    name.push('?');
                }
                match self.peek() {
                    Some(b'(') => {
                        self.i += 1;
                        Some(Node::Tuple(name, self.list(b')')?))
                    }
                    Some(b'{') => {
                        self.i += 1;
                        let mut f = Vec::new();
                        while self.peek()? != b'}' {
                            let k = self.word();
                            if k == ".." {
                                continue;
                            }
                            self.eat(b':')?;
                            let v = self.node()?;
                            f.push((k, v));
                            let _ = self.eat(b',');
                        }
                        self.i += 1;
                        Some(Node::Struct(name, f))
                    }
                    _ => Some(Node::Leaf(name)),
                }
            }
        }
    }

    fn list(&mut self, end: u8) -> Option<Vec<Node>> {
        let mut v = Vec::new();
        while self.peek()? != end {
            v.push(self.node()?);
            let _ = self.eat(b',');
        }
        self.i += 1;
        Some(v)
    }

    fn braces(&mut self) -> Option<Node> {
        let mut m = Vec::new();
        let mut s = Vec::new();
        while self.peek()? != b'}' {
            let k = self.node()?;
            if self.eat(b':').is_some() {
                let v = self.node()?;
                m.push((k, v));
            } else {
                s.push(k);
            }
            let _ = self.eat(b',');
        }
        self.i += 1;
        if m.is_empty() {
            Some(Node::Set(s))
        } else {
            Some(Node::Map(m))
        }
    }
}

pub fn parse(s: &str) -> Option<Node> {
    P {
        s: s.as_bytes(),
        i: 0,
    }
    .node()
}

fn skip_name(n: &str) -> bool {
    n.contains("Sender") || n.contains("Receiver") || n == "Instant"
}

fn skip_field(n: &str) -> bool {
    matches!(n, "recv" | "send" | "handle" | "ids" | "next" | "start" | "end" | "introspection_rng")
        || n.starts_with("messages_")
}

pub struct Canon<'a> {
    /// Words (cookies, serials) to replace.
    pub words: &'a HashMap<String, String>,
}

impl Canon<'_> {
    pub fn text(&self, n: &Node) -> String {
        let mut out = String::new();
        self.write(n, &mut out);
        out
    }

    fn write(&self, n: &Node, out: &mut String) {
        match n {
            Node::Leaf(l) => match self.words.get(l) {
                Some(w) => out.push_str(w),
                None => out.push_str(l),
            },
            Node::Tuple(name, v) => {
                if skip_name(name) {
                    return;
                }
                if v.len() == 1 {
                    return self.write(&v[0], out);
                }
                out.push('(');
                for v in v {
                    self.write(v, out);
                    out.push(',');
                }
                out.push(')');
            }
            Node::Struct(name, f) => {
                if skip_name(name) {
                    return;
                }
                out.push('{');
                for (k, v) in f {
                    if skip_field(k) {
                        continue;
                    }
                    out.push_str(k);
                    out.push(':');
                    self.write(v, out);
                    out.push(',');
                }
                out.push('}');
            }
            Node::List(v) => {
                out.push('[');
                for v in v {
                    self.write(v, out);
                    out.push(',');
                }
                out.push(']');
            }
            Node::Set(v) => {
                let mut t: Vec<String> = v.iter().map(|v| self.text(v)).collect();
                t.sort();
                out.push('{');
                out.push_str(&t.join(","));
                out.push('}');
            }
            Node::Map(v) => {
                let mut t: Vec<String> = v
                    .iter()
                    .map(|(k, v)| format!("{}:{}", self.text(k), self.text(v)))
                    .collect();
                t.sort();
                out.push('{');
                out.push_str(&t.join(","));
                out.push('}');
            }
        }
    }
}

/// Paths of all collections in the tree that are not empty.
pub fn non_empty(n: &Node, path: &str, skip: &dyn Fn(&str) -> bool, out: &mut Vec<String>) {
    match n {
        Node::Leaf(_) => {}
        Node::Tuple(name, v) => {
            if !skip_name(name) {
                for v in v {
                    non_empty(v, path, skip, out);
                }
            }
        }
        Node::Struct(name, f) => {
            if skip_name(name) {
                return;
            }
            for (k, v) in f {
                let p = format!("{path}.{k}");
                if !skip_field(k) && !skip(&p) {
                    non_empty(v, &p, skip, out);
                }
            }
        }
        Node::List(v) | Node::Set(v) => {
            if !v.is_empty() {
                out.push(format!("{path} ({} left)", v.len()));
            }
        }
        Node::Map(v) => {
            if !v.is_empty() {
                out.push(format!("{path} ({} left)", v.len()));
            }
        }
    }
}

/// Number of entries of a collection that is a direct field of a struct.
pub fn field_len(n: &Node, field: &str) -> Option<usize> {
    let Node::Struct(_, f) = n else { return None };
    match &f.iter().find(|f| f.0 == field)?.1 {
        Node::Map(m) => Some(m.len()),
        Node::Set(m) | Node::List(m) => Some(m.len()),
        _ => None,
    }
}

pub fn leaves(n: &Node, path: &str, f: &mut dyn FnMut(&str, &str)) {
    match n {
        Node::Leaf(l) => f(path, l),
        Node::Tuple(name, v) => {
            if !skip_name(name) {
                v.iter().for_each(|v| leaves(v, path, f));
            }
        }
        Node::Struct(name, v) => {
            if !skip_name(name) {
                for (k, v) in v {
                    if !skip_field(k) {
                        leaves(v, &format!("{path}.{k}"), f);
                    }
                }
            }
        }
        Node::List(v) | Node::Set(v) => v.iter().for_each(|v| leaves(v, path, f)),
        Node::Map(v) => {
            for (k, v) in v {
                leaves(k, path, f);
                leaves(v, path, f);
            }
        }
    }
}

/// The number of events with subscribers of the first service.
pub fn service_events(n: &Node) -> Option<usize> {
    fn field<'a>(n: &'a Node, name: &str) -> Option<&'a Node> {
        match n {
            Node::Struct(_, f) => {
                f.iter().find(|(k, _)| k == name).map(|(_, v)| v).or_else(|| f.iter().find_map(|(_, v)| field(v, name)))
            }
            Node::Tuple(_, v) | Node::List(v) => v.iter().find_map(|v| field(v, name)),
            _ => None,
        }
    }
    match field(n, "svcs")? {
        Node::Map(m) => match field(&m.first()?.1, "events")? {
            Node::Map(m) => Some(m.len()),
            Node::Set(m) => Some(m.len()),
            _ => None,
        },
        _ => None,
    }
}

/// Connections that the broker refers to although it does not list them as connected.
pub fn gone_connections(n: &Node) -> Vec<String> {
    fn ids(n: &Node, path: &str, f: &mut dyn FnMut(&str, &str)) {
        match n {
            Node::Leaf(_) => {}
            Node::Tuple(name, v) => {
                if !skip_name(name) {
                    v.iter().for_each(|v| ids(v, path, f));
                }
            }
            Node::Struct(name, v) if name == "ConnectionIdInner" => {
                if let Some((_, Node::Leaf(l))) = v.iter().find(|(k, _)| k == "id") {
                    f(path, l);
                }
            }
            Node::Struct(name, v) => {
                if !skip_name(name) {
                    for (k, v) in v {
                        if !skip_field(k) {
                            ids(v, &format!("{path}.{k}"), f);
                        }
                    }
                }
            }
            Node::List(v) | Node::Set(v) => v.iter().for_each(|v| ids(v, path, f)),
            Node::Map(v) => {
                for (k, v) in v {
                    ids(k, path, f);
                    ids(v, path, f);
                }
            }
        }
    }
    let Node::Struct(_, fields) = n else { return vec![] };
    let Some((_, Node::Map(conns))) = fields.iter().find(|(k, _)| k == "conns") else {
        // Either there are no connections, or the broker looks different altogether.
        if !matches!(fields.iter().find(|(k, _)| k == "conns"), Some((_, Node::Set(s))) if s.is_empty()) {
            return vec![];
        }
        let mut gone = vec![];
        ids(n, "Broker", &mut |p, l| gone.push(format!("{p}: connection {l}")));
        return gone;
    };
    let mut live = std::collections::HashSet::new();
    for (k, _) in conns {
        ids(k, "", &mut |_, l| {
            live.insert(l.to_string());
        });
    }
    let mut gone = vec![];
    ids(n, "Broker", &mut |p, l| {
        if !live.contains(l) {
            gone.push(format!("{p}: connection {l}"));
        }
    });
    gone
}
