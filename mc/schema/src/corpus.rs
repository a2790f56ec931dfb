//! Every schema file of the repository.

use std::path::{Path, PathBuf};

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let name = e.file_name();
        let name = name.to_string_lossy();
        if p.is_dir() {
            if name != "target" && !name.starts_with('.') {
                walk(&p, out);
            }
        } else if name.ends_with(".aldrin") {
            out.push(p);
        }
    }
}

pub struct File {
    pub name: String,
    pub path: PathBuf,
    pub src: String,
}

pub fn all() -> Vec<File> {
    let mut v = vec![];
    walk(Path::new("/repo"), &mut v);
    v.sort();
    v.into_iter()
        .filter_map(|p| {
            let b = std::fs::read(&p).ok()?;
            Some(File {
                name: p.file_stem()?.to_str()?.to_string(),
                src: String::from_utf8(b).ok()?,
                path: p,
            })
        })
        .collect()
}

/// A file together with its directory's other schemas (as far as it refers to them).
pub fn with_siblings(all: &[File], f: &File, src: String) -> crate::util::Files {
    let mut out = crate::util::Files { main: f.name.clone(), src: Some(src), others: vec![] };
    for o in all {
        if o.path.parent() == f.path.parent() && o.name != f.name && f.src.contains(&o.name) {
            out.others.push((o.name.clone(), Some(o.src.clone())));
        }
    }
    out
}
