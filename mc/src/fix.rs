//! Fixtures and the reference notions every oracle shares: published contents, artefact names, intact artefacts.
//! Nothing in here uses the code under test.
#![allow(dead_code)]
use crate::exec::{cmd_spec, file, sub, Node, Spec, Tree, World};
use crate::par::h64;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::{Cursor, Read, Write};
use std::sync::Arc;

/// Larger files are sparse ones, there for their size only.
pub const HUGE: u64 = 64 << 20;

pub fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut s = seed;
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        v.extend_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    v.truncate(n);
    v
}
/// Published content of a version. Versions share a large common part (so that patches are much smaller than
/// builds), except those whose name starts with "x", which are unrelated to all others. Those of "L…" and "xL…" do not
/// fit into any of the buffers on their way; those of "M…" and "xM…" are larger than 2 and 5 MiB.
pub fn content(v: &str) -> Arc<Vec<u8>> {
    thread_local!(static M: RefCell<HashMap<String, Arc<Vec<u8>>>> = RefCell::new(HashMap::new()));
    if let Some(c) = M.with(|m| m.borrow().get(v).cloned()) {
        return c;
    }
    let mut c = match v {
        _ if v.starts_with("xM") => noise(h64(&v), 5_300_000),
        _ if v.starts_with('M') => noise(9, 2_200_000),
        _ if v.starts_with("xL") => noise(h64(&v), 200_000),
        _ if v.starts_with('L') => noise(8, 200_000),
        _ if v.starts_with('x') => noise(h64(&v), 300),
        _ => noise(7, 900),
    };
    let tag = noise(h64(&v) ^ 1, 16 + (h64(&v) % 9) as usize);
    let at = 100 + (h64(&v) % 100) as usize;
    let tail = c.split_off(at);
    c.extend_from_slice(&tag);
    c.extend_from_slice(v.as_bytes());
    c.extend_from_slice(&tail);
    let c = Arc::new(c);
    M.with(|m| m.borrow_mut().insert(v.to_string(), c.clone()));
    c
}
pub fn z(b: &[u8]) -> Vec<u8> {
    zl(b, 1)
}
pub fn zl(b: &[u8], level: i32) -> Vec<u8> {
    let mut e = zstd::stream::write::Encoder::new(vec![], level).unwrap();
    e.include_checksum(true).unwrap();
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
pub fn unz(b: &[u8]) -> Option<Vec<u8>> {
    zstd::stream::decode_all(b).ok()
}
pub fn build(v: &str) -> Arc<Vec<u8>> {
    thread_local!(static M: RefCell<HashMap<String, Arc<Vec<u8>>>> = RefCell::new(HashMap::new()));
    if let Some(c) = M.with(|m| m.borrow().get(v).cloned()) {
        return c;
    }
    let c = Arc::new(z(&content(v)));
    M.with(|m| m.borrow_mut().insert(v.to_string(), c.clone()));
    c
}
pub fn diff(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut p = vec![];
    // in a thread pool of its own: the threads of a longer-lived one would be missing in forked processes
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    let d = |p: &mut Vec<u8>| bidiff::simple_diff_with_params(a, b, p, &bidiff::DiffParams::new(1, Some(100_000_000)).unwrap()).unwrap();
    pool.install(|| d(&mut p));
    p
}
pub fn patch(a: &str, b: &str) -> Arc<Vec<u8>> {
    thread_local!(static M: RefCell<HashMap<(String, String), Arc<Vec<u8>>>> = RefCell::new(HashMap::new()));
    let k = (a.to_string(), b.to_string());
    if let Some(c) = M.with(|m| m.borrow().get(&k).cloned()) {
        return c;
    }
    let c = Arc::new(z(&diff(&content(a), &content(b))));
    M.with(|m| m.borrow_mut().insert(k, c.clone()));
    c
}
/// Apply a stored patch to an old content.
pub fn apply(old: &[u8], patch: &[u8]) -> Option<Vec<u8>> {
    let p = unz(patch)?;
    let mut r = bipatch::Reader::new(Cursor::new(p), Cursor::new(old)).ok()?;
    let mut out = vec![];
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.read_to_end(&mut out).ok().map(|_| ()))).ok().flatten()?;
    Some(out)
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Art {
    Build(String),
    Patch(String, String),
}
impl Art {
    pub fn name(&self) -> String {
        match self {
            Art::Build(v) => format!("{}.tar.zst", v),
            Art::Patch(a, b) if a.contains('-') || b.contains('-') => format!("{}---{}.patch.zst", a, b),
            Art::Patch(a, b) => format!("{}-{}.patch.zst", a, b),
        }
    }
    pub fn bytes(&self) -> Arc<Vec<u8>> {
        match self {
            Art::Build(v) => build(v),
            Art::Patch(a, b) => patch(a, b),
        }
    }
    /// Does this file content represent the artefact completely and correctly?
    pub fn intact(&self, b: &[u8]) -> bool {
        thread_local!(static M: RefCell<HashMap<(Art, u64, usize), bool>> = RefCell::new(HashMap::new()));
        if b == &self.bytes()[..] {
            return true;
        }
        let k = (self.clone(), h64(&b), b.len());
        if let Some(r) = M.with(|m| m.borrow().get(&k).copied()) {
            return r;
        }
        let r = match self {
            Art::Build(v) => unz(b).map_or(false, |c| c == **content(v)),
            Art::Patch(x, y) => apply(&content(x), b).map_or(false, |c| c == **content(y)),
        };
        M.with(|m| m.borrow_mut().insert(k, r));
        r
    }
}
pub fn b(v: &str) -> Art {
    Art::Build(v.into())
}
pub fn p(x: &str, y: &str) -> Art {
    Art::Patch(x.into(), y.into())
}
/// All artefact names over a set of versions.
pub fn names(vs: &[&str]) -> BTreeMap<String, Art> {
    let mut m = BTreeMap::new();
    for x in vs {
        m.insert(b(x).name(), b(x));
        for y in vs {
            if x != y {
                m.insert(p(x, y).name(), p(x, y));
            }
        }
    }
    m
}
pub fn is_art_name(n: &str) -> bool {
    n.ends_with(".tar.zst") || n.ends_with(".patch.zst")
}
/// Files with artefact names directly in a store (a tree relative to the store).
pub fn arts(store: &Tree) -> BTreeMap<String, Arc<Vec<u8>>> {
    store
        .iter()
        .filter_map(|(k, n)| match n {
            Node::File(b, _) if is_art_name(k) && !k.contains('/') => Some((k.clone(), b.clone())),
            _ => None,
        })
        .collect()
}
/// First artefact-named file that is not an intact artefact over the given versions.
pub fn bad_art(store: &Tree, names: &BTreeMap<String, Art>) -> Option<String> {
    for (n, b) in arts(store) {
        match names.get(&n) {
            None => return Some(format!("unexpected artefact `{}`", n)),
            Some(a) if !a.intact(&b) => return Some(format!("`{}` is not intact ({} bytes)", n, b.len())),
            _ => {}
        }
    }
    None
}
pub fn short(s: &str) -> String {
    s.lines().filter(|l| !l.trim().is_empty()).take(12).map(|l| l.chars().take(140).collect::<String>()).collect::<Vec<_>>().join(" | ")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rem {
    Fs,
    S3,
    /// S3 without a path in the URL
    S3Root,
    /// S3, path with trailing slash
    S3Slash,
    /// S3, two path components
    S3Deep,
}
impl Rem {
    pub fn arg(self) -> &'static str {
        match self {
            Rem::Fs => "@/remote",
            Rem::S3 => "s3://bkt.s3.test/pre",
            Rem::S3Root => "s3://bkt.s3.test",
            Rem::S3Slash => "s3://bkt.s3.test/pre/",
            Rem::S3Deep => "s3://bkt.s3.test/pre/sub",
        }
    }
    /// Path in the world under which the remote's artefact `n` is stored.
    pub fn path(self, n: &str) -> String {
        match self {
            Rem::Fs => format!("remote/{}", n),
            Rem::S3 | Rem::S3Slash => format!("bucket/{}", crate::s3::enc(&format!("pre/{}", n))),
            // an URL without path: the tool's keys start with "/" (key_for("") == "/")
            Rem::S3Root => format!("bucket/{}", crate::s3::enc(&format!("/{}", n))),
            Rem::S3Deep => format!("bucket/{}", crate::s3::enc(&format!("pre/sub/{}", n))),
        }
    }
    /// The remote's files as a tree of plain names.
    pub fn view(self, t: &Tree) -> Tree {
        match self {
            Rem::Fs => sub(t, "remote"),
            _ => {
                let probe = self.path("");
                sub(t, "bucket")
                    .into_iter()
                    .filter_map(|(k, v)| {
                        let full = format!("bucket/{}", k);
                        full.strip_prefix(&probe).filter(|r| !r.contains("%2F")).map(|r| (crate::s3::dec(r), v.clone()))
                    })
                    .collect()
            }
        }
    }
    pub fn is_s3(self) -> bool {
        self != Rem::Fs
    }
    pub fn name(self) -> String {
        format!("{:?}", self)
    }
    pub fn parse(s: &str) -> Rem {
        [Rem::Fs, Rem::S3, Rem::S3Root, Rem::S3Slash, Rem::S3Deep].into_iter().find(|r| r.name() == s).unwrap()
    }
}
/// Command line on the standing local store and the given remote.
pub fn on(rem: Rem, args: &[&str]) -> Spec {
    let mut a = vec!["--local", "@/local", "--remote", rem.arg()];
    a.extend_from_slice(args);
    cmd_spec(&a)
}
pub fn store(local: &[Art], remote: &[Art], rem: Rem, current: Option<&str>) -> Tree {
    let mut t = Tree::new();
    for a in local {
        t.insert(format!("local/{}", a.name()), file(a.bytes()));
    }
    for a in remote {
        t.insert(rem.path(&a.name()), file(a.bytes()));
    }
    if let Some(c) = current {
        t.insert("local/current".into(), Node::Link(format!("@/local/{}.tar.zst", c)));
    }
    t
}
/// What `current` resolves to: None if there is no entry at all, Some(Err) if it is not a link to a complete build
/// in the local store under its right name.
pub fn current(t: &Tree) -> Option<Result<String, String>> {
    match t.get("local/current")? {
        Node::Link(l) => {
            let v = match resolve(t, "local", l).and_then(|r| Some(r.strip_prefix("local/")?.strip_suffix(".tar.zst")?.to_string())) {
                Some(v) if !v.contains('/') => v,
                _ => return Some(Err(format!("current -> {}", l))),
            };
            match t.get(&format!("local/{}.tar.zst", v)) {
                Some(Node::File(x, _)) if b(&v).intact(x) => Some(Ok(v)),
                Some(_) => Some(Err(format!("current -> {} which is not an intact build", l))),
                None => Some(Err(format!("current -> {} which does not exist", l))),
            }
        }
        _ => Some(Err("current is not a symlink".into())),
    }
}
/// Where a path leads from a directory of the world ("@/..." is the world's root), following links.
pub fn resolve(t: &Tree, dir: &str, path: &str) -> Option<String> {
    let mut todo: Vec<String> = path.split('/').rev().map(String::from).collect();
    let mut at: Vec<String> = dir.split('/').filter(|x| !x.is_empty()).map(String::from).collect();
    let mut left = 50;
    while let Some(c) = todo.pop() {
        left -= 1;
        match c.as_str() {
            _ if left == 0 => return None,
            "@" => at.clear(),
            "" | "." => {}
            ".." => {
                at.pop()?;
            }
            _ => {
                at.push(c);
                if let Some(Node::Link(l)) = t.get(&at.join("/")) {
                    if l.starts_with('/') {
                        return None;
                    }
                    at.pop();
                    todo.extend(l.split('/').rev().map(String::from));
                }
            }
        }
    }
    Some(at.join("/"))
}
/// Does `current` deliver version v's content?
pub fn installed(t: &Tree, v: &str) -> Result<(), String> {
    match current(t) {
        Some(Ok(c)) if c == v => match t.get("local/current") {
            // (the link itself names the file, no matter in what way it names the directory)
            Some(Node::Link(l)) => {
                let (d, f) = l.rsplit_once('/').unwrap_or((".", l));
                if f == b(v).name() && resolve(t, "local", d).as_deref() == Some("local") {
                    Ok(())
                } else {
                    Err(format!("current leads to the build of {} only by way of {}", v, l))
                }
            }
            _ => unreachable!(),
        },
        Some(Ok(c)) => Err(format!("current delivers {} instead of {}", c, v)),
        Some(Err(e)) => Err(e),
        None => Err("no current".into()),
    }
}
pub fn show(t: &Tree) -> String {
    t.iter()
        .map(|(k, n)| match n {
            Node::File(b, _) => format!("{}({})", k, b.len()),
            Node::Link(l) => format!("{}->{}", k, l),
            Node::Dir => format!("{}/", k),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn run_on(w: &World, t: &Tree, spec: &Spec) -> (crate::exec::Out, Tree) {
    w.load(t);
    let o = w.cli(spec);
    let s = w.snap_all();
    (o, s)
}
