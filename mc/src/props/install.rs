//! C01, C02, C03: every configuration of builds, patches, current and damage within the bounds, one real install each.
use crate::exec::*;
use crate::fix::*;
use crate::hist::{self, cmd, Move};
use crate::par::*;
use crate::s3::S3Cfg;
use crate::shim;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const L: u8 = 1;
pub const R: u8 = 2;
pub const BUILD: usize = 1200;

/// `b` grown to `n` bytes by a skippable frame, which does not change what it decompresses to.
pub fn pad(b: &[u8], n: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    if n == 0 {
        return v;
    }
    assert!(n >= b.len() + 8, "cannot pad {} to {}", b.len(), n);
    v.extend_from_slice(&0x184D_2A50u32.to_le_bytes());
    v.extend_from_slice(&((n - b.len() - 8) as u32).to_le_bytes());
    v.resize(n, 0x5a);
    v
}
/// An installation problem: builds with their places, patches with places and sizes, what is current, what to install.
#[derive(Clone, Debug)]
pub struct Conf {
    pub vs: Vec<String>,
    pub b: Vec<u8>,
    pub p: Vec<(usize, usize, u8, usize)>,
    /// index, or -1 for none
    pub cur: i64,
    pub tgt: usize,
    pub rem: Rem,
    pub page: usize,
    /// size of the target build
    pub tsize: usize,
    /// how the stores are called, see NAMING
    pub naming: usize,
}
/// Different ways to name the standing local store and a directory remote (the working directory is home/).
const NAMING: [(&str, &str); 10] = [
    ("@/local", "@/remote"), ("../local", "../remote"), ("./../local/", "./../remote/"), ("@/home/l", "@/home/r"), ("l", "r"), ("@/home/../local", "@/remote/."),
    ("../local/../home/l", "../remote"), ("@//local//", "@//remote//"), ("@/home/l2", "r"), ("l2/", "@/remote"),
];
impl Conf {
    pub fn json(&self) -> Value {
        json!({"vs": self.vs, "b": self.b, "p": self.p, "cur": self.cur, "tgt": self.tgt, "rem": self.rem.name(), "page": self.page, "tsize": self.tsize, "naming": self.naming})
    }
    pub fn parse(v: &Value) -> Conf {
        let u = |x: &Value| x.as_u64().unwrap() as usize;
        Conf {
            vs: v["vs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect(),
            b: v["b"].as_array().unwrap().iter().map(|x| u(x) as u8).collect(),
            p: v["p"].as_array().unwrap().iter().map(|x| (u(&x[0]), u(&x[1]), u(&x[2]) as u8, u(&x[3]))).collect(),
            cur: v["cur"].as_i64().unwrap(),
            tgt: u(&v["tgt"]),
            rem: Rem::parse(v["rem"].as_str().unwrap()),
            page: u(&v["page"]),
            tsize: v["tsize"].as_u64().unwrap_or(BUILD as u64) as usize,
            naming: v["naming"].as_u64().unwrap_or(0) as usize,
        }
    }
    pub fn tree(&self) -> Tree {
        let mut t = Tree::new();
        for (i, loc) in self.b.iter().enumerate() {
            let n = b(&self.vs[i]).name();
            let size = if i == self.tgt { self.tsize } else if build(&self.vs[i]).len() + 8 > BUILD { 0 } else { BUILD };
            let x = Arc::new(pad(&build(&self.vs[i]), if huge(size) { 0 } else { size }));
            if loc & L != 0 {
                t.insert(format!("local/{}", n), file(x.clone()));
            }
            if loc & R != 0 {
                t.insert(self.rem.path(&n), file(x));
            }
        }
        for (i, j, loc, size) in &self.p {
            let n = p(&self.vs[*i], &self.vs[*j]).name();
            let x = Arc::new(pad(&patch(&self.vs[*i], &self.vs[*j]), if huge(*size) { 0 } else { *size }));
            if loc & L != 0 {
                t.insert(format!("local/{}", n), file(x.clone()));
            }
            if loc & R != 0 {
                t.insert(self.rem.path(&n), file(x));
            }
        }
        if self.cur >= 0 {
            t.insert("local/current".into(), Node::Link(format!("@/local/{}.tar.zst", self.vs[self.cur as usize])));
        }
        if self.naming != 0 {
            t.insert("home/l".into(), Node::Link("@/local".into()));
            t.insert("home/r".into(), Node::Link("../remote".into()));
            t.insert("home/l2".into(), Node::Link("l".into()));
        }
        t
    }
    /// Sparse files of the sizes that cannot be stored really.
    fn stretch(&self, w: &World) {
        let mut todo = vec![];
        for (i, j, loc, size) in &self.p {
            todo.push((p(&self.vs[*i], &self.vs[*j]).name(), *loc, *size));
        }
        todo.push((b(&self.vs[self.tgt]).name(), self.b[self.tgt], self.tsize));
        for (n, loc, size) in todo.into_iter().filter(|x| huge(x.2)) {
            for q in [(L, format!("local/{}", n)), (R, self.rem.path(&n))].iter().filter(|q| loc & q.0 != 0) {
                std::fs::OpenOptions::new().write(true).open(w.p(&q.1)).and_then(|f| f.set_len(size as u64)).expect("sparse file");
            }
        }
    }
    pub fn spec(&self) -> Spec {
        let (l, r) = NAMING[self.naming];
        let mut s = cmd_spec(&["--local", l, "--remote", if self.rem == Rem::Fs { r } else { self.rem.arg() }, "install", &self.vs[self.tgt]]);
        s.s3 = S3Cfg { page: self.page, ..S3Cfg::default() };
        s
    }
    pub fn patch_bytes(&self, i: usize) -> usize {
        let (x, y, _, s) = self.p[i];
        if s > 0 { s } else { patch(&self.vs[x], &self.vs[y]).len() }
    }
    /// All simple chains from current to target among patches between known builds.
    fn chains(&self) -> Vec<(usize, Vec<usize>)> {
        fn go(c: &Conf, at: usize, seen: &mut Vec<usize>, path: &mut Vec<usize>, cost: usize, out: &mut Vec<(usize, Vec<usize>)>) {
            if at == c.tgt {
                out.push((cost, path.clone()));
                return;
            }
            for (i, (x, y, loc, _)) in c.p.iter().enumerate() {
                if *x == at && *loc != 0 && c.b[*y] != 0 && !seen.contains(y) {
                    seen.push(*y);
                    path.push(i);
                    go(c, *y, seen, path, cost + c.patch_bytes(i), out);
                    path.pop();
                    seen.pop();
                }
            }
        }
        let mut out = vec![];
        let s = self.cur as usize;
        go(self, s, &mut vec![s], &mut vec![], 0, &mut out);
        out
    }
}
fn huge(size: usize) -> bool {
    size as u64 > HUGE
}
/// Names of the artefacts whose content was opened in the given store.
fn opened(o: &Out, rem: Rem, local: bool) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for e in &o.ev {
        let n = if e.op == shim::OPENR && e.err == 0 && local && e.cls == shim::C_LOCAL {
            e.path.strip_prefix("local/")
        } else if e.op == shim::OPENR && e.err == 0 && !local && e.cls == shim::C_REMOTE {
            e.path.strip_prefix("remote/")
        } else if e.op == shim::COPY && !local && e.cls == shim::C_REMOTE {
            e.path.strip_prefix("remote/")
        } else if e.op == shim::S3 && !local {
            e.path.strip_prefix("GET ").map(|k| k.rsplit('/').next().unwrap())
        } else {
            None
        };
        if let Some(n) = n {
            if is_art_name(n) {
                s.insert(n.to_string());
            }
        }
    }
    let _ = rem;
    s
}
fn c01(cx: &mut Cx, what: &str, o: &Out, t: &Tree, v: &str) {
    if o.code == 0 {
        if let Err(m) = installed(t, v) {
            cx.fail("installed", format!("{}: install {} reported success, but {}", what, v, m));
        }
    }
}
fn c02(cx: &mut Cx, what: &str, o: &Out, t: &Tree, v: &str) {
    if o.code != 0 {
        cx.fail("refused", format!("{}: {} is available intact, but install ended with {}: {}", what, v, o.code, short(&o.err)));
    } else if let Err(m) = installed(t, v) {
        cx.fail("wrong", format!("{}: {} is available intact, but {}", what, v, m));
    }
}
fn c03(cx: &mut Cx, c: &Conf, o: &Out, before: &Tree, after: &Tree) {
    let what = || format!("{} -> {}", show(before), o.code);
    if o.code != 0 {
        return;
    }
    let tn = b(&c.vs[c.tgt]).name();
    let read = opened(o, c.rem, false);
    if c.b[c.tgt] & L != 0 && !read.is_empty() {
        // cached already
        return cx.fail("cached", format!("{}: the target is cached, but {:?} was read from the remote", what(), read));
    }
    if c.b[c.tgt] & L != 0 || c.cur < 0 || c.b[c.cur as usize] & L == 0 || c.cur as usize == c.tgt {
        return;
    }
    let ch = c.chains();
    let min = ch.iter().map(|x| x.0).min();
    let direct = min.map_or(true, |m| m >= c.tsize);
    if direct {
        if read != BTreeSet::from([tn.clone()]) {
            cx.fail("direct", format!("{}: {} has to be fetched directly (chains cost {:?}, the build {}), but {:?} was read from the remote", what(), tn, min, c.tsize, read));
        }
        return;
    }
    cx.count("chains_taken", 1);
    let used: BTreeSet<String> = opened(o, c.rem, true).into_iter().filter(|n| n.ends_with(".patch.zst")).collect();
    let (lb, la) = (arts(&sub(before, "local")), arts(&sub(after, "local")));
    let added: BTreeSet<String> = la.keys().filter(|n| !lb.contains_key(*n)).cloned().collect();
    let mut why = vec![];
    for (_, path) in ch.iter().filter(|x| Some(x.0) == min) {
        let from = path.iter().rposition(|i| c.b[c.p[*i].1] & L != 0).map_or(0, |i| i + 1);
        let nm = |i: &usize| p(&c.vs[c.p[*i].0], &c.vs[c.p[*i].1]).name();
        let suffix: BTreeSet<String> = path[from..].iter().map(nm).collect();
        let need: BTreeSet<String> = path[from..].iter().filter(|i| c.p[**i].2 & L == 0).map(nm).collect();
        let mut may: BTreeSet<String> = suffix.clone();
        may.extend(path[from..].iter().map(|i| b(&c.vs[c.p[*i].1]).name()));
        if read == need && suffix.is_subset(&used) && added.is_subset(&may) {
            return;
        }
        why.push(format!("{:?} (remote: {:?})", suffix, need));
    }
    cx.fail("route", format!("{}: needed are the patches {}, but read from the remote was {:?}, used were {:?}, new in the local store is {:?}", what(), why.join(" or "), read, used, added));
}

/// Things that may lie around in the stores without touching any intact artefact.
const DAMAGE: [&str; 15] = [
    "tmp-local", "tmp-many", "tmp-remote", "subdir-local", "subdir-remote", "odd-local", "odd-remote", "raw-names", "dangling-link", "cur-missing", "cur-dangling", "cur-foreign-link", "cur-file",
    "empty-target", "empty-patch",
];
pub const OCCUPIERS: usize = 4;
pub fn occupy(t: &mut Tree, at: &str, k: usize) {
    let node = match k {
        0 | 1 => Node::Dir,
        2 => Node::Link("@/local/gone".into()),
        _ => Node::Link("@/home".into()),
    };
    t.insert(at.to_string(), node);
    if k == 1 {
        t.insert(format!("{}/0.tar.zst", at), file(b"inside".to_vec()));
    }
}
fn damage(t: &mut Tree, d: &str, c: &Conf) {
    let junk = |s: &str| file(s.as_bytes().to_vec());
    let rem = c.rem;
    let odd = ["a---b---c.patch.zst", "1-2-3.patch.zst", ".tar.zst", "-.tar.zst", "x---y.tar.zst", "noversion.patch.zst", "README", "7.tar", "7.zst", ".hidden", "-1-.tar.zst", "..tar.zst"];
    match d {
        "tmp-local" => {
            for n in [b(&c.vs[c.tgt]).name(), "current".into()] {
                for k in 0..2 {
                    t.insert(format!("local/._artefacta-temp-1600000000-{}-{}.part", k, n), junk("half"));
                }
                t.insert(format!("local/._artefacta-temp-{}-1600000000.part", n), junk("half"));
            }
        }
        "tmp-many" => {
            // what many killed processes have left behind within one second
            let mut names = vec![b(&c.vs[c.tgt]).name(), "current".into()];
            names.extend(c.p.iter().map(|(x, y, ..)| p(&c.vs[*x], &c.vs[*y]).name()));
            for n in names {
                for k in 0..130 {
                    t.insert(format!("local/._artefacta-temp-1600000000-{}-{}.part", k, n), junk("half"));
                }
            }
        }
        "tmp-remote" => {
            t.insert(rem.path(&format!("._artefacta-temp-1600000000-0-{}.part", b(&c.vs[c.tgt]).name())), junk("half"));
        }
        "subdir-local" => {
            t.insert("local/sub".into(), Node::Dir);
            t.insert("local/sub/77.tar.zst".into(), junk("x"));
            t.insert("local/dir.tar.zst".into(), Node::Dir);
            t.insert("local/1-dir.patch.zst".into(), Node::Dir);
        }
        "subdir-remote" => {
            if rem == Rem::Fs {
                t.insert("remote/sub".into(), Node::Dir);
                t.insert("remote/dir.tar.zst".into(), Node::Dir);
                t.insert("remote/1-dir.patch.zst".into(), Node::Dir);
            } else {
                t.insert(rem.path("sub/77.tar.zst"), junk("x"));
                t.insert(rem.path("dir.tar.zst/"), file(vec![]));
            }
        }
        "odd-local" => {
            for n in odd {
                t.insert(format!("local/{}", n), junk("odd"));
            }
        }
        "odd-remote" => {
            for n in odd {
                t.insert(rem.path(n), junk("odd"));
            }
        }
        "raw-names" => {
            t.insert(format!("local/{}", raw_name(b"\xff\xfe.tar.zst")), junk("odd"));
            t.insert(format!("local/{}", raw_name(b"1-\xff.patch.zst")), junk("odd"));
            if rem == Rem::Fs {
                t.insert(format!("remote/{}", raw_name(b"\xff.tar.zst")), junk("odd"));
            }
        }
        "dangling-link" => {
            t.insert("local/nowhere.tar.zst".into(), Node::Link("@/local/gone".into()));
            t.insert("local/loop".into(), Node::Link("loop".into()));
            if rem == Rem::Fs {
                t.insert("remote/nowhere.tar.zst".into(), Node::Link("/nonexistent/x".into()));
            }
        }
        "cur-missing" => {
            t.remove("local/current");
        }
        "cur-dangling" => {
            t.insert("local/current".into(), Node::Link("@/local/gone.tar.zst".into()));
        }
        "cur-foreign-link" => {
            t.insert("local/current".into(), Node::Link("@/home".into()));
        }
        "cur-file" => {
            t.insert("local/current".into(), junk("I am not a link"));
        }
        "empty-target" => {
            let k = format!("local/{}", b(&c.vs[c.tgt]).name());
            if !t.contains_key(&k) {
                t.insert(k, file(vec![]));
            }
        }
        "empty-patch" => {
            for (i, j, loc, _) in &c.p {
                let n = p(&c.vs[*i], &c.vs[*j]).name();
                if loc & L != 0 {
                    t.insert(format!("local/{}", n), file(vec![]));
                }
                if loc & R != 0 {
                    t.insert(rem.path(&n), file(vec![]));
                }
            }
        }
        _ if d.starts_with("cur:") => {
            let mut d = d.split(':').skip(1);
            let how = d.next().unwrap();
            let f = b(&c.vs[if d.next() == Some("tgt") { c.tgt } else { c.cur.max(0) as usize }]).name();
            let own = format!("@/local/{}", f);
            let mut link = |at: &str, to: &str| {
                t.insert(at.into(), Node::Link(to.into()));
            };
            match how {
                "via" => {
                    link("local/current", "@/home/hop");
                    link("home/hop", &own);
                }
                "via-same" => {
                    link("local/current", &format!("@/home/{}", f));
                    link(&format!("home/{}", f), &own);
                }
                "via-own" => {
                    link("local/current", "@/local/hop");
                    link("local/hop", &f);
                }
                "via-dir" => {
                    link("local/current", &format!("@/home/loc/{}", f));
                    link("home/loc", "../local");
                }
                "bare" => link("local/current", &f),
                "up" => link("local/current", &format!("../local/./{}", f)),
                "twin" => {
                    link("local/current", &format!("@/home/{}", f));
                    t.insert(format!("home/{}", f), junk("another build"));
                }
                "copy" => {
                    link("local/current", &format!("@/home/{}", f));
                    t.insert(format!("home/{}", f), file(build(f.strip_suffix(".tar.zst").unwrap())));
                }
                "loop" => link("local/current", "current"),
                "plain" => {
                    t.insert("local/current".into(), file(build(f.strip_suffix(".tar.zst").unwrap())));
                }
                "dir" => link("local/current", "@/local"),
                _ => panic!("{}", how),
            }
        }
        _ => panic!("{}", d),
    }
}
/// Every odd `current`.
const CURS: [&str; 11] = ["via", "via-same", "via-own", "via-dir", "bare", "up", "twin", "copy", "loop", "plain", "dir"];
/// Well-formed patches (intact files) which cannot be applied to the content of `v`: every sequence of up to three
/// instructions from a menu, and the real patch's instructions cut off everywhere, as far as applying them fails.
fn misfits(v: &str, to: &str) -> Vec<Vec<u8>> {
    let n = content(v).len();
    let menu: Vec<(usize, usize, i64)> = vec![(n + 1, 0, 0), (n, 0, 0), (10, 20, 0), (0, 9000, 0), (5, 0, n as i64), (3, 0, -5), (0, 4, i64::MAX), (1, 1, -1), (300_000, 10, 0)];
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..3 {
        let more: Vec<Vec<usize>> = seqs.iter().filter(|s| s.len() + 1 > 0).flat_map(|s| (0..menu.len()).map(move |i| [s.clone(), vec![i]].concat())).collect();
        seqs.extend(more);
        seqs.sort();
        seqs.dedup();
    }
    let mut out = vec![];
    for s in seqs {
        let mut raw = vec![];
        {
            let mut w = bidiff::enc::Writer::new(&mut raw).unwrap();
            for i in s {
                let (a, c, seek) = menu[i];
                w.write(&bidiff::Control { add: &vec![0; a], copy: &noise(3, c), seek }).unwrap();
            }
        }
        out.push(raw);
    }
    let whole = unz(&patch(v, to)).unwrap();
    for k in 0..whole.len() {
        out.push(whole[..k].to_vec());
    }
    out.into_iter().map(|r| z(&r)).filter(|r| apply(&content(v), r).is_none()).collect()
}
/// How a stored patch is damaged: [kind, arg]
fn spoil(x: &[u8], k: &Value) -> Vec<u8> {
    let n = k[1].as_u64().unwrap() as usize;
    let m = k[2].as_u64().unwrap_or(0) as usize;
    let mut v = x.to_vec();
    match k[0].as_str().unwrap() {
        "cut" => v.truncate(n),
        "flip" => v[n] ^= m as u8,
        "noise" => v = noise(n as u64, m),
        "append" => v.extend(noise(n as u64, m)),
        "drop" => {
            v.remove(n);
        }
        "text" => v = b"<html>404</html>".to_vec(),
        _ => panic!(),
    }
    v
}
fn perms(v: &[String]) -> Vec<Vec<String>> {
    if v.len() <= 1 {
        return vec![v.to_vec()];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut r = v.to_vec();
        let x = r.remove(i);
        for mut q in perms(&r) {
            q.insert(0, x.clone());
            out.push(q);
        }
    }
    out
}
fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}
/// Chain 0 -> 1 -> .. -> n-1 with everything remote except the first build.
fn chain(vs: &[String], rem: Rem, cached: usize) -> Conf {
    let n = vs.len();
    Conf {
        vs: vs.to_vec(),
        b: (0..n).map(|i| if i == 0 { L } else if cached >> i & 1 == 1 { L | R } else { R }).collect(),
        p: (0..n - 1).map(|i| (i, i + 1, R, 0)).collect(),
        cur: 0,
        tgt: n - 1,
        rem,
        page: 0,
        tsize: BUILD,
        naming: 0,
    }
}

/// A chain of n builds whose patches are all in one place.
fn wrecked(n: usize, rem: Rem, loc: u8) -> Conf {
    let vs: Vec<String> = (0..n).map(|i| format!("{}.0", 9 + i)).collect();
    let mut c = chain(&vs, rem, 0);
    for q in &mut c.p {
        q.2 = loc;
    }
    c.tsize = BUILD * 8;
    c
}

pub struct Install(pub &'static str);

impl Install {
    /// all configurations of three builds and three patches
    fn small(&self, quick: bool) -> Vec<Conf> {
        let mut v = vec![];
        let rems: &[Rem] = if quick { &[Rem::Fs, Rem::S3] } else { &[Rem::Fs, Rem::S3, Rem::S3Root, Rem::S3Slash, Rem::S3Deep] };
        for rem in rems {
            for bb in 0..64u8 {
                for pp in 0..64u8 {
                    for cur in -1..3i64 {
                        v.push(Conf {
                            vs: strs(&["10", "9", "a-1"]),
                            b: (0..3).map(|i| bb >> (2 * i) & 3).collect(),
                            p: [(0, 1), (1, 2), (0, 2)].iter().enumerate().map(|(i, (x, y))| (*x, *y, pp >> (2 * i) & 3, 0)).collect(),
                            cur,
                            tgt: 2,
                            rem: *rem,
                            page: 0,
                            tsize: BUILD,
                            naming: 0,
                        });
                    }
                }
            }
        }
        v
    }
    /// chains with every order of names and every set of cached builds
    fn long(&self, quick: bool) -> Vec<Conf> {
        let mut v = vec![];
        let names = strs(if quick { &["10", "9", "b-1", "2"] } else { &["10", "9", "b-1", "2", "a.tar"] });
        for vs in perms(&names) {
            for cached in 0..1usize << names.len() {
                if cached & 1 == 1 {
                    continue;
                }
                for rem in [Rem::Fs, Rem::S3] {
                    let c = chain(&vs, rem, cached);
                    v.push(c.clone());
                    if cached == 0 {
                        // patches cached instead
                        for pm in 1..1usize << (names.len() - 1) {
                            let mut c = c.clone();
                            for (i, q) in c.p.iter_mut().enumerate() {
                                if pm >> i & 1 == 1 {
                                    q.2 |= L;
                                }
                            }
                            v.push(c);
                        }
                    }
                }
            }
        }
        v
    }
    /// Chains of up to 40 patches, alone or among other artefacts, against direct patches, shortcuts and builds of all relevant sizes.
    fn far(&self, quick: bool) -> Vec<Conf> {
        let mut v = vec![];
        let lens: &[usize] = if quick { &[6, 8, 9, 12, 16, 17, 18, 25, 33, 41] } else { &[6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 24, 25, 32, 33, 34, 41, 63, 64] };
        for rem in [Rem::Fs, Rem::S3] {
            for n in lens {
                let vs: Vec<String> = (0..*n).map(|i| format!("{}.0", 9 + i)).collect();
                for cached in [0, 1usize << (n / 2), 1 << (n - 2), (1 << (n - 1)) - 2] {
                    let mut c = chain(&vs, rem, cached);
                    for q in &mut c.p {
                        q.3 = 300;
                    }
                    let sum = 300 * (n - 1);
                    for d in [-300i64, -1, 0, 1, 300] {
                        // the build, a direct patch, one that skips the first or the last steps: each slightly dearer or cheaper than the chain
                        let at = |x: usize| (x as i64 + d) as usize;
                        let mut x = c.clone();
                        x.tsize = at(sum).max(BUILD);
                        v.push(x);
                        for (from, to) in [(0, n - 1), (0, n - 2), (1, n - 1), (1, n - 2)] {
                            let mut x = c.clone();
                            x.tsize = sum * 3;
                            x.p.push((from, to, if d == 1 { L | R } else { R }, at(300 * (to - from))));
                            v.push(x);
                        }
                    }
                    // among many others
                    for more in [30, 70] {
                        let mut x = c.clone();
                        x.tsize = sum * 3;
                        for i in 0..more {
                            x.vs.push(format!("o{}", i));
                            x.b.push([R, L | R, L, R][i % 4]);
                            x.p.push((i % n, x.vs.len() - 1, [R, L | R, L][i % 3], 300));
                            if i > 0 {
                                x.p.push((x.vs.len() - 2, x.vs.len() - 1, R, 300));
                            }
                        }
                        v.push(x);
                    }
                }
            }
            // steps over one and two
            for n in 5..if quick { 10 } else { 13 } {
                for (one, two) in [(300, 500), (300, 700), (500, 900), (300, 600)] {
                    let vs: Vec<String> = (0..n).map(|i| format!("{}.0", 9 + i)).collect();
                    let mut c = chain(&vs, rem, 0);
                    for q in &mut c.p {
                        q.3 = one;
                    }
                    for i in 0..n - 2 {
                        c.p.push((i, i + 2, R, two));
                    }
                    c.tsize = one * n * 3;
                    v.push(c);
                }
            }
        }
        v
    }
    /// graphs with enumerated patch sizes
    fn weighted(&self, quick: bool) -> Vec<Conf> {
        let mut v = vec![];
        let sizes: &[usize] = if quick { &[300, 600, 900] } else { &[300, 600, 900, 1200] };
        // three builds: sizes x places
        for rem in [Rem::Fs, Rem::S3] {
            for mid in [L, R, L | R] {
                let one = sizes.len() * 3 + 1;
                for k in 0..one * one * one {
                    let f = |d: usize| {
                        let x = k / one.pow(d as u32) % one;
                        if x == 0 { (0, 0) } else { ([L, R, L | R][(x - 1) % 3], sizes[(x - 1) / 3]) }
                    };
                    let ed = [(0, 1, f(0)), (1, 2, f(1)), (0, 2, f(2))];
                    v.push(Conf { vs: strs(&["10", "9", "a-1"]), b: vec![L, mid, R], p: ed.iter().filter(|e| e.2 .0 != 0).map(|(x, y, (l, s))| (*x, *y, *l, *s)).collect(), cur: 0, tgt: 2, rem, page: 0, tsize: BUILD, naming: 0 });
                }
            }
        }
        // four builds: all forward edges (and in the thorough tier one backward edge)
        let sizes: &[usize] = &[0, 300, 600];
        for names in [["1", "2", "3", "4"], ["10", "9", "8", "7"], ["m", "b-1", "z", "a"]] {
            for mids in 0..4u8 {
                for k in 0..3usize.pow(6) {
                    for back in if quick { vec![0] } else { vec![0, 1, 2, 3] } {
                        let f = |d: u32| sizes[k / 3usize.pow(d) % 3];
                        let mut p: Vec<(usize, usize, u8, usize)> = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)].iter().enumerate().filter(|(i, _)| f(*i as u32) > 0).map(|(i, (x, y))| (*x, *y, R, f(i as u32))).collect();
                        match back {
                            1 => p.push((2, 1, R, 300)),
                            2 => p.push((3, 1, R, 300)),
                            3 => p.push((1, 0, R, 300)),
                            _ => {}
                        }
                        v.push(Conf { vs: strs(&names), b: vec![L, if mids & 1 != 0 { L | R } else { R }, if mids & 2 != 0 { L } else { R }, R], p, cur: 0, tgt: 3, rem: if k % 2 == 0 { Rem::Fs } else { Rem::S3 }, page: 0, tsize: BUILD, naming: 0 });
                    }
                }
            }
        }
        v
    }
    /// graphs with files beyond 2 and 4 GiB (sparse); the cheapest route is a small one
    fn giant(&self) -> Vec<Conf> {
        const G2: usize = 1 << 31;
        const G4: usize = 1 << 32;
        let sizes = [0, 600, G2 + 600, G4 + 300, G4 + G2 + 10];
        let mut v = vec![];
        for rem in [Rem::Fs, Rem::S3] {
            for mid in [L, R, L | R] {
                for tsize in [BUILD, G2 + 100, G4 + 300] {
                    for loc in [R, L, L | R] {
                        for k in 0..sizes.len().pow(3) {
                            let f = |d: u32| sizes[k / sizes.len().pow(d) % sizes.len()];
                            let p = [(0, 1, f(0)), (1, 2, f(1)), (0, 2, f(2))].iter().filter(|e| e.2 != 0).map(|(x, y, s)| (*x, *y, loc, *s)).collect();
                            let c = Conf { vs: strs(&["10", "9", "a-1"]), b: vec![L, mid, R], p, cur: 0, tgt: 2, rem, page: 0, tsize, naming: 0 };
                            let any = huge(c.tsize) || c.p.iter().any(|q| huge(q.3));
                            let chain = c.chains().iter().map(|x| x.0).min().unwrap_or(usize::MAX);
                            if any && !huge(chain.min(tsize)) {
                                v.push(c);
                            }
                        }
                    }
                }
            }
        }
        v
    }
    /// every way to name the stores
    fn named(&self) -> Vec<Conf> {
        let mut v = vec![];
        for naming in 1..NAMING.len() {
            for rem in [Rem::Fs, Rem::S3] {
                for bb in 0..64u8 {
                    for pp in [0, 0b1010, 0b0110, 0b1001, 0b111111] {
                        for cur in -1..3i64 {
                            v.push(Conf {
                                vs: strs(&["10", "9", "a-1"]),
                                b: (0..3).map(|i| bb >> (2 * i) & 3).collect(),
                                p: [(0, 1), (1, 2), (0, 2)].iter().enumerate().map(|(i, (x, y))| (*x, *y, pp >> (2 * i) & 3, 0)).collect(),
                                cur,
                                tgt: 2,
                                rem,
                                page: 0,
                                tsize: BUILD,
                                naming,
                            });
                        }
                    }
                }
            }
        }
        v.retain(|c| c.b[2] != 0);
        v
    }
    /// names as long as they can be: the patches' names (a "-" in a version makes them longer) fill a file name
    fn lengthy(&self) -> Vec<Conf> {
        let mut v = vec![];
        let x = |c: &str, n: usize| c.repeat(n);
        let names = [
            vec!["1".to_string(), x("a", 120), x("b", 123)],
            vec!["1".to_string(), x("c", 121), x("d", 121) + "-"  + "e"],
            vec![x("f", 81), x("g", 81), x("h", 81)],
            vec!["1".to_string(), "2".to_string(), x("i", 243)],
            vec![x("k", 243), "2".to_string(), "1".to_string()],
        ];
        for vs in names.iter() {
            let b_ok = |i: usize| b(&vs[i]).name().len() <= 255;
            assert!((0..3).all(b_ok));
            for rem in [Rem::Fs, Rem::S3, Rem::S3Root] {
                for bb in 0..64u8 {
                    for pp in [0, 0b1010, 0b0110, 0b1001, 0b111111, 0b101010, 0b010101, 0b100000, 0b010000] {
                        for cur in -1..3i64 {
                            let mut c = Conf {
                                vs: vs.clone(),
                                b: (0..3).map(|i| bb >> (2 * i) & 3).collect(),
                                p: [(0, 1), (1, 2), (0, 2)].iter().enumerate().map(|(i, (x, y))| (*x, *y, pp >> (2 * i) & 3, 0)).collect(),
                                cur,
                                tgt: 2,
                                rem,
                                page: 0,
                                tsize: BUILD,
                                naming: 0,
                            };
                            c.p.retain(|(i, j, _, _)| p(&vs[*i], &vs[*j]).name().len() <= 255);
                            v.push(c);
                        }
                    }
                }
            }
        }
        // two builds whose names are so long that there can be no patches
        for rem in [Rem::Fs, Rem::S3, Rem::S3Root] {
            for bb in 0..16u8 {
                for cur in -1..2i64 {
                    v.push(Conf { vs: vec![x("m", 247), x("n", 247)], b: (0..2).map(|i| bb >> (2 * i) & 3).collect(), p: vec![], cur, tgt: 1, rem, page: 0, tsize: BUILD, naming: 0 });
                }
            }
        }
        v.retain(|c| c.b[c.tgt] != 0);
        v
    }
    /// Builds of several sizes up to 5 MiB, two and three of them.
    fn large(&self, quick: bool) -> Vec<Conf> {
        let mut v = vec![];
        for rem in [Rem::Fs, Rem::S3, Rem::S3Root] {
            for vs in [["L1", "L2"], ["xL1", "xL2"], ["M1", "M2"], ["xM1", "xM2"], ["1", "xL2"], ["xL1", "2"]] {
                for (b0, b1) in [(L, L), (L, R), (L | R, R), (R, R), (R, L | R), (0, R)] {
                    for pl in 0..if vs[0].starts_with("xM") { 1 } else { 4u8 } {
                        for cur in [-1, 0] {
                            if cur == 0 && b0 & L == 0 {
                                continue;
                            }
                            v.push(Conf { vs: strs(&vs), b: vec![b0, b1], p: if pl == 0 { vec![] } else { vec![(0, 1, pl, 0)] }, cur, tgt: 1, rem, page: 0, tsize: BUILD, naming: 0 });
                        }
                    }
                }
            }
            for cached in 0..if quick { 2 } else { 4 } {
                v.push(chain(&strs(&["L1", "L2", "L3", "L4"]), rem, 2 * cached));
                v.push(chain(&strs(&["M1", "M2", "M3"]), rem, 2 * cached));
            }
        }
        for c in &mut v {
            c.tsize = if c.vs[0].contains('M') { 5_400_000 } else { 210_000 };
        }
        v
    }
    /// Something that is no file has the name of an artefact.
    fn occupied(&self, quick: bool) -> Vec<Value> {
        let mut v = vec![];
        for rem in [Rem::Fs, Rem::S3] {
            for n in 2..if quick { 4 } else { 5 } {
                let c = chain(&strs(&["10", "9", "a-1", "b"][..n]), rem, 0);
                let mut places: Vec<String> = vec![];
                for d in ["local", "remote"] {
                    if d == "local" || rem == Rem::Fs {
                        places.extend(c.vs.iter().map(|x| format!("{}/{}", d, b(x).name())));
                        places.extend(c.p.iter().map(|(x, y, _, _)| format!("{}/{}", d, p(&c.vs[*x], &c.vs[*y]).name())));
                    }
                }
                let mut kinds: Vec<Vec<(usize, usize)>> = vec![];
                for i in 0..places.len() {
                    for a in 0..OCCUPIERS {
                        kinds.push(vec![(i, a)]);
                        for j in i + 1..places.len() {
                            for b in 0..OCCUPIERS {
                                if !quick || a == b {
                                    kinds.push(vec![(i, a), (j, b)]);
                                }
                            }
                        }
                    }
                }
                for k in kinds {
                    let o: Vec<Value> = k.iter().map(|(i, a)| json!([places[*i], a])).collect();
                    v.push(json!({"conf": c.json(), "occ": o}));
                }
            }
        }
        v
    }
    fn damaged(&self, quick: bool) -> Vec<Value> {
        let mut v = vec![];
        let routes = |rem: Rem| -> Vec<(Conf, Vec<u8>)> {
            let vs2 = strs(&["10", "9"]);
            let vs3 = strs(&["10", "9", "a-1"]);
            let one = chain(&vs2, rem, 0);
            let two = chain(&vs3, rem, 0);
            let mut one_l = one.clone();
            one_l.p[0].2 = L;
            let mut cached = two.clone();
            cached.b[2] = L;
            let mut missing = two.clone();
            missing.b[1] = 0;
            vec![(one, vec![]), (two, vec![]), (one_l, vec![]), (cached, vec![]), (missing, vec![])]
        };
        for rem in if quick { vec![Rem::Fs, Rem::S3] } else { vec![Rem::Fs, Rem::S3, Rem::S3Root, Rem::S3Deep] } {
            let rt = routes(rem);
            // lying around: every subset of the menu on the first two routes (quick: subsets of at most 3), at most two on the others
            for (k, (c, _)) in rt.iter().enumerate() {
                for m in 0..1u32 << DAMAGE.len() {
                    let lim = match (k, quick) {
                        (0, true) | (1, true) => 3,
                        (_, true) => 2,
                        (0, false) | (1, false) => 5,
                        _ => 3,
                    };
                    if m.count_ones() > lim && m.count_ones() < DAMAGE.len() as u32 {
                        continue;
                    }
                    let d: Vec<&str> = DAMAGE.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect();
                    if d.iter().filter(|x| x.starts_with("cur-")).count() > 1 && m.count_ones() < DAMAGE.len() as u32 {
                        continue;
                    }
                    v.push(json!({"conf": c.json(), "dmg": d}));
                }
            }
            // current leads to the right file in an odd way, or to a wrong one
            for (c, _) in &rt {
                for cur in CURS {
                    for which in ["cur", "tgt"] {
                        for more in std::iter::once(None).chain(DAMAGE.iter().filter(|x| !x.starts_with("cur")).map(Some)) {
                            let mut d = vec![format!("cur:{}:{}", cur, which)];
                            d.extend(more.map(|x| x.to_string()));
                            v.push(json!({"conf": c.json(), "dmg": d, "oddcur": true}));
                        }
                    }
                }
            }
            // intact files that do not fit
            for (ci, which) in [(0usize, 0usize), (1, 0), (1, 1), (2, 0)] {
                let c = &rt[ci].0;
                let (x, y, _, _) = c.p[which];
                for k in 0..misfits(&c.vs[x], &c.vs[y]).len() {
                    v.push(json!({"conf": c.json(), "spoil": [which, ["misfit", k]]}));
                }
            }
            // damaged patches: every length, every byte
            for (ci, which) in [(0usize, 0usize), (1, 0), (1, 1), (2, 0)] {
                let c = &rt[ci].0;
                let len = tool_patch_len(c, which);
                let mut ks = vec![];
                for n in 0..len {
                    ks.push(json!(["cut", n]));
                    let xs: Vec<usize> = if quick {
                        vec![1, 0x80, 0xff]
                    } else if rem == Rem::Fs && ci != 2 {
                        (1..256).collect()
                    } else {
                        (0..8).map(|b| 1 << b).chain([0xff]).collect()
                    };
                    for x in xs {
                        ks.push(json!(["flip", n, x]));
                    }
                    ks.push(json!(["drop", n]));
                }
                for n in 0..8 {
                    let (x, y) = ([1, 4, 9, 64, 128, 500, 900, 1000][n], [1, 4, 9, 64, 128, 200, 300, 400][n]);
                    ks.push(json!(["noise", n, x]));
                    ks.push(json!(["append", n, y]));
                }
                ks.push(json!(["text", 0]));
                for k in ks {
                    v.push(json!({"conf": c.json(), "spoil": [which, k]}));
                }
            }
        }
        // chains in which any of the patches are damaged
        for rem in [Rem::Fs, Rem::S3] {
            for n in 3..if quick { 8 } else { 10 } {
                for m in 1..1u32 << (n - 1) {
                    for how in 0..3 {
                        for loc in [R, L] {
                            v.push(json!({"conf": wrecked(n, rem, loc).json(), "wreck": [m, how]}));
                        }
                    }
                }
            }
            for n in [12, 20, 31] {
                for i in 0..n - 1 {
                    for how in 0..3 {
                        v.push(json!({"conf": wrecked(n, rem, R).json(), "wreck": [1u32 << i, how]}));
                    }
                }
            }
        }
        // a patch of several blocks, cut at and around every block boundary
        for rem in [Rem::Fs, Rem::S3] {
            v.push(json!({"big": rem.name(), "quick": quick}));
        }
        v
    }
    /// The local store's patch as the tool itself writes it.
    fn big(&self, cx: &mut Cx, case: &Value) {
        let rem = Rem::parse(case["big"].as_str().unwrap());
        let c = chain(&strs(&["xa", "xb"]), rem, 0);
        let (x, y) = (noise(11, 3000), noise(12, 420_000));
        let enc = |b: &[u8]| pad(&z(b), 700_000);
        let mut t = Tree::new();
        t.insert("local/xa.tar.zst".into(), file(enc(&x)));
        t.insert("local/xb.tar.zst".into(), file(enc(&y)));
        let (o, s) = run_on(&cx.w, &t, &on(rem, &["create-patch", "xa", "xb"]));
        let pf = match bytes(&s, "local/xa-xb.patch.zst") {
            Some(pf) if o.code == 0 => pf.clone(),
            _ => return cx.fail("big", format!("cannot create the big patch: {}", short(&o.err))),
        };
        let mut cuts: BTreeSet<usize> = BTreeSet::new();
        // block boundaries of the zstd frame
        if pf.len() > 12 {
            let fhd = pf[4];
            let single = fhd >> 5 & 1;
            let fcs = [if single == 1 { 1 } else { 0 }, 2, 4, 8][(fhd >> 6) as usize];
            let mut o = 5 + (1 - single as usize) + [0, 1, 2, 4][(fhd & 3) as usize] + fcs;
            while o + 3 <= pf.len() {
                for d in [-1i64, 0, 1, 2, 3, 4] {
                    cuts.insert((o as i64 + d).clamp(0, pf.len() as i64 - 1) as usize);
                }
                let h = pf[o] as usize | (pf[o + 1] as usize) << 8 | (pf[o + 2] as usize) << 16;
                let (last, ty, sz) = (h & 1, h >> 1 & 3, h >> 3);
                o += 3 + if ty == 1 { 1 } else { sz };
                cx.count("blocks", 1);
                if last == 1 {
                    break;
                }
            }
        }
        let step = if case["quick"].as_bool().unwrap() { 20_000 } else { 1500 };
        cuts.extend((0..pf.len()).step_by(step));
        let flips: Vec<usize> = (0..pf.len()).step_by(step).collect();
        let mut base = Tree::new();
        base.insert("local/xa.tar.zst".into(), file(enc(&x)));
        base.insert(rem.path("xb.tar.zst"), file(enc(&y)));
        base.insert("local/current".into(), Node::Link("@/local/xa.tar.zst".into()));
        let _ = &c;
        let mut one = |cx: &mut Cx, what: String, pb: Vec<u8>| {
            let mut t = base.clone();
            t.insert(rem.path("xa-xb.patch.zst"), file(pb));
            let (o, s) = run_on(&cx.w, &t, &on(rem, &["install", "xb"]));
            cx.eval(Some(h64(&(rem.name(), &what))));
            let got = bytes(&s, "local/xb.tar.zst").and_then(|b| unz(b));
            let link = s.get("local/current") == Some(&Node::Link("@/local/xb.tar.zst".into()));
            if o.code != 0 {
                cx.fail("refused", format!("big patch {}: install ended with {}: {}", what, o.code, short(&o.err)));
            } else if got.as_deref() != Some(&y[..]) || !link {
                cx.fail("wrong", format!("big patch {}: install reported success but delivered {:?} bytes instead of {}", what, got.map(|g| g.len()), y.len()));
            }
        };
        one(cx, "as it is".into(), pf.to_vec());
        for n in cuts {
            one(cx, format!("cut to {} of {} bytes", n, pf.len()), pf[..n].to_vec());
        }
        for n in flips {
            let mut b = pf.to_vec();
            b[n] ^= 0x10;
            one(cx, format!("with byte {} changed", n), b);
        }
    }
    fn bfs_menu(&self) -> (Tree, Vec<Move>) {
        let vs = ["10", "9", "a-1"];
        let mut t = Tree::new();
        for v in vs {
            t.insert(format!("input/{}.tar.zst", v), file(build(v)));
        }
        t.extend(store(&[b("10")], &[b("9")], Rem::Fs, None).into_iter());
        let mut m = vec![];
        for v in vs {
            m.push(cmd(&format!("install {}", v)));
        }
        for v in vs {
            m.push(cmd(&format!("add @/input/{}.tar.zst", v)));
        }
        m.push(cmd("add --upload @/input/a-1.tar.zst"));
        m.push(cmd("add --calc-patch-from 10 @/input/9.tar.zst"));
        for (x, y) in [("10", "9"), ("9", "a-1"), ("9", "10")] {
            m.push(cmd(&format!("create-patch {} {}", x, y)));
        }
        m.push(cmd("sync"));
        for v in vs {
            m.push(Move::Rm(format!("local/{}.tar.zst", v)));
        }
        m.push(Move::Rm("local/10-9.patch.zst".into()));
        m.push(Move::Rm("local/current".into()));
        (t, m)
    }
    fn bfs_init(&self, rem: Rem) -> (Tree, Vec<Move>) {
        let (mut t, m) = self.bfs_menu();
        if rem != Rem::Fs {
            let x = t.remove("remote/9.tar.zst").unwrap();
            t.insert(rem.path("9.tar.zst"), x);
        }
        (t, m)
    }
    fn judge(&self, cx: &mut Cx, pre: &Tree, m: &Move, o: Option<&Out>, post: &Tree) {
        if let (Move::Cmd(a), Some(o)) = (m, o) {
            if a[0] == "install" {
                cx.count(if o.code == 0 { "installs_ok" } else { "installs_refused" }, 1);
                c01(cx, &format!("{} : {}", show(pre), m.show()), o, post, &a[1]);
            }
        }
    }
}
/// Upgrades 10 -> a-1 in which everything may be present everywhere and patches may be damaged.
pub fn rough(quick: bool) -> Vec<Value> {
    let mut v = vec![];
    // a patch: its places, whether it is damaged
    let states: &[(u8, bool)] = if quick { &[(0, false), (R, false), (R, true)] } else { &[(0, false), (R, false), (R, true), (L, false), (L, true), (L | R, false), (L | R, true)] };
    let n = states.len();
    for rem in [Rem::Fs, Rem::S3] {
        for old in [L, L | R] {
            for mid in 0..4 {
                for new in [L, R, L | R] {
                    for k in 0..n.pow(3) {
                        let st: Vec<(u8, bool)> = (0..3).map(|i| states[k / n.pow(i) % n]).collect();
                        let ed = [(0, 1), (1, 2), (0, 2)];
                        let p: Vec<(usize, usize, u8, usize)> = ed.iter().zip(&st).filter(|x| x.1 .0 != 0).map(|((x, y), s)| (*x, *y, s.0, 0)).collect();
                        let hurt: Vec<bool> = st.iter().filter(|s| s.0 != 0).map(|s| s.1).collect();
                        for cur in if quick { vec![0] } else { vec![0, 1] } {
                            if cur == 1 && mid & L == 0 {
                                continue;
                            }
                            let c = Conf { vs: strs(&["10", "9", "a-1"]), b: vec![old, mid, new], p: p.clone(), cur, tgt: 2, rem, page: 0, tsize: BUILD, naming: 0 };
                            v.push(json!({"rough": c.json(), "hurt": hurt}));
                            if new == R {
                                v.push(json!({"rough": c.json(), "hurt": hurt, "dmg": "empty-target"}));
                            }
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn rough_tree(v: &Value) -> (Conf, Tree) {
    let c = Conf::parse(&v["rough"]);
    let mut t = c.tree();
    for (i, (x, y, l, _)) in c.p.iter().enumerate() {
        if v["hurt"][i] == true {
            let n = p(&c.vs[*x], &c.vs[*y]).name();
            let bad = patch(&c.vs[*x], &c.vs[*y]);
            let bad = file(bad[..bad.len() * 2 / 3].to_vec());
            if l & L != 0 {
                t.insert(format!("local/{}", n), bad.clone());
            }
            if l & R != 0 {
                t.insert(c.rem.path(&n), bad);
            }
        }
    }
    if let Some(d) = v["dmg"].as_str() {
        damage(&mut t, d, &c);
    }
    (c, t)
}
thread_local!(static MISFITS: std::cell::RefCell<BTreeMap<(String, String), Vec<Vec<u8>>>> = Default::default());
thread_local!(static TOOL: std::cell::RefCell<BTreeMap<(String, String), Arc<Vec<u8>>>> = Default::default());
/// A patch written by the tool itself.
fn tool_patch(w: &World, x: &str, y: &str) -> Arc<Vec<u8>> {
    let k = (x.to_string(), y.to_string());
    if let Some(r) = TOOL.with(|m| m.borrow().get(&k).cloned()) {
        return r;
    }
    let t = store(&[b(x), b(y)], &[], Rem::Fs, None);
    let (o, s) = run_on(w, &t, &on(Rem::Fs, &["create-patch", x, y]));
    let r = bytes(&s, &format!("local/{}", p(x, y).name())).cloned().unwrap_or_else(|| {
        eprintln!("create-patch left no patch: {} {}", o.code, short(&o.err));
        patch(x, y)
    });
    TOOL.with(|m| m.borrow_mut().insert(k, r.clone()));
    r
}
fn tool_patch_len(c: &Conf, i: usize) -> usize {
    let w = World::new(std::path::PathBuf::from(format!("/dev/shm/mc.{}/len", std::process::id())));
    tool_patch(&w, &c.vs[c.p[i].0], &c.vs[c.p[i].1]).len()
}

impl Prop for Install {
    fn id(&self) -> &'static str {
        self.0
    }
    fn level(&self) -> &'static str {
        match self.0 {
            "C01" => "model_checking",
            _ => "exploration",
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            "C01" => "all configurations of 3 builds x 3 patches x places {nowhere, local, remote, both} x current, all 4/5-chains in every name order with every cached subset, names as long as file names can be, builds up to 5 MiB, every way to name the stores, odd targets of current, and breadth-first search over command histories; non-trivial: install succeeded (configurations), state changed (search)",
            "C02" => "the configurations of C01 in which the target is available, every truncation / byte change of every patch on the route, every small subset of the environment-damage menu, odd targets of current, every subset of damaged patches in longer chains; one file removed, cut or replaced between any two operations of the install; non-trivial: distinct case",
            _ => "all 3-build graphs with enumerated patch sizes and places, all forward 4-build graphs with sizes {none,300,600}, chains in every name order with every cached subset; remote reads taken from the trace; non-trivial: distinct configuration in which the install succeeded",
        }
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cases: Vec<Value> = vec![];
        let js = |v: Vec<Conf>| v.into_iter().map(|c| json!({"conf": c.json()})).collect::<Vec<_>>();
        match self.0 {
            "C01" => {
                cases.extend(js(self.small(q)));
                cases.extend(js(self.long(q)));
                cases.extend(js(self.named()));
                cases.extend(js(self.lengthy()));
                cases.extend(js(self.large(q)));
                cases.extend(js(self.far(q)));
                cases.extend(self.occupied(q));
                // intact files that do not fit: whatever install makes of them, success must mean success
                cases.extend(self.damaged(q).into_iter().filter(|c| c["spoil"][1][0] == "misfit" || c["oddcur"] == true));
                ctl.cases(self, cases);
                for rem in [Rem::Fs, Rem::S3] {
                    let (t, m) = self.bfs_init(rem);
                    hist::bfs(ctl, "install", &t, &m, rem, if q { 4 } else { 7 }, if q { 20_000 } else { 200_000 }, &|cx, a, b, c, d| self.judge(cx, a, b, c, d));
                }
            }
            "C02" => {
                // the slow cases first
                let d = self.damaged(q);
                cases.extend(d.iter().filter(|x| x.get("big").is_some()).cloned());
                cases.extend(d.into_iter().filter(|x| x.get("big").is_none()));
                cases.extend(js(self.small(q)).into_iter().filter(|c| c["conf"]["b"][2] != 0));
                cases.extend(js(self.lengthy()));
                cases.extend(js(self.large(q)));
                cases.extend(js(self.far(q)));
                cases.extend(self.occupied(q));
                cases.extend(super::vanish::cases(q));
                ctl.cases(self, cases);
            }
            _ => {
                cases.extend(js(self.giant()));
                cases.extend(js(self.large(q)).into_iter().filter(|c| c["conf"]["b"][1] != 0));
                cases.extend(js(self.far(q)));
                cases.extend(js(self.weighted(q)));
                cases.extend(js(self.long(q)));
                cases.extend(js(self.small(q)).into_iter().filter(|c| c["conf"]["b"][1] != 0 && c["conf"]["b"][2] != 0));
                ctl.cases(self, cases);
            }
        }
    }
    fn case(&self, cx: &mut Cx, case: &Value) {
        if case.get("bfs").is_some() {
            let (t, m) = self.bfs_init(Rem::parse(case["rem"].as_str().unwrap()));
            return hist::replay(cx, &t, &m, case, &|cx, a, b, c, d| self.judge(cx, a, b, c, d));
        }
        if case.get("vanish").is_some() {
            return super::vanish::run(cx, case);
        }
        if case.get("big").is_some() {
            return self.big(cx, case);
        }
        let c = Conf::parse(&case["conf"]);
        let mut t = c.tree();
        if let Some(d) = case["dmg"].as_array() {
            for d in d {
                damage(&mut t, d.as_str().unwrap(), &c);
            }
        }
        if let Some(h) = case["wreck"].as_array() {
            let (m, how) = (h[0].as_u64().unwrap(), h[1].as_u64().unwrap());
            for (i, (x, y, l, _)) in c.p.iter().enumerate() {
                if m >> i & 1 == 0 {
                    continue;
                }
                let a = p(&c.vs[*x], &c.vs[*y]);
                let whole = patch(&c.vs[*x], &c.vs[*y]);
                let data = match how {
                    0 => whole[..whole.len() * 2 / 3].to_vec(),
                    1 => b"garbage".to_vec(),
                    _ => vec![],
                };
                t.insert(if l & L != 0 { format!("local/{}", a.name()) } else { c.rem.path(&a.name()) }, file(data));
            }
        }
        if let Some(s) = case["spoil"].as_array() {
            let (i, j, loc, _) = c.p[s[0].as_u64().unwrap() as usize];
            // all patches as the tool writes them, one damaged
            for (x, y, l, _) in &c.p {
                let tp = tool_patch(&cx.w, &c.vs[*x], &c.vs[*y]);
                let data = if (*x, *y) != (i, j) {
                    tp
                } else if s[1][0] == "misfit" {
                    Arc::new(MISFITS.with(|m| {
                        let mut m = m.borrow_mut();
                        let k = (c.vs[*x].clone(), c.vs[*y].clone());
                        m.entry(k).or_insert_with(|| misfits(&c.vs[*x], &c.vs[*y]))[s[1][1].as_u64().unwrap() as usize].clone()
                    }))
                } else {
                    Arc::new(spoil(&tp, &s[1]))
                };
                let n = p(&c.vs[*x], &c.vs[*y]).name();
                if l & L != 0 {
                    t.insert(format!("local/{}", n), file(data.clone()));
                }
                if l & R != 0 {
                    t.insert(c.rem.path(&n), file(data));
                }
            }
            let _ = loc;
        }
        let v = c.vs[c.tgt].clone();
        let mut avail = c.b[c.tgt] != 0;
        if let Some(o) = case["occ"].as_array() {
            let n = b(&v).name();
            let (mut l, mut r) = (c.b[c.tgt] & L != 0, c.b[c.tgt] & R != 0);
            for o in o {
                let (at, k) = (o[0].as_str().unwrap(), o[1].as_u64().unwrap() as usize);
                occupy(&mut t, at, k);
                if at == format!("remote/{}", n) {
                    r = false;
                }
                if at == format!("local/{}", n) {
                    // a link can be replaced, a directory can't
                    l = false;
                    r &= k > 1;
                }
            }
            avail = l || r;
        }
        cx.w.load(&t);
        c.stretch(&cx.w);
        let o = cx.w.cli(&c.spec());
        let s = cx.w.snap_all();
        cx.count("states", 1);
        cx.count("transitions", 1);
        cx.count("traces", 1);
        cx.eval(if o.code == 0 { Some(h64(&case.to_string())) } else { None });
        let what = || {
            let extra = case.get("dmg").or(case.get("spoil")).or(case.get("occ")).map(|x| x.to_string()).unwrap_or_default();
            format!("{} {}", show(&t), extra)
        };
        match self.0 {
            "C01" => c01(cx, &what(), &o, &s, &v),
            "C02" => {
                if avail {
                    c02(cx, &what(), &o, &s, &v)
                }
            }
            _ => c03(cx, &c, &o, &t, &s),
        }
    }
}
