//! C12: artefact names and versions correspond one to one.
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use artefacta::{paths, ArtefactIndex, Storage, Version};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::path::Path;

pub struct Names;

pub fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
const TOK: [&str; 9] = ["a", "-", ".", "1", ".tar", ".zst", ".patch", "/", "\u{e9}"];
const TOK_PAIR: [&str; 5] = ["a", "-", ".", ".tar", ".patch"];
fn words(tok: &[&str], n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|w| tok.iter().map(move |c| format!("{}{}", w, c))).collect();
        v.extend(last.clone());
    }
    let mut seen = BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
const ODD: [&str; 44] = [
    "current", ".current", ". .", " ", " a", "a ", "a\nb", "a\tb", "a\u{7f}", "%2F", "a%20b", "a+b", "a b", "a&b=c", "a?b", "a#b", "a;b", "a:b", "a,b", "a@b", "a'b", "a\"b", "a<b>", "a\\b", "~", "*", "$HOME", "ü", "日本", "🦀", "e\u{301}",
    "\u{e9}", "1.0.0-rc.1", "v1.2.3", "module-20200629", "a--b", "a.-b", "a-.b", ".-.", "x.tar.zst", "x.patch.zst", "a-b.patch", "A", "._artefacta-temp-1-0-9.tar.zst.part",
];
/// Versions that have to be accepted: they can be told apart in file names.
fn must_accept(s: &str) -> bool {
    !s.is_empty() && !s.contains("---") && !s.starts_with('-') && !s.ends_with('-') && !s.contains('/') && !s.contains('\0')
}
fn version(s: &str) -> Option<Version> {
    Version::try_from(s).ok()
}
/// In-process: accepted or rejected, and every build name parses back.
fn strings(cx: &mut Cx, ws: &[String]) {
    let mut taken: BTreeMap<String, String> = BTreeMap::new();
    for s in ws {
        let v = match version(s) {
            Some(v) => v,
            None => {
                cx.eval(None);
                if must_accept(s) {
                    cx.fail("rejected", format!("{:?} is rejected as a version", s));
                }
                continue;
            }
        };
        cx.eval(Some(h64(s)));
        if v.as_str() != s {
            cx.fail("altered", format!("version {:?} became {:?}", s, v.as_str()));
        }
        let name = match paths::build_path_from_version(v.clone()) {
            Ok(n) => n,
            Err(e) => {
                cx.fail("no-name", format!("accepted version {:?} has no build name: {}", s, e));
                continue;
            }
        };
        if name.contains('/') || name.contains('\0') || name == "." || name == ".." || !name.ends_with(".tar.zst") {
            cx.fail("bad-name", format!("accepted version {:?} has the build name {:?}", s, name));
        }
        if let Some(o) = taken.insert(name.clone(), s.clone()) {
            cx.fail("shared-name", format!("versions {:?} and {:?} share the build name {:?}", s, o, name));
        }
        for dir in ["", "x/", "/abs/dir/", "./", "../up/", "a.tar.zst/", "p-q.patch.zst/", "a---b/"] {
            let p = format!("{}{}", dir, name);
            match paths::build_version_from_path(&p) {
                Ok(w) if w == v => {}
                r => {
                    cx.fail("parse-build", format!("build path {:?} of version {:?} parses as {:?}", p, s, r.map(|v| v.as_str().to_string()).map_err(|e| e.to_string())));
                    return;
                }
            }
        }
    }
}
/// One version against all others: create all patches, open the store again, find each one under its own name only.
fn pairs(cx: &mut Cx, ws: &[String], me: usize, create: bool) {
    let vs: Vec<&String> = ws.iter().filter(|w| version(w).is_some()).collect();
    if me >= vs.len() {
        return;
    }
    let x = vs[me].clone();
    let c = z(b"x");
    let mut t = Tree::new();
    for v in &vs {
        t.insert(format!("local/{}.tar.zst", v), file(c.clone()));
    }
    if !create {
        // files named by the documented scheme
        for y in &vs {
            if **y != x {
                t.insert(format!("local/{}", p(&x, y).name()), file(z(format!("{}>{}", x, y).as_bytes())));
                t.insert(format!("local/{}", p(y, &x).name()), file(z(format!("{}>{}", y, x).as_bytes())));
            }
        }
    }
    cx.w.load(&t);
    let others: Vec<String> = vs.iter().filter(|y| ***y != x).map(|y| y.to_string()).collect();
    let (l, r) = (cx.w.s("local"), cx.w.s("remote"));
    let x2 = x.clone();
    let oth = others.clone();
    let o = cx.w.call(&Spec::default(), move |out| {
        let bad = block_on(async {
            let open = || async { ArtefactIndex::new(&l, Storage::try_from(Path::new(&r)).unwrap()).await.map_err(|e| format!("open: {}", e)) };
            let mut ix = open().await?;
            let v = |s: &str| Version::try_from(s).unwrap();
            let mut seen: BTreeMap<String, String> = BTreeMap::new();
            if create {
                for y in &oth {
                    for (a, b) in [(&x2, y), (y, &x2)] {
                        let before: BTreeSet<_> = std::fs::read_dir(&l).unwrap().map(|e| e.unwrap().file_name()).collect();
                        ix.calculate_patch(v(a), v(b)).await.map_err(|e| format!("create {:?} -> {:?}: {:#}", a, b, e))?;
                        let new: Vec<_> = std::fs::read_dir(&l).unwrap().map(|e| e.unwrap().file_name()).filter(|n| !before.contains(n)).collect();
                        if new.len() != 1 {
                            return Err(format!("creating {:?} -> {:?} made {:?}", a, b, new));
                        }
                    }
                }
                ix = open().await?;
            }
            for y in &oth {
                for (a, b) in [(&x2, y), (y, &x2)] {
                    let e = ix.get_patch(v(a), v(b)).await.map_err(|e| format!("patch {:?} -> {:?} is not found: {:#}", a, b, e))?;
                    if let Some(o) = seen.insert(e.path.clone(), format!("{:?} -> {:?}", a, b)) {
                        return Err(format!("{:?} -> {:?} and {} share the file {}", a, b, o, e.path));
                    }
                    if !create {
                        let got = unz(&std::fs::read(&e.path).unwrap()).unwrap();
                        if got != format!("{}>{}", a, b).as_bytes() {
                            return Err(format!("patch {:?} -> {:?} is taken from {}", a, b, e.path));
                        }
                    }
                }
            }
            for y in &oth {
                let e = ix.get_build(v(y)).await.map_err(|e| format!("build {:?}: {:#}", y, e))?;
                if !e.path.ends_with(&format!("/{}.tar.zst", y)) {
                    return Err(format!("build {:?} is {}", y, e.path));
                }
            }
            Ok::<(), String>(())
        });
        match bad {
            Ok(()) => 0,
            Err(e) => {
                out.extend(e.as_bytes());
                1
            }
        }
    });
    let n = others.len() as u64 * 2;
    cx.count("pairs", n);
    cx.eval(Some(h64(&(&x, create))));
    if o.code != 0 {
        cx.fail("pairs", format!("version {:?}: {} {}", x, String::from_utf8_lossy(&o.data), if o.code > 1 { short(&o.err) } else { String::new() }));
    }
}
/// Through the command line: add or package as V, install, patch, sync, install elsewhere.
fn life(cx: &mut Cx, v: &str, rem: Rem) -> Result<(), (&'static str, String)> {
    let acc = version(v).is_some();
    let base = b("base");
    let mut t = store(&[base.clone()], &[], rem, Some("base"));
    t.insert("input/pkg/f".into(), file(content(v)));
    let named = !v.contains('/') && !v.contains('\0') && !v.is_empty();
    if named {
        t.insert(format!("input/{}.tar.zst", v), file(build(v)));
    }
    let fail = |k: &'static str, m: String| Err((k, format!("version {:?}, {}: {}", v, rem.arg(), m)));
    let mine: BTreeSet<String> = [base.name(), b(v).name(), p("base", v).name(), p(v, "base").name()].into();
    let odd = |t: &Tree, d: &Tree| arts(d).keys().find(|k| !mine.contains(*k)).map(|k| format!("unexpected `{}` in {}", k, show(t)));
    if v.contains('\0') {
        return Ok(());
    }
    let full = format!("@/input/{}.tar.zst", v);
    let adds: Vec<Vec<&str>> = if named { vec![vec!["add", &full], vec!["add-package", v, "@/input/pkg"]] } else { vec![vec!["add-package", v, "@/input/pkg"]] };
    for add in adds {
        let (o, t1) = run_on(&cx.w, &t, &on(rem, &add));
        cx.evals += 1;
        if !acc {
            if o.code == 0 {
                return fail("accepted", format!("{:?} succeeds", add));
            }
            if sub(&t1, "local") != sub(&t, "local") {
                return fail("rejected-changed", format!("{:?} fails but changes the store", add));
            }
            continue;
        }
        if o.code != 0 {
            return fail("add", format!("{:?} fails: {}", add, short(&o.err)));
        }
        let x = match t1.get(&format!("local/{}.tar.zst", v)) {
            Some(Node::File(x, _)) => x.clone(),
            _ => return fail("add-name", format!("{:?} left {}", add, show(&sub(&t1, "local")))),
        };
        if let Some(e) = odd(&t1, &sub(&t1, "local")) {
            return fail("add-other", format!("{:?}: {}", add, e));
        }
        let target = format!("@/local/{}.tar.zst", v);
        let (o, t2) = run_on(&cx.w, &t1, &on(rem, &["install", v]));
        if o.code != 0 || t2.get("local/current") != Some(&Node::Link(target.clone())) {
            return fail("install", format!("after {:?}, install ends with {} and current is {:?}: {}", add, o.code, t2.get("local/current"), short(&o.err)));
        }
        let mut t3 = t2;
        for (a, z2) in [("base", v), (v, "base")] {
            let (o, n) = run_on(&cx.w, &t3, &on(rem, &["create-patch", a, z2]));
            let have = matches!(n.get(&format!("local/{}", p(a, z2).name())), Some(Node::File(..)));
            if o.code != 0 || !have {
                return fail("patch", format!("create-patch {:?} {:?} ends with {}, store {}: {}", a, z2, o.code, show(&sub(&n, "local")), short(&o.err)));
            }
            t3 = n;
        }
        let (o, t4) = run_on(&cx.w, &t3, &on(rem, &["sync"]));
        let rv = rem.view(&t4);
        let names: BTreeSet<String> = arts(&rv).into_keys().collect();
        if o.code != 0 || names != mine {
            return fail("sync", format!("sync ends with {} and the remote has {:?} instead of {:?}: {}", o.code, names, mine, short(&o.err)));
        }
        // elsewhere: directly, and by the patch from base
        for from in [None, Some("base")] {
            let mut t5 = t4.clone();
            t5.retain(|k, _| !k.starts_with("local/"));
            if let Some(f) = from {
                t5.extend(store(&[b(f)], &[], Rem::Fs, Some(f)));
            }
            let (o, t6) = run_on(&cx.w, &t5, &on(rem, &["install", v]));
            cx.evals += 1;
            let same = match t6.get(&format!("local/{}.tar.zst", v)) {
                Some(Node::File(y, _)) => unz(y) == unz(&x),
                _ => false,
            };
            if o.code != 0 || !same || t6.get("local/current") != Some(&Node::Link(target.clone())) {
                return fail("elsewhere", format!("elsewhere (from {:?}) install ends with {}, store {}: {}", from, o.code, show(&sub(&t6, "local")), short(&o.err)));
            }
        }
        // and back again: base from V by patch
        let mut t5 = t4.clone();
        t5.retain(|k, _| !k.starts_with("local/"));
        t5.insert(format!("local/{}.tar.zst", v), file(x.clone()));
        t5.insert("local/current".into(), Node::Link(target.clone()));
        let (o, t6) = run_on(&cx.w, &t5, &on(rem, &["install", "base"]));
        let ok = matches!(t6.get("local/base.tar.zst"), Some(Node::File(y, _)) if base.intact(y));
        if o.code != 0 || !ok {
            return fail("back", format!("going back to base ends with {}: {}", o.code, short(&o.err)));
        }
        cx.eval(Some(h64(&(v, rem.name(), add[0]))));
    }
    Ok(())
}
fn pair_words(n: usize) -> Vec<String> {
    let mut w = words(&TOK_PAIR, n);
    w.extend(["a--b", "b--a", "a-b-c", "a.b-c", "1", "1.0", "1-0", "patch", "tar", "zst", "a.zst", "a.patch.zst", "a-b.patch", "x.tar.zst", "é", "v1.0.0", "v1.0.0-rc.1", " ", "\n"].iter().map(|s| s.to_string()));
    let mut seen = BTreeSet::new();
    w.retain(|x| !x.contains('/') && seen.insert(x.clone()));
    w
}
/// Long versions that differ at their ends only, or at their starts.
fn long_words() -> Vec<String> {
    let mut w = vec![];
    for n in [15, 16, 30, 31, 32, 50, 62, 63, 64, 79, 80, 98, 99, 100, 101, 110, 118] {
        for s in ["1", "2", "-1", ".a"] {
            w.push(format!("{}{}", "x".repeat(n), s));
        }
        w.push(format!("1{}", "x".repeat(n)));
    }
    w
}
impl Prop for Names {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str {
        "all words over 9 tokens (letters, digits, dots, dashes, slashes, `.tar`, `.zst`, `.patch`, non-ASCII) up to length 4 (thorough 6) as versions; all ordered pairs of the accepted words over 5 tokens up to length 3 (thorough 4), patches created by the tool and files named by the documented scheme; all ordered pairs of 85 versions of 16 to 120 bytes that differ in one place; full life cycles on the command line for short words, 44 odd names and names of up to 240 bytes; non-trivial: the string is accepted"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cs = vec![json!({"words": if q { 5 } else { 6 }}), json!({"odd": 1}), json!({"bytes": 1})];
        let n = if q { 2 } else { 3 };
        for me in 0..pair_words(n).len() {
            cs.push(json!({"pair": me, "n": n, "create": true}));
        }
        let n = if q { 3 } else { 4 };
        for me in 0..pair_words(n).len() {
            cs.push(json!({"pair": me, "n": n, "create": false}));
        }
        for me in 0..long_words().len() {
            for create in [true, false] {
                cs.push(json!({"long": me, "create": create}));
            }
        }
        let mut l = words(&TOK, if q { 2 } else { 3 });
        l.extend(words(&["a", "-", ".tar", ".patch"], 3));
        l.extend(ODD.iter().map(|s| s.to_string()));
        for i in [100, 120, 200, 212, 213, 214, 225, 230, 240] {
            l.push("l".repeat(i));
        }
        let mut seen = BTreeSet::new();
        l.retain(|x| !x.starts_with('-') && x != "base" && seen.insert(x.clone()));
        for v in l {
            for rem in if q { vec![Rem::Fs, Rem::S3] } else { vec![Rem::Fs, Rem::S3, Rem::S3Root, Rem::S3Deep] } {
                // (the stand-in for S3 keeps objects in files named by their keys)
                if v.len() > if rem.is_s3() { 205 } else { 240 } {
                    continue;
                }
                cs.push(json!({"life": v, "rem": rem.name()}));
            }
        }
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        if let Some(n) = c["words"].as_u64() {
            strings(cx, &words(&TOK, n as usize));
        } else if c["odd"] == 1 {
            let mut w: Vec<String> = ODD.iter().map(|s| s.to_string()).collect();
            for i in [22, 23, 24, 100, 255, 300] {
                w.push("l".repeat(i));
            }
            strings(cx, &w);
        } else if c["bytes"] == 1 {
            // every character of the first planes at every place of a short version
            let mut w = vec![];
            for ch in (0u32..0x3000).chain(0x1f000..0x1f100).filter_map(char::from_u32) {
                w.push(format!("{}", ch));
                w.push(format!("{}b", ch));
                w.push(format!("a{}", ch));
                w.push(format!("a{}b", ch));
            }
            let mut seen = BTreeSet::new();
            w.retain(|x| seen.insert(x.clone()));
            strings(cx, &w);
        } else if let Some(m) = c["long"].as_u64() {
            pairs(cx, &long_words(), m as usize, c["create"] == true);
        } else if let Some(m) = c["pair"].as_u64() {
            pairs(cx, &pair_words(c["n"].as_u64().unwrap() as usize), m as usize, c["create"] == true);
        } else {
            if let Err((k, m)) = life(cx, c["life"].as_str().unwrap(), Rem::parse(c["rem"].as_str().unwrap())) {
                cx.fail(k, m);
            }
        }
    }
}
