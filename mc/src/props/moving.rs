//! C24: inputs that change while they are read.
use super::pack::list;
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::shim;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::path::Path;
use std::sync::Arc;

pub struct Moving;

type Content = BTreeMap<String, (Arc<Vec<u8>>, u32)>;
const TREES: usize = 4;
/// What is packaged: a directory (relative to input/), or a single file in one.
fn tree(k: usize) -> (String, Content) {
    let f = |n: &str, seed: u64, size: usize, mode: u32| (n.to_string(), (Arc::new(noise(seed, size)), mode));
    match k {
        0 => ("pkg".into(), [f("a", 1, 700, 0o644), f("b/c", 2, 5000, 0o755), f("d", 3, 0, 0o600), f("e", 4, 1536, 0o444)].into()),
        1 => ("pkg".into(), [f("a", 1, 200_000, 0o644), f("b", 2, 512, 0o644), f("c", 3, 70_000, 0o755)].into()),
        2 => ("pkg/one".into(), [f("one", 5, 3000, 0o755)].into()),
        _ => ("pkg/one".into(), [f("one", 6, 150_000, 0o644)].into()),
    }
}
/// Changes of one file (or of the tree around it).
const CHANGES: [&str; 21] = [
    "grow 1", "grow 600", "grow 90000", "shrink 0", "shrink 1", "shrink half", "rewrite", "replace same", "replace longer", "replace shorter", "replace empty", "gone", "directory", "link", "new before", "new after", "rename", "mode", "dir rename", "dir gone", "dir file",
];
fn change(w: &World, root: &str, file: &str, how: &str) {
    // what replaces a build is a build
    let noise = |seed: u64, n: usize| if file.ends_with(".tar.zst") { z(&noise(seed, n)) } else { noise(seed, n) };
    let p = w.p(&format!("{}/{}", root, file));
    let old = match fs::read(&p) {
        Ok(x) => x,
        Err(_) => return,
    };
    let (a, n) = how.split_once(' ').unwrap_or((how, ""));
    let put = |x: &[u8]| {
        let q = w.p("home/next");
        fs::write(&q, x).unwrap();
        fs::set_permissions(&q, fs::metadata(&p).unwrap().permissions()).unwrap();
        fs::rename(&q, &p).unwrap();
    };
    let open = || fs::OpenOptions::new().write(true).open(&p).unwrap();
    match (a, n) {
        ("grow", n) => {
            let mut f = fs::OpenOptions::new().append(true).open(&p).unwrap();
            f.write_all(&noise(77, n.parse().unwrap())).unwrap();
        }
        ("shrink", "0") => open().set_len(0).unwrap(),
        ("shrink", "1") => open().set_len((old.len() as u64).saturating_sub(1)).unwrap(),
        ("shrink", _) => open().set_len(old.len() as u64 / 2).unwrap(),
        ("rewrite", _) => open().write_all(&noise(78, old.len())).unwrap(),
        ("replace", "same") => put(&noise(79, old.len())),
        ("replace", "longer") => put(&noise(80, old.len() + 1000)),
        ("replace", "shorter") => put(&noise(81, old.len() / 3)),
        ("replace", _) => put(b""),
        ("gone", _) => fs::remove_file(&p).unwrap(),
        ("directory", _) => {
            fs::remove_file(&p).unwrap();
            fs::create_dir(&p).unwrap();
            fs::write(p.join("x"), b"x").unwrap();
        }
        ("link", _) => {
            fs::remove_file(&p).unwrap();
            std::os::unix::fs::symlink(w.p("home/other"), &p).unwrap();
        }
        ("mode", _) => fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o711)).unwrap(),
        ("dir", n) => {
            let d = p.parent().unwrap();
            if n == "rename" {
                fs::rename(d, d.with_file_name("zz")).unwrap();
            } else {
                fs::remove_dir_all(d).unwrap();
                if n == "file" {
                    fs::write(d, b"was a directory").unwrap();
                }
            }
        }
        ("new", "before") => fs::write(p.parent().unwrap().join("0new"), b"brand new").unwrap(),
        ("new", _) => fs::write(p.parent().unwrap().join("znew"), b"brand new").unwrap(),
        ("rename", _) => fs::rename(&p, p.parent().unwrap().join("zmoved")).unwrap(),
        _ => panic!("{}", how),
    }
}
fn states(dir: &Path, at: &Path, out: &mut BTreeMap<String, Vec<Vec<u8>>>) {
    for e in fs::read_dir(at).into_iter().flatten().flatten() {
        if e.path().is_dir() {
            states(dir, &e.path(), out);
        } else {
            let n = e.path().strip_prefix(dir).unwrap().to_str().unwrap().to_string();
            let x = fs::read(e.path()).unwrap_or_default();
            let v = out.entry(n).or_default();
            if !v.contains(&x) {
                v.push(x);
            }
        }
    }
}
impl Moving {
    fn judge(&self, how: &str, init: &Content, st: &BTreeMap<String, Vec<Vec<u8>>>, touched: &[String], stored: &[u8]) -> Result<(), String> {
        if !how.starts_with("add-package") {
            let k = &st["5.tar.zst"];
            return if k.iter().any(|x| x == stored) { Ok(()) } else { Err(format!("stored are {} bytes that are no state of the input", stored.len())) };
        }
        let tar = unz(stored).ok_or("it does not decompress")?;
        if tar.len() % 512 != 0 || tar.len() < 1024 || tar[tar.len() - 1024..].iter().any(|c| *c != 0) {
            return Err(format!("the archive has no proper end ({} bytes)", tar.len()));
        }
        let got = list(&tar)?;
        for (n, (x, m)) in init {
            if touched.contains(n) {
                continue;
            }
            match got.get(n.as_bytes()) {
                None => return Err(format!("{:?}, which did not change, is missing", n)),
                Some((y, k)) if y != &**x || k != m => return Err(format!("{:?}, which did not change, has other content or mode ({} bytes, {:o})", n, y.len(), k)),
                _ => {}
            }
        }
        for (n, (y, _)) in &got {
            let n = String::from_utf8_lossy(n).into_owned();
            let none = vec![];
            let k = st.get(&n).unwrap_or(&none);
            if k.is_empty() {
                return Err(format!("{:?} was never there", n));
            }
            if !k.iter().any(|x| x.len() == y.len()) {
                return Err(format!("{:?} has {} bytes, which it never had", n, y.len()));
            }
            if let Some(i) = (0..y.len()).find(|i| !k.iter().any(|x| x.get(*i) == Some(&y[*i]))) {
                return Err(format!("{:?} has a byte at {} that was never there", n, i));
            }
        }
        Ok(())
    }
}
impl Prop for Moving {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn rule(&self) -> &'static str {
        "every change of a menu of 21 (growing, shrinking, rewriting, replacing, removing, renaming, new files, modes, directories) of every file of 4 inputs between any two operations of add-package or add on them, on directory and S3 remotes, with and without upload (thorough: pairs of changes); non-trivial: the change took place while the command was running"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cs = vec![];
        for k in 0..TREES {
            for f in tree(k).1.keys() {
                for c in CHANGES {
                    for (how, rem) in [("add-package 5", "Fs"), ("add-package 5 --upload", "Fs"), ("add-package 5 --upload", "S3"), ("add-package 5 --calc-patch-from 1", "Fs"), ("add", "Fs"), ("add --upload", "S3"), ("add --calc-patch-from 1", "Fs")] {
                        if how.starts_with("add-package 5 --") && q && k != 0 || how.starts_with("add ") && (k != 0 || f != "a") || how == "add" && (k != 0 || f != "a") {
                            continue;
                        }
                        // other changes than atomic replacements of a file that is copied can't be told from its content
                        if how == "add --calc-patch-from 1" && c == "replace empty" {
                            continue;
                        }
                        if !how.starts_with("add-package") && !c.starts_with("replace") && !c.starts_with("new") && c != "gone" && c != "rename" {
                            continue;
                        }
                        if c.starts_with("dir ") && !f.contains('/') {
                            continue;
                        }
                        let j = json!({"tree": k, "file": f, "change": c, "how": how, "rem": rem});
                        cs.push(j.clone());
                        if !q && how == "add-package 5" {
                            for d in CHANGES {
                                for g in tree(k).1.keys() {
                                    if d.starts_with("dir ") && !g.contains('/') {
                                        continue;
                                    }
                                    for gap in [0, 1, 2, 5, 11] {
                                        let mut j = j.clone();
                                        j["then"] = json!([g, d, gap]);
                                        cs.push(j);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        let rem = Rem::parse(c["rem"].as_str().unwrap());
        let how = c["how"].as_str().unwrap();
        let (arg, content) = tree(c["tree"].as_u64().unwrap() as usize);
        let file_ = c["file"].as_str().unwrap();
        let root = if how.starts_with("add-package") { "input/pkg" } else { "input" };
        let mut t = store(&[b("1")], &[b("1")], rem, Some("1"));
        t.insert("home/other".into(), file(b"not part of it".to_vec()));
        let (target, init): (String, Content) = if root == "input" {
            t.insert("input/5.tar.zst".into(), Node::File(build("5"), 0o644));
            ("5.tar.zst".into(), [("5.tar.zst".to_string(), (build("5"), 0o644))].into())
        } else {
            for (n, (x, m)) in &content {
                t.insert(format!("{}/{}", root, n), Node::File(x.clone(), *m));
            }
            (file_.to_string(), content)
        };
        let mut a: Vec<String> = how.split(' ').map(String::from).collect();
        let path = if root == "input" { "@/input/5.tar.zst".to_string() } else { format!("@/input/{}", arg) };
        if root == "input" {
            a.insert(1, path);
        } else {
            a.insert(2, path);
        }
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        let what = c["change"].as_str().unwrap();
        let mut at = c["at"].as_u64().unwrap_or(0) as usize;
        loop {
            cx.w.load(&t);
            let mut sp = on(rem, &a);
            sp.sched_mask = 1 << shim::C_INPUT | 1 << shim::C_TMP | 1 << shim::C_WORLD;
            let struck = Cell::new(false);
            let before = RefCell::new(String::new());
            let mut st = BTreeMap::new();
            states(&cx.w.p(root), &cx.w.p(root), &mut st);
            if what == "link" && c["tree"].as_u64() > Some(1) {
                // a single file that is a link stands for what it leads to
                st.insert("other".into(), vec![b"not part of it".to_vec()]);
            }
            if what == "directory" && c["tree"].as_u64() > Some(1) {
                // a directory in its place is packaged as any other directory
                st.insert("x".into(), vec![b"x".to_vec()]);
            }
            let st = RefCell::new(st);
            let mut touched = vec![target.clone()];
            let then = c["then"].as_array().map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string(), x[2].as_u64().unwrap() as usize));
            if let Some(x) = &then {
                touched.push(x.0.clone());
            }
            let (o, _, dead) = cx.w.race(
                &[sp],
                |step, en, w| {
                    if step == at {
                        let sl = w.slot(en[0]);
                        *before.borrow_mut() = sl.ev[(sl.pending.max(0) as usize).min(shim::MAXEV - 1)].decode().show();
                        change(w, root, &target, what);
                        states(&w.p(root), &w.p(root), &mut st.borrow_mut());
                        struck.set(true);
                    }
                    if let Some((f, d, gap)) = &then {
                        if step == at + gap {
                            change(w, root, f, d);
                            states(&w.p(root), &w.p(root), &mut st.borrow_mut());
                        }
                    }
                    en[0]
                },
                |_, _, _| {},
            );
            if !struck.get() {
                break;
            }
            let o = &o[0];
            let s = cx.w.snap_all();
            for k in ["states", "transitions", "traces"] {
                cx.count(k, 1);
            }
            cx.count(if o.code == 0 { "accepted" } else { "refused" }, 1);
            cx.eval(Some(h64(&(c.to_string(), at))));
            let d = || format!("`{}` of {}: before {} {:?} changes: {} {}", a.join(" "), init.iter().map(|(n, x)| format!("{} ({})", n, x.0.len())).collect::<Vec<_>>().join(", "), before.borrow(), target, what, c["then"]);
            cx.cur["at"] = json!(at);
            if dead || o.code > 101 {
                return cx.fail("died", format!("{}: ends with {}", d(), o.code));
            }
            if o.code != 0 {
                for k in ["local", "remote", "bucket", "tmp"] {
                    if sub(&s, k) != sub(&t, k) {
                        return cx.fail("refused-changed", format!("{}: refused, but {}/ changed: {}", d(), k, show(&sub(&s, k))));
                    }
                }
            } else {
                let l = sub(&s, "local");
                let x = match l.get("5.tar.zst") {
                    Some(Node::File(x, _)) => x.clone(),
                    _ => return cx.fail("missing", format!("{}: success, but there is no build", d())),
                };
                if let Err(m) = self.judge(how, &init, &st.borrow(), &touched, &x) {
                    return cx.fail("corrupt", format!("{}: success, but {}", d(), m));
                }
                if how.contains("--upload") {
                    match rem.view(&s).get("5.tar.zst") {
                        Some(Node::File(y, _)) if y == &x => {}
                        _ => return cx.fail("uploaded", format!("{}: success, but the remote has something else", d())),
                    }
                }
                if how.contains("--calc") {
                    let new = unz(&x);
                    let ok = match l.get(&p("1", "5").name()) {
                        Some(Node::File(y, _)) => apply(&content_of("1"), y) == new && new.is_some(),
                        _ => false,
                    };
                    if !ok {
                        return cx.fail("patch", format!("{}: success, but the patch does not lead to what is stored", d()));
                    }
                }
            }
            if o.code == 0 && cx.w.p(root).join(&target).is_file() {
                // what is stored belongs to the store alone
                for f in ["rewrite", "grow 600", "shrink 0"] {
                    change(&cx.w, root, &target, f);
                }
                let z = cx.w.snap_all();
                for k in ["local", "remote", "bucket"] {
                    if sub(&s, k) != sub(&z, k) {
                        return cx.fail("shared", format!("{}: success, but writing to the input later changes {}/", d(), k));
                    }
                }
            }
            if c["at"].is_u64() {
                break;
            }
            at += 1;
        }
    }
}
fn content_of(v: &str) -> Arc<Vec<u8>> {
    crate::fix::content(v)
}
