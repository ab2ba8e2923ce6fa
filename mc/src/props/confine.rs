//! C13: whatever strings a command is given, it writes only inside its stores and a temporary directory.
use super::scen::repo_tree;
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::shim;
use serde_json::{json, Value};
use std::sync::Arc;

pub struct Confine;

pub const EVIL: [&str; 40] = [
    "../x", "../../x", "../remote/x", "../../remote/9", "../home/x", "@/home/x", "@/remote/x", "a/../../x", "./x", "..", ".", "...", "-", "--", "---", "-x", "x-", "a---b", "", " ", "~", "~/x", "$HOME/x", "a\nb", "a\tb", "\\..\\x",
    "..%2fx", "%2e%2e/x", "%00", "x/", "/", "//x", "/x", "current", "../current", "._artefacta", "ä\u{202e}x", "x.tar.zst", "../../../../../../../../x", "x?y#z",
];
fn words(n: usize) -> Vec<String> {
    let al = ['.', '/', '-', 'a', ' '];
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|w| al.iter().map(move |c| format!("{}{}", w, c))).collect();
        v.extend(last.clone());
    }
    v
}
/// Places a string can be put at; "%" is replaced by it.
const PLACES: [&str; 17] = [
    "install|%", "create-patch|9|%", "create-patch|%|9", "add-package|%|@/input/pkg", "add-package|%|@/input/pkg/f|--upload", "add|@/input/9.tar.zst|--calc-patch-from|%", "auto-patch|--repo-root|@/repo|%", "auto-patch|--repo-root|@/repo|--prefix|%|v1.0.1",
    "add|%", "add|@/input/%.tar.zst", "add|@/input/%", "add-package|7|%", "add-package|7|@/input/%", "auto-patch|--repo-root|%|v1.0.1", "add-package|7|@/input/pkg|--calc-patch-from|%", "LOCAL", "REMOTE",
];
fn world(w: &World, rem: Rem, extra: &str) -> Tree {
    let repo = repo_tree(w, &["v1.0.0", "v1.0.1", "x/y"]);
    let mut t = store(&[b("9"), b("v1.0.1")], &[b("10"), b("v1.0.0"), p("9", "10")], rem, Some("9"));
    t.extend(repo);
    t.insert("input/9.tar.zst".into(), file(build("9")));
    t.insert("input/pkg".into(), Node::Dir);
    t.insert("input/pkg/f".into(), Node::File(Arc::new(b"data".to_vec()), 0o755));
    t.insert("home/x".into(), file(b"keep".to_vec()));
    t.insert("local2/x.tar.zst".into(), file(build("x")));
    t.insert("local2/current".into(), Node::Link("@/local2/x.tar.zst".into()));
    // an input file of the given name, if that is possible
    let ok = !extra.is_empty() && !extra.contains('/') && !extra.contains('\0') && extra != "." && extra != ".." && extra.len() < 200;
    if ok {
        t.entry(format!("input/{}.tar.zst", extra)).or_insert_with(|| file(build("9")));
        t.entry(format!("input/{}", extra)).or_insert_with(|| file(build("9")));
    }
    t
}
/// Absolute, lexically normalised path an argument denotes.
fn normal(w: &World, a: &str) -> String {
    let real = match a.strip_prefix('@') {
        Some(r) => format!("{}{}", w.root.display(), r),
        None if a.starts_with('/') => a.to_string(),
        None => format!("{}/home/{}", w.root.display(), a),
    };
    let mut norm: Vec<&str> = vec![];
    for x in real.split('/') {
        match x {
            "" | "." => {}
            ".." => {
                norm.pop();
            }
            x => norm.push(x),
        }
    }
    format!("/{}", norm.join("/"))
}
impl Prop for Confine {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str {
        "every string over {. / - a space} up to length 3 (thorough: 5) and a list of 40 hostile strings, at each of 17 places of the command lines, against directory and S3 remotes; hostile names in the stores; different spellings of the store paths; every file operation and the whole world compared; non-trivial: the command wrote something"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cs = vec![];
        let mut ws = words(if q { 3 } else { 5 });
        ws.extend(EVIL.iter().map(|x| x.to_string()));
        ws.push("a".repeat(240));
        ws.push("b/".repeat(60));
        for (i, pl) in PLACES.iter().enumerate() {
            for (j, s) in ws.iter().enumerate() {
                for rem in [Rem::Fs, Rem::S3] {
                    if q && (i + j) % 2 == 0 && rem == Rem::S3 && s.len() == 3 && !EVIL.contains(&s.as_str()) {
                        continue;
                    }
                    cs.push(json!({"place": pl, "s": s, "rem": rem.name()}));
                }
            }
        }
        // hostile names in the stores
        for rem in [Rem::Fs, Rem::S3, Rem::S3Root] {
            for n in ["../x.tar.zst", "../../x.tar.zst", "a/../x.tar.zst", "./x.tar.zst", "/x.tar.zst", "..tar.zst", "...tar.zst", "x/../../home/y.tar.zst", "9-..patch.zst", "9---../z.patch.zst", "9-10/x.patch.zst", "\\x.tar.zst", "-.tar.zst"] {
                for c in ["install x", "install ..", "install 10", "sync", "install ../x", "create-patch 9 x", "install a", "debug"] {
                    cs.push(json!({"name": n, "cmd": c, "rem": rem.name()}));
                }
            }
        }
        // spellings of the stores
        for l in ["@/local", "@/local/", "@/home/../local", "../local", "@/local/.", "@/home/ll", "./../local/"] {
            for r in ["@/remote", "@/remote/", "../remote", "@/home/rr", "@/home/../remote/."] {
                for c in ["install 10", "sync", "create-patch 9 10", "add @/input/9.tar.zst", "add-package 7 @/input/pkg --upload", "add-package 7 ../input/pkg/f", "add ../input/9.tar.zst --upload", "auto-patch --repo-root ../repo v1.0.1"] {
                    cs.push(json!({"l": l, "r": r, "cmd": c}));
                }
            }
        }
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        let rem = c["rem"].as_str().map(Rem::parse).unwrap_or(Rem::Fs);
        let (mut l, mut r) = ("@/local".to_string(), rem.arg().to_string());
        let mut args: Vec<String> = vec![];
        let mut t;
        let cmd: String;
        if let Some(pl) = c["place"].as_str() {
            let s = c["s"].as_str().unwrap();
            t = world(&cx.w, rem, s);
            match pl {
                "LOCAL" => {
                    l = s.to_string();
                    cmd = "install|10".into();
                }
                "REMOTE" => {
                    r = s.to_string();
                    cmd = "sync".into();
                }
                _ => cmd = pl.to_string(),
            }
            args.extend(cmd.split('|').map(|x| {
                let y = x.replace('%', s);
                if x == "%" { s.to_string() } else { y }
            }));
        } else if let Some(n) = c["name"].as_str() {
            t = world(&cx.w, rem, "");
            if rem == Rem::Fs {
                let base = n.replace('/', "\\");
                t.insert(format!("remote/{}", base), file(build("x")));
                t.insert(format!("local/{}", base), file(build("x")));
            } else {
                t.insert(format!("bucket/{}", crate::s3::enc(&format!("{}{}", if rem == Rem::S3Root { "/" } else { "pre/" }, n))), file(build("x")));
            }
            cmd = c["cmd"].as_str().unwrap().to_string();
            args.extend(cmd.split(' ').map(String::from));
        } else {
            t = world(&cx.w, rem, "");
            t.insert("home/ll".into(), Node::Link("@/local".into()));
            t.insert("home/rr".into(), Node::Link("@/remote".into()));
            l = c["l"].as_str().unwrap().into();
            r = c["r"].as_str().unwrap().into();
            cmd = c["cmd"].as_str().unwrap().to_string();
            args.extend(cmd.split(' ').map(String::from));
        }
        if args.iter().any(|a| a.contains('\0')) {
            return;
        }
        // nobody wants the sandbox's own file system packaged
        if args[0] == "add-package" {
            let norm = normal(&cx.w, &args[2]);
            if !norm.starts_with(&format!("{}/", cx.w.root.display())) && std::path::Path::new(&norm).exists() {
                return;
            }
        }
        let mut full = vec!["--local".to_string(), l, "--remote".to_string(), r];
        full.extend(args.iter().cloned());
        let sp = cmd_spec(&full.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        let (o, s) = run_on(&cx.w, &t, &sp);
        let uploads = args[0] == "sync" || (args[0].starts_with("add") && args.iter().any(|x| x == "--upload"));
        let wrote = o.ev.iter().any(|e| e.mutating && e.err == 0);
        cx.eval(if wrote { Some(h64(&c.to_string())) } else { None });
        let what = format!("`{}` -> {}", full.join("` `"), o.code);
        // the stores are where the strings point; attempts to write outside of the world are refused by the shim, but seen
        let stores: Vec<String> = [&full[1], &full[3]]
            .iter()
            .map(|x| {
                let n = normal(&cx.w, x);
                match n.strip_prefix(&format!("{}/", cx.w.root.display())) {
                    Some(r) => r.to_string(),
                    None => n,
                }
            })
            .collect();
        let within = |path: &str, st: &str| path == st
            || (st == cx.w.root.to_str().unwrap() && !path.starts_with('/'))
            || (st == "home/ll" && path.starts_with("local/"))
            || (st == "home/rr" && path.starts_with("remote/"))
            || path.strip_prefix(st).map_or(false, |r| r.starts_with('/') || st == "/");
        let stray_store = matches!(c["place"].as_str(), Some("LOCAL") | Some("REMOTE"));
        if let Some(e) = o.ev.iter().find(|e| {
            e.mutating && (e.err == 0 || e.cls == shim::C_OUT)
                && !matches!(e.cls, shim::C_TMP)
                && !within(&e.path, &stores[0])
                && !(uploads && (e.cls == shim::C_S3 || within(&e.path, &stores[1])))
        }) {
            let k = if e.cls == shim::C_OUT { "outside" } else { "stray" };
            return cx.fail(k, format!("{}: {}{}", what, e.show(), if e.cls == shim::C_OUT { " (refused by the harness)" } else { "" }));
        }
        if o.outside && !stray_store {
            return cx.fail("outside", format!("{}: tried to write outside of everything", what));
        }
        let keep = |k: &str| {
            let d = k.split('/').next().unwrap();
            d == "local" || (uploads && (d == "remote" || d == "bucket"))
        };
        for k in t.keys().chain(s.keys()) {
            if !keep(k) && t.get(k) != s.get(k) && !stray_store {
                return cx.fail("changed", format!("{}: `{}` was {}", what, k, if !t.contains_key(k) { "created" } else if s.contains_key(k) { "changed" } else { "deleted" }));
            }
            // nothing new below sub-directories of the stores either
            if keep(k) && !t.contains_key(k) && k.matches('/').count() > 1 {
                return cx.fail("nested", format!("{}: `{}` was created", what, k));
            }
        }
        if uploads && rem.is_s3() {
            let (x, y) = (rem.view(&s), sub(&s, "bucket"));
            let new: Vec<_> = y.keys().filter(|k| !t.contains_key(&format!("bucket/{}", k))).collect();
            if let Some(k) = new.iter().find(|k| !x.contains_key(&crate::s3::dec(k).rsplit('/').next().unwrap().to_string())) {
                cx.fail("bucket", format!("{}: object `{}` was created outside of the remote's path", what, k));
            }
        }
    }
}
