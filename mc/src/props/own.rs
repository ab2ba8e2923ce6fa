//! C11: commands never overwrite or delete what they do not own.
use crate::exec::*;
use crate::fix::*;
use crate::hist::{self, cmd, Move};
use super::install::{pad, rough, rough_tree};
use crate::par::*;
use crate::shim;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Own;
const VS: [&str; 3] = ["10", "9", "a-1"];

fn uploads(a: &[String]) -> bool {
    a[0] == "sync" || (a[0].starts_with("add") && a.iter().any(|x| x == "--upload"))
}
/// The version a command adds, if any.
fn added(a: &[String]) -> Option<String> {
    match a[0].as_str() {
        "add" => a.iter().find_map(|x| x.rsplit('/').next().unwrap().strip_suffix(".tar.zst").map(String::from)),
        "add-package" => a[1..].iter().find(|x| !x.starts_with("--")).cloned(),
        _ => None,
    }
}
fn judge(cx: &mut Cx, rem: Rem, nm: &BTreeMap<String, Art>, pre: &Tree, m: &Move, o: Option<&Out>, post: &Tree) {
    let (a, o) = match (m, o) {
        (Move::Cmd(a), Some(o)) => (a, o),
        _ => return,
    };
    let what = || format!("{} : {} -> {}", show(pre), m.show(), o.code);
    // remote
    let (r0, r1) = (sub(pre, "remote"), sub(post, "remote"));
    let (b0, b1) = (sub(pre, "bucket"), sub(post, "bucket"));
    for (x, y) in [(&r0, &r1), (&b0, &b1)] {
        for (k, n) in x {
            if y.get(k) != Some(n) {
                return cx.fail("remote-lost", format!("{}: `{}` on the remote was {}", what(), k, if y.contains_key(k) { "replaced" } else { "deleted" }));
            }
        }
        for k in y.keys() {
            if !x.contains_key(k) {
                if !uploads(a) {
                    return cx.fail("remote-written", format!("{}: it wrote `{}` to the remote", what(), k));
                }
            }
        }
    }
    if let Some(e) = o.ev.iter().find(|e| e.mutating && e.err == 0 && (e.cls == shim::C_REMOTE || e.cls == shim::C_S3)) {
        if !uploads(a) {
            return cx.fail("remote-touched", format!("{}: it changed the remote: {}", what(), e.show()));
        }
    }
    if let Some(k) = rem.view(post).keys().find(|k| !rem.view(pre).contains_key(*k) && !nm.contains_key(*k)) {
        return cx.fail("remote-odd", format!("{}: it put `{}` on the remote", what(), k));
    }
    // local
    let own = added(a).map(|v| b(&v).name());
    let (l0, l1) = (sub(pre, "local"), sub(post, "local"));
    for (k, x) in arts(&l0) {
        let ours = own.as_deref() == Some(&k);
        let intact = nm.get(&k).map_or(true, |a| a.intact(&x));
        if !intact {
            continue;
        }
        match l1.get(&k) {
            None => return cx.fail("local-lost", format!("{}: local `{}` was deleted", what(), k)),
            Some(Node::File(y, _)) if *y == x || ours => {}
            _ => return cx.fail("local-changed", format!("{}: local `{}` was changed", what(), k)),
        }
    }
    // inputs
    for d in ["input", "repo", "home", "tmp"] {
        if sub(pre, d) != sub(post, d) {
            return cx.fail("input", format!("{}: {}/ was changed", what(), d));
        }
    }
}
fn init(rem: Rem, kind: usize) -> (Tree, Vec<Move>) {
    let mut t = store(&[b("10"), p("10", "9")], &[b("10"), b("9")], rem, Some("10"));
    if kind >= 1 {
        // intact, but other bytes than the remote's (longer here or longer there); an unrelated artefact; files of others
        let longer = |x: Vec<u8>, yes: bool| if yes { pad(&x, x.len() + 50) } else { x };
        t.insert("local/10.tar.zst".into(), Node::File(std::sync::Arc::new(longer(zl(&content("10"), 19), kind == 1)), 0o600));
        t.insert(rem.path("10.tar.zst"), file(longer(zl(&content("10"), 3), kind == 2)));
        t.insert(rem.path("9.tar.zst"), file(longer(zl(&content("9"), 7), kind == 2)));
        t.insert(rem.path("10-9.patch.zst"), file(longer(zl(&diff(&content("10"), &content("9")), 5), kind == 2)));
        t.insert(format!("local/{}", p("10", "9").name()), file(longer(patch("10", "9").to_vec(), kind == 1)));
        t.insert(rem.path("README"), file(b"mine".to_vec()));
        t.insert(rem.path("zz.tar.zst"), file(build("zz")));
    }
    for v in VS {
        t.insert(format!("input/{}.tar.zst", v), Node::File(build(v), 0o640));
    }
    t.insert("input/alt/9.tar.zst".into(), file(zl(&content("9"), 12)));
    t.insert("input/alt".into(), Node::Dir);
    t.insert("input/pkg".into(), Node::Dir);
    t.insert("input/pkg/f".into(), Node::File(std::sync::Arc::new(b"data".to_vec()), 0o444));
    let mut m = vec![];
    for v in VS {
        m.push(cmd(&format!("install {}", v)));
        m.push(cmd(&format!("add @/input/{}.tar.zst", v)));
    }
    m.push(cmd("add @/input/alt/9.tar.zst --upload"));
    m.push(cmd("add --calc-patch-from 10 @/input/a-1.tar.zst"));
    m.push(cmd("add --upload --calc-patch-from 9 @/input/a-1.tar.zst"));
    m.push(cmd("add-package p1 @/input/pkg"));
    m.push(cmd("add-package p1 @/input/pkg/f --upload"));
    t.insert("tmp/9.tar.zst".into(), file(build("9")));
    m.push(cmd("add @/tmp/9.tar.zst"));
    m.push(cmd("add-package p1 @/tmp"));
    m.push(cmd("create-patch 10 9"));
    m.push(cmd("create-patch 9 a-1"));
    m.push(cmd("create-patch 9 10"));
    m.push(cmd("sync"));
    m.push(cmd("debug"));
    m.push(Move::Rm("local/10.tar.zst".into()));
    m.push(Move::Rm("local/9.tar.zst".into()));
    (t, m)
}
fn all_names() -> BTreeMap<String, Art> {
    let mut n = names(&["10", "9", "a-1", "zz"]);
    n.insert("p1.tar.zst".into(), b("p1"));
    n
}
/// Local and remote are the same directory, named in different ways.
const SAME: [(&str, &str); 5] = [("@/local", "@/local"), ("@/local", "@/home/l"), ("@/home/l", "@/local"), ("@/local/", "@/home/../local"), ("../local", "@/local")];

impl Prop for Own {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn rule(&self) -> &'static str {
        "breadth-first search over histories of real commands from three initial stores per remote kind (equal files, longer ones here, longer ones there), judged at every transition; every command of the menu on every distribution of artefacts with local and remote being the same directory; every command among up to 110 (thorough 520) further artefacts here, there and both; non-trivial: the transition changed something"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let nm = all_names();
        for rem in [Rem::Fs, Rem::S3] {
            for kind in 0..3 {
                let (t, m) = init(rem, kind);
                hist::bfs(ctl, &format!("own{}", kind), &t, &m, rem, if q { 3 } else { 6 }, if q { 4_000 } else { 100_000 }, &|cx, pre, mv, o, post| judge(cx, rem, &nm, pre, mv, o, post));
            }
        }
        let mut cs = vec![];
        for i in 0..SAME.len() {
            for pres in 0..16 {
                for c in ["install 9", "install 10", "sync", "create-patch 10 9", "add @/input/a-1.tar.zst --upload", "add @/input/9.tar.zst --upload --calc-patch-from 10", "add @/local/9.tar.zst", "add @/home/l/9.tar.zst --upload", "add-package p1 @/input/pkg --upload", "add-package p1 @/local/9.tar.zst", "add-package 9 @/local/9.tar.zst"] {
                    cs.push(json!({"same": i, "pres": pres, "cmd": c}));
                }
            }
        }
        // many artefacts, here, there, or both
        for rem in ["Fs", "S3"] {
            for places in [1u8, 2, 3, 5] {
                for n in if q { vec![12, 40, 110] } else { vec![12, 25, 40, 60, 110, 260, 520] } {
                    for c in ["install 9", "install 10", "install o3", "sync", "create-patch 10 9", "create-patch o1 o2", "add @/input/a-1.tar.zst", "add --upload --calc-patch-from 10 @/input/a-1.tar.zst", "add @/input/9.tar.zst --upload", "add-package p1 @/input/pkg --upload", "debug"] {
                        cs.push(json!({"crowd": n, "places": places, "rem": rem, "cmd": c}));
                    }
                }
            }
        }
        cs.extend(rough(q));
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        let nm = all_names();
        if let Some(tag) = c["bfs"].as_str() {
            let rem = Rem::parse(c["rem"].as_str().unwrap());
            let (t, m) = init(rem, tag[3..].parse().unwrap());
            return hist::replay(cx, &t, &m, c, &|cx, pre, mv, o, post| judge(cx, rem, &nm, pre, mv, o, post));
        }
        if c.get("rough").is_some() {
            let (conf, t) = rough_tree(c);
            let (o, s) = run_on(&cx.w, &t, &conf.spec());
            cx.count("transitions", 1);
            cx.count("states", 1);
            cx.count("traces", 1);
            cx.eval(if s != t { Some(h64(&c.to_string())) } else { None });
            return judge(cx, conf.rem, &nm, &t, &cmd(&format!("install {}", conf.vs[conf.tgt])), Some(&o), &s);
        }
        if let Some(n) = c["crowd"].as_u64() {
            let rem = Rem::parse(c["rem"].as_str().unwrap());
            let (mut t, _) = init(rem, 0);
            let mut nm = nm;
            let places = c["places"].as_u64().unwrap();
            for i in 0..n {
                let v = format!("o{}", i);
                let a = if i % 5 == 4 { p(&format!("o{}", i - 1), &v) } else { b(&v) };
                // 5: here and there in turn
                let (here, there) = if places == 5 { (i % 2 == 0, i % 2 == 1) } else { (places & 1 != 0, places & 2 != 0) };
                if here {
                    t.insert(format!("local/{}", a.name()), file(a.bytes()));
                }
                if there {
                    t.insert(rem.path(&a.name()), file(a.bytes()));
                }
                nm.insert(a.name(), a);
            }
            let a: Vec<&str> = c["cmd"].as_str().unwrap().split(' ').collect();
            nm.insert(p("o1", "o2").name(), p("o1", "o2"));
            let mut sp = on(rem, &a);
            sp.s3.page = 37;
            let (o, s) = run_on(&cx.w, &t, &sp);
            cx.count("transitions", 1);
            cx.count("states", 1);
            cx.count("traces", 1);
            cx.eval(if s != t { Some(h64(&c.to_string())) } else { None });
            if o.code != 0 {
                cx.fail("crowd-fails", format!("{} further artefacts ({}): `{}` ends with {}: {}", n, places, a.join(" "), o.code, short(&o.err)));
            }
            return judge(cx, rem, &nm, &t, &cmd(&a.join(" ")), Some(&o), &s);
        }
        let (l, r) = SAME[c["same"].as_u64().unwrap() as usize];
        let pres = c["pres"].as_u64().unwrap();
        let mut t = Tree::new();
        for (i, a) in [b("10"), b("9"), p("10", "9"), p("9", "10")].iter().enumerate() {
            if pres >> i & 1 == 1 {
                t.insert(format!("local/{}", a.name()), file(a.bytes()));
            }
        }
        if pres & 1 == 1 {
            t.insert("local/current".into(), Node::Link("@/local/10.tar.zst".into()));
        }
        t.insert("home/l".into(), Node::Link("@/local".into()));
        t.insert("input/a-1.tar.zst".into(), file(build("a-1")));
        t.insert("input/9.tar.zst".into(), file(zl(&content("9"), 9)));
        t.insert("input/pkg".into(), Node::Dir);
        t.insert("input/pkg/f".into(), file(b"data".to_vec()));
        let text = c["cmd"].as_str().unwrap();
        let mut a = vec!["--local", l, "--remote", r];
        a.extend(text.split(' '));
        let (o, s) = run_on(&cx.w, &t, &cmd_spec(&a));
        cx.count("transitions", 1);
        cx.count("states", 1);
        cx.count("traces", 1);
        cx.eval(if s != t { Some(h64(&c.to_string())) } else { None });
        let own = text.starts_with("add").then(|| added(&text.split(' ').map(String::from).collect::<Vec<_>>()).map(|v| b(&v).name())).flatten();
        for (k, x) in arts(&sub(&t, "local")) {
            let now = s.get(&format!("local/{}", k));
            let same = matches!(now, Some(Node::File(y, _)) if *y == x);
            // what is being added may be replaced by the new, complete version
            let replaced = own.as_deref() == Some(&k) && matches!(now, Some(Node::File(y, _)) if !y.is_empty() && unz(y).is_some());
            if !same && !replaced {
                return cx.fail("same-dir", format!("local store and remote are the same directory ({} and {}), {}: {} -> {}: `{}` is {}", l, r, show(&t), text, o.code, k, match now { Some(Node::File(y, _)) => format!("changed ({} bytes)", y.len()), _ => "lost".into() }));
            }
        }
        for d in ["input", "home"] {
            if sub(&t, d) != sub(&s, d) {
                cx.fail("same-input", format!("{}: {}/ was changed", text, d));
            }
        }
    }
}
