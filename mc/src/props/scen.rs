//! Catalogue of scenarios (initial stores + one command + what it must achieve) shared by the crash, fault and
//! schedule engines.
use crate::exec::*;
use crate::fix::*;
use crate::par::Cx;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Goal {
    Installed(String),
    Local(String),
    Remote(String),
}
#[derive(Clone)]
pub struct Scen {
    pub name: String,
    pub rem: Rem,
    pub init: Tree,
    pub args: Vec<String>,
    pub env: Vec<(String, Option<std::ffi::OsString>)>,
    pub goals: Vec<Goal>,
    pub install: bool,
}
impl Scen {
    pub fn spec(&self) -> Spec {
        let mut s = on(self.rem, &self.args.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        s.env = self.env.clone();
        s
    }
}
/// A git repository with the given tags ("name" lightweight, "name!" annotated), as a tree below repo/.
pub fn repo_tree(w: &World, tags: &[&str]) -> Tree {
    repo_with(w, tags, "")
}
/// How the tags' commits relate: all the same (""), each its own, the later the older ("times") or the newer ("times2"),
/// on branches of their own that HEAD does not contain ("orphans"), tags of tags ("nested").
pub fn repo_with(w: &World, tags: &[&str], how: &str) -> Tree {
    thread_local!(static M: RefCell<BTreeMap<String, Tree>> = RefCell::new(BTreeMap::new()));
    let k = format!("{}:{}", how, tags.join(","));
    if let Some(t) = M.with(|m| m.borrow().get(&k).cloned()) {
        return t;
    }
    w.reset();
    let mut o = git2::RepositoryInitOptions::new();
    o.external_template(false).initial_head("main");
    let r = git2::Repository::init_opts(w.p("repo"), &o).unwrap();
    let sig = git2::Signature::new("n", "e@x", &git2::Time::new(1_500_000_000, 0)).unwrap();
    let tree = { r.find_tree(r.treebuilder(None).unwrap().write().unwrap()).unwrap() };
    let c = r.commit(Some("HEAD"), &sig, &sig, "c", &tree, &[]).unwrap();
    let head = r.find_object(c, None).unwrap();
    let mut last = c;
    for (i, t) in tags.iter().enumerate() {
        let obj = match how {
            "times" | "times2" => {
                let at = if how == "times" { 1_600_000_000 - 1000 * i as i64 } else { 1_400_000_000 + 1000 * i as i64 };
                let sig = git2::Signature::new("n", "e@x", &git2::Time::new(at, 0)).unwrap();
                last = r.commit(Some("HEAD"), &sig, &sig, t, &tree, &[&r.find_commit(last).unwrap()]).unwrap();
                r.find_object(last, None).unwrap()
            }
            "orphans" => {
                let sig = git2::Signature::new("n", "e@x", &git2::Time::new(1_500_000_000 + (i as i64 * 7919) % 5000, 0)).unwrap();
                let c = r.commit(None, &sig, &sig, t, &tree, &[]).unwrap();
                r.find_object(c, None).unwrap()
            }
            "nested" => {
                let id = r.tag(&format!("x/{}", i), &head, &sig, "inner", true).unwrap();
                r.find_object(id, None).unwrap()
            }
            _ => head.clone(),
        };
        match t.strip_suffix('!') {
            Some(t) => r.tag(t, &obj, &sig, "m", true).unwrap(),
            None => r.tag_lightweight(t, &obj, true).unwrap(),
        };
    }
    let t: Tree = w.snap(&["repo"]);
    w.reset();
    M.with(|m| m.borrow_mut().insert(k, t.clone()));
    t
}
pub fn corrupt(b: &[u8]) -> Node {
    file(b[..b.len() * 2 / 3].to_vec())
}
pub fn scenarios(w: &World) -> Rc<Vec<Scen>> {
    thread_local!(static M: RefCell<Option<Rc<Vec<Scen>>>> = RefCell::new(None));
    if let Some(s) = M.with(|m| m.borrow().clone()) {
        return s;
    }
    let mut v: Vec<Scen> = vec![];
    let repo = repo_tree(w, &["v1.0.0", "v1.0.1!", "v1.1.0"]);
    for rem in [Rem::Fs, Rem::S3] {
        let mut add = |name: &str, init: Tree, args: &[&str], goals: Vec<Goal>| {
            v.push(Scen {
                name: format!("{}@{}", name, rem.name()), rem, init, args: args.iter().map(|s| s.to_string()).collect(), env: vec![], goals,
                install: args[0] == "install",
            })
        };
        let inst = |v: &str| vec![Goal::Installed(v.into()), Goal::Local(b(v).name())];
        // installs
        add("inst-direct", store(&[], &[b("3")], rem, None), &["install", "3"], inst("3"));
        add("inst-chain", store(&[b("9")], &[b("10"), b("11"), p("9", "10"), p("10", "11")], rem, Some("9")), &["install", "11"], inst("11"));
        add("inst-chain-cached", store(&[b("1"), b("2")], &[b("3"), p("1", "2"), p("2", "3")], rem, Some("1")), &["install", "3"], inst("3"));
        add("inst-patch-local", store(&[b("1"), p("1", "2")], &[b("2")], rem, Some("1")), &["install", "2"], inst("2"));
        add("inst-switch", store(&[b("1"), b("2")], &[], rem, Some("1")), &["install", "2"], inst("2"));
        add("inst-again", store(&[b("1")], &[b("1")], rem, Some("1")), &["install", "1"], inst("1"));
        add("inst-unrelated", store(&[b("1")], &[b("x2")], rem, Some("1")), &["install", "x2"], inst("x2"));
        let mut t = store(&[b("1")], &[b("2"), p("1", "2")], rem, Some("1"));
        t.insert(rem.path(&p("1", "2").name()), corrupt(&patch("1", "2")));
        add("inst-corrupt", t, &["install", "2"], inst("2"));
        let mut t = store(&[b("1")], &[b("2"), b("3"), p("1", "2"), p("2", "3")], rem, Some("1"));
        t.insert(rem.path(&p("2", "3").name()), corrupt(&patch("2", "3")));
        add("inst-corrupt-2nd", t, &["install", "3"], inst("3"));
        // the remote has everything
        let all = || [b("1"), b("2"), b("3"), p("1", "2"), p("2", "3")];
        add("inst-all-there", store(&[b("1")], &all(), rem, Some("1")), &["install", "3"], inst("3"));
        for (name, x, y) in [("inst-all-corrupt", "1", "2"), ("inst-all-corrupt-2nd", "2", "3")] {
            let mut t = store(&[b("1")], &all(), rem, Some("1"));
            t.insert(rem.path(&p(x, y).name()), corrupt(&patch(x, y)));
            add(name, t, &["install", "3"], inst("3"));
        }
        add("inst-dangling", store(&[b("1")], &[b("3")], rem, Some("7")), &["install", "3"], inst("3"));
        let mut t = store(&[b("1")], &[b("3")], rem, Some("1"));
        t.insert("local/3.tar.zst".into(), file(vec![]));
        add("inst-empty-local", t, &["install", "3"], inst("3"));
        // a `current` that was made by other means
        for (name, l) in [("inst-current-file", None), ("inst-current-elsewhere", Some("@/home/old/1.tar.zst")), ("inst-current-hop", Some("stable")), ("inst-current-dots", Some("../local/./1.tar.zst"))] {
            let mut t = store(&[b("1"), b("2")], &[b("3"), p("1", "3")], rem, None);
            t.insert("home/old/1.tar.zst".into(), file(build("1").to_vec()));
            t.insert("local/stable".into(), Node::Link("1.tar.zst".into()));
            t.insert("local/current".into(), l.map_or_else(|| file(build("1").to_vec()), |l| Node::Link(l.into())));
            let x = if name == "inst-current-file" { "2" } else { "3" };
            add(name, t, &["install", x], inst(x));
        }
        // adds
        let inp = |t: &mut Tree, v: &str| {
            t.insert(format!("input/{}.tar.zst", v), Node::File(build(v), 0o640));
        };
        let mut t = store(&[b("1")], &[b("2")], rem, Some("1"));
        inp(&mut t, "4");
        add("add-new", t.clone(), &["add", "@/input/4.tar.zst"], vec![Goal::Local(b("4").name())]);
        t.insert("local/4.tar.zst".into(), file(zl(&content("4"), 19)));
        add("add-again", t.clone(), &["add", "@/input/4.tar.zst"], vec![Goal::Local(b("4").name())]);
        let mut t = store(&[b("1"), b("2"), p("1", "2")], &[b("2")], rem, Some("1"));
        inp(&mut t, "4");
        let r = |a: &[Art]| a.iter().map(|a| Goal::Remote(a.name())).collect::<Vec<_>>();
        let mut g = r(&[b("1"), b("2"), b("4"), p("1", "2")]);
        g.push(Goal::Local(b("4").name()));
        add("add-upload", t, &["add", "--upload", "@/input/4.tar.zst"], g);
        let mut t = store(&[b("1")], &[b("1")], rem, None);
        inp(&mut t, "4");
        let mut g = r(&[b("1"), b("4"), p("1", "4")]);
        g.extend([Goal::Local(b("4").name()), Goal::Local(p("1", "4").name())]);
        add("add-calc-upload", t, &["add", "--upload", "--calc-patch-from", "1", "@/input/4.tar.zst"], g);
        let mut t = store(&[], &[b("1")], rem, None);
        inp(&mut t, "4");
        add("add-calc-remote", t, &["add", "--calc-patch-from", "1", "@/input/4.tar.zst"], vec![Goal::Local(b("4").name()), Goal::Local(p("1", "4").name())]);
        // packages
        let mut t = store(&[b("1")], &[], rem, Some("1"));
        t.insert("input/pkg/bin/run".into(), Node::File(Arc::new(noise(3, 700)), 0o755));
        t.insert("input/pkg/readme".into(), file(b"hello".to_vec()));
        add("pkg", t.clone(), &["add-package", "5", "@/input/pkg"], vec![Goal::Local(b("5").name())]);
        add("pkg-upload", t.clone(), &["add-package", "5", "@/input/pkg", "--upload"], vec![Goal::Local(b("5").name()), Goal::Remote(b("5").name()), Goal::Remote(b("1").name())]);
        add("pkg-file", t, &["add-package", "5-rc.1", "@/input/pkg/bin/run"], vec![Goal::Local(b("5-rc.1").name())]);
        // patches
        let pg = || vec![Goal::Local(p("1", "2").name())];
        add("patch-local", store(&[b("1"), b("2")], &[], rem, None), &["create-patch", "1", "2"], pg());
        add("patch-remote", store(&[], &[b("1"), b("2")], rem, None), &["create-patch", "1", "2"], pg());
        add("patch-known", store(&[b("1")], &[b("2"), p("1", "2")], rem, None), &["create-patch", "1", "2"], pg());
        // sync
        add("sync", store(&[b("1"), b("2"), p("1", "2")], &[b("1")], rem, Some("1")), &["sync"], r(&[b("1"), b("2"), p("1", "2")]));
        add("sync-5", store(&[b("1"), b("2"), b("a-1"), p("1", "2"), p("1", "a-1")], &[], rem, None), &["sync"], r(&[b("1"), b("2"), b("a-1"), p("1", "2"), p("1", "a-1")]));
        // more than fits into any buffer
        add("big-direct", store(&[], &[b("xL1")], rem, None), &["install", "xL1"], inst("xL1"));
        add("big-chain", store(&[b("L1")], &[b("L2"), p("L1", "L2")], rem, Some("L1")), &["install", "L2"], inst("L2"));
        add("big-patch", store(&[b("xL1"), b("xL2")], &[], rem, None), &["create-patch", "xL1", "xL2"], vec![Goal::Local(p("xL1", "xL2").name())]);
        let mut t = store(&[b("1")], &[], rem, None);
        inp(&mut t, "xL1");
        add("big-add", t, &["add", "--upload", "@/input/xL1.tar.zst"], vec![Goal::Local(b("xL1").name()), Goal::Remote(b("xL1").name()), Goal::Remote(b("1").name())]);
        let mut t = Tree::new();
        t.insert("input/pkg/bin/run".into(), Node::File(Arc::new(noise(3, 200_000)), 0o755));
        t.insert("input/pkg/bin/other".into(), Node::File(Arc::new(noise(4, 9_000)), 0o755));
        add("big-pkg", t, &["add-package", "5", "@/input/pkg"], vec![Goal::Local(b("5").name())]);
        // megabytes
        add("huge-direct", store(&[], &[b("xM1")], rem, None), &["install", "xM1"], inst("xM1"));
        add("huge-chain", store(&[b("M1")], &[b("M2"), p("M1", "M2")], rem, Some("M1")), &["install", "M2"], inst("M2"));
        let mut t = store(&[b("xM1")], &[], rem, None);
        inp(&mut t, "M2");
        add("huge-add", t, &["add", "--upload", "@/input/M2.tar.zst"], vec![Goal::Local(b("M2").name()), Goal::Remote(b("M2").name()), Goal::Remote(b("xM1").name())]);
        add("huge-patch", store(&[b("M1")], &[b("M2")], rem, None), &["create-patch", "M1", "M2"], vec![Goal::Local(p("M1", "M2").name())]);
        if rem == Rem::Fs {
            let mut t = Tree::new();
            t.insert("input/pkg/bin/run".into(), Node::File(Arc::new(noise(3, 2_200_000)), 0o755));
            add("huge-pkg", t, &["add-package", "5", "@/input/pkg"], vec![Goal::Local(b("5").name())]);
        }
        // many others
        let crowd = |t: &mut Tree, n: usize, l: bool, r: bool| {
            for i in 0..n {
                let v = format!("o{}", i);
                if l {
                    t.insert(format!("local/{}", b(&v).name()), file(b(&v).bytes()));
                }
                if r {
                    t.insert(rem.path(&b(&v).name()), file(b(&v).bytes()));
                }
            }
        };
        let mut t = store(&[b("1")], &[b("2"), p("1", "2")], rem, Some("1"));
        crowd(&mut t, 35, true, true);
        add("crowd-inst", t, &["install", "2"], inst("2"));
        let mut t = store(&[b("1")], &[], rem, None);
        crowd(&mut t, 20, true, false);
        let mut g = r(&[b("1")]);
        g.extend((0..20).map(|i| Goal::Remote(b(&format!("o{}", i)).name())));
        add("crowd-sync", t, &["sync"], g);
        // auto-patch
        let mut t = store(&[b("v1.1.1")], &[b("v1.0.1"), b("v1.1.0")], rem, None);
        t.extend(repo.clone());
        add("auto", t, &["auto-patch", "--repo-root", "@/repo", "v1.1.1"], vec![Goal::Local(p("v1.1.0", "v1.1.1").name()), Goal::Local(p("v1.0.1", "v1.1.1").name())]);
    }
    let v = Rc::new(v);
    M.with(|m| *m.borrow_mut() = Some(v.clone()));
    v
}
/// Undisturbed run of a scenario.
pub struct Base {
    pub out: Out,
    pub fin: Tree,
    pub names: BTreeMap<String, Art>,
}
impl Base {
    /// Is `b` what file `n` of the local store (or of the remote) may contain: what the undisturbed run leaves or an
    /// intact artefact of that name?
    pub fn good(&self, fin_store: &Tree, n: &str, x: &[u8]) -> bool {
        if let Some(Node::File(y, _)) = fin_store.get(n) {
            if x == &y[..] {
                return true;
            }
        }
        self.names.get(n).map_or(false, |a| a.intact(x))
    }
    pub fn goals(&self, s: &Scen, t: &Tree) -> Result<(), String> {
        let (fl, fr) = (sub(&self.fin, "local"), s.rem.view(&self.fin));
        for g in &s.goals {
            match g {
                Goal::Installed(v) => installed(t, v)?,
                Goal::Local(n) => match sub(t, "local").get(n) {
                    Some(Node::File(x, _)) if self.good(&fl, n, x) => {}
                    _ => return Err(format!("local `{}` missing or wrong", n)),
                },
                Goal::Remote(n) => match s.rem.view(t).get(n) {
                    Some(Node::File(x, _)) if self.good(&fr, n, x) => {}
                    _ => return Err(format!("remote `{}` missing or wrong", n)),
                },
            }
        }
        Ok(())
    }
}
pub const VS: [&str; 24] = ["M1", "M2", "xM1", "L1", "L2", "xL1", "xL2", "xM2", "1", "2", "3", "4", "5", "7", "9", "10", "11", "x2", "a-1", "5-rc.1", "v1.0.0", "v1.0.1", "v1.1.0", "v1.1.1"];
pub fn scen(cx: &Cx, name: &str) -> Scen {
    scenarios(&cx.w).iter().find(|s| s.name == name).unwrap_or_else(|| panic!("no scenario {}", name)).clone()
}
pub fn base(cx: &Cx, s: &Scen) -> Rc<Base> {
    thread_local!(static M: RefCell<BTreeMap<String, Rc<Base>>> = RefCell::new(BTreeMap::new()));
    if let Some(b) = M.with(|m| m.borrow().get(&s.name).cloned()) {
        return b;
    }
    let (out, fin) = run_on(&cx.w, &s.init, &s.spec());
    let b = Rc::new(Base { out, fin, names: names(&VS) });
    M.with(|m| m.borrow_mut().insert(s.name.clone(), b.clone()));
    b
}
