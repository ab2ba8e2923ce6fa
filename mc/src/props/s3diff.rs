//! C19: the same histories on a directory remote and on S3 remotes.
use super::scen::repo_tree;
use crate::exec::*;
use crate::fix::*;
use crate::hist::{self, cmd, Move};
use crate::par::*;
use crate::s3::GAPS;
use serde_json::{json, Value};

pub struct S3Diff;

/// Objects that are not directly under the URL's path.
fn alien(rem: Rem) -> Tree {
    let mut t = Tree::new();
    let mut put = |k: &str, n: Node| {
        t.insert(format!("bucket/{}", crate::s3::enc(k)), n);
    };
    let junk = || file(build("alien"));
    let keys: &[&str] = match rem {
        Rem::S3 | Rem::S3Slash => &["pre-other/77.tar.zst", "prefix/77.tar.zst", "pre/sub/77.tar.zst", "77.tar.zst", "pre2/10.tar.zst", "pre.tar.zst", "pre/sub/10-9.patch.zst", "qre/77.tar.zst", "pre/sub/", "pre"],
        Rem::S3Deep => &["pre/77.tar.zst", "pre/sub2/77.tar.zst", "pre/sub/x/77.tar.zst", "sub/77.tar.zst", "pre/sub.tar.zst", "pre/sub/x/", "pre/sub"],
        _ => &["x/77.tar.zst", "pre/10.tar.zst", "77.tar.zst"],
    };
    for k in keys {
        put(k, junk());
    }
    t
}
/// The world with a directory remote, turned into one with the S3 remote.
fn to_s3(t: &Tree, rem: Rem) -> Tree {
    let mut n = Tree::new();
    for (k, v) in t {
        match k.strip_prefix("remote/") {
            Some(r) => {
                n.insert(rem.path(r), match v { Node::File(b, _) => file(b.clone()), x => x.clone() });
            }
            None => {
                n.insert(k.clone(), v.clone());
            }
        }
    }
    n.extend(alien(rem));
    n
}
fn plain(t: &Tree) -> Tree {
    t.iter().map(|(k, v)| (k.clone(), match v { Node::File(b, _) => file(b.clone()), x => x.clone() })).collect()
}
fn judge(cx: &mut Cx, rems: &[(Rem, usize)], pre: &Tree, m: &Move, o: Option<&Out>, post: &Tree) {
    let o = match o {
        Some(o) => o,
        None => return,
    };
    for (rem, page) in rems {
        let t = to_s3(pre, *rem);
        let (o2, s2) = run_on(&cx.w, &t, &m.spec(*rem, *page).unwrap());
        cx.count("transitions", 1);
        cx.count("traces", 1);
        cx.eval(None);
        let what = || format!("{} : {} (remote {} with {} keys per page)", show(pre), m.show(), rem.arg(), page);
        if (o.code == 0) != (o2.code == 0) {
            cx.fail("status", format!("{}: with a directory the exit status is {}, with S3 {}: {}", what(), o.code, o2.code, short(if o.code == 0 { &o2.err } else { &o.err })));
            continue;
        }
        let (l1, l2) = (plain(&sub(post, "local")), plain(&sub(&s2, "local")));
        if l1 != l2 {
            cx.fail("local", format!("{}: local stores differ: directory {} / S3 {}", what(), show(&l1), show(&l2)));
            continue;
        }
        let want = to_s3(post, *rem);
        let (b1, b2) = (plain(&sub(&want, "bucket")), plain(&sub(&s2, "bucket")));
        if b1 != b2 {
            let d: Vec<_> = b1.keys().chain(b2.keys()).filter(|k| b1.get(*k) != b2.get(*k)).map(|k| crate::s3::dec(k)).collect();
            cx.fail("remote", format!("{}: the bucket's contents differ from the directory's in {:?}", what(), d));
        }
    }
}
fn init(w: &World, deep: bool) -> (Tree, Vec<Move>) {
    let mut t = store(&[b("10")], &[b("10"), b("9"), p("10", "9")], Rem::Fs, Some("10"));
    t.extend(repo_tree(w, &["v1.0.0", "v1.0.1!", "v1.1.0"]));
    t.insert("remote/v1.0.0.tar.zst".into(), file(build("v1.0.0")));
    t.insert("input/a-1.tar.zst".into(), file(build("a-1")));
    t.insert("input/9.tar.zst".into(), file(zl(&content("9"), 9)));
    t.insert("input/v1.0.1.tar.zst".into(), file(build("v1.0.1")));
    t.insert("input/pkg".into(), Node::Dir);
    t.insert("input/pkg/f".into(), file(b"data".to_vec()));
    let mut m = vec![];
    for c in ["install 10", "install 9", "install a-1", "install 77", "install sub", "add @/input/a-1.tar.zst", "add @/input/a-1.tar.zst --upload", "add @/input/9.tar.zst", "add @/input/v1.0.1.tar.zst --upload --calc-patch-from v1.0.0", "create-patch 10 9", "create-patch 9 a-1", "create-patch a-1 77", "sync", "auto-patch --repo-root @/repo v1.0.1"] {
        m.push(cmd(c));
    }
    if deep {
        m.push(cmd("add-package p1 @/input/pkg --upload"));
        m.push(cmd("add-package 10 @/input/pkg"));
        m.push(cmd("create-patch 9 10"));
    }
    m.push(Move::Rm("local/10.tar.zst".into()));
    m.push(Move::Rm("local/9.tar.zst".into()));
    m.push(Move::Rm("remote/9.tar.zst".into()));
    m.push(Move::Rm("local/current".into()));
    m.push(Move::Put("remote/9.tar.zst".into(), file(vec![])));
    m.push(Move::Put("remote/10-9.patch.zst".into(), file(b"garbage".to_vec())));
    m.push(Move::Put("remote/odd name +&%.tar.zst".into(), file(build("zz"))));
    m.push(cmd("install odd|name|+&%").pipe());
    (t, m)
}
trait Pipe {
    fn pipe(self) -> Move;
}
impl Pipe for Move {
    /// blanks inside arguments
    fn pipe(self) -> Move {
        match self {
            Move::Cmd(a) => Move::Cmd(a.into_iter().map(|x| x.replace('|', " ")).collect()),
            m => m,
        }
    }
}
const SEARCHES: [(&str, bool, &[(Rem, usize)], usize, usize); 3] = [
    ("wide", true, &[(Rem::S3, 0), (Rem::S3, 1), (Rem::S3Slash, 2), (Rem::S3Deep, 3), (Rem::S3Root, 0), (Rem::S3Root, 1), (Rem::S3, GAPS + 2)], 2, 3),
    ("deep", false, &[(Rem::S3, 2)], 3, 5),
    ("deeppath", false, &[(Rem::S3Deep, 1)], 2, 4),
];
/// Many objects and every page size: what is seen of them?
fn pages(cx: &mut Cx, n: usize, page: usize, rem: Rem) {
    let vs: Vec<String> = (0..n).map(|i| format!("n{}", i)).collect();
    let mut t = alien(rem);
    for v in &vs {
        t.insert(rem.path(&b(v).name()), file(build(v)));
        t.insert(format!("local/{}", b(v).name()), file(build(v)));
    }
    let mut sp = on(rem, &["sync"]);
    sp.s3.page = page;
    let (o, s) = run_on(&cx.w, &t, &sp);
    cx.count("transitions", 1);
    cx.count("traces", 1);
    cx.eval(Some(h64(&(n, page, rem.name()))));
    if o.code != 0 || s != t || o.ev.iter().any(|e| e.mutating) {
        cx.fail("pages", format!("{} objects under {}, {} per page: sync (nothing to do) ends with {} and does {:?}", n, rem.arg(), page, o.code, o.ev.iter().filter(|e| e.mutating).map(|e| e.show()).collect::<Vec<_>>()));
    }
    if n > 0 {
        // every single one can be found
        for v in [&vs[0], &vs[n / 2], &vs[n - 1]] {
            let mut t2: Tree = t.clone();
            t2.retain(|k, _| !k.starts_with("local/"));
            let mut sp = on(rem, &["install", v]);
            sp.s3.page = page;
            let (o, s) = run_on(&cx.w, &t2, &sp);
            cx.eval(None);
            if o.code != 0 || installed(&s, v).is_err() {
                cx.fail("pages-install", format!("{} objects under {}, {} per page: install {} ends with {}: {}", n, rem.arg(), page, v, o.code, short(&o.err)));
            }
        }
    }
}
impl Prop for S3Diff {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn rule(&self) -> &'static str {
        "breadth-first search over command histories on a directory remote; at every transition the same command is run on S3 remotes (four URL shapes, several page sizes, empty pages in between, foreign objects in the bucket) holding the same artefacts and exit status, local store and bucket compared; plus listings of 0..N objects at every page size; non-trivial: the state changed"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let (nmax, rems): (usize, &[Rem]) = if q { (7, &[Rem::S3, Rem::S3Root]) } else { (24, &[Rem::S3, Rem::S3Root, Rem::S3Slash, Rem::S3Deep]) };
        let mut cs = vec![];
        for rem in rems {
            for n in 0..=nmax {
                for page in 1..=n + 2 {
                    cs.push(json!({"pages": n, "page": page, "rem": rem.name()}));
                    cs.push(json!({"pages": n, "page": GAPS + page, "rem": rem.name()}));
                }
            }
            cs.push(json!({"pages": if q { 1003 } else { 2100 }, "page": 1000, "rem": rem.name()}));
            // many pages
            for (n, page) in [(70, 1), (130, GAPS + 1), (260, 1), (1030, 1), (1100, 7)] {
                cs.push(json!({"pages": n, "page": page, "rem": rem.name()}));
            }
        }
        ctl.cases(self, cs);
        for (tag, full, rems, dq, dt) in SEARCHES {
            let (t, m) = { let cx = ctl.cx(98); init(&cx.w, full) };
            hist::bfs(ctl, tag, &t, &m, Rem::Fs, if q { dq } else { dt }, if q { 3000 } else { 60_000 }, &|cx, pre, mv, o, post| judge(cx, rems, pre, mv, o, post));
        }
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        if let Some(n) = c["pages"].as_u64() {
            return pages(cx, n as usize, c["page"].as_u64().unwrap() as usize, Rem::parse(c["rem"].as_str().unwrap()));
        }
        let (_, full, rems, _, _) = SEARCHES.iter().find(|s| c["bfs"] == s.0).unwrap();
        let (t, m) = init(&cx.w, *full);
        hist::replay(cx, &t, &m, c, &|cx, pre, mv, o, post| judge(cx, rems, pre, mv, o, post));
    }
}
