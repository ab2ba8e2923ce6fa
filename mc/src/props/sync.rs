//! C10: sync (and add --upload) on every distribution of artefacts, every number of them, every completion order
//! and every set of failing uploads.
use super::install::{Conf, L, R};
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::s3::{Dev, S3Cfg};
use crate::shim;
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub struct Sync;

fn remote_changes(o: &Out) -> Vec<String> {
    o.ev.iter().filter(|e| e.mutating && (e.cls == shim::C_REMOTE || e.cls == shim::C_S3)).map(|e| e.show()).collect()
}
/// Names every successful sync must have put on the remote: local builds and local patches between known builds.
fn due(t: &Tree, rem: Rem, vs: &[&str]) -> BTreeSet<String> {
    let nm = names(vs);
    let (l, r) = (sub(t, "local"), rem.view(t));
    let known: BTreeSet<String> = l.iter().chain(r.iter()).filter(|(k, n)| matches!(n, Node::File(b, _) if !b.is_empty()) && k.ends_with(".tar.zst")).map(|(k, _)| k.clone()).collect();
    arts(&l)
        .into_iter()
        .filter(|(k, x)| {
            !x.is_empty()
                && match nm.get(k) {
                    Some(Art::Build(_)) => true,
                    Some(Art::Patch(x, y)) => known.contains(&b(x).name()) && known.contains(&b(y).name()),
                    None => false,
                }
        })
        .map(|x| x.0)
        .collect()
}
fn judge(cx: &mut Cx, what: &str, pre: &Tree, o: &Out, post: &Tree, rem: Rem, vs: &[&str], must_work: bool) {
    if o.code != 0 {
        if must_work {
            cx.fail("refused", format!("{}: ended with {}: {}", what, o.code, short(&o.err)));
        }
        return;
    }
    let (l, r0, r1) = (sub(post, "local"), rem.view(pre), rem.view(post));
    for n in due(post, rem, vs) {
        match (r0.get(&n), r1.get(&n)) {
            (_, None) => return cx.fail("missing", format!("{}: reported success, but `{}` is not on the remote", what, n)),
            (Some(Node::File(x, _)), Some(Node::File(y, _))) if !x.is_empty() => {
                if x != y {
                    return cx.fail("replaced", format!("{}: `{}` on the remote was replaced", what, n));
                }
            }
            (_, Some(Node::File(y, _))) => {
                if bytes(&l, &n) != Some(y) {
                    return cx.fail("bytes", format!("{}: `{}` on the remote differs from the local file ({} bytes)", what, n, y.len()));
                }
            }
            _ => return cx.fail("kind", format!("{}: `{}` on the remote is not a file", what, n)),
        }
    }
}
const VS: [&str; 3] = ["10", "9", "a-1"];

fn many(n: usize) -> Tree {
    let mut t = Tree::new();
    for i in 0..n {
        let v = format!("m{}", i);
        if i % 3 == 2 {
            let (x, y) = (format!("m{}", i - 2), format!("m{}", i - 1));
            t.insert(format!("local/{}", p(&x, &y).name()), file(patch(&x, &y)));
        } else {
            t.insert(format!("local/{}", b(&v).name()), file(build(&v)));
        }
    }
    t
}
fn many_vs(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("m{}", i)).collect()
}
pub fn dev(k: u64) -> Option<Dev> {
    match k {
        0 => None,
        1 => Some(Dev::Status(500, "InternalError".into())),
        2 => Some(Dev::Conn),
        3 => Some(Dev::Damage),
        4 => Some(Dev::Status(403, "AccessDenied".into())),
        5 => Some(Dev::LateStatus(503)),
        6 => Some(Dev::LateConn),
        _ => panic!(),
    }
}
impl Prop for Sync {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str {
        "every distribution of 3 builds and 3 patches over {nowhere, local, remote, both} x {directory, S3} x {sync, sync twice, add --upload}; 0..N artefacts; every vector of completion delays and every assignment of {ok, server error, broken connection, damaged on the way, ...} to up to 5 uploads; non-trivial: something had to be uploaded"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cs = vec![];
        for rem in if q { vec![Rem::Fs, Rem::S3] } else { vec![Rem::Fs, Rem::S3, Rem::S3Root, Rem::S3Slash, Rem::S3Deep] } {
            for k in 0..4096 {
                for how in ["sync", "add"] {
                    if how == "add" && k % 4 & 1 == 1 && q {
                        continue;
                    }
                    let page = [0, 1, 2][k as usize % 3];
                    cs.push(json!({"k": k, "rem": rem.name(), "how": how, "page": page}));
                }
            }
            for n in 0..=(if q { 16 } else { 60 }) {
                let page = [0, 1, 2, 3][n as usize % 4];
                cs.push(json!({"n": n, "rem": rem.name(), "delays": [], "devs": [], "page": page}));
            }
        }
        // large numbers, large files, and one failure among many
        for rem in [Rem::Fs, Rem::S3] {
            for n in if q { vec![33, 65, 101, 150] } else { vec![65, 101, 130, 150, 257, 513, 1001, 1300] } {
                cs.push(json!({"n": n, "rem": rem.name(), "delays": [], "devs": [], "page": 0}));
            }
            for size in if q { vec![65_536usize, 131_073, 1 << 20, 5 << 20, 9_000_001] } else { vec![65_535, 65_536, 65_537, 131_073, 1 << 20, 4_194_305, 5 << 20, 8 << 20, 9_000_001, 17_000_000, 33_000_000] } {
                cs.push(json!({"n": 3, "rem": rem.name(), "delays": [], "devs": [], "page": 0, "size": size}));
            }
        }
        for n in if q { vec![6usize, 9, 16] } else { (6..=24).collect() } {
            for i in 0..n {
                for k in 1..=(if q { 3 } else { 6 }) {
                    cs.push(json!({"n": n, "rem": "S3", "delays": [], "devs": [[i, k]], "page": 0}));
                    cs.push(json!({"n": n, "rem": "S3", "delays": [], "devs": [[i, k], [(i + 1) % n, k], [(i + 2) % n, k], [(i + 3) % n, 1]], "page": 0}));
                }
            }
        }
        // completion orders and failures
        for n in 1..=(if q { 4usize } else { 6 }) {
            let nd = if q { 3u32 } else if n <= 5 { 4 } else { 3 };
            for d in 0..nd.pow(n as u32) {
                let delays: Vec<u32> = (0..n).map(|i| d / nd.pow(i as u32) % nd).collect();
                // all right, or one upload failing in one way
                let full = n <= 3;
                cs.push(json!({"n": n, "rem": "S3", "delays": delays, "devs": [], "page": 0}));
                for i in 0..n {
                    for k in if full || !q { vec![1, 2, 3] } else { vec![1 + (d as usize + i) % 3] } {
                        cs.push(json!({"n": n, "rem": "S3", "delays": delays, "devs": [[i, k]], "page": 0}));
                    }
                }
            }
            // every assignment of outcomes, without delays and with a fixed one
            let no = if q { 4u32 } else { 7 };
            if n <= 4 || !q && n <= 5 {
                for d in 0..no.pow(n as u32) {
                    let devs: Vec<Value> = (0..n).map(|i| (i, d / no.pow(i as u32) % no)).filter(|x| x.1 != 0).map(|(i, k)| json!([i, k])).collect();
                    cs.push(json!({"n": n, "rem": "S3", "delays": [], "devs": devs, "page": 0}));
                    cs.push(json!({"n": n, "rem": "S3", "delays": [2, 0, 1, 0, 2, 0], "devs": devs, "page": 0}));
                }
            }
        }
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        let rem = Rem::parse(c["rem"].as_str().unwrap());
        let page = c["page"].as_u64().unwrap() as usize;
        if let Some(k) = c["k"].as_u64() {
            let g = |i: u32| (k >> (2 * i) & 3) as u8;
            let cf = Conf { vs: VS.iter().map(|x| x.to_string()).collect(), b: vec![g(0), g(1), g(2)], p: vec![(0, 1, g(3), 0), (1, 2, g(4), 0), (0, 2, g(5), 0)], cur: -1, tgt: 0, rem, page, tsize: crate::props::install::BUILD, naming: 0 };
            let mut t = cf.tree();
            let add = c["how"] == "add";
            let mut sp = if add {
                t.insert("input/10.tar.zst".into(), file(zl(&content("10"), 3)));
                on(rem, &["add", "--upload", "@/input/10.tar.zst"])
            } else {
                on(rem, &["sync"])
            };
            sp.s3.page = page;
            let (o, s) = run_on(&cx.w, &t, &sp);
            let todo = due(&s, rem, &VS).iter().any(|n| !rem.view(&t).contains_key(n));
            cx.eval(if todo { Some(h64(&c.to_string())) } else { None });
            let what = format!("{} {}", show(&t), c["how"]);
            judge(cx, &what, &t, &o, &s, rem, &VS, true);
            if !add && rem.view(&t).iter().any(|(n, x)| rem.view(&s).get(n) != Some(x)) {
                cx.fail("changed", format!("{}: something on the remote changed: {}", what, show(&rem.view(&s))));
            }
            // once more: nothing to do
            if o.code == 0 {
                let mut sp = on(rem, &["sync"]);
                sp.s3.page = page;
                let o2 = cx.w.cli(&sp);
                let ch = remote_changes(&o2);
                cx.eval(None);
                if o2.code != 0 || !ch.is_empty() {
                    cx.fail("again", format!("{}: a second sync ends with {} and does {:?}", what, o2.code, ch));
                }
            }
            let _ = (L, R);
            return;
        }
        let n = c["n"].as_u64().unwrap() as usize;
        let mut t = many(n);
        if let Some(size) = c["size"].as_u64() {
            t.insert(format!("local/{}", b("m0").name()), file(z(&noise(size, size as usize))));
        }
        let vs = many_vs(n);
        let vs: Vec<&str> = vs.iter().map(|x| x.as_str()).collect();
        let delays: Vec<u8> = c["delays"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        // request 0 is the listing
        let devs: Vec<(u32, Dev)> = c["devs"].as_array().unwrap().iter().map(|x| (1 + x[0].as_u64().unwrap() as u32, dev(x[1].as_u64().unwrap()).unwrap())).collect();
        let clean = devs.is_empty();
        let mut sp = on(rem, &["sync"]);
        sp.s3 = S3Cfg { page, devs, delays };
        let (o, s) = run_on(&cx.w, &t, &sp);
        cx.eval(if n > 0 { Some(h64(&c.to_string())) } else { None });
        let what = format!("sync of {} artefacts, delays {}, outcomes {}", n, c["delays"], c["devs"]);
        if o.code != 0 {
            cx.count("failures_reported", 1);
        }
        if o.code > 101 {
            cx.fail("died", format!("{}: ended with {}", what, o.code));
        }
        judge(cx, &what, &t, &o, &s, rem, &vs, clean);
        // what is on the remote must be right in any case
        for (k, x) in arts(&rem.view(&s)) {
            if bytes(&t, &format!("local/{}", k)) != Some(&x) {
                // the stand-in rejects damaged uploads, so nothing wrong may be there
                cx.fail("wrong", format!("{}: `{}` on the remote is wrong", what, k));
            }
        }
        let o2 = cx.w.cli(&on(rem, &["sync"]));
        let s2 = cx.w.snap_all();
        cx.eval(None);
        judge(cx, &format!("{}, then again undisturbed", what), &s, &o2, &s2, rem, &vs, true);
        if o.code == 0 && !remote_changes(&o2).is_empty() {
            cx.fail("again", format!("{}: a second sync does {:?}", what, remote_changes(&o2)));
        }
    }
}
