//! C21: every way of adding a build: stored exactly, or nothing happened.
use super::pack::{compare, list};
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::shim::{self, Plan};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Adding;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Must {
    Work,
    Fail,
    Either,
}
/// What is given to `add`.
struct Input {
    name: &'static str,
    /// the argument, with V for the version
    arg: &'static str,
    cwd: &'static str,
    /// where the bytes come from, in the world (with V)
    at: &'static str,
    must: Must,
}
fn inputs() -> Vec<Input> {
    use Must::*;
    let i = |name, arg, cwd, at, must| Input { name, arg, cwd, at, must };
    let f = "input/V.tar.zst";
    vec![
        i("absolute", "@/input/V.tar.zst", "home", f, Work),
        i("relative", "../input/V.tar.zst", "home", f, Work),
        i("bare", "V.tar.zst", "input", f, Work),
        i("dot", "./V.tar.zst", "input", f, Work),
        i("detour", "@/local/../input//./V.tar.zst", "home", f, Work),
        i("linked directory", "@/home/ln/V.tar.zst", "home", f, Work),
        i("next to the store", "@/local-more/V.tar.zst", "home", "local-more/V.tar.zst", Work),
        i("deep", "@/input/a.b/c/V.tar.zst", "home", "input/a.b/c/V.tar.zst", Work),
        i("in the remote", "@/remote/else/V.tar.zst", "home", "remote/else/V.tar.zst", Work),
        i("temporary", "@/tmp/V.tar.zst", "home", "tmp/V.tar.zst", Work),
        i("temporary, deep", "V.tar.zst", "tmp/.tmpX/y", "tmp/.tmpX/y/V.tar.zst", Work),
        i("linked", "@/home/lnk/V.tar.zst", "home", "input/blob.bin", Work),
        i("linked to another version", "../home/lnk/V.tar.zst", "input", "input/77.tar.zst", Work),
        i("linked twice", "lnk/V.tar.zst", "home", "input/77-78.patch.zst", Work),
        i("linked to nothing", "@/home/lnk/V.tar.zst", "home", "", Fail),
        i("missing", "@/input/V.tar.zst", "home", "", Fail),
        i("missing directory", "@/input/x/V.tar.zst", "home", "", Fail),
        i("empty", "@/input/V.tar.zst", "home", f, Fail),
        i("directory", "@/input/V.tar.zst", "home", "", Fail),
        i("in the store", "@/local/V.tar.zst", "home", "", Fail),
        i("in the store, relative", "V.tar.zst", "local", "", Fail),
        i("in the store, detour", "@/input/../local/V.tar.zst", "home", "", Fail),
        i("in the store, linked", "@/home/lns/V.tar.zst", "home", "", Fail),
        i("below the store", "@/local/d/V.tar.zst", "home", "", Fail),
        i("below a file", "@/input/f/V.tar.zst", "home", "", Fail),
    ]
}
const GOOD: [&str; 9] = ["2", "v1.2.3", "IL40-2-19", "a_b+c d", "\u{e4}", "1.tar", "2.patch.zst", LONG, LONGER];
/// As long as versions can be for there to be a patch from "1" to it, and for there to be a build of it.
const LONG: &str = "vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv";
const LONGER: &str = "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww";
const BAD: [&str; 6] = ["---", "a---b", "-a", "a-", "-", ""];
/// Contents: a build, not a build at all, tiny, large.
fn contents(k: usize, v: &str) -> Vec<u8> {
    match k {
        0 => zl(&content(v), 7),
        1 => b"no archive".to_vec(),
        2 => vec![0],
        3 => noise(9, 300_000),
        4 => noise(9, 8192),
        _ => z(&noise(9, 70_000)),
    }
}
/// What is packaged: (files below input/, argument, cwd, whether it must work, files expected in the package)
struct Pkg {
    name: &'static str,
    files: Vec<(&'static str, Vec<u8>, u32)>,
    arg: &'static str,
    cwd: &'static str,
    must: Must,
    want: Vec<(&'static str, usize)>,
}
fn pkgs() -> Vec<Pkg> {
    use Must::*;
    let f = || vec![("t/a", noise(1, 10), 0o644), ("t/d/b", vec![], 0o600), ("t/d/c.tar.zst", noise(3, 5000), 0o755)];
    let w = vec![("a", 0), ("d/b", 1), ("d/c.tar.zst", 2)];
    let p = |name, files, arg, cwd, must, want: &Vec<(&'static str, usize)>| Pkg { name, files, arg, cwd, must, want: want.clone() };
    vec![
        p("tree", f(), "@/input/t", "home", Work, &w),
        p("tree, slash", f(), "@/input/t/", "home", Work, &w),
        p("tree, relative", f(), "t", "input", Work, &w),
        p("tree, dot", f(), ".", "input/t", Work, &w),
        p("tree, detour", f(), "@/input/t/d/..", "home", Work, &w),
        p("subtree", f(), "@/input/t/d", "home", Work, &vec![("b", 1), ("c.tar.zst", 2)]),
        p("file", f(), "@/input/t/a", "home", Work, &vec![("a", 0)]),
        p("empty file", f(), "@/input/t/d/b", "home", Work, &vec![("b", 1)]),
        p("build file", f(), "@/input/t/d/c.tar.zst", "home", Work, &vec![("c.tar.zst", 2)]),
        p("large", vec![("t/a", noise(1, 400_000), 0o644), ("t/b", vec![7; 3_000_000], 0o644)], "@/input/t", "home", Work, &vec![("a", 0), ("b", 1)]),
        p("temporary", f(), "@/tmp/t", "home", Work, &w),
        p("temporary itself", f(), "@/tmp", "home", Work, &vec![("t/a", 0), ("t/d/b", 1), ("t/d/c.tar.zst", 2)]),
        p("missing", f(), "@/input/x", "home", Fail, &vec![]),
        p("below a file", f(), "@/input/t/a/b", "home", Fail, &vec![]),
        p("dangling", f(), "@/home/dangling", "home", Fail, &vec![]),
    ]
}
/// Existing builds: (locally, on the remote)
const HAVE: [(&str, &str); 8] = [("", ""), ("other", ""), ("same", ""), ("", "other"), ("other", "other"), ("same", "same"), ("size", ""), ("size", "size")];
/// --calc-patch-from
const FROM: [&str; 5] = ["", "1", "1 remote", "unknown", "itself"];

struct Try {
    rem: Rem,
    v: String,
    args: Vec<String>,
    cwd: &'static str,
    must: Must,
    tree: Tree,
    /// exact bytes of the build, or the package's contents
    bytes: Option<Vec<u8>>,
    pack: Option<BTreeMap<Vec<u8>, (Vec<u8>, u32)>>,
    upload: bool,
    from: &'static str,
}
fn have(t: &mut Tree, rem: Rem, v: &str, bytes: &[u8], k: usize, from: &str) {
    let what = |s: &str| match s {
        "other" => z(b"another build"),
        // (for packages this is only nearly so: their size is not known)
        "size" => bytes.iter().map(|b| b ^ 0x55).collect(),
        _ => bytes.to_vec(),
    };
    let (l, r) = HAVE[k];
    if !l.is_empty() {
        t.insert(format!("local/{}.tar.zst", v), file(what(l)));
    }
    if !r.is_empty() {
        t.insert(rem.path(&format!("{}.tar.zst", v)), file(what(r)));
    }
    // some more
    for a in [b("7"), p("7", "8"), b("8")] {
        t.insert(format!("local/{}", a.name()), file(a.bytes()));
        t.insert(rem.path(&a.name()), file(a.bytes()));
    }
    match from {
        "1" => {
            t.insert("local/1.tar.zst".into(), file(build("1")));
        }
        "1 remote" => {
            t.insert(rem.path("1.tar.zst"), file(build("1")));
        }
        _ => {}
    }
    t.insert("local/current".into(), Node::Link("@/local/7.tar.zst".into()));
    t.insert("home/ln".into(), Node::Link("@/input".into()));
    t.insert("home/lns".into(), Node::Link("@/local".into()));
    t.insert("home/dangling".into(), Node::Link("@/nowhere".into()));
}
fn flags(v: &str, upload: bool, from: &str) -> Vec<String> {
    let mut a = vec![];
    if upload {
        a.push("--upload".into());
    }
    match from {
        "" => {}
        "unknown" => a.extend(["--calc-patch-from".into(), "99".into()]),
        "itself" => a.extend(["--calc-patch-from".into(), v.to_string()]),
        _ => a.extend(["--calc-patch-from".into(), "1".to_string()]),
    }
    a
}
fn rems(k: usize) -> Rem {
    [Rem::Fs, Rem::S3, Rem::S3Root][k]
}
fn plan(c: &Value) -> Try {
    let u = |k: &str| c[k].as_u64().unwrap() as usize;
    let rem = rems(u("rem"));
    let v = c["v"].as_str().unwrap().to_string();
    let from = FROM[u("from")];
    let upload = u("upload") == 1;
    let mut t = Tree::new();
    if c["cmd"] == "add" {
        let i = &inputs()[u("input")];
        let data = contents(u("content"), &v);
        let sub = |s: &str| s.replace('V', &v);
        have(&mut t, rem, &v, &data, u("have"), from);
        if i.arg.contains("/local/V") || i.arg.contains("lns/V") || i.cwd == "local" {
            t.insert(format!("local/{}.tar.zst", v), file(data.clone()));
        }
        match i.name {
            "directory" => {
                t.insert(sub("input/V.tar.zst"), Node::Dir);
                t.insert(sub("input/V.tar.zst/x"), file(data.clone()));
            }
            "below the store" => {
                t.insert(sub("local/d/V.tar.zst"), file(data.clone()));
            }
            "below a file" => {
                t.insert("input/f".into(), file(data.clone()));
            }
            "empty" => {
                t.insert(sub(i.at), file(vec![]));
            }
            "linked to nothing" => {
                t.insert(sub("home/lnk/V.tar.zst"), Node::Link("../../input/nothing.tar.zst".into()));
            }
            _ if !i.at.is_empty() => {
                t.insert(sub(i.at), Node::File(data.clone().into(), [0o644, 0o600, 0o444][data.len() % 3]));
                match i.name {
                    "linked" | "linked to another version" => {
                        t.insert(sub("home/lnk/V.tar.zst"), Node::Link(format!("@/{}", i.at)));
                    }
                    "linked twice" => {
                        t.insert(sub("home/lnk/V.tar.zst"), Node::Link("../hop.tar.zst".into()));
                        t.insert("home/hop.tar.zst".into(), Node::Link("@/input/77-78.patch.zst".into()));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        let must = if BAD.contains(&&v[..]) || v.len() > LONGER.len() { Must::Fail } else { i.must };
        let args = [vec!["add".to_string(), sub(i.arg)], flags(&v, upload, from)].concat();
        Try { rem, v, args, cwd: i.cwd, must, tree: t, bytes: Some(data), pack: None, upload, from }
    } else {
        let i = &pkgs()[u("pkg")];
        have(&mut t, rem, &v, &z(b"a third build"), u("have"), from);
        for (p, b, m) in &i.files {
            t.insert(format!("{}/{}", if i.name.starts_with("temporary") { "tmp" } else { "input" }, p), Node::File(b.clone().into(), *m));
        }
        let must = if BAD.contains(&&v[..]) || v.contains('/') || v.len() > LONGER.len() { Must::Fail } else { i.must };
        let pack = i.want.iter().map(|(n, k)| (n.as_bytes().to_vec(), (i.files[*k].1.clone(), i.files[*k].2))).collect();
        let args = [vec!["add-package".to_string()], flags(&v, upload, from), vec!["--".to_string(), v.clone(), i.arg.to_string()]].concat();
        Try { rem, v, args, cwd: i.cwd, must, tree: t, bytes: None, pack: Some(pack), upload, from }
    }
}
fn spec(t: &Try) -> Spec {
    let mut s = on(t.rem, &t.args.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    s.cwd = t.cwd.into();
    s
}
/// Is this what was to be added?
fn right(t: &Try, b: &[u8]) -> Result<(), String> {
    match (&t.bytes, &t.pack) {
        (Some(x), _) if x == b => Ok(()),
        (Some(x), _) => Err(format!("{} bytes that are not the {} of the input", b.len(), x.len())),
        (_, Some(p)) => compare(&list(&unz(b).ok_or("not decompressable")?)?, p),
        _ => unreachable!(),
    }
}
/// The same bytes (permissions are none of the remote's business)?
fn same(x: Option<&Node>, y: Option<&Node>) -> bool {
    match (x, y) {
        (Some(Node::File(a, _)), Some(Node::File(b, _))) => a == b,
        (x, y) => x == y,
    }
}
fn judge(t: &Try, o: &Out, after: &Tree, faulty: bool) -> Option<(&'static str, String)> {
    let name = format!("{}.tar.zst", t.v);
    let (l0, l1) = (sub(&t.tree, "local"), sub(after, "local"));
    let (r0, r1) = (t.rem.view(&t.tree), t.rem.view(after));
    let other = |x: &Tree, y: &Tree, but: &dyn Fn(&str) -> bool| {
        x.keys().chain(y.keys()).find(|k| !but(k) && x.get(*k) != y.get(*k) && !matches!((x.get(*k), y.get(*k)), (None, Some(Node::Dir)))).cloned()
    };
    let is_new_patch = |k: &str| k.ends_with(&format!("-{}.patch.zst", t.v)) && !t.from.is_empty();
    if o.outside {
        return Some(("outside", "wrote outside".into()));
    }
    if o.code > 101 {
        return Some(("died", format!("ended with {}", o.code)));
    }
    for d in ["input", "tmp", "home", "remote/else"] {
        if let Some(k) = other(&sub(&t.tree, d), &sub(after, d), &|_| false) {
            return Some(("input", format!("{}/{} has changed", d, k)));
        }
    }
    if o.code == 0 {
        if t.must == Must::Fail {
            return Some(("accepted", "accepted".into()));
        }
        match l1.get(&name) {
            Some(Node::File(b, _)) => {
                if let Err(e) = right(t, b) {
                    return Some(("wrong", format!("reports success, but local `{}` has {}", name, e)));
                }
                if t.upload {
                    match (r0.get(&name), r1.get(&name)) {
                        (Some(x), y) if Some(x) != y => return Some(("replaced", format!("replaced the remote's `{}`", name))),
                        (None, Some(Node::File(c, _))) if c == b => {}
                        (None, _) => return Some(("not-uploaded", format!("reports success, but `{}` is not on the remote", name))),
                        _ => {}
                    }
                }
            }
            x => return Some(("not-stored", format!("reports success, but local `{}` is {:?}", name, x.is_some()))),
        }
        if !t.from.is_empty() && !l1.keys().any(|k| is_new_patch(k)) {
            return Some(("no-patch", "reports success, but there is no patch".into()));
        }
        let mut but: Vec<String> = vec![name.clone()];
        if t.from == "1 remote" {
            but.push("1.tar.zst".into());
        }
        if let Some(k) = other(&l0, &l1, &|k| but.iter().any(|b| b == k) || is_new_patch(k)) {
            return Some(("else", format!("local `{}` has changed", k)));
        }
        // (an upload is a sync: it may bring everything the remote does not have)
        if let Some(k) = other(&r0, &r1, &|k| t.upload && (r0.get(k).is_none() && same(l1.get(k), r1.get(k)))) {
            return Some(("else", format!("the remote's `{}` has changed", k)));
        }
        return None;
    }
    if t.must == Must::Work && !faulty && (t.from.is_empty() || t.from.starts_with('1')) {
        // (what is no build cannot be patched to)
        let patchable = t.from.is_empty() || t.v.len() <= 243 && (t.pack.is_some() || t.bytes.as_ref().map_or(false, |b| unz(b).is_some()));
        if patchable {
            return Some(("rejected", format!("rejected: {}", short(&o.err))));
        }
    }
    // rejected; with a good input, the patch or the upload may have failed after adding
    let added = t.must == Must::Work && (!t.from.is_empty() || t.upload);
    let ok = |k: &str| added && (k == name && matches!(l1.get(k), Some(Node::File(b, _)) if right(t, b).is_ok()) || is_new_patch(k) || (k == "1.tar.zst" && t.from == "1 remote"));
    if let Some(k) = other(&l0, &l1, &ok) {
        return Some(("half", format!("failed ({}), but local `{}` has changed", short(&o.err), k)));
    }
    if let Some(k) = other(&r0, &r1, &|k| added && t.upload && r0.get(k).is_none() && same(l1.get(k), r1.get(k))) {
        return Some(("half", format!("failed ({}), but the remote's `{}` has changed", short(&o.err), k)));
    }
    None
}
impl Prop for Adding {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn rule(&self) -> &'static str {
        "every combination of input (25 places and kinds of files x 6 contents, 14 kinds of packages), version (9 good, 2 of them as long as possible; 6 bad; every length from 140 to 248), what both stores have of that version (8), --upload, --calc-patch-from (5), remote (3); and for a part of them every failing or short operation on the input; the stores afterwards are compared with the specified ones, file by file"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cs = vec![];
        let vs: Vec<&str> = GOOD.iter().chain(BAD.iter()).cloned().collect();
        for rem in 0..3 {
            for v in &vs {
                let base = *v == "2" || *v == "IL40-2-19";
                for upload in 0..2 {
                    for from in 0..FROM.len() {
                        for have in 0..HAVE.len() {
                            if !base && (from > 1 || have > 1 && have != 6 || rem == 2) && q {
                                continue;
                            }
                            for (i, inp) in inputs().iter().enumerate() {
                                if q && rem > 0 && i > 0 && (upload == 0 || have > 3) {
                                    continue;
                                }
                                for content in 0..6 {
                                    // all contents only for the plain input
                                    if content > 0 && i > 0 && (q || inp.must == Must::Fail) {
                                        continue;
                                    }
                                    cs.push(json!({"cmd": "add", "rem": rem, "v": v, "upload": upload, "from": from, "have": have, "input": i, "content": content, "faults": base && rem < 2 && from < 3 && have < 2 && content == 0 && (upload == 0 || !q)}));
                                }
                            }
                            for (i, pk) in pkgs().iter().enumerate() {
                                if q && (rem > 0 || !base) && i > 0 && (upload == 0 || have > 1 || from > 1) {
                                    continue;
                                }
                                if pk.name == "large" && (from > 1 || have > 1) {
                                    continue;
                                }
                                cs.push(json!({"cmd": "pkg", "rem": rem, "v": v, "upload": upload, "from": from, "have": have, "pkg": i, "faults": base && rem == 0 && from < 1 && have < 2 && (upload == 0 || !q) && i != 9}));
                            }
                        }
                    }
                }
            }
        }
        // names of every length, the longest of which leave no room for anything added to them
        for n in (if q { 140 } else { 100 })..=248 {
            for v in ["v".repeat(n), format!("{}{}", "\u{e4}".repeat(n / 2), if n % 2 == 1 { "v" } else { "" })] {
                for (cmd, key) in [("add", "input"), ("pkg", "pkg")] {
                    for (upload, from, rem) in [(0, 0, 0), (1, 0, 0), (1, 0, 1), (1, 1, 0), (0, 2, 1)] {
                        // (our S3 keeps objects in files, named by the escaped key)
                        if n > 247 && cmd == "add" || rem == 1 && (n > 225 || !v.is_ascii()) {
                            continue;
                        }
                        cs.push(json!({"cmd": cmd, "rem": rem, "v": v, "upload": upload, "from": from, "have": 0, key: 0, "content": 0, "faults": false}));
                    }
                }
            }
        }
        for v in ["a/b", "../2", "/2", "2/", "2/.", ""] {
            for rem in 0..2 {
                for have in 0..2 {
                    cs.push(json!({"cmd": "pkg", "rem": rem, "v": v, "upload": 1, "from": 0, "have": if v.is_empty() { have } else { 0 }, "pkg": 0, "faults": false}));
                }
            }
        }
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        let t = plan(c);
        let what = || format!("{} {:?} (cwd {}) with {} as stores ({})", t.args.join(" "), t.v, t.cwd, format!("{:?}", HAVE[c["have"].as_u64().unwrap() as usize]), t.rem.name());
        let sp = spec(&t);
        let (o, after) = run_on(&cx.w, &t.tree, &sp);
        cx.eval(Some(h64(&c.to_string())));
        cx.count("transitions", 1);
        cx.count("traces", 1);
        cx.state(h64(&t.tree));
        cx.count(if o.code == 0 { "accepted" } else { "rejected" }, 1);
        if let Some((k, e)) = judge(&t, &o, &after, false) {
            return cx.fail(k, format!("{}: {}", what(), e));
        }
        cx.sample(|| json!({"command": t.args, "exit": o.code, "stores": show(&after).chars().take(300).collect::<String>()}));
        if c["faults"] != true {
            return;
        }
        // the input cannot be read
        for (i, e) in o.ev.iter().enumerate() {
            if e.cls != shim::C_INPUT {
                continue;
            }
            let at = i as u32;
            let mut ps: Vec<Plan> = [libc::EIO, libc::EACCES, libc::ENOENT].iter().map(|n| Plan { at, kind: shim::P_ERR, arg: *n as i64 }).collect();
            if matches!(e.op, shim::READ | shim::COPY) {
                ps.push(Plan { at, kind: shim::P_ERR, arg: libc::EINTR as i64 });
                if e.ret > 1 {
                    ps.extend([1, e.ret / 2, e.ret - 1].map(|m| Plan { at, kind: shim::P_SHORT, arg: m }));
                }
            }
            for p in ps {
                let mut sp = spec(&t);
                sp.plan = vec![p];
                let (o, after) = run_on(&cx.w, &t.tree, &sp);
                cx.eval(Some(h64(&(c.to_string(), p.at, p.kind, p.arg))));
                cx.count("faults", 1);
                cx.count("traces", 1);
                cx.count("transitions", 1);
                let mut t = plan(c);
                if t.must == Must::Fail {
                    // (an error while looking at it cannot make it better)
                    t.must = Must::Fail;
                }
                // an input that cannot be read is rejected
                let late = t.upload || !t.from.is_empty();
                if o.code != 0 && !late {
                    t.must = Must::Either;
                }
                if let Some((k, m)) = judge(&t, &o, &after, true) {
                    return cx.fail(k, format!("{}, with {} {} at #{} {}: {}", what(), p.kind, p.arg, i, e.show(), m));
                }
            }
        }
    }
}
