//! C18: every deviation of the S3 service at every request of every command.
use super::scen::*;
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::s3::Dev;
use crate::shim;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct S3Ver;

const STATUS: [u16; 11] = [301, 304, 400, 403, 404, 409, 412, 416, 429, 500, 503];
fn dev_of(v: &Value) -> Dev {
    let n = v[1].as_u64().unwrap_or(0) as usize;
    match v[0].as_str().unwrap() {
        "status" => Dev::Status(n as u16, v[2].as_str().unwrap().into()),
        "late" => Dev::LateStatus(n as u16),
        "conn" => Dev::Conn,
        "lateconn" => Dev::LateConn,
        "flip" => Dev::Flip(n, v[2].as_u64().unwrap() as u8),
        "trunc" => Dev::Trunc(n),
        "trunclen" => Dev::TruncLen(n),
        "extend" => Dev::Extend(n),
        "break" => Dev::Break(n),
        "other" => Dev::Other,
        "etagwrong" => Dev::EtagWrong,
        "etagnone" => Dev::EtagNone,
        "etagempty" => Dev::EtagEmpty,
        "etagcut" => Dev::EtagCut(n),
        "etagext" => Dev::EtagExt,
        "etagdigit" => Dev::EtagDigit(n),
        "multibreak" => Dev::MultiBreak(n),
        "lennone" => Dev::LenNone,
        "listcut" => Dev::ListCut(n),
        "listgarbage" => Dev::ListGarbage,
        "listempty" => Dev::ListEmpty,
        "damage" => Dev::Damage,
        "gone" => Dev::Gone,
        x => panic!("{}", x),
    }
}
/// Deviations from which the transfer may well succeed.
fn harmless(d: &Value) -> bool {
    d[0] == "lennone"
}
fn devs(kind: &str, size: usize, quick: bool) -> Vec<Value> {
    let mut v = vec![];
    for s in STATUS {
        for c in if quick { &["InternalError"][..] } else { &["InternalError", "BadDigest", "NoSuchKey", "AccessDenied", "SlowDown"] } {
            v.push(json!(["status", s, c]));
        }
    }
    v.push(json!(["conn"]));
    let cuts = |n: usize, every: usize| -> BTreeSet<usize> {
        let mut s: BTreeSet<usize> = [0, 1, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1)].into_iter().filter(|x| *x < n).collect();
        s.extend((0..n).step_by(every.max(1)));
        s
    };
    match kind {
        "LIST" => {
            v.extend([json!(["lateconn"]), json!(["late", 500]), json!(["listgarbage"]), json!(["listempty"])]);
            // (a listing that is cut but announced with the shorter length)
            v.extend(if quick { vec![json!(["listcut", 850])] } else { (0..1000).step_by(50).map(|c| json!(["listcut", c])).collect() });
            for c in cuts(size, if quick { 23 } else { 1 }) {
                v.push(json!(["break", c]));
            }
        }
        "GET" => {
            v.extend([json!(["late", 500]), json!(["lateconn"]), json!(["other"]), json!(["etagwrong"]), json!(["etagnone"]), json!(["etagempty"]), json!(["lennone"]), json!(["gone"])]);
            for i in cuts(size, if quick { (size / 12).max(1) } else { (size / 2000).max(1) }) {
                for x in if quick { &[1u8, 0xff][..] } else { &[1, 2, 4, 8, 16, 32, 64, 128, 0xff] } {
                    v.push(json!(["flip", i, x]));
                }
                for k in ["trunc", "trunclen", "break"] {
                    v.push(json!([k, i]));
                }
            }
            v.push(json!(["break", size]));
            v.push(json!(["etagext"]));
            for n in if quick { vec![1, 8, 16, 31] } else { (1..32).collect::<Vec<_>>() } {
                v.push(json!(["etagcut", n]));
            }
            for n in if quick { vec![0, 15, 31] } else { (0..32).collect::<Vec<_>>() } {
                v.push(json!(["etagdigit", n]));
            }
            for n in [0, 1, size / 2, size.saturating_sub(1)] {
                v.push(json!(["multibreak", n]));
            }
            for n in [1, 2, 100] {
                v.push(json!(["extend", n]));
            }
        }
        _ => {
            v.extend([json!(["damage"]), json!(["lateconn"])]);
            for s in [400, 403, 409, 500, 503] {
                v.push(json!(["late", s]));
            }
        }
    }
    v
}
fn extra() -> Vec<Scen> {
    let mut v = vec![];
    for rem in [Rem::S3Root, Rem::S3Deep] {
        let g = vec![Goal::Installed("3".into())];
        v.push(Scen { name: format!("x-inst@{}", rem.name()), rem, init: store(&[b("1")], &[b("3"), p("1", "2"), p("2", "3"), b("2")], rem, Some("1")), args: vec!["install".into(), "3".into()], env: vec![], goals: g, install: true });
        for x in ["xL2", "xM2"] {
            let g = vec![Goal::Installed(x.into())];
            v.push(Scen { name: format!("big-{}@{}", x, rem.name()), rem, init: store(&[b("1")], &[b(x)], rem, Some("1")), args: vec!["install".into(), x.into()], env: vec![], goals: g, install: true });
        }
        v.push(Scen {
            name: format!("x-sync@{}", rem.name()), rem, init: store(&[b("1"), b("2"), b("3"), b("4"), p("1", "2"), p("2", "3"), p("3", "4")], &[b("x2")], rem, Some("1")), args: vec!["sync".into()], env: vec![],
            goals: [b("1"), b("2"), b("3"), b("4"), p("1", "2"), p("2", "3"), p("3", "4")].iter().map(|a| Goal::Remote(a.name())).collect(), install: false,
        });
    }
    v
}
fn all(w: &World) -> Rc<Vec<Scen>> {
    thread_local!(static M: std::cell::RefCell<Option<Rc<Vec<Scen>>>> = const { std::cell::RefCell::new(None) });
    if let Some(s) = M.with(|m| m.borrow().clone()) {
        return s;
    }
    let mut v: Vec<Scen> = scenarios(w).iter().filter(|s| s.rem.is_s3()).cloned().collect();
    v.extend(extra());
    let v = Rc::new(v);
    M.with(|m| *m.borrow_mut() = Some(v.clone()));
    v
}
fn reqs(o: &Out) -> Vec<(String, String, usize)> {
    o.ev
        .iter()
        .filter(|e| e.op == shim::S3)
        .map(|e| {
            let mut i = e.path.splitn(2, ' ');
            (i.next().unwrap().to_string(), i.next().unwrap_or("").to_string(), e.size.max(0) as usize)
        })
        .collect()
}
fn judge(s: &Scen, base: &Base, devs: &[(u32, Value)], o: &Out, t: &Tree) -> Option<(&'static str, String)> {
    let rq = reqs(o);
    let harm: BTreeMap<usize, &Value> = devs.iter().filter(|d| !harmless(&d.1)).map(|d| (d.0 as usize, &d.1)).collect();
    let (l0, l1) = (sub(&s.init, "local"), sub(t, "local"));
    let (r0, r1) = (s.rem.view(&s.init), s.rem.view(t));
    let fl = sub(&base.fin, "local");
    let fr = s.rem.view(&base.fin);
    if o.code == 1014 && devs.iter().any(|d| d.1[0] == "listcut") && l0 == l1 && r0 == r1 {
        return Some(("listcut-hang", "the command does not end".into()));
    }
    // a command the stand-in has disturbed may end early, but never with a crash
    if o.code != 0 && o.code != 1 {
        return Some(("crash", format!("exit status {}: {}", o.code, short(&o.err))));
    }
    if o.outside {
        return Some(("outside", "wrote outside".into()));
    }
    for (n, x) in arts(&l1) {
        let before = matches!(l0.get(&n), Some(Node::File(y, _)) if *y == x);
        if !before && !base.good(&fl, &n, &x) {
            return Some(("stored", format!("local `{}` now has {} bytes that are not this artefact", n, x.len())));
        }
    }
    for (n, x) in arts(&l0) {
        if !l1.contains_key(&n) {
            return Some(("lost", format!("local `{}` ({} bytes) is gone", n, x.len())));
        }
    }
    let other = |t: &Tree| t.keys().filter(|n| !is_art_name(n) && *n != "current").cloned().collect::<Vec<_>>();
    if other(&l1) != other(&l0) {
        return Some(("temp", format!("left in the local store: {:?}", other(&l1))));
    }
    // downloads that did not arrive as they should are not stored
    let mut good: BTreeSet<String> = BTreeSet::new();
    let mut badly: BTreeMap<String, &Value> = BTreeMap::new();
    for (i, (m, k, _)) in rq.iter().enumerate() {
        if m == "GET" {
            let n = k.rsplit('/').next().unwrap().to_string();
            match harm.get(&i) {
                Some(d) => {
                    badly.insert(n, d);
                }
                None => {
                    good.insert(n);
                }
            }
        }
    }
    for (n, d) in &badly {
        let had = matches!(l0.get(n), Some(Node::File(x, _)) if !x.is_empty());
        let made = match n.strip_suffix(".tar.zst") {
            // an upgrade by patches, or the build that is being added
            Some(v) => s.args[0] == "install" && l1.keys().any(|k| k.ends_with(&format!("-{}.patch.zst", v))) || s.args[0].starts_with("add"),
            // calculated instead
            None => s.args[0] != "install",
        };
        if !had && !good.contains(n) && !made && matches!(l1.get(n), Some(Node::File(x, _)) if !x.is_empty()) {
            return Some(("unverified", format!("`{}` was stored although its only transfer was disturbed ({})", n, d)));
        }
    }
    // uploads that were not confirmed are reported, unless they were repeated with success
    let mut failed: BTreeMap<String, &Value> = BTreeMap::new();
    for (i, (m, k, _)) in rq.iter().enumerate() {
        if m == "PUT" {
            match harm.get(&i) {
                Some(d) => failed.insert(k.clone(), d),
                None => failed.remove(k),
            };
        }
    }
    if let (Some((k, d)), true) = (failed.iter().next(), o.code == 0) {
        return Some(("upload", format!("success is reported although the upload of `{}` failed ({})", k, d)));
    }
    for (n, x) in arts(&r1) {
        let before = matches!(r0.get(&n), Some(Node::File(y, _)) if *y == x);
        if !before && !base.good(&fr, &n, &x) {
            return Some(("remote", format!("remote `{}` now has {} bytes that are not this artefact", n, x.len())));
        }
        if r0.contains_key(&n) && !before {
            return Some(("replaced", format!("remote `{}` was replaced", n)));
        }
    }
    if let Some(n) = r0.keys().find(|n| !r1.contains_key(*n)) {
        return Some(("lost", format!("remote `{}` is gone", n)));
    }
    // a listing that did not work
    let lists: Vec<(usize, bool)> = rq.iter().enumerate().filter(|(_, r)| r.0 == "LIST").map(|(i, _)| (i, harm.contains_key(&i))).collect();
    let bad_list = lists.iter().any(|l| l.1) && lists.last().map_or(false, |l| l.1);
    if bad_list && (o.code == 0 || l0 != l1 || r0 != r1) {
        return Some(("listing", format!("exit status {}: the command went on without a complete listing; local {}, remote {}", o.code, show(&l1), show(&r1))));
    }
    if o.code == 0 {
        if let Err(e) = base.goals(s, t) {
            return Some(("goal", format!("success is reported but {}", e)));
        }
    } else if s.install {
        let same = l0.get("current") == l1.get("current");
        if !same {
            return Some(("current", "the install failed, but `current` changed".into()));
        }
    }
    None
}
impl Prop for S3Ver {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "every S3 scenario of the catalogue (page sizes 1000 and 1-2) x every request it makes x every deviation: 11 status codes before and after taking effect, broken connections, damaged, cut, extended and foreign bodies, missing or wrong checksums and lengths, cut or foreign listings, uploads damaged on the way (thorough: every byte and every cut, pairs of deviations); non-trivial: the deviation was reached"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cx = ctl.cx(0);
        let mut cs = vec![];
        for s in all(&cx.w).iter() {
            for page in [0usize, 1, 2] {
                if page > 0 && !(s.name.contains("chain-cached") || s.name.starts_with("sync") || s.name.starts_with("x-") || s.name.starts_with("auto")) {
                    continue;
                }
                let mut sp = s.spec();
                sp.s3.page = page;
                let (o, _) = run_on(&cx.w, &s.init, &sp);
                let rq = reqs(&o);
                let dv: Vec<Vec<Value>> = rq
                    .iter()
                    .map(|(m, k, _)| {
                        let size = if m == "LIST" { 1000 } else { bytes(&s.init, &format!("bucket/{}", crate::s3::enc(k))).map_or(100, |x| x.len()) };
                        devs(m, size, q)
                    })
                    .collect();
                for i in 0..rq.len() {
                    for d in &dv[i] {
                        cs.push(json!({"s": s.name, "page": page, "devs": [[i, d]]}));
                    }
                }
                // two deviations of few kinds
                let few = |i: usize| {
                    let mut v = vec![json!(["status", 500, "InternalError"]), json!(["conn"])];
                    match &rq[i].0[..] {
                        "GET" => v.extend([json!(["flip", 20, 1]), json!(["trunc", 10]), json!(["gone"])]),
                        "PUT" => v.extend([json!(["late", 500]), json!(["damage"])]),
                        _ => {}
                    }
                    v
                };
                for i in 0..rq.len() {
                    // a failed request can lead to further ones
                    for j in i + 1..rq.len() + 2 {
                        for d in few(i) {
                            let e2 = if j < rq.len() { few(j) } else { vec![json!(["status", 500, "InternalError"]), json!(["conn"]), json!(["trunc", 10])] };
                            for (n, e) in e2.into_iter().enumerate() {
                                if q && n > 1 {
                                    continue;
                                }
                                cs.push(json!({"s": s.name, "page": page, "devs": [[i, d], [j, e]]}));
                            }
                        }
                    }
                }
            }
        }
        drop(cx);
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        let ss = all(&cx.w);
        let s = ss.iter().find(|s| s.name == c["s"].as_str().unwrap()).unwrap();
        let bs = base(cx, s);
        let dv: Vec<(u32, Value)> = c["devs"].as_array().unwrap().iter().map(|d| (d[0].as_u64().unwrap() as u32, d[1].clone())).collect();
        let mut sp = s.spec();
        sp.s3.page = c["page"].as_u64().unwrap() as usize;
        sp.s3.devs = dv.iter().map(|d| (d.0, dev_of(&d.1))).collect();
        if dv.iter().any(|d| d.1[0] == "listcut") {
            sp.timeout = 2;
        }
        let (o, t) = run_on(&cx.w, &s.init, &sp);
        let n = reqs(&o).len();
        let reached = dv.iter().any(|d| (d.0 as usize) < n);
        cx.eval(if reached { Some(h64(&c.to_string())) } else { None });
        cx.sample(|| json!({"case": c, "exit": o.code, "requests": reqs(&o).iter().map(|r| format!("{} {}", r.0, r.1)).collect::<Vec<_>>()}));
        if let Some((k, m)) = judge(s, &bs, &dv, &o, &t) {
            cx.fail(k, format!("{} (page size {}): {}: {}", s.name, sp.s3.page, c["devs"], m));
        }
    }
}
