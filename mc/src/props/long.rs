//! C20: every sequence of operations through one open index against a newly opened one; opening is a pure function
//! of the directories' contents.
use super::names::block_on;
use crate::exec::*;
use crate::fix::*;
use crate::hist::{dec_tree, enc_tree};
use crate::par::*;
use artefacta::{ArtefactIndex, Storage, Version};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::convert::TryFrom;
use std::str::FromStr;

pub struct Long;

/// Operations, written as in the cases.
fn ops() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for x in ["2", "4"] {
        v.push(format!("add {}", x));
    }
    v.push("add 9".into()); // there is no such file
    for x in ["1", "2", "3", "4", "7"] {
        v.push(format!("build {}", x));
    }
    for (x, y) in [("1", "2"), ("2", "3"), ("1", "4"), ("2", "4")] {
        v.push(format!("patch {} {}", x, y));
        v.push(format!("create {} {}", x, y));
    }
    for (x, y) in [("1", "2"), ("1", "3"), ("1", "4"), ("2", "4"), ("3", "2"), ("7", "3")] {
        v.push(format!("upgrade {} {}", x, y));
    }
    v.push("push".into());
    v.push("tag V.3".into());
    v.push("tag v-4".into());
    v.push("tag 4".into());
    v.push("debug".into());
    v
}
/// Stored so that no two files have the same size (ties between equally cheap routes may be broken either way).
fn art(a: &Art, pad: usize) -> Node {
    let mut b = a.bytes().to_vec();
    b.extend([0x50, 0x2a, 0x4d, 0x18, pad as u8, 0, 0, 0]);
    b.extend(vec![0u8; pad]);
    file(b)
}
fn inits() -> Vec<(&'static str, Vec<Art>, Vec<Art>)> {
    let all = [b("1"), b("2"), b("3"), b("4"), p("1", "2"), p("2", "3"), p("1", "4"), p("2", "4"), p("3", "4")];
    vec![
        ("empty", vec![], vec![]),
        ("one local", vec![b("1")], vec![]),
        ("all remote", vec![], all.to_vec()),
        ("one local, all remote", vec![b("1")], all.to_vec()),
        ("all local", all.to_vec(), vec![]),
        ("patches local, builds remote", vec![p("1", "2"), p("2", "3"), p("1", "4")], vec![b("1"), b("2"), b("3")]),
        ("builds local, patches remote", vec![b("1"), b("2"), b("3")], vec![p("1", "2"), p("2", "3"), p("2", "4")]),
        ("patches without builds", vec![p("1", "2"), p("2", "4")], vec![p("2", "3"), p("1", "4"), b("1")]),
        ("some both", vec![b("1"), b("2"), p("1", "2")], vec![b("1"), b("2"), b("3"), p("1", "2"), p("2", "3")]),
        ("tagged", vec![b("v-3"), b("V.4"), b("4")], vec![b("1"), b("V.3")]),
        // operations that fail (every time: what is in the way stays there)
        ("3 blocked on the remote", vec![b("1"), b("2"), b("3"), b("4"), p("1", "2"), p("2", "3")], vec![b("1"), p("2", "4")]),
        ("3 blocked locally", vec![b("1"), p("1", "2")], vec![b("1"), b("2"), b("3"), b("4"), p("1", "2"), p("2", "3"), p("3", "4")]),
        ("damaged", vec![b("1"), b("2")], vec![b("3"), b("4"), p("1", "2"), p("2", "3"), p("1", "4"), p("3", "4")]),
    ]
}
fn init(i: usize, rem: Rem) -> Tree {
    let (_, l, r) = &inits()[i];
    let mut t = Tree::new();
    let pad = |a: &Art| 1 + (h64(&a.name()) % 199) as usize;
    for a in l {
        t.insert(format!("local/{}", a.name()), art(a, pad(a)));
    }
    for a in r {
        t.insert(rem.path(&a.name()), art(a, pad(a)));
    }
    let name = inits()[i].0;
    if name == "3 blocked on the remote" {
        t.insert(rem.path("3.tar.zst/x"), file(b"x".to_vec()));
    }
    if name == "3 blocked locally" {
        t.insert("local/3.tar.zst/x".into(), file(b"x".to_vec()));
    }
    if name == "damaged" {
        t.insert(rem.path("2-3.patch.zst"), file(noise(9, 50)));
        t.insert(rem.path("1-4.patch.zst"), file(zl(b"no patch", 3)));
        t.insert("local/2.tar.zst".into(), file(noise(8, 301)));
    }
    // the same contents as published, stored differently
    t.insert("input/2.tar.zst".into(), file(zl(&content("2"), 12)));
    t.insert("input/4.tar.zst".into(), file(zl(&content("4"), 12)));
    t
}
async fn apply(ix: &mut ArtefactIndex, root: &str, op: &str) -> String {
    let a: Vec<&str> = op.split(' ').collect();
    let v = |s: &str| Version::try_from(s).unwrap();
    // (what an entry is, apart from where its storage lies)
    let ent = |r: Result<_, erreur::Report>| match r {
        Ok(e) => format!("ok {:?}", e).replace(root, "@"),
        Err(_) => "error".to_string(),
    };
    match a[0] {
        "add" => ent(ix.add_local_build(format!("{}/input/{}.tar.zst", root, a[1])).await),
        "build" => ent(ix.get_build(v(a[1])).await),
        "patch" => ent(ix.get_patch(v(a[1]), v(a[2])).await),
        "create" => match ix.calculate_patch(v(a[1]), v(a[2])).await {
            Ok(_) => "ok".into(),
            Err(_) => "error".into(),
        },
        "upgrade" => ent(ix.upgrade_to_build(v(a[1]), v(a[2])).await),
        "push" => match ix.push().await {
            Ok(_) => "ok".into(),
            Err(_) => "error".into(),
        },
        "tag" => match ix.get_build_for_tag(a[1]) {
            Ok(v) => format!("ok {}", v),
            Err(_) => "error".into(),
        },
        "debug" => String::new(),
        _ => unreachable!(),
    }
}
fn snap(w: &World) -> Tree {
    w.snap(&["local", "remote", "bucket", "tmp", "input"])
}
/// Open an index on the tree, apply the operations to it, return their results.
fn run(w: &World, t: &Tree, rem: Rem, ops: &[&str], f: impl FnOnce(&mut Spec)) -> Result<(Vec<String>, Tree, Out, u64), String> {
    w.load(t);
    let root = w.root.to_str().unwrap().to_string();
    let r = rem.arg().replace('@', &root);
    let ops: Vec<String> = ops.iter().map(|s| s.to_string()).collect();
    let mut sp = Spec::default();
    f(&mut sp);
    let o = w.call(&sp, move |data| {
        let res: Result<(Vec<String>, u64), String> = block_on(async {
            let mut ix = ArtefactIndex::new(format!("{}/local", root), Storage::from_str(&r).map_err(|e| e.to_string())?).await.map_err(|e| format!("{:#}", e))?;
            let mut v = vec![];
            for op in &ops {
                v.push(apply(&mut ix, &root, op).await);
            }
            Ok((v, knowledge(&ix)))
        });
        *data = serde_json::to_vec(&res).unwrap();
        0
    });
    if o.code != 0 {
        return Err(format!("exit status {}: {}", o.code, short(&o.err)));
    }
    let r = match serde_json::from_slice::<Value>(&o.data) {
        Ok(v) if v["Ok"].is_array() => Ok((v["Ok"][0].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(), v["Ok"][1].as_u64().unwrap())),
        x => Err(format!("cannot open: {:?}", x)),
    };
    let s = snap(w);
    r.map(|(v, k)| (v, s, o, k))
}
/// What the index knows (only used to recognise states that were seen before). Its hash maps are in random order.
fn knowledge(ix: &ArtefactIndex) -> u64 {
    let d = format!("{:?}", ix);
    match (d.find("builds: {"), d.find("orphaned_patches")) {
        (Some(a), Some(b)) if a < b => {
            let m = d[a..b].replace("builds: {", "").replace("patches: {", "").replace(['{', '}'], "");
            let mut m: Vec<&str> = m.split(", ").collect();
            m.sort();
            h64(&(&d[..a], m, &d[b..]))
        }
        _ => h64(&d),
    }
}
/// What the tool may do differently although it is the same: nothing but patches' bytes could differ, and they do not.
fn diff(a: &Tree, b: &Tree) -> Option<String> {
    for (k, n) in a {
        if b.get(k) != Some(n) {
            return Some(format!("{}: {} <> {}", k, show_one(Some(n)), show_one(b.get(k))));
        }
    }
    b.iter().find(|(k, _)| !a.contains_key(*k)).map(|(k, n)| format!("{}: nothing <> {}", k, show_one(Some(n))))
}
fn show_one(n: Option<&Node>) -> String {
    match n {
        None => "nothing".into(),
        Some(Node::File(b, _)) => format!("{} bytes (hash {:x})", b.len(), h64(b) & 0xffff),
        Some(Node::Link(l)) => l.clone(),
        Some(Node::Dir) => "directory".into(),
    }
}
/// One level's work: all states with the same stores (the operations on a new index are the same for them).
struct Group {
    tree: Vec<u8>,
    /// histories of operations, by number
    paths: Vec<Vec<u16>>,
}
impl Long {
    /// After `path` (which leaves `t0`), every operation, on that index and on a new one.
    /// Calls `seen` with the operation, what the index knows, and the stores afterwards.
    fn state(&self, cx: &mut Cx, i: usize, rem: Rem, t0: &Tree, path: &[u16], fresh: &mut HashMap<usize, (String, u64)>, seen: &mut dyn FnMut(usize, u64, &Tree)) {
        let ops = ops();
        let s: Vec<&str> = path.iter().map(|k| ops[*k as usize].as_str()).collect();
        let t = init(i, rem);
        let what = format!("[{}] ({}), after {:?}", inits()[i].0, rem.name(), s);
        for (k, op) in ops.iter().enumerate() {
            cx.cur = json!({"init": i, "rem": rem.name(), "seq": s, "op": op});
            let mut l = s.clone();
            l.push(op);
            let (r, tree, _, know) = match run(&cx.w, &t, rem, &l, |_| {}) {
                Ok(x) => x,
                Err(e) => {
                    cx.fail("crash", format!("{}, `{}`: {}", what, op, e));
                    continue;
                }
            };
            cx.eval(Some(h64(&(i, rem.name(), &l))));
            cx.count("transitions", 1);
            cx.count("traces", 1);
            let r = r.last().cloned().unwrap_or_default();
            let h = h64(&enc_tree(&tree));
            let known = fresh.get(&k).cloned();
            if known != Some((r.clone(), h)) {
                let (rf, tf, of, _) = match run(&cx.w, t0, rem, &[op], |_| {}) {
                    Ok(x) => x,
                    Err(e) => {
                        cx.fail("crash", format!("{}, `{}` on a new index: {}", what, op, e));
                        continue;
                    }
                };
                if r != rf[0] {
                    cx.fail("result", format!("{}: `{}` gives `{}`, on a newly opened index `{}` ({})", what, op, r, rf[0], short(&of.err)));
                    continue;
                }
                // (which ones a failing push has uploaded depends on the order it does that in)
                if let Some(d) = Some(()).filter(|_| op != "push" || r == "ok").and_then(|_| diff(&tree, &tf)) {
                    cx.fail("files", format!("{}: `{}` leaves other files than on a newly opened index: {}", what, op, d));
                    continue;
                }
                fresh.insert(k, (rf[0].clone(), h));
            }
            cx.sample(|| json!({"init": inits()[i].0, "remote": rem.name(), "live": l, "result": r}));
            seen(k, know, &tree);
        }
    }
    fn search(&self, ctl: &mut Ctl, i: usize, rem: Rem, depth: usize, max: usize) {
        let t = init(i, rem);
        let mut seen: HashSet<(u64, u64)> = HashSet::new();
        let mut level = vec![Group { tree: enc_tree(&t), paths: vec![vec![]] }];
        let mut complete = 0;
        let mut left = 1;
        for d in 0..depth {
            if level.is_empty() || ctl.over() || ctl.cut {
                break;
            }
            let lv = &level;
            let res = ctl.par(level.len(), |cx, g| {
                let mut out = vec![];
                let mut mine = HashSet::new();
                let t0 = dec_tree(&lv[g].tree);
                let mut fresh = HashMap::new();
                for (n, path) in lv[g].paths.iter().enumerate() {
                    self.state(cx, i, rem, &t0, path, &mut fresh, &mut |k, know, t2| {
                        let e = enc_tree(t2);
                        if mine.insert((know, h64(&e))) {
                            out.extend_from_slice(&know.to_le_bytes());
                            out.extend_from_slice(&(n as u32).to_le_bytes());
                            out.extend_from_slice(&(k as u32).to_le_bytes());
                            out.extend_from_slice(&(e.len() as u64).to_le_bytes());
                            out.extend_from_slice(&e);
                        }
                    });
                }
                out
            });
            let mut next: BTreeMap<u64, Group> = BTreeMap::new();
            for (g, b) in res.iter().enumerate() {
                let u = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
                let v = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize;
                let mut o = 0;
                while o < b.len() {
                    let (know, n, k, len) = (u(o), v(o + 8), v(o + 12), u(o + 16) as usize);
                    let e = &b[o + 24..o + 24 + len];
                    let h = h64(&e);
                    o += 24 + len;
                    if seen.insert((know, h)) {
                        let mut path = level[g].paths[n].clone();
                        path.push(k as u16);
                        next.entry(h).or_insert_with(|| Group { tree: e.to_vec(), paths: vec![] }).paths.push(path);
                    }
                }
            }
            // (many histories of one state of the stores: spread over the workers)
            level = next.into_values().flat_map(|g| g.paths.chunks(8).map(|c| Group { tree: g.tree.clone(), paths: c.to_vec() }).collect::<Vec<_>>()).collect();
            left = level.iter().map(|g| g.paths.len()).sum();
            complete = d + 1;
            if seen.len() > max {
                break;
            }
        }
        ctl.count("states", seen.len() as u64);
        ctl.extra.insert(format!("{} / {}", inits()[i].0, rem.name()), json!({"states": seen.len(), "depth": complete, "unexplored": left}));
    }
    /// The same operation under every listing order and several hash seeds.
    fn pure(&self, cx: &mut Cx, c: &Value) {
        let rem = Rem::parse(c["rem"].as_str().unwrap());
        let i = c["init"].as_u64().unwrap() as usize;
        let op = c["pure"].as_str().unwrap();
        let t = init(i, rem);
        let mut first: Option<(Vec<String>, Tree)> = None;
        for o in c["orders"].as_array().unwrap() {
            for seed in 1..=c["seeds"].as_u64().unwrap() {
                let order = o.as_i64().unwrap();
                match run(&cx.w, &t, rem, &[op, "push"], |s| {
                    s.dir_order = order;
                    s.rng = seed;
                }) {
                    Ok((r, s, _, _)) => {
                        cx.eval(Some(h64(&(i, rem.name(), op, order, seed))));
                        cx.count("transitions", 2);
                        cx.count("traces", 1);
                        match &first {
                            None => first = Some((r, s)),
                            Some((r0, s0)) => {
                                if r != *r0 {
                                    return cx.fail("order", format!("[{}] ({}): `{}` gives {:?}, with listing order {} and hash seed {} {:?}", inits()[i].0, rem.name(), op, r0, order, seed, r));
                                }
                                if let Some(d) = Some(()).filter(|_| r[1] == "ok").and_then(|_| diff(s0, &s)) {
                                    return cx.fail("order", format!("[{}] ({}): `{}` with listing order {} and hash seed {}: {}", inits()[i].0, rem.name(), op, order, seed, d));
                                }
                            }
                        }
                    }
                    Err(e) => return cx.fail("crash", format!("[{}] ({}), `{}`: {}", inits()[i].0, rem.name(), op, e)),
                }
            }
        }
    }
}
impl Prop for Long {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn rule(&self) -> &'static str {
        "breadth-first search over (contents of the stores, everything the open index knows): from 13 initial stores (three of them with obstacles and damage that make operations fail) x 2 kinds of remote, sequences of 27 operations through one index, to the depth and numbers of states given per start; in every state each operation is executed on the open index (by replaying its history) and on one newly opened on the stores as they are at that point: equal results and equal files; and every operation, followed by a push, under many listing orders x hash seeds"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cs = vec![];
        for rem in ["Fs", "S3"] {
            for i in 0..inits().len() {
                for op in ops() {
                    let orders: Vec<i64> = if q { (0..12).collect() } else { (0..600).collect() };
                    cs.push(json!({"init": i, "rem": rem, "pure": op, "orders": orders, "seeds": if q { 3 } else { 6 }}));
                }
            }
        }
        ctl.cases(self, cs);
        for (rem, depth, max) in [("Fs", if q { 4 } else { 12 }, if q { 250 } else { 8_000 }), ("S3", if q { 2 } else { 6 }, if q { 100 } else { 1_500 })] {
            for i in 0..inits().len() {
                self.search(ctl, i, Rem::parse(rem), depth, max);
            }
        }
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        if c["pure"].is_string() {
            return self.pure(cx, c);
        }
        let rem = Rem::parse(c["rem"].as_str().unwrap());
        let i = c["init"].as_u64().unwrap() as usize;
        let ops = ops();
        let path: Vec<u16> = c["seq"].as_array().unwrap().iter().map(|x| ops.iter().position(|o| o == x.as_str().unwrap()).unwrap() as u16).collect();
        let s: Vec<&str> = path.iter().map(|k| ops[*k as usize].as_str()).collect();
        match run(&cx.w, &init(i, rem), rem, &s, |_| {}) {
            Ok((_, t0, _, _)) => self.state(cx, i, rem, &t0, &path, &mut HashMap::new(), &mut |_, _, _| {}),
            Err(e) => cx.fail("crash", e),
        }
    }
}
