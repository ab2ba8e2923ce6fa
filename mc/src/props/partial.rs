//! C22: every sequence of operations on up to two partial files, also killed or failing at every file operation,
//! against a model of what is visible.
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::shim::{self, Plan};
use artefacta::PartialFile;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::{IoSlice, Read, Write};

pub struct Partial;

/// Where the two targets are, and what is there already.
struct Place {
    name: &'static str,
    /// as given to `create` ("@" is the world's root), and in the world
    targets: [(&'static str, &'static str); 2],
    init: Vec<(&'static str, Node)>,
    /// a process was killed here before, in the same second, with both targets begun
    leftover: bool,
    /// may creating or finishing fail there?
    odd: bool,
}
fn places() -> Vec<Place> {
    let old = |n: usize| file(noise(5, n));
    let ab = [("@/local/1.tar.zst", "local/1.tar.zst"), ("@/local/2.tar.zst", "local/2.tar.zst")];
    vec![
        Place { name: "new", targets: ab, init: vec![], leftover: false, odd: false },
        Place { name: "existing", targets: ab, init: vec![("local/1.tar.zst", old(33)), ("local/2.tar.zst", old(0))], leftover: false, odd: false },
        Place { name: "leftover", targets: ab, init: vec![("local/1.tar.zst", old(12000))], leftover: true, odd: false },
        Place { name: "relative", targets: [("1.tar.zst", "home/1.tar.zst"), ("./2.tar.zst", "home/2.tar.zst")], init: vec![("home/2.tar.zst", old(4))], leftover: false, odd: false },
        Place { name: "other directory", targets: [("../local/1.tar.zst", "local/1.tar.zst"), ("@/local/d/1.tar.zst", "local/d/1.tar.zst")], init: vec![("local/d", Node::Dir)], leftover: false, odd: false },
        Place { name: "read-only files", targets: ab, init: vec![("local/1.tar.zst", Node::File(b"x".to_vec().into(), 0o444)), ("local/2.tar.zst", Node::File(b"y".to_vec().into(), 0o000))], leftover: false, odd: false },
        Place { name: "link", targets: ab, init: vec![("local/1.tar.zst", Node::Link("@/local/else".into())), ("local/else", old(21))], leftover: false, odd: true },
        Place { name: "directory in the way", targets: ab, init: vec![("local/1.tar.zst", Node::Dir), ("local/1.tar.zst/f", old(3))], leftover: false, odd: true },
        Place { name: "no such directory", targets: [("@/local/x/1.tar.zst", "local/x/1.tar.zst"), ab[1]], init: vec![], leftover: false, odd: true },
        Place { name: "odd names", targets: [("@/local/.", "local"), ("@/local/a b\u{e4}\n.part", "local/a b\u{e4}\n.part")], init: vec![], leftover: false, odd: true },
    ]
}
/// Operations on a file that is open.
const OPS: [&str; 8] = ["small", "empty", "medium", "big", "vec", "flush", "finish", "drop"];
fn chunk(step: usize, op: &str) -> Vec<u8> {
    let n = match op {
        "small" => 5,
        "medium" => 5000,
        "big" => 9000,
        "vec" => 4200,
        _ => 0,
    };
    noise(100 + step as u64, n)
}
/// What happened in one operation, as the process itself saw it.
struct Log {
    ok: bool,
    /// bytes a write took
    n: usize,
    /// what the returned handle delivers
    handle: Option<u64>,
    /// the content at the target after a `finish`
    content: Vec<u8>,
    /// number of file operations so far
    nev: u32,
    /// what is at the targets (hash and length; None: no regular file)
    seen: Vec<Option<(u64, usize)>>,
}
fn look(p: &str) -> Option<(u64, usize)> {
    match std::fs::metadata(p) {
        Ok(m) if m.is_file() => std::fs::read(p).ok().map(|b| (h64(&b), b.len())),
        _ => None,
    }
}
/// Run the operations in an intercepted process.
fn run(w: &World, pl: &Place, seq: &[String], plan: Vec<Plan>, nodrop: bool) -> (Out, Vec<Log>) {
    let root = w.root.to_str().unwrap().to_string();
    let path = |s: &str| s.replace('@', &root);
    let targets: Vec<String> = pl.targets.iter().map(|t| path(t.0)).collect();
    let seq = seq.to_vec();
    let slot = w.slots[0] as usize;
    let o = w.call(&Spec { plan, ..Spec::default() }, move |data| {
        let mut f: [Option<PartialFile>; 2] = [None, None];
        let mut handles = vec![];
        let mut log = vec![];
        for (step, op) in seq.iter().enumerate() {
            let (k, op) = op.split_once(' ').unwrap();
            let k: usize = k.parse().unwrap();
            let c = chunk(step, op);
            let (mut ok, mut n, mut handle) = (true, 0, None);
            match op {
                // could not be created
                _ if f[k].is_none() && !op.starts_with("create") => {}
                "create0" | "create1" => match PartialFile::create(&targets[(op == "create1") as usize]) {
                    Ok(x) => f[k] = Some(x),
                    Err(_) => ok = false,
                },
                "finish" => match f[k].take().unwrap().finish() {
                    Ok(h) => handles.push((step, h)),
                    Err(_) => ok = false,
                },
                "drop" => drop(f[k].take()),
                "flush" => ok = f[k].as_mut().unwrap().flush().is_ok(),
                "medium" => match f[k].as_mut().unwrap().write(&c) {
                    Ok(m) => n = m,
                    Err(_) => ok = false,
                },
                "vec" => match f[k].as_mut().unwrap().write_vectored(&[IoSlice::new(&c[..3]), IoSlice::new(&[]), IoSlice::new(&c[3..])]) {
                    Ok(m) => n = m,
                    Err(_) => ok = false,
                },
                _ => match f[k].as_mut().unwrap().write_all(&c) {
                    Ok(_) => n = c.len(),
                    Err(_) => ok = false,
                },
            }
            // looked at behind the back of the interception
            unsafe { shim::shim_thread_on(0) };
            if let Some((s, h)) = handles.last_mut() {
                if *s == step {
                    let mut b = vec![];
                    handle = h.read_to_end(&mut b).ok().map(|_| h64(&b));
                }
            }
            let seen: Vec<_> = targets.iter().map(|t| look(t)).collect();
            let k = seq[..=step].iter().rev().find_map(|o| o.strip_prefix(&format!("{} create", k))).map_or(0, |t| t.parse::<usize>().unwrap());
            let content: String = match op {
                "finish" => std::fs::read(&targets[k]).unwrap_or_default().iter().map(|b| format!("{:02x}", b)).collect(),
                _ => String::new(),
            };
            let nev = unsafe { (*(slot as *const shim::Slot)).nev };
            unsafe { shim::shim_thread_on(1) };
            log.push(json!([ok, n, handle, nev, seen, content]));
        }
        *data = serde_json::to_vec(&log).unwrap();
        if nodrop {
            unsafe { libc::_exit(0) };
        }
        0
    });
    let log = serde_json::from_slice::<Value>(&o.data)
        .ok()
        .and_then(|v| v.as_array().cloned())
        .unwrap_or_default()
        .iter()
        .map(|l| Log {
            ok: l[0].as_bool().unwrap(),
            n: l[1].as_u64().unwrap() as usize,
            handle: l[2].as_u64(),
            content: l[5].as_str().unwrap().as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect(),
            nev: l[3].as_u64().unwrap() as u32,
            seen: l[4].as_array().unwrap().iter().map(|s| s.as_array().map(|s| (s[0].as_u64().unwrap(), s[1].as_u64().unwrap() as usize))).collect(),
        })
        .collect();
    (o, log)
}
/// What a file was given: bytes that were taken, and bytes of which any part from the start may have been.
#[derive(Clone, Hash)]
enum Piece {
    All(Vec<u8>),
    Some(Vec<u8>),
}
/// Can `b` be the pieces in this order?
fn fits(b: &[u8], pieces: &[Piece]) -> bool {
    let mut at: BTreeSet<usize> = [0].into();
    for p in pieces {
        at = match p {
            Piece::All(x) => at.into_iter().filter(|i| b[*i..].starts_with(x)).map(|i| i + x.len()).collect(),
            Piece::Some(x) => at.into_iter().flat_map(|i| (0..=x.iter().zip(&b[i..]).take_while(|(a, b)| a == b).count()).map(move |n| i + n)).collect(),
        };
    }
    at.contains(&b.len())
}
/// The model: what is at the targets, and what the open files were given.
#[derive(Clone)]
struct Model {
    at: Vec<Option<(u64, usize)>>,
    open: [Option<(usize, Vec<Piece>)>; 2],
}
impl Model {
    /// The step, given what the operation answered; Err: it must not have answered this.
    fn step(&mut self, pl: &Place, step: usize, op: &str, l: &Log, faults: bool) -> Result<(), String> {
        let (k, op) = op.split_once(' ').unwrap();
        let k: usize = k.parse().unwrap();
        if !l.ok && !faults && !pl.odd {
            return Err("failed".into());
        }
        match op {
            _ if self.open[k].is_none() && !op.starts_with("create") => {}
            "create0" | "create1" => {
                if l.ok {
                    self.open[k] = Some(((op == "create1") as usize, vec![]));
                }
            }
            "finish" => {
                let (t, c) = self.open[k].take().unwrap();
                if l.ok {
                    if l.seen[t].is_none() || !fits(&l.content, &c) {
                        let n: usize = c.iter().map(|p| if let Piece::All(x) = p { x.len() } else { 0 }).sum();
                        return Err(format!("succeeded, but at the target is {}, not the {} bytes written", what(l.seen[t]), n));
                    }
                    self.at[t] = l.seen[t];
                    if l.handle != self.at[t].map(|x| x.0) {
                        return Err("returned a handle that does not deliver what is in the file".into());
                    }
                }
            }
            "drop" => self.open[k] = None,
            "flush" => {}
            _ => {
                let c = chunk(step, op);
                let (_, all) = self.open[k].as_mut().unwrap();
                let write_all = op == "small" || op == "big" || op == "empty";
                if l.ok {
                    if l.n > c.len() || (l.n == 0 && !c.is_empty()) {
                        return Err(format!("claims to have written {} of {} bytes", l.n, c.len()));
                    }
                    all.push(Piece::All(c[..l.n].to_vec()));
                } else if write_all {
                    // (what a failed write_all has written is not known)
                    all.push(Piece::Some(c));
                }
            }
        }
        Ok(())
    }
}
fn what(x: Option<(u64, usize)>) -> String {
    match x {
        Some((h, n)) => format!("a file of {} bytes (hash {:x})", n, h & 0xffff),
        None => "no file".into(),
    }
}
/// All sequences of the given length; every file's operations make sense on their own.
fn seqs(depth: usize, ops: &[&str]) -> Vec<Vec<String>> {
    let mut out: Vec<(Vec<String>, [bool; 2], bool)> = vec![(vec![], [false; 2], false)];
    for _ in 0..depth {
        let mut next = vec![];
        for (s, open, used) in &out {
            for k in 0..2 {
                // the second slot only once the first one is in use
                if k == 1 && !*used {
                    continue;
                }
                let l: Vec<&str> = if open[k] { ops.to_vec() } else { vec!["create0", "create1"] };
                for o in l {
                    // both slots are alike: the first one begins
                    let mut s = s.clone();
                    s.push(format!("{} {}", k, o));
                    let mut open = *open;
                    open[k] = o != "finish" && o != "drop";
                    next.push((s, open, true));
                }
            }
        }
        out = next;
    }
    out.into_iter().map(|x| x.0).collect()
}
impl Partial {
    fn setup(&self, cx: &Cx, pl: &Place) -> Tree {
        cx.w.load(&pl.init.iter().map(|(k, n)| (k.to_string(), n.clone())).collect());
        if pl.leftover {
            let s: Vec<String> = ["0 create0", "0 big", "1 create1", "1 big"].map(String::from).to_vec();
            run(&cx.w, pl, &s, vec![], true);
        }
        cx.w.snap_all()
    }
    fn one(&self, cx: &mut Cx, pl: &Place, seq: &[String], plan: &[Plan]) -> Option<(Out, Vec<Log>)> {
        let t0 = self.setup(cx, pl);
        let d = |s: &str| format!("[{}] {:?}{}: {}", pl.name, seq, if plan.is_empty() { String::new() } else { format!(" with {:?}", plan.iter().map(|p| (p.at, p.kind, p.arg)).collect::<Vec<_>>()) }, s);
        let at0: Vec<_> = pl.targets.iter().map(|t| look(&cx.w.s(t.1))).collect();
        let (o, log) = run(&cx.w, pl, seq, plan.to_vec(), false);
        let t1 = cx.w.snap_all();
        cx.eval(Some(h64(&(pl.name, seq, plan.iter().map(|p| (p.at, p.kind, p.arg)).collect::<Vec<_>>()))));
        cx.count("traces", 1);
        cx.count("transitions", seq.len() as u64);
        if o.outside {
            cx.fail("outside", d("wrote outside"));
            return None;
        }
        if o.code != 0 || log.len() != seq.len() {
            cx.fail("crash", d(&format!("ended with {}: {}", o.code, short(&o.err))));
            return None;
        }
        let mut m = Model { at: at0, open: [None, None] };
        for (i, l) in log.iter().enumerate() {
            if let Err(e) = m.step(pl, i, &seq[i], l, !plan.is_empty()) {
                cx.fail("step", d(&format!("`{}` {}", seq[i], e)));
                return None;
            }
            for (t, x) in l.seen.iter().enumerate() {
                if *x != m.at[t] {
                    cx.fail("visible", d(&format!("after `{}`, at target {} is {}, not {}", seq[i], t, what(*x), what(m.at[t]))));
                    return None;
                }
            }
            cx.state(h64(&(pl.name, m.at.clone(), m.open.iter().map(|o| o.as_ref().map(|o| (o.0, h64(&o.1)))).collect::<Vec<_>>())));
        }
        // everything else is as it was; unless removing it failed, no temporary file is left
        let removal = plan.iter().any(|p| o.ev.get(p.at as usize).map_or(false, |e| e.op == shim::UNLINK));
        let is_target = |k: &str| pl.targets.iter().any(|t| t.1 == k);
        for k in t1.keys() {
            if !t0.contains_key(k) && !is_target(k) && !removal {
                cx.fail("left", d(&format!("leaves `{}`", k)));
                return None;
            }
        }
        for (k, n) in &t0 {
            // (what a killed process has left may be cleaned up)
            if t1.get(k) != Some(n) && !is_target(k) && !(pl.leftover && k.ends_with(".part") && !t1.contains_key(k)) {
                cx.fail("other", d(&format!("`{}` has changed", k)));
                return None;
            }
        }
        cx.sample(|| json!({"place": pl.name, "operations": seq, "faults": plan.len(), "files": show(&t1)}));
        Some((o, log))
    }
    /// Killed before and in the middle of every file operation.
    fn kills(&self, cx: &mut Cx, pl: &Place, seq: &[String], o: &Out, log: &[Log]) {
        // model before and after every operation
        self.setup(cx, pl);
        let at0: Vec<_> = pl.targets.iter().map(|t| look(&cx.w.s(t.1))).collect();
        let mut at = vec![at0.clone()];
        at.extend(log.iter().map(|l| l.seen.clone()));
        for (i, e) in o.ev.iter().enumerate() {
            let j = log.iter().position(|l| (i as u32) < l.nev).unwrap_or(log.len());
            let mut ps = vec![Plan { at: i as u32, kind: shim::P_KILL, arg: 0 }];
            if e.op == shim::WRITE && e.size > 1 {
                ps.extend([1, e.size / 2, e.size].map(|m| Plan { at: i as u32, kind: shim::P_KILLPART, arg: m }));
            }
            for p in ps {
                self.setup(cx, pl);
                let (ok, _) = run(&cx.w, pl, seq, vec![p], false);
                cx.eval(Some(h64(&(pl.name, seq, i, p.kind, p.arg))));
                cx.count("crash_points", 1);
                if ok.code != 137 {
                    cx.count("plans_not_reached", 1);
                }
                for (t, x) in pl.targets.iter().enumerate() {
                    let x = look(&cx.w.s(x.1));
                    let after = at.get(j + 1).unwrap_or(&at[j]);
                    if x != at[j][t] && x != after[t] {
                        return cx.fail("torn", format!("[{}] {:?} killed at #{} {}: at target {} is {}, neither {} nor {}", pl.name, seq, i, e.show(), t, what(x), what(at[j][t]), what(after[t])));
                    }
                }
            }
        }
    }
    fn faults(&self, cx: &mut Cx, pl: &Place, seq: &[String], o: &Out) {
        use libc::*;
        for (i, e) in o.ev.iter().enumerate() {
            let err = |n: i32| Plan { at: i as u32, kind: shim::P_ERR, arg: n as i64 };
            let mut ps = vec![err(EIO)];
            match e.op {
                shim::WRITE => {
                    ps.extend([err(ENOSPC), err(EINTR), Plan { at: i as u32, kind: shim::P_FULL, arg: ENOSPC as i64 }]);
                    if e.size > 1 {
                        ps.extend([1, e.size / 2, e.size - 1].map(|m| Plan { at: i as u32, kind: shim::P_SHORT, arg: m }));
                        // some of it, then nothing anymore
                        ps.push(Plan { at: i as u32, kind: shim::P_SHORT, arg: -1 });
                    }
                }
                shim::OPENW => ps.extend([err(EEXIST), err(ENOSPC), err(EACCES)]),
                shim::OPENR => ps.extend([err(EMFILE), err(EACCES)]),
                shim::RENAME => ps.extend([err(ENOSPC), err(EXDEV), err(EACCES)]),
                _ => {}
            }
            for p in ps {
                let plan = if p.arg < 0 { vec![Plan { arg: e.size / 2, ..p }, Plan { at: i as u32 + 1, kind: shim::P_FULL, arg: ENOSPC as i64 }] } else { vec![p] };
                if self.one(cx, pl, seq, &plan).is_none() {
                    return;
                }
                cx.count("faults", 1);
            }
        }
    }
}
impl Prop for Partial {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn rule(&self) -> &'static str {
        "all sequences of up to 5 (thorough 6) of {create, write_all (5, 0, 9000 bytes), write (5000), write_vectored (3+0+4197), flush, finish, drop} on up to two partial files x 2 targets, at 10 kinds of places; shorter ones also killed (also in the middle of writes) and failing at every file operation; what is visible is compared with a model after every operation"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cs = vec![];
        for (i, pl) in places().iter().enumerate() {
            let main = i < 3;
            for depth in 1..=(if q { if main { 5 } else { 4 } } else if main { 6 } else { 5 }) {
                let few = ["small", "big", "medium", "flush", "finish", "drop"];
                let ops: &[&str] = if depth >= 5 && q { &["small", "big", "flush", "finish", "drop"] } else if depth >= 6 { &few } else { &OPS };
                // in chunks: one case for many sequences
                let all: Vec<Vec<String>> = seqs(depth, ops);
                for c in all.chunks(200) {
                    let deep = depth <= if q { 3 } else { 4 };
                    if deep && !pl.odd {
                        for c in c.chunks(10) {
                            cs.push(json!({"place": i, "seqs": c, "deep": true}));
                        }
                    } else {
                        cs.push(json!({"place": i, "seqs": c, "deep": false}));
                    }
                }
            }
        }
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        let pls = places();
        let pl = &pls[c["place"].as_u64().unwrap() as usize];
        let deep = c["deep"].as_bool().unwrap();
        for s in c["seqs"].as_array().unwrap() {
            let seq: Vec<String> = s.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            cx.cur = json!({"place": c["place"], "seqs": [s], "deep": deep});
            let r = self.one(cx, pl, &seq, &[]);
            if let (true, Some((o, log))) = (deep, r) {
                self.kills(cx, pl, &seq, &o, &log);
                self.faults(cx, pl, &seq, &o);
            }
        }
    }
}


