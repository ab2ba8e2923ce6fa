//! Parts of C02: whatever else breaks *while* an install runs. Somebody removes or damages a file that is not the target's
//! at every point between two operations of the install.
use super::install::Conf;
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::shim;
use serde_json::{json, Value};
use std::cell::Cell;
use std::fs;

const L: u8 = 1;
const R: u8 = 2;
const WAYS: [&str; 4] = ["gone", "cut", "garbage", "directory"];

fn confs(quick: bool) -> Vec<Conf> {
    let mut v = vec![];
    for rem in [Rem::Fs, Rem::S3] {
        for tgt in [R, L | R] {
            for mid in [0u8, L, R, L | R] {
                for pl in if quick { vec![[R, R], [L, R], [R, L], [L | R, L | R]] } else { vec![[R, R], [L, R], [R, L], [L, L], [L | R, L | R], [L | R, R], [R, L | R], [L, L | R], [L | R, L]] } {
                    for direct in [0u8, R] {
                        if tgt & L != 0 && (mid == R || direct != 0) || quick && rem.is_s3() && (direct != 0 || pl != [R, R]) {
                            continue;
                        }
                        let mut p = vec![(0, 1, pl[0], 0), (1, 2, pl[1], 0)];
                        if direct != 0 {
                            p.push((0, 2, direct, 0));
                        }
                        v.push(Conf {
                            vs: ["10", "9", "11"].iter().map(|x| x.to_string()).collect(), b: vec![L, mid, tgt], p, cur: 0, tgt: 2, rem, page: 0, tsize: 1200, naming: 0,
                        });
                    }
                }
            }
        }
    }
    v
}
pub fn cases(quick: bool) -> Vec<Value> {
    let mut v = vec![];
    for c in confs(quick) {
        let t = c.tree();
        let tn = b(&c.vs[c.tgt]).name();
        for k in t.keys() {
            if !matches!(t[k], Node::File(..)) && k != "local/current" || k.ends_with(&format!("/{}", tn)) || k.ends_with(&format!("%2F{}", tn)) {
                continue;
            }
            for (i, w) in WAYS.iter().enumerate() {
                if quick && (i == 2 || i > 0 && (c.p.len() > 2 || c.b[2] & L != 0)) {
                    continue;
                }
                if *w == "directory" && (k == "local/current" || k.starts_with("bucket/")) {
                    continue;
                }
                v.push(json!({"vanish": c.json(), "what": k, "how": w}));
            }
        }
    }
    v
}
fn strike(w: &World, what: &str, how: &str) {
    let p = w.path_of(what);
    let old = fs::read(&p).unwrap_or_default();
    if fs::symlink_metadata(&p).is_err() {
        return;
    }
    let _ = fs::remove_file(&p);
    match how {
        "gone" => {}
        "cut" => fs::write(&p, &old[..old.len() * 2 / 3]).unwrap(),
        "garbage" => fs::write(&p, b"garbage, and nothing else").unwrap(),
        _ => fs::create_dir(&p).unwrap(),
    }
}
pub fn run(cx: &mut Cx, c: &Value) {
    let conf = Conf::parse(&c["vanish"]);
    let (what, how) = (c["what"].as_str().unwrap(), c["how"].as_str().unwrap());
    let t = conf.tree();
    let v = conf.vs[conf.tgt].clone();
    let mut at = c["at"].as_u64().unwrap_or(0) as usize;
    loop {
        cx.w.load(&t);
        let mut sp = conf.spec();
        sp.sched_mask = 1 << shim::C_LOCAL | 1 << shim::C_REMOTE | 1 << shim::C_S3 | 1 << shim::C_WORLD;
        let struck = Cell::new(false);
        let before = std::cell::RefCell::new(String::new());
        let (o, _, dead) = cx.w.race(
            &[sp],
            |step, en, w| {
                if step == at {
                    let sl = w.slot(en[0]);
                    *before.borrow_mut() = sl.ev[(sl.pending.max(0) as usize).min(shim::MAXEV - 1)].decode().show();
                    strike(w, what, how);
                    struck.set(true);
                }
                en[0]
            },
            |_, _, _| {},
        );
        if !struck.get() {
            break;
        }
        let s = cx.w.snap_all();
        cx.count("struck_while_running", 1);
        cx.eval(Some(h64(&(c.to_string(), at))));
        for k in ["states", "transitions", "traces"] {
            cx.count(k, 1);
        }
        let d = || format!("{}: install {}; before {} somebody leaves `{}` {}", show(&t), v, before.borrow(), what, how);
        if dead || o[0].code != 0 {
            cx.cur["at"] = json!(at);
            return cx.fail("struck", format!("{}: install ends with {}: {}", d(), o[0].code, short(&o[0].err)));
        }
        // (what happens to `current` after it has been set is not the install's business)
        if what != "local/current" {
            if let Err(m) = installed(&s, &v) {
                cx.cur["at"] = json!(at);
                return cx.fail("struck", format!("{}: success, but {}", d(), m));
            }
        }
        if c["at"].is_u64() {
            break;
        }
        at += 1;
    }
}
