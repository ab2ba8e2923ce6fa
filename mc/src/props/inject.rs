//! C05, C06, C07, C08: every crash point (with torn writes) and every failing operation of every scenario.
use super::install::{rough, rough_tree};
use super::scen::*;
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::shim::{self, Ev, Plan};
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub struct Inject(pub &'static str);

fn plan_of(c: &Value) -> Vec<Plan> {
    c["plan"].as_array().unwrap().iter().map(|p| Plan { at: p[0].as_u64().unwrap() as u32, kind: p[1].as_i64().unwrap() as i32, arg: p[2].as_i64().unwrap() }).collect()
}
fn plan_json(p: &[Plan]) -> Value {
    Value::Array(p.iter().map(|p| json!([p.at, p.kind, p.arg])).collect())
}
/// Sizes at which a write of n bytes is torn.
fn tears(n: i64, quick: bool) -> Vec<i64> {
    let mut s = BTreeSet::new();
    if n > 0 {
        for m in [1, n / 2, n - 1] {
            s.insert(m);
        }
        if !quick {
            let step = (n / 32).max(1);
            let mut m = 0;
            while m < n {
                s.insert(m);
                m += step;
            }
        }
        s.insert(n);
    }
    s.into_iter().filter(|m| *m > 0).collect()
}
/// Ways to kill the process at event i.
fn kills(i: usize, e: &Ev, quick: bool) -> Vec<Plan> {
    let at = i as u32;
    let mut v = vec![Plan { at, kind: shim::P_KILL, arg: 0 }];
    match e.op {
        shim::WRITE | shim::COPY => v.extend(tears(e.size, quick).into_iter().map(|m| Plan { at, kind: shim::P_KILLPART, arg: m })),
        shim::S3 if e.mutating => v.push(Plan { at, kind: shim::P_KILLPART, arg: 1 }),
        _ => {}
    }
    v
}
/// Ways in which event i can fail.
fn faults(i: usize, e: &Ev, quick: bool) -> Vec<Plan> {
    let at = i as u32;
    let err = |n: i32| Plan { at, kind: shim::P_ERR, arg: n as i64 };
    let mut v = vec![];
    use libc::*;
    // (an ENOENT of something that is only looked at is not a failure: it is gone)
    let errs: &[i32] = match e.op {
        shim::OPENR | shim::OPENDIR => &[EIO, EMFILE, EACCES, ENFILE, ESTALE, EINTR, ENOMEM, ELOOP, EPERM, ETIMEDOUT, EBUSY],
        shim::OPENW => &[ENOSPC, EACCES, EMFILE, EROFS, ENFILE, EEXIST, EPERM, EDQUOT, EINTR, ESTALE, ETXTBSY, ENOENT, EISDIR, EBUSY, ENAMETOOLONG, EINVAL],
        shim::READ => &[EIO, EINTR, ESTALE, ETIMEDOUT, EISDIR, EAGAIN, ENOMEM, EACCES],
        shim::WRITE | shim::COPY => &[ENOSPC, EIO, EINTR, EDQUOT, EFBIG, EINVAL, EAGAIN, EPERM, ESTALE, EXDEV, EOPNOTSUPP, ENOSYS, ETXTBSY, EBADF, ENOMEM, EACCES],
        shim::RENAME | shim::SYMLINK | shim::LINK | shim::MKDIR => {
            &[EIO, EACCES, ENOSPC, EXDEV, EBUSY, EPERM, EEXIST, ENOTEMPTY, EDQUOT, EROFS, ESTALE, EMLINK, EOPNOTSUPP, ENOSYS, EINTR, ENOENT, EISDIR, ENOTDIR, EINVAL, ENAMETOOLONG, ETXTBSY]
        }
        shim::UNLINK | shim::RMDIR => &[EIO, EACCES, EBUSY, EPERM, EROFS, ENOENT, EISDIR, ESTALE, ENOTEMPTY, ETXTBSY],
        shim::CHMOD | shim::TRUNC | shim::UTIME => &[EPERM, EIO, EROFS, ENOSYS, EOPNOTSUPP, ENOENT, EINVAL, EACCES, EFBIG],
        shim::S3 => &[EIO],
        shim::CLOSE => &[EIO, EINTR, ENOSPC, EDQUOT],
        shim::SYNC => &[EIO, EINVAL, ENOSPC, EDQUOT, EROFS, EINTR],
        shim::STAT => &[EIO, EACCES, ESTALE, ELOOP, ENOMEM, EOVERFLOW],
        _ => &[EIO, EINTR],
    };
    v.extend(errs.iter().map(|n| err(*n)));
    match e.op {
        shim::OPENW => v.push(Plan { at, kind: shim::P_FULL, arg: ENOSPC as i64 }),
        shim::READ if e.ret > 1 => v.push(Plan { at, kind: shim::P_SHORT, arg: e.ret / 2 }),
        shim::WRITE | shim::COPY => {
            v.extend([Plan { at, kind: shim::P_FULL, arg: ENOSPC as i64 }, Plan { at, kind: shim::P_FULL, arg: EDQUOT as i64 }]);
            for m in tears(e.size, quick) {
                if m < e.size {
                    v.push(Plan { at, kind: shim::P_SHORT, arg: m });
                }
            }
        }
        _ => {}
    }
    v
}
fn desc(p: &[Plan], ev: &[Ev]) -> String {
    p.iter()
        .map(|p| {
            let k = match p.kind {
                shim::P_KILL => "killed before".to_string(),
                shim::P_KILLPART => format!("killed after {} bytes of", p.arg),
                shim::P_ERR => format!("error {} at", p.arg),
                shim::P_SHORT => format!("only {} bytes at", p.arg),
                _ => format!("disk full ({}) from", p.arg),
            };
            format!("{} #{} {}", k, p.at, ev.get(p.at as usize).map(|e| e.show()).unwrap_or_default())
        })
        .collect::<Vec<_>>()
        .join(", then ")
}
fn store_names(s: &Scen, t: &Tree) -> (BTreeSet<String>, BTreeSet<String>) {
    (sub(t, "local").into_keys().collect(), s.rem.view(t).into_keys().collect())
}
/// Like `current`, but however it came about: a file itself, or a link to anywhere.
fn delivers(t: &Tree) -> Option<Result<String, String>> {
    let r = current(t)?;
    if r.is_ok() {
        return Some(r);
    }
    let x = match t.get("local/current") {
        Some(Node::Link(l)) => resolve(t, "local", l).and_then(|p| t.get(&p)),
        x => x,
    };
    match x {
        Some(Node::File(x, _)) => ["1", "2", "3"].iter().find(|v| b(v).intact(x)).map(|v| Ok(v.to_string())).or(Some(r)),
        _ => Some(r),
    }
}
impl Inject {
    /// Artefact files that are neither what was there nor what the undisturbed command leaves.
    fn torn(&self, s: &Scen, b: &Base, t: &Tree) -> Option<String> {
        for (what, now, ini, fin) in [("local", sub(t, "local"), sub(&s.init, "local"), sub(&b.fin, "local")), ("remote", s.rem.view(t), s.rem.view(&s.init), s.rem.view(&b.fin))] {
            for (n, x) in arts(&now) {
                let same = |o: &Tree| matches!(o.get(&n), Some(Node::File(y, _)) if *y == x);
                if !same(&ini) && !same(&fin) {
                    return Some(format!("{} `{}` is torn: {} bytes, neither as before nor as the command would leave it", what, n, x.len()));
                }
            }
            for (n, y) in arts(&ini) {
                if !now.contains_key(&n) && fin.contains_key(&n) {
                    return Some(format!("{} `{}` ({} bytes) disappeared", what, n, y.len()));
                }
            }
        }
        None
    }
    fn current_ok(&self, s: &Scen, t: &Tree) -> Result<(), String> {
        let before = match delivers(&s.init) {
            Some(Ok(v)) => v,
            _ => return Ok(()),
        };
        match delivers(t) {
            Some(Ok(v)) if v == before || s.goals.iter().any(|g| matches!(g, Goal::Installed(x) if *x == v)) => Ok(()),
            Some(Ok(v)) => Err(format!("current delivers {}", v)),
            Some(Err(e)) => Err(e),
            None => Err("there is no current".into()),
        }
    }
    /// Same artefacts and current as after the undisturbed run?
    fn same_end(&self, s: &Scen, b: &Base, t: &Tree) -> Result<(), String> {
        for (what, now, fin) in [("local", sub(t, "local"), sub(&b.fin, "local")), ("remote", s.rem.view(t), s.rem.view(&b.fin))] {
            let (x, y) = (arts(&now), arts(&fin));
            for n in x.keys() {
                if !y.contains_key(n) {
                    return Err(format!("{} has the extra artefact `{}`", what, n));
                }
            }
            for n in y.keys() {
                match x.get(n) {
                    None => return Err(format!("{} misses `{}`", what, n)),
                    Some(d) if !b.good(&fin, n, d) => return Err(format!("{} `{}` is wrong", what, n)),
                    _ => {}
                }
            }
        }
        if t.get("local/current") != b.fin.get("local/current") {
            return Err(format!("current is {:?}", t.get("local/current")));
        }
        Ok(())
    }
    /// Look at `current` after every change an install makes.
    fn watch(&self, cx: &mut Cx, c: &Value) {
        let (conf, t) = rough_tree(c);
        let old = conf.vs[conf.cur as usize].clone();
        let new = conf.vs[conf.tgt].clone();
        cx.w.load(&t);
        let mut sp = conf.spec();
        sp.sched_mask = 1 << shim::C_LOCAL | 1 << shim::C_WORLD;
        let last = std::cell::Cell::new(None);
        let bad = std::cell::RefCell::new(None);
        let looks = std::cell::Cell::new(0u64);
        let (_, steps, _) = cx.w.race(
            &[sp],
            |_, en, w| {
                let sl = w.slot(en[0]);
                last.set(Some(sl.ev[(sl.pending.max(0) as usize).min(shim::MAXEV - 1)]));
                en[0]
            },
            |w, step, _| {
                let e = match last.take() {
                    Some(e) => e.decode(),
                    None => return,
                };
                if !e.mutating || matches!(e.op, shim::CHMOD | shim::SYNC | shim::UTIME) || bad.borrow().is_some() {
                    return;
                }
                looks.set(looks.get() + 1);
                let m = match current(&w.snap(&["local"])) {
                    Some(Ok(v)) if v == old || v == new => return,
                    Some(Ok(v)) => format!("current delivers {}", v),
                    Some(Err(m)) => m,
                    None => "there is no current".into(),
                };
                *bad.borrow_mut() = Some(format!("after step {} ({}): {}", step, e.show(), m));
            },
        );
        cx.count("steps_watched", steps as u64);
        cx.count("looks_at_current", looks.get());
        cx.eval((looks.get() > 0).then(|| h64(&c.to_string())));
        if let Some(m) = bad.into_inner() {
            cx.fail("watch:current", format!("{} : install {}: {}", show(&t), new, m));
        }
    }
    /// Killed before the same change again and again, within the same second, as by an eager supervisor.
    fn often(&self, cx: &mut Cx, s: &Scen, b: &Base, m: usize, n: i32) {
        let mut t = s.init.clone();
        let mut killed = 0;
        let mut before = String::new();
        loop {
            cx.w.load(&t);
            let mut sp = s.spec();
            sp.pid = if killed % 2 == 0 { 5000 } else { 5000 + killed };
            let o = cx.w.cli(&sp);
            if o.code != 0 {
                return cx.fail(&format!("{}:often", s.name), format!("{}: killed {} times before {}: the next run fails with {}: {}", s.name, killed, before, o.code, short(&o.err)));
            }
            if killed % 4 == 0 || killed == n {
                if let Err(e) = self.same_end(s, b, &cx.w.snap_all()) {
                    return cx.fail(&format!("{}:often-end", s.name), format!("{}: killed {} times before {}: after another run, {}", s.name, killed, before, e));
                }
            }
            let at = match o.ev.iter().enumerate().filter(|(_, e)| e.mutating && e.ret >= 0).nth(m) {
                Some((i, e)) if killed < n => {
                    before = e.show();
                    i
                }
                _ => break,
            };
            cx.w.load(&t);
            sp.plan = vec![Plan { at: at as u32, kind: shim::P_KILL, arg: 0 }];
            let o = cx.w.cli(&sp);
            cx.count("repeated_kills", 1);
            if o.code != 137 {
                cx.count("plans_not_reached", 1);
                break;
            }
            killed += 1;
            t = cx.w.snap_all();
        }
        cx.eval((killed > 0).then(|| h64(&(&s.name, m, "often"))));
    }
    fn judge(&self, cx: &mut Cx, s: &Scen, b: &Base, plan: &[Plan], o: &Out, t: &Tree) {
        let d = desc(plan, &o.ev);
        let key = |x: &str| format!("{}:{}", s.name, x);
        match self.0 {
            "C05" => {
                if let Some(m) = self.torn(s, b, t) {
                    cx.fail(&key("torn"), format!("{}: {}: {}", s.name, d, m));
                }
            }
            "C06" => {
                if let Err(m) = self.current_ok(s, t) {
                    cx.fail(&key("current"), format!("{}: {}: {}", s.name, d, m));
                }
            }
            "C07" => {
                // same command again, later and under another process id, possibly in the same second
                let mut sp = s.spec();
                let same_second = plan[0].at % 2 == 0;
                sp.pid = 5000;
                sp.rng = 77;
                if !same_second {
                    sp.now += 90;
                }
                let before = store_names(s, t);
                if plan.len() > 1 {
                    sp.plan = vec![plan[1]];
                    let o2 = cx.w.cli(&sp);
                    cx.count("second_crashes", 1);
                    if o2.code == 137 {
                        sp.plan.clear();
                        sp.pid = 5001;
                    } else {
                        return;
                    }
                }
                let o2 = cx.w.cli(&sp);
                let t2 = cx.w.snap_all();
                if o2.code != 0 {
                    cx.fail(&key("rerun"), format!("{}: {}: running it again fails with {}: {}", s.name, d, o2.code, short(&o2.err)));
                } else if let Err(m) = self.same_end(s, b, &t2) {
                    cx.fail(&key("rerun-end"), format!("{}: {}: after running it again, {}", s.name, d, m));
                } else {
                    let fin = store_names(s, &b.fin);
                    let now = store_names(s, &t2);
                    let extra: Vec<_> = now.1.iter().filter(|n| !before.1.contains(*n) && !fin.1.contains(*n)).collect();
                    if !extra.is_empty() {
                        cx.fail(&key("rerun-left"), format!("{}: {}: running it again put {:?} on the remote", s.name, d, extra));
                    }
                }
            }
            "C08" => {
                if o.code == 0 {
                    if let Err(m) = b.goals(s, t) {
                        cx.fail(&key("lied"), format!("{}: {}: reported success, but {}", s.name, d, m));
                        return;
                    }
                }
                if o.code > 101 {
                    cx.fail(&key("died"), format!("{}: {}: ended with {}", s.name, d, o.code));
                    return;
                }
                let fin = &b.fin;
                for (what, now, ini, fin) in [("local", sub(t, "local"), sub(&s.init, "local"), sub(fin, "local")), ("remote", s.rem.view(t), s.rem.view(&s.init), s.rem.view(fin))] {
                    let na = arts(&now);
                    for (n, y) in arts(&ini) {
                        match na.get(&n) {
                            None => return cx.fail(&key("lost"), format!("{}: {}: {} `{}` is lost", s.name, d, what, n)),
                            Some(x) if *x != y && !b.good(&fin, &n, x) => return cx.fail(&key("altered"), format!("{}: {}: {} `{}` is altered", s.name, d, what, n)),
                            _ => {}
                        }
                    }
                    for (n, x) in &na {
                        let same = matches!(ini.get(n), Some(Node::File(y, _)) if y == x);
                        if !same && !b.good(&fin, n, x) {
                            return cx.fail(&key("partial"), format!("{}: {}: {} `{}` is published but wrong ({} bytes)", s.name, d, what, n, x.len()));
                        }
                    }
                    // when removing it is what failed, a temporary file cannot but stay behind
                    let removal = plan.iter().any(|p| o.ev.get(p.at as usize).map_or(false, |e| e.op == shim::UNLINK));
                    if !removal {
                        for n in now.keys() {
                            if !ini.contains_key(n) && !fin.contains_key(n) && !is_art_name(n) && n != "current" {
                                return cx.fail(&key("left"), format!("{}: {}: {} keeps `{}`", s.name, d, what, n));
                            }
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
    }
}
impl Prop for Inject {
    fn id(&self) -> &'static str {
        self.0
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            "C05" => "every command of the scenario catalogue x every file-system/S3 operation it makes x {killed before it, killed after 1 / half / all-1 / all bytes of a write or copy, killed after the request took effect}; non-trivial: the kill happened after the first change to the world",
            "C06" => "every install scenario x every operation x {killed there (all torn variants), every error kind}; non-trivial: the store had changed or the operation is a change",
            "C07" => "every command x every crash point (as C05), then the same command again; killed at the same creation up to 9 (thorough 40) times in a row; non-trivial: the first run had changed something when it was killed",
            _ => "every command x every operation x every applicable error (each error number the operation may report, short transfer, disk full from here on, broken connection); non-trivial: the fault was reached",
        }
    }
    fn explore(&self, ctl: &mut Ctl) {
        let quick = ctl.quick();
        let n = { let cx = ctl.cx(99); scenarios(&cx.w).len() };
        let me = self.0;
        // phase 1: undisturbed runs
        let tr = ctl.par(n, |cx, i| {
            let s = scenarios(&cx.w)[i].clone();
            if me == "C06" && !s.install {
                return vec![];
            }
            cx.cur = json!({"scen": s.name, "plan": []});
            self.case(cx, &cx.cur.clone());
            let b = base(cx, &s);
            cx.count("scenarios", 1);
            cx.count("baseline_events", b.out.ev.len() as u64);
            let v: Vec<Value> = b.out.ev.iter().map(|e| json!([e.op, e.cls, e.mutating, e.size, e.ret, e.path])).collect();
            serde_json::to_vec(&json!([s.name, v])).unwrap()
        });
        let mut cases = vec![];
        let mut skipped = 0;
        for t in tr.iter().filter(|t| !t.is_empty()) {
            let v: Value = serde_json::from_slice(t).unwrap();
            let ev: Vec<Ev> = v[1]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| Ev { op: e[0].as_u64().unwrap() as u8, cls: e[1].as_u64().unwrap() as u8, mutating: e[2].as_bool().unwrap(), size: e[3].as_i64().unwrap(), ret: e[4].as_i64().unwrap(), err: 0, path: e[5].as_str().unwrap().into(), path2: String::new() })
                .collect();
            let one = |i: usize, e: &Ev| -> Vec<Plan> {
                match me {
                    "C05" | "C07" => kills(i, e, quick),
                    "C06" => [kills(i, e, quick), faults(i, e, quick)].concat(),
                    _ => faults(i, e, quick),
                }
            };
            // of many like operations in a row, the first, the last and some in between
            let mut run = vec![(0, 0); ev.len()];
            let mut i = 0;
            while i < ev.len() {
                let like = |e: &Ev| (e.op, e.cls, e.mutating, if matches!(e.op, shim::READ | shim::WRITE) { e.path.clone() } else { String::new() });
                let n = ev[i..].iter().take_while(|e| like(e) == like(&ev[i])).count();
                for k in 0..n {
                    run[i + k] = (k, n);
                }
                i += n;
            }
            let vast = v[0].as_str().map_or(false, |s| s.starts_with("huge") || s.starts_with("crowd"));
            let kept = if !quick { 30 } else if vast { 2 } else { 6 };
            let keep = |i: usize| {
                let (k, n) = run[i];
                if quick && vast && i > 30 && ev.len() - i > 50 && i % 5 != 0 {
                    return false;
                }
                n <= 4 * kept || k < kept || n - k <= kept || k % (n / kept) == 0
            };
            skipped += (0..ev.len()).filter(|i| !keep(*i)).count();
            for (i, e) in ev.iter().enumerate().filter(|x| keep(x.0)) {
                for p in one(i, e).into_iter().take(if quick && vast { 5 } else { usize::MAX }) {
                    cases.push(json!({"scen": v[0], "plan": plan_json(&[p])}));
                    if quick {
                        continue;
                    }
                    // thorough: pairs
                    let last = (i + 200).min(ev.len() + 12);
                    match me {
                        "C08" => {
                            for j in i + 1..last {
                                let f = ev.get(j).map(|e| faults(j, e, true)).unwrap_or_else(|| vec![Plan { at: j as u32, kind: shim::P_ERR, arg: libc::EIO as i64 }]);
                                for q in f.into_iter().take(2) {
                                    cases.push(json!({"scen": v[0], "plan": plan_json(&[p, q])}));
                                }
                            }
                        }
                        "C06" if p.kind == shim::P_ERR || p.kind == shim::P_FULL || p.kind == shim::P_SHORT => {
                            for j in i + 1..last {
                                cases.push(json!({"scen": v[0], "plan": plan_json(&[p, Plan { at: j as u32, kind: shim::P_KILL, arg: 0 }])}));
                            }
                        }
                        "C07" if e.mutating => {
                            for j in 0..ev.len() + 4 {
                                cases.push(json!({"scen": v[0], "plan": plan_json(&[p, Plan { at: j as u32, kind: shim::P_KILL, arg: 0 }])}));
                            }
                        }
                        "C05" if e.mutating => {
                            // an error first, then the kill while cleaning up
                            for f in faults(i, e, true).into_iter().take(2) {
                                for j in i + 1..last {
                                    cases.push(json!({"scen": v[0], "plan": plan_json(&[f, Plan { at: j as u32, kind: shim::P_KILL, arg: 0 }])}));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        if me == "C07" {
            // again and again, right after something was created
            for t in tr.iter().filter(|t| !t.is_empty()) {
                let v: Value = serde_json::from_slice(t).unwrap();
                let ms: Vec<&Value> = v[1].as_array().unwrap().iter().filter(|e| e[2] == true && e[4].as_i64().unwrap() >= 0).collect();
                for m in 1..ms.len() {
                    let op = ms[m - 1][0].as_u64().unwrap() as u8;
                    if matches!(op, shim::OPENW | shim::SYMLINK | shim::LINK | shim::MKDIR | shim::COPY) || !quick {
                        cases.push(json!({"scen": v[0], "plan": [], "change": m, "times": if quick { 9 } else { 40 }}));
                    }
                }
            }
        }
        ctl.extra.insert("injected_plans".into(), json!(cases.len()));
        ctl.extra.insert("operations_skipped_in_long_runs".into(), json!(skipped));
        if me == "C06" {
            cases.extend(rough(quick));
        }
        ctl.cases(self, cases);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        if c.get("rough").is_some() {
            return self.watch(cx, c);
        }
        let s = scen(cx, c["scen"].as_str().unwrap());
        let plan = plan_of(c);
        let b = base(cx, &s);
        if let Some(n) = c["times"].as_u64() {
            return self.often(cx, &s, &b, c["change"].as_u64().unwrap() as usize, n as i32);
        }
        if plan.is_empty() {
            cx.eval(None);
            if b.out.code != 0 {
                cx.fail(&format!("{}:base", s.name), format!("{}: fails undisturbed with {}: {}", s.name, b.out.code, short(&b.out.err)));
            } else if let Err(m) = b.goals(&s, &b.fin) {
                cx.fail(&format!("{}:base", s.name), format!("{}: undisturbed, but {}", s.name, m));
            }
            return;
        }
        let mut sp = s.spec();
        sp.plan = if self.0 == "C07" { plan[..1].to_vec() } else { plan.clone() };
        cx.w.load(&s.init);
        let o = cx.w.cli(&sp);
        let t = cx.w.snap_all();
        // the run up to the injection is the undisturbed one
        let at = (plan[0].at as usize).min(b.out.ev.len());
        if o.ev.len() < at || o.ev[..at].iter().zip(&b.out.ev[..at]).any(|(x, y)| (x.op, x.cls) != (y.op, y.cls)) {
            cx.count("prefix_mismatches", 1);
        }
        let killed = sp.plan.iter().any(|p| p.kind == shim::P_KILL || p.kind == shim::P_KILLPART);
        if killed && plan.len() == 1 && o.code != 137 {
            cx.count("plans_not_reached", 1);
        }
        if !o.hit {
            cx.count("plans_not_reached", 1);
        }
        let changed = o.ev.iter().any(|e| e.mutating && e.ret != i64::MIN);
        let nontrivial = if self.0 == "C08" { o.hit } else { changed || !killed };
        cx.eval(nontrivial.then(|| h64(&(&s.name, plan_json(&plan).to_string()))));
        if nontrivial {
            let d = desc(&plan, &o.ev);
            cx.sample(|| json!({"scenario": s.name, "injected": d, "exit": o.code, "stores_after": show(&t)}));
        }
        self.judge(cx, &s, &b, &plan, &o, &t);
        if self.0 == "C06" && !killed && plan.len() == 1 {
            // and what was there right after each change of `current` that followed the failure
            let touches: Vec<usize> = (plan[0].at as usize + 1..o.ev.len().saturating_sub(1))
                .filter(|j| o.ev[*j].mutating && o.ev[*j].err == 0 && (o.ev[*j].path == "local/current" || o.ev[*j].path2 == "local/current"))
                .collect();
            for j in touches {
                sp.plan = vec![plan[0], Plan { at: j as u32 + 1, kind: shim::P_KILL, arg: 0 }];
                cx.w.load(&s.init);
                let o = cx.w.cli(&sp);
                let t = cx.w.snap_all();
                cx.count("killed_after_failure", 1);
                cx.eval(Some(h64(&(&s.name, plan_json(&sp.plan).to_string()))));
                self.judge(cx, &s, &b, &sp.plan, &o, &t);
            }
        }
    }
}
