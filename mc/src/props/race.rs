//! C09: all interleavings of two processes, up to a number of preemptions.
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::shim;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;

pub struct Race;

/// What one of the processes does.
#[derive(Clone, Debug)]
struct Cmd {
    store: &'static str,
    args: Vec<&'static str>,
    /// artefacts that are in its store after it has succeeded
    local: Vec<Art>,
    /// artefacts that are on the remote after it has succeeded
    remote: Vec<Art>,
    /// version it installs
    install: Option<&'static str>,
}
struct Sc {
    name: &'static str,
    rem: Rem,
    init: Tree,
    cmds: [Cmd; 2],
}
const VS: [&str; 6] = ["1", "2", "3", "4", "x5", "6"];

fn install(v: &'static str) -> Cmd {
    Cmd { store: "local", args: vec!["install", v], local: vec![b(v)], remote: vec![], install: Some(v) }
}
fn sync(remote: Vec<Art>) -> Cmd {
    Cmd { store: "local", args: vec!["sync"], local: vec![], remote, install: None }
}
fn create(x: &'static str, y: &'static str) -> Cmd {
    Cmd { store: "local", args: vec!["create-patch", x, y], local: vec![p(x, y), b(x), b(y)], remote: vec![], install: None }
}
fn add(args: &[&'static str], v: &str, from: Option<&str>) -> Cmd {
    let up = args.contains(&"--upload");
    let mut l = vec![b(v)];
    if let Some(x) = from {
        l.push(p(x, v));
    }
    Cmd { store: "local", args: args.to_vec(), local: l.clone(), remote: if up { l } else { vec![] }, install: None }
}
impl Cmd {
    fn at(mut self, store: &'static str) -> Cmd {
        self.store = store;
        self
    }
}
fn scenarios() -> Vec<Sc> {
    let mut v = vec![];
    for rem in [Rem::Fs, Rem::S3] {
        let mk = |name, local: &[Art], remote: &[Art], cur: Option<&str>, a: Cmd, c: Cmd| {
            let mut init = store(local, remote, rem, cur);
            init.insert("input/4.tar.zst".into(), file(build("4")));
            init.insert("input/2.tar.zst".into(), file(build("2")));
            init.insert("input/pkg/file".into(), file(content("6").to_vec()));
            init.insert("input/pkg/dir/other".into(), file(content("x5").to_vec()));
            Sc { name, rem, init, cmds: [a, c] }
        };
        let mut sc = |name, local: &[Art], remote: &[Art], cur: Option<&str>, a: Cmd, c: Cmd| v.push(mk(name, local, remote, cur, a, c));
        let up = || vec![b("1"), b("2"), b("3"), p("1", "2"), p("2", "3")];
        sc("install 2 / install 3", &[b("1")], &[b("1"), b("2"), b("3")], Some("1"), install("2"), install("3"));
        sc("install 2 / install 2", &[b("1")], &[b("1"), b("2")], Some("1"), install("2"), install("2"));
        sc("install 3 / install 3 by patches", &[b("1")], &up(), Some("1"), install("3"), install("3"));
        sc("install 2 / install 3 by patches", &[b("1")], &up(), Some("1"), install("2"), install("3"));
        sc("first installs", &[], &[b("1"), b("2")], None, install("1"), install("2"));
        sc("switching among cached", &[b("1"), b("2"), b("3")], &[], Some("1"), install("2"), install("3"));
        sc("sync / install by patches", &[b("1"), b("4"), p("1", "4")], &[b("2"), b("3"), p("1", "2"), p("2", "3")], Some("1"), sync(vec![b("1"), b("4"), p("1", "4")]), install("3"));
        sc("sync / install what is being uploaded", &[b("1"), b("4"), p("1", "4")], &[], Some("1"), sync(vec![b("1"), b("4"), p("1", "4")]), install("4"));
        sc("sync / sync", &[b("1"), b("2"), p("1", "2")], &[], Some("1"), sync(vec![b("1"), b("2"), p("1", "2")]), sync(vec![b("1"), b("2"), p("1", "2")]));
        sc("add / add", &[b("1")], &[b("1")], Some("1"), add(&["add", "@/input/4.tar.zst"], "4", None), add(&["add", "@/input/4.tar.zst"], "4", None));
        let au = ["add", "@/input/4.tar.zst", "--upload"];
        sc("add --upload / add --upload", &[b("1")], &[b("1")], Some("1"), add(&au, "4", None), add(&au, "4", None));
        let ac = ["add", "@/input/4.tar.zst", "--calc-patch-from", "1", "--upload"];
        sc("add with patch, twice", &[b("1")], &[b("1")], Some("1"), add(&ac, "4", Some("1")), add(&ac, "4", Some("1")));
        sc("add --upload / sync", &[b("1"), b("3")], &[b("1")], Some("1"), add(&au, "4", None), sync(vec![b("3")]));
        sc("replacing add / install of it", &[b("1"), b("2")], &[b("1"), b("2")], Some("1"), add(&["add", "@/input/2.tar.zst"], "2", None), install("2"));
        sc("replacing add / install from it", &[b("1"), b("2")], &[b("1"), b("2"), b("3"), p("2", "3")], Some("2"), add(&["add", "@/input/2.tar.zst"], "2", None), install("3"));
        sc("create-patch / create-patch", &[b("1"), b("2")], &[], Some("1"), create("1", "2"), create("1", "2"));
        sc("create-patch / create-patch, builds remote", &[b("3")], &[b("1"), b("2")], Some("3"), create("1", "2"), create("1", "2"));
        sc("create-patch / install", &[b("1")], &[b("1"), b("2")], Some("1"), create("1", "2"), install("2"));
        sc("create-patch / other create-patch", &[b("1")], &[b("2"), b("3")], Some("1"), create("1", "2"), create("2", "3"));
        sc("create-patch / sync", &[b("1"), b("2")], &[], Some("1"), create("1", "2"), sync(vec![b("1"), b("2")]));
        let pk = ["add-package", "6", "@/input/pkg"];
        sc("add-package / add-package", &[b("1")], &[b("1")], Some("1"), Cmd { local: vec![], ..add(&pk, "6", None) }, Cmd { local: vec![], ..add(&pk, "6", None) });
        // two machines, one remote
        let mut two = |name, l1: &[Art], l2: &[Art], remote: &[Art], a: Cmd, c: Cmd| {
            let mut s = mk(name, l1, remote, Some("1"), a, c.at("local2"));
            for x in l2 {
                s.init.insert(format!("local2/{}", x.name()), file(x.bytes()));
            }
            s.init.insert("local2/current".into(), Node::Link("@/local2/1.tar.zst".into()));
            v.push(s);
        };
        two("two machines sync the same", &[b("1"), b("2")], &[b("1"), b("2")], &[], sync(vec![b("1"), b("2")]), sync(vec![b("1"), b("2")]));
        two("two machines: sync / install", &[b("1"), b("2"), p("1", "2")], &[b("1")], &[b("2")], sync(vec![b("1"), b("2"), p("1", "2")]), install("2"));
        two("two machines: add --upload / install", &[b("1")], &[b("1")], &[b("2")], add(&ac, "4", Some("1")), install("2"));
    }
    v
}
fn spec(s: &Sc, k: usize) -> Spec {
    let c = &s.cmds[k];
    let st = format!("@/{}", c.store);
    let mut a = vec!["--local", &st, "--remote", s.rem.arg()];
    a.extend_from_slice(&c.args);
    Spec {
        args: a.iter().map(OsString::from).collect(),
        sched_mask: 1 << shim::C_LOCAL | 1 << shim::C_REMOTE | 1 << shim::C_LOCAL2 | 1 << shim::C_S3 | 1 << shim::C_WORLD,
        rng: 1 + k as u64,
        pid: 4242 + k as i32,
        ..Spec::default()
    }
}
/// `current` of the given store.
fn cur(t: &Tree, st: &str) -> Option<Result<String, String>> {
    if st == "local" {
        return current(t);
    }
    current(&t.iter().filter_map(|(k, n)| k.strip_prefix(st).map(|r| (format!("local{}", r), match n {
        Node::Link(l) => Node::Link(l.replace(&format!("@/{}/", st), "@/local/")),
        n => n.clone(),
    }))).collect())
}
fn snap(w: &World) -> Tree {
    w.snap(&["local", "local2", "remote", "bucket", "tmp"])
}
fn stores(s: &Sc, t: &Tree) -> [(&'static str, Tree); 3] {
    [("local", sub(t, "local")), ("local2", sub(t, "local2")), ("remote", s.rem.view(t))]
}
/// Bytes of the package everyone makes of input/pkg (by the undisturbed command).
type Known = BTreeMap<String, BTreeSet<Vec<u8>>>;
struct Seen {
    arts: BTreeSet<(usize, String)>,
    cur: [bool; 2],
}
fn check(s: &Sc, names: &BTreeMap<String, Art>, known: &Known, seen: &mut Seen, t: &Tree) -> Option<String> {
    let mut now = BTreeSet::new();
    for (i, (st, tr)) in stores(s, t).iter().enumerate() {
        for (n, x) in arts(tr) {
            let ok = match known.get(&n) {
                Some(k) => k.contains(&**x),
                None => names.get(&n).map_or(false, |a| a.intact(&x)),
            };
            if !ok {
                return Some(format!("{} shows `{}` with {} bytes, which is not that artefact", st, n, x.len()));
            }
            now.insert((i, n));
        }
    }
    if let Some(l) = seen.arts.difference(&now).next() {
        return Some(format!("{} lost `{}`", ["local", "local2", "remote"][l.0], l.1));
    }
    seen.arts = now;
    for (i, st) in ["local", "local2"].iter().enumerate() {
        match cur(t, st) {
            Some(Ok(_)) => seen.cur[i] = true,
            Some(Err(e)) => return Some(format!("{}: {}", st, e)),
            None if seen.cur[i] => return Some(format!("{}: `current` is missing", st)),
            None => {}
        }
    }
    None
}
/// One execution: `first` begins, at every step in `sched` the other process goes on (if it can).
struct Run {
    outs: Vec<Out>,
    fin: Tree,
    points: Vec<usize>,
    steps: usize,
    bad: Option<String>,
    trace: Vec<String>,
}
fn run(cx: &mut Cx, s: &Sc, names: &BTreeMap<String, Art>, known: &Known, first: usize, sched: &[usize], all: bool) -> Run {
    cx.w.load(&s.init);
    let specs = [spec(s, 0), spec(s, 1)];
    let mut points = vec![];
    let mut seen = Seen { arts: BTreeSet::new(), cur: [false; 2] };
    let mut bad = check(s, names, known, &mut seen, &s.init);
    let mut trace: Vec<String> = vec![];
    let mut next = 0;
    let pend = |w: &World, k: usize| {
        let sl = w.slot(k);
        sl.ev[(sl.pending.max(0) as usize).min(shim::MAXEV - 1)]
    };
    let ops = std::cell::RefCell::new((0u64, vec![]));
    let states = std::cell::RefCell::new(vec![]);
    let prog = std::cell::Cell::new([0u32; 2]);
    let (outs, steps, dead) = cx.w.race(
        &specs,
        |step, en, w| {
            let c = if step == 0 {
                first
            } else if en.len() > 1 {
                // en[0] is the process that made the last step
                let op = pend(w, en[0]).op;
                if all || !matches!(op, shim::READ | shim::WRITE | shim::COPY | shim::CHMOD | shim::SYNC | shim::TRUNC) {
                    points.push(step);
                }
                if sched.get(next) == Some(&step) {
                    next += 1;
                    en[1]
                } else {
                    en[0]
                }
            } else {
                en[0]
            };
            let e = pend(w, c);
            ops.borrow_mut().0 += 1;
            ops.borrow_mut().1.push((c, e));
            let mut pr = prog.get();
            pr[c] += 1;
            prog.set(pr);
            c
        },
        |w, _, _| {
            let e = ops.borrow().1.last().unwrap().1;
            let d = e.decode();
            if d.mutating {
                let base = |x: &str| x.rsplit('/').next().unwrap_or("").to_string();
                if d.op == shim::S3 || [base(&d.path), base(&d.path2)].iter().any(|n| is_art_name(n) || n == "current") {
                    let t = snap(w);
                    if bad.is_none() {
                        bad = check(s, names, known, &mut seen, &t).map(|m| format!("after step {}: {}", ops.borrow().1.len() - 1, m));
                    }
                    states.borrow_mut().push(h64(&t.keys().collect::<Vec<_>>()));
                }
            }
            let last = states.borrow().last().copied().unwrap_or(0);
            states.borrow_mut().push(h64(&(last, prog.get(), s.name, s.rem.name())));
        },
    );
    if dead && bad.is_none() {
        bad = Some("the processes block each other".into());
    }
    if bad.is_some() || next < sched.len() {
        for (i, (k, e)) in ops.borrow().1.iter().enumerate() {
            trace.push(format!("{}:{} {}", i, ["A", "B"][*k], e.decode().show()));
        }
    }
    for h in states.into_inner() {
        cx.state(h);
    }
    cx.count("transitions", steps as u64);
    let fin = snap(&cx.w);
    Run { outs, fin, points, steps, bad, trace }
}
struct Serial {
    known: Known,
    all: BTreeSet<(usize, String)>,
    common: BTreeSet<(usize, String)>,
    /// does command k succeed in both orders?
    ok: [bool; 2],
    tries: usize,
}
fn art_set(s: &Sc, t: &Tree) -> BTreeSet<(usize, String)> {
    stores(s, t).iter().enumerate().flat_map(|(i, (_, tr))| arts(tr).into_keys().map(move |n| (i, n))).collect()
}
fn serial(cx: &mut Cx, s: &Sc) -> Serial {
    let mut r = Serial { known: Known::new(), all: BTreeSet::new(), common: BTreeSet::new(), ok: [true; 2], tries: 0 };
    for f in 0..2 {
        cx.w.load(&s.init);
        for k in [f, 1 - f] {
            let mut sp = spec(s, k);
            sp.sched_mask = 0;
            let o = cx.w.cli(&sp);
            r.ok[k] &= o.code == 0;
        }
        let t = snap(&cx.w);
        for (_, tr) in stores(s, &t) {
            if let Some(Node::File(x, _)) = tr.get("6.tar.zst") {
                r.known.entry("6.tar.zst".into()).or_default().insert(x.to_vec());
            }
        }
        let a = art_set(s, &t);
        r.common = if f == 0 { a.clone() } else { r.common.intersection(&a).cloned().collect() };
        r.all.extend(a);
        r.tries += 1;
    }
    r
}
fn judge(s: &Sc, se: &Serial, r: &Run) -> Option<(&'static str, String)> {
    if let Some(m) = &r.bad {
        return Some(("torn", m.clone()));
    }
    let t = &r.fin;
    for (k, c) in s.cmds.iter().enumerate() {
        let o = &r.outs[k];
        if o.outside {
            return Some(("outside", format!("{} wrote outside", c.args.join(" "))));
        }
        if o.code != 0 {
            if se.ok[k] {
                return Some(("fails", format!("`{}` exits with {} although it succeeds before and after the other: {}", c.args.join(" "), o.code, short(&o.err))));
            }
            continue;
        }
        let st: Tree = sub(t, c.store);
        if let Some(a) = c.local.iter().find(|a| !st.contains_key(&a.name())) {
            return Some(("effect", format!("`{}` succeeded, but {} has no {}", c.args.join(" "), c.store, a.name())));
        }
        let rv = s.rem.view(t);
        if let Some(a) = c.remote.iter().find(|a| !rv.contains_key(&a.name())) {
            return Some(("effect", format!("`{}` succeeded, but the remote has no {}", c.args.join(" "), a.name())));
        }
        if c.install.is_some() {
            let want: Vec<&str> = (0..2).filter(|i| s.cmds[*i].store == c.store && r.outs[*i].code == 0).filter_map(|i| s.cmds[i].install).collect();
            match cur(t, c.store) {
                Some(Ok(v)) if want.contains(&&*v) => {}
                x => return Some(("current", format!("`{}` succeeded, but {}/current is {:?}", c.args.join(" "), c.store, x))),
            }
        }
    }
    let a = art_set(s, t);
    if let Some(x) = a.difference(&se.all).next() {
        return Some(("extra", format!("{:?} appears, which no serial order leaves", x)));
    }
    if r.outs.iter().all(|o| o.code == 0) {
        if let Some(x) = se.common.difference(&a).next() {
            return Some(("lacks", format!("{:?} is missing, which every serial order leaves", x)));
        }
        let left = |d: &str| sub(t, d).into_keys().filter(|n| !is_art_name(n) && n != "current").collect::<Vec<_>>();
        let mut l = left("local");
        l.extend(left("local2"));
        l.extend(left("remote"));
        l.extend(sub(t, "tmp").into_keys());
        if !l.is_empty() {
            return Some(("left", format!("left over: {:?}", l)));
        }
    }
    None
}
impl Race {
    fn dfs(&self, cx: &mut Cx, c: &Value, s: &Sc, se: &Serial, names: &BTreeMap<String, Art>, first: usize, sched: &mut Vec<usize>, bound: usize, part: Option<(usize, usize)>) {
        let all = c["all"].as_bool().unwrap_or(false);
        let r = run(cx, s, names, &se.known, first, sched, all);
        if part.map_or(true, |p| p.0 == 0) {
            cx.eval(Some(h64(&(s.name, s.rem.name(), first, &sched))));
            cx.count("traces", 1);
            cx.sample(|| json!({"scenario": s.name, "remote": s.rem.name(), "first": first, "switch_at": &sched[..], "steps": r.steps, "exit": r.outs.iter().map(|o| o.code).collect::<Vec<_>>()}));
        }
        if let Some((key, m)) = judge(s, se, &r) {
            let mut cc = c.clone();
            cc["sched"] = json!(sched);
            let old = std::mem::replace(&mut cx.cur, cc);
            cx.fail(key, format!("{} ({}): {} first, switching before steps {:?}: {}\n{}", s.name, s.rem.name(), ["A", "B"][first], sched, m, r.trace.join("\n")));
            cx.cur = old;
            return;
        }
        if sched.len() >= bound {
            return;
        }
        let from = sched.last().map_or(0, |x| x + 1);
        for (i, pt) in r.points.iter().filter(|x| **x >= from).enumerate() {
            if let Some((k, n)) = part {
                if i % n != k {
                    continue;
                }
            }
            if cx.failed() {
                return;
            }
            sched.push(*pt);
            self.dfs(cx, c, s, se, names, first, sched, bound, None);
            sched.pop();
        }
    }
}
impl Prop for Race {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn rule(&self) -> &'static str {
        "two processes running the real command line under a scheduler that owns every operation on the shared stores and every S3 request: for each scenario of the catalogue, each starting process and every set of up to 2 (thorough 3) preemption points one schedule; all stores are checked after every step that changes a visible name, the end state against both serial orders; states: distinct (progress of both, visible store state)"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let n = 8;
        let mut cs = vec![];
        for (i, s) in scenarios().iter().enumerate() {
            for f in 0..2 {
                for k in 0..n {
                    cs.push(json!({"sc": i, "name": s.name, "first": f, "part": [k, n], "bound": if q { 2 } else { 3 }, "all": !q}));
                }
            }
        }
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        let ss = scenarios();
        let s = &ss[c["sc"].as_u64().unwrap() as usize];
        let names = names(&VS);
        let se = serial(cx, s);
        let first = c["first"].as_u64().unwrap() as usize;
        if let Some(l) = c["sched"].as_array() {
            let mut sched: Vec<usize> = l.iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let n = sched.len();
            return self.dfs(cx, c, s, &se, &names, first, &mut sched, n, None);
        }
        let part = (c["part"][0].as_u64().unwrap() as usize, c["part"][1].as_u64().unwrap() as usize);
        self.dfs(cx, c, s, &se, &names, first, &mut vec![], c["bound"].as_u64().unwrap() as usize, Some(part));
    }
}
