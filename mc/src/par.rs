//! Worker pool, coverage counters, violations, evidence.
#![allow(dead_code)]
use crate::exec::{wr_fd, World};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::time::Instant;

pub fn h64(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new(); // fixed keys
    x.hash(&mut h);
    h.finish()
}
pub trait Prop {
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn explore(&self, ctl: &mut Ctl);
    /// Run one case, reporting through cx.
    fn case(&self, cx: &mut Cx, case: &Value);
}
#[derive(Clone)]
pub struct Viol {
    pub key: String,
    pub msg: String,
    pub case: Value,
}
/// What a worker has while it runs cases.
pub struct Cx {
    pub w: World,
    pub cur: Value,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub states: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub viols: Vec<Viol>,
    pub quick: bool,
    stop: *const Shared,
}
#[repr(C)]
struct Shared {
    next: AtomicU64,
    viols: AtomicU32,
    stop: AtomicU32,
}
impl Cx {
    /// Count one execution; `sig` identifies what was distinct about it (None: trivial).
    pub fn eval(&mut self, sig: Option<u64>) {
        self.evals += 1;
        if let Some(s) = sig {
            self.distinct.insert(s);
        }
    }
    /// A state that was seen (they are counted up to a limit, so that they fit into memory).
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 2_000_000 {
            self.states.insert(h);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_insert(0) += n;
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.samples.len() < 3 {
            let s = v();
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, key: &str, msg: String) {
        let n = if self.stop.is_null() { 0 } else { unsafe { (*self.stop).viols.fetch_add(1, Ordering::SeqCst) } };
        if n < 200 {
            self.viols.push(Viol { key: key.to_string(), msg, case: self.cur.clone() });
        }
    }
    pub fn failed(&self) -> bool {
        !self.viols.is_empty()
    }
    fn to_json(&self) -> Value {
        json!({
            "evals": self.evals,
            "distinct": self.distinct.iter().collect::<Vec<_>>(),
            "states": self.states.iter().collect::<Vec<_>>(),
            "counts": self.counts,
            "samples": self.samples,
            "viols": self.viols.iter().map(|v| json!([v.key, v.msg, v.case])).collect::<Vec<_>>(),
        })
    }
}
pub struct Ctl {
    pub id: String,
    pub tier: String,
    pub seed: i64,
    pub workers: usize,
    pub base: PathBuf,
    pub t0: Instant,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub states: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub extra: Map<String, Value>,
    pub samples: Vec<Value>,
    pub viols: Vec<Viol>,
    pub broken: Option<String>,
    pub budget: f64,
    pub cut: bool,
    shared: *mut Shared,
}
impl Ctl {
    pub fn new(id: &str, tier: &str) -> Ctl {
        clean_stale();
        let base = PathBuf::from(format!("/dev/shm/mc.{}", std::process::id()));
        std::fs::create_dir_all(&base).unwrap();
        let shared = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut Shared };
        let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
        let workers = std::env::var("MC_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(n);
        Ctl {
            id: id.into(), tier: tier.into(), seed: std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1), workers, base, t0: Instant::now(), evals: 0,
            distinct: HashSet::new(), states: HashSet::new(), counts: BTreeMap::new(), extra: Map::new(), samples: vec![], viols: vec![], broken: None,
            budget: std::env::var("MC_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "quick" { 700.0 } else { 3000.0 }), cut: false, shared,
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == "quick"
    }
    pub fn left(&self) -> f64 {
        self.budget - self.t0.elapsed().as_secs_f64()
    }
    pub fn over(&self) -> bool {
        self.viols.len() >= 40 || self.left() < 0.0 || self.broken.is_some()
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_insert(0) += n;
    }
    pub fn cx(&self, k: usize) -> Cx {
        Cx {
            w: World::new(self.base.join(format!("{}", k))), cur: Value::Null, evals: 0, distinct: HashSet::new(), states: HashSet::new(), counts: BTreeMap::new(), samples: vec![], viols: vec![],
            quick: self.quick(), stop: self.shared,
        }
    }
    /// Run `f` on 0..n in forked workers; results in order. Workers are single-threaded and pinned to one CPU each.
    pub fn par(&mut self, n: usize, f: impl Fn(&mut Cx, usize) -> Vec<u8>) -> Vec<Vec<u8>> {
        let mut res: Vec<Vec<u8>> = vec![vec![]; n];
        if n == 0 || self.broken.is_some() {
            return res;
        }
        let nw = self.workers.min(n);
        unsafe { (*self.shared).next.store(0, Ordering::SeqCst) };
        let limit = self.left().max(1.0);
        let start = Instant::now();
        let mut kids = vec![];
        for k in 0..nw {
            let fd = unsafe { libc::memfd_create(c"res".as_ptr(), 0) };
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0);
            if pid == 0 {
                unsafe {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    let fd = { let h = libc::fcntl(fd, libc::F_DUPFD, 900); libc::close(fd); h };
                    let mut set: libc::cpu_set_t = std::mem::zeroed();
                    let mut all: libc::cpu_set_t = std::mem::zeroed();
                    libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all);
                    let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &all)).collect();
                    libc::CPU_SET(cpus[k % cpus.len()], &mut set);
                    libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                    let mut cx = self.cx(k);
                    let mut out: Vec<u8> = vec![];
                    let mut cut = false;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| loop {
                        let i = (*self.shared).next.fetch_add(1, Ordering::SeqCst);
                        if i >= n as u64 {
                            break;
                        }
                        if (*self.shared).viols.load(Ordering::SeqCst) >= 40 {
                            break;
                        }
                        if start.elapsed().as_secs_f64() > limit {
                            cut = true;
                            break;
                        }
                        let v = f(&mut cx, i as usize);
                        out.extend_from_slice(&(i as u64).to_le_bytes());
                        out.extend_from_slice(&(v.len() as u64).to_le_bytes());
                        out.extend_from_slice(&v);
                    }));
                    let st = serde_json::to_vec(&cx.to_json()).unwrap();
                    wr_fd(fd, &(st.len() as u64).to_le_bytes());
                    wr_fd(fd, &st);
                    wr_fd(fd, &out);
                    let code = if r.is_err() { 3 } else if cut { 4 } else { 0 };
                    if code == 3 {
                        eprintln!("harness panic in case {}", cx.cur);
                    }
                    libc::_exit(code);
                }
            }
            kids.push((pid, fd));
        }
        for (pid, fd) in kids {
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            let code = crate::exec::decode_status(st);
            if code == 4 {
                self.cut = true;
            } else if code != 0 {
                self.broken = Some(format!("worker ended with {}", code));
            }
            let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
            use std::io::{Read, Seek};
            let mut b = vec![];
            f.rewind().unwrap();
            f.read_to_end(&mut b).unwrap();
            if b.len() < 8 {
                self.broken = Some(format!("worker left no result ({})", code));
                continue;
            }
            let l = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
            let v: Value = serde_json::from_slice(&b[8..8 + l]).unwrap();
            self.merge(&v);
            let mut o = 8 + l;
            while o < b.len() {
                let i = u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize;
                let m = u64::from_le_bytes(b[o + 8..o + 16].try_into().unwrap()) as usize;
                res[i] = b[o + 16..o + 16 + m].to_vec();
                o += 16 + m;
            }
        }
        res
    }
    fn merge(&mut self, v: &Value) {
        self.evals += v["evals"].as_u64().unwrap();
        for x in v["states"].as_array().unwrap() {
            self.states.insert(x.as_u64().unwrap());
        }
        for x in v["distinct"].as_array().unwrap() {
            self.distinct.insert(x.as_u64().unwrap());
        }
        for (k, n) in v["counts"].as_object().unwrap() {
            *self.counts.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for s in v["samples"].as_array().unwrap() {
            if self.samples.len() < 8 {
                self.samples.push(s.clone());
            }
        }
        for x in v["viols"].as_array().unwrap() {
            self.viols.push(Viol { key: x[0].as_str().unwrap().into(), msg: x[1].as_str().unwrap().into(), case: x[2].clone() });
        }
    }
    /// Run the property's cases. They are kept in shared memory, which forking does not copy.
    pub fn cases(&mut self, p: &dyn Prop, cases: Vec<Value>) {
        let mut at = vec![0u32];
        let fd = unsafe { libc::memfd_create(c"cases".as_ptr(), 0) };
        let mut buf = vec![];
        let mut total = 0u32;
        for c in &cases {
            let s = serde_json::to_vec(c).unwrap();
            total += s.len() as u32;
            at.push(total);
            buf.extend(s);
            if buf.len() > 1 << 20 {
                wr_fd(fd, &buf);
                buf.clear();
            }
        }
        wr_fd(fd, &buf);
        drop(buf);
        let n = cases.len();
        drop(cases);
        unsafe { libc::malloc_trim(0) };
        if total > 0 {
            let m = unsafe { libc::mmap(std::ptr::null_mut(), total as usize, libc::PROT_READ, libc::MAP_SHARED, fd, 0) };
            assert!(m != libc::MAP_FAILED);
            let all = unsafe { std::slice::from_raw_parts(m as *const u8, total as usize) };
            self.par(n, |cx, i| {
                let c: Value = serde_json::from_slice(&all[at[i] as usize..at[i + 1] as usize]).unwrap();
                cx.cur = c.clone();
                p.case(cx, &c);
                vec![]
            });
            unsafe { libc::munmap(m, total as usize) };
        }
        unsafe { libc::close(fd) };
    }
    pub fn finish(mut self, p: &dyn Prop) -> i32 {
        let _ = std::fs::remove_dir_all(&self.base);
        let root = crate::verif_dir();
        let known: Vec<(String, String)> = std::fs::read_to_string(root.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.trim();
                let r = l.strip_prefix(&format!("known: property={} key=", self.id))?;
                let mut i = r.splitn(2, ' ');
                Some((i.next()?.to_string(), i.next().unwrap_or("").to_string()))
            })
            .collect();
        let mut new = vec![];
        for v in std::mem::take(&mut self.viols) {
            match known.iter().find(|k| k.0 == v.key) {
                Some(_) => {}
                None => new.push(v),
            }
        }
        for k in &known {
            println!("KNOWN-FINDING: property={} {} {}", self.id, k.0, k.1);
        }
        let mut cov = Map::new();
        if p.level() == "model_checking" {
            cov.insert("states".into(), json!(self.counts.get("states").copied().unwrap_or(self.states.len() as u64)));
            cov.insert("transitions".into(), json!(self.counts.get("transitions").copied().unwrap_or(0)));
            cov.insert("traces_validated_against_impl".into(), json!(self.counts.get("traces").copied().unwrap_or(self.evals)));
        }
        cov.insert("evaluations".into(), json!(self.evals));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        cov.insert("rule".into(), json!(p.rule()));
        for (k, v) in &self.counts {
            if !cov.contains_key(k) {
                cov.insert(k.clone(), json!(v));
            }
        }
        for (k, v) in &self.extra {
            cov.insert(k.clone(), v.clone());
        }
        cov.insert("exhaustive_within_bounds".into(), json!(!self.cut && new.is_empty()));
        cov.insert("samples".into(), Value::Array(self.samples.clone()));
        let ev = json!({"property": self.id, "tier": self.tier, "seed": self.seed, "level": p.level(), "coverage": cov, "wall_s": self.t0.elapsed().as_secs_f64(), "violations": new.len()});
        let _ = std::fs::create_dir_all(root.join("evidence"));
        std::fs::write(root.join(format!("evidence/{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
        for v in new.iter().take(5) {
            let _ = std::fs::create_dir_all(root.join("replays"));
            let rp = root.join(format!("replays/{}-{:016x}.json", self.id, h64(&(v.case.to_string(), &v.msg))));
            let _ = std::fs::write(&rp, serde_json::to_string_pretty(&json!({"property": self.id, "key": v.key, "message": v.msg, "case": v.case})).unwrap());
            println!("VIOLATION property={} replay={}", self.id, rp.display());
            println!("  {} [{}] case {}", v.msg, v.key, v.case);
        }
        println!(
            "{} {}: {} executions, {} distinct, {:?}, {} violations, {:.1}s{}",
            self.id, self.tier, self.evals, self.distinct.len(), self.counts, new.len(), self.t0.elapsed().as_secs_f64(), if self.cut { " (CUT SHORT)" } else { "" }
        );
        if !new.is_empty() {
            return 1;
        }
        if let Some(b) = &self.broken {
            eprintln!("machinery failure: {}", b);
            return 3;
        }
        0
    }
}
pub fn clean_stale() {
    for e in std::fs::read_dir("/dev/shm").into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if let Some(p) = n.strip_prefix("mc.") {
            if p.chars().all(|c| c.is_ascii_digit()) && !std::path::Path::new(&format!("/proc/{}", p)).exists() {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}
