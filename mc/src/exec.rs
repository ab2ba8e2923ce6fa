//! Worlds (scratch directories) and executions of the code under test in forked, intercepted children.
#![allow(dead_code)]
use crate::s3::S3Cfg;
use crate::shim::{self, Ev, Plan, Slot};
use std::collections::BTreeMap;
use std::ffi::{CString, OsString};
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub const DIRS: [&str; 8] = ["local", "remote", "tmp", "input", "repo", "local2", "home", "bucket"];

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Node {
    File(Arc<Vec<u8>>, u32),
    Link(String), // target, the world's root written as "@"
    Dir,
}
/// Directory contents below the world root: relative path -> node (the standing directories are implied).
pub type Tree = BTreeMap<String, Node>;

pub fn file(b: impl Into<Arc<Vec<u8>>>) -> Node {
    Node::File(b.into(), 0o644)
}
pub fn bytes<'a>(t: &'a Tree, p: &str) -> Option<&'a Arc<Vec<u8>>> {
    match t.get(p) {
        Some(Node::File(b, _)) => Some(b),
        _ => None,
    }
}
/// The part of a tree below `dir`, with paths relative to it.
pub fn sub(t: &Tree, dir: &str) -> Tree {
    let p = format!("{}/", dir);
    t.range(p.clone()..).take_while(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k[p.len()..].to_string(), v.clone())).collect()
}
// Names that are not UTF-8 are kept with invalid bytes written as "%XX" plus a marker.
fn name_enc(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.to_string(),
        Err(_) => {
            let mut s = String::from("\u{1}");
            for c in b {
                s += &format!("{:02x}", c);
            }
            s
        }
    }
}
fn name_dec(s: &str) -> Vec<u8> {
    match s.strip_prefix('\u{1}') {
        Some(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(),
        None => s.as_bytes().to_vec(),
    }
}
pub fn raw_name(b: &[u8]) -> String {
    name_enc(b)
}

pub struct World {
    pub root: PathBuf,
    pub slots: [*mut Slot; 2],
    pub err_fd: [i32; 2],
    pub data_fd: i32,
    /// summary of what was put here last, from which the mood of the runs derives
    salt: std::cell::Cell<u64>,
}
// Moods: circumstances that must not make a difference to anything. Every run has some, depending on what is run on what.
const M_TRACE: u32 = 1; // RUST_LOG=trace
const M_VERBOSE: u32 = 2; // --verbose
const M_ENV: u32 = 4; // the stores are given by environment variables
const M_SWAP: u32 = 8; // --remote before --local
const M_SLASH: u32 = 16; // the local store is given with a slash at its end
const M_PLACE: u32 = 32; // another language, time zone, terminal
const M_HOMELESS: u32 = 64; // no home
const M_ALL: [u32; 7] = [M_TRACE, M_VERBOSE, M_ENV, M_SWAP, M_SLASH, M_PLACE, M_HOMELESS];
#[derive(Clone)]
pub struct Spec {
    pub args: Vec<OsString>,
    pub env: Vec<(String, Option<OsString>)>,
    pub plan: Vec<Plan>,
    pub dir_order: i64,
    pub rng: u64,
    pub now: i64,
    pub pid: i32,
    pub cwd: String,
    pub umask: u32,
    /// number of processors, 0: of the real machine
    pub cpus: i32,
    /// user (and name of the machine), 0: the real ones
    pub uid: i32,
    pub s3: S3Cfg,
    pub sched_mask: u32,
    pub timeout: u32,
    pub mood: Option<u32>,
}
impl Default for Spec {
    fn default() -> Self {
        Spec {
            args: vec![], env: vec![], plan: vec![], dir_order: 0, rng: 1, now: 1_600_000_000, pid: 4242, cwd: "home".into(), umask: 0o022, cpus: 0, uid: 0,
            s3: S3Cfg::default(), sched_mask: 0, timeout: 40, mood: None,
        }
    }
}
pub struct Out {
    pub code: i32,
    pub ev: Vec<Ev>,
    pub outside: bool,
    pub hit: bool,
    pub overflow: bool,
    pub err: String,
    pub data: Vec<u8>,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == 0
    }
}
fn memfd(name: &str) -> i32 {
    let n = CString::new(name).unwrap();
    // kept away from the descriptors the code under test gets
    let fd = unsafe { libc::memfd_create(n.as_ptr(), 0) };
    let hi = unsafe { libc::fcntl(fd, libc::F_DUPFD, 700) };
    unsafe { libc::close(fd) };
    hi
}
fn new_slot() -> *mut Slot {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Slot>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut Slot
    }
}
fn rd_fd(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    unsafe {
        let n = libc::lseek(fd, 0, libc::SEEK_END);
        v.resize(n as usize, 0);
        libc::pread(fd, v.as_mut_ptr() as *mut _, v.len(), 0);
    }
    v
}
pub fn wr_fd(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        assert!(n > 0, "write to memfd");
        b = &b[n as usize..];
    }
}
fn rm_any(p: &Path) {
    let md = match fs::symlink_metadata(p) {
        Ok(m) => m,
        Err(_) => return,
    };
    if md.is_dir() {
        let _ = fs::set_permissions(p, fs::Permissions::from_mode(0o755));
        if let Ok(rd) = fs::read_dir(p) {
            for e in rd.flatten() {
                rm_any(&e.path());
            }
        }
        let _ = fs::remove_dir(p);
    } else {
        let _ = fs::remove_file(p);
    }
}

/// The time of an execution is over: unless the machine has much more to do than this check, it hangs.
extern "C" fn overdue(_: i32) {
    static AGAIN: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    unsafe {
        let mut i: libc::sysinfo = std::mem::zeroed();
        libc::sysinfo(&mut i);
        let busy = i.loads[0] >> 16 > 2 * libc::sysconf(libc::_SC_NPROCESSORS_ONLN) as u64 - 2;
        if busy && AGAIN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 8 {
            libc::alarm(40);
        } else {
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::raise(libc::SIGALRM);
        }
    }
}
impl World {
    pub fn new(root: PathBuf) -> World {
        fs::create_dir_all(&root).unwrap();
        let w = World { root, slots: [new_slot(), new_slot()], err_fd: [memfd("err0"), memfd("err1")], data_fd: memfd("data"), salt: Default::default() };
        w.reset();
        w
    }
    pub fn p(&self, rel: &str) -> PathBuf {
        self.root.join(rel)
    }
    pub fn s(&self, rel: &str) -> String {
        self.root.join(rel).to_str().unwrap().to_string()
    }
    pub fn reset(&self) {
        self.salt.set(0);
        for e in fs::read_dir(&self.root).unwrap().flatten() {
            let n = e.file_name();
            if DIRS.iter().any(|d| n == *d) && e.file_type().unwrap().is_dir() {
                let _ = fs::set_permissions(e.path(), fs::Permissions::from_mode(0o755));
                for f in fs::read_dir(e.path()).unwrap().flatten() {
                    rm_any(&f.path());
                }
            } else {
                rm_any(&e.path());
            }
        }
        for d in DIRS {
            let _ = fs::create_dir(self.root.join(d));
        }
    }
    pub fn put(&self, t: &Tree) {
        let mut salt = self.salt.get();
        for (k, n) in t {
            let size = if let Node::File(b, _) = n { b.len() } else { 0 };
            salt = salt.rotate_left(5) ^ crate::par::h64(&(k, size));
            let p = self.path_of(k);
            if let Some(d) = p.parent() {
                if !d.exists() {
                    fs::create_dir_all(d).unwrap();
                }
            }
            match n {
                Node::File(b, m) => {
                    fs::write(&p, &b[..]).unwrap();
                    if *m != 0o644 {
                        fs::set_permissions(&p, fs::Permissions::from_mode(*m)).unwrap();
                    }
                }
                Node::Link(t) => symlink(self.expand(t), &p).unwrap(),
                Node::Dir => {
                    let _ = fs::create_dir(&p);
                }
            }
        }
        self.salt.set(salt);
    }
    fn mood(&self, spec: &Spec) -> u32 {
        if let Some(m) = spec.mood {
            return m;
        }
        let root = self.root.to_str().unwrap();
        let args: Vec<String> = spec.args.iter().map(|a| a.to_string_lossy().replace(root, "@")).collect();
        let plan: Vec<(u32, i64)> = spec.plan.iter().map(|p| (p.at, p.arg)).collect();
        let h = crate::par::h64(&(self.salt.get(), args, plan));
        M_ALL.iter().enumerate().filter(|(i, _)| h >> (8 + 2 * i) & 3 == 0).map(|(_, m)| m).sum()
    }
    fn moody_args(&self, spec: &Spec, mood: u32) -> Vec<OsString> {
        let mut a = spec.args.clone();
        if a.len() >= 4 && a[0] == "--local" && a[2] == "--remote" {
            if mood & M_SLASH != 0 && !a[1].is_empty() {
                a[1].push("/");
            }
            if mood & M_ENV != 0 {
                a.drain(..4);
            } else if mood & M_SWAP != 0 {
                a[..4].rotate_left(2);
            }
        }
        if mood & M_VERBOSE != 0 && !a.is_empty() {
            a.insert(0, "--verbose".into());
        }
        a
    }
    pub fn expand(&self, t: &str) -> String {
        match t.strip_prefix('@') {
            Some(r) => format!("{}{}", self.root.to_str().unwrap(), r),
            None => t.to_string(),
        }
    }
    pub fn path_of(&self, rel: &str) -> PathBuf {
        let mut p = self.root.clone().into_os_string().into_vec();
        for c in rel.split('/') {
            p.push(b'/');
            p.extend(name_dec(c));
        }
        PathBuf::from(OsString::from_vec(p))
    }
    pub fn load(&self, t: &Tree) {
        self.reset();
        self.put(t);
    }
    /// Everything below the given standing directories.
    pub fn snap(&self, dirs: &[&str]) -> Tree {
        let mut t = Tree::new();
        for d in dirs {
            self.walk(&self.root.join(d), d.to_string(), &mut t);
        }
        t
    }
    /// Everything in the world.
    pub fn snap_all(&self) -> Tree {
        let mut t = Tree::new();
        self.walk(&self.root, String::new(), &mut t);
        for d in DIRS {
            if t.get(d) == Some(&Node::Dir) {
                t.remove(d);
            }
        }
        t
    }
    fn walk(&self, p: &Path, rel: String, t: &mut Tree) {
        let rd = match fs::read_dir(p) {
            Ok(r) => r,
            Err(_) => return,
        };
        let root = self.root.to_str().unwrap();
        for e in rd.flatten() {
            let n = name_enc(e.file_name().as_bytes());
            let r = if rel.is_empty() { n } else { format!("{}/{}", rel, n) };
            let md = match fs::symlink_metadata(e.path()) {
                Ok(m) => m,
                Err(_) => continue,
            };
            if md.is_dir() {
                t.insert(r.clone(), Node::Dir);
                self.walk(&e.path(), r, t);
            } else if md.file_type().is_symlink() {
                let l = fs::read_link(e.path()).map(|l| name_enc(l.as_os_str().as_bytes())).unwrap_or_default();
                let l = if l == root || l.starts_with(&format!("{}/", root)) { format!("@{}", &l[root.len()..]) } else { l };
                t.insert(r, Node::Link(l));
            } else if md.is_file() {
                let data = if md.len() > crate::fix::HUGE { format!("<{} bytes>", md.len()).into_bytes() } else { fs::read(e.path()).unwrap_or_default() };
                t.insert(r, Node::File(Arc::new(data), md.permissions().mode() & 0o7777));
            } else {
                t.insert(r, Node::Link("?special".into()));
            }
        }
    }
    pub fn slot(&self, k: usize) -> &mut Slot {
        unsafe { &mut *self.slots[k] }
    }
    fn prep(&self, k: usize, spec: &Spec) {
        let s = self.slot(k);
        s.nev = 0;
        s.overflow = 0;
        s.outside = 0;
        s.hit = 0;
        s.nplan = spec.plan.len() as i32;
        assert!(spec.plan.len() <= 4);
        for (i, p) in spec.plan.iter().enumerate() {
            s.plan[i] = *p;
        }
        s.sched = 0;
        s.sched_mask = spec.sched_mask;
        s.pending = -1;
        s.blocked = 0;
        s.pid = spec.pid;
        s.cpus = spec.cpus;
        s.uid = spec.uid;
        s.dir_order = spec.dir_order;
        s.now = spec.now;
        s.now_ns = 123_456_789;
        s.rng = spec.rng.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5851_F42D_4C95_7F2D;
        unsafe {
            libc::ftruncate(self.err_fd[k], 0);
            libc::lseek(self.err_fd[k], 0, libc::SEEK_SET);
        }
    }
    /// Start a child that runs `body` as virtual process `k`; returns its pid.
    pub fn spawn(&self, k: usize, spec: &Spec, body: impl FnOnce(&mut Vec<u8>) -> i32 + Send) -> i32 {
        self.prep_spawn(k, spec, body, None)
    }
    fn prep_spawn(&self, k: usize, spec: &Spec, body: impl FnOnce(&mut Vec<u8>) -> i32 + Send, pipes: Option<(i32, i32)>) -> i32 {
        self.prep(k, spec);
        if let Some((to, from)) = pipes {
            let s = self.slot(k);
            s.sched = 1;
            s.to_ctl = to;
            s.from_ctl = from;
        }
        unsafe {
            libc::ftruncate(self.data_fd, 0);
            libc::lseek(self.data_fd, 0, libc::SEEK_SET);
        }
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid > 0 {
            return pid;
        }
        // ---- child
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::signal(libc::SIGALRM, overdue as *const () as libc::sighandler_t);
            libc::alarm(spec.timeout);
            libc::dup2(self.err_fd[k], 2);
            libc::dup2(self.err_fd[k], 1);
            libc::umask(spec.umask);
            // whatever the code under test does: no huge files
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let lim = libc::rlimit { rlim_cur: 256 << 20, rlim_max: 256 << 20 };
            libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
        }
        for (a, _) in std::env::vars_os() {
            std::env::remove_var(a);
        }
        std::env::set_var("PATH", "/usr/bin:/bin");
        std::env::set_var("HOME", self.p("home"));
        std::env::set_var("TMPDIR", self.p("tmp"));
        std::env::set_var("GIT_CONFIG_NOSYSTEM", "1");
        std::env::set_var("ARTEFACTA_COMPRESSION_LEVEL", "1");
        std::env::set_var("AWS_ACCESS_KEY_ID", "k");
        std::env::set_var("AWS_SECRET_ACCESS_KEY", "s");
        let mood = self.mood(spec);
        let real = |a: &OsString| {
            let a = a.as_bytes();
            if a.starts_with(b"@") { [self.root.as_os_str().as_bytes(), &a[1..]].concat() } else { a.to_vec() }
        };
        if mood & M_TRACE != 0 {
            std::env::set_var("RUST_LOG", "trace,artefacta=trace");
        }
        if mood & M_ENV != 0 && spec.args.len() >= 4 && spec.args[0] == "--local" && spec.args[2] == "--remote" {
            std::env::set_var("ARTEFACTA_LOCAL_STORE", OsString::from_vec(real(&spec.args[1])));
            std::env::set_var("ARTEFACTA_REMOTE_STORE", OsString::from_vec(real(&spec.args[3])));
        }
        if mood & M_PLACE != 0 {
            for (k, v) in [("LANG", "ja_JP.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Pacific/Kiritimati"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("CI", "true"), ("COLUMNS", "20")] {
                std::env::set_var(k, v);
            }
        }
        if mood & M_HOMELESS != 0 {
            std::env::remove_var("HOME");
        }
        for (a, v) in &spec.env {
            match v {
                Some(v) => std::env::set_var(a, v),
                None => std::env::remove_var(a),
            }
        }
        let _ = std::env::set_current_dir(self.p(&spec.cwd));
        let mut argv: Vec<*mut libc::c_char> = vec![CString::new("artefacta").unwrap().into_raw()];
        for a in self.moody_args(spec, mood) {
            argv.push(CString::new(real(&a)).unwrap().into_raw());
        }
        if unsafe { shim::shim_set_args(argv.as_mut_ptr(), argv.len() as i32) } != 0 {
            eprintln!("argument vector too small");
            unsafe { libc::_exit(98) };
        }
        crate::s3::configure(&spec.s3, &self.p("bucket"));
        let root = CString::new(self.root.as_os_str().as_bytes()).unwrap();
        let data_fd = self.data_fd;
        let slot = self.slots[k] as usize;
        unsafe { shim::shim_attach(slot as *mut Slot, root.as_ptr()) };
        let code = std::thread::scope(|sc| {
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, || {
                let mut data = vec![];
                let c = body(&mut data);
                unsafe { shim::shim_thread_on(0) };
                (c, data)
            });
            match h.unwrap().join() {
                Ok((c, d)) => {
                    wr_fd(data_fd, &d);
                    c
                }
                Err(_) => 101,
            }
        });
        unsafe { libc::_exit(code) };
    }
    fn status(&self, pid: i32) -> i32 {
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut st, 0) };
            if r == pid {
                break;
            }
        }
        decode_status(st)
    }
    fn collect(&self, k: usize, code: i32) -> Out {
        let s = self.slot(k);
        Out {
            code,
            ev: s.trace(),
            outside: s.outside != 0,
            hit: s.hit != 0,
            overflow: s.overflow != 0,
            err: String::from_utf8_lossy(&rd_fd(self.err_fd[k])).into_owned(),
            data: rd_fd(self.data_fd),
        }
    }
    /// Run a closure in a forked, intercepted child.
    pub fn call(&self, spec: &Spec, body: impl FnOnce(&mut Vec<u8>) -> i32 + Send) -> Out {
        let pid = self.spawn(0, spec, body);
        let c = self.status(pid);
        self.collect(0, c)
    }
    /// Run the real `main` of the command line tool.
    pub fn cli(&self, spec: &Spec) -> Out {
        self.call(spec, |_| real_main())
    }
    /// Convenience: the given command on the standing stores ("@" in front of an argument is the world root).
    pub fn cmd(&self, args: &[&str]) -> Out {
        self.cli(&Spec { args: args.iter().map(OsString::from).collect(), ..Spec::default() })
    }

    /// Run several processes under a scheduler. `choose` is asked before every step with the processes that can
    /// make a step, the current process first if it is among them; it returns which to run. `look` is called after every step.
    pub fn race(&self, specs: &[Spec], mut choose: impl FnMut(usize, &[usize], &World) -> usize, mut look: impl FnMut(&World, usize, usize)) -> (Vec<Out>, usize, bool) {
        let n = specs.len();
        let mut pipes = vec![];
        let mut pids = vec![];
        for k in 0..n {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            unsafe {
                assert_eq!(libc::pipe(a.as_mut_ptr()), 0);
                assert_eq!(libc::pipe(b.as_mut_ptr()), 0);
            }
            // child's ends are moved up so that the descriptors of the code under test stay low
            let up = |fd: i32| unsafe {
                let h = libc::fcntl(fd, libc::F_DUPFD, 710);
                libc::close(fd);
                h
            };
            let to = up(a[1]);
            let from = up(b[0]);
            let others: Vec<(i32, i32)> = pipes.clone();
            let pid = self.prep_spawn(
                k,
                &specs[k],
                move |_| {
                    for (r, w) in others {
                        unsafe {
                            libc::close(r);
                            libc::close(w);
                        }
                    }
                    unsafe {
                        libc::close(a[0]);
                        libc::close(b[1]);
                    }
                    real_main()
                },
                Some((to, from)),
            );
            unsafe {
                libc::close(to);
                libc::close(from);
            }
            pipes.push((a[0], b[1]));
            pids.push(pid);
        }
        // bring every process to its first event (it has done nothing visible before it)
        #[derive(Clone, Copy, PartialEq)]
        enum St {
            Ready,
            Blocked,
            Done(i32),
        }
        let mut st = vec![St::Ready; n];
        let wait = |k: usize, st: &mut Vec<St>, me: &World| {
            let mut b = 0u8;
            let r = loop {
                let r = unsafe { libc::read(pipes[k].0, &mut b as *mut u8 as *mut _, 1) };
                if r >= 0 || std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                    break r;
                }
            };
            if r == 1 {
                st[k] = if me.slot(k).blocked != 0 { St::Blocked } else { St::Ready };
            } else {
                st[k] = St::Done(me.status(pids[k]));
            }
        };
        for k in 0..n {
            wait(k, &mut st, self);
        }
        let mut cur = usize::MAX;
        let mut step = 0;
        let mut deadlock = false;
        loop {
            let mut en: Vec<usize> = (0..n).filter(|k| st[*k] == St::Ready).collect();
            if en.is_empty() {
                let bl: Vec<usize> = (0..n).filter(|k| st[*k] == St::Blocked).collect();
                if bl.is_empty() {
                    break;
                }
                if bl.len() == st.iter().filter(|s| !matches!(s, St::Done(_))).count() && step > 100_000 {
                    deadlock = true;
                }
                if deadlock {
                    for k in bl {
                        unsafe { libc::kill(pids[k], libc::SIGKILL) };
                        wait(k, &mut st, self);
                    }
                    break;
                }
                en = bl;
            }
            if let Some(i) = en.iter().position(|k| *k == cur) {
                en.swap(0, i);
            }
            let c = choose(step, &en, self);
            cur = c;
            let go = b'g';
            unsafe { libc::write(pipes[c].1, &go as *const u8 as *const _, 1) };
            wait(c, &mut st, self);
            // a blocked process may go on once another one has made a step
            for k in 0..n {
                if k != c && st[k] == St::Blocked {
                    st[k] = St::Ready;
                }
            }
            look(self, step, c);
            step += 1;
            if step > 200_000 {
                deadlock = true;
            }
        }
        for (r, w) in &pipes {
            unsafe {
                libc::close(*r);
                libc::close(*w);
            }
        }
        let outs = (0..n).map(|k| self.collect(k, if let St::Done(c) = st[k] { c } else { 997 })).collect();
        (outs, step, deadlock)
    }
}
pub fn decode_status(st: i32) -> i32 {
    if libc::WIFEXITED(st) {
        libc::WEXITSTATUS(st)
    } else {
        1000 + libc::WTERMSIG(st)
    }
}
/// What main may return, turned into the exit status the process would have.
pub trait Exit {
    fn code(self) -> i32;
}
impl Exit for () {
    fn code(self) -> i32 {
        0
    }
}
impl<T: Exit, E: std::fmt::Debug> Exit for Result<T, E> {
    fn code(self) -> i32 {
        match self {
            Ok(x) => x.code(),
            Err(e) => {
                eprintln!("Error: {:?}", e);
                1
            }
        }
    }
}
impl Exit for std::process::ExitCode {
    fn code(self) -> i32 {
        (0..256).find(|c| std::process::ExitCode::from(*c as u8) == self).unwrap_or(1)
    }
}
pub fn real_main() -> i32 {
    crate::real::run()
}
pub fn cmd_spec(args: &[&str]) -> Spec {
    Spec { args: args.iter().map(OsString::from).collect(), ..Spec::default() }
}
