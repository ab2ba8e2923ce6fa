//! Rust view of shim.h (see there).
#![allow(dead_code)]
pub const MAXEV: usize = 6000;
pub const PATH: usize = 160;
pub const C_OUT: u8 = 0;
pub const C_LOCAL: u8 = 1;
pub const C_REMOTE: u8 = 2;
pub const C_TMP: u8 = 3;
pub const C_INPUT: u8 = 4;
pub const C_REPO: u8 = 5;
pub const C_LOCAL2: u8 = 6;
pub const C_HOME: u8 = 7;
pub const C_WORLD: u8 = 8;
pub const C_S3: u8 = 9;
pub const OPENR: u8 = 1;
pub const OPENW: u8 = 2;
pub const CLOSE: u8 = 3;
pub const READ: u8 = 4;
pub const WRITE: u8 = 5;
pub const COPY: u8 = 6;
pub const TRUNC: u8 = 7;
pub const CHMOD: u8 = 8;
pub const SYNC: u8 = 9;
pub const RENAME: u8 = 10;
pub const LINK: u8 = 11;
pub const UNLINK: u8 = 12;
pub const RMDIR: u8 = 13;
pub const MKDIR: u8 = 14;
pub const SYMLINK: u8 = 15;
pub const UTIME: u8 = 16;
pub const STAT: u8 = 17;
pub const OPENDIR: u8 = 18;
pub const READDIR: u8 = 19;
pub const LOCK: u8 = 20;
pub const S3: u8 = 21;
pub const OPN: [&str; 22] = [
    "?", "openr", "openw", "close", "read", "write", "copy", "trunc", "chmod", "sync", "rename", "link", "unlink", "rmdir", "mkdir",
    "symlink", "utime", "stat", "opendir", "readdir", "lock", "s3",
];
pub const P_KILL: i32 = 1;
pub const P_KILLPART: i32 = 2;
pub const P_ERR: i32 = 3;
pub const P_SHORT: i32 = 4;
pub const P_FULL: i32 = 5;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct RawEv {
    pub op: u8,
    pub cls: u8,
    pub mutating: u8,
    pub pad: u8,
    pub err: i32,
    pub size: i64,
    pub ret: i64,
    pub path: [u8; PATH],
    pub path2: [u8; PATH],
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Plan {
    pub at: u32,
    pub kind: i32,
    pub arg: i64,
}
#[repr(C)]
pub struct Slot {
    pub nev: u32,
    pub overflow: u32,
    pub outside: u32,
    pub hit: u32,
    pub nplan: i32,
    pub sched: u32,
    pub sched_mask: u32,
    pub pending: i32,
    pub blocked: i32,
    pub to_ctl: i32,
    pub from_ctl: i32,
    pub pid: i32,
    pub cpus: i32,
    pub uid: i32,
    pub pad: i32,
    pub dir_order: i64,
    pub now: i64,
    pub now_ns: i64,
    pub rng: u64,
    pub plan: [Plan; 4],
    pub ev: [RawEv; MAXEV],
}
extern "C" {
    pub fn shim_attach(slot: *mut Slot, world: *const libc::c_char);
    pub fn shim_thread_on(v: libc::c_int);
    pub fn shim_s3_event(what: *const libc::c_char, size: i64, mutating: libc::c_int, arg: *mut i64) -> libc::c_int;
    pub fn shim_die();
    pub fn shim_set_args(a: *mut *mut libc::c_char, n: libc::c_int) -> libc::c_int;
}
fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev {
    pub op: u8,
    pub cls: u8,
    pub mutating: bool,
    pub err: i32,
    pub size: i64,
    pub ret: i64,
    pub path: String,
    pub path2: String,
}
impl RawEv {
    pub fn decode(&self) -> Ev {
        Ev { op: self.op, cls: self.cls, mutating: self.mutating != 0, err: self.err, size: self.size, ret: self.ret, path: cstr(&self.path), path2: cstr(&self.path2) }
    }
}
impl Ev {
    pub fn show(&self) -> String {
        let mut s = format!("{} {}", OPN[self.op as usize], self.path);
        if !self.path2.is_empty() {
            s += &format!(" {}", self.path2);
        }
        if self.op == WRITE || self.op == READ || self.op == COPY {
            s += &format!(" {}", self.size);
        }
        if self.err != 0 {
            s += &format!(" !{}", self.err);
        }
        s
    }
    /// What must coincide between a run and its baseline up to the injection point.
    pub fn key(&self) -> (u8, u8, &str, &str, i64) {
        (self.op, self.cls, &self.path, &self.path2, if self.op == WRITE || self.op == COPY { self.size } else { 0 })
    }
}
impl Slot {
    pub fn trace(&self) -> Vec<Ev> {
        self.ev[..(self.nev as usize).min(MAXEV)].iter().map(|e| e.decode()).collect()
    }
}
