//! C14: a package contains exactly the packaged files. C15: packaging is reproducible.
use super::names::block_on;
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::unix::ffi::OsStrExt;
use std::sync::Arc;

pub struct Pack(pub &'static str);

/// Relative paths; "\u{1}.." is a hex-coded name that is not UTF-8.
fn paths() -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "b", "A", "a.b", "a-b", "a/b", "d/a", "d/e/f", ".hidden", "..x", "...", "-dash", "new\nline", "sp ace", "back\\slash", "\u{e4}", "e\u{301}/\u{1f980}", "x.tar.zst", "._artefacta-temp-1-0-x.part", "current", "d.e/f", "d/\u{1}ff61", "\u{1}c328",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let l = |n: usize| "n".repeat(n);
    for n in [98, 99, 100, 101, 102, 155, 156, 254, 255] {
        v.push(l(n));
    }
    v.push(format!("{}/{}", l(99), l(1)));
    v.push(format!("{}/{}", l(100), l(100)));
    v.push(format!("{}/{}", l(155), l(99)));
    v.push(format!("{}/{}", l(155), l(100)));
    v.push(format!("{}/{}", l(156), l(101)));
    v.push(vec![l(200); 8].join("/"));
    v.push(vec!["d".to_string(); 120].join("/"));
    v.push(format!("{}\u{e4}", l(99)));
    v
}
const SIZES: [usize; 8] = [0, 1, 511, 512, 513, 1024, 8193, 100_000];
const MODES: [u32; 10] = [0o644, 0o755, 0o600, 0o444, 0o000, 0o777, 0o640, 0o111, 0o4755, 0o1666];

type Files = Vec<(String, Arc<Vec<u8>>, u32)>;
fn mk(path: usize, size: usize, mode: usize) -> (String, Arc<Vec<u8>>, u32) {
    (paths()[path].clone(), Arc::new(noise((path * 31 + size) as u64, SIZES[size])), MODES[mode])
}
fn fits(f: &Files) -> bool {
    f.iter().all(|(p, ..)| f.iter().filter(|(q, ..)| p == q || q.starts_with(&format!("{}/", p))).count() == 1)
}
fn raw(rel: &str) -> Vec<u8> {
    rel.split('/')
        .map(|c| match c.strip_prefix('\u{1}') {
            Some(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>(),
            None => c.as_bytes().to_vec(),
        })
        .collect::<Vec<_>>()
        .join(&b'/')
}
/// What an archive contains: path -> (content, permission bits).
pub fn list(tar: &[u8]) -> Result<BTreeMap<Vec<u8>, (Vec<u8>, u32)>, String> {
    let mut m = BTreeMap::new();
    let mut a = tar::Archive::new(tar);
    for e in a.entries().map_err(|e| e.to_string())? {
        let mut e = e.map_err(|e| format!("broken archive: {}", e))?;
        let p = e.path_bytes().into_owned();
        let show = String::from_utf8_lossy(&p).into_owned();
        if p.first() == Some(&b'/') || p.split(|c| *c == b'/').any(|c| c == b"..") {
            return Err(format!("entry {:?} leaves the directory", show));
        }
        if !e.header().entry_type().is_file() {
            return Err(format!("entry {:?} is of type {:?}", show, e.header().entry_type()));
        }
        let mode = e.header().mode().map_err(|e| e.to_string())? & 0o7777;
        let mut b = vec![];
        e.read_to_end(&mut b).map_err(|e| format!("{:?}: {}", show, e))?;
        if m.insert(p, (b, mode)).is_some() {
            return Err(format!("entry {:?} is there twice", show));
        }
    }
    Ok(m)
}
pub fn compare(got: &BTreeMap<Vec<u8>, (Vec<u8>, u32)>, want: &BTreeMap<Vec<u8>, (Vec<u8>, u32)>) -> Result<(), String> {
    let s = |p: &[u8]| String::from_utf8_lossy(p).chars().take(80).collect::<String>();
    for (p, (b, m)) in want {
        match got.get(p) {
            None => return Err(format!("{:?} is missing; there are {:?}", s(p), got.keys().map(|k| s(k)).take(6).collect::<Vec<_>>())),
            Some((c, _)) if c != b => return Err(format!("{:?} has other content ({} instead of {} bytes)", s(p), c.len(), b.len())),
            Some((_, n)) if n != m => return Err(format!("{:?} has mode {:o} instead of {:o}", s(p), n, m)),
            _ => {}
        }
    }
    match got.keys().find(|k| !want.contains_key(*k)) {
        Some(k) => Err(format!("{:?} was added", s(k))),
        None => Ok(()),
    }
}
fn want(f: &Files) -> BTreeMap<Vec<u8>, (Vec<u8>, u32)> {
    f.iter().map(|(p, b, m)| (raw(p), (b.to_vec(), *m))).collect()
}
/// Things in a directory that are no regular files.
const EXTRAS: [&str; 7] = ["", "empty-dir", "link-file", "link-dir", "dangling", "link-out", "fifo"];
fn extras(w: &World, root: &str, k: usize) {
    let l = |n: &str, t: &str| {
        std::os::unix::fs::symlink(t, w.p(root).join(n)).unwrap();
    };
    match EXTRAS[k] {
        "empty-dir" => std::fs::create_dir_all(w.p(root).join("zz-empty/sub")).unwrap(),
        "link-file" => l("zz-link", "a"),
        "link-dir" => l("zz-link", "d"),
        "dangling" => l("zz-link", "/nowhere"),
        "link-out" => l("zz-link", &w.s("local2")),
        "fifo" => {
            let p = std::ffi::CString::new(w.p(root).join("zz-fifo").as_os_str().as_bytes()).unwrap();
            assert_eq!(unsafe { libc::mkfifo(p.as_ptr(), 0o644) }, 0);
        }
        _ => {}
    }
}
fn put_files(w: &World, root: &str, f: &Files, order: usize) {
    let n = f.len();
    std::fs::create_dir_all(w.p(root)).unwrap();
    let idx: Vec<usize> = match order % 3 {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => (0..n).map(|i| (i + n / 2) % n.max(1)).collect(),
    };
    for i in idx {
        let (p, b, m) = &f[i];
        let mut t = Tree::new();
        t.insert(format!("{}/{}", root, p), Node::File(b.clone(), *m));
        w.put(&t);
        if order >= 3 {
            // something that was there in between
            let mut t = Tree::new();
            t.insert(format!("{}/tmp-{}", root, i), file(b"x".to_vec()));
            w.put(&t);
        }
    }
    if order >= 3 {
        for i in 0..n {
            std::fs::remove_file(w.p(&format!("{}/tmp-{}", root, i))).unwrap();
        }
    }
}
/// The library's packaging function on a directory of the world.
fn lib(cx: &Cx, path: &str, spec: &Spec) -> Result<Vec<u8>, String> {
    let p = cx.w.path_of(path);
    let o = cx.w.call(spec, move |out| match artefacta::package(&p, &mut *out) {
        Ok(()) => 0,
        Err(e) => {
            *out = format!("{:#}", e).into_bytes();
            1
        }
    });
    if o.code == 0 { Ok(o.data) } else { Err(format!("{} {}", String::from_utf8_lossy(&o.data), if o.code > 1 { short(&o.err) } else { String::new() })) }
}
/// add-package through the command line, giving the stored file.
fn tool(cx: &Cx, path: &str, sp: &Spec, ver: &str) -> Result<Vec<u8>, String> {
    let mut sp = sp.clone();
    let base = cmd_spec(&["--local", "@/local", "--remote", "@/remote", "add-package", ver]);
    sp.args = base.args;
    sp.args.push(path.into());
    let o = cx.w.cli(&sp);
    if o.code != 0 {
        return Err(format!("exit status {}: {}", o.code, short(&o.err)));
    }
    std::fs::read(cx.w.p(&format!("local/{}.tar.zst", ver))).map_err(|e| e.to_string())
}
/// Trees of any magnitude: many files, deep ones, large ones.
fn grown(kind: &str, n: usize) -> Files {
    let f = |p: String, seed: usize, size: usize| (p, Arc::new(noise(seed as u64, size)), MODES[seed % MODES.len()]);
    match kind {
        "many" => (0..n).map(|i| f(format!("f{}", i), i, i % 5)).collect(),
        "spread" => (0..n).map(|i| f(format!("d{}/e{}/f{}", i % 7, i % 3, i), i, i * 37 % 1025)).collect(),
        "deep" => (0..n).map(|i| f(format!("{}f", "d/".repeat(i)), i, i)).collect(),
        "deepest" => vec![f(format!("{}f", "d/".repeat(n)), n, 9)],
        "big" => vec![f("big".into(), n, n), f("after".into(), 1, 3)],
        "twice" => vec![("a".into(), Arc::new(noise(4, n)), 0o644), ("b".into(), Arc::new(noise(4, n)), 0o644)],
        "zeros" => vec![("big".into(), Arc::new(vec![0; n]), 0o644), f("after".into(), 1, 3)],
        _ => panic!(),
    }
}
fn grown_menu(q: bool) -> Vec<Value> {
    let mut v = vec![];
    for n in if q { vec![10, 33, 64, 101, 300] } else { vec![10, 17, 33, 64, 65, 101, 128, 257, 300, 1025, 5000] } {
        v.push(json!(["many", n]));
        v.push(json!(["spread", n]));
    }
    for n in [3, 5, 9, 16, 21, 33, 65, 101, 127] {
        v.push(json!(["deep", n]));
        v.push(json!(["deepest", n]));
    }
    v.push(json!(["deepest", 300]));
    v.push(json!(["deepest", 1500]));
    for n in if q { vec![65_535usize, 65_536, 131_073, 1 << 20, (1 << 20) + 1, 4_194_303, 9_000_001] } else { vec![65_535, 65_536, 65_537, 131_071, 131_072, 131_073, 1 << 20, (1 << 20) + 1, 4_194_303, 9_000_001, 17_000_000, 40_000_007] } {
        v.push(json!(["big", n]));
        v.push(json!(["zeros", n]));
    }
    v
}
fn files_of(c: &Value) -> Files {
    if let Some(g) = c["grow"].as_array() {
        return grown(g[0].as_str().unwrap(), g[1].as_u64().unwrap() as usize);
    }
    c["files"].as_array().unwrap().iter().map(|f| mk(f[0].as_u64().unwrap() as usize, f[1].as_u64().unwrap() as usize, f[2].as_u64().unwrap() as usize)).collect()
}
/// Files of sizes that do not fit into 31, 32 or 33 bits (sparse ones).
fn vast_case(cx: &mut Cx, c: &Value) {
    let n = c["vast"].as_u64().unwrap();
    let root = "input/pkg";
    cx.w.reset();
    std::fs::create_dir_all(cx.w.p(root)).unwrap();
    let end: &[u8] = b"the end of it";
    {
        use std::io::{Seek, SeekFrom, Write};
        let mut f = std::fs::File::create(cx.w.p("input/pkg/a")).unwrap();
        f.seek(SeekFrom::Start(n - end.len() as u64)).unwrap();
        f.write_all(end).unwrap();
    }
    std::fs::write(cx.w.p("input/pkg/b"), b"small").unwrap();
    cx.eval(Some(h64(&c.to_string())));
    let what = format!("packaging a file of {} bytes and a small one", n);
    let z = match tool(cx, &format!("@/{}", root), &Spec { timeout: 600, ..Spec::default() }, "7") {
        Ok(z) => z,
        Err(e) => return cx.fail("fails", format!("{}: {}", what, e)),
    };
    let check = || -> Result<(), String> {
        let e = |e: std::io::Error| e.to_string();
        let mut a = tar::Archive::new(zstd::stream::Decoder::new(&z[..]).map_err(e)?);
        let mut names = vec![];
        for x in a.entries().map_err(e)? {
            let mut x = x.map_err(e)?;
            names.push((x.path().map_err(e)?.to_string_lossy().into_owned(), x.size()));
            let (mut at, mut buf) = (0u64, vec![0u8; 1 << 20]);
            let mut tail = vec![];
            loop {
                let k = x.read(&mut buf).map_err(e)?;
                if k == 0 {
                    break;
                }
                tail.extend_from_slice(&buf[k.saturating_sub(64)..k]);
                tail.drain(..tail.len().saturating_sub(64));
                let zeros = (n - end.len() as u64).saturating_sub(at).min(k as u64) as usize;
                if names.len() == 1 && buf[..zeros].iter().any(|c| *c != 0) {
                    return Err(format!("other bytes at {}", at));
                }
                at += k as u64;
            }
            if !(if names.len() == 1 { tail.ends_with(end) && at == n } else { tail == b"small" }) {
                return Err(format!("{:?} has other content ({} bytes)", names.last(), at));
            }
        }
        if names != [("a".to_string(), n), ("b".to_string(), 5)] { Err(format!("it contains {:?}", names)) } else { Ok(()) }
    };
    if let Err(e) = check() {
        cx.fail("vast", format!("{}: {}", what, e));
    }
}
fn content_case(cx: &mut Cx, c: &Value) {
    if c["vast"].is_u64() {
        return vast_case(cx, c);
    }
    let f = files_of(c);
    let how = c["how"].as_str().unwrap();
    cx.w.reset();
    let root = c["root"].as_str().unwrap_or("input/pkg");
    put_files(&cx.w, root, &f, 0);
    extras(&cx.w, root, c["extra"].as_u64().unwrap_or(0) as usize);
    if c["hard"] == 1 {
        std::fs::hard_link(cx.w.p(&format!("{}/{}", root, f[0].0)), cx.w.p(&format!("{}/zz-hard", root))).unwrap();
    }
    let mut want = want(&f);
    if c["hard"] == 1 {
        want.insert(b"zz-hard".to_vec(), (f[0].1.to_vec(), f[0].2));
    }
    let what = || format!("packaging {} ({}, extra {:?})", f.iter().map(|(p, b, m)| format!("{:?} ({} bytes, {:o})", p.chars().take(60).collect::<String>(), b.len(), m)).collect::<Vec<_>>().join(", "), how, EXTRAS[c["extra"].as_u64().unwrap_or(0) as usize]);
    let r = match how {
        "lib" => lib(cx, root, &Spec::default()),
        "tool" => tool(cx, &format!("@/{}", root), &Spec::default(), "7").and_then(|z| unz(&z).ok_or_else(|| "not a zstd file".to_string())),
        "tool-slash" => tool(cx, &format!("@/{}/", root), &Spec::default(), "7").and_then(|z| unz(&z).ok_or_else(|| "not a zstd file".to_string())),
        "tool-tmp" => {
            std::os::unix::fs::symlink(cx.w.p(root), cx.w.p("home/tmp-link")).unwrap();
            // the tool's temporary directory lies in what is packaged
            let sp = Spec { env: vec![("TMPDIR".into(), Some(cx.w.s(c["tmp"].as_str().unwrap_or(root)).into()))], ..Spec::default() };
            tool(cx, &format!("@/{}", root), &sp, "7").and_then(|z| unz(&z).ok_or_else(|| "not a zstd file".to_string()))
        }
        "tool-dot" => {
            let sp = Spec { cwd: root.into(), ..Spec::default() };
            tool(cx, ".", &sp, "7").and_then(|z| unz(&z).ok_or_else(|| "not a zstd file".to_string()))
        }
        "tool-link" => {
            std::os::unix::fs::symlink(cx.w.p(root), cx.w.p("home/pkg-link")).unwrap();
            tool(cx, "@/home/pkg-link", &Spec::default(), "7").and_then(|z| unz(&z).ok_or_else(|| "not a zstd file".to_string()))
        }
        // a single file
        _ => {
            let path = format!("{}/{}", root, f[0].0);
            let name = raw(&f[0].0).rsplit(|c| *c == b'/').next().unwrap().to_vec();
            want = [(name, (f[0].1.to_vec(), f[0].2))].into();
            if how == "file-lib" {
                lib(cx, &path, &Spec::default())
            } else {
                tool(cx, &format!("@/{}", path), &Spec::default(), "7").and_then(|z| unz(&z).ok_or_else(|| "not a zstd file".to_string()))
            }
        }
    };
    cx.eval(if f.is_empty() { None } else { Some(h64(&c.to_string())) });
    let tar = match r {
        Ok(t) => t,
        Err(e) => return cx.fail("fails", format!("{}: {}", what(), e)),
    };
    if let Err(e) = list(&tar).and_then(|l| compare(&l, &want)) {
        return cx.fail("content", format!("{}: {}", what(), e));
    }
    if c["gnu"] == 1 {
        // the same by the system's tar
        let dir = cx.w.p("home/un");
        std::fs::create_dir(&dir).unwrap();
        std::fs::write(cx.w.p("home/x.tar"), &tar).unwrap();
        let s = std::process::Command::new("tar").arg("-xpf").arg(cx.w.p("home/x.tar")).arg("-C").arg(&dir).output();
        if let Ok(s) = s {
            let t = sub(&cx.w.snap(&["home"]), "home/un");
            let got: BTreeMap<_, _> = t.iter().filter_map(|(k, n)| match n { Node::File(b, m) => Some((raw(k), (b.to_vec(), *m))), _ => None }).collect();
            cx.count("unpacked_by_tar", 1);
            if let Err(e) = if s.status.success() { compare(&got, &want) } else { Err(String::from_utf8_lossy(&s.stderr).into_owned()) } {
                cx.fail("tar", format!("{}: unpacked by tar: {}", what(), e));
            }
        }
    }
}
fn set_times(w: &World, root: &str, k: i64) {
    for e in w.snap(&[root]).keys() {
        let p = std::ffi::CString::new([w.root.as_os_str().as_bytes(), b"/", &raw(e)].concat()).unwrap();
        let ts = libc::timespec { tv_sec: 1_000_000 * k + 77, tv_nsec: 5 };
        unsafe { libc::utimensat(libc::AT_FDCWD, p.as_ptr(), [ts, ts].as_ptr(), libc::AT_SYMLINK_NOFOLLOW) };
    }
}
fn chown_all(w: &World, root: &str, id: u32, modes: &Files) {
    for (p, _, m) in modes {
        let p = std::ffi::CString::new([w.root.as_os_str().as_bytes(), b"/", root.as_bytes(), b"/", &raw(p)].concat()).unwrap();
        unsafe {
            libc::lchown(p.as_ptr(), id, id + 1);
            libc::chmod(p.as_ptr(), *m);
        }
    }
}
/// One way of arranging and packaging the same files.
fn arrange(cx: &Cx, f: &Files, v: usize) -> Result<(Vec<u8>, Vec<u8>), String> {
    cx.w.reset();
    let mut sp = Spec::default();
    let mut root = "input/pkg".to_string();
    let (mut order, mut ver, mut arg) = (0, "7".to_string(), None);
    match v {
        0 => {}
        1 => root = "home/some/where/else/deep".into(),
        2 => root = "local2/zz".into(),
        3 => order = 1,
        4 => order = 2,
        5 => order = 3,
        6 => sp.now += 86_400 * 400,
        7 => sp.umask = 0o077,
        8 => sp.umask = 0,
        9 => sp.pid = 17,
        10 => sp.rng = 99,
        11 => ver = "8-rc.2".into(),
        12 => arg = Some(("input".to_string(), "pkg".to_string())),
        13 => arg = Some(("input/pkg".to_string(), ".".to_string())),
        14 => arg = Some(("home".to_string(), "../input/./pkg/".to_string())),
        15..=17 => {}
        18 => sp.env.push(("LANG".into(), Some("de_DE.UTF-8".into()))),
        19 => sp.env.push(("TZ".into(), Some("Asia/Tokyo".into()))),
        20 => root = "input/.hidden dir".into(),
        21 => sp.env.push(("SOURCE_DATE_EPOCH".into(), Some("1".into()))),
        22 => sp.env.push(("RUST_LOG".into(), Some("trace,artefacta=trace".into()))),
        23..=26 => {}
        27 => root = ["home/", &"long-name/".repeat(24), "x"].concat(),
        28 => arg = Some(("home".to_string(), "@/home/to".to_string())),
        29 => sp.cpus = 1,
        30 => sp.cpus = 64,
        31 => sp.uid = 1001,
        32 => {
            for (k, x) in [("HOME", "@"), ("TMPDIR", "@/home"), ("USER", "somebody"), ("LOGNAME", "somebody"), ("CI", "true"), ("PATH", "/bin"), ("PWD", "/nowhere"), ("HOSTNAME", "somewhere"), ("TERM", "xterm"), ("NO_COLOR", "1"), ("COLUMNS", "20")] {
                let x = x.strip_prefix('@').map(|r| cx.w.s(r.trim_start_matches('/'))).unwrap_or(x.to_string());
                sp.env.push((k.into(), Some(x.into())));
            }
        }
        33 => {
            for (k, x) in [("ZSTD_CLEVEL", "19"), ("ZSTD_NBTHREADS", "4"), ("RAYON_NUM_THREADS", "3"), ("TAR_OPTIONS", "--owner=me"), ("LC_ALL", "C"), ("RUST_BACKTRACE", "1")] {
                sp.env.push((k.into(), Some(x.into())));
            }
        }
        34 => sp.now = 1_000,
        35 => sp.env.push(("TMPDIR".into(), Some(cx.w.s(&root).into()))),
        _ => sp.dir_order = (v + 1 - WAYS) as i64,
    }
    put_files(&cx.w, &root, f, order);
    match v {
        15 => set_times(&cx.w, &root, 3),
        23 => set_times(&cx.w, &root, 0),
        24 => set_times(&cx.w, &root, 4_000),
        25 => set_times(&cx.w, &root, -2),
        26 => {
            // the times of the clock itself
            set_times(&cx.w, &root, 1_600);
            sp.now = 1_600_000_077;
        }
        28 => cx.w.put(&[("home/to".to_string(), Node::Link(format!("../{}", root)))].into()),
        16 => chown_all(&cx.w, &root, 1234, f),
        17 => {
            // an earlier run, and another package
            cx.w.put(&[("home/other/f".to_string(), file(b"x".to_vec()))].into());
            tool(cx, "@/home/other", &sp, "6")?;
            tool(cx, &format!("@/{}", root), &sp, "7")?;
        }
        _ => {}
    }
    let raw_tar = lib(cx, &root, &sp).map_err(|e| format!("package: {}", e))?;
    let (cwd, arg) = arg.unwrap_or(("home".to_string(), format!("@/{}", root)));
    sp.cwd = cwd;
    let z = tool(cx, &arg, &sp, &ver).map_err(|e| format!("add-package: {}", e))?;
    Ok((raw_tar, z))
}
const WAYS: usize = 36;
fn way_name(v: usize) -> String {
    ["plain", "elsewhere", "other name", "creation order", "creation order", "files in between", "later", "umask 077", "umask 0", "pid", "hash seed", "version", "relative", "as .", "dots", "times", "owner", "earlier runs", "LANG", "TZ", "hidden dir", "SOURCE_DATE_EPOCH", "RUST_LOG", "times of 1970", "times far in the future", "times before 1970", "times of now", "long location", "by a symlink", "one processor", "64 processors", "another user on another machine", "another environment", "other tools' settings", "the clock of 1970", "the temporary directory inside"]
        .get(v)
        .map(|s| s.to_string())
        .unwrap_or_else(|| format!("directory order {}", v + 1 - WAYS))
}
fn repro_case(cx: &mut Cx, c: &Value) {
    let f = files_of(c);
    let ways = WAYS + c["orders"].as_u64().unwrap() as usize;
    let what = || f.iter().map(|(p, b, m)| format!("{:?} ({} bytes, {:o})", p.chars().take(60).collect::<String>(), b.len(), m)).collect::<Vec<_>>().join(", ");
    let mut first: Option<(Vec<u8>, Vec<u8>)> = None;
    for v in 0..ways {
        cx.eval(Some(h64(&(c.to_string(), v))));
        match arrange(cx, &f, v) {
            Err(e) => return cx.fail("fails", format!("{} ({}): {}", what(), way_name(v), e)),
            Ok(x) => match &first {
                None => first = Some(x),
                Some(y) if *y == x => {}
                Some(y) => {
                    return cx.fail("differs", format!("{}: the {} differs from the plain one when: {}", what(), if y.0 != x.0 { "tar archive" } else { "stored package" }, way_name(v)));
                }
            },
        }
    }
    // a single file, at two places
    if let Some((p, b, m)) = f.first() {
        let name = p.rsplit('/').next().unwrap();
        let mut seen: Option<Vec<u8>> = None;
        for (dir, now) in [("input", 0), ("home/x/y", 1000), ("local2", 5)] {
            cx.w.reset();
            put_files(&cx.w, dir, &vec![(name.to_string(), b.clone(), *m), ("zz-other".to_string(), Arc::new(vec![1]), 0o644)], now as usize % 3);
            let sp = Spec { now: 1_600_000_000 + now, ..Spec::default() };
            cx.eval(None);
            match tool(cx, &format!("@/{}/{}", dir, name), &sp, "7") {
                Err(_) if name.starts_with('\u{1}') => {} // cannot be given on the command line here
                Err(e) => return cx.fail("fails", format!("single file {:?}: {}", name, e)),
                Ok(x) => match &seen {
                    None => seen = Some(x),
                    Some(y) if *y == x => {}
                    _ => return cx.fail("differs-file", format!("single file {:?} packaged in {} differs", name, dir)),
                },
            }
        }
    }
}
impl Prop for Pack {
    fn id(&self) -> &'static str {
        self.0
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str {
        if self.0 == "C14" {
            "every tree of one file over 41 relative paths x 8 sizes x 10 modes; every pair of files; all subsets of small path sets (thorough: triples of all paths); every kind of non-regular entry beside them; packaged by the library and by the tool in several spellings; single files; unpacked by the tar crate and by the system's tar; non-trivial: there is a file"
        } else {
            "every tree of a set, arranged and packaged in 36 ways (location, name, creation order, times (long ago, now, in the future), owner, clock, umask, hash seed, spelling, environment, processors, user and machine, temporary directory, earlier runs) and under every directory order: all archives and stored packages byte-identical; non-trivial: always"
        }
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let np = paths().len();
        let mut cs = vec![];
        let _ = block_on(async {});
        if self.0 == "C14" {
            cs.push(json!({"files": [], "how": "lib"}));
            cs.push(json!({"files": [], "how": "tool"}));
            for p in 0..np {
                for s in 0..SIZES.len() {
                    for m in 0..MODES.len() {
                        if q && s > 2 && m > 2 && (s + m + p) % 3 != 0 {
                            continue;
                        }
                        let utf8 = !paths()[p].contains('\u{1}');
                        cs.push(json!({"files": [[p, s, m]], "how": "lib", "gnu": if s == 2 && m < 3 || s == 0 && m == 1 { 1 } else { 0 }}));
                        if m < 2 || !q {
                            cs.push(json!({"files": [[p, s, m]], "how": "file-lib"}));
                        }
                        if s < 4 && m < 2 {
                            for how in ["tool", "tool-slash", "tool-dot", "tool-link", "tool-tmp", "file-tool"] {
                                if utf8 || how != "file-tool" {
                                    cs.push(json!({"files": [[p, s, m]], "how": how}));
                                }
                            }
                        }
                    }
                }
            }
            for p1 in 0..np {
                for p2 in 0..np {
                    for (s1, s2) in if q { vec![(3, 0), (0, 4)] } else { vec![(3, 0), (0, 4), (1, 1), (6, 5), (0, 0), (7, 2)] } {
                        let f = vec![mk(p1, 0, 0), mk(p2, 0, 0)];
                        if p1 < p2 && fits(&f) {
                            cs.push(json!({"files": [[p1, s1, p1 % 10], [p2, s2, p2 % 10]], "how": "lib"}));
                        }
                    }
                }
            }
            for set in 0..1u32 << 12 {
                let idx: Vec<usize> = (0..12).filter(|i| set >> i & 1 == 1).collect();
                if !fits(&idx.iter().map(|i| mk(*i, 0, 0)).collect()) || q && idx.len() > 4 && set % 5 != 0 {
                    continue;
                }
                let fs: Vec<_> = idx.iter().map(|i| json!([i, (*i + set as usize) % 6, (*i * 3 + set as usize) % 10])).collect();
                cs.push(json!({"files": fs, "how": "lib", "extra": set % 7}));
            }
            for g in grown_menu(q) {
                for how in ["lib", "tool", "tool-tmp"] {
                    cs.push(json!({"grow": g, "how": how}));
                }
            }
            for n in if q { vec![1u64 << 31, (1 << 32) - 1, 1 << 32, (1 << 33) - 1, 1 << 33] } else { vec![(1u64 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) - 1, 1 << 33, (1 << 33) + 1, 1 << 34] } {
                // (first: they take long)
                cs.insert(0, json!({"vast": n}));
            }
            for e in 0..EXTRAS.len() {
                for how in ["lib", "tool"] {
                    for hard in 0..2 {
                        cs.push(json!({"files": [[0, 2, 0], [6, 3, 1]], "how": how, "extra": e, "hard": hard, "gnu": 1}));
                    }
                }
            }
            for (files, tmp) in [(json!([[0, 2, 0], [6, 3, 1]]), "input/pkg/d"), (json!([[6, 3, 1], [7, 7, 1]]), "input/pkg/d/e"), (json!([[10, 7, 0]]), "home/tmp-link"), (json!([[0, 2, 0]]), "input")] {
                cs.push(json!({"files": files, "how": "tool-tmp", "tmp": tmp}));
            }
            for root in ["input/x.tar.zst", "input/.h", "input/a b", "input/...", "home", "home/home/home"] {
                cs.push(json!({"files": [[0, 2, 0], [6, 3, 1]], "how": "tool", "root": root}));
                cs.push(json!({"files": [[0, 2, 0], [6, 3, 1]], "how": "file-tool", "root": root}));
            }
            if !q {
                for p1 in 0..np {
                    for p2 in p1 + 1..np {
                        for p3 in p2 + 1..np {
                            if fits(&vec![mk(p1, 0, 0), mk(p2, 0, 0), mk(p3, 0, 0)]) {
                                cs.push(json!({"files": [[p1, 1 + p2 % 5, p1 % 10], [p2, p3 % 6, p2 % 10], [p3, p1 % 4, 1]], "how": "lib"}));
                            }
                        }
                    }
                }
            }
        } else {
            let orders = if q { 6 } else { 24 };
            cs.push(json!({"files": [], "orders": orders}));
            for p in 0..np {
                cs.push(json!({"files": [[p, p % 5, p % 8]], "orders": 2}));
            }
            for g in grown_menu(q).into_iter().filter(|g| g[1].as_u64().unwrap() < 5000) {
                cs.push(json!({"grow": g, "orders": 2}));
            }
            for n in [200_000, 1 << 20, 3_000_000] {
                cs.push(json!({"grow": ["big", n], "orders": 1}));
                cs.push(json!({"grow": ["twice", n - 7], "orders": 1}));
            }
            cs.push(json!({"grow": ["twice", 700_000], "orders": 1}));
            let pool = [0usize, 1, 2, 3, 4, 6, 7, 8, 12, 15, 16, 20, 23 + 8, 23 + 10];
            let n = pool.len();
            for set in 0..1u32 << n {
                let k = set.count_ones() as usize;
                let take = if q { k == 2 || k == 3 && set % 3 == 0 || k == n || k == 4 && set % 17 == 0 } else { (2..=4).contains(&k) || set % 16 == 0 };
                if !take {
                    continue;
                }
                let idx: Vec<usize> = (0..n).filter(|i| set >> i & 1 == 1).map(|i| pool[i]).collect();
                if !fits(&idx.iter().map(|i| mk(*i, 0, 0)).collect()) {
                    continue;
                }
                let fs: Vec<_> = idx.iter().map(|i| json!([i, (*i + set as usize) % 6, (*i + set as usize) % 8])).collect();
                cs.push(json!({"files": fs, "orders": orders}));
            }
        }
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        if self.0 == "C14" {
            content_case(cx, c)
        } else {
            repro_case(cx, c)
        }
    }
}
