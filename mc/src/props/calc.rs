//! C04: a created patch reproduces the new build exactly.
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::shim;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::Arc;

pub struct Calc;

fn bits(n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    let mut last: Vec<Vec<u8>> = v.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|w| [0u8, 1].iter().map(move |c| [&w[..], &[*c]].concat())).collect();
        v.extend(last.clone());
    }
    v
}
const BIG: [usize; 14] = [0, 1, 31, 32, 33, 1000, 4096, 65536, 131_071, 131_072, 131_073, 262_144, 300_000, 1_000_000];
/// Contents by structure: number of kinds x number of sizes.
const KINDS: usize = 9;
fn shape(kind: usize, size: usize) -> Vec<u8> {
    let n = BIG[size];
    let base = noise(5, n);
    match kind {
        0 => base,
        1 => vec![0; n],
        2 => noise(6, n),
        // one byte changed in the middle, at the start, at the end
        3 => {
            let mut b = base;
            for i in [0, n / 2, n.saturating_sub(1)] {
                if let Some(x) = b.get_mut(i) {
                    *x ^= 0x80;
                }
            }
            b
        }
        // something inserted
        4 => [&base[..n / 3], &noise(9, 777), &base[n / 3..]].concat(),
        // something removed
        5 => [&base[..n / 3], &base[n / 2..]].concat(),
        // halves swapped
        6 => [&base[n / 2..], &base[..n / 2]].concat(),
        // repeated
        7 => base[..n / 7].repeat(7),
        // bytes shifted by one: every byte differs a little
        _ => base.iter().map(|b| b.wrapping_add(1)).collect(),
    }
}
/// How a build is stored.
fn pack(c: &[u8], how: usize) -> Vec<u8> {
    match how {
        0 => z(c),
        1 => zl(c, 19),
        // without checksum and size
        2 => {
            let mut e = zstd::stream::write::Encoder::new(vec![], 3).unwrap();
            std::io::Write::write_all(&mut e, c).unwrap();
            e.finish().unwrap()
        }
        // two frames, the first one skippable
        3 => [&[0x50, 0x2a, 0x4d, 0x18, 3, 0, 0, 0, 1, 2, 3][..], &z(&c[..c.len() / 2]), &z(&c[c.len() / 2..])].concat(),
        // long window
        _ => {
            let mut e = zstd::stream::write::Encoder::new(vec![], 1).unwrap();
            e.window_log(27).unwrap();
            e.long_distance_matching(true).unwrap();
            std::io::Write::write_all(&mut e, c).unwrap();
            e.finish().unwrap()
        }
    }
}
fn content_of(v: &Value) -> Vec<u8> {
    match v {
        // [base length, total length]: noise, repeated, with other bytes around the chunk boundaries
        Value::Object(o) => {
            let (k, n) = (o["base"].as_u64().unwrap() as usize, o["len"].as_u64().unwrap() as usize);
            let mut v = noise(5, k).repeat(n / k.max(1) + 1);
            v.truncate(n);
            for i in [100_000_000usize, 200_000_000] {
                for j in i - 3..i + 3 {
                    if let Some(x) = v.get_mut(j) {
                        *x ^= 0x55;
                    }
                }
            }
            v
        }
        Value::String(s) => s.bytes().map(|b| b - b'0').collect(),
        _ => shape(v[0].as_u64().unwrap() as usize, v[1].as_u64().unwrap() as usize),
    }
}
fn create(cx: &mut Cx, c: &Value) {
    let rem = Rem::parse(c["rem"].as_str().unwrap());
    let (x, y) = (c["names"][0].as_str().unwrap_or("1"), c["names"][1].as_str().unwrap_or("2"));
    let (ox, oy) = (content_of(&c["x"]), content_of(&c["y"]));
    let how = c["pack"].as_u64().unwrap_or(0) as usize;
    let (fx, fy) = (pack(&ox, how), pack(&oy, how));
    let mut t = Tree::new();
    let place = c["place"].as_u64().unwrap();
    let put = |t: &mut Tree, v: &str, f: &Vec<u8>, k: u64| {
        let n = b(v).name();
        if k != 1 {
            t.insert(format!("local/{}", n), file(f.clone()));
        }
        if k != 0 {
            t.insert(rem.path(&n), file(f.clone()));
        }
    };
    put(&mut t, x, &fx, place % 3);
    let cmd = c["cmd"].as_str().unwrap();
    let input = format!("@/input/{}.tar.zst", y);
    let args: Vec<&str> = match cmd {
        "create" => {
            put(&mut t, y, &fy, place / 3);
            vec!["create-patch", x, y]
        }
        "add" => {
            t.insert(input[2..].to_string(), file(fy.clone()));
            vec!["add", &input, "--calc-patch-from", x]
        }
        _ => {
            // replaces a build of that version
            put(&mut t, y, &fx, 0);
            t.insert(input[2..].to_string(), file(fy.clone()));
            vec!["add", "--calc-patch-from", x, &input]
        }
    };
    let mut sp = on(rem, &args);
    sp.timeout = 300;
    let (o, s) = run_on(&cx.w, &t, &sp);
    let what = || format!("x = {} ({} bytes), y = {} ({} bytes), stored as {}, place {}: {}", c["x"], ox.len(), c["y"], oy.len(), how, place, args.join(" "));
    cx.eval(Some(h64(&c.to_string())));
    if o.code != 0 {
        return cx.fail("fails", format!("{}: exit status {}: {}", what(), o.code, short(&o.err)));
    }
    let pn = p(x, y).name();
    let new: BTreeSet<String> = arts(&sub(&s, "local")).into_keys().filter(|n| n.ends_with(".patch.zst")).collect();
    if new != [pn.clone()].into() {
        return cx.fail("files", format!("{}: patches in the local store: {:?}", what(), new));
    }
    let pf = bytes(&s, &format!("local/{}", pn)).unwrap().clone();
    match apply(&ox, &pf) {
        Some(r) if r == oy => {}
        r => return cx.fail("wrong", format!("{}: the patch applied to x gives {:?} bytes, not y", what(), r.map(|r| r.len()))),
    }
    // the tool's own way of applying it
    let (a, q) = (cx.w.p("home/a"), cx.w.p("home/q"));
    std::fs::write(&a, &fx).unwrap();
    std::fs::write(&q, &pf[..]).unwrap();
    let r = std::panic::catch_unwind(|| {
        let mut v = vec![];
        artefacta::apply_patch(&a, &q).map_err(|e| e.to_string()).and_then(|mut r| std::io::Read::read_to_end(&mut r, &mut v).map_err(|e| e.to_string())).map(|_| v)
    });
    if !matches!(&r, Ok(Ok(v)) if *v == oy) {
        cx.fail("apply", format!("{}: apply_patch does not give y back", what()));
    }
}
/// Patches that are known, versions that are not, X = Y.
fn other(cx: &mut Cx, c: &Value) {
    let rem = Rem::parse(c["rem"].as_str().unwrap());
    let k = c["k"].as_u64().unwrap() as usize;
    let st = |i: u32| k / 4usize.pow(i) % 4; // nowhere, local, remote, both
    let mut t = Tree::new();
    let (pl, pr) = (zl(&diff(&content("1"), &content("2")), 3), zl(&diff(&content("1"), &content("2")), 7));
    let empty = c["empty"].as_u64().unwrap_or(0);
    for (i, (n, l, r)) in [(b("1").name(), build("1"), build("1")), (b("2").name(), build("2"), build("2")), (p("1", "2").name(), Arc::new(pl.clone()), Arc::new(pr.clone()))].into_iter().enumerate() {
        if st(i as u32) & 1 != 0 {
            t.insert(format!("local/{}", n), file(if i == 2 && empty & 1 != 0 { Arc::new(vec![]) } else { l }));
        }
        if st(i as u32) & 2 != 0 {
            t.insert(rem.path(&n), file(if i == 2 && empty & 2 != 0 { Arc::new(vec![]) } else { r }));
        }
    }
    t.insert("input/2.tar.zst".into(), file(build("2")));
    if let Some(a) = c["occ"].as_array() {
        super::install::occupy(&mut t, a[0].as_str().unwrap(), a[1].as_u64().unwrap() as usize);
    }
    let cmd = c["cmd"].as_str().unwrap();
    let args: Vec<&str> = cmd.split(' ').collect();
    let (o, s) = run_on(&cx.w, &t, &on(rem, &args));
    let what = || format!("{} ({}): {} -> {}", show(&t), rem.name(), cmd, o.code);
    if c["occ"].is_array() {
        // whether it can work or not: success means there is a patch
        let pn = p("1", "2").name();
        cx.eval(if o.code == 0 { Some(h64(&c.to_string())) } else { None });
        match s.get(&format!("local/{}", pn)) {
            Some(Node::File(x, _)) if o.code != 0 || p("1", "2").intact(x) => {}
            _ if o.code != 0 => {}
            x => cx.fail("occupied", format!("{} with {}: succeeded, but {:?} is no patch", what(), c["occ"], x)),
        }
        return;
    }
    let known = |i: u32| st(i) != 0;
    let (l0, l1) = (sub(&t, "local"), sub(&s, "local"));
    let new: Vec<String> = arts(&l1).into_keys().filter(|n| n.ends_with(".patch.zst") && !l0.contains_key(n)).collect();
    if cmd == "create-patch 1 1" || cmd == "create-patch 2 2" || cmd.starts_with("add ") && cmd.ends_with(" 2") {
        cx.eval(Some(h64(&c.to_string())));
        let added = cmd.starts_with("add");
        let left = |t: &Tree| arts(t).into_iter().filter(|(n, _)| !added || *n != "2.tar.zst").collect::<Vec<_>>();
        if o.code == 0 || left(&l0) != left(&l1) || sub(&t, "remote") != sub(&s, "remote") || o.ev.iter().any(|e| e.mutating && e.cls != shim::C_TMP && !added) {
            cx.fail("self", format!("{}: a patch from a version to itself; the store became {}", what(), show(&l1)));
        }
        return;
    }
    let y_known = known(1) || cmd.starts_with("add");
    if !known(0) || !y_known {
        cx.eval(None);
        // a known patch may be used without its builds or not; nothing new of its own may appear
        if o.code == 0 && !known(2) || new.iter().any(|n| *n != p("1", "2").name()) || !new.is_empty() && st(2) == 0 {
            cx.fail("unknown", format!("{}: the builds are not known, created {:?}", what(), new));
        }
        return;
    }
    cx.eval(Some(h64(&c.to_string())));
    if o.code != 0 {
        return cx.fail("fails", format!("{}: {}", what(), short(&o.err)));
    }
    let pn = p("1", "2").name();
    if new.iter().any(|n| *n != pn) {
        return cx.fail("files", format!("{}: created {:?}", what(), new));
    }
    let now = match l1.get(&pn) {
        Some(Node::File(x, _)) => x.clone(),
        _ => return cx.fail("none", format!("{}: there is no patch in the local store", what())),
    };
    let local_ok = st(2) & 1 != 0 && empty & 1 == 0;
    let remote_ok = st(2) & 2 != 0 && empty & 2 == 0;
    if local_ok && *now != pl {
        return cx.fail("kept", format!("{}: the known local patch was replaced", what()));
    }
    if !local_ok && remote_ok && *now != pr {
        return cx.fail("mirrored", format!("{}: the patch known on the remote was not mirrored", what()));
    }
    if !p("1", "2").intact(&now) {
        cx.fail("wrong", format!("{}: the patch does not give 2", what()));
    }
}
impl Prop for Calc {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str {
        "every ordered pair of different contents among all bit strings up to length 4 (thorough 6) and among 9 structural kinds x 14 sizes around block boundaries (quick: same size), x places of the builds x remotes x create-patch / add with calc-patch-from x 5 ways of storing; contents of more than one 100 MB chunk and (thorough) partition; every distribution of known builds and patches (also empty ones), X = Y, unknown builds; non-trivial: a patch is due"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cs = vec![];
        // more than one chunk (100 MB decompressed); more than one partition (100 MB compressed)
        let huge: &[(u64, u64, u64, u64)] = if q {
            &[(100_100_000, 100_100_000, 100_100_000, 100_200_000)]
        } else {
            &[
                (1_000_000, 1_000_000, 1_000_000, 99_999_999),
                (1_000_000, 1_000_000, 1_000_000, 100_000_000),
                (1_000_000, 1_000_000, 1_000_000, 100_000_001),
                (1_000_000, 1_000_000, 1_000_000, 200_000_003),
                (1_000_000, 100_000_001, 1_000_000, 100_000_002),
                (1_000_000, 100_000_001, 7, 1),
                (1, 1, 100_100_000, 100_100_000),
                (1, 3, 100_100_000, 100_100_000),
                (5, 5, 100_100_000, 100_100_000),
                (1_000_000, 1_000_000, 100_100_000, 100_100_000),
                (100_100_000, 100_100_000, 100_100_000, 100_200_000),
                (100_100_000, 101_000_000, 100_100_000, 100_100_000),
            ]
        };
        for (b1, n1, b2, n2) in huge {
            cs.push(json!({"x": {"base": b1, "len": n1}, "y": {"base": b2, "len": n2}, "rem": "Fs", "place": 0, "cmd": "create", "pack": 0}));
        }
        let bs: Vec<String> = bits(if q { 4 } else { 6 }).into_iter().map(|b| b.iter().map(|x| (b'0' + x) as char).collect()).collect();
        for (i, x) in bs.iter().enumerate() {
            for (j, y) in bs.iter().enumerate() {
                if i == j {
                    continue;
                }
                let k = i * 7 + j;
                cs.push(json!({"x": x, "y": y, "rem": (["Fs", "S3"][k % 2]), "place": k % 9, "cmd": "create", "pack": k % 5}));
                if i < 31 && j < 31 {
                    cs.push(json!({"x": x, "y": y, "rem": (["Fs", "S3"][k / 2 % 2]), "place": k % 3, "cmd": (["add", "readd"][k % 2]), "pack": k / 3 % 5}));
                }
            }
        }
        let big = BIG.len() - if q { 1 } else { 0 };
        for k1 in 0..KINDS {
            for k2 in 0..KINDS {
                for s in 0..big {
                    for s2 in 0..big {
                        if (k1, s) == (k2, s2) || q && s != s2 && (k1 != 0 || k2 > 1) {
                            continue;
                        }
                        // equal contents are no two different builds' fault, but nothing to test either
                        let k = k1 + k2 + s + s2;
                        cs.push(json!({"x": [k1, s], "y": [k2, s2], "rem": (["Fs", "S3"][k % 2]), "place": k % 9, "cmd": (["create", "create", "add"][k % 3]), "pack": k % 5}));
                    }
                }
            }
        }
        for place in 0..9 {
            for rem in ["Fs", "S3", "S3Root", "S3Deep"] {
                for names in [["1", "2"], ["a-1", "2"], ["1", "b-2"], ["a.tar", "a"], ["x", "x-y"]] {
                    for cmd in ["create", "add", "readd"] {
                        for pk in 0..5 {
                            if cmd != "create" && place > 2 {
                                continue;
                            }
                            cs.push(json!({"x": [0, 5], "y": [3, 5], "rem": rem, "place": place, "cmd": cmd, "pack": pk, "names": names}));
                        }
                    }
                }
            }
        }
        for rem in ["Fs", "S3"] {
            for k in 0..64 {
                for cmd in ["create-patch 1 2", "create-patch 1 1", "create-patch 2 2", "add @/input/2.tar.zst --calc-patch-from 1", "add @/input/2.tar.zst --calc-patch-from 2"] {
                    for e in 0..4 {
                        cs.push(json!({"k": k, "rem": rem, "cmd": cmd, "empty": e}));
                    }
                }
            }
        }
        // something that is no file has the name of one of them
        for rem in ["Fs", "S3"] {
            for k in 0..64 {
                for cmd in ["create-patch 1 2", "add @/input/2.tar.zst --calc-patch-from 1"] {
                    for n in [b("1").name(), b("2").name(), p("1", "2").name()] {
                        for d in if rem == "Fs" { vec!["local", "remote"] } else { vec!["local"] } {
                            for o in 0..super::install::OCCUPIERS {
                                cs.push(json!({"k": k, "rem": rem, "cmd": cmd, "occ": [format!("{}/{}", d, n), o]}));
                            }
                        }
                    }
                }
            }
        }
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        if c["k"].is_u64() {
            other(cx, c)
        } else {
            create(cx, c)
        }
    }
}
