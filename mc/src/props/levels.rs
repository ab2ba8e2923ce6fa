//! C23: every compression setting, alone and mixed: the settings in force while builds and patches are made and
//! used never change what they contain.
use super::pack::list;
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::shim;
use serde_json::{json, Value};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

pub struct Levels;

const VAR: &str = "ARTEFACTA_COMPRESSION_LEVEL";
/// "\u{1}.." is a value in hex (not UTF-8), "(unset)" is none.
fn values(all: bool) -> Vec<String> {
    let mut v: Vec<String> = (if all { -140..=40 } else { -8..=24 }).map(|i: i32| i.to_string()).collect();
    let more = [
        "(unset)", "", " ", "1 ", " 1", "+3", "-0", "007", "1.5", "1e3", "0x10", "max", "fast", "--ultra", "١", "1,2", "3\n", "nan", "\u{1}ff", "\u{1}31ff", "-", "+", "9".repeat(300).leak(), "127", "128", "-128", "255", "256", "1000", "-1000", "32767", "-32768", "65536", "-65536",
        "131072", "-131072", "-131073", "2147483647", "-2147483648", "2147483648", "-2147483649", "4294967296", "4294967297", "9223372036854775807", "-9223372036854775808", "18446744073709551616", "99999999999999999999999", "-99999999999999999999999",
    ];
    v.extend(more.iter().map(|s| s.to_string()));
    v
}
fn mixed(q: bool) -> Vec<&'static str> {
    if q {
        vec!["-7", "0", "3", "19", "22", "junk", "(unset)"]
    } else {
        vec!["-2147483648", "-131072", "-7", "-1", "0", "1", "3", "9", "15", "19", "20", "22", "2147483647", "junk", "\u{1}ff", "(unset)"]
    }
}
/// Contents of versions 1, 2, 3: mostly alike, so that patches are used.
fn payload(size: usize, v: usize) -> Vec<u8> {
    let mut c = match size {
        0 => vec![],
        1 => noise(77, 1500),
        2 => b"all the same ".repeat(20_000),
        3 => noise(78, 250_000),
        _ => [noise(79, 140_000), vec![0; 300_000], noise(79, 140_000)].concat(),
    };
    let at = c.len() / 2;
    let tail = c.split_off(at);
    c.extend(noise(v as u64, 24));
    c.extend(tail);
    c
}
fn run(cx: &mut Cx, c: &Value) -> Result<(), (&'static str, String)> {
    let rem = Rem::parse(c["rem"].as_str().unwrap());
    let lv: Vec<&str> = c["levels"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let size = c["size"].as_u64().unwrap() as usize;
    let mut t = Tree::new();
    for v in 1..=3 {
        t.insert(format!("input/{}/data", v), file(payload(size, v)));
        t.insert(format!("input/{}/more/x", v), file(noise(5, 300)));
    }
    cx.w.load(&t);
    // (what to do, which level is in force; "-" removes a local file first)
    let steps: Vec<(Vec<&str>, usize, &str)> = vec![
        (vec!["add-package", "1", "@/input/1"], 0, ""),
        (vec!["add-package", "2", "@/input/2"], 1, ""),
        (vec!["create-patch", "1", "2"], 2, ""),
        (vec!["sync"], 1, ""),
        (vec!["install", "1"], 0, ""),
        // from the patch
        (vec!["install", "2"], 3, "2.tar.zst"),
        (vec!["add-package", "--calc-patch-from", "2", "--upload", "3", "@/input/3"], 4, ""),
        (vec!["install", "3"], 5, "3.tar.zst"),
        // back: patches from what was rebuilt
        (vec!["create-patch", "3", "1"], 0, ""),
        (vec!["install", "1"], 2, "1.tar.zst"),
    ];
    let mut made: Vec<Option<Vec<u8>>> = vec![None; 4];
    for (n, (args, l, rm)) in steps.iter().enumerate() {
        if !rm.is_empty() {
            std::fs::remove_file(cx.w.p("local").join(rm)).map_err(|e| ("gone", e.to_string()))?;
        }
        let mut sp = on(rem, args);
        let level = lv[l % lv.len()];
        sp.env.push((
            VAR.into(),
            match level.strip_prefix('\u{1}') {
                _ if level == "(unset)" => None,
                Some(h) => Some(OsString::from_vec((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect())),
                None => Some(level.into()),
            },
        ));
        sp.timeout = 200;
        let o = cx.w.cli(&sp);
        cx.count("transitions", 1);
        let what = format!("step {} `{}` under {:?}", n, args.join(" "), level);
        if o.code != 0 {
            return Err(("fails", format!("{}: exit status {}: {}", what, o.code, short(&o.err))));
        }
        let s = cx.w.snap(&["local", "remote", "bucket"]);
        if rm.is_empty() && args[0] == "install" || !rm.is_empty() {
            let v = args[1];
            if !matches!(s.get("local/current"), Some(Node::Link(l)) if *l == format!("@/local/{}.tar.zst", v)) {
                return Err(("current", format!("{}: current is {:?}", what, s.get("local/current"))));
            }
        }
        if !rm.is_empty() && !o.ev.iter().any(|e| (e.op == shim::OPENR || e.op == shim::S3) && (e.cls == shim::C_REMOTE || e.cls == shim::C_S3) && e.path.contains(rm)) {
            cx.count("rebuilt", 1);
        }
        // everything there, in both stores, has the content it must have
        for (place, st) in [("local", sub(&s, "local")), ("the remote", rem.view(&s))] {
            for (name, data) in arts(&st) {
                let raw = unz(&data).ok_or(("unreadable", format!("{}: `{}` in {} cannot be decompressed", what, name, place)))?;
                if let Some(v) = name.strip_suffix(".tar.zst").map(|v| v.parse::<usize>().unwrap()) {
                    match &made[v] {
                        Some(m) if *m != raw => return Err(("content", format!("{}: `{}` in {} has other content than when it was packaged", what, name, place))),
                        Some(_) => {}
                        None => {
                            let l = list(&raw).map_err(|e| ("content", format!("{}: `{}`: {}", what, name, e)))?;
                            if l.len() != 2 || l[&b"data".to_vec()].0 != payload(size, v) {
                                return Err(("content", format!("{}: `{}` does not contain what was packaged", what, name)));
                            }
                            made[v] = Some(raw);
                        }
                    }
                }
            }
            for (name, data) in arts(&st) {
                if let Some(p) = name.strip_suffix(".patch.zst") {
                    let (x, y) = p.split_once('-').unwrap();
                    let at = |v: &str| made[v.parse::<usize>().unwrap()].clone().unwrap();
                    if apply(&at(x), &data) != Some(at(y)) {
                        return Err(("patch", format!("{}: `{}` in {} applied to {} does not give {}", what, name, place, x, y)));
                    }
                }
            }
        }
        cx.state(h64(&s));
    }
    Ok(())
}
impl Prop for Levels {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn rule(&self) -> &'static str {
        "a history of 10 commands (package, patch, sync, install by patches, patch what was rebuilt) under every value of the setting (all integers from -8 to 24, thorough -140 to 40, extremes, junk, empty, non-Unicode, unset), and under all triples of 7 (thorough 16) values at different steps; contents of 5 kinds; after every command every artefact in both stores is decompressed (patches: applied) and compared"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cs = vec![];
        for v in values(!q) {
            for size in if q { vec![1, 4] } else { vec![0, 1, 2, 3, 4] } {
                cs.push(json!({"rem": "Fs", "size": size, "levels": [v]}));
            }
        }
        let m = mixed(q);
        for a in &m {
            for b in &m {
                for c in &m {
                    if a == b && b == c {
                        continue;
                    }
                    for size in if q { vec![1] } else { vec![1, 4] } {
                        let rem = if a <= b { "Fs" } else { "S3" };
                        // the steps use levels 0..5: two ways of dealing the three values out
                        cs.push(json!({"rem": rem, "size": size, "levels": [a, b, c]}));
                        if !q {
                            cs.push(json!({"rem": rem, "size": size, "levels": [a, b, b, c, a, c]}));
                        }
                    }
                }
            }
        }
        // the slow ones first
        cs.sort_by_key(|c| std::cmp::Reverse(c["levels"].as_array().unwrap().iter().filter(|l| l.as_str().unwrap().parse::<i64>().map_or(false, |n| n > 16)).count()));
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        let r = run(cx, c);
        cx.eval(Some(h64(&c.to_string())));
        cx.count("traces", 1);
        match r {
            Ok(()) => cx.sample(|| c.clone()),
            Err((k, m)) => cx.fail(k, format!("levels {} (contents {}, {}): {}", c["levels"], c["size"], c["rem"], m)),
        }
    }
}
