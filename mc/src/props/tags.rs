//! C16: tag selection against a reference model, on every small set of tags over several grids.
use crate::par::*;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Tags;

fn cross(parts: &[&[&str]], seps: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = parts[0].iter().map(|x| x.to_string()).collect();
    let mut all = v.clone();
    for p in &parts[1..] {
        v = v.iter().flat_map(|x| seps.iter().flat_map(move |s| p.iter().map(move |y| format!("{}{}{}", x, s, y)))).collect();
        all.extend(v.clone());
    }
    all
}
/// The grids: tags (also the current versions), largest sets in the quick tier and in the thorough one.
fn grid(g: usize) -> (Vec<String>, usize, usize) {
    match g {
        // numbers around digit-count boundaries, two and one components
        0 => (cross(&[&["0", "1", "2", "9", "10", "11", "99", "100", "x"], &["0", "1", "2", "9", "10", "11", "99", "100", "x"]], &["."]), 2, 3),
        // three components behind a text prefix
        1 => (cross(&[&["v"], &["0", "1", "2", "10"], &["0", "1", "9", "10"], &["0", "9", "10"]], &["."]), 2, 3),
        // letter case and separators
        2 => (cross(&[&["a", "A"], &["1", "2"], &["9", "10", "11"]], &[".", "-"]), 3, 3),
        // four components, both separators
        3 => (cross(&[&["r1"], &["0", "1"], &["0", "1"], &["1", "2"]], &[".", "-"]), 2, 3),
        // large numbers, leading zeros
        4 => (
            cross(
                &[&["v"], &["0", "1", "01", "00", "7", "8", "07", "08", "09", "9", "10", "010", "4294967295", "4294967296", "4294967297", "4294967298", "20200629123455", "20200629123456", "18446744073709551616", "18446744073709551615", "12345678901234567890123", "12345678901234567890122"], &["1"]],
                &["."],
            ),
            2,
            3,
        ),
        // pre-releases and text, numbers with letters behind them
        5 => (
            ["v1.0.0", "v1.0.0-rc.1", "v1.0.0-rc.2", "v1.0.0-rc.9", "v1.0.0-rc.10", "v1.0.0-RC.11", "v1.0.0-rc1", "v1.0.0-rc2", "v1.0.0-rc10", "v1.0.0-beta.3", "v1.0.1", "v1.0.1b", "v1.0.10", "v1.0.9a", "v1.0.10a", "v1.0.2", "v1.0.x", "v1.0.X", "v1.0", "v1", "v1.", "v1..0", "v1.-1", "v1.0.", ".1", "-1.0", "", "v", "1", "0", "2.0.0", "1.99.9", "v1.1.0", "v1.1", "v1.2.0", "garbage", "V1-1-0", "release-1.0.1", "release.1.0.0", "Release-1-0-9", "é1.1", "É1.0", "v1.+0", "v1.0.+1", "v+1.0.0", "v1.0.-1", "v1.0.１", "v1.0.1_0", "v1.0. 1", "v1.0.0x1"]
                .iter().map(|s| s.to_string()).collect(),
            3, 4,
        ),
        // all words over small alphabets
        _ => {
            let al: &[&str] = if g == 6 { &["0", "1", "2", ".", "-", "a", "A"] } else { &["1", "2", "+", ".", "_"] };
            let mut v = vec![String::new()];
            let mut last = v.clone();
            for _ in 0..3 {
                last = last.iter().flat_map(|w| al.iter().map(move |c| format!("{}{}", w, c))).collect();
                v.extend(last.clone());
            }
            (v, if g == 6 { 1 } else { 2 }, 2)
        }
    }
}
const GRIDS: usize = 8;

// ---- reference
fn slice(s: &str) -> Vec<String> {
    s.to_lowercase().split(&['.', '-'][..]).map(String::from).collect()
}
fn digits(s: &str) -> &str {
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0" } else { t }
}
fn is_num(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}
/// Decimal predecessor without leading zeros; None for anything but a number > 0.
fn pred(s: &str) -> Option<String> {
    if !is_num(s) || digits(s) == "0" {
        return None;
    }
    let mut d: Vec<u8> = digits(s).bytes().collect();
    let mut i = d.len() - 1;
    while d[i] == b'0' {
        d[i] = b'9';
        i -= 1;
    }
    d[i] -= 1;
    Some(digits(&String::from_utf8(d).unwrap()).to_string())
}
#[derive(Clone, PartialEq, Eq, Debug)]
enum Chunk {
    Num(usize, String),
    Ch(char),
}
fn chunks(s: &str) -> Vec<Chunk> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].is_ascii_digit() {
            let j = (i..c.len()).find(|j| !c[*j].is_ascii_digit()).unwrap_or(c.len());
            let t: String = c[i..j].iter().collect();
            let t = digits(&t).to_string();
            v.push(Chunk::Num(t.len(), t));
            i = j;
        } else {
            v.push(Chunk::Ch(c[i]));
            i += 1;
        }
    }
    v
}
fn cmp_chunk(a: &Chunk, b: &Chunk) -> Ordering {
    match (a, b) {
        (Chunk::Num(l, x), Chunk::Num(m, y)) => (l, x).cmp(&(m, y)),
        (Chunk::Ch(x), Chunk::Ch(y)) => x.cmp(y),
        (Chunk::Num(..), Chunk::Ch(y)) => '5'.cmp(y),
        (Chunk::Ch(x), Chunk::Num(..)) => x.cmp(&'5'),
    }
}
fn cmp_list<T>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> Ordering) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        let o = f(x, y);
        if o != Ordering::Equal {
            return o;
        }
    }
    a.len().cmp(&b.len())
}
pub struct Key {
    name: String,
    comps: Vec<String>,
    nat: Vec<Vec<Chunk>>,
}
impl Key {
    pub fn new(s: &str) -> Key {
        let comps = slice(s);
        let nat = comps.iter().map(|c| chunks(c)).collect();
        Key { name: s.to_string(), comps, nat }
    }
}
fn nat(a: &Key, b: &Key) -> Ordering {
    cmp_list(&a.nat, &b.nat, |x, y| cmp_list(x, y, cmp_chunk))
}
/// For every place of the version (last first) that calls for a predecessor: the names that may be selected (equally new ones).
pub fn expected<'a>(cur: &Key, tags: &[&'a Key]) -> Vec<Vec<&'a str>> {
    let mut out = vec![];
    for pos in (0..cur.comps.len()).rev() {
        let want = match pred(&cur.comps[pos]) {
            Some(w) => w,
            None => continue,
        };
        let mut best: Vec<&Key> = vec![];
        for t in tags {
            if t.comps.len() <= pos || t.comps[..pos] != cur.comps[..pos] || !is_num(&t.comps[pos]) || digits(&t.comps[pos]) != want {
                continue;
            }
            match best.first().map(|b| nat(t, b)) {
                None | Some(Ordering::Greater) => best = vec![t],
                Some(Ordering::Equal) => best.push(t),
                _ => {}
            }
        }
        if !best.is_empty() {
            let mut n: Vec<&str> = best.iter().map(|k| k.name.as_str()).collect();
            n.sort();
            n.dedup();
            out.push(n);
        }
    }
    out
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}
fn call(cur: &str, tags: &[String]) -> Result<Vec<String>, String> {
    match catch_unwind(AssertUnwindSafe(|| artefacta::git::find_tags_to_patch(cur, tags))) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("error: {}", e)),
        Err(_) => Err("panic".into()),
    }
}
fn check(cx: &mut Cx, cur: &Key, set: &[&Key], pm: &[Vec<usize>], exp_set: &[&Key]) -> bool {
    let exp = expected(cur, exp_set);
    let mut first: Option<Vec<String>> = None;
    for p in pm {
        let tags: Vec<String> = p.iter().map(|i| set[*i].name.clone()).collect();
        let got = match call(&cur.name, &tags) {
            Ok(g) => g,
            Err(e) => {
                cx.fail("error", format!("find_tags_to_patch({:?}, {:?}): {}", cur.name, tags, e));
                return false;
            }
        };
        cx.evals += 1;
        let fits = got.len() == exp.len() && got.iter().zip(&exp).all(|(g, e)| e.contains(&g.as_str()));
        if !fits {
            cx.fail("selection", format!("find_tags_to_patch({:?}, {:?}) = {:?}, expected {:?}", cur.name, tags, got, exp));
            return false;
        }
        match &first {
            None => first = Some(got),
            Some(f) if *f != got => {
                cx.fail("order", format!("find_tags_to_patch({:?}, ..) depends on the order of the tags: {:?} gives {:?}, another order {:?}", cur.name, tags, got, f));
                return false;
            }
            _ => {}
        }
    }
    if !exp.is_empty() {
        cx.count("selecting", 1);
        let key = h64(&(&cur.name, set.iter().map(|k| &k.name).collect::<Vec<_>>()));
        if cx.distinct.len() < 20_000 {
            cx.distinct.insert(key);
        }
    }
    true
}
impl Prop for Tags {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str {
        "every set of up to k tags of each grid (k as listed), in every order and with an element listed twice, for every current version of the grid, compared with a reference model; non-trivial (distinct, counted up to 20000 per worker): at least one tag is selected"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let mut cs = vec![];
        let mut info = vec![];
        for g in 0..GRIDS {
            let (v, kq, kt) = grid(g);
            let k = if ctl.quick() { kq } else { kt };
            info.push(json!({"grid": g, "tags": v.len(), "largest_set": k}));
            for c in 0..v.len() {
                cs.push(json!({"grid": g, "cur": c, "k": k}));
            }
            // other currents than the grid's
            for c in ["v1.0.1", "IL40.2.19", "il40-2-19", "1", "", "x.1.1.1.1.1", "V1.0.10"] {
                cs.push(json!({"grid": g, "name": c, "k": k.min(2)}));
            }
        }
        ctl.extra.insert("grids".into(), json!(info));
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        let (v, ..) = grid(c["grid"].as_u64().unwrap() as usize);
        let keys: Vec<Key> = v.iter().map(|s| Key::new(s)).collect();
        let own;
        let cur = match c["name"].as_str() {
            Some(n) => {
                own = Key::new(n);
                &own
            }
            None => &keys[c["cur"].as_u64().unwrap() as usize],
        };
        let k = c["k"].as_u64().unwrap() as usize;
        let pm: Vec<Vec<Vec<usize>>> = (0..=k).map(perms).collect();
        let n = keys.len();
        if !check(cx, cur, &[], &pm[0], &[]) {
            return;
        }
        for i in 0..n {
            let s = [&keys[i]];
            if !check(cx, cur, &s, &[vec![0], vec![0, 0]], &s) {
                return;
            }
            for j in i + 1..n {
                if k < 2 {
                    break;
                }
                let s = [&keys[i], &keys[j]];
                if !check(cx, cur, &s, &pm[2], &s) || !check(cx, cur, &s, &[vec![0, 1, 0], vec![1, 0, 1]], &s) {
                    return;
                }
                for l in j + 1..n {
                    if k < 3 {
                        break;
                    }
                    let s = [&keys[i], &keys[j], &keys[l]];
                    if !check(cx, cur, &s, &pm[3], &s) {
                        return;
                    }
                    for m in l + 1..n {
                        if k < 4 {
                            break;
                        }
                        let s = [&keys[i], &keys[j], &keys[l], &keys[m]];
                        if !check(cx, cur, &s, &pm[4], &s) {
                            return;
                        }
                    }
                }
            }
        }
    }
}
