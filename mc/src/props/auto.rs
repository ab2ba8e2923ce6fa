//! C17: auto-patch creates exactly the patches the tags call for.
use super::scen::{repo_tree, repo_with};
use super::tags::{expected, Key};
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub struct Auto;

const TAGS: [&str; 4] = ["v1.0.0", "v1.0.1!", "v1.1.0", "v1.0.10"];
const LAYOUTS: [&str; 11] = ["", "packed", "sub", "blob", "times", "mixed", "orphans", "bare", "times2", "nested", "none"];
const CUR: [&str; 4] = ["v1.1.1", "v1.0.1", "v1.1.0", "v2.0.0"];
fn slice(s: &str) -> Vec<String> {
    s.to_lowercase().split(&['.', '-'][..]).map(String::from).collect()
}
/// Move loose tags (or every other one) into packed-refs.
fn pack(t: &Tree, every: usize) -> Tree {
    let mut seen = 0;
    let mut n = Tree::new();
    let mut lines = vec![];
    for (k, v) in t {
        match (k.strip_prefix("repo/.git/refs/tags/"), v) {
            (Some(name), Node::File(b, _)) if { seen += 1; seen % every == 0 } => lines.push(format!("{} refs/tags/{}\n", String::from_utf8_lossy(b).trim(), name)),
            _ => {
                n.insert(k.clone(), v.clone());
            }
        }
    }
    lines.sort_by(|a, b| a[41..].cmp(&b[41..]));
    n.insert("repo/.git/packed-refs".into(), file(format!("# pack-refs with: sorted \n{}", lines.concat()).into_bytes()));
    n
}
/// A tag that points to something that is not a commit.
fn blob_tag(w: &World, t: &Tree, name: &str) -> Tree {
    w.load(t);
    let r = git2::Repository::open(w.p("repo")).unwrap();
    let id = r.blob(b"not a commit").unwrap();
    r.tag_lightweight(name, &r.find_object(id, None).unwrap(), true).unwrap();
    let t = w.snap(&["repo"]);
    w.reset();
    t
}
struct Set {
    rem: Rem,
    tags: Vec<String>,
    repo: String, // "", "packed", "sub", "blob"
    prefix: String,
    cur: String,
    local: Vec<String>,
    remote: Vec<String>,
    patches: Vec<(String, String)>,
    torn: Vec<String>,
    rng: u64,
}
fn run(cx: &mut Cx, s: &Set) {
    let names: Vec<&str> = s.tags.iter().map(|x| x.as_str()).collect();
    let mut repo = match s.repo.as_str() {
        "times" | "times2" | "orphans" | "nested" => repo_with(&cx.w, &names, &s.repo),
        _ => repo_tree(&cx.w, &names),
    };
    let mut unusable = false;
    match s.repo.as_str() {
        "packed" => repo = pack(&repo, 1),
        "mixed" => repo = pack(&repo, 2),
        "bare" => repo = repo.into_iter().filter_map(|(k, v)| Some((format!("repo/{}", k.strip_prefix("repo/.git/")?), v))).collect(),
        "none" => {
            repo.clear();
            unusable = true;
        }
        "broken" => {
            // the reference database can't be read
            repo = pack(&repo, 1);
            if let Some(Node::File(b, _)) = repo.get("repo/.git/packed-refs") {
                let b = [&b[..], b"garbage\n"].concat();
                repo.insert("repo/.git/packed-refs".into(), file(b));
            }
            unusable = true;
        }
        _ => {}
    }
    if s.repo == "blob" {
        repo = blob_tag(&cx.w, &repo, "signing-key");
    }
    let lb: Vec<Art> = s.local.iter().map(|v| b(v)).chain(s.patches.iter().map(|(x, y)| p(x, y))).collect();
    let rb: Vec<Art> = s.remote.iter().map(|v| b(v)).collect();
    let mut t = store(&lb, &rb, s.rem, None);
    t.extend(repo);
    t.insert("repo/deep/er".into(), Node::Dir);
    // some of the builds are there but can't be read
    for v in &s.torn {
        for k in [format!("local/{}", b(v).name()), s.rem.path(&b(v).name())] {
            if let Some(Node::File(x, _)) = t.get(&k) {
                let x = x[..x.len() / 2].to_vec();
                t.insert(k, file(x));
            }
        }
    }
    let root = if s.repo == "sub" { "@/repo/deep/er" } else { "@/repo" };
    let mut a = vec!["auto-patch", "--repo-root", root];
    if !s.prefix.is_empty() || s.rng % 2 == 0 {
        a.extend(["--prefix", &s.prefix]);
    }
    a.push(&s.cur);
    let mut sp = on(s.rem, &a);
    sp.rng = s.rng;
    sp.dir_order = (s.rng % 3) as i64;
    let (o, f) = run_on(&cx.w, &t, &sp);
    // what is called for
    let target = format!("{}{}", s.prefix, s.cur);
    let known: BTreeSet<&str> = s.local.iter().chain(&s.remote).map(|x| x.as_str()).collect();
    let keys: Vec<Key> = s.tags.iter().map(|x| Key::new(x.trim_end_matches('!'))).collect();
    let exp = expected(&Key::new(&s.cur), &keys.iter().collect::<Vec<_>>());
    let mut want: Vec<Vec<String>> = vec![]; // per selected tag: the patch may be from any of these
    let mut missing = vec![];
    for tags in &exp {
        let mut from: Vec<String> = vec![];
        let mut torn = false;
        for tag in tags {
            let full = format!("{}{}", s.prefix, tag);
            if s.torn.contains(&full) {
                torn = true;
            } else if known.contains(full.as_str()) {
                from.push(full);
            } else {
                from.extend(known.iter().filter(|k| slice(k) == slice(&full)).map(|k| k.to_string()));
            }
        }
        if from.is_empty() || torn {
            missing.push(tags.join("/"));
        } else {
            want.push(from);
        }
    }
    let what = || {
        format!(
            "tags {:?} ({}), builds local {:?} remote {:?} ({}), patches {:?}: auto-patch --prefix {:?} {} -> {}",
            s.tags, s.repo, s.local, s.remote, s.rem.name(), s.patches, s.prefix, s.cur, o.code
        )
    };
    cx.eval(if want.is_empty() { None } else { Some(h64(&cx.cur.to_string())) });
    let before: BTreeSet<String> = arts(&sub(&t, "local")).into_keys().filter(|n| n.ends_with(".patch.zst")).collect();
    let now = arts(&sub(&f, "local"));
    let new: BTreeSet<String> = now.keys().filter(|n| n.ends_with(".patch.zst") && !before.contains(*n)).cloned().collect();
    if unusable {
        if o.code == 0 || !new.is_empty() {
            cx.fail("no-repo", format!("{}: the tags can't be read, but it ended with {} and created {:?}", what(), o.code, new));
        }
        return;
    }
    if s.torn.contains(&target) {
        if o.code == 0 && !exp.is_empty() {
            cx.fail("torn-target", format!("{}: the target's build is torn", what()));
        }
        return;
    }
    if !known.contains(target.as_str()) {
        if o.code == 0 || !new.is_empty() {
            cx.fail("no-target", format!("{}: the target's build is unknown, but it created {:?}", what(), new));
        }
        return;
    }
    let mut all: BTreeSet<String> = BTreeSet::new();
    for from in &want {
        let fits: Vec<&String> = from.iter().filter(|v| now.get(&p(v, &target).name()).map_or(false, |x| p(v, &target).intact(x))).collect();
        if fits.is_empty() {
            return cx.fail("missing-patch", format!("{}: no working patch from {:?}: {}", what(), from, short(&o.err)));
        }
        all.extend(fits.iter().map(|v| p(v, &target).name()));
        if fits.len() > 1 {
            return cx.fail("too-many", format!("{}: patches from all of {:?}", what(), fits));
        }
    }
    if let Some(x) = new.iter().find(|n| !all.contains(*n)) {
        return cx.fail("other-patch", format!("{}: it also created `{}`, wanted {:?}", what(), x, all));
    }
    if (o.code == 0) != missing.is_empty() {
        cx.fail("status", format!("{}: builds are missing for {:?}: {}", what(), missing, short(&o.err)));
    }
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}
impl Prop for Auto {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str {
        "every subset of the tags x every distribution of their builds over {nowhere, local, remote, both} x current versions x prefixes x repository layouts (loose, packed, mixed, bare, worktree-less, sub-directory, a tag that is no commit, nested tags, tags on orphaned and side branches, commits with other times, no repository, refs that cannot be read, longer series) x builds whose names match only up to case and separators x builds that cannot be read back, under several hash seeds; non-trivial: at least one patch is called for"
    }
    fn explore(&self, ctl: &mut Ctl) {
        let q = ctl.quick();
        let mut cs = vec![];
        let places = if q { 3usize } else { 4 };
        for tset in 0..16u32 {
            for ci in 0..CUR.len() {
                if q && ci > 2 {
                    continue;
                }
                for pre in ["", "app-", "v", "v1."] {
                    if q && pre.starts_with('v') && (ci + tset as usize) % 3 != 0 {
                        continue;
                    }
                    for place in 0..places.pow(4) {
                        for rem in if q { &[Rem::Fs, Rem::S3][(place + ci) % 2..][..1] } else { &[Rem::Fs, Rem::S3][..] } {
                            let (mut l, mut r) = (vec![], vec![]);
                            for (i, tg) in TAGS.iter().enumerate() {
                                let v = format!("{}{}", pre, tg.trim_end_matches('!'));
                                match place / places.pow(i as u32) % places {
                                    1 => l.push(v),
                                    2 => r.push(v),
                                    3 => {
                                        l.push(v.clone());
                                        r.push(v)
                                    }
                                    _ => {}
                                }
                            }
                            let target = format!("{}{}", pre, CUR[ci]);
                            if !l.contains(&target) && !r.contains(&target) && place % 7 != 0 {
                                if place % 2 == 0 { l.push(target) } else { r.push(target) }
                            }
                            let tags: Vec<&str> = (0..4).filter(|i| tset >> i & 1 == 1).map(|i| TAGS[i]).collect();
                            let lay = LAYOUTS[(tset as usize + place + ci) % LAYOUTS.len()];
                            cs.push(json!({"rem": rem.name(), "tags": tags, "repo": lay, "prefix": pre, "cur": CUR[ci], "local": l, "remote": r, "rng": place % 5}));
                        }
                    }
                }
            }
        }
        // names that match up to case and separators
        let like = ["rel.1.0.1", "REL-1-0-1", "rel-1.0.1", "rel-1-0.1"];
        for tag in ["rel.1.0.1", "rel-1-0-1", "Rel-1.0.1"] {
            for set in 1..16u32 {
                for loc in [0u32, 15, 5, 10] {
                    for rng in 0..if q { 4 } else { 16 } {
                        let l: Vec<&str> = (0..4).filter(|i| set & loc >> i & 1 == 1).map(|i| like[i]).chain(["rel.1.0.2"]).collect();
                        let r: Vec<&str> = (0..4).filter(|i| set & !loc >> i & 1 == 1).map(|i| like[i]).collect();
                        cs.push(json!({"rem": "Fs", "tags": [tag], "repo": "", "prefix": "", "cur": "rel.1.0.2", "local": l, "remote": r, "rng": rng}));
                        let l2: Vec<String> = l.iter().map(|x| format!("p-{}", x)).collect();
                        let r2: Vec<String> = r.iter().map(|x| format!("p-{}", x)).collect();
                        cs.push(json!({"rem": "S3", "tags": [tag], "repo": "", "prefix": "p-", "cur": "rel.1.0.2", "local": l2, "remote": r2, "rng": rng}));
                    }
                }
            }
        }
        // more of a series, and every layout
        let series = ["v1.0.9", "v1.0.10", "v1.0.2", "v1.1.9", "v1.1.10", "v1.1.11-rc.1", "v0.9.9"];
        for set in 1..1u32 << series.len() {
            if q && set.count_ones() > 4 {
                continue;
            }
            let tags: Vec<&str> = (0..series.len()).filter(|i| set >> i & 1 == 1).map(|i| series[i]).collect();
            for (k, lay) in LAYOUTS.iter().chain(["broken"].iter()).enumerate() {
                let (l, r): (Vec<&str>, Vec<&str>) = series.iter().partition(|x| (x.len() + k) % 2 == 0);
                let l: Vec<&str> = l.into_iter().chain(["v1.1.11"]).collect();
                cs.push(json!({"rem": (["Fs", "S3"][k % 2]), "tags": tags, "repo": lay, "prefix": "", "cur": "v1.1.11", "local": l, "remote": r, "rng": k}));
            }
        }
        // builds that can't be read
        for set in 1..8u32 {
            for t in 1..16u32 {
                for pre in ["", "app-"] {
                    for rem in ["Fs", "S3"] {
                        for known in 0..2 {
                            let f = |v: &str| format!("{}{}", pre, v);
                            let vs = ["v0.9", "v1.0.0", "v1.1.0", "v1.1.1"];
                            let tags: Vec<&str> = (0..3).filter(|i| set >> i & 1 == 1).map(|i| vs[i]).collect();
                            let torn: Vec<String> = (0..4).filter(|i| t >> i & 1 == 1).map(|i| f(vs[i])).collect();
                            let l: Vec<String> = vs.iter().map(|v| f(v)).collect();
                            let r: Vec<String> = vec![];
                            let (l, r) = if known == 0 { (l, r) } else { (vec![f("v1.1.1")], l[..3].to_vec()) };
                            cs.push(json!({"rem": rem, "tags": tags, "repo": "", "prefix": pre, "cur": "v1.1.1", "local": l, "remote": r, "torn": torn, "rng": 0}));
                        }
                    }
                }
            }
        }
        // patches that are already there; builds without the prefix; other tags around
        for known in 0..4u32 {
            for pre in ["", "app-", "v", "app"] {
                let f = |v: &str| format!("{}{}", pre, v);
                let ps: Vec<Vec<String>> = [("v1.1.0", "v1.1.1"), ("v1.0.0", "v1.1.1")].iter().enumerate().filter(|(i, _)| known >> i & 1 == 1).map(|(_, (x, y))| vec![f(x), f(y)]).collect();
                for more in [vec![], vec!["v1.1.0", "v1.0.0", "v1.1.1"], vec!["app-v1.1.0", "app-v1.0.0", "app-v1.1.1"], vec!["app-app-v1.1.0", "v1.1.0-rc.1", "app-v1.1.0-rc.1"]] {
                    let mut l: Vec<String> = [f("v1.1.0"), f("v1.0.0"), f("v1.1.1")].to_vec();
                    for m in more {
                        if !l.iter().any(|x| x == m) {
                            l.push(m.to_string());
                        }
                    }
                    for tags in [vec!["v1.1.0", "v1.0.0"], vec!["v1.1.0", "v1.0.0!", "app-v1.1.0", "app-v1.0.0", "x/v1.1.0", "v1.1.1"], vec!["v1.1.0-rc.1", "v1.1.0", "v1.0.0"]] {
                        cs.push(json!({"rem": "Fs", "tags": tags, "repo": "", "prefix": pre, "cur": "v1.1.1", "local": l, "remote": [], "patches": ps, "rng": known}));
                    }
                }
            }
        }
        ctl.cases(self, cs);
    }
    fn case(&self, cx: &mut Cx, c: &Value) {
        let s = Set {
            rem: Rem::parse(c["rem"].as_str().unwrap()), tags: strs(&c["tags"]), repo: c["repo"].as_str().unwrap().into(), prefix: c["prefix"].as_str().unwrap().into(), cur: c["cur"].as_str().unwrap().into(),
            local: strs(&c["local"]), remote: strs(&c["remote"]), patches: c["patches"].as_array().map(|a| a.iter().map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string())).collect()).unwrap_or_default(),
            torn: strs(&c["torn"]),
            rng: c["rng"].as_u64().unwrap(),
        };
        run(cx, &s);
    }
}
