//! Explicit-state search over store states: states are the contents of the world, transitions are real commands
//! (and a few environment moves), every transition is executed by the real code.
use crate::exec::*;
use crate::fix::*;
use crate::par::*;
use crate::s3::S3Cfg;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Move {
    /// command line after the store options
    Cmd(Vec<String>),
    /// environment: remove a world path ("local/1.tar.zst", "current", ...)
    Rm(String),
    /// environment: put a file there
    Put(String, Node),
}
pub fn cmd(s: &str) -> Move {
    Move::Cmd(s.split(' ').map(String::from).collect())
}
impl Move {
    pub fn show(&self) -> String {
        match self {
            Move::Cmd(a) => a.join(" "),
            Move::Rm(p) => format!("[rm {}]", p),
            Move::Put(p, n) => format!("[put {} {}]", p, match n { Node::File(b, _) => format!("{}B", b.len()), Node::Link(l) => format!("->{}", l), Node::Dir => "dir".into() }),
        }
    }
    pub fn is_cmd(&self) -> bool {
        matches!(self, Move::Cmd(_))
    }
    pub fn spec(&self, rem: Rem, page: usize) -> Option<Spec> {
        match self {
            Move::Cmd(a) => {
                let mut s = on(rem, &a.iter().map(|x| x.as_str()).collect::<Vec<_>>());
                s.s3 = S3Cfg { page, ..S3Cfg::default() };
                Some(s)
            }
            _ => None,
        }
    }
    pub fn env(&self, t: &mut Tree) {
        match self {
            Move::Rm(p) => {
                t.remove(p);
            }
            Move::Put(p, n) => {
                t.insert(p.clone(), n.clone());
            }
            _ => {}
        }
    }
}
pub fn enc_tree(t: &Tree) -> Vec<u8> {
    let mut v = vec![];
    let s = |v: &mut Vec<u8>, b: &[u8]| {
        v.extend_from_slice(&(b.len() as u32).to_le_bytes());
        v.extend_from_slice(b);
    };
    for (k, n) in t {
        s(&mut v, k.as_bytes());
        match n {
            Node::File(b, m) => {
                v.push(0);
                v.extend_from_slice(&m.to_le_bytes());
                s(&mut v, b);
            }
            Node::Link(l) => {
                v.push(1);
                s(&mut v, l.as_bytes());
            }
            Node::Dir => v.push(2),
        }
    }
    v
}
pub fn dec_tree(b: &[u8]) -> Tree {
    let mut t = Tree::new();
    let mut o = 0;
    let s = |o: &mut usize| {
        let n = u32::from_le_bytes(b[*o..*o + 4].try_into().unwrap()) as usize;
        *o += 4 + n;
        b[*o - n..*o].to_vec()
    };
    while o < b.len() {
        let k = String::from_utf8(s(&mut o)).unwrap();
        let kind = b[o];
        o += 1;
        let n = match kind {
            0 => {
                let m = u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
                o += 4;
                Node::File(Arc::new(s(&mut o)), m)
            }
            1 => Node::Link(String::from_utf8(s(&mut o)).unwrap()),
            _ => Node::Dir,
        };
        t.insert(k, n);
    }
    t
}
pub struct St {
    pub tree: Tree,
    pub path: Vec<u16>,
}
pub type Judge<'a> = dyn Fn(&mut Cx, &Tree, &Move, Option<&Out>, &Tree) + 'a;

/// One step of the real thing.
pub fn step(cx: &mut Cx, t: &Tree, m: &Move, rem: Rem) -> (Option<Out>, Tree) {
    match m.spec(rem, 0) {
        Some(sp) => {
            let (o, t2) = run_on(&cx.w, t, &sp);
            (Some(o), t2)
        }
        None => {
            let mut t2 = t.clone();
            m.env(&mut t2);
            (None, t2)
        }
    }
}
/// Breadth-first search from `init` to the given depth; `keep` projects a state to what identifies it.
pub fn bfs(ctl: &mut Ctl, tag: &str, init: &Tree, menu: &[Move], rem: Rem, depth: usize, max: usize, judge: &Judge) {
    let mut seen: HashSet<u64> = HashSet::new();
    let mut level = vec![St { tree: init.clone(), path: vec![] }];
    seen.insert(h64(init));
    let mut done = 0;
    for d in 0..depth {
        if level.is_empty() || ctl.over() {
            break;
        }
        let (lv, sn) = (&level, &seen);
        let res = ctl.par(level.len(), |cx, i| {
            let st = &lv[i];
            let mut out = vec![];
            let mut mine = HashSet::new();
            for (k, m) in menu.iter().enumerate() {
                let mut p: Vec<u64> = st.path.iter().map(|x| *x as u64).collect();
                p.push(k as u64);
                cx.cur = json!({"bfs": tag, "rem": rem.name(), "path": p});
                let (o, t2) = step(cx, &st.tree, m, rem);
                judge(cx, &st.tree, m, o.as_ref(), &t2);
                cx.count("transitions", 1);
                if m.is_cmd() {
                    cx.count("traces", 1);
                }
                let h = h64(&t2);
                cx.eval(if t2 != st.tree { Some(h64(&(h64(&st.tree), k))) } else { None });
                if !sn.contains(&h) && mine.insert(h) {
                    let e = enc_tree(&t2);
                    out.extend_from_slice(&h.to_le_bytes());
                    out.extend_from_slice(&(k as u32).to_le_bytes());
                    out.extend_from_slice(&(e.len() as u32).to_le_bytes());
                    out.extend_from_slice(&e);
                }
            }
            out
        });
        let mut next = vec![];
        for (i, b) in res.iter().enumerate() {
            let mut o = 0;
            while o < b.len() {
                let h = u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
                let k = u32::from_le_bytes(b[o + 8..o + 12].try_into().unwrap());
                let n = u32::from_le_bytes(b[o + 12..o + 16].try_into().unwrap()) as usize;
                if seen.insert(h) {
                    let mut path = level[i].path.clone();
                    path.push(k as u16);
                    next.push(St { tree: dec_tree(&b[o + 16..o + 16 + n]), path });
                }
                o += 16 + n;
            }
        }
        done = d + 1;
        level = next;
        if seen.len() > max {
            break;
        }
    }
    ctl.count("states", seen.len() as u64);
    ctl.extra.insert(format!("depth_{}_{}", tag, rem.name()), json!(done));
    ctl.extra.insert(format!("frontier_left_{}_{}", tag, rem.name()), json!(level.len()));
    if let Some(s) = level.last() {
        let p: Vec<String> = s.path.iter().map(|k| menu[*k as usize].show()).collect();
        ctl.samples.push(json!({"search": tag, "remote": rem.name(), "history": p}));
    }
}
/// Re-run the path of a case, judging every step.
pub fn replay(cx: &mut Cx, init: &Tree, menu: &[Move], case: &Value, judge: &Judge) {
    let rem = Rem::parse(case["rem"].as_str().unwrap());
    let mut t = init.clone();
    for k in case["path"].as_array().unwrap() {
        let m = &menu[k.as_u64().unwrap() as usize];
        let (o, t2) = step(cx, &t, m, rem);
        judge(cx, &t, m, o.as_ref(), &t2);
        t = t2;
    }
}
