mod inject;
mod install;
mod sync;
mod moving;
mod vanish;
mod own;
mod confine;
mod s3diff;
mod tags;
mod calc;
mod long;
mod s3ver;
mod race;
mod pack;
mod names;
mod auto;
mod partial;
mod adding;
mod levels;
mod scen;
use crate::fix::*;
use crate::par::*;
use std::path::PathBuf;

pub fn get(id: &str) -> Box<dyn Prop> {
    match id {
        "C04" => Box::new(calc::Calc),
        "C05" => Box::new(inject::Inject("C05")),
        "C06" => Box::new(inject::Inject("C06")),
        "C07" => Box::new(inject::Inject("C07")),
        "C08" => Box::new(inject::Inject("C08")),
        "C01" => Box::new(install::Install("C01")),
        "C02" => Box::new(install::Install("C02")),
        "C03" => Box::new(install::Install("C03")),
        "C09" => Box::new(race::Race),
        "C18" => Box::new(s3ver::S3Ver),
        "C22" => Box::new(partial::Partial),
        "C21" => Box::new(adding::Adding),
        "C23" => Box::new(levels::Levels),
        "C20" => Box::new(long::Long),
        "C10" => Box::new(sync::Sync),
        "C11" => Box::new(own::Own),
        "C13" => Box::new(confine::Confine),
        "C16" => Box::new(tags::Tags),
        "C17" => Box::new(auto::Auto),
        "C12" => Box::new(names::Names),
        "C14" => Box::new(pack::Pack("C14")),
        "C15" => Box::new(pack::Pack("C15")),
        "C24" => Box::new(moving::Moving),
        "C19" => Box::new(s3diff::S3Diff),
        _ => panic!("unknown property {}", id),
    }
}
/// Developer's entry: run one command in a small world and print what happened.
pub fn try_it(a: &[&str]) -> i32 {
    let w = crate::exec::World::new(PathBuf::from(format!("/dev/shm/mc.{}", std::process::id())));
    if a[0] == "scen" {
        // one of the catalogue, and optionally a fault at operation N
        let s = scen::scenarios(&w).iter().find(|s| s.name == a[1]).unwrap().clone();
        let mut sp = s.spec();
        if let Some(n) = a.get(2) {
            sp.plan = vec![crate::shim::Plan { at: n.parse().unwrap(), kind: crate::shim::P_ERR, arg: 5 }];
        }
        let (o, t) = run_on(&w, &s.init, &sp);
        for (i, e) in o.ev.iter().enumerate() {
            println!("{:4} {}{}", i, if e.mutating { "* " } else { "  " }, e.show());
        }
        println!("code {} outside {}\n{}\n{}", o.code, o.outside, o.err, show(&t));
        return 0;
    }
    let rem = Rem::parse(a[0]);
    let t = store(&[b("1"), b("2")], &[b("3"), p("1", "2"), p("2", "3")], rem, Some("1"));
    let n: usize = std::env::var("N").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let t0 = std::time::Instant::now();
    for i in 0..n {
        let (o, s) = run_on(&w, &t, &on(rem, &a[1..]));
        if i == 0 {
            for e in &o.ev {
                println!("{}{}", if e.mutating { "* " } else { "  " }, e.show());
            }
            println!("code {} outside {}\n{}\n{}", o.code, o.outside, o.err, show(&s));
        }
    }
    println!("{:?} per run", t0.elapsed() / n as u32);
    let _ = std::fs::remove_dir_all(&w.root);
    0
}
