mod exec;
mod fix;
mod hist;
mod par;
mod props;
mod s3;
mod shim;
mod real {
    #![allow(unused)]
    include!(concat!(env!("OUT_DIR"), "/real.rs"));
}
use std::os::unix::process::CommandExt;
use std::path::PathBuf;

pub fn verif_dir() -> PathBuf {
    std::env::var_os("MC_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    match args.iter().position(|a| a == "--pad") {
        Some(i) => args.truncate(i),
        None => {
            // room in the argument vector for the command lines of the code under test
            let e = std::process::Command::new("/proc/self/exe").args(&args).arg("--pad").args(std::iter::repeat("x").take(60)).env_remove("RUST_BACKTRACE").env_remove("RUST_LOG").exec();
            panic!("exec: {}", e);
        }
    }
    std::env::set_var("AWS_ACCESS_KEY_ID", "k");
    std::env::set_var("AWS_SECRET_ACCESS_KEY", "s");
    s3::install();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id, rest @ ..] => {
            let tier = match rest {
                ["--tier", t] => t.to_string(),
                _ => std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
            };
            let p = props::get(id);
            let mut ctl = par::Ctl::new(id, &tier);
            p.explore(&mut ctl);
            ctl.finish(&*p)
        }
        ["replay", f] => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(f).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap();
            let p = props::get(id);
            let ctl = par::Ctl::new(id, "quick");
            let mut cx = ctl.cx(0);
            cx.cur = v["case"].clone();
            p.case(&mut cx, &v["case"]);
            for x in &cx.viols {
                println!("VIOLATION property={} replay={}\n  {} [{}]", id, f, x.msg, x.key);
            }
            let c = if cx.viols.is_empty() { 0 } else { 1 };
            let _ = std::fs::remove_dir_all(&ctl.base);
            c
        }
        ["try", rest @ ..] => props::try_it(rest),
        _ => {
            eprintln!("usage: mc check Cxx [--tier quick|thorough] | mc replay FILE");
            2
        }
    };
    std::process::exit(code);
}
