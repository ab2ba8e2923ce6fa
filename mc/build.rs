// The code under test is the tool's real main function, taken in as a module.
fn main_module(out: &str) {
    println!("cargo:rerun-if-changed=/repo/src");
    println!("cargo:rerun-if-changed=/repo/Cargo.toml");
    let src = std::fs::read_to_string("/repo/src/main.rs").expect("/repo/src/main.rs");
    let mut s = String::new();
    for l in src.lines() {
        let t = l.trim_start();
        if t.starts_with("//!") || t.starts_with("#![") {
            s.push('\n');
            continue;
        }
        let m = t.strip_prefix("pub ").or(t.strip_prefix("pub(crate) ")).unwrap_or(t);
        if let Some(n) = m.strip_prefix("mod ").and_then(|r| r.split("//").next().unwrap().trim().strip_suffix(';')) {
            let n = n.trim();
            let p = [format!("/repo/src/{}.rs", n), format!("/repo/src/{}/mod.rs", n)].into_iter().find(|p| std::path::Path::new(p).exists());
            if let Some(p) = p {
                s += &format!("#[path = \"{}\"] mod {};\n", p, n);
                continue;
            }
        }
        s += l;
        s.push('\n');
    }
    s += "\npub fn run() -> i32 { crate::exec::Exit::code(main()) }\n";
    std::fs::write(format!("{}/real.rs", out), s).unwrap();
}
fn main() {
    println!("cargo:rerun-if-changed=shim.c");
    println!("cargo:rerun-if-changed=shim.h");
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic");
    let out = std::env::var("OUT_DIR").unwrap();
    main_module(&out);
    let obj = format!("{}/shim.o", out);
    let ok = std::process::Command::new("cc")
        .args(["-O2", "-g", "-fPIC", "-Wall", "-Wno-nonnull-compare", "-c", "shim.c", "-o", &obj])
        .status()
        .unwrap()
        .success();
    assert!(ok, "cc failed");
    println!("cargo:rustc-link-arg-bins={}", obj);
}
