//! Makes the real `main` functions of both programs callable from the simulator.
use std::{env, fs, path::Path};

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    for n in ["nameserver", "resolver"] {
        let p = format!("/repo/src/bin/{}.rs", n);
        println!("cargo:rerun-if-changed={}", p);
        let t = fs::read_to_string(&p).unwrap();
        // Inner attributes and inner doc comments are not allowed in an included file.
        let t: Vec<&str> = t.lines().filter(|l| !l.trim_start().starts_with("#![") && !l.trim_start().starts_with("//!")).collect();
        let t = format!("{}\n\npub fn __dst_main() {{\n    let _ = main();\n}}\n", t.join("\n"));
        fs::write(Path::new(&out).join(format!("{}_main.rs", n)), t).unwrap();
    }
    println!("cargo:rerun-if-changed=build.rs");
}
