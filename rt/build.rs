use std::env;
fn main() {
    let mut bridges = vec![];
    let mut ccs = vec!["cc/sys.cc".to_owned()];
    for n in 1..=12 {
        if env::var_os(format!("CARGO_FEATURE_C{n:02}")).is_some() {
            for suf in ["", "a", "b", "c", "d"] {
                let p = format!("src/c{n:02}{suf}.rs");
                if std::path::Path::new(&p).exists() {
                    bridges.push(p);
                }
            }
            let base = format!("cc/c{n:02}");
            for suf in ["", "a", "b", "c", "d"] {
                let p = format!("{base}{suf}.cc");
                if std::path::Path::new(&p).exists() {
                    ccs.push(p);
                }
            }
        }
    }
    if bridges.is_empty() {
        return;
    }
    println!("cargo:rerun-if-changed=cc");
    println!("cargo:rerun-if-changed=src");
    cxx_build::bridges(&bridges)
        .files(&ccs)
        .include("cc")
        .std("c++20")
        .link_lib_modifier("+whole-archive")
        .flag("-O1")
        .flag("-g1")
        .flag("-Wno-unused-parameter")
        .compile("vkrt");
}
