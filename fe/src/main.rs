//! A build script: runs the commands given as arguments, in order.
//!
//!   prefix=TEXT  dirs=A,B  prefixes=A,B  links=A,B  doxygen=1   set CFG
//!   bridge=A,B       cxx_build::bridges on these files
//!   show get tget    print CFG (as a whole, field by field, in another thread)
//!   noargs           do not ask for the compiler's arguments
//!   see main for the others
use cxx_build::CFG;
use std::path::Path;

fn list(v: &str) -> Vec<&'static str> {
    v.split(',').filter(|s| !s.is_empty()).map(|s| &*s.to_owned().leak()).map(|s| if s == "{empty}" { "" } else { s }).collect()
}

fn get() {
    println!("GET {:?} {:?} {:?} {:?} {:?}", CFG.include_prefix, CFG.exported_header_dirs, CFG.exported_header_prefixes, CFG.exported_header_links, CFG.doxygen);
}

fn main() {
    let mut noargs = false;
    for arg in std::env::args().skip(1) {
        let arg: &'static str = arg.leak();
        let (k, v) = arg.split_once('=').unwrap_or((arg, ""));
        match k {
            "prefix" => CFG.include_prefix = v,
            "dirs" => CFG.exported_header_dirs = list(v).into_iter().map(Path::new).collect(),
            "prefixes" => CFG.exported_header_prefixes = list(v),
            "links" => CFG.exported_header_links = list(v),
            "doxygen" => CFG.doxygen = v == "1",
            // do not ask the compiler
            "noargs" => noargs = true,
            "+dirs" => CFG.exported_header_dirs.push(Path::new(v)),
            "+prefixes" => CFG.exported_header_prefixes.push(v),
            "+links" => CFG.exported_header_links.push(v),
            "popdirs" => drop(CFG.exported_header_dirs.pop()),
            // the same in another thread
            "tprefix" => std::thread::spawn(move || CFG.include_prefix = v).join().unwrap(),
            "t+links" => std::thread::spawn(move || CFG.exported_header_links.push(v)).join().unwrap(),
            "show" => println!("{:?}", CFG),
            "get" => get(),
            "tget" => std::thread::spawn(get).join().unwrap(),
            "bridge" => {
                let b = cxx_build::bridges(v.split(',').filter(|s| !s.is_empty()));
                // the include directories the compiler will get, in order
                println!("BUILD {:?}", b.get_files().map(|p| p.display().to_string()).collect::<Vec<_>>());
                let mut b = b;
                if noargs {
                    continue;
                }
                if let Ok(c) = b.cpp(true).cargo_metadata(false).target("x86_64-unknown-linux-gnu").host("x86_64-unknown-linux-gnu").opt_level(0).out_dir("/nonexistent").try_get_compiler() {
                    for a in c.args() {
                        println!("ARG {}", a.to_string_lossy());
                    }
                }
            }
            _ => panic!("what is {}", k),
        }
    }
    println!("DONE");
}
