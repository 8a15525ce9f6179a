// Compiles the __float128 shim (libquadmath) that the 64-bit oracles use.
use std::{env, path::Path, process::Command};

fn run(c: &mut Command) {
    let s = c.status().unwrap_or_else(|e| panic!("cannot run {:?}: {}", c, e));
    assert!(s.success(), "{:?} failed", c);
}

fn main() {
    println!("cargo:rerun-if-changed=cshim/q.c");
    let out = env::var("OUT_DIR").unwrap();
    let o = Path::new(&out).join("q.o");
    let a = Path::new(&out).join("libqshim.a");
    let _ = std::fs::remove_file(&a);
    run(Command::new("gcc").args(["-O2", "-c", "cshim/q.c", "-fPIC", "-o"]).arg(&o));
    run(Command::new("ar").arg("rcs").arg(&a).arg(&o));
    let lib = Command::new("gcc").arg("-print-file-name=libquadmath.a").output().expect("gcc");
    let lib = String::from_utf8(lib.stdout).unwrap();
    let dir = Path::new(lib.trim()).parent().unwrap().to_path_buf();
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-search=native={}", dir.display());
    println!("cargo:rustc-link-lib=static=qshim");
    println!("cargo:rustc-link-lib=static=quadmath");
    println!("cargo:rustc-link-lib=m");
}
