//! Compiles the C side of the harness against the published header of the tree under test.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=/verif/mc/c/wrap.c");
    println!("cargo:rerun-if-changed=/repo/imagequant-sys/libimagequant.h");
    println!("cargo:rerun-if-env-changed=MC_NO_C");
    println!("cargo:rustc-check-cfg=cfg(no_c)");
    if std::env::var("MC_NO_C").is_ok() { println!("cargo:rustc-cfg=no_c"); return; }
    let o = format!("{out}/wrap.o");
    let ok = Command::new("gcc").args(["-O1", "-g", "-fPIC", "-w", "-fno-delete-null-pointer-checks", "-I/repo/imagequant-sys", "-c", "/verif/mc/c/wrap.c", "-o", &o]).status().unwrap().success();
    assert!(ok, "gcc failed on c/wrap.c");
    println!("cargo:rerun-if-changed=/verif/mc/c/cov.c");
    let o2 = format!("{out}/cov.o");
    let fine = std::env::var("CARGO_FEATURE_FINE").is_ok();
    if fine { assert!(Command::new("gcc").args(["-O2", "-fPIC", "-w", "-c", "/verif/mc/c/cov.c", "-o", &o2]).status().unwrap().success(), "gcc failed on c/cov.c"); }
    let a = format!("{out}/libmcwrap.a");
    let _ = std::fs::remove_file(&a);
    let ok = Command::new("ar").args(["rcs", &a, &o]).args(if fine { vec![&o2] } else { vec![] }).status().unwrap().success();
    assert!(ok, "ar failed");
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=mcwrap");
}
