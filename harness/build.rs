//! Builds the native side of the hooks (replay and validation) as an object
//! file, so that the LTO never sees through it.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/stub.o");
    let ok = Command::new("gcc")
        .args(["-O1", "-c", "src/stub.c", "-o", &obj])
        .status()
        .map(|s| s.success())
        .unwrap_or(false);
    assert!(ok, "gcc failed on src/stub.c");
    println!("cargo:rustc-link-arg-bins={obj}");
    println!("cargo:rerun-if-changed=src/stub.c");
}
