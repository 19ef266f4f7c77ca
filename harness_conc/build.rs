//! Compiles the runtime behind the compiler's thread instrumentation (rt.c).
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/rt.o");
    let ok = std::process::Command::new("cc").args(["-O2", "-fPIC", "-c", "rt.c", "-o", &o]).status().map(|s| s.success()).unwrap_or(false);
    assert!(ok, "cc failed on rt.c");
    println!("cargo:rustc-link-arg={o}");
    println!("cargo:rerun-if-changed=rt.c");
}
