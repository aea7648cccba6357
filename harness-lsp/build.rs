fn main() {
    let here = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/build-info.txt"), "harness\n").unwrap();
    println!("cargo:rustc-cfg=verif_harness");
    println!("cargo:rustc-env=VERIF_HARNESS={here}/src/harness.rs");
    println!("cargo:rerun-if-changed=build.rs");
}
